package main

import (
	"fmt"
	"strings"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
	"github.com/suiyunonghen/dxsvalue/verifrt"
)

// Codecs over the size grids: one kind of tree, every size of the grid.

type sizedKind struct {
	name string
	max  int // 0: none; decoding maps takes quadratic work
	bin  bool
	mk   func(n int) *M
}

func entriesOf(n int, f func(i int) *M) *M {
	m := &M{K: KArr}
	for i := 0; i < n; i++ {
		m.Vals = append(m.Vals, f(i))
	}
	return m
}

func textOf(n, at int, special string) string {
	s := strOfLen(n)
	at = max(0, min(at, n))
	return s[:at] + special + s[at:]
}

func sizedKinds() []sizedKind {
	var ks []sizedKind
	add := func(name string, max int, bin bool, mk func(n int) *M) {
		ks = append(ks, sizedKind{name, max, bin, mk})
	}
	add("plain text", 0, false, func(n int) *M { return mStr(strOfLen(n)) })
	for _, sp := range []string{"\n", "\"", "\\", "é", "中", "😀", "\x01", "/"} {
		sp := sp
		for _, where := range []string{"first", "middle", "last but one", "last"} {
			where := where
			pos := func(n int) int {
				return map[string]int{"first": 0, "middle": n / 2, "last but one": n - 1 - len(sp), "last": n - len(sp)}[where]
			}
			add(fmt.Sprintf("text with %q %s", sp, where), 0, false, func(n int) *M { return mStr(textOf(n-len(sp), pos(n), sp)) })
			if where == "middle" || where == "last" {
				add(fmt.Sprintf("key with %q %s", sp, where), 0, false, func(n int) *M {
					k := textOf(n-len(sp), pos(n), sp)
					return mObj(k, mInt(1), "Q"+k[1:]+"Q", mStr(k))
				})
			}
		}
		add(fmt.Sprintf("text of %q", sp), 0, false, func(n int) *M { return mStr(strings.Repeat(sp, n/len(sp))) })
		add(fmt.Sprintf("every tenth %q", sp), 0, false, func(n int) *M { return mStr(strings.Repeat("abcdefghi"+sp, n/(9+len(sp)))) })
	}
	add("integers", 0, false, arrOfLen)
	add("wide integers", 0, false, func(n int) *M {
		return entriesOf(n, func(i int) *M { return mInt(int64(i) * 0x1234567 * int64(i%3-1)) })
	})
	add("doubles", 0, false, func(n int) *M { return entriesOf(n, func(i int) *M { return mDbl(float64(i) + 0.25) }) })
	add("texts", 0, false, func(n int) *M { return entriesOf(n, func(i int) *M { return mStr("t" + itoa(i)) }) })
	add("escaped texts", 0, false, func(n int) *M { return entriesOf(n, func(i int) *M { return mStr("t\n\"é" + itoa(i)) }) })
	add("mixed entries", 0, false, func(n int) *M {
		return entriesOf(n, func(i int) *M {
			return []*M{mInt(int64(i)), mStr("x" + itoa(i)), mDbl(0.5), mK(KTrue), mK(KFalse), mK(KNull), mObj("k"+itoa(i), mInt(int64(i))), mArr(mInt(int64(i))), mObj(), mArr(), mStr("é\n"), mStr("")}[i%12]
		})
	})
	add("mixed members", 1100, false, func(n int) *M {
		m := mObj()
		for i := 0; i < n; i++ {
			m.Keys = append(m.Keys, "m"+[]string{"", "\n", "é", "\\"}[i%4]+itoa(i))
			m.Vals = append(m.Vals, []*M{mInt(int64(i)), mStr("x" + itoa(i)), mDbl(0.5), mK(KTrue), mK(KNull), mObj("k"+itoa(i), mInt(int64(i))), mArr(mInt(int64(i))), mObj(), mArr(), mStr("é\n")}[i%10])
		}
		return m
	})
	add("members", 1100, false, objOfLen)
	add("arrays in arrays", 1100, false, func(n int) *M {
		m := mArr(mInt(1))
		for i := 0; i < n; i++ {
			m = mArr(mInt(int64(i)), m)
		}
		return m
	})
	add("objects in objects", 1100, false, func(n int) *M {
		m := mStr("\n")
		for i := 0; i < n; i++ {
			m = mObj("k", m, "n\n"+itoa(i), mInt(int64(i)))
		}
		return m
	})
	add("objects and arrays in turn", 1100, false, func(n int) *M {
		m := mStr("\n")
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				m = mObj("a", m)
			} else {
				m = mArr(m, mInt(int64(i)))
			}
		}
		return m
	})
	add("objects of two", 0, false, func(n int) *M {
		return entriesOf(n/4, func(i int) *M { return mObj("id", mInt(int64(i)), "name\n", mStr("v"+itoa(i))) })
	})
	add("binary", 0, true, func(n int) *M { return mBin(bytesOfLen(n)) })
	add("extension", 0, true, func(n int) *M { return mExt(5, bytesOfLen(n)) })
	add("binaries", 0, true, func(n int) *M { return entriesOf(n/3, func(i int) *M { return mBin(bytesOfLen(i % 40)) }) })
	return ks
}

// overGrid makes one case of every kind and size.
func overGrid(c *Ctx, bins bool, quickMax, fullMax int, f func(t *T, k sizedKind, m *M)) {
	lim := quickMax
	if !c.quick {
		lim = fullMax
	}
	n := 0
	for _, k := range sizedKinds() {
		if k.bin && !bins {
			continue
		}
		n++
		for i, size := range sizeGrid(lim) {
			km := k.max
			if km > 0 && !c.quick {
				km *= 4
			}
			if km > 0 && size > km || c.quick && size > 600 && i%3 == 0 {
				continue
			}
			k, size := k, size
			wcase(c, func() string { return fmt.Sprintf("%s, size %d", k.name, size) }, func(t *T) { f(t, k, k.mk(size)) })
		}
		if c.Stop() {
			return
		}
	}
	c.Bound("size_grid", fmt.Sprintf("%d kinds of tree at every size of the grid 64..%d", n, lim))
}

func c01wide(c *Ctx) {
	overGrid(c, false, 8193, 70000, func(t *T, k sizedKind, m *M) {
		jsonRoundTrip(t, m, true)
		if m.K == KStr || k.max == 0 && m.size() < 3000 {
			jsonRoundTrip(t, mArr(m, mInt(7), mObj("k", m)), true)
		}
	})
}

func (m *M) size() int {
	n := len(m.S) + len(m.B)
	eachNode(m, func(*M) { n++ })
	return n
}

func c03wide(c *Ctx) {
	overGrid(c, true, 8193, 70000, func(t *T, k sizedKind, m *M) { mpRoundTrip(t, mObj("a", m, "b", mInt(7)), true) })
}

func c05wide(c *Ctx) {
	overGrid(c, true, 8193, 70000, func(t *T, k sizedKind, m *M) {
		if !hasNulKey(m) && m.K != KExt {
			bsonRoundTrip(t, mObj("a", m, "b", mInt(7)), true)
		}
	})
}

func c08wide(c *Ctx) {
	ls := []*layout{{indent: 2, compact: true, gap: 1, cgap: 1, eol: "\n", final: true}, {indent: 3, aligned: true, gap: 2, cgap: 1, eol: "\r\n", noise: 3}}
	overGrid(c, false, 4097, 40000, func(t *T, k sizedKind, m *M) {
		for i, w := range []*M{mArr(m, mInt(7)), mObj("a", m, "b", mArr(mInt(7), mStr("x"))), m} {
			if !yamlable(w) || w.K != KArr && w.K != KObj {
				continue
			}
			yamlDecide(t, w, ls[i%2].render(yOf(w)), jsonEq, false)
		}
		t.State(k.name + itoa(m.size()))
	})
}

// c10wide: the buffer is overwritten right after decoding, before anything is read.
func c10wide(c *Ctx) {
	overGrid(c, true, 5000, 70000, func(t *T, k sizedKind, m *M) {
		w := mObj("a", m, "b", mArr(mInt(7), mStr("x\n")))
		for _, f := range []string{"json", "mp", "bson", "yaml"} {
			if f == "json" && !jsonable(w) || f == "yaml" && !yamlable(w) || f == "bson" && hasNulKey(w) {
				continue
			}
			b := encodeFor(f, w)
			var m0 *M
			for di, dec := range formats[f].decs {
				_, in := guarded(b)
				v, err := dec.f(in)
				if err != nil {
					t.Failf("%s: %v", dec.name, err)
				}
				t.Op()
				if m0 == nil {
					m0 = observe(v)
					if string(in) != string(b) {
						t.Failf("%s: reading changed the input", dec.name)
					}
					v, _ = dec.f(in)
				}
				if dec.share {
					observe(v)
					v.ToMsgPack(nil)
					v.ToJson(false, d.JSE_AllEscape, false, nil)
					if string(in) != string(b) {
						t.Failf("%s: reading changed the input", dec.name)
					}
					continue
				}
				overwrite(in, di%4)
				if s := full(v, m0, eqOpt{tol: 2 * time.Second}); s != "" {
					t.Failf("%s: overwriting the input changes the value: %s", dec.name, short(s))
				}
				t.Trace()
			}
		}
		t.State(k.name + itoa(m.size()))
	})
}

// c18wide: every read leaves every other read as it was.
func c18wide(c *Ctx) {
	overGrid(c, true, 1100, 20000, func(t *T, k sizedKind, m *M) {
		ws := []*M{mObj("a", m, "b\n", mArr(mInt(7), mStr("x\n"), mStr("\\")))}
		if m.K == KObj || m.K == KArr {
			ws = append(ws, m) // at the root, so that its own entries are the ones read
		}
		for _, w := range ws {
			c18reads(t, w)
		}
		t.State(k.name + itoa(m.size()))
	})
}

// c18reads makes every read after every other, on a built and on a decoded value.
func c18reads(t *T, w *M) {
	type src struct {
		name string
		mk   func() *d.DxValue
	}
	srcs := []src{{"built", func() *d.DxValue { return build(w, false) }}}
	if jsonable(w) {
		b := encodeFor("json", w)
		srcs = append(srcs, src{"decoded", func() *d.DxValue {
			v, err := d.NewValueFromJson(clone(b), false, false)
			if err != nil {
				t.Failf("%v", err)
			}
			return v
		}})
	} else {
		b := encodeFor("mp", w)
		srcs = append(srcs, src{"decoded", func() *d.DxValue {
			v, err := d.NewValueFromMsgPack(clone(b), false, false)
			if err != nil {
				t.Failf("%v", err)
			}
			return v
		}})
	}
	for _, s := range srcs {
		ops := rootReads(w)
		want := make([]string, len(ops))
		for i, o := range ops {
			want[i] = o.f(s.mk())
			t.Op()
		}
		// every read twice, after the read before it, on one value, in both directions
		v := s.mk()
		step := func(i int) {
			if got := ops[i].f(v); got != want[i] {
				t.Failf("%s: after other reads %s gives %s, on a fresh value %s", s.name, ops[i].name, short(got), short(want[i]))
			}
			t.Op()
		}
		for i := range ops {
			step(i)
			step(i)
		}
		for i := len(ops) - 1; i >= 0; i-- {
			step(i)
		}
		heldCheck(t, func() string { return s.name + ": reads one after another" })
		t.Trace()
	}
}

func c25wide(c *Ctx) {
	overGrid(c, false, 520, 5100, func(t *T, k sizedKind, m *M) {
		if m.K == KObj || m.K == KArr {
			exploreChains(t, m, 2, 60, 2)
		} else {
			exploreChains(t, mObj("a", m, "b", mArr(m, mInt(1))), 2, 60, 2)
		}
	})
}

// c26wide: a document of every size loaded over documents of every kind, and the other way round.
func c26wide(c *Ctx) {
	load := func(t *T, v *d.DxValue, f string, b []byte, share bool) {
		var err error
		switch f {
		case "json":
			err = v.LoadFromJson(clone(b), share)
		case "mp":
			err = v.LoadFromMsgPack(clone(b), share)
		default:
			err = v.LoadFromBson(clone(b), share)
		}
		t.Op()
		if err != nil {
			t.Failf("loading %s: %v", f, err)
		}
	}
	smalls := []*M{mObj("s", mInt(1), "t", mArr(mStr("x"))), mObj(), mObj("a", mStr("text\n")), mObj("a", mArr(), "zz", mObj("y", mK(KNull)))}
	overGrid(c, true, 5000, 70000, func(t *T, k sizedKind, m *M) {
		big := mObj("a", m, "b", mArr(mInt(7), mStr("x\n")))
		for _, f := range []string{"json", "mp", "bson"} {
			if f == "json" && !jsonable(big) || f == "bson" && hasNulKey(big) {
				continue
			}
			b := encodeFor(f, big)
			ref, err := decodeBy(f, string(b), false)
			if err != nil {
				t.Failf("%s: %v", f, err)
			}
			m0 := observe(ref)
			for _, cached := range []bool{false, true} {
				verifrt.ResetPools()
				v := d.NewObject(false)
				if cached {
					v = d.NewCacheValue(d.VT_Object)
				}
				for si, s := range smalls {
					load(t, v, f, encodeFor(f, s), si%2 == 1)
					if x := diff(s, observe(v), formatEq); x != "" {
						t.Failf("%s cached=%v small over large: %s", f, cached, short(x))
					}
					load(t, v, f, b, si >= 2)
					if x := full(v, m0, eqOpt{tol: 2 * time.Second}); x != "" {
						t.Failf("%s cached=%v large over small: %s", f, cached, short(x))
					}
					if si == 1 {
						cut := b[:len(b)-1]
						var e error
						switch f {
						case "json":
							e = v.LoadFromJson(clone(cut), false)
						case "mp":
							e = v.LoadFromMsgPack(clone(cut), false)
						default:
							e = v.LoadFromBson(clone(cut), false)
						}
						if e == nil || v.Count() != 0 {
							t.Failf("%s cached=%v: after loading all but the last byte: error %v, %d entries", f, cached, e, v.Count())
						}
					}
				}
				t.Trace()
			}
		}
		t.State(k.name + itoa(m.size()))
	})
}

// c09wide: many anchors, many uses, large anchored values, long names, texts of several lines.
func c09wide(c *Ctx) {
	lim := 1030
	if !c.quick {
		lim = 5001
	}
	lay := []*layout{{indent: 2, compact: true, gap: 1, cgap: 1, eol: "\n", final: true}, {indent: 1, aligned: true, gap: 1, cgap: 1, eol: "\r\n", noise: 3}}
	eq := eqOpt{numeric: true, unord: true}
	num := func(i int) *Y { return ySc(mInt(int64(i))) }
	kinds := []struct {
		name string
		mk   func(n int) *Y
	}{
		{"anchors, all used", func(n int) *Y {
			y := &Y{k: KArr}
			for i := 0; i < n; i++ {
				y.vals = append(y.vals, yAn("a"+itoa(i), yMap("v", num(i))))
			}
			for i := 0; i < n; i++ {
				y.vals = append(y.vals, yAl("a"+itoa((i*7+3)%n)))
			}
			return y
		}},
		{"redefinitions", func(n int) *Y {
			y := &Y{k: KArr}
			for i := 0; i < n; i++ {
				y.vals = append(y.vals, yMap("d", yAn("a", yMap("v", num(i))), "u", yAl("a")))
			}
			return y
		}},
		{"uses of one anchor", func(n int) *Y {
			y := ySeq(yAn("a", yMap("p", num(1), "q", ySeq(num(2)))))
			for i := 0; i < n; i++ {
				if i%3 == 0 {
					y.vals = append(y.vals, yMap("<<", yAl("a"), "p", num(i)))
				} else {
					y.vals = append(y.vals, yAl("a"))
				}
			}
			return y
		}},
		{"entries merged", func(n int) *Y {
			o, own := &Y{k: KObj}, yMap("<<", yAl("a"))
			for i := 0; i < n; i++ {
				o.keys, o.vals = append(o.keys, "k"+itoa(i)), append(o.vals, num(i))
			}
			for _, i := range picks(n) {
				own.keys, own.vals = append(own.keys, "k"+itoa(i)), append(own.vals, yMap("own", num(i)))
			}
			return yMap("x", yAn("a", o), "y", own, "z", yMap("m", num(1), "<<", yAl("a")), "w", yAl("a"))
		}},
		{"own entries before the merge", func(n int) *Y {
			own := &Y{k: KObj}
			for i := 0; i < n; i++ {
				own.keys, own.vals = append(own.keys, "k"+itoa(i)), append(own.vals, num(i))
			}
			own.keys, own.vals = append(own.keys, "<<"), append(own.vals, yAl("a"))
			return yMap("x", yAn("a", yMap("k0", ySc(mStr("a")), "new", num(1), "k"+itoa(n-1), ySc(mStr("b")))), "y", own)
		}},
		{"entries of an anchored list", func(n int) *Y {
			a := &Y{k: KArr}
			for i := 0; i < n; i++ {
				a.vals = append(a.vals, ySc(mStr("s"+itoa(i))))
			}
			return yMap("x", yAn("a", a), "y", yAl("a"), "z", ySeq(num(1), yAl("a")))
		}},
		{"characters in an anchored text", func(n int) *Y {
			return yMap("x", yAn("a", ySc(mStr(strOfLen(n)))), "y", yAl("a"), "z", ySeq(yAl("a"), yAl("a")))
		}},
		{"characters in the name", func(n int) *Y {
			s := strOfLen(n)
			return yMap("x", yAn(s, num(1)), "x2", yAn(s[:n-1]+"Q", num(2)), "x3", yAn(s[:n-1], num(3)), "x4", yAn("Q"+s[1:], num(4)), "y", yAl(s), "z", yAl(s[:n-1]+"Q"), "w", yAl(s[:n-1]), "v", yAl("Q"+s[1:]))
		}},
	}
	for _, k := range kinds {
		for i, n := range sizeGrid(lim) {
			if c.quick && i%2 == 1 && n > 300 {
				continue
			}
			k, n := k, n
			wcase(c, func() string { return fmt.Sprintf("%d %s", n, k.name) }, func(t *T) {
				y := k.mk(n)
				e := &yenv{vals: map[string]*M{}}
				want := e.expand(y)
				for _, l := range lay {
					yamlDecide(t, want, l.render(y), eq, false)
				}
				t.State(k.name + itoa(n))
			})
		}
	}
	c.Bound("size_grid", fmt.Sprintf("%d kinds of document at the sizes of the grid 64..%d", len(kinds), lim))
	// anchored texts that go on over several lines
	for _, first := range []string{"x", "two words", "1.50", "true", ""} {
		for n := 0; n < 5; n++ {
			first, n := first, n
			c.Case(func() string { return fmt.Sprintf("anchored text of %q and %d lines", first, n) }, func(t *T) {
				text := first
				var lines []string
				for i := 0; i < n; i++ {
					lines = append(lines, []string{"y", "2.50", "z w", "-1"}[i%4])
				}
				if first == "" && n < 2 || n == 0 {
					return
				}
				if first == "" {
					text = strings.Join(lines, " ")
				} else {
					text += " " + strings.Join(lines, " ")
				}
				m := mStr(text)
				head := "&a"
				if first != "" {
					head = "&a " + first
				}
				tail := func(in string) string {
					s := ""
					for _, l := range lines {
						s += "\n" + in + l
					}
					return s + "\n"
				}
				for _, eol := range []string{"\n", "\r\n"} {
					for _, in := range []string{" ", "    "} {
						docs := []string{"p: " + head + tail(in) + "q: *a\n", "- r: 1\n  p: " + head + tail("  "+in) + "- q: *a\n"}
						wants := []*M{mObj("p", m, "q", m), mArr(mObj("r", mInt(1), "p", m), mObj("q", m))}
						if first != "" {
							docs = append(docs, "- "+head+tail(in)+"- *a\n")
							wants = append(wants, mArr(m, m))
						}
						for i, doc := range docs {
							doc = strings.Replace(doc, "\n", eol, -1)
							yamlDecide(t, wants[i], doc, eq, true)
							for _, dec := range yamlDecs {
								yamlIndependent(t, dec, doc)
							}
							t.State(doc)
						}
					}
				}
			})
		}
	}
}

// c13sized: a copy of a tree of every size stays when every node of its source is written over, and the other way round.
func c13sized(c *Ctx) {
	overGrid(c, true, 520, 5100, func(t *T, k sizedKind, m *M) {
		turn := m.size()
		for _, w := range []*M{m, mObj("l", mArr(), "o", mObj(), "a", m, "e", mArr(), "b", mBin([]byte{1}), "x", mExt(7, []byte{2}), "s", mStr("s\n"), "i", mInt(1), "p", mObj())} {
			for _, p := range producers() {
				if !p.ok(w) {
					continue
				}
				for _, cp := range copiers() {
					if !cp.ok(w) || strings.HasPrefix(cp.name, "merge array") && w.K == KArr {
						continue
					}
					if turn++; c.quick && turn%5 != 0 {
						continue
					}
					for side := 0; side < 2; side++ {
						src := p.f(w)
						r := cp.f(src)
						t.Op()
						what := "the source"
						if side == 0 {
							what = "the copy"
							src, r = r, src
						}
						scramble(src)
						if s := full(r, w, eqOpt{tol: 2 * time.Millisecond}); s != "" {
							t.Failf("%s of %s: after %s was written over, the other reads: %s", cp.name, p.name, what, short(s))
						}
						t.Trace()
					}
				}
			}
		}
		t.State("sized" + k.name + itoa(m.size()))
	})
}
