package main

import (
	"fmt"

	d "github.com/suiyunonghen/dxsvalue"
)

// C01: JSON round trip over every tree of the bounded space, in every mode.

func init() {
	register("C01", runC01,
		"every tree (all shapes up to a node bound over a small leaf alphabet; every leaf and key of the large alphabets in every context) is built with the setters, encoded by every encoder, checked with encoding/json, decoded by every decoder and compared with the reference tree; decoded values are re-encoded without being read",
		"encoding/json is the trusted reference for JSON text")
}

// jsonRoundTrip checks one tree in all modes.
func jsonRoundTrip(t *T, m *M, lite bool) {
	esc := treeNeedsEscape(m)
	for _, cached := range []bool{false, true} {
		if cached && lite {
			continue
		}
		v := build(m, cached)
		t.Op()
		for ei, e := range jsonEncs {
			if e.style == d.JSE_NoEscape && esc {
				continue
			}
			if lite && ei > 3 {
				break
			}
			text := e.f(v)
			t.Op()
			ref, err := refJSON(text)
			if err != nil {
				t.Failf("%s (cached=%v) of %v is not standard JSON: %v\n%s", e.name, cached, m, err, short(string(text)))
			}
			if s := diff(m, ref, jsonEq); s != "" {
				t.Failf("%s (cached=%v) of %v denotes another tree: %s\n%s", e.name, cached, m, s, short(string(text)))
			}
			if cached && ei > 1 {
				continue // the text was decoded in all modes already
			}
			for di, dec := range jsonDecs {
				if lite && di > 3 && di != 6 {
					break
				}
				got, err := dec.f(clone(text))
				t.Op()
				if err != nil {
					t.Failf("%s rejects %s: %v", dec.name, short(string(text)), err)
				}
				// re-encode before anything has been read
				if di < 4 && ei < 4 {
					e2 := jsonEncs[(ei+di)%4]
					again, err := refJSON(e2.f(got))
					t.Op()
					if err != nil {
						t.Failf("%s after %s of %s is not JSON: %v\n%s", e2.name, dec.name, short(string(text)), err, short(string(e2.f(got))))
					}
					if s := diff(m, again, jsonEq); s != "" {
						t.Failf("%s after %s of %s denotes another tree: %s", e2.name, dec.name, short(string(text)), s)
					}
				}
				if s := full(got, m, jsonEq); s != "" {
					t.Failf("%s of %s: %s", dec.name, short(string(text)), s)
				}
				if dec.cached {
					d.FreeValue(got)
				}
				t.Trace()
			}
		}
		if cached {
			d.FreeValue(v)
		}
	}
	t.State(m.String())
}

// jsonLeaves is the large leaf alphabet.
func jsonLeaves(c *Ctx) []*M {
	var l []*M
	for _, i := range boundaryInts() {
		l = append(l, mInt(i))
	}
	for _, f := range boundaryFloats() {
		l = append(l, mDbl(f), mDbl(-f))
	}
	for _, f := range boundaryF32() {
		l = append(l, mFlt(f))
	}
	l = append(l, mK(KTrue), mK(KFalse), mK(KNull), mArr(), mObj())
	for _, n := range boundaryLens(false) {
		l = append(l, mStr(strOfLen(n)))
	}
	return l
}

func runC01(c *Ctx) {
	c01alike(c)
	c01blobs(c)
	c01odd(c)
	c01pairs(c)
	c01wide(c)
	n := 5
	sl := 2
	if !c.quick {
		n, sl = 6, 3
	}
	small := []*M{mInt(1), mStr("\"\n"), mK(KNull)}
	shapes(n, small, []string{"a", "b\\", "é"}, "", c.Stop, func(m *M) {
		c.Case(func() string { return "tree " + m.String() }, func(t *T) { jsonRoundTrip(t, m, false) })
	})
	c.Bound("tree_nodes", fmt.Sprint(n))
	for _, x := range jsonLeaves(c) {
		for _, m := range contexts(x) {
			m := m
			c.Case(func() string { return "leaf " + m.String() }, func(t *T) { jsonRoundTrip(t, m, false) })
		}
	}
	// an integer sweep across every digit and width boundary that fits
	lo, hi := -2000, 2000
	if !c.quick {
		lo, hi = -40000, 70000
	}
	for i := lo; i < hi; i += 50 {
		m := &M{K: KArr}
		for j := i; j < i+50; j++ {
			m.Vals = append(m.Vals, mInt(int64(j)))
		}
		c.Case(func() string { return "int sweep " + m.String() }, func(t *T) { jsonRoundTrip(t, m, true) })
	}
	strs := append(runeStrings(), strsOver(escAlphabet, sl)...)
	c.Bound("string_length", fmt.Sprint(sl))
	for i := range strs {
		s := strs[i]
		for _, m := range []*M{mStr(s), mArr(mStr(s), mStr("x"+s+"y"), mStr(s+s)), mObj(s, mStr(s), s+"2", mObj("qq9", mInt(1), s, mArr(mStr(s))))} {
			m := m
			c.Case(func() string { return "text " + m.String() }, func(t *T) { jsonRoundTrip(t, m, i > 600) })
		}
	}
	if !c.quick {
		for _, s := range strsOver(escAlphabet[:9], 4) {
			m := mObj(s, mStr(s))
			c.Case(func() string { return "text " + m.String() }, func(t *T) { jsonRoundTrip(t, m, true) })
		}
	}
	// every Unicode scalar value; something special at every offset
	runeSweep(512, func(lo rune, rs []rune) {
		c.Case(func() string { return fmt.Sprintf("runes from U+%04X", lo) }, func(t *T) { jsonRoundTrip(t, runeTree(rs), true) })
	})
	po := 200
	if !c.quick {
		po = 1200
	}
	c.Bound("offset_of_special_text", fmt.Sprint(po))
	for i := 0; i <= po; i++ {
		i := i
		c.Case(func() string { return fmt.Sprintf("special text at offset %d", i) }, func(t *T) { jsonRoundTrip(t, offsetTree(i), true) })
	}
	// sizes
	for _, n := range boundaryLens(true) {
		for _, m := range []*M{mArr(arrOfLen(n), mInt(1)), mObj("x", objOfLen(min(n, 3000)), "y", mInt(1)), mObj(strOfLen(n), mStr(strOfLen(n)))} {
			m := m
			c.Case(func() string { return fmt.Sprintf("size %d", n) }, func(t *T) { jsonRoundTrip(t, m, true) })
		}
	}
	// nesting depth
	for _, n := range []int{10, 100, 1000} {
		a, o := mInt(1), mInt(1)
		for i := 0; i < n; i++ {
			a, o = mArr(a), mObj("k", o)
		}
		for _, m := range []*M{a, o} {
			m := m
			c.Case(func() string { return fmt.Sprintf("depth %d", n) }, func(t *T) {
				if n < 1000 {
					jsonRoundTrip(t, m, true)
					return
				}
				text := d.Value2Json(build(m, false), d.JSE_AllEscape, false, nil)
				v, err := d.NewValueFromJson(text, true, false)
				if err != nil {
					t.Failf("depth %d rejected: %v", n, err)
				}
				if s := diff(m, observe(v), jsonEq); s != "" {
					t.Failf("depth %d: %s", n, short(s))
				}
				t.Trace()
			})
		}
	}
	for _, m := range bigTrees() {
		c.Case(func() string { return "large " + short(m.String()) }, func(t *T) { jsonRoundTrip(t, m, false) })
	}
	// text decoded from what the dialect accepts beyond the standard, encoded before and after it is read
	type piece struct{ raw, text string }
	ps := []piece{{"a", "a"}, {"\t", "\t"}, {"\x01", "\x01"}, {"\n", "\n"}, {`\q`, `\q`}, {`\'`, "'"}, {`\a`, "\a"}, {`\v`, "\v"}, {`\uzz`, `\uzz`}, {`\0`, `\0`}, {`\"`, "\""}, {`\\`, `\`}, {`\u0041`, "A"}, {"é", "é"}, {`\/`, "/"}}
	var rec func(depth int, raw, text string)
	rec = func(depth int, raw, text string) {
		if depth > 0 {
			c.Case(func() string { return fmt.Sprintf("dialect text %q", raw) }, func(t *T) {
				m := mObj("p"+text, mStr(text), "l", mArr(mStr("x"+text), mObj(text, mInt(1))))
				doc := `{"p` + raw + `":"` + raw + `","l":["x` + raw + `",{"` + raw + `":1}]}`
				for _, dec := range jsonDecs {
					for _, e := range jsonEncs {
						if e.style == d.JSE_NoEscape {
							continue
						}
						v, err := dec.f([]byte(doc))
						if err != nil {
							t.Failf("%s rejects %q: %v", dec.name, doc, err)
						}
						for _, when := range []string{"before", "after"} {
							out := e.f(v)
							ref, err := refJSON(out)
							if err != nil {
								t.Failf("%s of %q %s reading is not standard JSON: %v\n%s", e.name, doc, when, err, out)
							}
							if s := diff(m, ref, jsonEq); s != "" {
								t.Failf("%s of %q %s reading denotes another tree: %s", e.name, doc, when, s)
							}
							if s := full(v, m, jsonEq); s != "" {
								t.Failf("%s of %q: %s", dec.name, doc, s)
							}
							t.Op()
						}
						t.Trace()
					}
				}
			})
		}
		if depth == 3 || depth == 2 && c.quick {
			return
		}
		for _, x := range ps {
			rec(depth+1, raw+x.raw, text+x.text)
		}
	}
	rec(0, "", "")
	// binary data: the text must stay well-formed and everything around it must survive
	for _, n := range []int{0, 1, 2, 16, 255, 256} {
		for _, bm := range []*M{mBin(bytesOfLen(n)), mExt(7, bytesOfLen(n))} {
			m := mObj("a", mInt(1), "b", bm, "c", mArr(bm, mStr("x")), "d", mInt(2))
			c.Case(func() string { return "binary " + m.String() }, func(t *T) {
				v := build(m, true)
				for _, e := range jsonEncs {
					text := e.f(v)
					ref, err := refJSON(text)
					if err != nil {
						t.Failf("%s of %v is not standard JSON: %v\n%s", e.name, m, err, short(string(text)))
					}
					if len(ref.Keys) != 4 || ref.Keys[1] != "b" || diff(mInt(1), ref.Vals[0], jsonEq) != "" || diff(mInt(2), ref.Vals[3], jsonEq) != "" || ref.Vals[2].K != KArr || len(ref.Vals[2].Vals) != 2 || diff(mStr("x"), ref.Vals[2].Vals[1], jsonEq) != "" {
						t.Failf("%s of %v denotes another tree: %v", e.name, m, ref)
					}
					t.Op()
					for _, dec := range jsonDecs {
						got, err := dec.f(clone(text))
						if err != nil {
							t.Failf("%s rejects %s: %v", dec.name, text, err)
						}
						if s := full(got, ref, jsonEq); s != "" {
							t.Failf("%s of %s: %s", dec.name, text, s)
						}
						t.Op()
						t.Trace()
					}
				}
			})
		}
	}
}
