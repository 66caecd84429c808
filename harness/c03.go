package main

import (
	"fmt"
	"math"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
)

// C03: MessagePack encoding and round trip. C04: decoding of every legal encoding, rejection of prefixes.

func init() {
	register("C03", runC03,
		"every tree (all shapes up to a node bound over typed leaves; every leaf of the boundary alphabets in every context; every length around header boundaries) is encoded, read by an independent MessagePack decoder that must consume exactly the output, and decoded by every entry point; kinds and values must agree",
		"the reference codec (harness/refmp.go) follows the MessagePack specification")
	register("C04", runC04,
		"for every tree, every combination of legal header widths is generated (odometer over all choices) and decoded by every entry point; every proper prefix and every replacement of a value by the reserved code must be rejected",
		"the reference encoder (harness/refmp.go) follows the MessagePack specification", "timestamps have at most nanosecond precision and are compared within two milliseconds")
}

func mpLeaves() []*M {
	var l []*M
	for _, i := range boundaryInts() {
		l = append(l, mInt(i))
	}
	for _, f := range boundaryFloats() {
		l = append(l, mDbl(f))
	}
	for _, f := range boundaryF32() {
		l = append(l, mFlt(f))
	}
	l = append(l, specialFloats()...)
	l = append(l, mK(KTrue), mK(KFalse), mK(KNull), mArr(), mObj())
	for _, n := range boundaryLens(false) {
		l = append(l, mStr(strOfLen(n)), mBin(bytesOfLen(n)))
		for _, tp := range []byte{0, 1, 5, 42, 127, 128, 254} {
			l = append(l, mExt(tp, bytesOfLen(n)))
		}
	}
	for _, tp := range []byte{255, 3} {
		_ = tp
	}
	for _, s := range []string{"é", "\x00", "\"\\\n", "%41", "\\u0041", "中文", "😀"} {
		l = append(l, mStr(s), mObj(s, mStr(s)))
	}
	for _, tm := range boundaryTimes() {
		l = append(l, mTime(tm))
	}
	return l
}

// specialFloats lists infinities, NaN and negative zero in every representation.
func specialFloats() []*M {
	inf, z := math.Inf(1), math.Copysign(0, -1)
	return []*M{mDbl(inf), mDbl(-inf), mDbl(math.NaN()), mFlt(float32(inf)), mFlt(float32(-inf)), mFlt(float32(math.NaN())), mK(KNan), mK(KInf), mDbl(z), mFlt(float32(z)), mDbl(0), mFlt(0)}
}

// asDoubles replaces the constants nan and inf by the doubles they are encoded as.
func asDoubles(m *M) *M {
	n := m.clone()
	eachNode(n, func(x *M) {
		switch x.K {
		case KNan:
			x.K, x.F = KDbl, math.NaN()
		case KInf:
			x.K, x.F = KDbl, math.Inf(1)
		}
	})
	return n
}

func mpRoundTrip(t *T, m *M, lite bool) {
	want := asDoubles(m)
	for _, cached := range []bool{false, true} {
		if lite && cached {
			break
		}
		v := build(m, cached)
		for _, e := range mpEncs {
			b := e.f(v)
			t.Op()
			ref, err := refMP(b)
			if err != nil {
				t.Failf("%s of %v: %v\n% x", e.name, m, err, b[:min(len(b), 64)])
			}
			if s := diff(want, ref, typedEq); s != "" {
				t.Failf("%s of %v denotes another tree: %s\n% x", e.name, m, s, b[:min(len(b), 64)])
			}
			if cached {
				continue
			}
			for di, dec := range mpDecs {
				if lite && di > 1 && di != 6 {
					continue
				}
				got, err := dec.f(clone(b))
				t.Op()
				if err != nil {
					t.Failf("%s rejects the encoding of %v: %v", dec.name, m, err)
				}
				if s := full(got, want, typedEq); s != "" {
					t.Failf("%s of the encoding of %v: %s", dec.name, m, s)
				}
				if dec.cached {
					d.FreeValue(got)
				}
				t.Trace()
			}
			if lite {
				break
			}
		}
		if cached {
			d.FreeValue(v)
		}
	}
	t.State(m.String())
}

func runC03(c *Ctx) {
	c03alike(c)
	c03blobs(c)
	c03odd(c)
	c03wide(c)
	n := 4
	if !c.quick {
		n = 5
	}
	c.Bound("tree_nodes", fmt.Sprint(n))
	small := []*M{mInt(-1), mInt(300), mStr("a"), mBin([]byte{1, 2}), mExt(5, []byte{9}), mK(KNull), mFlt(0.5)}
	shapes(n, small, []string{"a", "b", "\\é"}, "", c.Stop, func(m *M) {
		c.Case(func() string { return "tree " + m.String() }, func(t *T) { mpRoundTrip(t, m, false) })
	})
	for _, x := range mpLeaves() {
		for _, m := range contexts(x) {
			m := m
			c.Case(func() string { return "leaf " + m.String() }, func(t *T) { mpRoundTrip(t, m, false) })
		}
	}
	lo, hi := -40000, 70000
	for i := lo; i < hi; i += 100 {
		m := &M{K: KArr}
		for j := i; j < i+100; j++ {
			m.Vals = append(m.Vals, mInt(int64(j)))
		}
		c.Case(func() string { return fmt.Sprintf("int sweep from %d", i) }, func(t *T) { mpRoundTrip(t, m, true) })
	}
	runeSweep(1024, func(lo rune, rs []rune) {
		c.Case(func() string { return fmt.Sprintf("runes from U+%04X", lo) }, func(t *T) { mpRoundTrip(t, runeTree(rs), true) })
	})
	for i := 0; i <= 300; i++ {
		i := i
		c.Case(func() string { return fmt.Sprintf("special text at offset %d", i) }, func(t *T) { mpRoundTrip(t, offsetTree(i), true) })
	}
	// every length through the header boundaries, for every sized kind
	mk := map[string]func(n int) *M{
		"str": func(n int) *M { return mStr(strOfLen(n)) },
		"bin": func(n int) *M { return mBin(bytesOfLen(n)) },
		"ext": func(n int) *M { return mExt(6, bytesOfLen(n)) },
		"key": func(n int) *M { return mObj(strOfLen(n), mInt(1)) },
		"arr": arrOfLen,
		"map": objOfLen,
	}
	for _, k := range []string{"str", "bin", "ext", "key", "arr", "map"} {
		var lens []int
		for i := 0; i <= 300; i++ {
			lens = append(lens, i)
		}
		if k == "map" {
			lens = append(lens, 1000)
			if !c.quick {
				lens = append(lens, 5000)
			}
		} else {
			step := 7
			if !c.quick {
				step = 1
			}
			for i := 301; i < 2100; i += step {
				lens = append(lens, i)
			}
			lens = append(lens, 65534, 65535, 65536, 65537)
		}
		for _, n := range lens {
			n, k := n, k
			c.Case(func() string { return fmt.Sprintf("%s of length %d", k, n) }, func(t *T) {
				x := mk[k](n)
				mpRoundTrip(t, mArr(x, mInt(7)), n > 300)
				if n < 300 {
					mpRoundTrip(t, x, true)
					mpRoundTrip(t, mObj("k", x, "l", mInt(7)), true)
				}
			})
		}
	}
	// maps across the 16-bit boundary (decoding is quadratic in the number of keys, so these are few)
	for _, n := range []int{65535, 65536} {
		if c.quick && n == 65535 {
			continue
		}
		n := n
		c.Case(func() string { return fmt.Sprintf("map of length %d", n) }, func(t *T) {
			m := objOfLen(n)
			v, err := d.NewValueFromJson(refEncode(m), false, false)
			if err != nil {
				t.Failf("cannot make map: %v", err)
			}
			b := d.Value2MsgPack(v, nil)
			ref, err := refMP(b)
			if err != nil {
				t.Failf("map of length %d: %v", n, err)
			}
			if s := diff(m, ref, typedEq); s != "" {
				t.Failf("map of length %d: %s", n, short(s))
			}
			if !c.quick {
				got, err := d.NewValueFromMsgPack(b, false, false)
				if err != nil || got.Count() != n {
					t.Failf("map of length %d does not decode: %v", n, err)
				}
			}
			t.Op()
			t.Trace()
		})
	}
	for _, m := range bigTrees() {
		c.Case(func() string { return "large " + short(m.String()) }, func(t *T) { mpRoundTrip(t, m, false) })
	}
	// lengths whose header needs its highest byte
	huge := []int{1<<24 - 1, 1 << 24, 1<<24 + 0x10203, 1<<25 + 77}
	c.Bound("huge_lengths", fmt.Sprint(huge))
	for _, n := range huge {
		for _, k := range []string{"str", "bin", "ext", "key"} {
			n, k := n, k
			c.Case(func() string { return fmt.Sprintf("%s of length %d", k, n) }, func(t *T) { mpHuge(t, mArr(mInt(1), mk[k](n), mInt(7))) })
		}
	}
	// date-times: every boundary day
	for y := 1900; y < 2190; y += 1 {
		y := y
		if c.quick && y%10 != 0 && y != 1969 && y != 1971 && y != 2106 {
			continue
		}
		c.Case(func() string { return fmt.Sprintf("dates of year %d", y) }, func(t *T) {
			m := &M{K: KArr}
			for dd := 0; dd < 365; dd++ {
				m.Vals = append(m.Vals, mTime(time.Date(y, 1, 1+dd, dd%24, (dd*7)%60, (dd*11)%60, (dd%4)*250e6, time.UTC)))
			}
			mpRoundTrip(t, m, true)
		})
	}
}

// mpHuge is the round trip of trees of many megabytes.
func mpHuge(t *T, m *M) {
	v := build(m, false)
	b := d.Value2MsgPack(v, nil)
	t.Op()
	ref, err := refMP(b)
	if err != nil {
		t.Failf("encoding %v: %v", m, err)
	}
	if s := diff(m, ref, typedEq); s != "" {
		t.Failf("encoding of %v denotes another tree: %s", m, short(s))
	}
	for _, share := range []bool{false, true} {
		got, err := d.NewValueFromMsgPack(b, false, share)
		t.Op()
		if err != nil {
			t.Failf("the encoding of %v is rejected: %v", m, err)
		}
		if s := diff(m, observe(got), typedEq); s != "" {
			t.Failf("the encoding of %v: %s", m, short(s))
		}
		if _, err := d.NewValueFromMsgPack(b[:len(b)-2], false, share); err == nil {
			t.Failf("the encoding of %v without its last two bytes is accepted", m)
		}
		t.Trace()
	}
	t.State(m.String())
}

func decideMP(t *T, m *M, b []byte, decs []decoder) {
	m = asDoubles(m)
	for _, dec := range decs {
		got, err := dec.f(clone(b))
		t.Op()
		if err != nil {
			t.Failf("%s rejects a legal encoding of %v: %v\n% x", dec.name, m, err, b[:min(len(b), 64)])
		}
		if s := full(got, m, typedEq); s != "" {
			t.Failf("%s of a legal encoding of %v: %s\n% x", dec.name, m, s, b[:min(len(b), 64)])
		}
		if dec.cached {
			d.FreeValue(got)
		}
		t.Trace()
	}
	t.State(string(b))
}

func rejectMP(t *T, what string, b []byte, decs []decoder) {
	for _, dec := range decs {
		got, err := dec.f(clone(b))
		t.Op()
		if err == nil {
			t.Failf("%s accepts %s (% x) as %v", dec.name, what, b[:min(len(b), 64)], observe(got))
		}
		if err.Error() == "" {
			t.Failf("%s: error without message", dec.name)
		}
		t.Trace()
	}
}

func runC04(c *Ctx) {
	c04alike(c)
	c04blobs(c)
	c04odd(c)
	few := []decoder{mpDecs[0], mpDecs[3], mpDecs[4]}
	all := func(m *M, prefixes bool, cap int) func(t *T) {
		return func(t *T) {
			ch := &chooser{}
			cnt := 0
			for {
				ch.pos = 0
				e := &mpEnc{c: ch}
				e.val(m)
				decs := mpDecs
				if cnt > 40 {
					decs = few
				}
				decideMP(t, m, e.out, decs)
				if prefixes {
					step := 1
					if len(e.out) > 200 {
						step = len(e.out)/97 + 1
					}
					for i := 1; i < len(e.out); i += step {
						dl := few
						if cnt == 0 {
							dl = mpDecs
						}
						rejectMP(t, fmt.Sprintf("prefix %d of %d of an encoding of %v", i, len(e.out), m), e.out[:i], dl)
					}
					if len(e.out) > 1 {
						rejectMP(t, "all but the last byte", e.out[:len(e.out)-1], mpDecs)
					}
					for _, at := range e.at {
						b := append(clone(e.out[:at]), 0xc1)
						rejectMP(t, "reserved code", b, few)
						b = clone(e.out)
						b[at] = 0xc1
						rejectMP(t, "reserved code", b, few)
					}
				}
				cnt++
				t.c.Count("encodings", 1)
				if cap > 0 && cnt >= cap {
					t.c.Count("capped", 1)
					return
				}
				if !ch.next() {
					return
				}
			}
		}
	}
	n := 3
	if !c.quick {
		n = 4
	}
	c.Bound("tree_nodes", fmt.Sprint(n))
	leaves := []*M{mInt(1), mInt(-5), mStr("a"), mBin([]byte{1}), mExt(5, []byte{7, 8}), mK(KNull), mDbl(1.5), mFlt(-2), mK(KTrue), mTime(time.Unix(1000, 0).UTC())}
	shapes(n, leaves, []string{"a", "bb"}, "", c.Stop, func(m *M) {
		c.Case(func() string { return "encodings of " + m.String() }, all(m, true, 0))
	})
	for _, x := range mpLeaves() {
		for i, m := range []*M{x, mArr(x), mObj("k", x), mArr(mInt(1), x, mStr("q"))} {
			m := m
			big := (x.K == KStr || x.K == KBin || x.K == KExt) && len(x.B)+len(x.S) > 600
			if i == 3 && big {
				continue
			}
			c.Case(func() string { return "encodings of " + m.String() }, all(m, !(i == 3) && !big, 0))
		}
	}
	for i := -33000; i < 67000; i += 100 {
		i := i
		if c.quick && i%1000 != 0 && !(i > -600 && i < 600) && !(i > 32000 && i < 33000) && i < 65000 && i > -32500 {
			continue
		}
		c.Case(func() string { return fmt.Sprintf("all widths of %d..%d", i, i+99) }, func(t *T) {
			for j := i; j < i+100; j++ {
				all(mInt(int64(j)), false, 0)(t)
			}
		})
	}
	// sized kinds with every legal header, including oversized ones, at the boundaries
	for _, n := range []int{0, 1, 2, 3, 4, 5, 8, 12, 13, 15, 16, 17, 31, 32, 33, 255, 256, 257, 300, 65535, 65536, 70000} {
		for _, m := range []*M{mStr(strOfLen(n)), mBin(bytesOfLen(n)), mExt(1, bytesOfLen(n)), arrOfLen(n)} {
			m := m
			c.Case(func() string { return fmt.Sprintf("all headers of %s of length %d", kindName[m.K], n) }, func(t *T) {
				// only the first choice (the container's header) is enumerated for arrays
				for w := 0; w < 4; w++ {
					ch := &chooser{vec: []int{0}, size: []int{4}}
					ch.vec[0] = w
					ch.size[0] = 4
					e := &mpEnc{c: ch}
					bad := false
					func() {
						defer func() {
							if recover() != nil {
								bad = true
							}
						}()
						e.val(m)
					}()
					if bad {
						break
					}
					decideMP(t, m, e.out, mpDecs)
					if n > 0 {
						for _, cut := range []int{1, 2, 5, len(e.out) / 2, len(e.out) - 1} {
							if cut > 0 && cut < len(e.out) {
								rejectMP(t, "prefix", e.out[:cut], mpDecs)
							}
						}
					}
				}
			})
		}
		if n <= 300 {
			m := objOfLen(n)
			c.Case(func() string { return fmt.Sprintf("all headers of map of length %d", n) }, func(t *T) {
				for w := 0; w < 3; w++ {
					ch := &chooser{vec: []int{w}, size: []int{3}}
					e := &mpEnc{c: ch}
					bad := false
					func() {
						defer func() {
							if recover() != nil {
								bad = true
							}
						}()
						e.val(m)
					}()
					if bad {
						break
					}
					decideMP(t, m, e.out, mpDecs)
					for i := 1; i < len(e.out); i += 7 {
						rejectMP(t, "prefix", e.out[:i], few)
					}
				}
			})
		}
	}
	// headers announcing more than is there: every header that carries a length, every announced length that differs
	// from the content in its upper bytes, a few elements of content
	type hd struct {
		name  string
		code  byte
		width int
		ext   int // bytes between the header and the content
		elem  []byte
	}
	for _, h := range []hd{
		{"str8", 0xd9, 1, 0, []byte("a")}, {"str16", 0xda, 2, 0, []byte("a")}, {"str32", 0xdb, 4, 0, []byte("a")},
		{"bin8", 0xc4, 1, 0, []byte{7}}, {"bin16", 0xc5, 2, 0, []byte{7}}, {"bin32", 0xc6, 4, 0, []byte{7}},
		{"ext8", 0xc7, 1, 1, []byte{7}}, {"ext16", 0xc8, 2, 1, []byte{7}}, {"ext32", 0xc9, 4, 1, []byte{7}},
		{"array16", 0xdc, 2, 0, []byte{7}}, {"array32", 0xdd, 4, 0, []byte{7}},
		{"map16", 0xde, 2, 0, nil}, {"map32", 0xdf, 4, 0, nil},
	} {
		h := h
		c.Case(func() string { return "truncated content behind " + h.name }, func(t *T) {
			for _, k := range []int{0, 1, 2, 3, 16, 200, 255} {
				for _, more := range []uint64{1, 2, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 3 << 16, 1 << 23, 1 << 24, 1 << 31, 1<<32 - 256} {
					n := uint64(k) + more
					if n >= 1<<(8*uint(h.width)) {
						continue
					}
					e := &mpEnc{}
					e.u(h.code, h.width, n)
					for i := 0; i < h.ext; i++ {
						e.out = append(e.out, 5)
					}
					for i := 0; i < k; i++ {
						if h.elem != nil {
							e.out = append(e.out, h.elem...)
							continue
						}
						e.out = append(e.out, 0xa2, byte('A'+i/16), byte('A'+i%16), 1)
					}
					what := fmt.Sprintf("%s announcing %d with %d present", h.name, n, k)
					rejectMP(t, what, e.out, mpDecs)
					rejectMP(t, what+" in an array", append([]byte{0x92, 1}, e.out...), mpDecs)
					rejectMP(t, what+" in a map", append([]byte{0x81, 0xa1, 'k'}, e.out...), mpDecs)
					rejectMP(t, what+" in a nested array", append([]byte{0x91, 0x81, 0xa1, 'k', 0x91}, e.out...), mpDecs)
					t.State(what)
				}
			}
		})
	}
	// timestamps: all three forms over boundary seconds and nanoseconds
	for _, sec := range []int64{0, 1, 1000, 86399, 86400, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 6900000000, -1, -86400, -2000000000} {
		for _, ns := range []int64{0, 1000000, 250000000, 500000000, 999000000} {
			m := mTime(time.Unix(sec, ns).UTC())
			c.Case(func() string { return "timestamp " + m.String() }, func(t *T) {
				all(m, true, 0)(t)
				all(mArr(m, m), true, 0)(t)
				all(mObj("t", m, "u", mInt(1)), true, 0)(t)
			})
		}
	}
}
