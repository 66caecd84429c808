package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
)

// C05: BSON encoding and round trip. C06: decoding of foreign documents, rejection of truncated ones.

func init() {
	register("C05", runC05,
		"every object tree (all shapes up to a node bound over typed leaves; every boundary leaf in every context; every length around width boundaries) is encoded, read by an independent BSON decoder that must consume exactly the output, decoded by every entry point, and encoded once more from the decoded value",
		"the reference codec (harness/refbson.go) follows bsonspec.org", "root is an object, keys contain no NUL")
	register("C06", runC06,
		"every document over the supported element types up to a bound, in every legal spelling (odometer over integer widths and binary layouts), is decoded by every entry point; every proper prefix and every impossible document or array length must be rejected",
		"the reference codec (harness/refbson.go) follows bsonspec.org")
}

func bsonSmall() []*M {
	return []*M{mInt(-1), mInt(1 << 40), mStr("a\\n"), mK(KNull), mBin([]byte{1, 2}), mDbl(-1.5), mK(KTrue)}
}

func bsonLeaves() []*M {
	var l []*M
	for _, i := range boundaryInts() {
		l = append(l, mInt(i))
	}
	for _, f := range boundaryFloats() {
		l = append(l, mDbl(f), mDbl(-f))
	}
	for _, f := range boundaryF32() {
		l = append(l, mFlt(f))
	}
	l = append(l, mK(KTrue), mK(KFalse), mK(KNull), mArr(), mObj())
	l = append(l, specialFloats()...)
	for _, n := range boundaryLens(false) {
		l = append(l, mStr(strOfLen(n)), mBin(bytesOfLen(n)))
		for _, st := range []byte{1, 3, 4, 5, 6, 7, 0x80, 0xff} {
			l = append(l, mSubBin(st, bytesOfLen(n)))
		}
	}
	for i := 0; i < 4; i++ {
		o, dd := bytesOfLen(12), bytesOfLen(16)
		for j := range o {
			o[j] = byte(i * (j*31 + 85))
		}
		for j := range dd {
			dd[j] = byte(i * (j*29 + 85))
		}
		l = append(l, mOID(o), mDec128(dd))
	}
	for _, i := range []int64{0, 1, -1, 1 << 32, 1<<32 - 1, math.MaxInt64, math.MinInt64, 0x0102030405060708, 1 << 31} {
		l = append(l, mTS(i))
	}
	for _, s := range []string{"é", "\x00", "a\x00b", "\"\\\n", "%41", "\\u0041", "中文", "😀", "Date(5)"} {
		l = append(l, mStr(s))
	}
	for _, tm := range boundaryTimes() {
		l = append(l, mTime(tm))
	}
	return l
}

func bsonRoundTrip(t *T, m *M, lite bool) {
	want := bsonExpect(m)
	for _, cached := range []bool{false, true} {
		if lite && cached {
			break
		}
		v := build(m, cached)
		for ei, e := range bsonEncs {
			b := e.f(v)
			t.Op()
			ref, err := refBSON(b)
			if err != nil {
				t.Failf("%s of %v: %v\n% x", e.name, m, err, b[:min(len(b), 64)])
			}
			if s := diff(want, ref, typedEq); s != "" {
				t.Failf("%s of %v denotes another tree: %s\n% x", e.name, m, s, b[:min(len(b), 64)])
			}
			if cached && ei > 0 {
				continue
			}
			for di, dec := range bsonDecs {
				if lite && di > 1 && di != 6 {
					continue
				}
				got, err := dec.f(clone(b))
				t.Op()
				if err != nil {
					t.Failf("%s rejects the encoding of %v: %v", dec.name, m, err)
				}
				if di < 4 && !lite { // encode the decoded value before it is read
					again, err := refBSON(bsonEncs[di&1].f(got))
					t.Op()
					if err != nil {
						t.Failf("%s then %s of %v: %v", dec.name, bsonEncs[di&1].name, m, err)
					}
					if s := diff(want, again, typedEq); s != "" {
						t.Failf("%s then %s of %v: %s", dec.name, bsonEncs[di&1].name, m, s)
					}
				}
				if s := full(got, want, typedEq); s != "" {
					t.Failf("%s of the encoding of %v: %s", dec.name, m, s)
				}
				if dec.cached {
					d.FreeValue(got)
				}
				t.Trace()
			}
		}
		if cached {
			d.FreeValue(v)
		}
	}
	t.State(m.String())
}

func runC05(c *Ctx) {
	c05alike(c)
	c05blobs(c)
	c05odd(c)
	c05wide(c)
	n := 4
	if !c.quick {
		n = 5
	}
	c.Bound("tree_nodes", fmt.Sprint(n))
	shapes(n, bsonSmall(), []string{"a", "b\\t", "é"}, "obj", c.Stop, func(m *M) {
		c.Case(func() string { return "tree " + m.String() }, func(t *T) { bsonRoundTrip(t, m, false) })
	})
	for _, x := range bsonLeaves() {
		for _, m := range objContexts(x) {
			m := m
			c.Case(func() string { return "leaf " + m.String() }, func(t *T) { bsonRoundTrip(t, m, false) })
		}
	}
	lo, hi := -3000, 3000
	if !c.quick {
		lo, hi = -70000, 70000
	}
	for i := lo; i < hi; i += 100 {
		m := &M{K: KArr}
		for j := i; j < i+100; j++ {
			m.Vals = append(m.Vals, mInt(int64(j)))
		}
		c.Case(func() string { return fmt.Sprintf("int sweep from %d", i) }, func(t *T) { bsonRoundTrip(t, mObj("s", m), true) })
	}
	for _, s := range append(runeStrings()[1:], strsOver(escAlphabet, 2)...) {
		m := mObj(s, mStr(s), s+"x", mArr(mObj(s, mInt(1))))
		c.Case(func() string { return "text " + m.String() }, func(t *T) { bsonRoundTrip(t, m, false) })
	}
	runeSweep(512, func(lo rune, rs []rune) {
		if lo == 0 {
			rs = rs[1:]
		}
		c.Case(func() string { return fmt.Sprintf("runes from U+%04X", lo) }, func(t *T) { bsonRoundTrip(t, mObj("r", runeTree(rs)), true) })
	})
	for i := 0; i <= 300; i++ {
		i := i
		c.Case(func() string { return fmt.Sprintf("special text at offset %d", i) }, func(t *T) { bsonRoundTrip(t, mObj("r", offsetTree(i)), true) })
	}
	mk := map[string]func(n int) *M{
		"str":    func(n int) *M { return mStr(strOfLen(n)) },
		"bin":    func(n int) *M { return mBin(bytesOfLen(n)) },
		"subbin": func(n int) *M { return mSubBin(4, bytesOfLen(n)) },
		"key":    func(n int) *M { return mObj(strOfLen(n), mInt(1)) },
		"arr":    arrOfLen,
		"map":    objOfLen,
	}
	for _, k := range []string{"str", "bin", "subbin", "key", "arr", "map"} {
		lens := []int{}
		for i := 0; i <= 300; i++ {
			lens = append(lens, i)
		}
		if k != "map" && k != "arr" || !c.quick {
			step := 7
			if !c.quick {
				step = 1
			}
			for i := 301; i < 2100; i += step {
				lens = append(lens, i)
			}
		}
		lens = append(lens, 999, 1000, 1001)
		if k != "map" {
			lens = append(lens, 9999, 10000, 10001, 65535, 65536)
		}
		for _, n := range lens {
			n, k := n, k
			c.Case(func() string { return fmt.Sprintf("%s of length %d", k, n) }, func(t *T) {
				bsonRoundTrip(t, mObj("x", mk[k](n), "y", mInt(7)), n > 40)
			})
		}
	}
	// lengths that need the highest byte of a 32-bit size
	huge := []int{1<<24 - 40, 1<<24 - 1, 1 << 24, 1<<24 + 0x10203, 1<<25 + 77}
	c.Bound("huge_lengths", fmt.Sprint(huge))
	for _, n := range huge {
		for _, k := range []string{"str", "bin", "subbin", "key"} {
			n, k := n, k
			c.Case(func() string { return fmt.Sprintf("%s of length %d", k, n) }, func(t *T) {
				m := mObj("w", mInt(1), "x", mObj("in", mk[k](n)), "y", mInt(7))
				b, err := d.Value2Bson(build(m, false), nil)
				t.Op()
				if err != nil {
					t.Failf("%v does not encode: %v", m, err)
				}
				ref, err := refBSON(b)
				if err != nil {
					t.Failf("encoding %v: %v", m, err)
				}
				if s := diff(m, ref, typedEq); s != "" {
					t.Failf("encoding of %v denotes another tree: %s", m, short(s))
				}
				for _, share := range []bool{false, true} {
					got, err := d.NewValueFromBson(b, false, share)
					t.Op()
					if err != nil {
						t.Failf("the encoding of %v is rejected: %v", m, err)
					}
					if s := diff(m, observe(got), typedEq); s != "" {
						t.Failf("the encoding of %v: %s", m, short(s))
					}
					if _, err := d.NewValueFromBson(b[:len(b)-1], false, share); err == nil {
						t.Failf("the encoding of %v without its last byte is accepted", m)
					}
					t.Trace()
				}
				t.State(m.String())
			})
		}
	}
	for y := 1900; y < 2190; y++ {
		y := y
		if c.quick && y%10 != 0 && y != 1969 && y != 1971 && y != 2106 {
			continue
		}
		c.Case(func() string { return fmt.Sprintf("dates of year %d", y) }, func(t *T) {
			m := &M{K: KArr}
			for dd := 0; dd < 365; dd++ {
				m.Vals = append(m.Vals, mTime(time.Date(y, 1, 1+dd, dd%24, (dd*7)%60, (dd*11)%60, (dd%4)*250e6, time.UTC)))
			}
			bsonRoundTrip(t, mObj("d", m), true)
		})
	}
	for _, m := range bigTrees() {
		if m.K != KObj {
			m = mObj("root", m, "last", mStr("x"))
		}
		c.Case(func() string { return "large " + short(m.String()) }, func(t *T) { bsonRoundTrip(t, m, false) })
	}
	for _, n := range []int{10, 100, 400} {
		a, o := mInt(1), mInt(1)
		for i := 0; i < n; i++ {
			a, o = mArr(a), mObj("k", o)
		}
		m := mObj("a", a, "o", o)
		c.Case(func() string { return fmt.Sprintf("depth %d", n) }, func(t *T) { bsonRoundTrip(t, m, true) })
	}
}

func runC06(c *Ctx) {
	c06alike(c)
	c06blobs(c)
	few := []decoder{bsonDecs[0], bsonDecs[3], bsonDecs[4]}
	reject := func(t *T, what string, b []byte, decs []decoder) {
		for _, dec := range decs {
			got, err := dec.f(clone(b))
			t.Op()
			if err == nil {
				t.Failf("%s accepts %s (% x) as %v", dec.name, what, b[:min(len(b), 80)], observe(got))
			}
			if err.Error() == "" {
				t.Failf("%s: error without message", dec.name)
			}
			t.Trace()
		}
	}
	all := func(m *M, faults bool) func(t *T) {
		return func(t *T) {
			ch := &chooser{}
			cnt := 0
			for {
				ch.pos = 0
				e := &bsonEnc{c: ch}
				e.doc(m)
				decs := bsonDecs
				if cnt > 20 {
					decs = few
				}
				for _, dec := range decs {
					got, err := dec.f(clone(e.out))
					t.Op()
					if err != nil {
						t.Failf("%s rejects a legal encoding of %v: %v\n% x", dec.name, m, err, e.out[:min(len(e.out), 80)])
					}
					if s := full(got, m, typedEq); s != "" {
						t.Failf("%s of a legal encoding of %v: %s\n% x", dec.name, m, s, e.out[:min(len(e.out), 80)])
					}
					if dec.cached {
						d.FreeValue(got)
					}
					t.Trace()
				}
				t.State(string(e.out))
				if faults {
					step := 1
					if len(e.out) > 300 {
						step = len(e.out)/149 + 1
					}
					for i := 1; i < len(e.out); i += step {
						dl := few
						if cnt == 0 {
							dl = bsonDecs
						}
						reject(t, fmt.Sprintf("prefix %d of %d of an encoding of %v", i, len(e.out), m), e.out[:i], dl)
						// a prefix whose declared length was adapted to it
						p := clone(e.out[:i])
						if i >= 5 {
							binary.LittleEndian.PutUint32(p, uint32(i))
							if _, err := refBSON(p); err != nil {
								reject(t, fmt.Sprintf("prefix %d with adapted length of an encoding of %v", i, m), p, few)
							}
						}
					}
					for _, at := range e.lens {
						old := binary.LittleEndian.Uint32(e.out[at:])
						vals := []uint32{0, 1, 2, 3, 4, uint32(len(e.out)-at) + 1, 0xff, 0xffff, 0x7fffffff, 0x80000000, 0x80000005, 0xffffffff, 0xfffffffb}
						if at > 0 {
							vals = append(vals, uint32(len(e.out)-at))
						}
						for _, x := range vals {
							if x == old || x > 4 && int64(x) <= int64(len(e.out)-at) && at == 0 {
								continue
							}
							p := clone(e.out)
							binary.LittleEndian.PutUint32(p[at:], x)
							if _, err := refBSON(p); err == nil {
								continue
							}
							reject(t, fmt.Sprintf("length %d instead of %d at %d in an encoding of %v", x, old, at, m), p, few)
						}
					}
					for _, at := range e.leng {
						for _, x := range []uint32{uint32(len(e.out) - at), 0x7fffffff, 0x80000000, 0xffffffff} {
							p := clone(e.out)
							binary.LittleEndian.PutUint32(p[at:], x)
							if _, err := refBSON(p); err == nil {
								continue
							}
							reject(t, fmt.Sprintf("text length %d at %d in an encoding of %v", x, at, m), p, few)
						}
					}
				}
				cnt++
				if !ch.next() {
					return
				}
			}
		}
	}
	n := 3
	if !c.quick {
		n = 4
	}
	c.Bound("tree_nodes", fmt.Sprint(n+1))
	leaves := []*M{mInt(-5), mStr("a"), mBin([]byte{1}), mSubBin(4, []byte{7, 8}), mK(KNull), mDbl(1.5), mK(KTrue), mTime(time.Unix(1000, 0).UTC()), mTS(77), mOID(bytesOfLen(12)), mDec128(bytesOfLen(16))}
	shapes(n, leaves, []string{"a", "bb"}, "obj", c.Stop, func(m *M) {
		c.Case(func() string { return "documents of " + m.String() }, all(m, true))
	})
	for i, x := range bsonLeaves() {
		if x.K == KFlt || x.K == KNan || x.K == KInf {
			continue
		}
		for j, m := range objContexts(x) {
			if i > 200 && c.quick && j > 2 {
				break
			}
			m := m
			small := len(x.B)+len(x.S) < 40
			c.Case(func() string { return "documents of " + m.String() }, all(m, small || j == 0))
		}
	}
	for _, n := range []int{0, 1, 2, 9, 10, 11, 99, 100, 101, 127, 128, 255, 256, 1000, 65535, 65536} {
		for _, x := range []*M{mStr(strOfLen(n)), mBin(bytesOfLen(n)), mSubBin(0x80, bytesOfLen(n))} {
			m := mObj("x", x, "y", mArr(x))
			c.Case(func() string { return fmt.Sprintf("%s of length %d", kindName[x.K], n) }, all(m, true))
		}
		// arrays: the odometer would be exponential, so the default widths are used
		for _, x := range []*M{arrOfLen(n), objOfLen(min(n, 1000))} {
			if n > 1000 && x.K == KObj {
				continue
			}
			m := mObj("x", x, "y", mK(KTrue))
			c.Case(func() string { return fmt.Sprintf("%s of length %d", kindName[x.K], n) }, func(t *T) {
				e := &bsonEnc{}
				e.doc(m)
				for _, dec := range bsonDecs {
					got, err := dec.f(clone(e.out))
					t.Op()
					if err != nil {
						t.Failf("%s: %v", dec.name, err)
					}
					if s := diff(m, observe(got), typedEq); s != "" {
						t.Failf("%s: %s", dec.name, short(s))
					}
					t.Trace()
				}
				cuts := 500
				if n > 1000 {
					cuts = 40
				}
				for i := 1; i < len(e.out); i += 1 + len(e.out)/cuts {
					reject(t, "prefix", e.out[:i], few)
				}
			})
		}
	}
}
