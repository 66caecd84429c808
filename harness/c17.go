package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
)

// C17: equality is structural and an equivalence.

func init() {
	register("C17", runC17,
		"every ordered pair of trees up to a node bound over all leaf kinds, every pair of production and read histories on a smaller set, and every single-node deviation of larger trees; the verdict is compared with reference equality in both directions, and both sides are observed unchanged",
		"the reference equality is an equivalence by construction (equality of a canonical form), so agreement on all pairs gives reflexivity, symmetry and transitivity")
}

type eqProducer struct {
	name string
	ok   func(*M) bool
	f    func(*M) *d.DxValue
}

// wholeTimes: times are compared between production ways only when they are whole seconds.
func wholeTimes(m *M) bool {
	ok := true
	eachNode(m, func(x *M) {
		if x.K == KTime && (x.T.Nanosecond() != 0) {
			ok = false
		}
	})
	return ok
}

func yamlable(m *M) bool {
	if m.K > KArr || len(m.Vals) == 0 {
		return false
	}
	ok := true
	var walk func(m *M)
	walk = func(m *M) {
		switch m.K {
		case KObj, KArr:
			if len(m.Vals) == 0 {
				ok = false
			}
			for _, k := range m.Keys {
				for i := range k {
					if k[i] < 'a' || k[i] > 'z' {
						ok = false
					}
				}
				ok = ok && k != ""
			}
			for i, v := range m.Vals {
				// a sequence directly inside a sequence is outside the covered YAML subset's inline form
				if m.K == KArr && v.K == KArr {
					ok = false
				}
				_ = i
				walk(v)
			}
		case KStr:
			if m.S == "" || m.S == "true" || m.S == "null" || m.S == "1" {
				ok = false
			}
			for i := range m.S {
				if m.S[i] < 'a' || m.S[i] > 'z' {
					ok = false
				}
			}
			if m.S == "inf" || m.S == "nan" || m.S == "false" {
				ok = false
			}
		case KInt:
		case KDbl:
			ok = ok && m.F == math.Trunc(m.F*8)/8 && math.Abs(m.F) < 1e6 && !(m.F == 0 && math.Signbit(m.F))
		case KTrue, KFalse:
		default:
			ok = false
		}
	}
	walk(m)
	return ok
}

func readKeys(v *d.DxValue) {
	for i := 0; i < v.Count(); i++ {
		v.KeyNameByIndex(i)
		_, c := v.Items(i)
		if c != nil {
			readKeys(c)
		}
	}
}

func eqProducers() []eqProducer {
	must := func(v *d.DxValue, err error) *d.DxValue {
		if err != nil {
			panic(err)
		}
		return v
	}
	js := func(m *M) *d.DxValue { return must(d.NewValueFromJson(refEncode(m), false, false)) }
	jse := func(m *M) *d.DxValue { return must(d.NewValueFromJson(refEncodeEsc(m), false, false)) }
	bsonOk := func(m *M) bool {
		if m.K != KObj {
			return false
		}
		ok := true
		eachNode(m, func(x *M) {
			if x.K == KExt || x.K == KNan || x.K == KInf || x.K == KTime {
				ok = false
			}
			for _, k := range x.Keys {
				for i := range k {
					ok = ok && k[i] != 0
				}
			}
		})
		return ok
	}
	return []eqProducer{
		{"built", anyTree, func(m *M) *d.DxValue { return build(m, false) }},
		{"built cached", anyTree, func(m *M) *d.DxValue { return build(m, true) }},
		{"clone of built", anyTree, func(m *M) *d.DxValue { return build(m, true).Clone(false) }},
		{"JSON unread", jsonable, js},
		{"JSON escaped unread", jsonable, jse},
		{"JSON escaped, keys read", jsonable, func(m *M) *d.DxValue { v := jse(m); readKeys(v); return v }},
		{"JSON escaped shared", jsonable, func(m *M) *d.DxValue { return must(d.NewValueFromJson(refEncodeEsc(m), true, true)) }},
		{"JSON keys read", jsonable, func(m *M) *d.DxValue { v := js(m); readKeys(v); return v }},
		{"JSON all read", jsonable, func(m *M) *d.DxValue { v := js(m); observe(v); return v }},
		{"JSON printed", jsonable, func(m *M) *d.DxValue { v := js(m); v.ToJson(false, d.JSE_OnlyAnsiChar, false, nil); return v }},
		{"clone of JSON unread", jsonable, func(m *M) *d.DxValue { return js(m).Clone(true) }},
		{"MsgPack", func(m *M) bool { return mpable(m) && wholeTimes(m) }, func(m *M) *d.DxValue { return must(d.NewValueFromMsgPack(encodeFor("mp", m), true, true)) }},
		{"BSON", bsonOk, func(m *M) *d.DxValue { return must(d.NewValueFromBson(encodeFor("bson", m), false, true)) }},
		{"YAML", yamlable, func(m *M) *d.DxValue { return must(d.NewValueFromYaml(encodeFor("yaml", m), false)) }},
	}
}

// canonical text: equal trees and only those have the same text.
func canonEq(m *M) string {
	n := m.clone()
	eachNode(n, func(x *M) {
		switch x.K {
		case KInt:
			x.Sub = 0
		case KFlt, KDbl:
			if x.F == math.Trunc(x.F) && x.F >= -(1<<63) && x.F < 1<<63 {
				x.K, x.I, x.F = KInt, int64(x.F), 0
			} else {
				x.K = KDbl
			}
		}
	})
	return n.Whole()
}

func runC17(c *Ctx) {
	c17rearr(c)
	c17alike(c)
	c17blobs(c)
	c17odd(c)
	c17wide(c)
	t1 := time.Date(2021, 5, 6, 7, 8, 9, 0, time.UTC)
	t2 := t1.Add(time.Second)
	all := []*M{
		mStr(""), mStr("a"), mStr("1"), mStr("true"), mStr("x\n"), mStr("x\\n"), mStr("é"),
		mInt(0), mInt(1), mInt(-1), mInt(1 << 53), mInt(1<<53 + 1), mInt(math.MaxInt64), mInt(1 << 32), mInt(math.MinInt64),
		mDbl(0), mDbl(1), mDbl(0.5), mDbl(1 << 53), mDbl(1 << 63), mDbl(0.1), mDbl(-0.5), mDbl(-1 << 63),
		mFlt(0), mFlt(0.5), mFlt(1), mFlt(0.1), mFlt(-0.5),
		mTime(t1), mTime(t2), mBin(nil), mBin([]byte{1}), mBin([]byte{1, 0}), {K: KBin, B: []byte{1}, Sub: 4}, {K: KBin, Sub: 4}, {K: KBin, B: bytesOfLen(12)}, {K: KBin, B: bytesOfLen(12), Sub: 7}, mExt(1, nil), mExt(1, []byte{2}), mExt(2, []byte{2}), mExt(0, nil), mExt(0, []byte{1}),
		mK(KNull), mK(KTrue), mK(KFalse), mK(KNan), mK(KInf),
	}
	few := []*M{mStr("a"), mStr("x\n"), mInt(1), mDbl(1), mDbl(0.5), mBin([]byte{1}), mK(KNull), mK(KTrue)}
	tiny := []*M{mInt(1), mStr("é")}
	seen := map[string]bool{}
	var trees []*M
	add := func(m *M) {
		if s := m.String(); !seen[s] {
			seen[s] = true
			trees = append(trees, m)
		}
	}
	keys := []string{"a", "é\n"}
	shapes(2, all, keys, "", c.Stop, add)
	nf, nt := 3, 4
	if !c.quick {
		nf, nt = 4, 5
		shapes(3, all, keys, "", c.Stop, add)
	}
	if c.quick {
		shapes(nf, few, keys, "", c.Stop, add)
	} else {
		shapes(nf, few[1:6], keys, "", c.Stop, add)
	}
	shapes(nt, tiny, keys, "", c.Stop, add)
	c.Bound("trees", fmt.Sprintf("%d: all of <= 2 nodes over %d leaves, <= %d nodes over few leaves, <= %d nodes over 2 leaves", len(trees), len(all), nf, nt))
	ps := eqProducers()
	canon := make([]string, len(trees))
	for i := range trees {
		canon[i] = canonEq(trees[i])
	}
	// 1. all pairs, two production combinations
	second := func(m *M) int {
		if ps[3].ok(m) {
			return 3
		}
		return 1
	}
	for i, m1 := range trees {
		i, m1 := i, m1
		for combo := 0; combo < 2; combo++ {
			combo := combo
			c.Case(func() string { return fmt.Sprintf("%v compared with every tree (combination %d)", m1, combo) }, func(t *T) {
				for j, m2 := range trees {
					var a, b *d.DxValue
					if combo == 0 {
						a, b = build(m1, false), build(m2, false)
					} else {
						a, b = ps[second(m1)].f(m1), build(m2, false)
					}
					want := canon[i] == canon[j]
					if got := a.Equal(b); got != want {
						t.Failf("%v.Equal(%v) = %v, want %v (combination %d)", m1, m2, got, want, combo)
					}
					if got := b.Equal(a); got != want {
						t.Failf("%v.Equal(%v) = %v, want %v (combination %d, second comparison)", m2, m1, got, want, combo)
					}
					t.Op()
					t.Op()
					if want || j%17 == i%17 {
						opt := eqOpt{numeric: true, tol: time.Millisecond}
						if s := diff(m1, observe(a), opt); s != "" {
							t.Failf("comparing changed the left side: %s", s)
						}
						if s := diff(m2, observe(b), opt); s != "" {
							t.Failf("comparing changed the right side: %s", s)
						}
					}
				}
				t.State(m1.String())
				t.Trace()
			})
			if c.Stop() {
				return
			}
		}
	}
	// 2. every pair of production ways on a smaller set
	var small []*M
	for _, x := range []*M{mStr("a"), mStr("x\n"), mStr("é"), mInt(1), mDbl(1), mDbl(0.5), mInt(1<<53 + 1), mDbl(1 << 53), mTime(t1), mBin([]byte{1}), mExt(3, []byte{1}), mK(KNull), mK(KTrue)} {
		small = append(small, x, mObj("a", x), mArr(x))
	}
	small = append(small, mObj(), mArr(), mObj("a", mObj("b", mStr("x"))), mObj("a", mObj("b", mStr("x\n"))), mObj("a", mInt(1), "b", mStr("x")), mObj("b", mStr("x"), "a", mInt(1)), mObj("é\n", mArr(mStr("\"q\""))), mObj("é\\n", mArr(mStr("\"q\""))),
		mArr(mInt(1), mStr("two"), mObj("k", mStr("v"))), mObj("a", mArr(mInt(1), mStr("two"))), mObj("a", mArr(mInt(1), mStr("two"), mK(KTrue))), mObj("a", mArr(mInt(1))))
	c.Bound("production_ways", fmt.Sprintf("%d x %d on %d x %d trees", len(ps), len(ps), len(small), len(small)))
	for _, m1 := range small {
		for _, m2 := range small {
			m1, m2 := m1, m2
			want := canonEq(m1) == canonEq(m2)
			c.Case(func() string { return fmt.Sprintf("%v against %v, all production ways", m1, m2) }, func(t *T) {
				opt := eqOpt{numeric: true, tol: 2 * time.Millisecond, f32dbl: true}
				for _, p1 := range ps {
					if !p1.ok(m1) {
						continue
					}
					for _, p2 := range ps {
						if !p2.ok(m2) {
							continue
						}
						a, b := p1.f(m1), p2.f(m2)
						for k, x := range []bool{a.Equal(b), b.Equal(a), a.Equal(b)} {
							t.Op()
							if x != want {
								t.Failf("%v (%s) against %v (%s): comparison %d gives %v, want %v", m1, p1.name, m2, p2.name, k, x, want)
							}
						}
						if s := diff(m1, observe(a), opt); s != "" {
							t.Failf("%v (%s) changed by comparison: %s", m1, p1.name, s)
						}
						if s := diff(m2, observe(b), opt); s != "" {
							t.Failf("%v (%s) changed by comparison: %s", m2, p2.name, s)
						}
						if a.Equal(b) != want || !a.Equal(a) || !b.Equal(b) {
							t.Failf("%v (%s) against %v (%s): not stable after reading", m1, p1.name, m2, p2.name)
						}
					}
				}
				t.Trace()
			})
		}
	}
	// 3. single deviations of larger trees
	alts := []*M{mStr(""), mInt(99), mDbl(0.25), mK(KNull), mK(KTrue), mArr(), mObj(), mBin([]byte{9})}
	docs := append(append(typedTrees(), arrTrees()...), mObj("x", mExt(5, []byte{1, 2, 3}), "y", mArr(mExt(200, bytesOfLen(16)), mExt(1, nil))), objOfLen(20), arrOfLen(20),
		mObj("n", mArr(mK(KNan), mK(KInf), mK(KNull), mK(KFalse)), "f", mArr(mFlt(0.5), mFlt(1.25))))
	docs = append(docs, bigTrees()...)
	for _, m := range docs {
		m := m
		n := 0
		eachNode(m, func(*M) { n++ })
		for k := 0; k < n; k++ {
			k := k
			c.Case(func() string { return fmt.Sprintf("%v with node %d changed", m, k) }, func(t *T) {
				var devs []*M
				pick := func(f func(x *M) bool) {
					q := m.clone()
					i := 0
					hit := false
					eachNode(q, func(x *M) {
						if i == k && !hit {
							hit = f(x)
						}
						i++
					})
					if hit {
						devs = append(devs, q)
					}
				}
				for _, a := range alts {
					pick(func(x *M) bool { *x = *a.clone(); return true })
				}
				pick(func(x *M) bool { return x.K <= KArr && len(x.Vals) > 0 && dropAt(x, 0) })
				pick(func(x *M) bool { return x.K <= KArr && len(x.Vals) > 1 && dropAt(x, len(x.Vals)-1) })
				pick(func(x *M) bool {
					if x.K != KObj || len(x.Keys) == 0 {
						return false
					}
					x.Keys = append([]string{}, x.Keys...)
					x.Keys[len(x.Keys)-1] += "~"
					return true
				})
				pick(func(x *M) bool {
					if len(x.Vals) < 2 {
						return false
					}
					l := len(x.Vals) - 1
					x.Vals[0], x.Vals[l] = x.Vals[l], x.Vals[0]
					if x.K == KObj {
						x.Keys[0], x.Keys[l] = x.Keys[l], x.Keys[0]
					}
					return true
				})
				pick(func(x *M) bool {
					switch x.K {
					case KStr:
						x.S += "x"
					case KInt:
						x.I ^= 1 << 40
					case KDbl:
						x.F *= 1.5
					case KFlt:
						x.F += 0.25
					case KBin, KExt:
						x.B = append(x.B, 0)
					case KTime:
						x.T = x.T.Add(time.Second)
					default:
						return false
					}
					return true
				})
				for _, q := range devs {
					want := canonEq(m) == canonEq(q)
					for _, p1 := range ps[:4] {
						for _, p2 := range []eqProducer{ps[0], ps[3], ps[7]} {
							if !p1.ok(m) || !p2.ok(q) {
								continue
							}
							a, b := p1.f(m), p2.f(q)
							if a.Equal(b) != want || b.Equal(a) != want {
								t.Failf("%v (%s) against %v (%s): want %v", m, p1.name, q, p2.name, want)
							}
							t.Op()
							opt := eqOpt{numeric: true, tol: 2 * time.Millisecond, f32dbl: true}
							if s := diff(m, observe(a), opt); s != "" {
								t.Failf("%v (%s) changed by the comparison with %v (%s): %s", m, p1.name, q, p2.name, s)
							}
							if s := diff(q, observe(b), opt); s != "" {
								t.Failf("%v (%s) changed by the comparison with %v (%s): %s", q, p2.name, m, p1.name, s)
							}
						}
					}
				}
				t.Trace()
			})
		}
	}
	// 4. values that are close to each other: neighbours in every representation, all pairs
	groups := nearGroups()
	c.Bound("groups of neighbouring values", fmt.Sprint(len(groups)))
	for gi, g := range groups {
		gi, g := gi, g
		c.Case(func() string { return fmt.Sprintf("neighbours %d of %v", gi, g[0]) }, func(t *T) {
			for _, m1 := range g {
				for _, m2 := range g {
					want := canonEq(m1) == canonEq(m2)
					for _, w := range []func(m *M) *M{func(m *M) *M { return m }, func(m *M) *M { return mArr(mInt(1), m) }, func(m *M) *M { return mObj("k", mObj("l", m), "z", mStr("x\n")) }} {
						for _, p1 := range ps[:4] {
							x, y := w(m1), w(m2)
							if !p1.ok(x) {
								continue
							}
							a, b := p1.f(x), build(y, false)
							if a.Equal(b) != want || b.Equal(a) != want {
								t.Failf("%v (%s) against %v: %v and %v, want %v", x, p1.name, y, a.Equal(b), b.Equal(a), want)
							}
							t.Op()
						}
					}
				}
			}
			t.State(fmt.Sprint("near", gi))
			t.Trace()
		})
	}
	c.Case(func() string { return "neighbouring times" }, func(t *T) {
		mk := func(f float64, way int) *d.DxValue {
			v := d.NewValue(d.VT_DateTime)
			if way == 1 {
				v = d.NewCacheValue(d.VT_Array).SetIndex(0, d.VT_DateTime)
			}
			v.SetDelphiTime(delphi(f))
			return v
		}
		for _, f := range []float64{-0.25, 0, 0.5, 1, 2, 366, 25569, 25569.5, 40000.123456789, 44322.29, 65536, 73050.999988, 105000} {
			fs := []float64{f, f + 1, f + 1.0/24, f + 1.0/86400, f - 1.0/86400, f + 1e-3/86400, f + 1e-4/86400, f + 1e-5/86400, f + 1e-6/86400, f + 1e-9, f + 1e-10, f + 1e-11, math.Nextafter(f, 1e9), math.Nextafter(f, -1e9)}
			for _, a := range fs {
				for _, b := range fs {
					for way := 0; way < 4; way++ {
						x, y := mk(a, way&1), mk(b, way>>1)
						if x.Equal(y) != (a == b) || y.Equal(x) != (a == b) {
							t.Failf("times %v and %v (days): equal %v and %v, want %v", a, b, x.Equal(y), y.Equal(x), a == b)
						}
						t.Op()
					}
				}
			}
		}
		t.Trace()
	})
	c.Case(func() string { return "nil values" }, func(t *T) {
		var n *d.DxValue
		if !n.Equal(nil) {
			t.Failf("nil does not equal nil")
		}
		for _, m := range trees {
			v := build(m, false)
			if v.Equal(nil) || n.Equal(v) {
				t.Failf("%v equals nil", m)
			}
		}
		t.Trace()
	})
}

func dropAt(m *M, i int) bool {
	m.removeAt(i)
	return true
}

// nearGroups lists groups of values that are close to each other.
func nearGroups() [][]*M {
	var gs [][]*M
	for _, f := range boundaryFloats() {
		if math.IsInf(f, 0) || math.IsNaN(f) {
			continue
		}
		g := []*M{mDbl(f), mDbl(-f), mDbl(math.Nextafter(f, math.Inf(1))), mDbl(math.Nextafter(f, math.Inf(-1))), mDbl(f * (1 + 1e-10)), mDbl(f + 1e-9), mDbl(f * (1 + 1e-7))}
		x := f
		for i := 0; i < 8; i++ {
			x = math.Nextafter(x, math.Inf(1))
		}
		g = append(g, mDbl(x))
		if s := float32(f); !math.IsInf(float64(s), 0) {
			g = append(g, mFlt(s), mFlt(math.Nextafter32(s, float32(math.Inf(1)))), mDbl(float64(s)))
		}
		if math.Abs(f) < 1<<62 {
			g = append(g, mInt(int64(f)), mInt(int64(f)+1), mInt(int64(f)-1))
		}
		var ok []*M
		for _, m := range g {
			if !math.IsInf(m.F, 0) && !math.IsNaN(m.F) {
				ok = append(ok, m)
			}
		}
		gs = append(gs, ok)
	}
	for _, i := range boundaryInts() {
		g := []*M{mInt(i), mInt(-i), mInt(i ^ 1), mInt(i ^ 1<<31), mInt(i ^ 1<<32), mInt(i ^ 1<<62), mDbl(float64(i))}
		if i < math.MaxInt64 {
			g = append(g, mInt(i+1))
		}
		if i > math.MinInt64 {
			g = append(g, mInt(i-1))
		}
		gs = append(gs, g)
	}
	for _, tm := range boundaryTimes() {
		g := []*M{}
		for _, dt := range []time.Duration{0, time.Millisecond, 2 * time.Millisecond, 5 * time.Millisecond, 100 * time.Millisecond, time.Second, time.Minute, 24 * time.Hour} {
			g = append(g, mTime(tm.Add(dt)), mTime(tm.Add(-dt)))
		}
		gs = append(gs, g)
	}
	for _, n := range []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 5000} {
		s := strOfLen(n)
		b := bytesOfLen(n)
		g := []*M{mStr(s), mStr(s + "\x00"), mStr(s + " "), mStr("\x00" + s), mStr(strings.ToUpper(s)), mBin(b), mBin(append(clone(b), 0)), mExt(1, b), mExt(1, append(clone(b), 0)), mExt(129, b)}
		if n > 0 {
			for _, i := range []int{0, n / 2, n - 1} {
				e := clone(b)
				e[i] ^= 1
				g = append(g, mStr(s[:i]+string([]byte{s[i] ^ 1})+s[i+1:]), mBin(e), mExt(1, e))
			}
			g = append(g, mStr(s[:n-1]), mBin(b[:n-1]), mExt(1, b[:n-1]))
		}
		gs = append(gs, g)
	}
	return gs
}
