package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
)

// C14: objects and arrays behave as an ordered map and a list.

func init() {
	register("C14", runC14,
		"every sequence of container operations up to the depth, from every initial state (built, cached, recycled, decoded with escaped names, scalar), with case sensitivity on and off, is run on the real value in lockstep with an ordered-map/list model; after every step all look-ups by name and index, counts, iteration and visiting are compared",
		"no state is merged: hidden capacity and recycling state is part of the explored history")
}

// mop is one operation on the model and on the real value. The model operation returns what the real one must return.
type mop struct {
	name string
	m    func(m *M, ic bool) *M // nil: nothing to compare
	r    func(v *d.DxValue) *d.DxValue
}

func (m *M) find(k string, ic bool) int {
	for i := range m.Keys {
		if m.Keys[i] == k || ic && strings.EqualFold(m.Keys[i], k) {
			return i
		}
	}
	return -1
}

func (m *M) become(k Kind) {
	*m = M{K: k}
}

func zeroM(k Kind) *M { return &M{K: k} }

// setName returns the slot for a named entry, creating it; on an array a numeric name is a position.
func (m *M) setName(k string, x *M, ic bool) {
	if m.K == KArr {
		if i, err := strconv.Atoi(k); err == nil && i >= 0 {
			m.setPos(i, x)
			return
		}
	}
	if m.K != KObj {
		m.become(KObj)
	}
	if i := m.find(k, ic); i >= 0 {
		m.Vals[i] = x
		return
	}
	m.Keys = append(m.Keys, k)
	m.Vals = append(m.Vals, x)
}

func (m *M) setPos(i int, x *M) {
	if m.K != KArr {
		m.become(KArr)
	}
	if i >= 0 && i < len(m.Vals) {
		m.Vals[i] = x
		return
	}
	m.Vals = append(m.Vals, x)
}

// named returns the entry a name addresses, or nil.
func (m *M) named(k string, ic bool) *M {
	switch m.K {
	case KObj:
		if i := m.find(k, ic); i >= 0 {
			return m.Vals[i]
		}
	case KArr:
		if i, err := strconv.Atoi(k); err == nil && i >= 0 && i < len(m.Vals) {
			return m.Vals[i]
		}
	}
	return nil
}

func (m *M) at(i int) *M {
	if m.K <= KArr && i >= 0 && i < len(m.Vals) {
		return m.Vals[i]
	}
	return nil
}

func (m *M) removeAt(i int) {
	m.Vals = append(append([]*M{}, m.Vals[:i]...), m.Vals[i+1:]...)
	if m.K == KObj {
		m.Keys = append(append([]string{}, m.Keys[:i]...), m.Keys[i+1:]...)
	}
}

func setOps(keys []string, idxs []int) []mop {
	var ops []mop
	add := func(name string, m func(m *M, ic bool) *M, r func(v *d.DxValue) *d.DxValue) {
		ops = append(ops, mop{name, m, r})
	}
	for _, k := range keys {
		k := k
		q := strconv.Quote(k)
		add("SetKeyInt "+q, func(m *M, ic bool) *M { m.setName(k, mInt(7), ic); return nil }, func(v *d.DxValue) *d.DxValue { v.SetKeyInt(k, 7); return nil })
		add("SetKeyString "+q, func(m *M, ic bool) *M { m.setName(k, mStr("s\n"), ic); return nil }, func(v *d.DxValue) *d.DxValue { v.SetKeyString(k, "s\n"); return nil })
		add("SetKeyBool "+q, func(m *M, ic bool) *M { m.setName(k, mK(KTrue), ic); return nil }, func(v *d.DxValue) *d.DxValue { v.SetKeyBool(k, true); return nil })
		for _, kind := range []Kind{KObj, KArr, KInt} {
			kind := kind
			add("SetKey "+q+" "+kindName[kind], func(m *M, ic bool) *M {
				if o := m.named(k, ic); o != nil && o.K == kind {
					return o
				}
				m.setName(k, zeroM(kind), ic)
				return zeroM(kind)
			}, func(v *d.DxValue) *d.DxValue { return v.SetKey(k, vtOf[kind]) })
		}
		add("SetKeyValue "+q, func(m *M, ic bool) *M { m.setName(k, mArr(mInt(3), mObj("x", mK(KNull))), ic); return nil },
			func(v *d.DxValue) *d.DxValue {
				v.SetKeyValue(k, build(mArr(mInt(3), mObj("x", mK(KNull))), false))
				return nil
			})
		add("RemoveKey "+q, func(m *M, ic bool) *M {
			if m.K == KObj {
				if i := m.find(k, ic); i >= 0 {
					m.removeAt(i)
				}
			}
			return nil
		}, func(v *d.DxValue) *d.DxValue { v.RemoveKey(k); return nil })
		add("ExtractValue "+q, func(m *M, ic bool) *M {
			if m.K == KObj {
				if i := m.find(k, ic); i >= 0 {
					x := m.Vals[i]
					m.removeAt(i)
					return x
				}
			}
			return mK(KNil)
		}, func(v *d.DxValue) *d.DxValue {
			x := v.ExtractValue(k)
			if x == nil {
				return nilMark
			}
			return x
		})
		add("inside "+q+": SetKeyInt", func(m *M, ic bool) *M {
			if o := m.named(k, ic); o != nil && o.K <= KArr {
				o.setName("in", mInt(5), ic)
			}
			return nil
		}, func(v *d.DxValue) *d.DxValue {
			if o := v.ValueByName(k); o != nil && isCont(o) {
				o.SetKeyInt("in", 5)
			}
			return nil
		})
	}
	for _, i := range idxs {
		i := i
		s := strconv.Itoa(i)
		add("SetIndexInt "+s, func(m *M, ic bool) *M { m.setPos(i, mInt(9)); return nil }, func(v *d.DxValue) *d.DxValue { v.SetIndexInt(i, 9); return nil })
		add("SetIndexValue "+s, func(m *M, ic bool) *M { m.setPos(i, mObj("v", mInt(1))); return nil },
			func(v *d.DxValue) *d.DxValue { v.SetIndexValue(i, build(mObj("v", mInt(1)), false)); return nil })
		add("SetIndex object "+s, func(m *M, ic bool) *M {
			if m.K == KArr {
				if o := m.at(i); o != nil && o.K == KObj {
					return o
				}
			}
			m.setPos(i, zeroM(KObj))
			return zeroM(KObj)
		}, func(v *d.DxValue) *d.DxValue { return v.SetIndex(i, d.VT_Object) })
		add("SetIndexBool "+s, func(m *M, ic bool) *M { m.setPos(i, mK(KFalse)); return nil }, func(v *d.DxValue) *d.DxValue { v.SetIndexBool(i, false); return nil })
		add("InsertValue "+s, func(m *M, ic bool) *M {
			if m.K != KArr {
				m.become(KArr)
			}
			j := i
			if j < 0 {
				j = 0
			}
			if j > len(m.Vals) {
				j = len(m.Vals)
			}
			nv := append([]*M{}, m.Vals[:j]...)
			nv = append(nv, mStr("ins"))
			m.Vals = append(nv, m.Vals[j:]...)
			return nil
		}, func(v *d.DxValue) *d.DxValue { v.InsertValue(i, d.VT_String).SetString("ins"); return nil })
		add("RemoveIndex "+s, func(m *M, ic bool) *M {
			if m.K == KArr && i >= 0 && i < len(m.Vals) {
				m.removeAt(i)
			}
			return nil
		}, func(v *d.DxValue) *d.DxValue { v.RemoveIndex(i); return nil })
	}
	add("Append", func(m *M, ic bool) *M {
		if m.K != KArr {
			m.become(KArr)
		}
		m.Vals = append(append([]*M{}, m.Vals...), zeroM(KObj))
		return zeroM(KObj)
	}, func(v *d.DxValue) *d.DxValue { return v.Append(d.VT_Object) })
	add("Append null", func(m *M, ic bool) *M {
		if m.K != KArr {
			m.become(KArr)
		}
		m.Vals = append(append([]*M{}, m.Vals...), mK(KNull))
		return nil
	}, func(v *d.DxValue) *d.DxValue { v.Append(d.VT_NULL); return nil })
	add("Clear", func(m *M, ic bool) *M {
		k := m.K
		if k >= KTrue {
			k = KNull
		}
		m.become(k)
		return nil
	}, func(v *d.DxValue) *d.DxValue { v.Clear(); return nil })
	add("Reset object", func(m *M, ic bool) *M { m.become(KObj); return nil }, func(v *d.DxValue) *d.DxValue { v.Reset(d.VT_Object); return nil })
	add("Reset array", func(m *M, ic bool) *M { m.become(KArr); return nil }, func(v *d.DxValue) *d.DxValue { v.Reset(d.VT_Array); return nil })
	add("SetString", func(m *M, ic bool) *M { *m = *mStr("text"); return nil }, func(v *d.DxValue) *d.DxValue { v.SetString("text"); return nil })
	add("AddFrom object", func(m *M, ic bool) *M {
		if m.K == KObj {
			for _, k := range []string{"b", "n"} {
				if m.find(k, ic) < 0 {
					m.setName(k, mInt(11), ic)
				}
			}
		}
		return nil
	}, func(v *d.DxValue) *d.DxValue {
		if v.DataType == d.VT_Object {
			v.AddFrom(build(mObj("b", mInt(11), "n", mInt(11)), false), nil)
		}
		return nil
	})
	return ops
}

var nilMark = &d.DxValue{}

type initState struct {
	name string
	mk   func() (*d.DxValue, *M)
}

func c14inits() []initState {
	dec := func(s string, m *M, cached bool) initState {
		return initState{"decoded " + s, func() (*d.DxValue, *M) {
			v, err := d.NewValueFromJson([]byte(s), cached, false)
			if err != nil {
				panic(err)
			}
			return v, m.clone()
		}}
	}
	return []initState{
		{"NewObject(false)", func() (*d.DxValue, *M) { return d.NewObject(false), mObj() }},
		{"NewArray(false)", func() (*d.DxValue, *M) { return d.NewArray(false), mArr() }},
		dec(`{"a":[1,{"q":2}],"b\u000a":"x","c":null}`, mObj("a", mArr(mInt(1), mObj("q", mInt(2))), "b\n", mStr("x"), "c", mK(KNull)), false),
		dec(`[1,"a",{"a":true},[2]]`, mArr(mInt(1), mStr("a"), mObj("a", mK(KTrue)), mArr(mInt(2))), true),
		{"NewObject(true) recycled", func() (*d.DxValue, *M) {
			v := d.NewCacheValue(d.VT_Array)
			fill(v, mArr(mObj("a", mInt(1), "A", mStr("z")), mInt(3), mArr(mInt(4))))
			free(v)
			return d.NewObject(true), mObj()
		}},
		{"NewArray(true) recycled", func() (*d.DxValue, *M) {
			v := d.NewCacheValue(d.VT_Object)
			fill(v, mObj("a", mObj("b", mInt(2)), "b\n", mInt(1)))
			free(v)
			return d.NewArray(true), mArr()
		}},
		{"a string", func() (*d.DxValue, *M) { v := d.NewValue(d.VT_String); v.SetString("x"); return v, mStr("x") }},
		{"zero value", func() (*d.DxValue, *M) { return &d.DxValue{}, mObj() }},
		dec(`{"k0":0,"a":1,"k2":2,"b\n":3,"k4":4,"k5":5,"k6":6,"k7":7}`, mObj("k0", mInt(0), "a", mInt(1), "k2", mInt(2), "b\n", mInt(3), "k4", mInt(4), "k5", mInt(5), "k6", mInt(6), "k7", mInt(7)), true),
		{"array of 8", func() (*d.DxValue, *M) {
			m := mArr(mInt(0), mInt(1), mInt(2), mInt(3), mInt(4), mInt(5), mInt(6), mInt(7))
			return build(m, false), m
		}},
	}
}

// lookups compares every look-up of the given names and positions.
func lookups(t *T, v *d.DxValue, m *M, names []string, ic bool) {
	for _, k := range names {
		got, want := v.ValueByName(k), m.named(k, ic)
		if (got == nil) != (want == nil) {
			t.Failf("look-up of %q: got %v, want %v in %v", k, got != nil, want != nil, m)
		}
		if got != v.Find(k) || got != v.ValueByPath(k) {
			t.Failf("Find/ValueByPath/ValueByName disagree on %q", k)
		}
		if got != nil {
			if s := diff(want, observe(got), eqOpt{}); s != "" {
				t.Failf("look-up of %q gives another entry: %s (in %v)", k, s, m)
			}
		} else if v.AsString(k, "DEF") != "DEF" || v.AsInt(k, 12) != 12 {
			t.Failf("absent %q does not give the default", k)
		}
	}
	for i := -1; i <= len(m.Vals); i++ {
		if got, want := v.ValueByIndex(i), m.at(i); (got == nil) != (want == nil) {
			t.Failf("position %d: got %v, want %v", i, got != nil, want != nil)
		} else if got == nil && v.StringByIndex(i, "DEF") != "DEF" {
			t.Failf("absent position %d does not give the default", i)
		}
	}
}

func runC14(c *Ctx) {
	c14alike(c)
	c14wide(c)
	type cfg struct {
		keys  []string
		idxs  []int
		depth int
		ic    bool
		inits []initState
	}
	all := c14inits()
	cfgs := []cfg{
		{[]string{"a", "b\n", "0"}, []int{-1, 0, 1, 5}, 2, false, all},
		{[]string{"a", "b\n", "0"}, []int{0, 1}, 3, false, all},
		{[]string{"a", "A"}, []int{0}, 3, true, all},
		{[]string{"a", "A", "b\n", "B\n", "é", "É"}, []int{0}, 2, true, all},
		{[]string{"a", "A"}, []int{}, 4, false, all[:1]},
	}
	if !c.quick {
		cfgs = []cfg{
			{[]string{"a", "b\n", "0"}, []int{-1, 0, 1, 5}, 3, false, all},
			{[]string{"a", "b\n"}, []int{0, 1}, 4, false, all},
			{[]string{"a", "A"}, []int{0}, 4, true, all},
			{[]string{"a", "A", "b\n", "B\n", "é", "É"}, []int{0}, 3, true, all},
			{[]string{"a"}, []int{}, 5, false, all[:6]},
			{[]string{}, []int{0, 1}, 5, false, all[1:4]},
		}
	}
	for ci, cf := range cfgs {
		ops := setOps(cf.keys, cf.idxs)
		names := append(append([]string{}, cf.keys...), "zz", "", "1", "-1", "in", "c", "C", "b", "A", "É")
		c.Bound(fmt.Sprintf("config_%d", ci), fmt.Sprintf("names %q positions %v: %d operations, depth %d, ignore case %v, %d initial states", cf.keys, cf.idxs, len(ops), cf.depth, cf.ic, len(cf.inits)))
		for ii := range cf.inits {
			for o1 := range ops {
				ii, o1, cf := ii, o1, cf
				c.Case(func() string {
					return fmt.Sprintf("config %d, %s, sequences starting with %s", ci, cf.inits[ii].name, ops[o1].name)
				}, func(t *T) {
					d.IgnoreCase = cf.ic
					seq := make([]int, cf.depth)
					seq[0] = o1
					run := func(n int) {
						v, m := cf.inits[ii].mk()
						fail := func(s string) {
							var l []string
							for _, x := range seq[:n] {
								l = append(l, ops[x].name)
							}
							t.Failf("%s; %s (ignore case %v): %s", cf.inits[ii].name, strings.Join(l, "; "), cf.ic, s)
						}
						for k := 0; k < n; k++ {
							op := ops[seq[k]]
							var want *M
							want = op.m(m, cf.ic)
							got := op.r(v)
							t.Op()
							if k < n-1 {
								continue
							}
							if want != nil {
								if got == nilMark {
									got = nil
								}
								if s := diff(want, observe(got), eqOpt{}); s != "" {
									fail("returned value: " + s)
								}
							}
						}
						if s := full(v, m, eqOpt{tol: time.Millisecond}); s != "" {
							fail(s)
						}
						lookups(t, v, m, names, cf.ic)
						t.State(m.String())
						t.Trace()
					}
					var rec func(n int)
					rec = func(n int) {
						run(n)
						if n == cf.depth {
							return
						}
						for o := range ops {
							seq[n] = o
							rec(n + 1)
						}
					}
					rec(1)
				})
			}
		}
	}
	// large containers: every operation, and every pair of a removal or insertion with an operation, at every position
	sizes := []int{5, 9, 12, 17, 33, 65, 129, 260}
	pairSizes := []int{5, 9}
	if !c.quick {
		sizes, pairSizes = []int{5, 8, 9, 12, 16, 17, 25, 33, 40, 65, 66, 129, 257, 513, 1030}, []int{5, 6, 9, 12, 17, 66}
	}
	c.Bound("large_containers", fmt.Sprintf("every operation at every name and position (beyond 65 entries: at positions around the ends, the middle and every power of two) of containers of %v entries, every pair of operations for %v, built, cached, decoded, decoded with an ignored case", sizes, pairSizes))
	mk := func(kind Kind, n int) *M {
		m := &M{K: kind}
		for i := 0; i < n; i++ {
			if kind == KObj {
				k := "k" + itoa(i)
				if i%4 == 3 {
					k += "\n"
				}
				m.Keys = append(m.Keys, k)
			}
			switch i % 5 {
			case 2:
				m.Vals = append(m.Vals, mArr(mInt(int64(i))))
			case 3:
				m.Vals = append(m.Vals, mObj("o"+itoa(i), mInt(int64(i))))
			case 4:
				m.Vals = append(m.Vals, mStr("s"+itoa(i)))
			default:
				m.Vals = append(m.Vals, mInt(int64(i)))
			}
		}
		return m
	}
	picked := func(n int) []int { // positions of very large containers
		var out []int
		for _, i := range []int{0, 1, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, n / 2, n - 4, n - 3, n - 2, n - 1} {
			dup := i < 0 || i >= n
			for _, x := range out {
				dup = dup || x == i
			}
			if !dup {
				out = append(out, i)
			}
		}
		return out
	}
	bigOps := func(m *M) []mop {
		var idx []int
		if len(m.Vals) > 65 {
			var keys []string
			idx = picked(len(m.Vals))
			for _, i := range idx {
				if m.K == KObj {
					keys = append(keys, m.Keys[i])
				}
			}
			idx = append(idx, len(m.Vals), len(m.Vals)+1, len(m.Vals)+300)
			if m.K == KArr {
				return setOps([]string{"0", "64", itoa(len(m.Vals) - 1)}, idx)
			}
			return setOps(append(keys, "new"), []int{0})
		}
		for i := range m.Vals {
			idx = append(idx, i)
		}
		idx = append(idx, len(m.Vals), len(m.Vals)+3)
		if m.K == KArr {
			return setOps([]string{"0", itoa(len(m.Vals) - 1)}, idx)
		}
		return setOps(append(append([]string{}, m.Keys...), "new"), []int{0})
	}
	for _, kind := range []Kind{KObj, KArr} {
		for _, n := range sizes {
			base := mk(kind, n)
			ops := bigOps(base)
			pairs := false
			for _, x := range pairSizes {
				pairs = pairs || x == n
			}
			for o1 := range ops {
				o1, kind, n := o1, kind, n
				c.Case(func() string {
					return fmt.Sprintf("%s of %d entries, sequences starting with %s", kindName[kind], n, ops[o1].name)
				}, func(t *T) {
					for way := 0; way < 5; way++ {
						ic := way == 4
						d.IgnoreCase = ic
						start := func() *d.DxValue {
							switch way {
							case 0:
								return build(base, false)
							case 1:
								return build(base, true)
							case 3:
								v, err := d.NewValueFromMsgPack(encodeFor("mp", base), true, true)
								if err != nil {
									panic(err)
								}
								return v
							}
							v, err := d.NewValueFromJson(refEncode(base), false, false)
							if err != nil {
								panic(err)
							}
							return v
						}
						apply := func(seq ...int) {
							v, m := start(), base.clone()
							var names []string
							for _, o := range seq {
								names = append(names, ops[o].name)
								want := ops[o].m(m, ic)
								got := ops[o].r(v)
								t.Op()
								if want != nil {
									if got == nilMark {
										got = nil
									}
									if s := diff(want, observe(got), eqOpt{}); s != "" {
										t.Failf("%s of %d (way %d); %s: returned value: %s", kindName[kind], n, way, strings.Join(names, "; "), s)
									}
								}
							}
							if s := full(v, m, eqOpt{}); s != "" {
								t.Failf("%s of %d (way %d); %s: %s", kindName[kind], n, way, strings.Join(names, "; "), s)
							}
							if len(seq) == 1 {
								names := append(append([]string{}, base.Keys...), "new", "in", "K0", "NEW")
								if n > 65 {
									names = []string{"new", "in", "K0", "NEW", "k64", "0", "64", itoa(n - 1), itoa(n)}
									for _, i := range picked(len(base.Keys)) {
										names = append(names, base.Keys[i])
									}
								}
								lookups(t, v, m, names, ic)
								t.State(m.String())
							}
						}
						apply(o1)
						if pairs && (way == 0 || !c.quick) {
							for o2 := range ops {
								apply(o1, o2)
							}
						}
					}
					t.Trace()
				})
			}
		}
	}
	// long growth: the same operation repeated, so that every internal capacity up to several hundred is crossed
	type rep struct {
		name string
		kind Kind
		f    func(i int, v *d.DxValue, m *M)
	}
	insAt := func(m *M, j int, x *M) {
		nv := append([]*M{}, m.Vals[:j]...)
		m.Vals = append(append(nv, x), m.Vals[j:]...)
	}
	reps := []rep{
		{"insert at the front", KArr, func(i int, v *d.DxValue, m *M) {
			v.InsertValue(0, d.VT_Int).SetInt(int64(i))
			insAt(m, 0, mInt(int64(i)))
		}},
		{"insert before the last", KArr, func(i int, v *d.DxValue, m *M) {
			j := len(m.Vals) - 1
			if j < 0 {
				j = 0
			}
			v.InsertValue(j, d.VT_Int).SetInt(int64(i))
			insAt(m, j, mInt(int64(i)))
		}},
		{"append", KArr, func(i int, v *d.DxValue, m *M) {
			v.Append(d.VT_Int).SetInt(int64(i))
			insAt(m, len(m.Vals), mInt(int64(i)))
		}},
		{"set beyond the end", KArr, func(i int, v *d.DxValue, m *M) { v.SetIndexString(-1, "s"); insAt(m, len(m.Vals), mStr("s")) }},
		{"store values", KArr, func(i int, v *d.DxValue, m *M) {
			v.SetIndexValue(i, build(mArr(mInt(1)), false))
			insAt(m, len(m.Vals), mArr(mInt(1)))
		}},
		{"append twice, remove first", KArr, func(i int, v *d.DxValue, m *M) {
			for k := 0; k < 2; k++ {
				v.SetIndexInt(len(m.Vals), int64(i))
				insAt(m, len(m.Vals), mInt(int64(i)))
			}
			v.RemoveIndex(0)
			m.removeAt(0)
		}},
		{"new keys", KObj, func(i int, v *d.DxValue, m *M) {
			v.SetKeyInt("k"+itoa(i), int64(i))
			m.setName("k"+itoa(i), mInt(int64(i)), false)
		}},
		{"new objects", KObj, func(i int, v *d.DxValue, m *M) {
			v.SetKey("k"+itoa(i), d.VT_Object)
			m.setName("k"+itoa(i), mObj(), false)
		}},
		{"two new keys, remove the oldest", KObj, func(i int, v *d.DxValue, m *M) {
			for k := 0; k < 2; k++ {
				n := itoa(i) + "\n" + itoa(k)
				v.SetKeyString(n, n)
				m.setName(n, mStr(n), false)
			}
			if i%2 == 0 {
				v.RemoveKey(m.Keys[0])
			} else {
				v.ExtractValue(m.Keys[0])
			}
			m.removeAt(0)
		}},
		{"replace the only key's kind", KObj, func(i int, v *d.DxValue, m *M) {
			if i%2 == 0 {
				v.SetKey("k", d.VT_Array).SetIndexInt(0, int64(i))
				m.setName("k", mArr(mInt(int64(i))), false)
			} else {
				v.SetKeyString("k", "s")
				m.setName("k", mStr("s"), false)
			}
		}},
	}
	rounds := 300
	if !c.quick {
		rounds = 1100
	}
	c.Bound("long_growth", fmt.Sprintf("%d repeated operations, %d rounds each, compared at every round to 40 and around every power of two", len(reps), rounds))
	for _, rp := range reps {
		for _, cached := range []bool{false, true} {
			rp, cached := rp, cached
			c.Case(func() string { return fmt.Sprintf("%s again and again, cached=%v", rp.name, cached) }, func(t *T) {
				v := newRoot(vtOf[rp.kind], cached)
				m := &M{K: rp.kind}
				for i := 0; i < rounds; i++ {
					rp.f(i, v, m)
					t.Op()
					near := i < 40 || i == rounds-1
					for p := 64; p <= 1024; p *= 2 {
						near = near || i >= p-2 && i <= p+2
					}
					if near {
						if s := full(v, m, eqOpt{}); s != "" {
							t.Failf("%s, cached=%v, after %d rounds: %s", rp.name, cached, i+1, s)
						}
						t.State(m.String())
					}
				}
				t.Trace()
			})
		}
	}
	// growth through every internal capacity
	for _, kind := range []Kind{KObj, KArr} {
		for _, cached := range []bool{false, true} {
			kind, cached := kind, cached
			c.Case(func() string { return fmt.Sprintf("growing and shrinking %s cached=%v", kindName[kind], cached) }, func(t *T) {
				v := newRoot(vtOf[kind], cached)
				m := &M{K: kind}
				for i := 0; i < 70; i++ {
					if kind == KObj {
						setKey(v, "k"+itoa(i), mInt(int64(i)))
						m.setName("k"+itoa(i), mInt(int64(i)), false)
					} else {
						setIdx(v, i, mInt(int64(i)))
						m.setPos(i, mInt(int64(i)))
					}
					t.Op()
					if s := full(v, m, eqOpt{}); s != "" {
						t.Failf("after %d: %s", i, s)
					}
				}
				for i := 0; len(m.Vals) > 0; i++ {
					j := (i * 7) % len(m.Vals)
					if kind == KObj {
						v.RemoveKey(m.Keys[j])
					} else {
						v.RemoveIndex(j)
					}
					m.removeAt(j)
					t.Op()
					if s := full(v, m, eqOpt{}); s != "" {
						t.Failf("after removing #%d: %s", j, s)
					}
				}
				t.Trace()
			})
		}
	}
}
