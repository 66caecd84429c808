package main

import (
	"fmt"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
)

// C13: copies are complete and independent.

func init() {
	register("C13", runC13,
		"every tree up to a node bound (and every tree of the typed document set), produced in every way, is copied by every copying operation; source and copy must equal the tree; then every single change at every node of either side, clearing and freeing either side (followed by allocations that reuse the recycled memory) must leave the other side exactly as it was")
}

type copier struct {
	name string
	f    func(src *d.DxValue) *d.DxValue
	ok   func(m *M) bool
}

func notConst(m *M) bool { return m.K < KNull }
func anyTree(m *M) bool  { return true }

func copiers() []copier {
	filled := func(cached bool) *d.DxValue {
		v := newRoot(d.VT_Object, cached)
		fill(v, mObj("old", mArr(mInt(1), mStr("x")), "a", mInt(3)))
		return v
	}
	return []copier{
		{"Clone(false)", func(s *d.DxValue) *d.DxValue { return s.Clone(false) }, anyTree},
		{"Clone(true)", func(s *d.DxValue) *d.DxValue { return s.Clone(true) }, anyTree},
		{"CopyFrom", func(s *d.DxValue) *d.DxValue { v := &d.DxValue{}; v.CopyFrom(s, nil); return v }, anyTree},
		{"CopyFrom over content", func(s *d.DxValue) *d.DxValue { v := filled(false); v.CopyFrom(s, nil); return v }, anyTree},
		{"CopyFrom cached", func(s *d.DxValue) *d.DxValue {
			v := d.NewCacheValue(d.VT_Int)
			v.CopyFrom(s, v.ValueCache())
			return v
		}, anyTree},
		{"CopyFrom cached over content", func(s *d.DxValue) *d.DxValue { v := filled(true); v.CopyFrom(s, nil); return v }, anyTree},
		{"CopyFrom into a child", func(s *d.DxValue) *d.DxValue {
			p := d.NewObject(true)
			v := p.SetKey("c", d.VT_Array)
			v.SetIndexInt(0, 1)
			v.CopyFrom(s, p.ValueCache())
			return p.ValueByName("c")
		}, anyTree},
		{"SetValue(pointer)", func(s *d.DxValue) *d.DxValue { v := filled(false); v.SetValue(s); return v }, anyTree},
		{"SetValue(value)", func(s *d.DxValue) *d.DxValue { v := filled(true); v.SetValue(*s); return v }, notConst},
		{"NewValueFrom", func(s *d.DxValue) *d.DxValue { return d.NewValueFrom(s, false) }, anyTree},
		{"NewValueFrom cached", func(s *d.DxValue) *d.DxValue { return d.NewValueFrom(s, true) }, anyTree},
		{"MergeWith", func(s *d.DxValue) *d.DxValue { v := d.NewValue(s.DataType); v.MergeWith(s, nil); return v }, func(m *M) bool { return m.K <= KArr }},
		{"MergeWith cached", func(s *d.DxValue) *d.DxValue { v := d.NewCacheValue(s.DataType); v.MergeWith(s, nil); return v }, func(m *M) bool { return m.K <= KArr }},
		{"AddFrom", func(s *d.DxValue) *d.DxValue { v := d.NewValue(s.DataType); v.AddFrom(s, nil); return v }, func(m *M) bool { return m.K <= KArr }},
		{"AddFrom cached", func(s *d.DxValue) *d.DxValue {
			v := d.NewCacheValue(s.DataType)
			v.AddFrom(s, v.ValueCache())
			return v
		}, func(m *M) bool { return m.K <= KArr }},
		{"Clone of Clone", func(s *d.DxValue) *d.DxValue { c := s.Clone(true); r := c.Clone(false); free(c); return r }, anyTree},
		{"merge replacing", func(s *d.DxValue) *d.DxValue {
			v := d.NewObject(false)
			v.SetKeyInt("k", 5)
			o := d.NewObject(false)
			o.SetKeyValue("k", s)
			v.MergeWith(o, func(string, *d.DxValue, *d.DxValue) d.MergeOp { return d.MO_Replace })
			return v.ValueByName("k")
		}, anyTree},
		{"merge adding nested", func(s *d.DxValue) *d.DxValue {
			v := d.NewObject(true)
			v.SetKey("o", d.VT_Object).SetKeyInt("z", 1)
			o := d.NewObject(false)
			o.SetKey("o", d.VT_Object).SetKeyValue("k", s)
			v.MergeWith(o, nil)
			return v.ValueByPath("o", "k")
		}, anyTree},
		{"merge to pair", func(s *d.DxValue) *d.DxValue {
			v := d.NewObject(false)
			v.SetKeyInt("k", 5)
			o := d.NewObject(false)
			o.SetKeyValue("k", s)
			v.MergeWith(o, nil)
			return v.ValueByPath("k", "1")
		}, anyTree},
		{"merge array element", func(s *d.DxValue) *d.DxValue {
			v := d.NewArray(false)
			o := d.NewArray(false)
			o.SetIndexValue(0, s)
			v.MergeWith(o, nil)
			return v.ValueByIndex(0)
		}, anyTree},
	}
}

type producer struct {
	name string
	f    func(m *M) *d.DxValue
	opt  eqOpt
	ok   func(m *M) bool
}

func jsonable(m *M) bool {
	ok := true
	eachNode(m, func(x *M) {
		if x.K == KTime || x.K == KBin || x.K == KExt || x.K == KNan || x.K == KInf || x.K == KFlt || x.Sub != 0 {
			ok = false
		}
		if x.K == KDbl && x.F == float64(int64(x.F)) {
			ok = false
		}
	})
	return ok
}

func mpable(m *M) bool {
	ok := true
	eachNode(m, func(x *M) { ok = ok && x.K != KNan && x.K != KInf && x.Sub == 0 })
	return ok
}

func producers() []producer {
	must := func(v *d.DxValue, err error) *d.DxValue {
		if err != nil {
			panic(err)
		}
		return v
	}
	return []producer{
		{"built", func(m *M) *d.DxValue { return build(m, false) }, eqOpt{tol: time.Millisecond}, anyTree},
		{"built cached", func(m *M) *d.DxValue { return build(m, true) }, eqOpt{tol: time.Millisecond}, anyTree},
		{"JSON unread", func(m *M) *d.DxValue { return must(d.NewValueFromJson(refEncode(m), false, false)) }, eqOpt{}, jsonable},
		{"JSON cached shared", func(m *M) *d.DxValue { return must(d.NewValueFromJson(refEncodeEsc(m), true, true)) }, eqOpt{}, jsonable},
		{"MsgPack shared", func(m *M) *d.DxValue { return must(d.NewValueFromMsgPack(encodeFor("mp", m), false, true)) }, eqOpt{tol: 2 * time.Millisecond}, mpable},
		{"MsgPack cached", func(m *M) *d.DxValue { return must(d.NewValueFromMsgPack(encodeFor("mp", m), true, false)) }, eqOpt{tol: 2 * time.Millisecond}, mpable},
	}
}

type mutation struct {
	name string
	// f changes node n (whose parent is p, reached as entry i; p nil for the root); false: not applicable
	f func(n, p *d.DxValue, i int) bool
}

func isCont(v *d.DxValue) bool { return v.DataType == d.VT_Object || v.DataType == d.VT_Array }

func mutations() []mutation {
	return []mutation{
		{"set a new key", func(n, p *d.DxValue, i int) bool {
			if n.DataType != d.VT_Object {
				return false
			}
			n.SetKeyString("zz", "new")
			n.SetKey("yy", d.VT_Array).SetIndexInt(0, 1)
			return true
		}},
		{"replace the first entry", func(n, p *d.DxValue, i int) bool {
			if n.Count() == 0 {
				return false
			}
			if n.DataType == d.VT_Object {
				n.SetKeyValue(n.KeyNameByIndex(0), d.NewValueFrom("repl", false))
			} else {
				n.SetIndexValue(0, d.NewValueFrom("repl", false))
			}
			return true
		}},
		{"overwrite the last entry in place", func(n, p *d.DxValue, i int) bool {
			k := n.Count()
			if k == 0 {
				return false
			}
			if n.DataType == d.VT_Object {
				n.SetKeyInt(n.KeyNameByIndex(k-1), 987654)
			} else {
				n.SetIndexInt(k-1, 987654)
			}
			return true
		}},
		{"remove the first entry", func(n, p *d.DxValue, i int) bool {
			if n.Count() == 0 {
				return false
			}
			if n.DataType == d.VT_Object {
				n.RemoveKey(n.KeyNameByIndex(0))
			} else {
				n.RemoveIndex(0)
			}
			return true
		}},
		{"insert and append", func(n, p *d.DxValue, i int) bool {
			if n.DataType != d.VT_Array {
				return false
			}
			n.InsertValue(0, d.VT_Int).SetInt(5)
			n.Append(d.VT_String).SetString("app")
			return true
		}},
		{"extract the last entry", func(n, p *d.DxValue, i int) bool {
			if n.DataType != d.VT_Object || n.Count() == 0 {
				return false
			}
			x := n.ExtractValue(n.KeyNameByIndex(n.Count() - 1))
			if x != nil && !x.ReadOnly() {
				x.SetString("extracted")
			}
			return true
		}},
		{"reset to object and fill", func(n, p *d.DxValue, i int) bool {
			if n.ReadOnly() {
				return false
			}
			n.Reset(d.VT_Object)
			n.SetKeyInt("r", 1)
			n.SetKeyInt("s", 2)
			return true
		}},
		{"reset to array and fill", func(n, p *d.DxValue, i int) bool {
			if n.ReadOnly() {
				return false
			}
			n.Reset(d.VT_Array)
			n.SetIndexInt(0, 1)
			n.SetIndexInt(1, 2)
			return true
		}},
		{"clear", func(n, p *d.DxValue, i int) bool {
			if n.ReadOnly() {
				return false
			}
			n.Clear()
			return true
		}},
		{"set int", func(n, p *d.DxValue, i int) bool { n.SetInt(4242); return !n.ReadOnly() }},
		{"set string", func(n, p *d.DxValue, i int) bool { n.SetString("mutated"); return !n.ReadOnly() }},
		{"set bool", func(n, p *d.DxValue, i int) bool { n.SetBool(true); return !n.ReadOnly() }},
		{"change binary bytes", func(n, p *d.DxValue, i int) bool {
			b := n.Binary()
			for k := range b {
				b[k] ^= 0xff
			}
			return len(b) > 0
		}},
		{"change the extension type", func(n, p *d.DxValue, i int) bool {
			if n.DataType != d.VT_ExBinary {
				return false
			}
			n.SetExtType(111)
			return true
		}},
		{"set binary", func(n, p *d.DxValue, i int) bool {
			if n.DataType != d.VT_Binary && n.DataType != d.VT_ExBinary {
				return false
			}
			n.SetBinary([]byte("Q"), true)
			return true
		}},
		{"load JSON", func(n, p *d.DxValue, i int) bool {
			if n.ReadOnly() {
				return false
			}
			n.LoadFromJson([]byte(`{"l":[1,{"m":2}],"n":"x"}`), false)
			return true
		}},
		{"force a path", func(n, p *d.DxValue, i int) bool {
			if n.DataType != d.VT_Object {
				return false
			}
			n.ForcePath(d.VT_Int, "a", "fp").SetInt(1)
			return true
		}},
		{"merge in", func(n, p *d.DxValue, i int) bool {
			if !isCont(n) {
				return false
			}
			n.MergeWith(build(&M{K: Kind(n.DataType), Keys: []string{"a"}, Vals: []*M{mStr("merged")}}, false), nil)
			return true
		}},
		{"set the ExtType field", func(n, p *d.DxValue, i int) bool {
			if n.ReadOnly() {
				return false
			}
			n.ExtType ^= 0x55
			return true
		}},
	}
}

// nodes lists every node with its parent.
type nodeRef struct {
	n, p *d.DxValue
	i    int
}

func nodesOf(v *d.DxValue) []nodeRef {
	var out []nodeRef
	var rec func(n, p *d.DxValue, i int)
	rec = func(n, p *d.DxValue, i int) {
		if n == nil {
			return
		}
		out = append(out, nodeRef{n, p, i})
		if isCont(n) {
			for k := 0; k < n.Count(); k++ {
				_, c := n.Items(k)
				rec(c, n, k)
			}
		}
	}
	rec(v, nil, 0)
	return out
}

// reuse allocates cached values so that recycled memory is overwritten.
func reuse() {
	for i := 0; i < 3; i++ {
		v := d.NewCacheValue(d.VT_Object)
		fill(v, mObj("OVER", mArr(mStr("WRITTEN"), mBin([]byte("XXXXXXXXXXXXXXXX"))), "o2", mObj("o3", mInt(-1)), "o4", mStr("-"), "o5", mArr(), "o6", mExt(3, []byte("YYYYYYYYYYYYYY"))))
	}
}

func runC13(c *Ctx) {
	c13alike(c)
	c13blobs(c)
	c13sized(c)
	c13odd(c)
	c13wide(c)
	cps, prods, muts := copiers(), producers(), mutations()
	n := 3
	if !c.quick {
		n = 4
	}
	tm := time.Date(2021, 5, 6, 7, 8, 9, 0, time.UTC)
	var trees []*M
	shapes(n, []*M{mStr("a\\b\n"), mInt(7), mBin([]byte{1, 2, 3}), mExt(4, []byte{9, 8}), mK(KNull), mK(KTrue), mDbl(2.5)}, []string{"a", "b\n"}, "", c.Stop, func(m *M) { trees = append(trees, m) })
	if c.quick {
		shapes(4, []*M{mStr("a\\b\n"), mBin([]byte{1, 2, 3})}, []string{"a", "b\n"}, "cont", c.Stop, func(m *M) { trees = append(trees, m) })
	}
	trees = append(trees, mTime(tm), mFlt(1.5), mK(KNan), mK(KInf), mK(KFalse), mStr(""), mBin(nil), mExt(0, nil), mArr(mTime(tm), mFlt(0.5), mK(KNan)),
		mOID(bytesOfLen(12)), mDec128(bytesOfLen(16)), mTS(99), mSubBin(5, []byte{1}),
		mObj("o", mOID(bytesOfLen(12)), "x", mSubBin(4, []byte{1, 2, 3}), "y", mArr(mDec128(bytesOfLen(16)), mTS(5<<32|7))), objOfLen(12), arrOfLen(20))
	trees = append(trees, mpTrees()...)
	small := len(trees)
	trees = append(append(trees, bigTrees()...), sizedTrees()...)
	c.Bound("tree_nodes", fmt.Sprint(n))
	c.Bound("trees", fmt.Sprint(len(trees)))
	c.Bound("copying_operations", fmt.Sprint(len(cps)))
	c.Bound("changes", fmt.Sprint(len(muts)))
	for ti, m := range trees {
		for _, p := range prods {
			if !p.ok(m) {
				continue
			}
			m, p, big := m, p, ti >= small
			c.Case(func() string { return fmt.Sprintf("copies of %v (%s)", m, p.name) }, func(t *T) {
				for _, cp := range cps {
					if !cp.ok(m) {
						continue
					}
					src := p.f(m)
					cpy := cp.f(src)
					t.Op()
					if cpy == nil {
						t.Failf("%s gives nil", cp.name)
					}
					if s := full(cpy, m, p.opt); s != "" {
						t.Failf("%s is not equal to its source: %s", cp.name, s)
					}
					if s := full(src, m, p.opt); s != "" {
						t.Failf("%s changes its source: %s", cp.name, s)
					}
					m0 := observe(src)
					// exact equality of both observations (times included)
					if s := diff(m0, observe(cpy), eqOpt{}); s != "" {
						t.Failf("%s differs from its source: %s", cp.name, s)
					}
					count := len(nodesOf(src))
					for side := 0; side < 2; side++ {
						for ni := 0; ni < count; ni++ {
							if big && ni > 2 && ni < count-3 && ni != count/2 {
								continue
							}
							for _, mu := range muts {
								// the copy is made before anything has been read
								a := p.f(m)
								b := cp.f(a)
								x, y := a, b
								if side == 1 {
									x, y = b, a
								}
								nr := nodesOf(x)[ni]
								if !mu.f(nr.n, nr.p, nr.i) {
									continue
								}
								t.Op()
								if s := diff(m0, observe(y), eqOpt{}); s != "" {
									t.Failf("%s: %s at node #%d of the %s shows in the %s: %s", cp.name, mu.name, ni, [2]string{"source", "copy"}[side], [2]string{"copy", "source"}[side], s)
								}
							}
						}
						// clear and free
						for k := 0; k < 3; k++ {
							a := p.f(m)
							b := cp.f(a)
							x, y := a, b
							if side == 1 {
								x, y = b, a
							}
							if x.ReadOnly() {
								continue
							}
							switch k {
							case 0:
								x.Clear()
							case 1:
								free(x)
							case 2:
								x.Clear()
								fill(x, mObj("OVER", mArr(mStr("W"), mInt(1), mInt(2), mInt(3)), "P", mBin([]byte("ZZZZZZ"))))
							}
							reuse()
							t.Op()
							if s := full(y, m0, eqOpt{}); s != "" {
								t.Failf("%s: %s the %s shows in the %s: %s", cp.name, [3]string{"clearing", "freeing", "clearing and refilling"}[k], [2]string{"source", "copy"}[side], [2]string{"copy", "source"}[side], s)
							}
							t.Trace()
						}
					}
					t.State(cp.name + p.name + m.String())
				}
			})
		}
	}
	runOverlap(c)
	runWide(c)
}

// runWide: copies of containers with many entries, whose entries are then changed at the first, last and boundary positions.
func runWide(c *Ctx) {
	sizes := []int{255, 256, 257, 511, 513, 1023, 1024, 1025, 1026, 2047, 2049, 4095, 4097, 8193}
	if !c.quick {
		sizes = append(sizes, 16385, 32769, 65537)
	}
	c.Bound("wide containers", fmt.Sprint(sizes))
	for _, n := range sizes {
		for kind := 0; kind < 3; kind++ {
			n, kind := n, kind
			if kind == 0 && n > 5000 && c.quick {
				continue // look-ups by key are linear
			}
			m := arrOfLen(n)
			switch kind {
			case 0:
				m = objOfLen(n)
			case 2:
				m = mObj("in", mArr(mInt(1), m))
			}
			c.Case(func() string { return fmt.Sprintf("copies of a wide tree: kind %d, %d entries", kind, n) }, func(t *T) {
				mk := func() *d.DxValue {
					v, err := d.NewValueFromJson(refEncode(m), false, false)
					if err != nil {
						panic(err)
					}
					return v
				}
				at := func(v *d.DxValue) *d.DxValue {
					if kind == 2 {
						return v.ValueByName("in").ValueByIndex(1)
					}
					return v
				}
				for _, cp := range copiers() {
					if !cp.ok(m) {
						continue
					}
					a := mk()
					b := cp.f(a)
					if s := full(b, m, jsonEq); s != "" {
						t.Failf("%s is not equal to its source: %s", cp.name, short(s))
					}
					t.Op()
					for side := 0; side < 2; side++ {
						// the changes are made one after the other; the other side keeps everything
						x, y := a, b
						if side == 1 {
							a = mk()
							b = cp.f(a)
							x, y = b, a
						}
						xc := at(x)
						for _, i := range []int{0, 1, n / 2, n - 2, n - 1, 255, 256, 1023, 1024} {
							if i >= n {
								continue
							}
							_, e := xc.Items(i)
							if e.ReadOnly() {
								continue
							}
							e.SetString("changed")
							t.Op()
						}
						if s := diff(m, observe(y), jsonEq); s != "" {
							t.Failf("%s: setting entries of the %s shows in the %s: %s", cp.name, [2]string{"source", "copy"}[side], [2]string{"copy", "source"}[side], short(s))
						}
						if kind == 0 {
							xc.RemoveKey(xc.KeyNameByIndex(0))
							xc.SetKeyInt("zz", 1)
							xc.RemoveKey(xc.KeyNameByIndex(xc.Count() - 2))
						} else {
							xc.RemoveIndex(0)
							xc.InsertValue(0, d.VT_String).SetString("ins")
							xc.RemoveIndex(n / 2)
							xc.Append(d.VT_Int).SetInt(5)
						}
						if s := diff(m, observe(y), jsonEq); s != "" {
							t.Failf("%s: adding and removing entries of the %s shows in the %s: %s", cp.name, [2]string{"source", "copy"}[side], [2]string{"copy", "source"}[side], short(s))
						}
						x.Clear()
						reuse()
						if s := diff(m, observe(y), jsonEq); s != "" {
							t.Failf("%s: clearing the %s shows in the %s: %s", cp.name, [2]string{"source", "copy"}[side], [2]string{"copy", "source"}[side], short(s))
						}
						t.Trace()
					}
				}
				t.State(fmt.Sprint("wide", kind, n))
			})
			if c.Stop() {
				return
			}
		}
	}
}

// runOverlap: copying between nodes of one tree, where the destination may be, contain or be contained in the source.
func runOverlap(c *Ctx) {
	type op struct {
		name string
		real func(dst, src *d.DxValue)
		ref  func(dst, src *M) bool // dst is changed in place; src is a snapshot
	}
	replace := func(dst, src *M) bool { *dst = *src; return true }
	add := func(dst, src *M) bool {
		if dst.K != src.K || dst.K > KArr {
			return false
		}
		for i, x := range src.Vals {
			if dst.K == KArr {
				dst.Vals = append(dst.Vals, x)
			} else if dst.idx(src.Keys[i]) < 0 {
				dst.Keys, dst.Vals = append(dst.Keys, src.Keys[i]), append(dst.Vals, x)
			}
		}
		return true
	}
	ops := []op{
		{"CopyFrom", func(dst, src *d.DxValue) { dst.CopyFrom(src, nil) }, replace},
		{"CopyFrom with a cache", func(dst, src *d.DxValue) { dst.CopyFrom(src, d.NewCacheValue(d.VT_Array).ValueCache()) }, replace},
		{"SetValue", func(dst, src *d.DxValue) { dst.SetValue(src) }, replace},
		{"AddFrom", func(dst, src *d.DxValue) { dst.AddFrom(src, nil) }, add},
		{"AddFrom with a cache", func(dst, src *d.DxValue) { dst.AddFrom(src, d.NewCacheValue(d.VT_Object).ValueCache()) }, add},
	}
	var trees []*M
	n := 4
	if !c.quick {
		n = 5
	}
	shapes(n, []*M{mStr("x\n"), mInt(7)}, []string{"a", "b\n"}, "cont", c.Stop, func(m *M) { trees = append(trees, m) })
	trees = append(trees, mObj("a", mInt(1), "b", mObj("c", mInt(2), "d", mArr(mInt(1), mObj("e", mInt(3)), mArr())), "z", mBin([]byte{1})), mArr(mInt(1), mArr(mInt(2), mArr(mInt(3), mObj("q", mArr()))), mExt(3, []byte{1, 2})))
	for _, b := range bigTrees() {
		if len(modelNodes(b)) < 40 {
			trees = append(trees, b)
		}
	}
	c.Bound("trees for copies inside one tree", fmt.Sprint(len(trees)))
	for _, m := range trees {
		m := m
		c.Case(func() string { return fmt.Sprintf("copies between nodes of %v", m) }, func(t *T) {
			count := len(modelNodes(m))
			for _, p := range producers() {
				if !p.ok(m) {
					continue
				}
				for di := 0; di < count; di++ {
					for si := 0; si < count; si++ {
						for _, o := range ops {
							want := m.clone()
							wn := modelNodes(want)
							if !o.ref(wn[di], wn[si].clone()) {
								continue
							}
							root := p.f(m)
							ns := nodesOf(root)
							if ns[di].n.ReadOnly() {
								continue
							}
							o.real(ns[di].n, ns[si].n)
							t.Op()
							if s := full(root, want, p.opt); s != "" {
								t.Failf("%s: node #%d %s node #%d of %v: %s", p.name, di, o.name, si, m, s)
							}
						}
					}
				}
			}
			t.State(m.String())
			t.Trace()
		})
		if c.Stop() {
			return
		}
	}
}

func eachNode(m *M, f func(*M)) {
	f(m)
	for _, v := range m.Vals {
		eachNode(v, f)
	}
}
