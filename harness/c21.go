package main

import (
	"fmt"
	"strings"
	"time"

	DxCommonLib "github.com/suiyunonghen/DxCommonLib"
	d "github.com/suiyunonghen/dxsvalue"
)

// C21: shared constants are immutable.

func init() {
	register("C21", runC21,
		"every sequence of mutating operations up to a depth, applied to each shared constant obtained in every way and to every node of trees that contain constants; after each sequence all five constants, a live tree holding them and freshly decoded ones are observed completely and compared with the first observation")
}

var constKinds = []Kind{KTrue, KFalse, KNull, KNan, KInf}

func readEverything(v *d.DxValue) string {
	_, it := v.Items(0)
	n := 0
	v.Visit(func(string, *d.DxValue) bool { n++; return true })
	return fmt.Sprintf("%d/%d %v %v %v %v %q c%d b%x,%d,%d %v %v %v it%v n%d %v %v %v k%q j%s a%s f%s m%x ro%v",
		v.DataType, v.ExtType, v.Int(), v.Double(), v.Float(), v.Bool(), v.String(), v.Count(), v.Binary(), v.BinLen(), v.BinExtType(), v.GoTime().Unix(), float64(v.DateTime()), v.Duration(-3),
		it == nil, n, v.ValueByName("a") == nil, v.ValueByName("0") == nil, v.ValueByIndex(0) == nil, v.KeyNameByIndex(0),
		v.ToJson(false, d.JSE_OnlyAnsiChar, false, nil), v.ToJson(false, d.JSE_AllEscape, true, nil), v.ToJson(true, d.JSE_NoEscape, false, nil), v.ToMsgPack(nil), v.ReadOnly())
}

// constReport observes the five constants; nothing in it depends on earlier operations.
func constReport() string {
	var b strings.Builder
	for _, k := range constKinds {
		v := d.NewValue(vtOf[k])
		b.WriteString(readEverything(v))
		b.WriteByte('\n')
		if d.NewCacheValue(vtOf[k]) != v {
			fmt.Fprintf(&b, "cached %s differs\n", kindName[k])
		}
	}
	return b.String()
}

const constDoc = `{"t":true,"f":false,"n":null,"l":[true,null,{"x":false}]}`

func constTreeReport(w *d.DxValue) string {
	return observe(w).String() + string(w.ToJson(false, d.JSE_OnlyAnsiChar, false, nil)) + string(w.ToMsgPack(nil)) + string(w.ToBson(nil))
}

func liveConstTree() *d.DxValue {
	w, err := d.NewValueFromJson([]byte(constDoc), false, false)
	if err != nil {
		panic(err)
	}
	w.SetKeyValue("nan", d.NewValue(d.VT_NAN))
	w.SetKeyValue("inf", d.NewCacheValue(d.VT_INF))
	w.SetKeyBool("b", true)
	return w
}

type constWay struct {
	name string
	mk   func() *d.DxValue
	k    Kind
}

func constWays() []constWay {
	var out []constWay
	dec := func(f, s string, cached bool) *d.DxValue {
		v, err := decodeBy(f, s, cached)
		if err != nil {
			panic(f + s)
		}
		return v
	}
	for _, k := range constKinds {
		k := k
		out = append(out, constWay{"NewValue", func() *d.DxValue { return d.NewValue(vtOf[k]) }, k},
			constWay{"NewCacheValue", func() *d.DxValue { return d.NewCacheValue(vtOf[k]) }, k},
			constWay{"entry set by kind", func() *d.DxValue { o := d.NewObject(true); return o.SetKey("k", vtOf[k]) }, k},
			constWay{"array element set by kind", func() *d.DxValue { o := d.NewArray(false); return o.Append(vtOf[k]) }, k},
			constWay{"clone", func() *d.DxValue { return d.NewValue(vtOf[k]).Clone(true) }, k},
			constWay{"generic setter", func() *d.DxValue {
				o := d.NewObject(false)
				o.SetKeyvalue("k", d.NewValue(vtOf[k]), nil)
				return o.ValueByName("k")
			}, k})
	}
	for _, k := range []Kind{KTrue, KFalse, KNull} {
		k := k
		for _, cached := range []bool{false, true} {
			cached := cached
			out = append(out,
				constWay{"JSON root", func() *d.DxValue { return dec("json", kindName[k], cached) }, k},
				constWay{"JSON entry", func() *d.DxValue { return dec("json", `{"k":`+kindName[k]+`}`, cached).ValueByName("k") }, k},
				constWay{"MsgPack root", func() *d.DxValue { return dec("mp", string(encodeFor("mp", mK(k))), cached) }, k},
				constWay{"MsgPack element", func() *d.DxValue {
					return dec("mp", string(encodeFor("mp", mArr(mInt(1), mK(k)))), cached).ValueByIndex(1)
				}, k},
				constWay{"BSON entry", func() *d.DxValue {
					return dec("bson", string(encodeFor("bson", mObj("k", mK(k)))), cached).ValueByName("k")
				}, k})
			if k != KNull {
				out = append(out, constWay{"YAML entry", func() *d.DxValue { return dec("yaml", "k: "+kindName[k]+"\nl: 1\n", cached).ValueByName("k") }, k})
			}
		}
	}
	out = append(out,
		constWay{"SetKeyBool", func() *d.DxValue { o := d.NewObject(false); o.SetKeyBool("k", true); return o.ValueByName("k") }, KTrue},
		constWay{"SetIndexBool", func() *d.DxValue { o := d.NewArray(false); o.SetIndexBool(0, false); return o.ValueByIndex(0) }, KFalse},
		constWay{"NewValueFrom", func() *d.DxValue { return d.NewValueFrom(true, false) }, KTrue},
		constWay{"Go map", func() *d.DxValue {
			return d.NewValueFrom(map[string]interface{}{"k": true, "n": nil}, true).ValueByName("k")
		}, KTrue},
		constWay{"Go slice", func() *d.DxValue { return d.NewValueFrom([]interface{}{nil, false}, false).ValueByIndex(1) }, KFalse},
		constWay{"forced path", func() *d.DxValue { return d.NewObject(false).ForcePath(d.VT_NULL, "a", "b") }, KNull},
		constWay{"array of both after merge", func() *d.DxValue {
			a, b := dec("json", `{"k":true}`, false), dec("json", `{"k":false}`, false)
			a.MergeWith(b, nil)
			return a.ValueByPath("k", "0")
		}, KTrue},
		constWay{"extracted", func() *d.DxValue { return dec("json", `{"k":false}`, true).ExtractValue("k") }, KFalse},
	)
	return out
}

type constOp struct {
	name string
	f    func(v *d.DxValue)
}

func constOps() []constOp {
	var ops []constOp
	for _, o := range scOps(false) {
		ops = append(ops, constOp{o.name, o.f})
	}
	tm := time.Date(2021, 5, 6, 7, 8, 9, 0, time.UTC)
	add := func(n string, f func(v *d.DxValue)) { ops = append(ops, constOp{n, f}) }
	touch := func(n *d.DxValue) {
		if n != nil {
			n.SetInt(3)
			n.SetString("touched")
			n.Reset(d.VT_Object)
			n.SetKeyInt("in", 1)
		}
	}
	for _, k := range []Kind{KObj, KArr, KStr, KInt, KTrue, KNull} {
		k := k
		add("SetKey "+kindName[k], func(v *d.DxValue) { touch(v.SetKey("a", vtOf[k])) })
		add("SetIndex "+kindName[k], func(v *d.DxValue) { touch(v.SetIndex(0, vtOf[k])) })
		add("Append "+kindName[k], func(v *d.DxValue) { touch(v.Append(vtOf[k])) })
		add("InsertValue "+kindName[k], func(v *d.DxValue) { touch(v.InsertValue(0, vtOf[k])) })
		add("ForcePath "+kindName[k], func(v *d.DxValue) { touch(v.ForcePath(vtOf[k], "a", "b")) })
		add("ForcePath one "+kindName[k], func(v *d.DxValue) { touch(v.ForcePath(vtOf[k], "0")) })
		add("ForcePath none "+kindName[k], func(v *d.DxValue) { touch(v.ForcePath(vtOf[k])) })
	}
	add("SetKeyString", func(v *d.DxValue) { v.SetKeyString("a", "x") })
	add("SetKeyInt", func(v *d.DxValue) { v.SetKeyInt("a", 7) })
	add("SetKeyFloat", func(v *d.DxValue) { v.SetKeyFloat("a", 7) })
	add("SetKeyDouble", func(v *d.DxValue) { v.SetKeyDouble("a", 7) })
	add("SetKeyBool", func(v *d.DxValue) { v.SetKeyBool("a", false) })
	add("SetKeyTime", func(v *d.DxValue) { v.SetKeyTime("a", tm) })
	add("SetIndexString", func(v *d.DxValue) { v.SetIndexString(0, "x") })
	add("SetIndexInt", func(v *d.DxValue) { v.SetIndexInt(0, 7) })
	add("SetIndexFloat", func(v *d.DxValue) { v.SetIndexFloat(0, 7) })
	add("SetIndexDouble", func(v *d.DxValue) { v.SetIndexDouble(0, 7) })
	add("SetIndexBool", func(v *d.DxValue) { v.SetIndexBool(0, true) })
	add("SetIndexTime", func(v *d.DxValue) { v.SetIndexTime(0, tm) })
	add("SetKeyValue", func(v *d.DxValue) { v.SetKeyValue("a", d.NewValueFrom("x", false)) })
	add("SetIndexValue", func(v *d.DxValue) { v.SetIndexValue(0, d.NewValueFrom(7, false)) })
	add("SetKeyvalue", func(v *d.DxValue) { v.SetKeyvalue("a", map[string]int{"b": 1}, nil) })
	add("SetIndexvalue", func(v *d.DxValue) { v.SetIndexvalue(0, []string{"x"}, v.ValueCache()) })
	add("RemoveKey", func(v *d.DxValue) { v.RemoveKey("a") })
	add("RemoveIndex", func(v *d.DxValue) { v.RemoveIndex(0) })
	add("ExtractValue", func(v *d.DxValue) { touch(v.ExtractValue("a")) })
	for name, src := range map[string]func() *d.DxValue{
		"object": func() *d.DxValue { return build(mObj("a", mInt(1)), false) },
		"array":  func() *d.DxValue { return build(mArr(mInt(1)), false) },
		"string": func() *d.DxValue { return build(mStr("s"), false) },
		"ext":    func() *d.DxValue { return build(mExt(1, []byte{2}), false) },
		"true":   func() *d.DxValue { return d.NewValue(d.VT_True) },
		"null":   func() *d.DxValue { return d.NewValue(d.VT_NULL) },
	} {
		src := src
		_ = name
		add("CopyFrom "+name, func(v *d.DxValue) { v.CopyFrom(src(), nil) })
		add("AddFrom "+name, func(v *d.DxValue) { v.AddFrom(src(), nil) })
		add("MergeWith "+name, func(v *d.DxValue) { v.MergeWith(src(), nil) })
		add("MergeWith replacing "+name, func(v *d.DxValue) {
			v.MergeWith(src(), func(string, *d.DxValue, *d.DxValue) d.MergeOp { return d.MO_Replace })
		})
		add("SetValue "+name, func(v *d.DxValue) { v.SetValue(src()) })
	}
	// deterministic order
	for i := range ops {
		for j := i + 1; j < len(ops); j++ {
			if i >= len(ops)-30 && ops[j].name < ops[i].name {
				ops[i], ops[j] = ops[j], ops[i]
			}
		}
	}
	add("SetValue map", func(v *d.DxValue) { v.SetValue(map[string]interface{}{"a": 1}) })
	add("SetValue slice", func(v *d.DxValue) { v.SetValue([]string{"a"}) })
	add("SetValue struct", func(v *d.DxValue) { v.SetValue(struct{ A int }{3}) })
	add("LoadFromJson", func(v *d.DxValue) { v.LoadFromJson([]byte(`{"a":1}`), false) })
	add("LoadFromJson scalar", func(v *d.DxValue) { v.LoadFromJson([]byte(`12`), false) })
	add("LoadFromJson bad", func(v *d.DxValue) { v.LoadFromJson([]byte(`{"a":`), false) })
	add("LoadFromJson empty", func(v *d.DxValue) { v.LoadFromJson(nil, false) })
	add("LoadFromMsgPack", func(v *d.DxValue) { v.LoadFromMsgPack([]byte{0x81, 0xa1, 'a', 1}, true) })
	add("LoadFromMsgPack scalar", func(v *d.DxValue) { v.LoadFromMsgPack([]byte{0xc2}, false) })
	add("LoadFromBson", func(v *d.DxValue) { v.LoadFromBson(encodeFor("bson", mObj("a", mInt(1))), false) })
	add("LoadFromYaml", func(v *d.DxValue) { v.LoadFromYaml([]byte("a: 1\n")) })
	add("SetBinaryFromFile", func(v *d.DxValue) { v.SetBinaryFromFile("/proc/self/cmdline") })
	add("Clear", func(v *d.DxValue) { v.Clear() })
	add("FreeValue", func(v *d.DxValue) { d.FreeValue(v) })
	add("FreeValue twice", func(v *d.DxValue) { d.FreeValue(v); d.FreeValue(v); reuse() })
	add("SetDelphiTime", func(v *d.DxValue) { v.SetDelphiTime(DxCommonLib.TDateTime(5)) })
	add("clone changed", func(v *d.DxValue) { c := v.Clone(false); c.SetInt(8); c.Reset(d.VT_Array); c.SetIndexInt(0, 1) })
	add("stored then changed", func(v *d.DxValue) {
		o := d.NewObject(true)
		o.SetKeyValue("k", v)
		o.SetKeyInt("k", 5)
		o.SetKeyValue("j", v)
		touch(o.SetKey("j", d.VT_Object))
		a := o.SetKey("l", d.VT_Array)
		a.SetIndexValue(0, v)
		a.SetIndexString(0, "x")
		a.SetIndexValue(1, v)
		touch(a.SetIndex(1, d.VT_Array))
		o.SetKeyValue("m", v)
		touch(o.ForcePath(d.VT_Int, "m", "n"))
		o.SetKeyValue("p", v)
		o.SetKeyvalue("p", 12, nil)
		a.SetIndexValue(2, v)
		a.SetIndexvalue(2, "y", nil)
		a.RemoveIndex(0)
		o.RemoveKey("p")
		o.Clear()
		d.FreeValue(o)
	})
	add("merged into", func(v *d.DxValue) {
		o, p := d.NewObject(false), d.NewObject(false)
		o.SetKeyValue("k", v)
		o.SetKeyInt("l", 5)
		p.SetKeyInt("k", 5)
		p.SetKeyValue("l", v)
		o.MergeWith(p, nil)
		touch(o.ValueByPath("k", "1"))
		touch(o.ValueByPath("l", "0"))
		o.ForcePath(d.VT_String, "k", "0").SetString("z")
		if n := o.ValueByPath("k", "0"); n != nil {
			n.SetInt(5)
		}
	})
	return ops
}

func runC21(c *Ctx) {
	ways, ops := constWays(), constOps()
	depth := 2
	if !c.quick {
		depth = 3
	}
	c.Bound("constants", fmt.Sprintf("%d ways to obtain", len(ways)))
	c.Bound("mutators", fmt.Sprintf("%d, depth %d on the constants from constructors, 2 on the others", len(ops), depth))
	base := constReport()
	live := liveConstTree()
	liveBase := constTreeReport(live)
	wantFresh := observe(liveConstTree()).String()
	verify := func(t *T, where func() string) {
		if s := constReport(); s != base {
			t.Failf("%s: the constants now read\n%s\nbefore\n%s", where(), s, base)
		}
		if s := constTreeReport(live); s != liveBase {
			t.Failf("%s: a tree holding constants now reads %q, before %q", where(), s, liveBase)
		}
		t.Trace()
	}
	c21written(c, verify)
	for wi := range ways {
		w := ways[wi]
		name := fmt.Sprintf("%s (%s, way %d)", kindName[w.k], w.name, wi)
		c.Case(func() string { return name + " is the constant" }, func(t *T) {
			v := w.mk()
			if v == nil || v.DataType != vtOf[w.k] {
				t.Failf("%s: got %v", name, observe(v))
			}
			if s, x := observe(v).String(), mK(w.k).String(); s != x {
				t.Failf("%s: reads %s", name, s)
			}
			verify(t, func() string { return name })
		})
		for i := range ops {
			i := i
			c.Case(func() string { return fmt.Sprintf("%s: %s, then every mutator", name, ops[i].name) }, func(t *T) {
				seq := func(xs ...int) {
					v := w.mk()
					ro := v.ReadOnly()
					for _, x := range xs {
						ops[x].f(v)
						t.Op()
					}
					where := func() string {
						s := name
						for _, x := range xs {
							s += ", " + ops[x].name
						}
						return s
					}
					if ro {
						if s := observe(v).String(); s != kindName[w.k] {
							t.Failf("%s: now reads %s", where(), s)
						}
					}
					verify(t, where)
				}
				t.State(name + ops[i].name)
				seq(i)
				// mutable stand-ins cannot reach the constants through a second step either
				for j := range ops {
					seq(i, j)
					if depth > 2 && (w.name == "NewValue") {
						for k := range ops {
							seq(i, j, k)
						}
					}
				}
				if s := observe(liveConstTree()).String(); s != wantFresh {
					t.Failf("%s, %s: a freshly decoded tree reads %s", name, ops[i].name, s)
				}
			})
			if c.Stop() {
				return
			}
		}
	}
	// trees that contain constants: every mutation at every node, singly and in pairs
	muts := mutations()
	type tsrc struct {
		name string
		mk   func() *d.DxValue
	}
	m := mObj("t", mK(KTrue), "o", mObj("f", mK(KFalse), "n", mK(KNull)), "l", mArr(mK(KTrue), mK(KNull), mInt(1)))
	srcs := []tsrc{
		{"built", func() *d.DxValue { return build(m, false) }},
		{"built cached", func() *d.DxValue { return build(m, true) }},
		{"clone", func() *d.DxValue { return build(m, false).Clone(true) }},
		{"with nan and inf", liveConstTree},
	}
	for _, f := range []string{"json", "mp", "bson"} {
		f := f
		for _, cached := range []bool{false, true} {
			cached := cached
			srcs = append(srcs, tsrc{f, func() *d.DxValue { v, _ := decodeBy(f, string(encodeFor(f, m)), cached); return v }})
		}
	}
	srcs = append(srcs, tsrc{"yaml", func() *d.DxValue {
		v, _ := decodeBy("yaml", "t: true\no:\n  f: false\nl:\n  - true\n  - false\n", true)
		return v
	}})
	treeOps := append([]constOp{}, ops...)
	for _, s := range srcs {
		s := s
		n := len(nodesOf(s.mk()))
		for a := 0; a < n; a++ {
			for mi := range muts {
				a, mi := a, mi
				c.Case(func() string {
					return fmt.Sprintf("%s tree, node %d: %s, then every mutation of every node", s.name, a, muts[mi].name)
				}, func(t *T) {
					for b := -1; b < n; b++ {
						for mj := range muts {
							if b < 0 && mj > 0 {
								break
							}
							v := s.mk()
							ns := nodesOf(v)
							if a >= len(ns) {
								continue
							}
							muts[mi].f(ns[a].n, ns[a].p, ns[a].i)
							t.Op()
							if b >= 0 {
								ns = nodesOf(v)
								if b < len(ns) {
									muts[mj].f(ns[b].n, ns[b].p, ns[b].i)
									t.Op()
								}
							}
							verify(t, func() string {
								w := fmt.Sprintf("%s tree: %s at node %d", s.name, muts[mi].name, a)
								if b >= 0 {
									w += fmt.Sprintf(", %s at node %d", muts[mj].name, b)
								}
								return w
							})
						}
					}
				})
			}
			for oi := range treeOps {
				a, oi := a, oi
				c.Case(func() string {
					return fmt.Sprintf("%s tree, node %d: %s, then the tree is scrambled and freed", s.name, a, treeOps[oi].name)
				}, func(t *T) {
					where := func() string { return fmt.Sprintf("%s tree, node %d: %s", s.name, a, treeOps[oi].name) }
					v := s.mk()
					treeOps[oi].f(nodesOf(v)[a].n)
					verify(t, where)
					scramble(v)
					verify(t, func() string { return where() + ", scrambled" })
					v = s.mk()
					treeOps[oi].f(nodesOf(v)[a].n)
					free(v)
					reuse()
					verify(t, func() string { return where() + ", freed" })
					if x := observe(liveConstTree()).String(); x != wantFresh {
						t.Failf("%s: a freshly decoded tree reads %s", where(), x)
					}
				})
			}
			if c.Stop() {
				return
			}
		}
	}
	// replacing a constant entry through its container
	for k, kk := range []Kind{KTrue, KFalse, KNull, KNan, KInf} {
		k, kk := k, kk
		c.Case(func() string { return "replacing a " + kindName[kk] + " entry" }, func(t *T) {
			for i, x := range []*M{mInt(5), mStr("x"), mDbl(0.5), mFlt(0.5), mK(KTrue), mK(KFalse), mK(KNull), mObj("a", mInt(1)), mArr(mInt(1)), mBin([]byte{1}), mTime(time.Date(2021, 5, 6, 0, 0, 0, 0, time.UTC))} {
				for _, cached := range []bool{false, true} {
					o := build(mObj("k", mK(kk), "l", mK(kk)), cached)
					setKey(o, "k", x)
					want := mObj("k", x, "l", mK(kk))
					if s := full(o, want, eqOpt{tol: time.Millisecond}); s != "" {
						t.Failf("object entry %d/%d: %s", k, i, s)
					}
					a := build(mArr(mK(kk), mK(kk)), cached)
					setIdx(a, 0, x)
					if s := full(a, mArr(x, mK(kk)), eqOpt{tol: time.Millisecond}); s != "" {
						t.Failf("array entry %d/%d: %s", k, i, s)
					}
					t.Op()
				}
			}
			verify(t, func() string { return "replacing entries" })
		})
	}
}

// c21written: an entry that held a constant is given a kind (also the one it has) and then written through the node.
func c21written(c *Ctx, verify func(t *T, where func() string)) {
	gets := []struct {
		name string
		arr  bool
		f    func(o *d.DxValue, tp d.ValueType) *d.DxValue
	}{
		{"SetKey", false, func(o *d.DxValue, tp d.ValueType) *d.DxValue { return o.SetKey("k", tp) }},
		{"SetKeyCached", false, func(o *d.DxValue, tp d.ValueType) *d.DxValue { return o.SetKeyCached("k", tp, o.ValueCache()) }},
		{"ForcePath", false, func(o *d.DxValue, tp d.ValueType) *d.DxValue { return o.ForcePath(tp, "k") }},
		{"SetIndex", true, func(o *d.DxValue, tp d.ValueType) *d.DxValue { return o.SetIndex(1, tp) }},
		{"SetIndexCached", true, func(o *d.DxValue, tp d.ValueType) *d.DxValue { return o.SetIndexCached(1, tp, o.ValueCache()) }},
		{"SetKey of an array", true, func(o *d.DxValue, tp d.ValueType) *d.DxValue { return o.SetKey("1", tp) }},
		{"ForcePath of an array", true, func(o *d.DxValue, tp d.ValueType) *d.DxValue { return o.ForcePath(tp, "1") }},
		{"InsertValue", true, func(o *d.DxValue, tp d.ValueType) *d.DxValue { o.RemoveIndex(1); return o.InsertValue(1, tp) }},
	}
	writes := []struct {
		name string
		f    func(v *d.DxValue)
		m    *M
	}{
		{"SetInt", func(v *d.DxValue) { v.SetInt(5) }, mInt(5)},
		{"SetString", func(v *d.DxValue) { v.SetString("x\n") }, mStr("x\n")},
		{"SetDouble", func(v *d.DxValue) { v.SetDouble(0.5) }, mDbl(0.5)},
		{"Reset, SetKeyInt", func(v *d.DxValue) { v.Reset(d.VT_Object); v.SetKeyInt("in", 1) }, mObj("in", mInt(1))},
		{"SetIndexBool", func(v *d.DxValue) { v.Reset(d.VT_Array); v.SetIndexBool(0, true) }, mArr(mK(KTrue))},
	}
	for _, kk := range constKinds {
		for _, g := range gets {
			kk, g := kk, g
			c.Case(func() string { return "a " + kindName[kk] + " entry, " + g.name + ", then written" }, func(t *T) {
				for _, tp := range []Kind{KTrue, KFalse, KNull, KNan, KInf, KInt, KStr, KObj, KArr} {
					if g.name == "InsertValue" && constKind(tp) {
						continue // inserts the constant itself, which is not a replacement
					}
					for _, w := range writes {
						for src := 0; src < 3; src++ {
							m, want := mObj("j", mK(kk), "k", mK(kk), "l", mK(kk)), mObj("j", mK(kk), "k", w.m, "l", mK(kk))
							if g.arr {
								m, want = mArr(m.Vals...), mArr(mK(kk), w.m, mK(kk))
							}
							o := build(m, src == 1)
							if src == 2 {
								if kk == KNan || kk == KInf {
									continue
								}
								o, _ = decodeBy("mp", string(encodeFor("mp", m)), true)
							}
							n := g.f(o, vtOf[tp])
							if n == nil || n.DataType != vtOf[tp] {
								t.Failf("%s as %s gives %v", g.name, kindName[tp], observe(n))
							}
							w.f(n)
							t.Op()
							if s := full(o, want, eqOpt{}); s != "" {
								t.Failf("%s as %s, %s: %s", g.name, kindName[tp], w.name, s)
							}
						}
					}
				}
				verify(t, func() string { return g.name })
			})
		}
	}
}
