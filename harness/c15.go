package main

import (
	"fmt"
	"sort"
	"strconv"
	"time"

	"github.com/suiyunonghen/DxCommonLib"
	d "github.com/suiyunonghen/dxsvalue"
)

// C15: path access reaches exactly the addressed node.

func init() {
	register("C15", runC15,
		"every tree up to a node bound (built, decoded, cached), every path up to the length bound over present and absent names and positions: look-up and every typed variant against a reference path model; forcing every such path with every kind, once and twice in sequence, compared with the model everywhere",
		"names applied to arrays and positions beyond the next free one are outside for forcing")
}

// pathOf follows names through the model.
func (m *M) pathOf(p []string, ic bool) *M {
	for _, k := range p {
		m = m.named(k, ic)
		if m == nil {
			return nil
		}
	}
	return m
}

// force applies the reference semantics of forcing a path; nil: outside the property.
func (m *M) force(k Kind, p []string, ic bool) *M {
	cur := m
	for i, n := range p {
		if cur.K == KArr {
			j, err := strconv.Atoi(n)
			switch {
			case err != nil || j == -1 || j < 0 && i < len(p)-1:
				// not a position: the array gives way to an object
				cur.setTo(mObj())
			case j < 0 || j > len(cur.Vals):
				return nil // appends: found under another name
			}
		}
		nx := cur.named(n, ic)
		if i == len(p)-1 {
			if nx != nil && nx.K == k {
				return nx
			}
			z := zeroM(k)
			cur.setName(n, z, ic)
			return z
		}
		if nx == nil || nx.K > KArr {
			nx = mObj()
			cur.setName(n, nx, ic)
		}
		cur = nx
	}
	return cur
}

func (m *M) setTo(n *M) { *m = *n }

func pathsOver(names []string, max int) [][]string {
	var out [][]string
	last := [][]string{nil}
	for i := 0; i < max; i++ {
		var nx [][]string
		for _, p := range last {
			for _, n := range names {
				nx = append(nx, append(append([]string{}, p...), n))
			}
		}
		out = append(out, nx...)
		last = nx
	}
	return out
}

// typedReads compares every typed accessor of a path with the reads of the addressed node.
func typedReads(t *T, v, node *d.DxValue, p []string) {
	bad := func(what string, got, want interface{}) {
		if got != want {
			t.Failf("%s of path %q gives %v, want %v", what, p, got, want)
		}
	}
	dur := 77 * time.Minute
	tm := time.Date(1999, 1, 2, 3, 4, 5, 0, time.UTC)
	type reads struct {
		s   string
		i   int64
		b   bool
		f   float32
		g   float64
		du  time.Duration
		dt  float64
		tm  time.Time
		bad bool
	}
	w := reads{"DEF", 12345, true, 1.25, -2.5, dur, 99.5, tm, true}
	w2 := reads{"OTHER", -6, false, 3.5, 7.75, time.Second, 11, tm.Add(time.Hour), true}
	if node != nil {
		w = reads{node.String(), node.Int(), node.Bool(), node.Float(), node.Double(), node.Duration(dur), float64(node.DateTime()), node.GoTime(), false}
		w2 = w
		w2.du = node.Duration(time.Second)
	}
	one := func(w reads, ds string, di int64, db bool, df float32, dg float64, dd time.Duration, ddt float64, dtm time.Time) {
		bad("StringByPath", v.StringByPath(ds, p...), w.s)
		bad("IntByPath", v.IntByPath(di, p...), w.i)
		bad("BoolByPath", v.BoolByPath(db, p...), w.b)
		bad("FloatByPath", v.FloatByPath(df, p...), w.f)
		bad("DoubleByPath", v.DoubleByPath(dg, p...), w.g)
		bad("DurationByPath", v.DurationByPath(dd, p...), w.du)
		bad("DateTimeByPath", float64(v.DateTimeByPath(delphi(ddt), p...)), w.dt)
		if g := v.GoTimeByPath(dtm, p...); !g.Equal(w.tm) {
			bad("GoTimeByPath", g, w.tm)
		}
		if len(p) != 1 {
			return
		}
		n := p[0]
		bad("AsString", v.AsString(n, ds), w.s)
		bad("AsInt", int64(v.AsInt(n, int(di))), w.i)
		bad("AsInt64", v.AsInt64(n, di), w.i)
		bad("AsBool", v.AsBool(n, db), w.b)
		bad("AsFloat", v.AsFloat(n, df), w.f)
		bad("AsDouble", v.AsDouble(n, dg), w.g)
		bad("AsDuration", v.AsDuration(dd, n), w.du)
		bad("AsDateTime", float64(v.AsDateTime(n, delphi(ddt))), w.dt)
		bad("StringByName", v.StringByName(n, ds), w.s)
		bad("IntByName", int64(v.IntByName(n, int(di))), w.i)
		bad("BoolByName", v.BoolByName(n, db), w.b)
		bad("FloatByName", v.FloatByName(n, df), w.f)
		bad("DoubleByName", v.DoubleByName(n, dg), w.g)
		bad("DurationByName", v.DurationByName(dd, n), w.du)
		if g := v.TimeByName(n, dtm); !g.Equal(w.tm) {
			bad("TimeByName", g, w.tm)
		}
		bad("Find", v.Find(n), node)
	}
	one(w, "DEF", 12345, true, 1.25, -2.5, dur, 99.5, tm)
	one(w2, "OTHER", -6, false, 3.5, 7.75, time.Second, 11, tm.Add(time.Hour))
}

func indexReads(t *T, v *d.DxValue, m *M) {
	for i := -2; i <= len(m.Vals)+1; i++ {
		node := v.ValueByIndex(i)
		if (node != nil) != (m.at(i) != nil) {
			t.Failf("ValueByIndex(%d) of %v: %v", i, m, node != nil)
		}
		if node != nil {
			if s := diff(m.at(i), observe(node), eqOpt{tol: time.Millisecond}); s != "" {
				t.Failf("ValueByIndex(%d): %s", i, s)
			}
		}
		for k := 0; k < 2; k++ {
			ws, wi, wb, wf, wg := []string{"DEF", "x"}[k], []int{4, -7}[k], k == 0, float32(k)+0.5, float64(k)-0.25
			gs, gi, gb, gf, gg := v.StringByIndex(i, ws), v.IntByIndex(i, wi), v.BoolByIndex(i, wb), v.FloatByIndex(i, wf), v.DoubleByIndex(i, wg)
			if node != nil {
				ws, wi, wb, wf, wg = node.String(), int(node.Int()), node.Bool(), node.Float(), node.Double()
			}
			if gs != ws || gi != wi || gb != wb || gf != wf || gg != wg {
				t.Failf("typed reads of position %d: %q %d %v %v %v, want %q %d %v %v %v", i, gs, gi, gb, gf, gg, ws, wi, wb, wf, wg)
			}
		}
	}
}

func runC15(c *Ctx) {
	c15alike(c)
	c15names(c)
	c15wide(c)
	tm := time.Date(2021, 5, 6, 7, 8, 9, 0, time.UTC)
	leaves := []*M{mInt(7), mStr("12"), mK(KNull), mK(KTrue)}
	names := []string{"a", "b\n", "0", "1", "-3", ""}
	n := 3
	if !c.quick {
		n = 4
	}
	var trees []*M
	shapes(n, leaves, []string{"a", "b\n"}, "", c.Stop, func(m *M) { trees = append(trees, m) })
	if c.quick {
		shapes(4, []*M{mInt(7), mK(KNull)}, []string{"a", "b\n"}, "", c.Stop, func(m *M) { trees = append(trees, m) })
	} else {
		shapes(5, []*M{mInt(7)}, []string{"a", "b\n"}, "", c.Stop, func(m *M) { trees = append(trees, m) })
	}
	trees = append(trees,
		mObj("a", mArr(mObj("a", mInt(1), "b\n", mStr("1h")), mArr(mStr("2021-05-06 07:08:09"), mTime(tm)), mK(KTrue)), "b\n", mObj("0", mObj("1", mStr("deep")), "x", mDbl(2.5), "a", mBin([]byte{1}))),
		mArr(mObj("a", mArr(mInt(3), mObj("x", mStr("y")))), mObj("b\n", mK(KFalse)), mFlt(1.5)),
		mObj("", mObj("", mInt(5), "a", mInt(6)), "0", mArr(mInt(8), mArr(mInt(9)))),
		mObj("a", mObj("a", mObj("a", mObj("a", mInt(1)))), "x", mStr("true")),
		// leaves whose reading is a zero, or looks like a failed one
		mObj("a", mArr(mInt(0), mStr("0s"), mStr(""), mStr("0"), mDbl(0), mFlt(0), mK(KFalse), mInt(-1), mDbl(-1), mStr("-1"), mStr("no")),
			"b\n", mObj("a", mStr("0s"), "0", mInt(-1), "x", mTime(time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC)), "", mDbl(-3.5)), "0", mInt(0), "x", mStr(""), "", mDbl(-1)),
		mTime(tm), mDbl(1.5), mBin([]byte{1, 2}), mExt(3, []byte{4}), mStr(""), objOfLen(20), arrOfLen(20))
	lookN, forceN := 3, 3
	if !c.quick {
		lookN = 4
	}
	look, forced := pathsOver(names, lookN), pathsOver(names, forceN)
	short2 := pathsOver([]string{"a", "0", "x", "-1"}, 2)
	kinds := []Kind{KObj, KArr, KStr, KInt, KDbl, KTime, KBin, KNull}
	prods := producers()
	c.Bound("tree_nodes", fmt.Sprint(n))
	c.Bound("trees", fmt.Sprint(len(trees)))
	c.Bound("paths", fmt.Sprintf("%d look-up paths (length <= %d), %d forced paths (length <= %d) over %q", len(look), lookN, len(forced), forceN, names))
	c.Bound("kinds", fmt.Sprint(len(kinds)))
	for _, m := range trees {
		for pi, p := range prods {
			if !p.ok(m) || (c.quick && pi == 3) {
				continue
			}
			m, p := m, p
			c.Case(func() string { return fmt.Sprintf("look-ups in %v (%s)", m, p.name) }, func(t *T) {
				v := p.f(m)
				for _, path := range append([][]string{nil}, look...) {
					want := m.pathOf(path, false)
					got := v.ValueByPath(path...)
					t.Op()
					if (got != nil) != (want != nil) {
						t.Failf("path %q: found %v, want %v", path, got != nil, want != nil)
					}
					if got != nil {
						if s := diff(want, observe(got), p.opt); s != "" {
							t.Failf("path %q: %s", path, s)
						}
						// following the steps one by one reaches the very same node
						step := v
						for _, n := range path {
							step = step.ValueByName(n)
						}
						if step != got {
							t.Failf("path %q is not the node its steps reach", path)
						}
					}
					typedReads(t, v, got, path)
				}
				indexReads(t, v, m)
				if s := full(v, m, p.opt); s != "" {
					t.Failf("look-ups change the value: %s", s)
				}
				t.State(m.String())
				t.Trace()
			})
			if pi >= 4 {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("forcing paths in %v (%s)", m, p.name) }, func(t *T) {
				if p.f(m).ReadOnly() {
					return
				}
				run := func(steps [][]string, ks []Kind) bool {
					mm := m.clone()
					var want []*M
					for i := range steps {
						o := mm.pathOf(steps[i], false)
						w := mm.force(ks[i], steps[i], false)
						if w == nil || (w == o && w.K == KStr) {
							// text that has not been read is another kind internally and starts empty
							return false
						}
						want = append(want, w)
					}
					v := p.f(m)
					for i := range steps {
						got := v.ForcePath(vtOf[ks[i]], steps[i]...)
						t.Op()
						if got == nil {
							t.Failf("ForcePath %q gives nil", steps[i])
						}
						if got != v.ValueByPath(steps[i]...) {
							t.Failf("ForcePath %q of %s gives another node than the look-up finds (steps %q)", steps[i], kindName[ks[i]], steps)
						}
						if got.DataType != vtOf[ks[i]] && !(ks[i] == KStr && got.DataType == d.VT_RawString) {
							t.Failf("ForcePath %q asked for %s, got kind %d", steps[i], kindName[ks[i]], got.DataType)
						}
						// writing through the result reaches the tree
						if i == len(steps)-1 {
							if s := diff(want[i], observe(got), p.opt); s != "" {
								t.Failf("ForcePath %q %s (steps %q): %s", steps[i], kindName[ks[i]], steps, s)
							}
							if s := full(v, mm, p.opt); s != "" {
								t.Failf("after ForcePath %q %s (steps %q): %s", steps[i], kindName[ks[i]], steps, s)
							}
							if got.ReadOnly() {
								continue
							}
							fill(got, mStr("written"))
							*want[i] = *mStr("written")
							if s := diff(mm, observe(v), p.opt); s != "" {
								t.Failf("writing to the node of %q: %s", steps[i], s)
							}
						}
					}
					t.State(mm.String())
					return true
				}
				for _, path := range forced {
					for _, k := range kinds {
						run([][]string{path}, []Kind{k})
					}
				}
				for _, p1 := range short2 {
					for _, k1 := range kinds[:3] {
						for _, p2 := range short2 {
							for _, k2 := range []Kind{KObj, KArr, KInt} {
								run([][]string{p1, p2}, []Kind{k1, k2})
							}
						}
					}
				}
				t.Trace()
			})
		}
	}
	// wide, deep and long-named trees: the path of every node, and every path that leaves the tree at one step
	big := bigTrees()
	c.Bound("large_trees", fmt.Sprintf("%d trees, up to 80 nodes deep and 70 entries wide; the path to every node, every prefix extended by an absent name, and every path with one step replaced; forcing each of them and new paths of up to 12 steps", len(big)))
	for _, m := range big {
		m := m
		var paths [][]string
		var walk func(x *M, p []string)
		walk = func(x *M, p []string) {
			p = p[:len(p):len(p)]
			paths = append(paths, p)
			for i, y := range x.Vals {
				if x.K == KObj {
					walk(y, append(p, x.Keys[i]))
				} else {
					walk(y, append(p, itoa(i)))
				}
			}
		}
		walk(m, nil)
		var off [][]string
		for _, p := range paths {
			for _, e := range []string{"absent", "0", "x"} {
				off = append(off, append(p[:len(p):len(p)], e))
			}
			for i := range p {
				for _, e := range []string{"absent", "1", p[i] + "0", p[i][:len(p[i])-1]} {
					q := append([]string{}, p...)
					q[i] = e
					off = append(off, q)
				}
			}
		}
		sort.Slice(off, func(i, j int) bool { return len(off[i]) < len(off[j]) })
		if max := 600; c.quick && len(off) > max {
			var keep [][]string
			for i := 0; i < max; i++ {
				keep = append(keep, off[i*len(off)/max])
			}
			off = keep
		}
		for pi, p := range prods[:4] {
			if !p.ok(m) {
				continue
			}
			pi, p := pi, p
			c.Case(func() string { return fmt.Sprintf("look-ups in the large tree %.60v (%s)", m, p.name) }, func(t *T) {
				v := p.f(m)
				for _, path := range append(append([][]string{}, paths...), off...) {
					want, got := m.pathOf(path, false), v.ValueByPath(path...)
					t.Op()
					if (got != nil) != (want != nil) {
						t.Failf("path %q: found %v, want %v", path, got != nil, want != nil)
					}
					if got == nil {
						if v.StringByPath("DEF", path...) != "DEF" || v.IntByPath(12345, path...) != 12345 {
							t.Failf("path %q is absent and its typed reads do not give the default", path)
						}
						continue
					}
					if s := diff(want, observe(got), p.opt); s != "" {
						t.Failf("path %q: %s", path, s)
					}
					if a, b := v.StringByPath("DEF", path...), got.String(); a != b {
						t.Failf("StringByPath %q gives %q, want %q", path, a, b)
					}
				}
				t.State(m.String())
				t.Trace()
			})
			c.Case(func() string { return fmt.Sprintf("forcing paths in the large tree %.60v (%s)", m, p.name) }, func(t *T) {
				targets := append(append([][]string{}, paths...), off...)
				if c.quick && pi > 0 {
					targets = paths
				}
				for _, path := range targets {
					if len(path) == 0 {
						continue
					}
					for _, k := range []Kind{KObj, KInt} {
						mm := m.clone()
						w := mm.force(k, path, false)
						if w == nil {
							continue
						}
						v := p.f(m)
						got := v.ForcePath(vtOf[k], path...)
						t.Op()
						if got == nil || got != v.ValueByPath(path...) {
							t.Failf("ForcePath %q of %s gives another node than the look-up finds", path, kindName[k])
						}
						if s := diff(mm, observe(v), p.opt); s != "" {
							t.Failf("after ForcePath %q %s: %s", path, kindName[k], s)
						}
					}
				}
				t.Trace()
			})
		}
	}
	// forcing one long path, then every path that leaves or extends it
	for _, start := range []*M{mObj(), mArr(), mObj("s0", mInt(1)), mObj("s0", mObj("s1", mArr(mObj("s3", mK(KNull)))))} {
		start := start
		c.Case(func() string { return fmt.Sprintf("long new paths in %v", start) }, func(t *T) {
			for n := 1; n <= 12; n++ {
				p1 := make([]string, n)
				for i := range p1 {
					p1[i] = "s" + itoa(i)
				}
				if start.K == KArr {
					p1[0] = "0"
				}
				if start.K == KObj && len(start.Vals) > 0 && n > 2 {
					p1[2] = "0"
				}
				for cut := 0; cut <= n; cut++ {
					for _, tail := range [][]string{nil, {"t"}, {"t", "u", "v"}, {"0"}, {"0", "t"}} {
						p2 := append(append([]string{}, p1[:cut]...), tail...)
						if len(p2) == 0 {
							continue
						}
						for _, k1 := range []Kind{KObj, KArr, KInt, KStr} {
							for _, k2 := range []Kind{KObj, KArr, KInt} {
								for way := 0; way < 2; way++ {
									mm := start.clone()
									if mm.force(k1, p1, false) == nil || mm.force(k2, p2, false) == nil {
										continue
									}
									v := build(start, way == 1)
									v.ForcePath(vtOf[k1], p1...)
									got := v.ForcePath(vtOf[k2], p2...)
									t.Op()
									if got == nil || got != v.ValueByPath(p2...) {
										t.Failf("ForcePath %q after %q: not the node found", p2, p1)
									}
									if s := full2(v, mm); s != "" {
										t.Failf("ForcePath %q %s then %q %s: %s", p1, kindName[k1], p2, kindName[k2], s)
									}
									t.State(mm.String())
								}
							}
						}
					}
				}
			}
			t.Trace()
		})
	}
	// positions and names in wide containers
	wide := []int{99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 9999, 10001, 32767, 32768, 32769, 65535, 65536, 65537, 100001}
	if !c.quick {
		wide = append(wide, 1000001)
	}
	c.Bound("wide containers", fmt.Sprint(wide))
	for _, n := range wide {
		for kind := 0; kind < 2; kind++ {
			n, kind := n, kind
			c.Case(func() string { return fmt.Sprintf("paths into %d entries (kind %d)", n, kind) }, func(t *T) {
				m := &M{K: KArr}
				if kind == 1 {
					m.K = KObj
				}
				for i := 0; i < n; i++ {
					x := mInt(int64(i))
					if i%1000 == n%1000 || i >= n-2 || i&(i+1) == 0 {
						x = mArr(mInt(int64(i)), mObj("p", mInt(int64(-i))))
					}
					m.Vals = append(m.Vals, x)
					if kind == 1 {
						m.Keys = append(m.Keys, "k"+itoa(i))
					}
				}
				outer := mObj("in", mArr(mInt(1), m))
				v, err := d.NewValueFromJson(refEncode(outer), false, false)
				if err != nil {
					panic(err)
				}
				in := v.ValueByName("in").ValueByIndex(1)
				name := func(i int) string {
					if kind == 1 {
						return "k" + itoa(i)
					}
					return itoa(i)
				}
				idx := map[int]bool{}
				for _, b := range []int{0, 9, 10, 99, 100, 127, 128, 255, 256, 511, 512, 999, 1000, 4095, 4096, 9999, 10000, 16383, 16384, 32767, 32768, 65535, 65536, 99999, 100000, n / 2, n, n + 65536} {
					for o := -1; o <= 1; o++ {
						if b+o >= 0 {
							idx[b+o] = true
						}
					}
				}
				var order []int
				for i := range idx {
					order = append(order, i)
				}
				sort.Ints(order)
				check := func(i int) {
					path := []string{"in", "1", name(i)}
					got := v.ValueByPath(path...)
					t.Op()
					if i >= len(m.Vals) {
						if got != nil {
							t.Failf("path %q of %d entries finds %v", path, n, short(got.String()))
						}
						return
					}
					if got == nil || got != in.ValueByName(name(i)) {
						t.Failf("path %q of %d entries: wrong or no node", path, n)
					}
					if _, x := in.Items(i); x != got {
						t.Failf("path %q of %d entries: not the entry at position %d", path, n, i)
					}
					if s := diff(m.Vals[i], observe(got), jsonEq); s != "" {
						t.Failf("path %q of %d entries: %s", path, n, s)
					}
					if m.Vals[i].K == KArr {
						if x := v.IntByPath(-7, append(path, "1", "p")...); x != int64(-i) {
							t.Failf("path %q of %d entries: below it %d", path, n, x)
						}
					} else if m.Vals[i].K == KInt {
						if x := v.IntByPath(-7, path...); x != m.Vals[i].I {
							t.Failf("path %q of %d entries: IntByPath %d", path, n, x)
						}
					}
				}
				for _, i := range order {
					check(i)
				}
				// forcing existing positions and the next free one
				for _, i := range order {
					if i > len(m.Vals) {
						continue
					}
					path := []string{"in", "1", name(i)}
					if i%2 == 1 {
						path = append(path, "f")
					}
					if w := outer.force(KStr, path, false); w == nil {
						continue
					} else {
						w.S = "forced" + itoa(i)
					}
					f := v.ForcePath(d.VT_String, path...)
					t.Op()
					if f == nil || f != v.ValueByPath(path...) {
						t.Failf("ForcePath %q of %d entries: not the node found", path, n)
					}
					f.SetString("forced" + itoa(i))
				}
				if s := diff(outer, observe(v), jsonEq); s != "" {
					t.Failf("after forcing in %d entries: %s", n, short(s))
				}
				t.State(fmt.Sprint("wide", kind, n))
				t.Trace()
			})
		}
	}
	// case-insensitive names
	for _, m := range []*M{mObj("a", mObj("B", mInt(1)), "c", mArr(mObj("É", mInt(2)))), mObj("A", mInt(1), "b\n", mObj("x", mInt(3)))} {
		m := m
		c.Case(func() string { return fmt.Sprintf("ignoring case in %v", m) }, func(t *T) {
			d.IgnoreCase = true
			ns := []string{"a", "A", "b", "B", "c", "C", "é", "É", "0", "B\n", "X"}
			for _, path := range pathsOver(ns, 3) {
				for _, p := range prods[:4] {
					if !p.ok(m) {
						continue
					}
					v := p.f(m)
					want, got := m.pathOf(path, true), v.ValueByPath(path...)
					t.Op()
					if (want != nil) != (got != nil) {
						t.Failf("path %q: found %v, want %v", path, got != nil, want != nil)
					}
					if got != nil {
						if s := diff(want, observe(got), eqOpt{}); s != "" {
							t.Failf("path %q: %s", path, s)
						}
					}
					for _, k := range []Kind{KObj, KInt} {
						mm := m.clone()
						if w := mm.force(k, path, true); w == nil {
							continue
						}
						v := p.f(m)
						v.ForcePath(vtOf[k], path...)
						if s := full2(v, mm); s != "" {
							t.Failf("ForcePath %q: %s", path, s)
						}
					}
				}
			}
			t.Trace()
		})
	}
}

// full2 compares without the look-ups by name.
func full2(v *d.DxValue, m *M) string { return diff(m, observe(v), eqOpt{}) }

func delphi(f float64) DxCommonLib.TDateTime { return DxCommonLib.TDateTime(f) }
