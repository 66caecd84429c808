package main

import (
	"fmt"
	"sort"
	"strings"

	d "github.com/suiyunonghen/dxsvalue"
)

// C16: merging is a deep union and touches nothing else.

func init() {
	register("C16", runC16,
		"every ordered pair of object trees (and of array trees) up to a node bound, in several production combinations, merged without a callback and with every decision function over the conflicting paths; result, callback invocations, the merged-in value and independence of both sides compared with a reference merge")
}

// eqM is the reference equality: structural, ordered, numbers by value.
func eqM(a, b *M) bool { return diff(a, b, eqOpt{numeric: true}) == "" }

type conflict struct {
	path, old, new string
}

// customSet, if not nil, gives the text that callbacks answering MO_Custom have written into the receiver's entry.
var customSet func(path string) string

func constKind(k Kind) bool {
	return k == KNull || k == KTrue || k == KFalse || k == KNan || k == KInf
}

// mergeM merges in into v (whose entries' paths start with prefix); dec decides conflicting entries (nil: no callback).
func mergeM(v, in *M, prefix string, ic bool, dec func(string) d.MergeOp, log *[]conflict) {
	if v.K != in.K || v.K > KArr {
		return
	}
	if v.K == KArr {
		n := len(v.Vals)
		for _, x := range in.Vals {
			have := false
			for _, y := range v.Vals[:n] {
				have = have || eqM(x, y)
			}
			if !have {
				v.Vals = append(v.Vals, x.clone())
			}
		}
		return
	}
	for i, k := range in.Keys {
		x := in.Vals[i]
		j := v.find(k, ic)
		if j < 0 {
			v.Keys = append(v.Keys, k)
			v.Vals = append(v.Vals, x.clone())
			continue
		}
		p := prefix + k
		op := d.MO_Normal
		if dec != nil {
			*log = append(*log, conflict{p, v.Vals[j].String(), x.String()})
			op = dec(p)
		}
		switch {
		case op == d.MO_Replace:
			v.Vals[j] = x.clone()
		case op == d.MO_Custom:
			if customSet != nil && !constKind(v.Vals[j].K) {
				v.Vals[j] = mStr(customSet(p))
			}
		case v.Vals[j].K <= KArr:
			if v.Vals[j].K == KObj {
				mergeM(v.Vals[j], x, p+"/", ic, dec, log)
			} else {
				mergeM(v.Vals[j], x, p+"/", ic, nil, log)
			}
		default:
			v.Vals[j] = mArr(v.Vals[j], x.clone())
		}
	}
}

func logText(l []conflict) string {
	var s []string
	for _, c := range l {
		s = append(s, fmt.Sprintf("%q %s <- %s", c.path, c.old, c.new))
	}
	sort.Strings(s)
	return strings.Join(s, "; ")
}

// scramble changes every changeable node, deepest first.
func scramble(v *d.DxValue) {
	ns := nodesOf(v)
	for i := len(ns) - 1; i >= 0; i-- {
		if !ns[i].n.ReadOnly() {
			b := ns[i].n.Binary()
			for k := range b {
				b[k] ^= 0xff
			}
			if isCont(ns[i].n) {
				ns[i].n.SetKeyString("scrambled", "s")
			} else {
				ns[i].n.SetString("scrambled")
			}
		}
	}
	v.Clear()
}

// shifted gives variants of a tree that share part of its content: every number changed, entries reversed, every
// third entry missing and others added.
func shifted(m *M) []*M {
	a := m.clone()
	eachNode(a, func(x *M) {
		if x.K == KInt && x.I%2 == 0 {
			x.I++
		}
	})
	b := m.clone()
	eachNode(b, func(x *M) {
		for i, j := 0, len(x.Vals)-1; i < j; i, j = i+1, j-1 {
			x.Vals[i], x.Vals[j] = x.Vals[j], x.Vals[i]
			if x.K == KObj {
				x.Keys[i], x.Keys[j] = x.Keys[j], x.Keys[i]
			}
		}
	})
	e := m.clone()
	eachNode(e, func(x *M) {
		for i := len(x.Vals) - 1; i >= 0; i -= 3 {
			x.removeAt(i)
		}
		switch {
		case x.K == KObj:
			x.Keys = append(x.Keys, "added\n")
			x.Vals = append(x.Vals, mK(KTrue))
		case x.K == KArr:
			x.Vals = append(x.Vals, mStr("added"))
		}
	})
	return []*M{a, b, e}
}

func runC16(c *Ctx) {
	c16rearr(c)
	c16alike(c)
	c16wide(c)
	prods := producers()
	combos := [][2]int{{0, 0}, {2, 2}, {1, 2}, {3, 5}}
	var objs, arrs []*M
	n := 4
	shapes(n, []*M{mInt(1), mStr("x")}, []string{"a", "b"}, "obj", c.Stop, func(m *M) { objs = append(objs, m) })
	narr := 4
	shapes(narr, []*M{mInt(1), mStr("x\n")}, []string{"a"}, "cont", c.Stop, func(m *M) {
		if m.K == KArr {
			arrs = append(arrs, m)
		}
	})
	arrs = append(arrs, mArr(mDbl(1)), mArr(mDbl(1), mInt(1)), mArr(mK(KNull), mK(KTrue)), mArr(mK(KTrue), mK(KNan), mK(KNull)), mArr(mStr("1"), mInt(1)), mArr(mBin([]byte{1})), mArr(mBin([]byte{1}), mBin([]byte{2}), mExt(1, []byte{2})), arrOfLen(12), arrOfLen(20))
	extra := []*M{
		mObj("a", mK(KNull), "b", mK(KTrue)), mObj("b", mK(KFalse), "a", mK(KNull)), mObj("a", mBin([]byte{1, 2}), "b", mExt(3, []byte{4})), mObj("a", mExt(3, []byte{5}), "c", mBin(nil)),
		mObj("a", mObj("b", mObj("a", mInt(1), "c", mArr(mInt(1), mInt(2)))), "k/ey", mObj("x\n", mInt(2), "y", mInt(3)), "z", mInt(1)),
		mObj("z", mInt(2), "k/ey", mObj("y", mStr("q"), "x\n", mStr("p")), "a", mObj("b", mObj("c", mArr(mInt(2), mInt(3)), "a", mInt(7), "d", mObj()))),
		mObj("a", mObj("a", mObj("a", mObj("a", mInt(1)), "b", mInt(1)), "b", mInt(1)), "b", mInt(1)),
		mObj("b", mInt(2), "a", mObj("b", mInt(2), "a", mObj("b", mInt(2), "a", mObj("a", mInt(2), "b", mInt(2))))),
		mObj("\u00e9\"", mObj("\\", mInt(1)), "", mInt(3)), mObj("", mObj("", mInt(1))), mObj("", mObj("", mStr("e")), "\u00e9\"", mObj("\\", mArr(mInt(2)))),
		objOfLen(10), objOfLen(20),
	}
	// neighbouring entries that hold the same scalar (in memory too, for the constants), against others and against one another
	for _, x := range []*M{mK(KTrue), mK(KNull), mK(KInf), mStr("same"), mInt(1), mBin([]byte{1})} {
		rep := func(k ...string) *M {
			m := mObj()
			for _, k := range k {
				m.Keys, m.Vals = append(m.Keys, k), append(m.Vals, x.clone())
			}
			return m
		}
		extra = append(extra, rep("a", "b"), rep("a", "b", "c"), rep("b", "a", "d", "c"), mObj("a", rep("a", "b"), "b", rep("a", "b")))
	}
	extra = append(extra, mObj("a", mInt(2), "b", mInt(3), "c", mArr(mInt(4)), "d", mStr("q")))
	full3 := objs
	if c.quick {
		full3 = nil
		for _, m := range objs {
			k := 0
			eachNode(m, func(*M) { k++ })
			if k <= 3 {
				full3 = append(full3, m)
			}
		}
	}
	c.Bound("object_trees", fmt.Sprintf("%d (<= %d nodes)", len(objs), n))
	c.Bound("array_trees", fmt.Sprint(len(arrs)))
	c.Bound("decision_functions", "all over the conflicting paths, 3 decisions each, up to 4 paths; 3 constant functions beyond")

	check := func(t *T, m1, m2 *M, cb [2]int, ic bool, dec func(string) d.MergeOp, what string) []conflict {
		p1, p2 := prods[cb[0]], prods[cb[1]]
		if !p1.ok(m1) || !p2.ok(m2) {
			p1, p2 = prods[0], prods[1]
		}
		want := m1.clone()
		var wlog, glog []conflict
		mergeM(want, m2, "", ic, dec, &wlog)
		a, b := p1.f(m1), p2.f(m2)
		var cbf d.MergeFunc
		if dec != nil {
			cbf = func(path string, o, n *d.DxValue) d.MergeOp {
				path = cp(path)
				om := observe(o)
				glog = append(glog, conflict{path, om.String(), observe(n).String()})
				op := dec(path)
				if op == d.MO_Custom && customSet != nil && !constKind(om.K) {
					o.SetString(customSet(path))
				}
				return op
			}
		}
		a.MergeWith(b, cbf)
		t.Op()
		pre := func() string {
			return fmt.Sprintf("merging %v (%s) into %v (%s), %s, ignore case %v", m2, p2.name, m1, p1.name, what, ic)
		}
		opt := eqOpt{tol: p1.opt.tol + p2.opt.tol}
		got := observe(a)
		if s := diff(want, got, opt); s != "" {
			t.Failf("%s: %s", pre(), s)
		}
		if !ic {
			if s := consistent(a, got); s != "" {
				t.Failf("%s: %s", pre(), s)
			}
		}
		if x, y := logText(wlog), logText(glog); x != y {
			t.Failf("%s: callback saw %s, want %s", pre(), y, x)
		}
		if s := diff(m2, observe(b), opt); s != "" {
			t.Failf("%s changes the merged-in value: %s", pre(), s)
		}
		scramble(b)
		if s := diff(got, observe(a), eqOpt{}); s != "" {
			t.Failf("%s: later changes of the merged-in value show: %s", pre(), s)
		}
		b = p2.f(m2)
		a = p1.f(m1)
		a.MergeWith(b, cbf)
		scramble(a)
		if s := diff(m2, observe(b), opt); s != "" {
			t.Failf("%s: later changes of the result show in the merged-in value: %s", pre(), s)
		}
		t.State(want.String())
		return wlog
	}
	pair := func(m1, m2 *M, cbs [][2]int, ic bool) {
		c.Case(func() string { return fmt.Sprintf("merge %v <- %v (ignore case %v)", m1, m2, ic) }, func(t *T) {
			d.IgnoreCase = ic
			defer func() { customSet = nil }()
			for ci, cb := range cbs {
				customSet = nil
				if ci%2 == 1 {
					customSet = func(p string) string { return "set for " + p }
				}
				check(t, m1, m2, cb, ic, nil, "no callback")
				var all []conflict
				all = check(t, m1, m2, cb, ic, func(string) d.MergeOp { return d.MO_Normal }, "always normal")
				var paths []string
				for _, x := range all {
					paths = append(paths, x.path)
				}
				if len(paths) > 4 {
					for _, op := range []d.MergeOp{d.MO_Replace, d.MO_Custom} {
						check(t, m1, m2, cb, ic, func(string) d.MergeOp { return op }, fmt.Sprint("always ", op))
					}
					// one deviation from normal
					for _, dp := range paths {
						for _, op := range []d.MergeOp{d.MO_Replace, d.MO_Custom} {
							check(t, m1, m2, cb, ic, func(p string) d.MergeOp {
								if p == dp {
									return op
								}
								return d.MO_Normal
							}, fmt.Sprintf("normal except %q: %d", dp, op))
						}
					}
					continue
				}
				total := 1
				for range paths {
					total *= 3
				}
				for code := 0; code < total; code++ {
					f := map[string]d.MergeOp{}
					x := code
					for _, p := range paths {
						f[p] = d.MergeOp(x % 3)
						x /= 3
					}
					check(t, m1, m2, cb, ic, func(p string) d.MergeOp { return f[p] }, fmt.Sprint("decisions ", f))
				}
			}
			t.Trace()
		})
	}
	for _, m1 := range full3 {
		for _, m2 := range full3 {
			if c.Stop() {
				return
			}
			pair(m1, m2, combos, false)
		}
	}
	if c.quick {
		for _, m1 := range objs {
			for _, m2 := range objs {
				if c.Stop() {
					return
				}
				pair(m1, m2, combos[1:2], false)
			}
		}
	}
	for _, m1 := range append(append([]*M{}, extra...), full3...) {
		for _, m2 := range extra {
			pair(m1, m2, combos, false)
			pair(m2, m1, combos, false)
		}
	}
	for _, m1 := range arrs {
		for _, m2 := range arrs {
			pair(m1, m2, combos, false)
		}
	}
	// wide, deep and long-named trees with a shifted copy of themselves
	for _, m := range bigTrees() {
		vs := shifted(m)
		for i, v := range vs {
			cb := combos[:1]
			if i == 0 {
				cb = combos[1:]
			}
			pair(m, v, cb, false)
			pair(v, m, combos[:1], false)
		}
	}
	for _, m := range sizedTrees() {
		for _, v := range shifted(m)[:2] {
			pair(m, v, combos[:1], false)
		}
	}
	c.Bound("large_pairs", fmt.Sprintf("%d large trees with three variants each, both directions", len(bigTrees())))
	for _, m1 := range []*M{mObj("a", mInt(1)), mArr(mInt(1)), mStr("x"), mInt(5)} {
		for _, m2 := range []*M{mObj("a", mInt(2), "b", mInt(1)), mArr(mInt(2)), mStr("y"), mInt(6), mK(KNull)} {
			pair(m1, m2, combos, false)
		}
		m1 := m1
		c.Case(func() string { return fmt.Sprintf("merge nil into %v", m1) }, func(t *T) {
			v := build(m1, false)
			v.MergeWith(nil, nil)
			if s := full(v, m1, eqOpt{}); s != "" {
				t.Failf("%s", s)
			}
		})
	}
	ci := []*M{mObj("a", mInt(1), "B", mObj("x", mInt(2))), mObj("A", mStr("q"), "b", mObj("X", mInt(3), "y", mInt(4))), mObj("\u00c9", mInt(1)), mObj("\u00e9", mInt(2), "C\n", mInt(3)), mObj("c\n", mArr(mInt(3)))}
	for _, m1 := range ci {
		for _, m2 := range ci {
			pair(m1, m2, combos, true)
			pair(m1, m2, combos, false)
		}
	}
	// three-way histories: (x <- y) <- z
	small := full3
	if len(small) > 40 {
		small = small[:40]
	}
	for _, x := range small {
		for _, y := range small {
			x, y := x, y
			if c.Stop() {
				return
			}
			c.Case(func() string { return fmt.Sprintf("merge chains %v <- %v <- *", x, y) }, func(t *T) {
				for _, z := range small {
					want := x.clone()
					mergeM(want, y, "", false, nil, nil)
					mergeM(want, z, "", false, nil, nil)
					v := prods[2].f(x)
					v.MergeWith(prods[0].f(y), nil)
					v.MergeWith(prods[2].f(z), nil)
					t.Op()
					if s := full(v, want, eqOpt{}); s != "" {
						t.Failf("merging %v then %v into %v: %s", y, z, x, s)
					}
				}
				t.Trace()
			})
		}
	}
}
