package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
	"github.com/suiyunonghen/dxsvalue/verifrt"
)

// Sizes. Code may change strategy with a count, a length or a depth; the exhaustive parts of the checks work on small
// values, these grids repeat the properties' elementary steps at every size of a grid, at every kind of position.

// sizeGrid lists 64..max: the powers of two and round numbers, each with its neighbours.
func sizeGrid(max int) []int {
	set := map[int]bool{}
	for p := 64; p <= 1<<20; p *= 2 {
		set[p-1], set[p], set[p+1] = true, true, true
	}
	for p := 100; p <= 1000000; p *= 10 {
		for _, k := range []int{1, 2, 3, 5} {
			set[p*k], set[p*k+1] = true, true
		}
	}
	var out []int
	for n := range set {
		if n <= max {
			out = append(out, n)
		}
	}
	sort.Ints(out)
	return out
}

// picks lists positions of 0..n-1: the ends, the quarters, and around every power of two and of ten.
func picks(n int) []int {
	set := map[int]bool{}
	for _, i := range []int{0, 1, 2, n / 4, n / 2, n - n/4, n - 3, n - 2, n - 1} {
		set[i] = true
	}
	for p := 4; p < n; p *= 4 {
		set[p-1], set[p] = true, true
	}
	for p := 10; p < n; p *= 10 {
		set[p] = true
	}
	var out []int
	for i := range set {
		if i >= 0 && i < n {
			out = append(out, i)
		}
	}
	sort.Ints(out)
	return out
}

// wcase is a case without a step budget: building wide objects takes quadratic work.
func wcase(c *Ctx, desc func() string, f func(t *T)) {
	c.Case(desc, func(t *T) {
		verifrt.Start(1 << 42)
		f(t)
		verifrt.Start(defaultBudget)
	})
}

func wideKey(i int) string {
	if i%7 == 3 {
		return "k\n" + itoa(i)
	}
	return "k" + itoa(i)
}

func wideJSON(kind Kind, n int) []byte {
	var b bytes.Buffer
	if kind == KObj {
		b.WriteByte('{')
	} else {
		b.WriteByte('[')
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		if kind == KObj {
			b.WriteByte('"')
			b.WriteString(strings.Replace(wideKey(i), "\n", `\n`, -1))
			b.WriteString(`":`)
		}
		b.WriteString(itoa(i))
	}
	if kind == KObj {
		b.WriteByte('}')
	} else {
		b.WriteByte(']')
	}
	return b.Bytes()
}

var wideWays = []string{"built", "built cached", "JSON", "JSON shared, cached", "MsgPack", "cloned"}

func wideValue(way string, kind Kind, n int) *d.DxValue {
	must := func(v *d.DxValue, err error) *d.DxValue {
		if err != nil {
			panic(err)
		}
		return v
	}
	switch way {
	case "JSON":
		return must(d.NewValueFromJson(wideJSON(kind, n), false, false))
	case "JSON shared, cached":
		return must(d.NewValueFromJson(wideJSON(kind, n), true, true))
	case "MsgPack":
		var b []byte
		if kind == KObj {
			b = append(b, 0xdf, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
		} else {
			b = append(b, 0xdd, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
		}
		for i := 0; i < n; i++ {
			if kind == KObj {
				k := wideKey(i)
				b = append(append(b, 0xd9, byte(len(k))), k...)
			}
			b = append(b, 0xd2, byte(i>>24), byte(i>>16), byte(i>>8), byte(i))
		}
		return must(d.NewValueFromMsgPack(b, false, false))
	case "cloned":
		return must(d.NewValueFromJson(wideJSON(kind, n), true, false)).Clone(false)
	}
	t := d.VT_Object
	if kind == KArr {
		t = d.VT_Array
	}
	v := newRoot(t, way == "built cached")
	for i := 0; i < n; i++ {
		if kind == KObj {
			v.SetKeyInt(wideKey(i), int64(i))
		} else {
			v.SetIndexInt(-1, int64(i))
		}
	}
	return v
}

type wideModel struct {
	kind Kind
	keys []string
	vals []int64
}

func newWideModel(kind Kind, n int) *wideModel {
	m := &wideModel{kind: kind}
	for i := 0; i < n; i++ {
		m.keys = append(m.keys, wideKey(i))
		m.vals = append(m.vals, int64(i))
	}
	return m
}

func (m *wideModel) remove(i int) {
	m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
	m.vals = append(m.vals[:i:i], m.vals[i+1:]...)
}

func (m *wideModel) insert(i int, x int64) {
	m.keys = append(m.keys[:i:i], append([]string{""}, m.keys[i:]...)...)
	m.vals = append(m.vals[:i:i], append([]int64{x}, m.vals[i:]...)...)
}

func (m *wideModel) check(v *d.DxValue) string {
	if v.Count() != len(m.vals) {
		return fmt.Sprintf("%d entries instead of %d", v.Count(), len(m.vals))
	}
	i, bad := 0, ""
	v.Visit(func(k string, x *d.DxValue) bool {
		if m.kind == KArr {
			k = ""
		} else if k != m.keys[i] {
			bad = fmt.Sprintf("entry %d has key %q instead of %q", i, k, m.keys[i])
			return false
		}
		if x == nil || x.Int() != m.vals[i] || x.DataType != d.VT_Int {
			bad = fmt.Sprintf("entry %d (key %q) is %v instead of %d", i, k, observe(x), m.vals[i])
			return false
		}
		i++
		return true
	})
	if bad == "" && i != len(m.vals) {
		bad = fmt.Sprintf("visiting stops after %d of %d", i, len(m.vals))
	}
	if bad != "" {
		return bad
	}
	for _, i := range picks(len(m.vals)) {
		k, x := v.Items(i)
		if x == nil || x.Int() != m.vals[i] || x != v.ValueByIndex(i) || v.IntByIndex(i, -9) != int(m.vals[i]) || m.kind == KObj && (k != m.keys[i] || v.KeyNameByIndex(i) != k) {
			return fmt.Sprintf("entry %d reads as %q %v instead of %q %d", i, k, observe(x), m.keys[i], m.vals[i])
		}
		n := itoa(i)
		if m.kind == KObj {
			n = m.keys[i]
		}
		if y := v.ValueByName(n); y != x {
			return fmt.Sprintf("look-up of %q gives %v instead of %d", n, observe(y), m.vals[i])
		}
	}
	n := len(m.vals)
	if m.kind == KObj && v.ValueByName("absent") != nil || m.kind == KArr && v.ValueByName(itoa(n)) != nil {
		return "something is found that is not there"
	}
	return ""
}

// c14wide: every elementary change at every picked position of containers of every size, on a fresh container and
// as a sequence.
func c14wide(c *Ctx) {
	maxO, maxA := 2100, 10001
	if !c.quick {
		maxO, maxA = 20001, 70000
	}
	type op struct {
		name string
		kind Kind
		f    func(v *d.DxValue, m *wideModel, i int)
	}
	ops := []op{
		{"RemoveKey", KObj, func(v *d.DxValue, m *wideModel, i int) { v.RemoveKey(m.keys[i]); m.remove(i) }},
		{"ExtractValue", KObj, func(v *d.DxValue, m *wideModel, i int) {
			if x := v.ExtractValue(m.keys[i]); x == nil || x.Int() != m.vals[i] {
				panic(caseFail{fmt.Sprintf("extracting %q gives %v instead of %d", m.keys[i], observe(x), m.vals[i])})
			}
			m.remove(i)
		}},
		{"SetKeyInt present", KObj, func(v *d.DxValue, m *wideModel, i int) { v.SetKeyInt(m.keys[i], 1<<40); m.vals[i] = 1 << 40 }},
		{"SetKeyValue present", KObj, func(v *d.DxValue, m *wideModel, i int) {
			v.SetKeyValue(m.keys[i], build(mInt(77), false))
			m.vals[i] = 77
		}},
		{"SetKeyInt new", KObj, func(v *d.DxValue, m *wideModel, i int) {
			k := "new" + itoa(i)
			v.SetKeyInt(k, int64(i))
			m.keys, m.vals = append(m.keys, k), append(m.vals, int64(i))
		}},
		{"RemoveKey absent", KObj, func(v *d.DxValue, m *wideModel, i int) { v.RemoveKey("absent" + itoa(i)) }},
		{"remove and set again", KObj, func(v *d.DxValue, m *wideModel, i int) {
			k := m.keys[i]
			v.RemoveKey(k)
			v.SetKeyInt(k, 5)
			m.remove(i)
			m.keys, m.vals = append(m.keys, k), append(m.vals, 5)
		}},
		{"ForcePath", KObj, func(v *d.DxValue, m *wideModel, i int) { v.ForcePath(d.VT_Int, m.keys[i]).SetInt(6); m.vals[i] = 6 }},
		{"RemoveIndex", KArr, func(v *d.DxValue, m *wideModel, i int) { v.RemoveIndex(i); m.remove(i) }},
		{"InsertValue", KArr, func(v *d.DxValue, m *wideModel, i int) { v.InsertValue(i, d.VT_Int).SetInt(-5); m.insert(i, -5) }},
		{"SetIndexInt", KArr, func(v *d.DxValue, m *wideModel, i int) { v.SetIndexInt(i, 1<<40); m.vals[i] = 1 << 40 }},
		{"SetIndexValue", KArr, func(v *d.DxValue, m *wideModel, i int) { v.SetIndexValue(i, build(mInt(77), false)); m.vals[i] = 77 }},
		{"SetKeyInt position", KArr, func(v *d.DxValue, m *wideModel, i int) { v.SetKeyInt(itoa(i), 8); m.vals[i] = 8 }},
		{"append", KArr, func(v *d.DxValue, m *wideModel, i int) {
			v.Append(d.VT_Int).SetInt(9)
			v.SetIndexInt(len(m.vals)+1, 10)
			v.SetIndexInt(-1, 11)
			m.keys, m.vals = append(m.keys, "", "", ""), append(m.vals, 9, 10, 11)
		}},
		{"remove and insert", KArr, func(v *d.DxValue, m *wideModel, i int) {
			v.RemoveIndex(i)
			v.InsertValue(i/2, d.VT_Int).SetInt(12)
			m.remove(i)
			m.insert(i/2, 12)
		}},
	}
	c.Bound("wide_containers", fmt.Sprintf("objects of the sizes %v and arrays of the sizes up to %d: every elementary change at the ends, quarters and around powers of two and ten, first on a fresh container and all in a row", sizeGrid(maxO), maxA))
	for _, kind := range []Kind{KObj, KArr} {
		max := maxA
		if kind == KObj {
			max = maxO
		}
		for _, n := range sizeGrid(max) {
			for _, way := range wideWays {
				kind, n, way := kind, n, way
				if n > 3000 && way == "built cached" && kind == KObj {
					continue
				}
				wcase(c, func() string { return fmt.Sprintf("%s of %d entries (%s)", kindName[kind], n, way) }, func(t *T) {
					ps := picks(n)
					if c.quick && n > 600 {
						ps = []int{0, 1, n / 2, n - 2, n - 1, min(n-1, 63), min(n-1, 256), min(n-1, 1000)}
					}
					for _, o := range ops {
						if o.kind != kind {
							continue
						}
						for _, i := range ps {
							v, m := wideValue(way, kind, n), newWideModel(kind, n)
							o.f(v, m, i)
							t.Op()
							if s := m.check(v); s != "" {
								t.Failf("%s at %d: %s", o.name, i, s)
							}
						}
						t.Trace()
					}
					v, m := wideValue(way, kind, n), newWideModel(kind, n)
					for r, i := range ps {
						for k := range ops {
							o := ops[(k*7+r)%len(ops)]
							if o.kind != kind || o.name == "SetKeyInt new" && r > 0 {
								continue
							}
							o.f(v, m, min(i, len(m.vals)-1))
							t.Op()
							if s := m.check(v); s != "" {
								t.Failf("sequence with %s at %d: %s", o.name, i, s)
							}
						}
					}
					// emptied from the front, refilled
					for len(m.vals) > n-min(n, 40) {
						if kind == KObj {
							v.RemoveKey(m.keys[0])
						} else {
							v.RemoveIndex(0)
						}
						m.remove(0)
						t.Op()
					}
					if s := m.check(v); s != "" {
						t.Failf("removing the first entries: %s", s)
					}
					v.Clear()
					if v.Count() != 0 || v.ValueByIndex(0) != nil {
						t.Failf("not empty after Clear")
					}
					t.State(fmt.Sprint("wide", kind, n, way))
				})
			}
			if c.Stop() {
				return
			}
		}
	}
}

// c15wide: long paths.
func c15wide(c *Ctx) {
	max := 5001
	if !c.quick {
		max = 50001
	}
	c.Bound("long_paths", fmt.Sprintf("paths of every length up to 70 and of %v steps over objects, arrays and both; forced, decoded and built; every picked prefix; one step replaced at every picked position", sizeGrid(max)))
	var lens []int
	for i := 1; i < 64; i++ {
		lens = append(lens, i)
	}
	for _, n := range append(lens, sizeGrid(max)...) {
		for kind := 0; kind < 4; kind++ {
			n, kind := n, kind
			wcase(c, func() string { return fmt.Sprintf("paths of %d steps, kind %d", n, kind) }, func(t *T) {
				p := make([]string, n)
				var pre, post strings.Builder
				for i := range p {
					switch {
					case kind == 0:
						p[i] = "a"
					case kind == 1:
						p[i] = "k" + itoa(i)
					case kind == 2 && i%2 == 1, kind == 3:
						p[i] = "0"
					default:
						p[i] = "x\ny"
					}
				}
				for i := 0; i < n; i++ {
					if kind == 3 || kind == 2 && i%2 == 1 {
						pre.WriteString("[")
					} else {
						pre.WriteString(`{"` + strings.Replace(p[i], "\n", `\n`, -1) + `":`)
					}
				}
				for i := n - 1; i >= 0; i-- {
					if kind == 3 || kind == 2 && i%2 == 1 {
						post.WriteString("]")
					} else {
						post.WriteString("}")
					}
				}
				for way := 0; way < 3; way++ {
					var v *d.DxValue
					if way == 0 {
						if kind >= 2 {
							continue
						}
						v = d.NewObject(false)
						v.ForcePath(d.VT_Int, p...).SetInt(7)
					} else {
						var err error
						v, err = d.NewValueFromJson([]byte(pre.String()+"7"+post.String()), way == 2, way == 2)
						if err != nil {
							t.Failf("%v", err)
						}
					}
					at := func(x *d.DxValue, want int64) {
						if got := x.IntByPath(-3, p...); got != want {
							t.Failf("way %d: %d at the end of the path instead of %d", way, got, want)
						}
						if x.StringByPath("-", p...) != itoa(int(want)) || x.DoubleByPath(-1, p...) != float64(want) {
							t.Failf("way %d: typed look-ups differ", way)
						}
					}
					at(v, 7)
					t.Op()
					// every node on the way
					cur := v
					ps := picks(n)
					pi := 0
					for i := 0; i < n; i++ {
						if pi < len(ps) && ps[pi] == i {
							if v.ValueByPath(p[:i]...) != cur {
								t.Failf("way %d: the first %d steps lead elsewhere", way, i)
							}
							q := append([]string{}, p...)
							q[i] = "absent"
							if x := v.ValueByPath(q...); x != nil || v.IntByPath(-3, q...) != -3 {
								t.Failf("way %d: found although step %d is absent", way, i)
							}
							pi++
							t.Op()
						}
						cur = cur.ValueByName(p[i])
						if cur == nil {
							t.Failf("way %d: step %d missing", way, i)
						}
					}
					if v.ValueByPath(append(append([]string{}, p...), "more")...) != nil || v.ValueByPath(p...) != cur {
						t.Failf("way %d: beyond the end", way)
					}
					if kind < 2 {
						x := v.ForcePath(d.VT_Int, p...)
						x.SetInt(8)
						at(v, 8)
						q := append(append([]string{}, p...), "m1", "m2")
						v.ForcePath(d.VT_String, q...).SetString("deep")
						if v.StringByPath("", q...) != "deep" {
							t.Failf("way %d: forced below the end: %q", way, v.StringByPath("", q...))
						}
						if b := v.ValueByPath(p[:n/2]...); b == nil || b.Count() != 1 {
							t.Failf("way %d: other entries on the way", way)
						}
						q = append(append([]string{}, p[:n/2]...), "side")
						v.ForcePath(d.VT_Int, q...).SetInt(9)
						if v.IntByPath(0, q...) != 9 || v.StringByPath("", append(append([]string{}, p...), "m1", "m2")...) != "deep" {
							t.Failf("way %d: forcing a side path", way)
						}
					}
					t.Trace()
				}
				t.State(fmt.Sprint("long", kind, n))
			})
		}
		if c.Stop() {
			return
		}
	}
}

// c16wide: merges of wide, deep and long-named trees.
func c16wide(c *Ctx) {
	max, maxArr, maxDeep := 2100, 1025, 1025
	if !c.quick {
		max, maxArr, maxDeep = 10001, 5001, 3001
	}
	c.Bound("wide_merges", fmt.Sprintf("objects of up to %d entries of which a third conflicts, arrays of up to %d elements, chains of up to %d levels with a conflict at the end, with names of 1, 3 and 40 bytes", max, maxArr, maxDeep))
	for _, n := range sizeGrid(max) {
		n := n
		wcase(c, func() string { return fmt.Sprintf("merging objects of %d entries", n) }, func(t *T) {
			for _, way := range wideWays {
				for dec := 0; dec < 4; dec++ {
					a, m := wideValue(way, KObj, n), newWideModel(KObj, n)
					b := d.NewObject(false)
					type pair struct{ old, in int64 }
					conf := map[string]pair{}
					for i := 0; i < n; i++ {
						if i%3 == 0 {
							b.SetKeyInt(wideKey(i), int64(i+1))
							conf[wideKey(i)] = pair{int64(i), int64(i + 1)}
						} else {
							b.SetKeyInt("b"+itoa(i), int64(i))
						}
					}
					bm := b.ToJson(false, d.JSE_AllEscape, false, nil)
					seen := map[string]int{}
					var f d.MergeFunc
					if dec < 3 {
						f = func(p string, o, nv *d.DxValue) d.MergeOp {
							p = cp(p)
							seen[p]++
							if x, ok := conf[p]; !ok || o.Int() != x.old || nv.Int() != x.in {
								t.Failf("callback called with %q, %v, %v", p, o, nv)
							}
							return d.MergeOp(dec)
						}
					}
					a.MergeWith(b, f)
					t.Op()
					if f != nil && len(seen) != len(conf) {
						t.Failf("%s: callback saw %d of %d conflicts", way, len(seen), len(conf))
					}
					for p, k := range seen {
						if k != 1 {
							t.Failf("%s: callback saw %q %d times", way, p, k)
						}
					}
					// result: a's entries, then b's new ones
					i := 0
					a.Visit(func(k string, x *d.DxValue) bool {
						switch {
						case i < n:
							if k != m.keys[i] {
								t.Failf("entry %d is %q", i, k)
							}
							p, isc := conf[k]
							switch {
							case !isc || dec == 0:
								if x.DataType != d.VT_Int || x.Int() != m.vals[i] {
									t.Failf("%s, decision %d: entry %q is %v", way, dec, k, observe(x))
								}
							case dec == int(d.MO_Replace):
								if x.DataType != d.VT_Int || x.Int() != p.in {
									t.Failf("%s, decision %d: entry %q is %v", way, dec, k, observe(x))
								}
							default:
								if x.DataType != d.VT_Array || x.Count() != 2 || x.IntByIndex(0, -1) != int(p.old) || x.IntByIndex(1, -1) != int(p.in) {
									t.Failf("%s, decision %d: entry %q is %v", way, dec, k, observe(x))
								}
							}
						default:
							j := i - n
							j = j/2*3 + 1 + j%2
							if k != "b"+itoa(j) || x.Int() != int64(j) {
								t.Failf("%s, decision %d: added entry %d is %q %v", way, dec, i, k, observe(x))
							}
						}
						i++
						return true
					})
					if i != n+n-len(conf) {
						t.Failf("%s, decision %d: %d entries instead of %d", way, dec, i, n+n-len(conf))
					}
					for i := 0; i < a.Count(); i++ {
						if _, x := a.Items(i); x.DataType == d.VT_Int {
							x.SetInt(-1)
						} else {
							x.SetIndexInt(1, -1)
						}
					}
					if !bytes.Equal(bm, b.ToJson(false, d.JSE_AllEscape, false, nil)) {
						t.Failf("%s, decision %d: the merged-in value changes", way, dec)
					}
				}
				t.Trace()
			}
			t.State(fmt.Sprint("wide merge", n))
		})
	}
	for _, n := range sizeGrid(maxArr) {
		n := n
		wcase(c, func() string { return fmt.Sprintf("merging arrays of %d elements", n) }, func(t *T) {
			for _, way := range wideWays {
				a := wideValue(way, KArr, n)
				b := d.NewArray(false)
				for i := 0; i < n; i++ {
					b.SetIndexInt(-1, int64(i*3%(2*n)))
				}
				a.MergeWith(b, nil)
				t.Op()
				want := []int64{}
				have := map[int64]bool{}
				for i := 0; i < n; i++ {
					want = append(want, int64(i))
					have[int64(i)] = true
				}
				for i := 0; i < n; i++ {
					if x := int64(i * 3 % (2 * n)); !have[x] {
						want = append(want, x)
					}
				}
				if a.Count() != len(want) {
					t.Failf("%s: %d elements instead of %d", way, a.Count(), len(want))
				}
				for i, x := range want {
					if int64(a.IntByIndex(i, -1)) != x {
						t.Failf("%s: element %d is %d instead of %d", way, i, a.IntByIndex(i, -1), x)
					}
				}
				t.Trace()
			}
			t.State(fmt.Sprint("wide array merge", n))
		})
	}
	var deep []int
	for i := 1; i < 64; i++ {
		deep = append(deep, i)
	}
	for _, n := range append(deep, sizeGrid(maxDeep)...) {
		n := n
		wcase(c, func() string { return fmt.Sprintf("merging chains of %d levels", n) }, func(t *T) {
			for _, name := range []string{"a", "abc", strOfLen(40), "\u00e9/x"} {
				mk := func(z int64, extra string) *d.DxValue {
					v := d.NewObject(z == 2)
					x := v
					for i := 0; i < n; i++ {
						x = x.SetKey(name, d.VT_Object)
						x.SetKeyInt(extra+itoa(i), z)
					}
					x.SetKeyInt("z", z)
					return v
				}
				for dec := 0; dec < 4; dec++ {
					a, b := mk(1, "a"), mk(2, "b")
					var f d.MergeFunc
					level := 0
					if dec < 3 {
						f = func(p string, o, nv *d.DxValue) d.MergeOp {
							level++
							want := strings.Repeat(name+"/", level)
							if level <= n {
								if p != want[:len(want)-1] {
									t.Failf("callback path at level %d is %q", level, short(p))
								}
								return d.MO_Normal
							}
							if p != strings.Repeat(name+"/", n)+"z" {
								t.Failf("callback path at the end is %q", short(p))
							}
							return d.MergeOp(dec)
						}
					}
					a.MergeWith(b, f)
					t.Op()
					if f != nil && level != n+1 {
						t.Failf("%d callbacks instead of %d", level, n+1)
					}
					x := a
					for i := 0; i < n; i++ {
						if x = x.ValueByName(name); x == nil {
							t.Failf("level %d missing", i)
						}
						if x.AsInt("a"+itoa(i), 0) != 1 || x.AsInt("b"+itoa(i), 0) != 2 {
							t.Failf("level %d of %d holds %v", i, n, x.KeyNameByIndex(x.Count()-1))
						}
					}
					z := x.ValueByName("z")
					switch {
					case dec == 0 && z.Int() != 1, dec == 1 && z.Int() != 2, dec >= 2 && (z.DataType != d.VT_Array || z.Count() != 2 || z.IntByIndex(1, 0) != 2):
						t.Failf("the end holds %v after decision %d", observe(z), dec)
					}
				}
				t.Trace()
			}
			t.State(fmt.Sprint("deep merge", n))
		})
		if c.Stop() {
			return
		}
	}
}

// c17wide: wide, deep and long values that differ in one place.
func c17wide(c *Ctx) {
	all, max := 4100, 70000
	if !c.quick {
		all, max = 20001, 300001
	}
	c.Bound("wide_comparisons", fmt.Sprintf("arrays, objects, texts, keys and binaries of %v that differ at one position (every position up to a size of %d), chains that differ at the end", sizeGrid(max), all))
	for _, n := range append([]int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 48, 50}, sizeGrid(max)...) {
		ps := picks(n)
		if n <= all {
			ps = ps[:0]
			for i := 0; i < n; i++ {
				ps = append(ps, i)
			}
		}
		n := n
		both := func(t *T, a, b *d.DxValue, want bool, what string, i int) {
			if a.Equal(b) != want || b.Equal(a) != want {
				t.Failf("%s of size %d, position %d: compared %v and %v, want %v", what, n, i, a.Equal(b), b.Equal(a), want)
			}
			t.Op()
		}
		for _, kind := range []Kind{KArr, KObj} {
			kind := kind
			if n > 20001 && kind == KObj {
				continue // building is quadratic
			}
			wcase(c, func() string { return fmt.Sprintf("%s of %d entries", kindName[kind], n) }, func(t *T) {
				ways := wideWays
				if n > 1100 {
					ways = []string{"JSON", "MsgPack"}
				}
				for _, w1 := range ways {
					a, b := wideValue(w1, kind, n), wideValue("JSON", kind, n)
					both(t, a, b, true, "equal "+w1, -1)
					for _, i := range ps {
						_, x := b.Items(i)
						x.SetInt(-1)
						both(t, a, b, false, w1, i)
						x.SetString(itoa(i))
						both(t, a, b, false, w1+" text", i)
						x.SetDouble(float64(i))
						if i == ps[len(ps)/2] {
							both(t, a, b, true, w1+" number", i)
						}
						x.SetInt(int64(i))
					}
					both(t, a, b, true, "again "+w1, -1)
					if kind == KObj {
						for _, i := range picks(n) {
							var buf bytes.Buffer
							for _, k := range []string{"x", ""} {
								if k == "" && len(wideKey(i)) < 2 {
									continue
								}
								j := wideJSON(kind, n)
								was := `"` + strings.Replace(wideKey(i), "\n", `\n`, -1) + `":`
								now := was[:len(was)-2] + k + `":`
								if k == "" {
									now = `"q` + was[2:]
								}
								y, err := d.NewValueFromJson(bytes.Replace(j, []byte(was), []byte(now), 1), false, false)
								if err != nil {
									t.Failf("%v", err)
								}
								both(t, a, y, false, w1+" key", i)
							}
							_ = buf
						}
					}
					short := wideValue("JSON", kind, n-1)
					both(t, a, short, false, w1+" shorter", n-1)
					t.Trace()
				}
				t.State(fmt.Sprint("wide eq", kind, n))
			})
		}
		wcase(c, func() string { return fmt.Sprintf("texts, keys and binaries of %d bytes", n) }, func(t *T) {
			s := []byte(strOfLen(n))
			for w := 0; w < 5; w++ {
				mk := func(s []byte) *d.DxValue {
					v := d.NewObject(w == 1)
					switch w {
					case 0, 1:
						v.SetKeyString("k", string(s))
					case 2:
						v.SetKey("k", d.VT_Binary).SetBinary(s, true)
					case 3:
						x := v.SetKey("k", d.VT_ExBinary)
						x.SetBinary(s, true)
						x.SetExtType(5)
					case 4:
						v.SetKeyInt(string(s), 1)
					}
					return v
				}
				a := mk(s)
				both(t, a, mk(s), true, "bytes", -1)
				for _, i := range ps {
					if n > 2100 && i%97 != 0 && i < n-64 && i > 64 {
						continue
					}
					q := append([]byte(nil), s...)
					q[i] ^= 1
					both(t, a, mk(q), false, fmt.Sprint("bytes ", w), i)
				}
				both(t, a, mk(s[:n-1]), false, "shorter", n-1)
				t.Trace()
			}
			t.State(fmt.Sprint("long eq", n))
		})
		if n <= 2100 {
			wcase(c, func() string { return fmt.Sprintf("chains of %d levels", n) }, func(t *T) {
				for kind := 0; kind < 3; kind++ {
					mk := func(leaf int64, at int) *d.DxValue {
						v := d.NewObject(false)
						if kind == 1 {
							v = d.NewArray(false)
						}
						x := v
						for i := 0; i < n; i++ {
							z := int64(5)
							if i == at {
								z = leaf
							}
							if kind == 1 || kind == 2 && i%2 == 1 {
								x.SetIndexInt(0, z)
								if kind == 2 {
									x = x.SetIndex(1, d.VT_Object)
								} else {
									x = x.SetIndex(1, d.VT_Array)
								}
							} else {
								x.SetKeyInt("z", z)
								if kind == 2 {
									x = x.SetKey("d", d.VT_Array)
								} else {
									x = x.SetKey("d", d.VT_Object)
								}
							}
						}
						return v
					}
					a := mk(5, 0)
					both(t, a, mk(5, 0), true, "chain", -1)
					for _, i := range picks(n) {
						both(t, a, mk(6, i), false, "chain", i)
					}
				}
				t.Trace()
			})
		}
		if c.Stop() {
			return
		}
	}
}

// c22wide: long slices and large maps into destinations of every length and capacity.
func c22wide(c *Ctx) {
	max := 20001
	if !c.quick {
		max = 100001
	}
	c.Bound("long_slices", fmt.Sprintf("slices of 8 element types and %v elements into destinations of 12 lengths and capacities; maps and nested slices", sizeGrid(max)))
	type pt struct{ A, B int }
	for _, n := range sizeGrid(max) {
		n := n
		wcase(c, func() string { return fmt.Sprintf("%d elements", n) }, func(t *T) {
			v := wideValue("JSON", KArr, n)
			s := wideValue("built", KArr, 0)
			for i := 0; i < n; i++ {
				s.Append(d.VT_Object).SetKeyInt("A", int64(i))
			}
			var lc [][2]int
			for _, l := range []int{0, 1, 2, 5, 63, 64, 255, 256, 257, 1000, 1024, 1025, n - 257, n - 256, n - 2, n - 1, n, n + 1, n + 300} {
				if l < 0 {
					continue
				}
				lc = append(lc, [2]int{l, l}, [2]int{l, l + 1}, [2]int{l, l + 600}, [2]int{l / 2, l})
			}
			get := []struct {
				ty  reflect.Type
				src *d.DxValue
				f   func(x reflect.Value) int
			}{
				{reflect.TypeOf([]int{}), v, func(x reflect.Value) int { return int(x.Int()) }},
				{reflect.TypeOf([]uint32{}), v, func(x reflect.Value) int { return int(x.Uint()) }},
				{reflect.TypeOf([]float64{}), v, func(x reflect.Value) int { return int(x.Float()) }},
				{reflect.TypeOf([]string{}), v, func(x reflect.Value) int { k := 0; fmt.Sscan(x.String(), &k); return k }},
				{reflect.TypeOf([]interface{}{}), v, func(x reflect.Value) int { k := 0; fmt.Sscan(fmt.Sprint(x.Interface()), &k); return k }},
				{reflect.TypeOf([]*int{}), v, func(x reflect.Value) int { return int(x.Elem().Int()) }},
				{reflect.TypeOf([]pt{}), s, func(x reflect.Value) int { return int(x.Field(0).Int()) }},
				{reflect.TypeOf([]map[string]int{}), s, func(x reflect.Value) int { return int(x.MapIndex(reflect.ValueOf("A")).Int()) }},
			}
			for gi, g := range get {
				for li, x := range lc {
					if c.quick && n > 1100 && (li+gi+n)%7 != 0 {
						continue
					}
					p := reflect.New(g.ty)
					p.Elem().Set(reflect.MakeSlice(g.ty, x[0], x[1]))
					if msg := try(func() {
						if !g.src.ToStdValue(p.Interface(), false) || p.Elem().Len() != n {
							t.Failf("%v of length %d and capacity %d gets %d elements", g.ty, x[0], x[1], p.Elem().Len())
						}
					}); msg != "" {
						t.Failf("%v of length %d and capacity %d: %s", g.ty, x[0], x[1], msg)
					}
					step := 1
					if gi == 3 || gi == 4 {
						step = 1 + n/300
					}
					for i := 0; i < n; i += step {
						if g.f(p.Elem().Index(i)) != i {
							t.Failf("%v of length %d and capacity %d: element %d is %v", g.ty, x[0], x[1], i, p.Elem().Index(i))
						}
					}
					t.Op()
				}
				// and in: the same Go slice as a source
				p := reflect.New(g.ty)
				g.src.ToStdValue(p.Interface(), false)
				for way := 0; way < 3; way++ {
					var x *d.DxValue
					switch way {
					case 0:
						x = d.NewValueFrom(p.Elem().Interface(), n%2 == 0)
					case 1:
						o := d.NewObject(false)
						o.SetKeyvalue("k", p.Interface(), nil)
						x = o.ValueByName("k")
					case 2:
						o := d.NewArray(true)
						o.SetIndexvalue(0, p.Elem().Interface(), o.ValueCache())
						x = o.ValueByIndex(0)
					}
					if x.Count() != n {
						t.Failf("a value from %d elements of %v has %d", n, g.ty, x.Count())
					}
					for i := 0; i < n; i++ {
						e := x.ValueByIndex(i)
						if gi >= 6 {
							e = e.ValueByName("A")
						}
						if e.Int() != int64(i) {
							t.Failf("a value from %d elements of %v: element %d is %v", n, g.ty, i, observe(e))
						}
					}
					t.Op()
				}
				t.Trace()
			}
			if n <= 2100 {
				m := map[string]int{}
				for i := 0; i < n; i++ {
					m[wideKey(i)] = i
				}
				x := d.NewValueFrom(m, false)
				back, any := map[string]int{}, map[string]interface{}{}
				x.ToStdValue(&back, false)
				x.ToStdValue(any, false)
				if x.Count() != n || !reflect.DeepEqual(back, m) || len(any) != n {
					t.Failf("a map of %d entries becomes %d, back %d and %d", n, x.Count(), len(back), len(any))
				}
				for k, y := range any {
					if fmt.Sprint(y) != fmt.Sprint(m[k]) {
						t.Failf("a map of %d entries: %q is %v", n, k, y)
					}
				}
				t.Op()
			}
			t.State(fmt.Sprint("wide go", n))
		})
		if c.Stop() {
			return
		}
	}
}

// c11wide: large caches recycled: every kind of content over every kind of content.
func c11wide(c *Ctx) {
	sizes := []int{100, 260, 520, 1030, 4100}
	if !c.quick {
		sizes = append(sizes, 10001, 66000)
	}
	units := []string{`{"a":1}`, `[1]`, `"text"`, `"te\nxt"`, `5`, `2.5`, `true`, `null`, `{}`, `[]`, `{"b":{"c":[1,{"d":"e"}]},"f\n":"g"}`, `"Date(1600000000000)"`, `nan`}
	c.Bound("large_recycled", fmt.Sprintf("arrays of %v entries, every of %d kinds of content over every other, after Clear, load, and free", sizes, len(units)))
	for _, n := range sizes {
		for ui, u := range units {
			n, ui, u := n, ui, u
			wcase(c, func() string { return fmt.Sprintf("%d times %s recycled", n, u) }, func(t *T) {
				doc := func(u string, n int) []byte { return []byte("[0" + strings.Repeat(","+u, n) + "]") }
				for wi, w := range units {
					for way := 0; way < 4; way++ {
						if n > 600 && way != (ui+wi)%4 {
							continue
						}
						verifrt.ResetPools()
						v, err := d.NewValueFromJson(doc(u, n), true, false)
						if err != nil {
							t.Failf("%v", err)
						}
						in := doc(w, n-n/5+wi)
						switch way {
						case 0:
							err = v.LoadFromJson(in, false)
						case 1:
							v.Clear()
							err = v.LoadFromJson(in, true)
						case 2:
							d.FreeValue(v)
							v, err = d.NewValueFromJson(in, true, false)
						case 3:
							d.FreeValue(v)
							v = d.NewArray(true)
							x, e := d.NewValueFromJson(in, false, false)
							err = e
							v.CopyFrom(x, v.ValueCache())
						}
						if err != nil {
							t.Failf("way %d: %v", way, err)
						}
						f, err := d.NewValueFromJson(in, false, false)
						if err != nil {
							t.Failf("%v", err)
						}
						if s := diff(observe(f), observe(v), eqOpt{tol: 2 * time.Second}); s != "" {
							t.Failf("%s over %s (way %d): %s", w, u, way, short(s))
						}
						if !strings.Contains(w, "Date") && !bytes.Equal(f.ToMsgPack(nil), v.ToMsgPack(nil)) {
							t.Failf("%s over %s (way %d) encodes differently", w, u, way)
						}
						t.Op()
						d.FreeValue(v)
					}
				}
				t.Trace()
				t.State(fmt.Sprint("large recycled", n, u))
			})
		}
		if c.Stop() {
			return
		}
	}
}

// c27wide: the same cycles with documents of many nodes.
func c27wide(c *Ctx) {
	sizes := []int{300, 1100, 5000}
	if !c.quick {
		sizes = append(sizes, 20000, 70000)
	}
	c.Bound("large_documents", fmt.Sprintf("documents of %v nodes loaded, cleared and freed again and again", sizes))
	type lop struct {
		name string
		f    func(v *d.DxValue, js, mp, yml []byte) *d.DxValue
	}
	ops := []lop{
		{"load JSON", func(v *d.DxValue, js, mp, yml []byte) *d.DxValue { v.LoadFromJson(js, false); return v }},
		{"load MsgPack", func(v *d.DxValue, js, mp, yml []byte) *d.DxValue { v.LoadFromMsgPack(mp, true); return v }},
		{"load YAML", func(v *d.DxValue, js, mp, yml []byte) *d.DxValue { v.LoadFromYaml(yml); return v }},
		{"load cut JSON", func(v *d.DxValue, js, mp, yml []byte) *d.DxValue { v.LoadFromJson(js[:len(js)-1], false); return v }},
		{"load and clear", func(v *d.DxValue, js, mp, yml []byte) *d.DxValue { v.LoadFromJson(js, true); v.Clear(); return v }},
		{"free and decode", func(v *d.DxValue, js, mp, yml []byte) *d.DxValue {
			d.FreeValue(v)
			v, _ = d.NewValueFromJson(js, true, false)
			return v
		}},
		{"free and decode MsgPack", func(v *d.DxValue, js, mp, yml []byte) *d.DxValue {
			d.FreeValue(v)
			v, _ = d.NewValueFromMsgPack(mp, true, false)
			return v
		}},
		{"free and decode YAML", func(v *d.DxValue, js, mp, yml []byte) *d.DxValue {
			d.FreeValue(v)
			v, _ = d.NewValueFromYaml(yml, true)
			return v
		}},
		{"clear, copy from itself decoded", func(v *d.DxValue, js, mp, yml []byte) *d.DxValue {
			x, _ := d.NewValueFromJson(js, true, false)
			v.Clear()
			v.CopyFrom(x, v.ValueCache())
			d.FreeValue(x)
			return v
		}},
		{"clear, fill, merge", func(v *d.DxValue, js, mp, yml []byte) *d.DxValue {
			v.Clear()
			v.Reset(d.VT_Array)
			for i := 0; i < 300; i++ {
				v.SetIndexInt(-1, int64(i))
			}
			return v
		}},
		{"clone cached and free", func(v *d.DxValue, js, mp, yml []byte) *d.DxValue {
			x := v.Clone(true)
			if !x.ReadOnly() {
				d.FreeValue(x)
			}
			return v
		}},
	}
	for _, n := range sizes {
		for i := range ops {
			for j := range ops {
				n, i, j := n, i, j
				if n > 2000 && i != j && c.quick && (i+j)%4 != 0 {
					continue
				}
				wcase(c, func() string { return fmt.Sprintf("documents of %d nodes: %s, %s", n, ops[i].name, ops[j].name) }, func(t *T) {
					js := []byte(`[{"a":[1,"t\n"]}` + strings.Repeat(`,{"a":[1,"t\n"]}`, n/4) + "]")
					src, err := d.NewValueFromJson(js, false, false)
					if err != nil {
						t.Failf("%v", err)
					}
					mp := src.ToMsgPack(nil)
					yml := []byte("- &x 5\n- *x\n" + strings.Repeat("-\n  a: 1\n  b:\n    - t\n", n/4))
					src = nil
					v := d.NewCacheValue(d.VT_Array)
					cycle := func(k int) {
						for ; k > 0; k-- {
							v = ops[i].f(v, js, mp, yml)
							v = ops[j].f(v, js, mp, yml)
							t.Op()
						}
					}
					cycle(10)
					h0 := heapLive()
					cycle(10)
					h1 := heapLive()
					cycle(10)
					h2 := heapLive()
					// one document of n nodes takes more than 100*n bytes
					if h1-h0 > int64(n)*50 && h2-h1 > int64(n)*50 {
						cycle(30)
						if h3 := heapLive(); h3-h2 > int64(n)*100 {
							t.Failf("%s, %s with %d nodes: the live heap goes %d, %d, %d, %d bytes after 10, 20, 30, 60 repetitions", ops[i].name, ops[j].name, n, h0, h1, h2, h3)
						}
					}
					runtime.KeepAlive(v)
					t.Trace()
					t.State(fmt.Sprint("large cycle", n, i, j))
				})
			}
			if c.Stop() {
				return
			}
		}
	}
}

// c19wide: destinations that already hold much.
func c19wide(c *Ctx) {
	pres := []int{511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 32767, 32768, 65535, 65536, 65537, 70000, 1 << 20, 1<<24 + 5}
	c.Bound("long_prefixes", fmt.Sprint(pres))
	trees := append(append(append([]*M{}, mpTrees()...), bigTrees()...), mObj("a", mArr(mObj("b", mArr(mInt(1), mDbl(2.5)), "c", mBin([]byte{1, 2})), mStr("x\n")), "d", mK(KNull)), mObj("f", mStr(strOfLen(5000))))
	for _, m := range trees {
		m := m
		wcase(c, func() string { return "long destinations for " + short(m.String()) }, func(t *T) {
			v := build(m, false)
			for _, a := range appenders() {
				base := clone(hb(a.f(v, nil)))
				for _, p := range pres {
					if p > 1<<16+10 && len(m.Vals) == 0 && m.K > KArr && p != 70000 {
						continue
					}
					for _, sp := range []int{0, 3, len(base) + 10} {
						if p > 1<<20 && sp != 3 {
							continue
						}
						buf := make([]byte, p, p+sp)
						for i := range buf {
							buf[i] = byte(0x41 + i%23)
						}
						out := a.f(v, buf)
						t.Op()
						if len(out) != p+len(base) || !bytes.Equal(out[p:], base) {
							t.Failf("%s behind %d bytes (%d spare) gives %d bytes that differ from the encoding", a.name, p, sp, len(out)-p)
						}
						for i, x := range out[:p] {
							if x != byte(0x41+i%23) {
								t.Failf("%s behind %d bytes (%d spare) changes byte %d", a.name, p, sp, i)
							}
						}
						for i, x := range buf {
							if x != byte(0x41+i%23) {
								t.Failf("%s behind %d bytes (%d spare) changes byte %d of the destination", a.name, p, sp, i)
							}
						}
					}
				}
				t.Trace()
			}
			t.State("long prefix " + m.String())
		})
		if c.Stop() {
			return
		}
	}
}

// c13wide: copies of deep chains.
func c13wide(c *Ctx) {
	max := 1025
	if !c.quick {
		max = 3001
	}
	var lens []int
	for i := 30; i < 64; i++ {
		lens = append(lens, i)
	}
	lens = append(lens, sizeGrid(max)...)
	c.Bound("deep_chains", fmt.Sprintf("chains of %v levels through every way of copying, changed at picked levels", lens))
	for _, n := range lens {
		n := n
		wcase(c, func() string { return fmt.Sprintf("copies of chains of %d levels", n) }, func(t *T) {
			m := mInt(5)
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					m = mObj("d\n", m, "z", mStr("s"))
				} else {
					m = mArr(mInt(int64(i)), m)
				}
			}
			if m.K != KObj {
				m = mObj("r", m)
			}
			nodes := func(v *d.DxValue) (out []*d.DxValue) {
				for v != nil {
					out = append(out, v)
					switch {
					case v.DataType == d.VT_Object:
						v = v.ValueByIndex(0)
					case v.DataType == d.VT_Array:
						v = v.ValueByIndex(1)
					default:
						v = nil
					}
				}
				return
			}
			src := encodeFor("mp", m)
			want := refEncode(m)
			text := func(v *d.DxValue) []byte { return v.ToJson(false, d.JSE_OnlyAnsiChar, false, nil) }
			ref := build(m, false)
			wantText := text(ref)
			_ = want
			for _, cp := range copiers() {
				if !cp.ok(m) {
					continue
				}
				for side := 0; side < 2; side++ {
					a, err := d.NewValueFromMsgPack(src, n%2 == 0, false)
					if err != nil {
						t.Failf("%v", err)
					}
					b := cp.f(a)
					if !bytes.Equal(text(b), wantText) || !b.Equal(a) {
						t.Failf("%s of a chain of %d levels is not equal to its source", cp.name, n)
					}
					x, y := a, b
					if side == 1 {
						x, y = b, a
					}
					ns := nodes(x)
					if len(ns) < n {
						t.Failf("%s: only %d levels", cp.name, len(ns))
					}
					ns[len(ns)-1].SetInt(6)
					for _, i := range picks(len(ns) - 1) {
						if isCont(ns[i]) && ns[i].DataType == d.VT_Object {
							ns[i].SetKeyInt("q", 1)
							ns[i].ValueByName("z")
						} else if ns[i].DataType == d.VT_Array {
							ns[i].Append(d.VT_Int).SetInt(1)
							ns[i].SetIndexInt(0, -7)
						}
						t.Op()
					}
					if !bytes.Equal(text(y), wantText) {
						t.Failf("%s of a chain of %d levels: changes of side %d show in the other", cp.name, n, side)
					}
				}
				t.Trace()
			}
			t.State(fmt.Sprint("deep copy", n))
		})
		if c.Stop() {
			return
		}
	}
}
