package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
)

// C18: reading is pure.

func init() {
	register("C18", runC18,
		"every sequence of read operations up to a depth, on every document of a set in every decoding mode; each read's result is compared with the result of the same read on a freshly produced value")
}

type readOp struct {
	name string
	f    func(v *d.DxValue) string
}

// normJSON: lazily held text may be spelled with other escapes, so JSON text is compared as the data it denotes.
func normJSON(b []byte) string {
	if m, err := refJSON(b); err == nil {
		return m.String()
	}
	return string(b)
}

func showStd(x interface{}) string {
	switch y := x.(type) {
	case map[string]interface{}:
		var ks []string
		for k := range y {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var b strings.Builder
		b.WriteByte('{')
		for _, k := range ks {
			fmt.Fprintf(&b, "%q:%s,", k, showStd(y[k]))
		}
		return b.String() + "}"
	case []interface{}:
		var b strings.Builder
		b.WriteByte('[')
		for _, e := range y {
			b.WriteString(showStd(e) + ",")
		}
		return b.String() + "]"
	case time.Time:
		return y.UTC().Format(time.RFC3339Nano)
	}
	return fmt.Sprintf("%T:%#v", x, x)
}

func nodeReads(n *d.DxValue) string {
	txt := ""
	if !isCont(n) {
		txt = n.String()
	}
	return fmt.Sprintf("%v %v %v %v %v %v %d %x %d %d %q", n.Int(), n.Double(), n.Float(), n.Bool(), float64(n.DateTime()), n.Duration(-3), n.Count(), n.Binary(), n.BinLen(), n.BinExtType(), txt)
}

// at follows positions from the root.
func at(v *d.DxValue, path []int) *d.DxValue {
	for _, i := range path {
		if v == nil {
			return nil
		}
		v = v.ValueByIndex(i)
	}
	return v
}

func rootReads(m *M) []readOp {
	first := "zz"
	if len(m.Keys) > 0 {
		first = m.Keys[0]
	}
	last := "0"
	if len(m.Keys) > 0 {
		last = m.Keys[len(m.Keys)-1]
	}
	near := nearMisses(m)
	ops := []readOp{
		{"String", func(v *d.DxValue) string {
			if v.DataType == d.VT_Object || v.DataType == d.VT_Array {
				return normJSON([]byte(hs(v.String())))
			}
			return hs(v.String())
		}},
		{"ToJson(ansi)", func(v *d.DxValue) string { return normJSON(hb(v.ToJson(false, d.JSE_OnlyAnsiChar, false, nil))) }},
		{"ToJson(all,format)", func(v *d.DxValue) string { return normJSON(hb(v.ToJson(true, d.JSE_AllEscape, true, nil))) }},
		{"ToJson(unescaped)", func(v *d.DxValue) string { v.ToJson(false, d.JSE_NoEscape, false, nil); return "" }},
		{"ToMsgPack", func(v *d.DxValue) string { return string(hb(v.ToMsgPack(nil))) }},
		{"ToBson", func(v *d.DxValue) string {
			if v.DataType != d.VT_Object {
				return ""
			}
			return string(hb(v.ToBson(nil)))
		}},
		{"Clone", func(v *d.DxValue) string { return observe(v.Clone(false)).String() }},
		{"Clone(cached) printed", func(v *d.DxValue) string {
			return normJSON(hb(v.Clone(true).ToJson(false, d.JSE_AllEscape, false, nil)))
		}},
		{"Equal", func(v *d.DxValue) string {
			b := build(m, false)
			return fmt.Sprint(v.Equal(b), b.Equal(v), v.Equal(v))
		}},
		{"Visit", func(v *d.DxValue) string {
			var b strings.Builder
			v.Visit(func(k string, c *d.DxValue) bool { fmt.Fprintf(&b, "%q", k); return true })
			return b.String()
		}},
		{"Visit values", func(v *d.DxValue) string {
			var b strings.Builder
			v.Visit(func(k string, c *d.DxValue) bool { fmt.Fprintf(&b, "%q:%s,", k, observe(c)); return true })
			return b.String()
		}},
		{"Items", func(v *d.DxValue) string { return observe(v).String() }},
		{"KeyNameByIndex", func(v *d.DxValue) string {
			var b strings.Builder
			for i := 0; i < v.Count(); i++ {
				fmt.Fprintf(&b, "%q,", hs(v.KeyNameByIndex(i)))
			}
			return b.String()
		}},
		{"absent names", func(v *d.DxValue) string {
			return fmt.Sprint(v.ValueByName("zz") == nil, v.ValueByPath("zz", "y") == nil, v.AsString("zz", "def"), v.AsInt("zz", 7), v.StringByPath("d", first, "zz", "yy"), v.Find("qq") == nil, v.ValueByIndex(99) == nil)
		}},
		{"present names", func(v *d.DxValue) string {
			var b strings.Builder
			for _, k := range []string{first, last} {
				n := v.ValueByName(k)
				fmt.Fprint(&b, n == nil, v.AsInt64(k, -5), v.AsDouble(k, -5), v.AsBool(k, false), v.AsDuration(-5, k))
				if n != nil && n.DataType > d.VT_Array {
					fmt.Fprintf(&b, "%q", v.AsString(k, "def"))
				}
			}
			return b.String()
		}},
		{"ToStdValue(map)", func(v *d.DxValue) string {
			x := map[string]interface{}{}
			ok := v.ToStdValue(x, false)
			return fmt.Sprint(ok, showStd(x))
		}},
		{"ToStdValue(slice)", func(v *d.DxValue) string {
			x := make([]interface{}, v.Count())
			ok := v.ToStdValue(x, false)
			return fmt.Sprint(ok, showStd(x))
		}},
		{"source of CopyFrom", func(v *d.DxValue) string {
			x := d.NewObject(false)
			x.CopyFrom(v, nil)
			return observe(x).String()
		}},
		{"source of AddFrom", func(v *d.DxValue) string {
			var x *d.DxValue
			if v.DataType == d.VT_Object {
				x = d.NewObject(false)
				x.SetKeyString(last, "own")
			} else {
				x = d.NewArray(true)
			}
			x.AddFrom(v, nil)
			return observe(x).String()
		}},
		{"source of MergeWith", func(v *d.DxValue) string {
			x := d.NewObject(false)
			if v.DataType == d.VT_Array {
				x = d.NewArray(false)
				x.SetIndexString(0, "own")
			} else {
				x.SetKeyString(last, "own")
			}
			x.MergeWith(v, nil)
			return observe(x).String()
		}},
		{"typed reads", nodeReads},
		{"Equal to near misses", func(v *d.DxValue) string {
			var b strings.Builder
			for i, q := range near {
				o := build(q, i&1 == 1)
				fmt.Fprint(&b, v.Equal(o), o.Equal(v), " ")
			}
			return b.String()
		}},
		{"Visit stopped early", func(v *d.DxValue) string {
			var b strings.Builder
			for stop := 0; stop < 3; stop++ {
				n := 0
				v.Visit(func(k string, c *d.DxValue) bool { fmt.Fprintf(&b, "%q", k); n++; return n <= stop })
			}
			return b.String()
		}},
		{"every name", func(v *d.DxValue) string {
			var b strings.Builder
			step := len(m.Keys)/200 + 1
			for i := len(m.Keys) - 1; i >= 0; i -= step {
				k := m.Keys[i]
				n := v.ValueByName(k)
				fmt.Fprint(&b, n == nil, v.AsInt64(k, -5), v.AsDouble(k, -5), " ")
				if i+1 < len(m.Keys) {
					fmt.Fprint(&b, v.IntByName(m.Keys[i+1], -6), v.KeyNameByIndex(i) == k, " ")
				}
			}
			return b.String()
		}},
		{"accessors by name", func(v *d.DxValue) string {
			var b strings.Builder
			for _, k := range []string{first, last, "zz", ""} {
				t0 := time.Unix(5, 0).UTC()
				fmt.Fprintln(&b, v.AsInt(k, 3), v.IntByName(k, 4), v.AsFloat(k, 5), v.FloatByName(k, 6), v.DoubleByName(k, 7), v.BoolByName(k, true), float64(v.AsDateTime(k, 8)), v.DurationByName(9, k), v.TimeByName(k, t0).UTC(), v.Find(k) == nil)
				if n := v.ValueByName(k); n == nil || !isCont(n) {
					fmt.Fprintln(&b, v.StringByName(k, "d"))
				}
			}
			return b.String()
		}},
		{"accessors by index", func(v *d.DxValue) string {
			var b strings.Builder
			for _, i := range []int{0, 1, v.Count() - 1, v.Count(), -1} {
				fmt.Fprintln(&b, v.IntByIndex(i, 3), v.FloatByIndex(i, 4), v.DoubleByIndex(i, 5), v.BoolByIndex(i, true))
				if n := v.ValueByIndex(i); n == nil || !isCont(n) {
					fmt.Fprintln(&b, v.StringByIndex(i, "d"))
				}
			}
			return b.String()
		}},
		{"accessors by path", func(v *d.DxValue) string {
			var b strings.Builder
			for _, p := range [][]string{{first}, {last}, {first, "0"}, {last, first}, {"zz"}, {}, {"0"}, {"1", "0"}} {
				t0 := time.Unix(5, 0).UTC()
				fmt.Fprintln(&b, v.IntByPath(3, p...), v.FloatByPath(4, p...), v.DoubleByPath(5, p...), v.BoolByPath(true, p...), float64(v.DateTimeByPath(6, p...)), v.DurationByPath(7, p...), v.GoTimeByPath(t0, p...).UTC())
				if n := v.ValueByPath(p...); n == nil || !isCont(n) {
					fmt.Fprintln(&b, v.StringByPath("d", p...))
				}
			}
			return b.String()
		}},
		{"package-level encoders", func(v *d.DxValue) string {
			r := normJSON(hb(d.Value2Json(v, d.JSE_AllEscape, true, []byte{}))) + normJSON(hb(d.Value2FormatJson(v, d.JSE_OnlyAnsiChar, false, nil))) + string(hb(d.Value2MsgPack(v, nil)))
			b, err := d.Value2Bson(v, nil)
			return r + string(hb(b)) + errTag(err)
		}},
		{"attributes", func(v *d.DxValue) string {
			ty := v.Type()
			if ty == d.VT_RawString {
				ty = d.VT_String // text held lazily becomes plain text when read
			}
			return fmt.Sprint(ty, v.ReadOnly(), v.Count(), v.ExtType)
		}},
		{"ToStdValue(typed)", func(v *d.DxValue) string {
			var ms map[string]string
			var mi map[string]int
			var ls []string
			var li []float64
			var st struct {
				A, K, X interface{}
				D, N    string
			}
			var bs []byte
			oks := fmt.Sprint(v.ToStdValue(&st, true), v.ToStdValue(&bs, false))
			leaves := !hasCont(m)
			if leaves {
				oks += fmt.Sprint(v.ToStdValue(&ms, false), v.ToStdValue(&mi, false), v.ToStdValue(&ls, false), v.ToStdValue(&li, false))
			}
			return fmt.Sprint(oks, showStd(st.A), showStd(st.K), showStd(st.X), st.D, st.N, bs, len(ms), mi, ls, li)
		}},
	}
	return ops
}

func hasCont(m *M) bool {
	for _, v := range m.Vals {
		if v.K <= KArr {
			return true
		}
	}
	return false
}

// nearMisses are trees that differ from m in one node: at every position of the root, and at the last leaf.
func nearMisses(m *M) []*M {
	var out []*M
	n := 0
	eachNode(m, func(*M) { n++ })
	for k := 0; k < n; k++ {
		if k > 8 && k < n-4 {
			continue
		}
		q := m.clone()
		i := 0
		var hit *M
		eachNode(q, func(x *M) {
			if i == k {
				hit = x
			}
			i++
		})
		if hit.K <= KArr && len(hit.Vals) > 0 {
			hit.removeAt(len(hit.Vals) - 1)
		} else {
			*hit = M{K: KStr, S: "~near miss"}
		}
		out = append(out, q)
		if q2 := m.clone(); q2.K == KObj && k < len(q2.Keys) {
			q2.Keys[k] += "~"
			out = append(out, q2)
		}
	}
	return out
}

func nodeOps(path []int) []readOp {
	p := fmt.Sprint(path)
	mk := func(name string, f func(n *d.DxValue) string) readOp {
		return readOp{name + p, func(v *d.DxValue) string {
			n := at(v, path)
			if n == nil {
				return "<nil>"
			}
			return f(n)
		}}
	}
	return []readOp{
		mk("String", func(n *d.DxValue) string {
			if isCont(n) {
				return normJSON([]byte(hs(n.String())))
			}
			return hs(n.String())
		}),
		mk("Int", func(n *d.DxValue) string { return fmt.Sprint(n.Int()) }),
		mk("Double", func(n *d.DxValue) string { return fmt.Sprint(n.Double(), n.Float()) }),
		mk("Bool", func(n *d.DxValue) string { return fmt.Sprint(n.Bool()) }),
		mk("DateTime", func(n *d.DxValue) string { return fmt.Sprint(float64(n.DateTime())) }),
		mk("GoTime", func(n *d.DxValue) string { return n.GoTime().UTC().Format(time.RFC3339Nano) }),
		mk("Duration", func(n *d.DxValue) string { return fmt.Sprint(n.Duration(-3)) }),
		mk("Binary", func(n *d.DxValue) string { return fmt.Sprintf("%x %d %d", n.Binary(), n.BinLen(), n.BinExtType()) }),
		mk("ToJson", func(n *d.DxValue) string { return normJSON(hb(n.ToJson(false, d.JSE_AllEscape, false, nil))) }),
		mk("ToMsgPack", func(n *d.DxValue) string { return string(hb(n.ToMsgPack(nil))) }),
		mk("Equal", func(n *d.DxValue) string {
			return fmt.Sprint(n.Equal(n), n.Equal(nil), n.Equal(d.NewValueFrom("12", false)))
		}),
		mk("ToStdValue", func(n *d.DxValue) string {
			var s string
			var i int
			ok := n.ToStdValue(&s, false)
			ok2 := n.ToStdValue(&i, false)
			if isCont(n) {
				s = ""
			}
			return fmt.Sprint(ok, s, ok2, i)
		}),
	}
}

func posPaths(m *M, pre []int, out *[][]int) {
	for i, v := range m.Vals {
		p := append(append([]int{}, pre...), i)
		*out = append(*out, p)
		posPaths(v, p, out)
	}
}

type source struct {
	name string
	m    *M
	mk   func() *d.DxValue
}

func c18sources() []source {
	var out []source
	raw := []string{
		`{"n":"12","d":"1.5","t":"TRUE","dt":"2021-05-06 07:08:09","u":"5s"}`,
		`{"k\u0041":"\u0031\u0032","\"q":"\u0074rue","e\\":["\u0031.5","5\u0073"]}`,
		`["a\nb","\u0031",{"x\ty":"\\"},"\u00e9"]`,
		`{"a":{"b\n":{"c\"":"d\\"}},"e":[["\t"],{}]}`,
		`"\u0031\u0032"`, `"2021-05-06\u002007:08:09"`, `"plain"`, `"\\n"`, `"\/"`,
		`{"\u0041":1,"B":"\u0042"}`,
		`[]`, `{}`, `12`, `-2.5`, `true`, `null`, `[null,true,false,1.25]`,
		`{"a":"\\u0041","b\\n":"\\\\"}`,
		`["%41","\u0025\u0034\u0031","%5c"]`,
	}
	for _, s := range raw {
		b := []byte(s)
		m, err := refJSON(b)
		if err != nil {
			panic(s)
		}
		for mode := 0; mode < 4; mode++ {
			mode := mode
			out = append(out, source{fmt.Sprintf("JSON mode %d %s", mode, s), m, func() *d.DxValue {
				v, err := d.NewValueFromJson(clone(b), mode&1 == 1, mode&2 == 2)
				if err != nil {
					panic(err)
				}
				return v
			}})
		}
		out = append(out, source{"loaded JSON " + s, m, func() *d.DxValue {
			v := d.NewObject(true)
			if err := v.LoadFromJson(clone(b), false); err != nil {
				panic(err)
			}
			return v
		}})
		out = append(out, source{"clone of JSON " + s, m, func() *d.DxValue {
			v, err := d.NewValueFromJson(clone(b), false, false)
			if err != nil {
				panic(err)
			}
			return v.Clone(false)
		}})
	}
	for _, fd := range formatDocs() {
		fd := fd
		if !fd.good || fd.m == nil {
			continue
		}
		k := 0
		eachNode(fd.m, func(*M) { k++ })
		if k > 12 {
			continue
		}
		for _, cached := range []bool{false, true} {
			cached := cached
			out = append(out, source{fmt.Sprintf("%s (cached %v)", fd.name, cached), fd.m, func() *d.DxValue {
				v, err := decodeBy(fd.f.name, string(fd.b), cached)
				if err != nil {
					panic(err)
				}
				return v
			}})
		}
	}
	for bi, fd := range bigFdocs() {
		if k := len(modelNodes(fd.m)); k > 60 || bi%3 != 0 && fd.f.name != "json" {
			continue
		}
		fd := fd
		out = append(out, source{fd.name, fd.m, func() *d.DxValue {
			v, err := decodeBy(fd.f.name, string(fd.b), false)
			if err != nil {
				panic(err)
			}
			return v
		}})
	}
	for _, m := range append(typedTrees()[:4], mObj("x", mExt(5, []byte{1}), "n", mK(KNan), "t", mTime(time.Date(2021, 5, 6, 7, 8, 9, 0, time.UTC)), "f", mFlt(1.5)), mArr(mStr("12"), mBin([]byte("b")), mStr("x\n")), mStr("\\n"), mInt(7)) {
		m := m
		out = append(out, source{"built " + m.String(), m, func() *d.DxValue { return build(m, false) }})
		// partly changed after decoding
		if jsonable(m) && m.K == KObj {
			out = append(out, source{"decoded then extended " + m.String(), m, func() *d.DxValue {
				v, _ := d.NewValueFromJson(refEncode(m), false, false)
				v.SetKeyString("new\n", "t\\")
				return v
			}})
		}
	}
	return out
}

func runC18(c *Ctx) {
	c18alike(c)
	c18wide(c)
	depth := 3
	srcs := c18sources()
	c.Bound("values", fmt.Sprint(len(srcs)))
	c.Bound("sequences", fmt.Sprintf("all of length <= 2 over root and node reads, all of length %d over root reads and String of every node (values of few nodes: over all reads in thorough)", depth))
	for _, s := range srcs {
		s := s
		var paths [][]int
		posPaths(s.m, nil, &paths)
		if len(paths) > 7 {
			paths = append(append([][]int{}, paths[:4]...), paths[len(paths)-3:]...)
		}
		root := rootReads(s.m)
		var nodes, light []readOp
		for _, p := range paths {
			no := nodeOps(p)
			nodes = append(nodes, no...)
			light = append(light, no[0], no[1])
		}
		all := append(append([]readOp{}, root...), nodes...)
		heavy3 := append(append([]readOp{}, root...), light...)
		if !c.quick && len(all) < 80 {
			heavy3 = all
		}
		fresh := func(t *T, ops []readOp) []string {
			r := make([]string, len(ops))
			for i, o := range ops {
				v := s.mk()
				r[i] = o.f(v)
				t.Op()
			}
			return r
		}
		for i := range all {
			i := i
			c.Case(func() string { return fmt.Sprintf("%s: %s, then every read", s.name, all[i].name) }, func(t *T) {
				want := fresh(t, all)
				for j, o := range all {
					v := s.mk()
					a := all[i].f(v)
					b := o.f(v)
					b2 := o.f(v)
					heldCheck(t, func() string { return s.name + ": " + all[i].name + ", " + o.name + " twice" })
					t.Op()
					t.Op()
					t.Op()
					if a != want[i] {
						t.Failf("%s: %s gives %q, on another fresh value %q", s.name, all[i].name, short(a), short(want[i]))
					}
					if b != want[j] {
						t.Failf("%s: after %s, %s gives %q, on a fresh value %q", s.name, all[i].name, o.name, short(b), short(want[j]))
					}
					if b2 != want[j] {
						t.Failf("%s: after %s and %s, %s gives %q, on a fresh value %q", s.name, all[i].name, o.name, o.name, short(b2), short(want[j]))
					}
				}
				t.State(s.name + all[i].name)
				t.Trace()
			})
			if c.Stop() {
				return
			}
		}
		// deeper: pairs, then every third read on the same value one after another from fresh values
		for i := range heavy3 {
			i := i
			c.Case(func() string { return fmt.Sprintf("%s: %s, then all pairs of reads", s.name, heavy3[i].name) }, func(t *T) {
				want := fresh(t, heavy3)
				for j := range heavy3 {
					for k := range heavy3 {
						v := s.mk()
						heavy3[i].f(v)
						heavy3[j].f(v)
						got := heavy3[k].f(v)
						t.c.ops += 3
						if got != want[k] {
							t.Failf("%s: after %s and %s, %s gives %q, on a fresh value %q", s.name, heavy3[i].name, heavy3[j].name, heavy3[k].name, short(got), short(want[k]))
						}
					}
				}
				t.Trace()
			})
			if c.Stop() {
				return
			}
		}
	}
}
