package main

import (
	"fmt"
	"strings"
	"unicode"

	d "github.com/suiyunonghen/dxsvalue"
	"github.com/suiyunonghen/dxsvalue/verifrt"
)

// C08: YAML block documents. C09: anchors, aliases and merge keys.

func init() {
	register("C08", runC08,
		"every tree up to a node bound is rendered in every layout (indentation per container, sequence alignment, compact or separate nested mappings, gaps, comments, blank lines, line ends), decoded by every entry point and compared with the tree",
		"the renderer (harness/c08.go) defines the covered block subset; numbers compare numerically")
	register("C09", runC09,
		"every document combining anchor, alias, merge and redefinition forms up to a bound is decoded and compared with a reference expander; then every node is changed in turn and the rest must stay; all ordered pairs of documents are decoded in sequence and must give what each gives alone",
		"merged entries are compared without regard to their position")
}

// ---------------------------------------------------------------- document model and renderer

// Y is a YAML node.
type Y struct {
	k      Kind // KObj, KArr or KStr (a scalar)
	keys   []string
	vals   []*Y
	text   string // scalar text as written
	m      *M     // scalar value
	anchor string
	alias  string
}

func yOf(m *M) *Y {
	switch m.K {
	case KObj, KArr:
		y := &Y{k: m.K, keys: m.Keys}
		for _, v := range m.Vals {
			y.vals = append(y.vals, yOf(v))
		}
		return y
	}
	return &Y{k: KStr, text: yamlText(m), m: m}
}

func yamlText(m *M) string {
	switch m.K {
	case KStr:
		return m.S
	case KTrue:
		return "true"
	case KFalse:
		return "false"
	}
	return string(refEncode(m))
}

type layout struct {
	c       *chooser // non-nil: indentation is chosen per container
	indent  int
	aligned bool // sequences in mappings at the key's column
	compact bool // "- k: v" instead of "-" and a nested block
	gap     int  // spaces after the dash
	cgap    int  // spaces after the colon
	eol     string
	final   bool // final line end
	noise   int
}

const nNoise = 12

func (l *layout) in() int {
	if l.c != nil {
		return l.c.pick(3) + 1
	}
	return l.indent
}

type yline struct {
	col  int
	text string
}

func (l *layout) block(y *Y, col int) []yline {
	var out []yline
	head := func(col int, lead string, v *Y) (string, bool) { // lead ends without a space
		s := lead
		if v.anchor != "" {
			s += strings.Repeat(" ", l.cgap) + "&" + v.anchor
		}
		if v.alias != "" {
			return s + strings.Repeat(" ", l.cgap) + "*" + v.alias, true
		}
		if v.k == KStr {
			return s + strings.Repeat(" ", l.cgap) + v.text, true
		}
		return s, false
	}
	if y.k == KObj {
		for i, v := range y.vals {
			s, done := head(col, y.keys[i]+":", v)
			out = append(out, yline{col, s})
			if !done {
				c := col
				if v.k == KArr && l.aligned {
				} else {
					c += l.in()
				}
				out = append(out, l.block(v, c)...)
			}
		}
		return out
	}
	for _, v := range y.vals {
		if v.k == KStr || v.alias != "" {
			s := "-" + strings.Repeat(" ", l.gap)
			if v.anchor != "" {
				s += "&" + v.anchor + " "
			}
			if v.alias != "" {
				s += "*" + v.alias
			} else {
				s += v.text
			}
			out = append(out, yline{col, s})
			continue
		}
		if v.anchor != "" {
			out = append(out, yline{col, "-" + strings.Repeat(" ", l.gap) + "&" + v.anchor})
			out = append(out, l.block(v, col+l.in())...)
			continue
		}
		if v.k == KObj && l.compact {
			sub := l.block(v, col+1+l.gap)
			sub[0] = yline{col, "-" + strings.Repeat(" ", l.gap) + sub[0].text}
			out = append(out, sub...)
			continue
		}
		out = append(out, yline{col, "-"})
		out = append(out, l.block(v, col+l.in())...)
	}
	return out
}

func (l *layout) render(y *Y) string {
	lines := l.block(y, 0)
	var out []string
	ind := func(n int) string { return strings.Repeat(" ", n) }
	switch l.noise {
	case 1:
		out = append(out, "")
	case 2:
		out = append(out, "# head: comment")
	case 6:
		out = append(out, "   # - x: y", "")
	}
	for _, x := range lines {
		s := ind(x.col) + x.text
		switch l.noise {
		case 1: // blank lines
			out = append(out, s, "")
		case 2: // comments at column 0
			out = append(out, s, "# a: b")
		case 3: // comments at the line's own column
			out = append(out, ind(x.col)+"#- c", s)
		case 4: // deeper comments and whitespace-only lines
			out = append(out, s, ind(x.col+5)+"# d: e", ind(x.col+1))
		case 5: // trailing comments
			out = append(out, s+" # t: u - v")
		case 6: // trailing spaces
			out = append(out, s+"  ")
		case 7: // trailing comment after several spaces, then blank line with spaces
			out = append(out, s+"   #x", "    ")
		case 8: // comment markers inside comments
			out = append(out, s+" # one # two: &a *b", "# # #")
		case 9: // empty comments
			out = append(out, s+" #", "#")
		case 10: // trailing tabs
			out = append(out, s+"\t", ind(x.col)+"\t")
		case 11: // long comments
			out = append(out, s+" #"+strings.Repeat("-", 300), "#"+strings.Repeat(" :", 200))
		default:
			out = append(out, s)
		}
	}
	r := strings.Join(out, l.eol)
	if l.final {
		r += l.eol
	}
	return r
}

func layouts(noises int) []*layout {
	var out []*layout
	for _, indent := range []int{1, 2, 4} {
		for _, al := range []bool{false, true} {
			for _, co := range []bool{true, false} {
				for _, gap := range []int{1, 3} {
					for _, eol := range []string{"\n", "\r\n"} {
						for _, fin := range []bool{true, false} {
							for n := 0; n < noises; n++ {
								out = append(out, &layout{indent: indent, aligned: al, compact: co, gap: gap, cgap: gap, eol: eol, final: fin, noise: n})
							}
						}
					}
				}
			}
		}
	}
	return out
}

func emptyInside(m *M) bool {
	if m.K <= KArr && len(m.Vals) == 0 {
		return true
	}
	for _, v := range m.Vals {
		if emptyInside(v) {
			return true
		}
	}
	return false
}

func yamlDecide(t *T, m *M, doc string, o eqOpt, all bool) {
	for i, dec := range yamlDecs {
		if !all && i != 0 && i != 3 {
			continue
		}
		got, err := dec.f([]byte(doc))
		t.Op()
		if err != nil {
			t.Failf("%s rejects %v: %v\n%s", dec.name, m, err, quoteDoc(doc))
		}
		if s := full(got, m, o); s != "" {
			t.Failf("%s of %v: %s\n%s", dec.name, m, s, quoteDoc(doc))
		}
		if dec.cached {
			d.FreeValue(got)
		}
		t.Trace()
	}
}

func quoteDoc(s string) string { return fmt.Sprintf("%s\n(%q)", s, s) }

func yamlScalars() []*M {
	var l []*M
	for _, i := range []int64{0, 1, -1, 7, 10, 42, -305, 65536, 123456789, -123456789, 1 << 31, 1<<53 - 1, 1 << 53, 1<<53 + 1, -1<<53 - 1, 1<<62 + 1, 9223372036854775807, -9223372036854775808} {
		l = append(l, mInt(i))
	}
	for _, f := range []float64{0.5, -1.5, 3.14159, 1e-3, 100.25, 2.5e10, 1e100} {
		l = append(l, mDbl(f))
	}
	l = append(l, mK(KTrue), mK(KFalse))
	for _, s := range []string{"a", "word", "two words", "a:b", "http://h:80/p?q=1", "x#y", "1a", "1.2.3", "v1.0", "-x", "--", "e", "1e", "true1", "tru", "Truex", "é中😀", "a - b", "a, b", "it's", "100%", "x=y", "a/b/c", "back\\slash", "a\\nb", "(p)", "a.b", "12:30", "2020-01-02", "falsey", "+a", "a?b", "x:"[:1], "C:\\d"} {
		l = append(l, mStr(s))
	}
	return l
}

func runC08(c *Ctx) {
	c08alike(c)
	c08blobs(c)
	c08odd(c)
	c08wide(c)
	c08multi(c)
	n := 4
	if !c.quick {
		n = 5
	}
	c.Bound("tree_nodes", fmt.Sprint(n))
	ls := layouts(nNoise)
	c.Bound("layouts", fmt.Sprint(len(ls)))
	leaves := []*M{mInt(5), mStr("w x")}
	shapes(n, leaves, []string{"a", "b"}, "cont", c.Stop, func(m *M) {
		if emptyInside(m) {
			return
		}
		y := yOf(m)
		c.Case(func() string { return "all layouts of " + m.String() }, func(t *T) {
			for i, l := range ls {
				yamlDecide(t, m, l.render(y), jsonEq, i%16 == 0)
			}
			// every combination of indentations
			for _, al := range []bool{false, true} {
				for _, co := range []bool{false, true} {
					ch := &chooser{}
					for {
						ch.pos = 0
						l := &layout{c: ch, aligned: al, compact: co, gap: 1, cgap: 1, eol: "\n", final: true}
						doc := l.render(y)
						yamlDecide(t, m, doc, jsonEq, false)
						t.State(doc)
						if !ch.next() {
							break
						}
					}
				}
			}
		})
	})
	// larger trees in a few layouts
	big := n + 2
	c.Bound("tree_nodes_plain_layouts", fmt.Sprint(big))
	lb := []*layout{{indent: 2, compact: true, gap: 1, cgap: 1, eol: "\n", final: true}, {indent: 2, aligned: true, compact: true, gap: 1, cgap: 1, eol: "\n", noise: 3}, {indent: 4, gap: 3, cgap: 1, eol: "\r\n", final: true, noise: 4}, {indent: 1, aligned: true, gap: 1, cgap: 2, eol: "\n", noise: 5}}
	shapes(big, []*M{mStr("x")}, []string{"a", "b"}, "cont", c.Stop, func(m *M) {
		if emptyInside(m) {
			return
		}
		y := yOf(m)
		c.Case(func() string { return "plain layouts of " + m.String() }, func(t *T) {
			for _, l := range lb {
				doc := l.render(y)
				yamlDecide(t, m, doc, jsonEq, false)
				t.State(doc)
			}
			for _, co := range []bool{true, false} {
				ch := &chooser{}
				for {
					ch.pos = 0
					l := &layout{c: ch, aligned: !co, compact: co, gap: 1, cgap: 1, eol: "\n", final: true}
					yamlDecide(t, m, l.render(y), jsonEq, false)
					if !ch.next() {
						break
					}
				}
			}
		})
	})
	// scalars and keys in every position
	var xs []*M
	xs = append(xs, yamlScalars()...)
	for _, x := range xs {
		for _, m := range []*M{mObj("k", x), mArr(x), mObj("a", mInt(1), "k", x, "z", mStr("e")), mArr(x, x, mArr(x)), mObj("p", mObj("q", x), "r", mArr(x, mObj("s", x, "t", x)))} {
			m := m
			c.Case(func() string { return "scalar in " + m.String() }, func(t *T) {
				for i, l := range ls {
					doc := l.render(yOf(m))
					yamlDecide(t, m, doc, jsonEq, i%16 == 0)
					t.State(doc)
				}
			})
		}
	}
	for _, k := range []string{"a", "key", "two words", "é", "中文", "1", "0", "a-b", "a.b", "a_b", "true", "k#", "x/y", "a\\b", "\\u0041", "k1", "a,b", "A", "a:b", "h://x", "::a", "-x", "--", "-1", "-:"[:1] + "k"} {
		for _, m := range []*M{mObj(k, mInt(1)), mObj("x", mObj(k, mStr("v"), "z", mObj(k, mInt(2)))), mArr(mObj(k, mInt(1), "q", mArr(mObj(k, mInt(3))))), mObj(k, mArr(mStr("1"+"a")), "y", mInt(3))} {
			m := m
			c.Case(func() string { return "key in " + m.String() }, func(t *T) {
				for i, l := range ls {
					doc := l.render(yOf(m))
					yamlDecide(t, m, doc, jsonEq, i%16 == 0)
					t.State(doc)
				}
			})
		}
	}
	for _, m := range yamlBig() {
		c.Case(func() string { return "large " + short(m.String()) }, func(t *T) {
			for i, l := range ls {
				if i%8 == 0 || i%8 == i/8%8 {
					yamlDecide(t, m, l.render(yOf(m)), jsonEq, i%16 == 0)
				}
			}
			for _, l := range lb {
				yamlDecide(t, m, l.render(yOf(m)), jsonEq, true)
			}
		})
	}
	// printable characters and pairs of ASCII characters inside plain text; numbers
	runeSweep(512, func(lo rune, rs []rune) {
		var ps []rune
		for _, r := range rs {
			if r >= 0xa1 && unicode.IsPrint(r) && r != 0xfeff {
				ps = append(ps, r)
			}
		}
		if len(ps) == 0 {
			return
		}
		c.Case(func() string { return fmt.Sprintf("runes from U+%04X", lo) }, func(t *T) {
			m := runeTree(ps)
			yamlDecide(t, m, lb[0].render(yOf(m)), jsonEq, false)
			yamlDecide(t, m, lb[2].render(yOf(m)), jsonEq, false)
		})
	})
	for x := byte(0x21); x < 0x7f; x++ {
		x := x
		c.Case(func() string { return fmt.Sprintf("plain text with %q", x) }, func(t *T) {
			m := mArr()
			for y := byte(0x21); y < 0x7f; y++ {
				m.Vals = append(m.Vals, mStr("a"+string([]byte{x, y})+"b"), mStr("w "+"p"+string([]byte{x, y})+"q"), mObj("k", mStr("v"+string([]byte{x, y})+"w")))
			}
			for _, l := range lb {
				yamlDecide(t, m, l.render(yOf(m)), jsonEq, false)
			}
		})
	}
	nums := append(decimals(3000), longNumbers()...)
	for i := 0; i < len(nums); i += 200 {
		part := nums[i:min(i+200, len(nums))]
		c.Case(func() string { return "numbers from " + part[0] }, func(t *T) {
			m := mArr()
			for j, s := range part {
				x, err := refJSON([]byte(s))
				if err != nil {
					panic(err)
				}
				_ = j
				m.Vals = append(m.Vals, x)
			}
			y := yOf(m)
			for j := range y.vals {
				y.vals[j].text = part[j]
			}
			yamlDecide(t, m, lb[0].render(y), jsonEq, false)
		})
	}
	for i := -3000; i < 3000; i += 100 {
		i := i
		c.Case(func() string { return fmt.Sprintf("integers from %d", i) }, func(t *T) {
			m := mArr()
			for j := i; j < i+100; j++ {
				m.Vals = append(m.Vals, mInt(int64(j)), mObj("k", mInt(int64(j))))
			}
			yamlDecide(t, m, lb[0].render(yOf(m)), jsonEq, false)
		})
	}
	// back from every depth to every depth at once
	maxD := 70
	if !c.quick {
		maxD = 200
	}
	c.Bound("dedents", fmt.Sprintf("from every depth <= %d to every smaller depth", maxD))
	for dep := 1; dep <= maxD; dep++ {
		dep := dep
		c.Case(func() string { return fmt.Sprintf("back from depth %d", dep) }, func(t *T) {
			for r := 0; r < dep; r++ {
				for kind := 0; kind < 4; kind++ {
					// kind: maps, lists, both in turn, sibling is a container
					m := mStr("bottom")
					for i := dep; i >= 0; i-- {
						list := kind == 1 || kind == 2 && i%2 == 1
						sib := mInt(int64(i))
						if kind == 3 {
							sib = mObj("s", mArr(mStr("t")), "u", mInt(2))
						}
						switch {
						case list && i == r:
							m = mArr(m, sib)
						case list:
							m = mArr(m)
						case i == r:
							m = mObj("k", m, "l", sib)
						default:
							m = mObj("k", m)
						}
					}
					l := lb[(dep+r)%len(lb)]
					yamlDecide(t, m, l.render(yOf(m)), jsonEq, r%16 == 0)
				}
			}
		})
	}
	// lengths and depth
	for _, n := range []int{10, 33, 100, 300} {
		o, a, dp, da := objOfLen(n), arrOfLen(n), mInt(1), mInt(1)
		for i := 0; i < n; i++ {
			dp = mObj("k", dp, "l", mInt(int64(i)))
			da = mArr(da, mInt(int64(i)))
		}
		for _, m := range []*M{o, a, mObj("x", o, "y", a), mArr(o, o, a), dp, da, mObj(strOfLen(n), mStr(strOfLen(n*20)))} {
			m := m
			c.Case(func() string { return fmt.Sprintf("size %d", n) }, func(t *T) {
				for _, l := range lb {
					yamlDecide(t, m, l.render(yOf(m)), jsonEq, true)
				}
			})
		}
	}
}

// ---------------------------------------------------------------- C09

type yenv struct{ vals map[string]*M }

// expand gives the tree a document denotes.
func (e *yenv) expand(y *Y) *M {
	if y.alias != "" {
		return e.vals[y.alias].clone()
	}
	var m *M
	switch y.k {
	case KObj:
		m = &M{K: KObj}
		own := map[string]bool{}
		for _, k := range y.keys {
			own[k] = true
		}
		for i, v := range y.vals {
			if y.keys[i] == "<<" {
				src := e.vals[v.alias]
				for j, k := range src.Keys {
					if !own[k] {
						m.Keys = append(m.Keys, k)
						m.Vals = append(m.Vals, src.Vals[j].clone())
					}
				}
				continue
			}
			m.Keys = append(m.Keys, y.keys[i])
			m.Vals = append(m.Vals, e.expand(v))
		}
	case KArr:
		m = &M{K: KArr}
		for _, v := range y.vals {
			m.Vals = append(m.Vals, e.expand(v))
		}
	default:
		m = y.m.clone()
	}
	if y.anchor != "" {
		e.vals[y.anchor] = m
	}
	return m
}

func ySc(m *M) *Y     { return yOf(m) }
func yAl(n string) *Y { return &Y{alias: n, k: KStr} }
func yAn(n string, y *Y) *Y {
	z := *y
	z.anchor = n
	return &z
}
func yMap(kv ...interface{}) *Y {
	y := &Y{k: KObj}
	for i := 0; i+1 < len(kv); i += 2 {
		y.keys = append(y.keys, kv[i].(string))
		y.vals = append(y.vals, kv[i+1].(*Y))
	}
	return y
}
func ySeq(v ...*Y) *Y { return &Y{k: KArr, vals: v} }

// anchored values; isMap tells whether they can be merged.
func yDefs(n string) []struct {
	y     *Y
	isMap bool
} {
	s := func(x string) *Y { return ySc(mStr(x)) }
	i := func(x int64) *Y { return ySc(mInt(x)) }
	return []struct {
		y     *Y
		isMap bool
	}{
		{yAn(n, i(5)), false},
		{yAn(n, s("two words")), false},
		{yAn(n, ySc(mK(KTrue))), false},
		{yAn(n, yMap("p", i(1))), true},
		{yAn(n, yMap("p", s("v"), "q", yMap("r", i(2)), "s", ySeq(i(3), s("t")))), true},
		{yAn(n, ySeq(i(1), yMap("u", i(2)))), false},
		{ySeq(yAn(n, i(6)), i(7)), false},
		{ySeq(i(0), yAn(n, yMap("p", i(1), "q", yMap("z", i(8))))), true},
		{ySeq(yAn(n, ySeq(i(1), i(2)))), false},
		{yMap("in", yAn(n, yMap("p", i(4), "w", i(9))), "af", i(1)), true},
		{yMap("in", yAn(n, s("x")), "l", yAl(n)), false},
	}
}

// uses of an anchored value.
func yUses(n string, isMap bool) []*Y {
	s := func(x string) *Y { return ySc(mStr(x)) }
	i := func(x int64) *Y { return ySc(mInt(x)) }
	u := []*Y{
		yAl(n),
		ySeq(yAl(n)),
		ySeq(i(1), yAl(n), yAl(n), s("e")),
		yMap("c", yAl(n), "d", i(1), "e", yAl(n)),
		ySeq(yMap("c", yAl(n), "d", yAl(n))),
		i(9),
	}
	if isMap {
		u = append(u,
			yMap("<<", yAl(n)),
			yMap("<<", yAl(n), "m", i(2)),
			yMap("m", i(2), "<<", yAl(n)),
			yMap("m", i(2), "<<", yAl(n), "o", i(3)),
			yMap("p", s("own"), "<<", yAl(n)),
			yMap("<<", yAl(n), "p", s("own")),
			yMap("<<", yAl(n), "p", yMap("own", i(1))),
			yMap("<<", yAl(n), "q", yMap("own", i(1)), "p", ySeq(i(1))),
			yMap("q", yMap("own", i(1)), "<<", yAl(n), "m", yAl(n)),
			ySeq(yMap("<<", yAl(n), "m", i(2)), yMap("m", i(2), "<<", yAl(n))),
			yMap("g", yMap("<<", yAl(n), "p", i(0)), "h", yMap("m", i(3))),
		)
	}
	return u
}

// replaceAt returns a copy of m in which the node reached by the path is x.
func replaceAt(m *M, path []int, x *M) *M {
	if len(path) == 0 {
		return x
	}
	n := *m
	n.Vals = append([]*M(nil), m.Vals...)
	n.Vals[path[0]] = replaceAt(m.Vals[path[0]], path[1:], x)
	return &n
}

func allPaths(m *M, pre []int, f func(p []int, n *M)) {
	f(pre, m)
	for i, v := range m.Vals {
		allPaths(v, append(append([]int(nil), pre...), i), f)
	}
}

func walk(v *d.DxValue, p []int) *d.DxValue {
	for _, i := range p {
		v = v.ValueByIndex(i)
	}
	return v
}

func yamlIndependent(t *T, dec decoder, doc string) {
	base, err := dec.f([]byte(doc))
	if err != nil {
		t.Failf("%s: %v\n%s", dec.name, err, quoteDoc(doc))
	}
	m := observe(base)
	allPaths(m, nil, func(p []int, n *M) {
		if len(p) == 0 {
			return
		}
		v, _ := dec.f([]byte(doc))
		x := walk(v, p)
		want := m
		switch n.K {
		case KObj:
			x.SetKeyString("new", "changed")
			y := n.clone()
			y.Keys, y.Vals = append(y.Keys, "new"), append(y.Vals, mStr("changed"))
			want = replaceAt(m, p, y)
		case KArr:
			x.SetIndexString(-1, "changed")
			y := n.clone()
			y.Vals = append(y.Vals, mStr("changed"))
			want = replaceAt(m, p, y)
		default:
			if x.ReadOnly() {
				return
			}
			x.SetString("changed")
			want = replaceAt(m, p, mStr("changed"))
		}
		t.Op()
		if s := full(v, want, jsonEq); s != "" {
			t.Failf("%s: changing node %v disturbs another: %s\n%s", dec.name, p, s, quoteDoc(doc))
		}
		t.Trace()
	})
}

func runC09(c *Ctx) {
	c09alike(c)
	c09wide(c)
	lay := []*layout{{indent: 2, compact: true, gap: 1, cgap: 1, eol: "\n", final: true}, {indent: 1, aligned: true, compact: true, gap: 1, cgap: 1, eol: "\n"}, {indent: 4, gap: 2, cgap: 1, eol: "\r\n", final: true, noise: 1}, {indent: 3, compact: false, gap: 1, cgap: 1, eol: "\n", final: true, noise: 3}, {indent: 2, compact: true, gap: 1, cgap: 1, eol: "\r\n", noise: 8}, {indent: 2, aligned: true, gap: 2, cgap: 3, eol: "\n", noise: 6}}
	eq := eqOpt{numeric: true, unord: true}
	var docs []string // also used for the pairs
	decide := func(y *Y, keep, indep bool) {
		e := &yenv{vals: map[string]*M{}}
		want := e.expand(y)
		if keep {
			docs = append(docs, lay[0].render(y))
		}
		c.Case(func() string { return lay[0].render(y) }, func(t *T) {
			for li, l := range lay {
				doc := l.render(y)
				yamlDecide(t, want, doc, eq, li == 0)
				t.State(doc)
				if indep && li < 2 {
					yamlIndependent(t, yamlDecs[li], doc)
					yamlIndependent(t, yamlDecs[3], doc)
				}
			}
		})
	}
	for di, def := range yDefs("a") {
		uses := yUses("a", def.isMap)
		for ui, u1 := range uses {
			decide(yMap("x", def.y, "y", u1), true, true)
			decide(ySeq(def.y, u1), false, true)
			decide(yMap("o", yMap("x", def.y), "y", u1, "n", ySc(mInt(1))), false, true)
			for _, u2 := range uses {
				decide(yMap("x", def.y, "y", u1, "z", u2), false, false)
				if ui > 2 {
					decide(yMap("x", def.y, "w", ySeq(u1, u2)), false, false)
				}
			}
			// anchored use, then used itself
			b := yAn("b", u1)
			if u1.alias == "" && u1.k == KObj {
				for _, u2 := range yUses("b", true) {
					decide(yMap("x", def.y, "y", b, "z", u2, "zz", yAl("a")), di%3 == 0, ui%2 == 0)
				}
			}
			// redefinition: the most recent value counts
			for _, def2 := range yDefs("a") {
				uses2 := yUses("a", def2.isMap)
				for _, u2 := range uses2 {
					if c.quick && (di+ui)%3 != 0 {
						break
					}
					decide(yMap("x", def.y, "y", u1, "x2", def2.y, "z", u2), false, false)
				}
			}
			// a second anchor must not interfere
			for _, n2 := range []string{"ab", "A", "b", "1a", "a-"} {
				for i, def2 := range yDefs(n2) {
					if n2 != "ab" && i > 3 && i != di {
						continue
					}
					decide(yMap("x", def.y, "x2", def2.y, "y", u1, "z", yAl(n2), "zz", yAl("a")), false, false)
				}
			}
			if !c.quick {
				for _, u2 := range uses {
					for _, u3 := range uses {
						decide(yMap("x", def.y, "y", u1, "z", u2, "w", u3), false, false)
					}
				}
			}
		}
	}
	// large anchored values: many entries, many anchors, deep ones, long names
	for _, n := range []int{5, 8, 9, 17, 33, 70} {
		o, a, many, deep := &Y{k: KObj}, &Y{k: KArr}, &Y{k: KObj}, ySc(mInt(1))
		for i := 0; i < n; i++ {
			o.keys, o.vals = append(o.keys, "k"+itoa(i)), append(o.vals, ySc(mInt(int64(i))))
			a.vals = append(a.vals, ySc(mStr("s"+itoa(i))))
			many.keys, many.vals = append(many.keys, "d"+itoa(i)), append(many.vals, yAn("n"+itoa(i), yMap("v", ySc(mInt(int64(i))), "l", ySeq(ySc(mStr("t"+itoa(i)))))))
			if i%2 == 0 {
				deep = yMap("m", deep, "i", ySc(mInt(int64(i))))
			} else {
				deep = ySeq(deep, ySc(mStr("w"+itoa(i))))
			}
		}
		for i := 0; i < n; i++ {
			many.keys, many.vals = append(many.keys, "u"+itoa(i)), append(many.vals, yAl("n"+itoa(n-1-i)))
		}
		for _, u := range yUses("a", true) {
			decide(yMap("x", yAn("a", o), "y", u, "z", yAl("a")), false, n < 20)
		}
		for _, u := range yUses("a", false) {
			decide(yMap("x", yAn("a", a), "y", u, "z", yAl("a")), false, n < 20)
			if n < 40 {
				decide(yMap("x", yAn("a", deep), "y", u, "z", yAl("a")), false, n < 20)
			}
		}
		decide(many, true, n < 20)
		rep := ySeq(yAn("a", o))
		for i := 0; i < n; i++ {
			rep.vals = append(rep.vals, yAl("a"))
		}
		decide(rep, false, n < 10)
		long := strOfLen(n * 4)
		decide(yMap("x", yAn(long, o), "x2", yAn(long[:n*4-1], a), "x3", yAn(long+"b", ySc(mStr("scalar"))), "y", yAl(long), "y2", yAl(long[:n*4-1]), "y3", yAl(long+"b")), false, n < 20)
	}
	// sequences of documents: nothing may leak from one to the next
	docs = append(docs, "y: *a\n", "y:\n  <<: *a\n  m: 1\n", "- *a\n", "x: &a\n  k: 1\nbad line\n", "x: &a 5\n- bad\n", "k: v\n", "", "a: *b\nb: *a\n", "q: &a\n")
	c.Bound("document_pairs", fmt.Sprint(len(docs)*len(docs)))
	type res struct {
		m   *M
		err bool
	}
	run := func(dec decoder, doc string) res {
		v, err := dec.f([]byte(doc))
		if err != nil {
			return res{nil, true}
		}
		m := observe(v)
		if dec.cached {
			d.FreeValue(v)
		}
		return res{m, false}
	}
	for _, d1 := range docs {
		d1 := d1
		c.Case(func() string { return "then any document after\n" + d1 }, func(t *T) {
			for i, dec := range yamlDecs {
				for _, d2 := range docs {
					verifrt.ResetPools()
					alone := run(dec, d2)
					verifrt.ResetPools()
					run(yamlDecs[(i+1)%len(yamlDecs)], d1)
					run(dec, d1)
					got := run(dec, d2)
					t.Op()
					if alone.err != got.err || !alone.err && diff(alone.m, got.m, eqOpt{}) != "" {
						t.Failf("%s of\n%s\nafter\n%s\ngives %v (error %v) instead of %v (error %v)", dec.name, d2, d1, got.m, got.err, alone.m, alone.err)
					}
					t.Trace()
				}
			}
			t.State(d1)
		})
	}
}
