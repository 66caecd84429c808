package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf16"

	d "github.com/suiyunonghen/dxsvalue"
)

// C25: formats are interchangeable. For every tree the graph whose nodes are (format, document bytes) and whose
// edges are "decode in some mode, optionally read or clone, encode with some encoder" is explored breadth first until
// no new document appears (or the chain bound is reached); every document must denote the tree, and every decoder
// must read it back as the tree.

func init() {
	register("C25", runC25,
		"for every tree the graph of (format, document) nodes and decode-touch-encode edges is explored breadth first from several source spellings until closure or the chain bound; every node is decided by the reference decoders and by every decoder of the library against the tree",
		"numbers compare by value", "once the graph closes the result covers format chains of every length")
}

// jsonSpell renders a tree as JSON in unusual but standard spellings.
func jsonSpell(m *M, style int) []byte {
	var b strings.Builder
	str := func(s string) {
		b.WriteByte('"')
		for _, r := range s {
			switch {
			case style == 0 || style == 3 && r > 0x7e: // everything as \u escapes
				us := []uint16{uint16(r)}
				if r > 0xffff {
					us = utf16.Encode([]rune{r})
				}
				for _, u := range us {
					if style == 3 {
						fmt.Fprintf(&b, "\\u%04x", u)
					} else {
						fmt.Fprintf(&b, "\\u%04X", u)
					}
				}
			case r == '/' && style == 1:
				b.WriteString("\\/")
			case r == '"' || r == '\\':
				b.WriteByte('\\')
				b.WriteRune(r)
			case r < 0x20:
				if i := strings.IndexRune("\b\f\n\r\t", r); i >= 0 {
					b.WriteByte('\\')
					b.WriteByte("bfnrt"[i])
				} else {
					fmt.Fprintf(&b, "\\u%04x", r)
				}
			default:
				b.WriteRune(r)
			}
		}
		b.WriteByte('"')
	}
	ws := func() {
		if style == 2 {
			b.WriteString(" \t\r\n ")
		}
	}
	var rec func(m *M)
	rec = func(m *M) {
		ws()
		switch m.K {
		case KObj:
			b.WriteByte('{')
			for i := range m.Keys {
				if i > 0 {
					b.WriteByte(',')
				}
				ws()
				str(m.Keys[i])
				ws()
				b.WriteByte(':')
				rec(m.Vals[i])
			}
			ws()
			b.WriteByte('}')
		case KArr:
			b.WriteByte('[')
			for i := range m.Vals {
				if i > 0 {
					b.WriteByte(',')
				}
				rec(m.Vals[i])
			}
			ws()
			b.WriteByte(']')
		case KStr:
			str(m.S)
		case KInt:
			b.WriteString(strconv.FormatInt(m.I, 10))
		case KFlt, KDbl:
			switch {
			case style == 1:
				b.WriteString(strconv.FormatFloat(m.F, 'E', -1, 64))
			case style == 2 && m.F == math.Trunc(m.F) && math.Abs(m.F) < 1e15:
				b.WriteString(strconv.FormatFloat(m.F, 'f', 2, 64))
			default:
				b.WriteString(strconv.FormatFloat(m.F, 'g', -1, 64))
			}
		case KNan:
			b.WriteString([]string{"nan", "NaN", "NAN", "-nan"}[style])
		case KInf:
			b.WriteString([]string{"inf", "+Inf", "Inf", "+INF"}[style])
		case KTrue:
			b.WriteString("true")
		case KFalse:
			b.WriteString("false")
		default:
			b.WriteString("null")
		}
		ws()
	}
	rec(m)
	return []byte(b.String())
}

type chainNode struct {
	f string
	b string
}

type chainFrom struct {
	prev chainNode
	how  string
	n    int
}

// nonFinite tells whether the tree holds an infinity or NaN.
func nonFinite(m *M) bool {
	found := false
	eachNode(m, func(x *M) {
		found = found || x.K == KNan || x.K == KInf || (x.K == KDbl || x.K == KFlt) && (x.F != x.F || math.IsInf(x.F, 0))
	})
	return found
}

// nfNorm gives NaN and infinity one spelling, whatever kind holds them.
func nfNorm(m *M) *M {
	if m == nil || !nonFinite(m) {
		return m
	}
	switch m.K {
	case KDbl, KFlt:
		switch {
		case m.F != m.F:
			return mK(KNan)
		case math.IsInf(m.F, 1):
			return mK(KInf)
		}
		return mDbl(m.F)
	case KObj, KArr:
		n := &M{K: m.K, Keys: m.Keys}
		for _, v := range m.Vals {
			n.Vals = append(n.Vals, nfNorm(v))
		}
		return n
	}
	return m
}

var formatEq = eqOpt{numeric: true}

func refDecode(f string, b []byte) (*M, error) {
	switch f {
	case "json":
		return refJSON(b)
	case "mp":
		return refMP(b)
	case "bson":
		return refBSON(b)
	}
	return nil, nil
}

func hasNulKey(m *M) bool {
	for _, k := range m.Keys {
		if strings.Contains(k, "\x00") {
			return true
		}
	}
	for _, v := range m.Vals {
		if hasNulKey(v) {
			return true
		}
	}
	return false
}

func exploreChains(t *T, m *M, maxLen, maxNodes int, decLimit int) {
	esc := treeNeedsEscape(m)
	nf := nonFinite(m) // infinities and NaN: the JSON dialect's literals, outside the reference decoder for JSON
	m = nfNorm(m)
	bsonOK := m.K == KObj && !hasNulKey(m)
	from := map[chainNode]chainFrom{}
	var queue []chainNode
	add := func(n chainNode, fr chainFrom) {
		if _, ok := from[n]; !ok {
			from[n] = fr
			queue = append(queue, n)
		}
	}
	for i := 0; i < 4; i++ {
		add(chainNode{"json", string(jsonSpell(m, i))}, chainFrom{how: "source spelling", n: 0})
	}
	if !nf {
		add(chainNode{"json", string(refEncode(m))}, chainFrom{how: "source"})
	}
	add(chainNode{"mp", string(encodeFor("mp", m))}, chainFrom{how: "source"})
	if bsonOK {
		add(chainNode{"bson", string(refBsonEncode(bsonExpect(m)))}, chainFrom{how: "source"})
	}
	if yamlable(m) && !nf {
		add(chainNode{"yaml", string(encodeFor("yaml", m))}, chainFrom{how: "source"})
		add(chainNode{"yaml", string((&layout{indent: 4, compact: false, gap: 2, cgap: 2, eol: "\r\n", final: false}).render(yOf(m)))}, chainFrom{how: "source"})
	}
	type enc struct {
		name, f string
		e       func(v *d.DxValue) []byte
	}
	encs := []enc{{"Value2MsgPack", "mp", mpEncs[0].f}}
	if bsonOK {
		encs = append(encs, enc{"Value2Bson", "bson", bsonEncs[0].f})
	}
	for i, e := range jsonEncs[:6] {
		if e.style == d.JSE_NoEscape && esc {
			continue
		}
		if decLimit < 5 && i == 2 {
			continue
		}
		encs = append(encs, enc{e.name, "json", e.f})
	}
	touches := []struct {
		name string
		f    func(v *d.DxValue) *d.DxValue
	}{
		{"", func(v *d.DxValue) *d.DxValue { return v }},
		{"read", func(v *d.DxValue) *d.DxValue { observe(v); return v }},
		{"clone", func(v *d.DxValue) *d.DxValue { return v.Clone(false) }},
		{"cached clone", func(v *d.DxValue) *d.DxValue { return v.Clone(true) }},
	}
	path := func(n chainNode) string {
		s := ""
		for {
			fr := from[n]
			s = fmt.Sprintf("\n  %s: %s %s", fr.how, n.f, short(strconv.QuoteToASCII(n.b))) + s
			if fr.prev.f == "" {
				return s
			}
			n = fr.prev
		}
	}
	closed := true
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		fr := from[n]
		if n.f != "yaml" && !(nf && n.f == "json") {
			ref, err := refDecode(n.f, []byte(n.b))
			if err != nil {
				t.Failf("not one well-formed document: %v%s", err, path(n))
			}
			if s := diff(m, nfNorm(ref), formatEq); s != "" {
				t.Failf("the document denotes another tree: %s%s", s, path(n))
			}
		}
		t.State(n.f + n.b)
		decs := formats[n.f].decs
		for i, dec := range decs {
			if i >= decLimit && fr.n > 0 && i != len(decs)-1 {
				continue
			}
			v, err := dec.f([]byte(n.b))
			t.Op()
			if err != nil {
				t.Failf("%s rejects it: %v%s", dec.name, err, path(n))
			}
			got := observe(v)
			s := diff(m, nfNorm(got), formatEq)
			if s == "" {
				s = consistent(v, got)
			}
			if s != "" {
				t.Failf("%s: %s%s", dec.name, s, path(n))
			}
			t.Trace()
			if fr.n >= maxLen || len(from) > maxNodes {
				closed = false
				continue
			}
			for _, tc := range touches {
				for _, e := range encs {
					w, _ := dec.f([]byte(n.b))
					w = tc.f(w)
					out := e.e(w)
					t.Op()
					add(chainNode{e.f, string(out)}, chainFrom{n, dec.name + " " + tc.name + " " + e.name, fr.n + 1})
				}
			}
		}
	}
	if closed {
		t.c.Count("trees with closed graph", 1)
	} else {
		t.c.Count("trees cut at the chain bound", 1)
	}
	t.c.Count("documents", int64(len(from)))
}

func runC25(c *Ctx) {
	c25alike(c)
	c25odd(c)
	c25wide(c)
	dl, n, maxLen := 4, 3, 3
	if !c.quick {
		dl, n, maxLen = 8, 4, 6
	}
	c.Bound("tree nodes", strconv.Itoa(n))
	c.Bound("chain length", fmt.Sprintf("closure of the document graph, at most %d re-encodings", maxLen))
	seen := map[string]bool{}
	add := func(m *M) {
		s := m.String()
		if len(s) < 100 {
			if seen[s] {
				return
			}
			seen[s] = true
		}
		c.Case(func() string { return s }, func(t *T) { exploreChains(t, m, maxLen, 400, dl) })
	}
	shapes(n, []*M{mInt(-1), mStr("é\n\"\\/"), mDbl(2.5), mK(KNull)}, []string{"a", "k\\\"\té"}, "any", c.Stop, add)
	var leaves []*M
	for _, i := range boundaryInts() {
		leaves = append(leaves, mInt(i))
	}
	for _, f := range boundaryFloats() {
		leaves = append(leaves, mDbl(f))
	}
	for _, f := range boundaryF32() {
		leaves = append(leaves, mFlt(f))
	}
	for _, s := range append(runeStrings(), "true", "null", "5", "1e3", "\\u0041", "\\n", "a\\", "~", "- x", "k: v", "{}", "%41%zz", "\u2028", "𝄞\\ud834", "</script>&") {
		leaves = append(leaves, mStr(s))
	}
	for _, k := range []int{31, 32, 255, 256, 65535, 65536} {
		leaves = append(leaves, mStr(strOfLen(k)))
		if !c.quick || k < 1000 {
			leaves = append(leaves, arrOfLen(k), objOfLen(min(k, 2000)))
		}
	}
	for _, f := range []float64{math.Inf(1), math.Inf(-1), math.NaN()} {
		leaves = append(leaves, mDbl(f), mArr(mDbl(f), mInt(1), mDbl(f), mObj("inf", mDbl(f), "nan", mDbl(f))))
	}
	leaves = append(leaves, mK(KTrue), mK(KFalse), mArr(), mObj(), mArr(mArr(), mObj()), mObj("", mStr("")))
	for _, l := range leaves {
		cs := contexts(l)
		if c.quick {
			cs = []*M{cs[0], cs[5], cs[9]}
		}
		for _, m := range cs {
			add(m)
		}
		if l.K == KStr && len(l.S) < 100 {
			add(mObj(l.S, l))
			add(mObj("a", mArr(mObj(l.S, mInt(1), "b"+l.S, l))))
		}
	}
	for _, m := range append(append(append(append(jsonTrees(), arrTrees()...), yamlTrees()...), bigTrees()...), yamlBig()...) {
		add(m)
	}
}
