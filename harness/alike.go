package main

import (
	"fmt"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	d "github.com/suiyunonghen/dxsvalue"
	"github.com/suiyunonghen/dxsvalue/verifrt"
)

// Names and texts that resemble each other. Code may recognise a name by less than all of it (its length, its ends, a
// hash, some of its bits); the groups below hold names that such a shortcut confuses. Every property that speaks about
// names is repeated over them.

func uniq(in []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range in {
		if !seen[s] && utf8.ValidString(s) {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func alikeGroups() [][]string {
	var gs [][]string
	add := func(ss ...string) {
		if u := uniq(ss); len(u) > 1 {
			gs = append(gs, u)
		}
	}
	letters := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i*7%26)
		}
		return b
	}
	// one character changed, at every position
	for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 23, 24, 25, 31, 32, 33, 40, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1030} {
		g := []string{string(letters(n))}
		ps := picks(n)
		if n <= 33 {
			ps = nil
			for i := 0; i < n; i++ {
				ps = append(ps, i)
			}
		}
		for _, p := range ps {
			b := letters(n)
			b[p] = (b[p]-'a'+1)%26 + 'a'
			g = append(g, string(b))
		}
		add(g...)
	}
	// the same characters in another order
	var perms func(pre, rest string) []string
	perms = func(pre, rest string) []string {
		if rest == "" {
			return []string{pre}
		}
		var out []string
		for i := range rest {
			out = append(out, perms(pre+rest[i:i+1], rest[:i]+rest[i+1:])...)
		}
		return out
	}
	add(perms("", "abcd")...)
	add(perms("key", "xyz")...)
	for _, n := range []int{9, 17, 33} {
		s := string(letters(n))
		var g []string
		for i := 0; i < n; i++ {
			g = append(g, s[i:]+s[:i])
		}
		add(g...)
	}
	// the same sums, products and hashes
	add("ad", "bc", "cb", "da")
	add("Aa", "BB")
	add("AaAa", "BBBB", "AaBB", "BBAa")
	for _, p := range []string{"costarring liquid", "declinate macallums", "altarage zinke", "creamwove quists", "plumless buckeroo", "hetairas mentioner", "playwright snush",
		"hhuhtvqzb soohcjtgg", "gavneyxrn xuewcigkg", "cpcnffbkx mgzereffa", "eajqzntfk ioklldaca", "sfjxysxms gtoxtshgd", "ccoaosdtp ezzpixnrr", "gykauysxv oyvglyext", "awpiccxnx hxbthiqti",
		"oybeupdft wfsaiwapn", "wuhcpsfgr pgmmokiol", "uglovschp oupjzuoin", "qdkzwpltx osbpnmjyu", "rmedtswrm llqbxlrzj", "wzjlevppy mxdtvvzrf"} {
		add(strings.Fields(p)...)
	}
	// prefixes and repetitions
	var g []string
	for i := 1; i <= 34; i++ {
		g = append(g, strings.Repeat("a", i))
	}
	add(g...)
	g = nil
	for i := 1; i <= 40; i++ {
		g = append(g, string(letters(i)))
	}
	add(g...)
	add("a", "ab", "aba", "abab", "ababa", "b", "ba", "bab", "baba")
	// beginnings and ends
	add("name", " name", "name ", "name\t", "name\n", "\nname", "name\x00", "\x00name", "na me", "name.", "/name", "name/", "\"name", "name\"", "\\name", "name\\", "n\\ame", "Name", "NAME", "namE", "name1", "name01", "")
	// digits
	add("1", "01", "001", "1.0", "1e0", "+1", "-1", "10", "100", "0", "00", "1 ", " 1", "one", "0x1", "true", "false", "null", "nan", "inf")
	g = nil
	for i := 0; i < 45; i++ {
		g = append(g, fmt.Sprintf("measurement-%02d.x", i))
	}
	add(g...)
	g = nil
	for i := 0; i < 30; i++ {
		g = append(g, fmt.Sprintf("%08d", i*37))
	}
	add(g...)
	// upper and lower case
	g = nil
	for i := 0; i < 16; i++ {
		b := []byte("word")
		for j := range b {
			if i>>j&1 == 1 {
				b[j] -= 32
			}
		}
		g = append(g, string(b))
	}
	add(g...)
	// one bit changed
	for _, s := range []string{"k", "kk", "key", "abcdefgh", "identifier"} {
		g = []string{s}
		for p := range s {
			for bit := 0; bit < 7; bit++ {
				b := []byte(s)
				b[p] ^= 1 << bit
				if b[p] >= 32 && b[p] < 127 {
					g = append(g, string(b))
				}
			}
		}
		add(g...)
	}
	// the same low bits of the bytes, and of the code points
	for _, s := range []string{"ä", "é", "ab", "中", "本", "x😀", "Ωmega", "name-ß"} {
		b := []byte(s)
		for i := range b {
			b[i] &= 0x7f
		}
		g = []string{s, string(b)}
		for _, shift := range []rune{0x80, 0x100, 0x200, 0x400, 0x1000, 0x10000} {
			g = append(g, strings.Map(func(r rune) rune { return r ^ shift }, s))
		}
		add(g...)
	}
	// composed and decomposed, confusable, replacement
	add("é", "e\u0301", "e", "E\u0301", "É", "e\u0300", "\ufffd", "\u200be", "e\u200b", "\ufeffe", "е", "ё", "ｅ")
	add("k", "K", "\u212a", "s", "S", "\u017f", "ß", "ss", "SS", "ẞ", "i", "I", "ı", "İ", "σ", "ς", "Σ", "µ", "μ", "Μ", "ﬁ", "fi")
	add("\\n", "\n", "\\u000a", "\\\n", "\\\\n", "n", "\\x0a", "\r", "\r\n")
	return gs
}

func rotated(g []string, by int) []*M {
	var out []*M
	for i := range g {
		out = append(out, mStr(g[(i+by)%len(g)]))
	}
	return out
}

// alikeTrees lists the trees made of one group.
func alikeTrees(g []string) []*M {
	ints := func(base int) *M {
		m := mObj()
		for i := range g {
			m.Keys, m.Vals = append(m.Keys, g[i]), append(m.Vals, mInt(int64(base+i)))
		}
		return m
	}
	texts := mObj()
	texts.Keys, texts.Vals = g, rotated(g, 1)
	rows := &M{K: KArr}
	for i := range g {
		rows.Vals = append(rows.Vals, &M{K: KObj, Keys: []string{g[i], g[(i+1)%len(g)]}, Vals: []*M{mInt(int64(i)), mStr(g[len(g)-1-i])}})
	}
	chain := mStr("end")
	for i := len(g) - 1; i >= max(0, len(g)-40); i-- {
		chain = &M{K: KObj, Keys: []string{g[i]}, Vals: []*M{chain}}
	}
	return []*M{
		ints(0),
		mObj("o", ints(100), "p", texts),
		mObj("l", &M{K: KArr, Vals: append(rotated(g, 0), rotated(g, 1)...)}),
		mObj("r", rows),
		chain,
	}
}

func alikeScalars() []*M {
	return []*M{mInt(1), mStr("1"), mStr("1.0"), mDbl(1.5), mStr("1.5"), mK(KTrue), mStr("true"), mStr("True"), mK(KFalse), mStr("false"), mK(KNull), mStr("null"), mStr(""), mArr(), mStr("[]"), mObj(), mStr("{}"),
		mArr(mInt(1)), mStr("[1]"), mArr(mStr("1")), mObj("a", mInt(1)), mStr(`{"a":1}`), mObj("a", mStr("1")), mInt(0), mStr("0"), mInt(-1), mStr("-1"), mStr("\"1\""), mInt(900), mStr("900"), mStr("9e2"), mDbl(1e300), mStr("1e+300"), mStr("1e300"), mArr(mArr()), mArr(mObj()), mArr(mK(KNull))}
}

// overAlike makes a case of every tree of every group.
func overAlike(c *Ctx, f func(t *T, g []string, m *M)) {
	gs := alikeGroups()
	c.Bound("alike_names", fmt.Sprintf("%d groups of names that resemble each other (one character or bit changed, permuted, equal hashes, prefixes, case, digits), five trees of each", len(gs)))
	for gi, g := range gs {
		for mi, m := range alikeTrees(g) {
			g, m := g, m
			wcase(c, func() string {
				return fmt.Sprintf("alike names, group %d (%s), tree %d", gi, short(fmt.Sprintf("%q", g)), mi)
			}, func(t *T) {
				f(t, g, m)
				t.State(m.String())
			})
		}
		if c.Stop() {
			return
		}
	}
	for rot := 0; rot < 4; rot++ {
		s := alikeScalars()
		m := mObj("l", &M{K: KArr, Vals: append(append([]*M{}, s[rot*9:]...), s[:rot*9]...)})
		wcase(c, func() string { return fmt.Sprintf("values that are spelled alike, rotation %d", rot) }, func(t *T) { f(t, nil, m) })
	}
}

func c01alike(c *Ctx) { overAlike(c, func(t *T, g []string, m *M) { jsonRoundTrip(t, m, false) }) }

func c02alike(c *Ctx) {
	overAlike(c, func(t *T, g []string, m *M) {
		decideJSON(t, string(refEncode(m)), jsonDecs, false)
		decideJSON(t, string(refEncodeEsc(m)), jsonDecs, false)
	})
}

func c03alike(c *Ctx) { overAlike(c, func(t *T, g []string, m *M) { mpRoundTrip(t, m, false) }) }

func c04alike(c *Ctx) {
	overAlike(c, func(t *T, g []string, m *M) {
		for width := 0; width < 3; width++ { // the shortest headers, and wider ones
			e := &mpEnc{}
			if width > 0 {
				e.c = &chooser{always: width}
			}
			e.val(m)
			decideMP(t, m, e.out, mpDecs)
		}
	})
}

func c05alike(c *Ctx) {
	overAlike(c, func(t *T, g []string, m *M) {
		if !hasNulKey(m) {
			bsonRoundTrip(t, m, false)
		}
	})
}

func c06alike(c *Ctx) {
	overAlike(c, func(t *T, g []string, m *M) {
		if hasNulKey(m) {
			return
		}
		b := refBsonEncode(m)
		for _, dec := range bsonDecs {
			v, err := dec.f(clone(b))
			t.Op()
			if err != nil {
				t.Failf("%s: %v", dec.name, err)
			}
			if s := full(v, bsonExpect(m), typedEq); s != "" {
				t.Failf("%s: %s", dec.name, s)
			}
			t.Trace()
		}
	})
}

func yamlWord(s string) bool {
	if s == "" || s[0] < 'a' || s[0] > 'z' {
		return false
	}
	for i := range s {
		if c := s[i]; !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_') {
			return false
		}
	}
	return s != "true" && s != "false" && s != "null" && s != "nan" && s != "inf"
}

func yamlWords(g []string) []string {
	var out []string
	for _, s := range g {
		if yamlWord(s) {
			out = append(out, s)
		}
	}
	return out
}

func c08alike(c *Ctx) {
	ls := []*layout{{indent: 2, compact: true, gap: 1, cgap: 1, eol: "\n", final: true}, {indent: 3, aligned: true, gap: 2, cgap: 1, eol: "\r\n", noise: 3}}
	for gi, g := range alikeGroups() {
		g = yamlWords(g)
		if len(g) < 2 {
			continue
		}
		for mi, m := range alikeTrees(g) {
			m := m
			wcase(c, func() string { return fmt.Sprintf("alike names, group %d, tree %d", gi, mi) }, func(t *T) {
				for _, l := range ls {
					yamlDecide(t, m, l.render(yOf(m)), jsonEq, false)
				}
			})
		}
	}
}

// c09alike: anchors whose names resemble each other, merges between mappings whose keys do.
func c09alike(c *Ctx) {
	lay := &layout{indent: 2, compact: true, gap: 1, cgap: 1, eol: "\n", final: true}
	eq := eqOpt{numeric: true, unord: true}
	for gi, g := range alikeGroups() {
		g := yamlWords(g)
		if len(g) < 2 {
			continue
		}
		num := func(i int) *Y { return ySc(mInt(int64(i))) }
		all, half := &Y{k: KObj}, &Y{k: KObj}
		anchors := &Y{k: KArr}
		for i, s := range g {
			all.keys, all.vals = append(all.keys, s), append(all.vals, num(i))
			if i%2 == 1 {
				half.keys, half.vals = append(half.keys, s), append(half.vals, num(1000+i))
			}
			anchors.vals = append(anchors.vals, yAn(s, yMap("v", num(i))))
		}
		for i := range g {
			anchors.vals = append(anchors.vals, yAl(g[(i+1)%len(g)]), yMap("<<", yAl(g[i]), "w", num(i)))
		}
		half.keys, half.vals = append(half.keys, "<<"), append(half.vals, yAl("anch"))
		docs := []*Y{anchors, yMap("x", yAn("anch", all), "y", half, "z", yAl("anch"))}
		wcase(c, func() string { return fmt.Sprintf("alike names, group %d", gi) }, func(t *T) {
			for _, y := range docs {
				yamlDecide(t, (&yenv{vals: map[string]*M{}}).expand(y), lay.render(y), eq, false)
			}
		})
	}
}

// c10alike: a document decoded with sharing, then again without; the first buffer is overwritten afterwards.
func c10alike(c *Ctx) {
	do := func(t *T, m *M, only string) {
		for _, f := range []string{"json", "mp", "bson"} {
			if only != "" && f != only || f == "json" && !jsonable(m) || f == "bson" && (hasNulKey(m) || m.K != KObj) {
				continue
			}
			b := encodeFor(f, m)
			for _, d1 := range formats[f].decs {
				if !d1.share {
					continue
				}
				for di, d2 := range formats[f].decs {
					if d2.share {
						continue
					}
					verifrt.ResetPools()
					b1, b2 := clone(b), clone(b)
					v1, err := d1.f(b1)
					if err != nil {
						t.Failf("%s: %v", d1.name, err)
					}
					if di%2 == 0 {
						observe(v1)
					}
					v2, err := d2.f(b2)
					if err != nil {
						t.Failf("%s: %v", d2.name, err)
					}
					t.Op()
					if di%3 == 0 && d1.cached {
						d.FreeValue(v1)
					}
					overwrite(b1, di%4)
					overwrite(b2, (di+1)%4)
					if s := full(v2, m, eqOpt{numeric: true, tol: looseEq.tol}); s != "" {
						t.Failf("%s after %s: overwriting the buffers changes the unshared value: %s", d2.name, d1.name, short(s))
					}
					t.Trace()
				}
			}
		}
	}
	gs := alikeGroups()
	c.Bound("shared_then_unshared", fmt.Sprintf("the trees of %d groups of names: every sharing decoder followed by every copying one", len(gs)))
	for gi, g := range gs {
		if c.quick && gi%4 != 0 {
			continue
		}
		for mi, m := range alikeTrees(g)[1:4] {
			m := m
			wcase(c, func() string { return fmt.Sprintf("shared then unshared, group %d, tree %d", gi, mi) }, func(t *T) { do(t, m, "") })
		}
	}
	for _, f := range []string{"json", "mp", "bson"} {
		for i, m := range map[string][]*M{"json": jsonTrees(), "mp": mpTrees(), "bson": bsonTrees2()}[f] {
			f, m := f, m
			wcase(c, func() string { return fmt.Sprintf("shared then unshared, %s tree %d", f, i) }, func(t *T) { do(t, m, f) })
		}
	}
}

// c11alike: documents decoded one after another, each must be what it is alone.
func c11alike(c *Ctx) {
	gs := alikeGroups()
	c.Bound("alike_after_each_other", fmt.Sprintf("all ordered pairs of names of %d groups: a document with one name decoded, freed, then one with the other, in each format, and every group before every other", len(gs)))
	doc := func(s string, n int) *M {
		return &M{K: KObj, Keys: []string{s, "t"}, Vals: []*M{mInt(int64(n)), mArr(mStr(s), &M{K: KObj, Keys: []string{s}, Vals: []*M{mK(KTrue)}})}}
	}
	step := func(t *T, f string, m *M, k int) {
		v, err := decodeBy(f, string(encodeFor(f, m)), k%3 != 0)
		t.Op()
		if err != nil {
			t.Failf("%s of %v: %v", f, m, err)
		}
		if s := full(v, m, looseEq); s != "" {
			t.Failf("%s of %v: %s", f, m, s)
		}
		if k%3 != 0 {
			d.FreeValue(v)
		}
		t.Trace()
	}
	for gi, g := range gs {
		gi, g := gi, g
		for _, f := range []string{"json", "mp", "bson"} {
			f := f
			wcase(c, func() string { return fmt.Sprintf("alike names one after another, %s, group %d", f, gi) }, func(t *T) {
				k := 0
				for i := range g {
					for j := range g {
						if i == j || f == "bson" && strings.Contains(g[i]+g[j], "\x00") || c.quick && len(g) > 20 && (i-j)*(i-j) > 1 && i != 0 && j != 0 {
							continue
						}
						step(t, f, doc(g[i], i), k)
						step(t, f, doc(g[j], j), k)
						k++
					}
				}
			})
		}
	}
}

// c13alike: copies of the trees.
func c13alike(c *Ctx) {
	overAlike(c, func(t *T, g []string, m *M) {
		for _, p := range producers() {
			if !p.ok(m) {
				continue
			}
			for _, cp := range copiers() {
				if !cp.ok(m) {
					continue
				}
				src := p.f(m)
				r := cp.f(src)
				t.Op()
				want := m
				if strings.HasPrefix(cp.name, "merge array") && m.K == KArr {
					continue
				}
				if s := full(r, want, eqOpt{tol: p.opt.tol}); s != "" {
					t.Failf("%s of %s: %s", cp.name, p.name, short(s))
				}
				t.Trace()
			}
		}
	})
}

// c14alike: every elementary change at every name of a group, and all simple case foldings.
func c14alike(c *Ctx) {
	gs := alikeGroups()
	c.Bound("alike_names", fmt.Sprintf("%d groups of names that resemble each other: every change at every name, look-ups of all names, with case sensitivity on and off", len(gs)))
	start := func(way int, m *M, ic bool) (*d.DxValue, *M) {
		switch way {
		case 0, 1:
			v, w := newRoot(d.VT_Object, way == 1), mObj()
			for i, k := range m.Keys {
				v.SetKeyInt(k, m.Vals[i].I)
				w.setName(k, m.Vals[i], ic)
			}
			return v, w
		}
		w := mObj()
		for i, k := range m.Keys {
			if w.find(k, ic) < 0 {
				w.Keys, w.Vals = append(w.Keys, k), append(w.Vals, m.Vals[i])
			}
		}
		var v *d.DxValue
		var err error
		switch way {
		case 2:
			v, err = d.NewValueFromJson(refEncode(w), false, false)
		case 3:
			v, err = d.NewValueFromJson(refEncodeEsc(w), true, true)
		default:
			v, err = d.NewValueFromMsgPack(encodeFor("mp", w), false, false)
		}
		if err != nil {
			panic(err)
		}
		return v, w
	}
	ops := []struct {
		name string
		f    func(v *d.DxValue, m *M, k string, ic bool)
	}{
		{"look-up", func(v *d.DxValue, m *M, k string, ic bool) {}},
		{"SetKeyInt", func(v *d.DxValue, m *M, k string, ic bool) { v.SetKeyInt(k, -7); m.setName(k, mInt(-7), ic) }},
		{"SetKeyValue", func(v *d.DxValue, m *M, k string, ic bool) {
			v.SetKeyValue(k, build(mStr("v"), false))
			m.setName(k, mStr("v"), ic)
		}},
		{"SetKey", func(v *d.DxValue, m *M, k string, ic bool) { v.SetKey(k, d.VT_Array); m.setName(k, mArr(), ic) }},
		{"SetKeyBool", func(v *d.DxValue, m *M, k string, ic bool) { v.SetKeyBool(k, true); m.setName(k, mK(KTrue), ic) }},
		{"SetKeyvalue", func(v *d.DxValue, m *M, k string, ic bool) { v.SetKeyvalue(k, "w", nil); m.setName(k, mStr("w"), ic) }},
		{"ForcePath", func(v *d.DxValue, m *M, k string, ic bool) {
			v.ForcePath(d.VT_String, k).SetString("f")
			m.setName(k, mStr("f"), ic)
		}},
		{"RemoveKey", func(v *d.DxValue, m *M, k string, ic bool) {
			v.RemoveKey(k)
			if i := m.find(k, ic); i >= 0 {
				m.removeAt(i)
			}
		}},
		{"ExtractValue", func(v *d.DxValue, m *M, k string, ic bool) {
			x := v.ExtractValue(k)
			i := m.find(k, ic)
			if (x != nil) != (i >= 0) || x != nil && x.Int() != m.Vals[i].I {
				panic(caseFail{fmt.Sprintf("extracting %q gives %v", k, observe(x))})
			}
			if i >= 0 {
				m.removeAt(i)
			}
		}},
		{"MergeWith", func(v *d.DxValue, m *M, k string, ic bool) {
			o := d.NewObject(false)
			o.SetKeyInt(k, 55)
			v.MergeWith(o, nil)
			mergeM(m, &M{K: KObj, Keys: []string{k}, Vals: []*M{mInt(55)}}, "", ic, nil, nil)
		}},
		{"AddFrom", func(v *d.DxValue, m *M, k string, ic bool) {
			o := d.NewObject(false)
			o.SetKeyInt(k, 56)
			v.AddFrom(o, nil)
			if m.find(k, ic) < 0 {
				m.setName(k, mInt(56), ic)
			}
		}},
	}
	run := func(t *T, names, probe []string, base *M, ways []int, ic bool) {
		d.IgnoreCase = ic
		defer func() { d.IgnoreCase = false }()
		for _, way := range ways {
			for _, k := range names {
				for _, o := range ops {
					v, m := start(way, base, ic)
					for _, x := range probe { // so that the containers know the names already
						if o.name == "look-up" {
							break
						}
						if (v.ValueByName(x) != nil) != (m.find(x, ic) >= 0) {
							t.Failf("way %d (ignore case %v): look-up of %q in %v", way, ic, x, m)
						}
					}
					o.f(v, m, k, ic)
					t.Op()
					if s := diff(m, observe(v), eqOpt{}); s != "" {
						t.Failf("way %d (ignore case %v): %s %q: %s", way, ic, o.name, k, s)
					}
					lookups(t, v, m, probe, ic)
					t.Trace()
				}
			}
		}
	}
	for gi, g := range gs {
		for _, ic := range []bool{false, true} {
			gi, g, ic := gi, g, ic
			wcase(c, func() string { return fmt.Sprintf("alike names, group %d, ignore case %v", gi, ic) }, func(t *T) {
				base, other := mObj(), mObj()
				for i, k := range g {
					base.Keys, base.Vals = append(base.Keys, k), append(base.Vals, mInt(int64(i)))
					if i%2 == 0 {
						other.Keys, other.Vals = append(other.Keys, k), append(other.Vals, mInt(int64(i)))
					}
				}
				names := g
				if c.quick && len(g) > 12 {
					names = nil
					for i := 0; i < len(g); i += 1 + len(g)/12 {
						names = append(names, g[i])
					}
				}
				run(t, names, g, base, []int{0, 2}, ic)
				run(t, names, g, other, []int{1, 3, 4}, ic)
			})
		}
	}
	// simple case foldings: every code point that has one
	const step = 0x40
	folds := func(r rune) []rune {
		out := []rune{r}
		for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
			out = append(out, x)
		}
		return out
	}
	c.Bound("case_folding", "every code point with a simple case folding, alone and inside a name, against every member of its class, as look-up, change, removal and merge, in built and decoded objects")
	for lo := rune(0); lo <= unicode.MaxRune; lo += step {
		any := false
		for r := lo; r < lo+step; r++ {
			any = any || r <= unicode.MaxRune && utf8.ValidRune(r) && len(folds(r)) > 1
		}
		if !any {
			continue
		}
		lo := lo
		wcase(c, func() string { return fmt.Sprintf("case folding of U+%04X..", lo) }, func(t *T) {
			for r := lo; r < lo+step; r++ {
				fs := folds(r)
				if len(fs) < 2 {
					continue
				}
				for ci, ctx := range [][2]string{{"", ""}, {"x", "Y"}, {"a\n", "中"}} {
					if ci == 1 && c.quick && r > 0x600 {
						continue
					}
					for _, x := range fs[1:] {
						a, b := ctx[0]+string(r)+ctx[1], strings.ToUpper(ctx[0])+string(x)+strings.ToLower(ctx[1])
						base := mObj("first", mInt(1), a, mInt(2), "last", mInt(3))
						for _, ic := range []bool{true, false} {
							run(t, []string{b}, []string{a, b, "FIRST", ""}, base, []int{0, 2, 3}, ic)
						}
					}
				}
			}
		})
	}
}

// c15alike: paths through names that resemble each other.
func c15alike(c *Ctx) {
	gs := alikeGroups()
	c.Bound("alike_names", fmt.Sprintf("%d groups of names that resemble each other (at most 24 names each): every path of two of them in an object of objects, read and forced", len(gs)))
	for gi, g := range gs {
		if len(g) > 24 {
			g = g[:24]
		}
		g := g
		wcase(c, func() string { return fmt.Sprintf("alike names, group %d", gi) }, func(t *T) {
			m := mObj()
			for i, k := range g {
				in := mObj()
				for j, l := range g {
					if (i+j)%3 != 2 {
						in.Keys, in.Vals = append(in.Keys, l), append(in.Vals, mInt(int64(i*100+j)))
					}
				}
				m.Keys, m.Vals = append(m.Keys, k), append(m.Vals, in)
			}
			for _, p := range producers() {
				if !p.ok(m) {
					continue
				}
				v := p.f(m)
				for i, k := range g {
					for j, l := range g {
						want := int64(-5)
						if (i+j)%3 != 2 {
							want = int64(i*100 + j)
						}
						if got := v.IntByPath(-5, k, l); got != want {
							t.Failf("%s: path %q %q gives %d instead of %d", p.name, k, l, got, want)
						}
						if got := v.ValueByPath(k, l); (got == nil) != (want == -5) {
							t.Failf("%s: path %q %q", p.name, k, l)
						}
						t.Op()
					}
				}
				w := m.clone()
				for i, k := range g {
					for j, l := range g {
						if (i+j)%3 == 2 || (i+j)%5 == 0 {
							x := v.ForcePath(d.VT_Int, k, l)
							x.SetInt(int64(-i*100 - j))
							w.Vals[i].setName(l, mInt(int64(-i*100-j)), false)
							t.Op()
						}
					}
				}
				if s := full(v, w, eqOpt{}); s != "" {
					t.Failf("%s: after forcing: %s", p.name, s)
				}
				t.Trace()
			}
		})
	}
}

// c16alike: merges between objects and arrays whose names and elements resemble each other.
func c16check(t *T, a, b *M, dec func(string) d.MergeOp) {
	want := a.clone()
	var wlog []conflict
	mergeM(want, b, "", false, dec, &wlog)
	for pi, p := range producers() {
		if !p.ok(a) || !p.ok(b) {
			continue
		}
		v, in := p.f(a), producers()[(pi+2)%4].f(b)
		var glog []conflict
		var f d.MergeFunc
		if dec != nil {
			f = func(path string, o, n *d.DxValue) d.MergeOp {
				path = cp(path)
				glog = append(glog, conflict{path, observe(o).String(), observe(n).String()})
				return dec(path)
			}
		}
		v.MergeWith(in, f)
		t.Op()
		if s := full(v, want, eqOpt{numeric: true}); s != "" {
			t.Failf("%s: %s", p.name, short(s))
		}
		if x, y := logText(glog), logText(wlog); dec != nil && x != y {
			t.Failf("%s: callback saw %s instead of %s", p.name, short(x), short(y))
		}
		if s := full(in, b, eqOpt{numeric: true}); s != "" {
			t.Failf("%s: merged-in value changed: %s", p.name, short(s))
		}
		t.Trace()
	}
}

func c16alike(c *Ctx) {
	check := c16check
	decs := []func(string) d.MergeOp{nil, func(string) d.MergeOp { return d.MO_Replace }, func(p string) d.MergeOp { return d.MergeOp(len(p) % 3) }}
	gs := alikeGroups()
	c.Bound("alike_names", fmt.Sprintf("%d groups of names that resemble each other: halves merged into wholes and the other way round, as members, nested and as elements", len(gs)))
	for gi, g := range gs {
		g := g
		wcase(c, func() string { return fmt.Sprintf("alike names, group %d", gi) }, func(t *T) {
			pick := func(f func(i int) bool, base int) (*M, *M) {
				o, l := mObj(), &M{K: KArr}
				for i, k := range g {
					if f(i) {
						o.Keys, o.Vals = append(o.Keys, k), append(o.Vals, mInt(int64(base+i)))
						l.Vals = append(l.Vals, mStr(k))
					}
				}
				return o, l
			}
			even, el := pick(func(i int) bool { return i%2 == 0 }, 0)
			odd, ol := pick(func(i int) bool { return i%2 == 1 }, 1000)
			all, al := pick(func(i int) bool { return true }, 2000)
			for _, dec := range decs {
				for _, p := range [][2]*M{{even, odd}, {odd, even}, {even, all}, {all, odd}, {all, all}, {el, al}, {el, ol}, {al, ol}} {
					check(t, p[0], p[1], dec)
					check(t, mObj("q", p[0], "r", mInt(1)), mObj("r", mInt(2), "q", p[1]), dec)
				}
			}
		})
	}
	// arrays holding values that are spelled alike, between fillers up to a size of the grid
	sc := alikeScalars()
	sizes := append([]int{0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 49, 50}, sizeGrid(map[bool]int{true: 520, false: 5001}[c.quick])...)
	c.Bound("alike_elements", fmt.Sprintf("arrays of %v elements, of distinct integers and of each kind of value, holding every second of %d values that are spelled alike, merged with all of them", sizes, len(sc)))
	for _, n := range sizes {
		n := n
		wcase(c, func() string { return fmt.Sprintf("array of %d elements and values spelled alike", n) }, func(t *T) {
			for k := 0; k < 3; k++ {
				a, b := &M{K: KArr}, &M{K: KArr, Vals: sc}
				for i := 0; i < n; i++ {
					switch k {
					case 0:
						a.Vals = append(a.Vals, mInt(int64(5000+i)))
					case 1:
						a.Vals = append(a.Vals, mStr("x"+itoa(i)))
					default:
						a.Vals = append(a.Vals, []*M{mInt(int64(5000 + i)), mStr(itoa(6000 + i)), mArr(mInt(int64(i + 5))), mObj("k", mInt(int64(i)))}[i%4])
					}
				}
				for par := 0; par < 2; par++ {
					x := a.clone()
					for i := par; i < len(sc); i += 2 {
						x.Vals = append(x.Vals, sc[i].clone())
					}
					check(t, x, b, nil)
					if k == 0 {
						big := &M{K: KArr, Vals: append(append([]*M{}, b.Vals...), a.Vals...)}
						check(t, &M{K: KArr, Vals: x.Vals[n:]}, big, nil)
						check(t, mObj("l", x), mObj("l", b), decs[1+par])
					}
				}
			}
		})
	}
}

// c17alike: values made of names that resemble each other are equal exactly when the names are.
func c17alike(c *Ctx) {
	gs := alikeGroups()
	prods := producers()
	c.Bound("alike_names", fmt.Sprintf("all pairs inside %d groups of texts that resemble each other, as text, name, bytes and element, in six ways of production; the values spelled alike, all pairs", len(gs)))
	eq := func(t *T, a, b *d.DxValue, want bool, what string) {
		if a.Equal(b) != want || b.Equal(a) != want {
			t.Failf("%s: Equal gives %v and %v", what, a.Equal(b), b.Equal(a))
		}
		t.Op()
	}
	for gi, g := range gs {
		g := g
		wcase(c, func() string { return fmt.Sprintf("alike texts, group %d", gi) }, func(t *T) {
			for i, x := range g {
				for j, y := range g {
					mk := func(s string) []*M {
						return []*M{mStr(s), {K: KObj, Keys: []string{s}, Vals: []*M{mInt(1)}}, mBin([]byte(s)), mExt(7, []byte(s)), mArr(mInt(1), mStr(s))}
					}
					ms, ns := mk(x), mk(y)
					for k := range ms {
						for pi := 0; pi < len(prods); pi++ {
							p, q := prods[pi], prods[(pi*5+i+j)%len(prods)]
							if !p.ok(ms[k]) || !q.ok(ns[k]) || c.quick && len(g) > 24 && pi != (i+j)%len(prods) {
								continue
							}
							eq(t, p.f(ms[k]), q.f(ns[k]), i == j, fmt.Sprintf("%v (%s) and %v (%s)", ms[k], p.name, ns[k], q.name))
						}
					}
				}
				t.Trace()
			}
		})
	}
	for _, n := range []int{0, 3, 17, 64, 300} {
		n := n
		wcase(c, func() string { return fmt.Sprintf("values spelled alike after %d elements", n) }, func(t *T) {
			sc := alikeScalars()
			for i, x := range sc {
				for j, y := range sc {
					mk := func(m *M) *M {
						r := &M{K: KArr}
						for k := 0; k < n; k++ {
							r.Vals = append(r.Vals, mInt(int64(k)))
						}
						r.Vals = append(r.Vals, m, mInt(1))
						return r
					}
					for _, p := range prods {
						eq(t, p.f(mk(x)), prods[(i+j)%6].f(mk(y)), canonEq(x) == canonEq(y), fmt.Sprintf("%v and %v after %d elements", x, y, n))
					}
				}
				t.Trace()
			}
		})
	}
	// one character changed at every position of long texts and binaries
	for _, n := range []int{200, 257, 1000, 1025, 4097, 5000} {
		n := n
		wcase(c, func() string { return fmt.Sprintf("one position of %d changed", n) }, func(t *T) {
			s := strOfLen(n)
			a, b := d.NewValue(d.VT_String), d.NewValue(d.VT_Binary)
			a.SetString(s)
			b.SetBinary([]byte(s), true)
			e := d.NewValue(d.VT_ExBinary)
			e.SetExtType(7)
			e.SetBinary([]byte(s), true)
			ko := d.NewObject(false)
			ko.SetKeyInt(s, 1)
			for p := 0; p < n; p++ {
				x := []byte(s)
				x[p] ^= 1
				a2, b2, e2 := d.NewValue(d.VT_String), d.NewValue(d.VT_Binary), d.NewValue(d.VT_ExBinary)
				a2.SetString(string(x))
				b2.SetBinary(x, true)
				e2.SetExtType(7)
				e2.SetBinary(x, true)
				k2 := d.NewObject(false)
				k2.SetKeyInt(string(x), 1)
				eq(t, a, a2, false, fmt.Sprintf("texts that differ at %d", p))
				eq(t, b, b2, false, fmt.Sprintf("binaries that differ at %d", p))
				eq(t, e, e2, false, fmt.Sprintf("extension data that differ at %d", p))
				eq(t, ko, k2, false, fmt.Sprintf("names that differ at %d", p))
			}
			t.Trace()
		})
	}
}

// c18alike: a look-up does not change what the next one gives.
func c18alike(c *Ctx) {
	gs := alikeGroups()
	c.Bound("alike_names", fmt.Sprintf("%d groups of names that resemble each other, half of them present: look-ups of all ordered pairs", len(gs)))
	for gi, g := range gs {
		g := g
		wcase(c, func() string { return fmt.Sprintf("alike names, group %d", gi) }, func(t *T) {
			m := mObj()
			for i, k := range g {
				if i%2 == 0 {
					m.Keys, m.Vals = append(m.Keys, k), append(m.Vals, mInt(int64(i)))
				}
			}
			for _, p := range producers() {
				if !p.ok(m) {
					continue
				}
				v := p.f(m)
				look := func(i int) {
					want := -1
					if i%2 == 0 {
						want = i
					}
					if got := v.AsInt(g[i], -1); got != want {
						t.Failf("%s: look-up of %q gives %d instead of %d", p.name, g[i], got, want)
					}
					if x := v.ValueByName(g[i]); (x != nil) != (want >= 0) {
						t.Failf("%s: look-up of %q", p.name, g[i])
					}
					t.Op()
				}
				for i := range g {
					for j := range g {
						look(i)
						look(j)
					}
				}
				if s := full(v, m, eqOpt{}); s != "" {
					t.Failf("%s: after the look-ups: %s", p.name, s)
				}
				t.Trace()
			}
		})
	}
}

// c22alike: Go maps, slices and structs whose names resemble each other.
func c22alike(c *Ctx) {
	gs := alikeGroups()
	c.Bound("alike_names", fmt.Sprintf("%d groups of names that resemble each other as keys of maps, elements of slices and fields of structs, in and out", len(gs)))
	for gi, g := range gs {
		g := g
		wcase(c, func() string { return fmt.Sprintf("alike names, group %d", gi) }, func(t *T) {
			mi, ms, ma := map[string]int{}, map[string]string{}, map[string]interface{}{}
			m := mObj()
			for i, k := range g {
				mi[k], ms[k], ma[k] = i, g[(i+1)%len(g)], map[string]interface{}{k: int64(i)}
				m.Keys, m.Vals = append(m.Keys, k), append(m.Vals, mInt(int64(i)))
			}
			for _, cached := range []bool{false, true} {
				v := newRoot(d.VT_Object, cached)
				v.SetValue(mi)
				for k, i := range mi {
					if v.AsInt(k, -1) != i {
						t.Failf("map[string]int: %q is %d", k, v.AsInt(k, -1))
					}
				}
				v.SetValue(ms)
				for k, s := range ms {
					if v.AsString(k, "?") != s {
						t.Failf("map[string]string: %q is %q", k, v.AsString(k, "?"))
					}
				}
				out := map[string]string{}
				v.ToStdValue(out, false)
				if !reflect.DeepEqual(out, ms) {
					t.Failf("map[string]string: %v instead of %v", out, ms)
				}
				v.SetValue(ma)
				back := map[string]interface{}{}
				v.ToStdValue(back, false)
				if !reflect.DeepEqual(back, ma) {
					t.Failf("map[string]interface{}: %v instead of %v", back, ma)
				}
				v.SetValue(g)
				var l []string
				v.ToStdValue(&l, false)
				if !reflect.DeepEqual(l, g) {
					t.Failf("[]string: %q instead of %q", l, g)
				}
				t.Op()
			}
			// structs
			var fs []reflect.StructField
			for _, k := range g {
				if yamlWord(k) && !strings.Contains(k, "-") {
					fs = append(fs, reflect.StructField{Name: "F" + k, Type: reflect.TypeOf(int64(0))})
				}
			}
			folded := map[string]bool{}
			for _, f := range fs {
				folded[strings.ToLower(f.Name)] = true
			}
			if len(fs) > 1 {
				tp := reflect.StructOf(fs)
				src := reflect.New(tp)
				for i := range fs {
					src.Elem().Field(i).SetInt(int64(100 + i))
				}
				for _, ic := range []bool{false, true} {
					if ic && len(folded) != len(fs) {
						continue
					}
					v := d.NewObject(false)
					v.SetValue(src.Interface())
					dst := reflect.New(tp)
					v.ToStdValue(dst.Interface(), ic)
					if !reflect.DeepEqual(src.Interface(), dst.Interface()) {
						t.Failf("struct: %v instead of %v (ignore case %v)", dst.Elem(), src.Elem(), ic)
					}
					// another order of the members, with some upper case when that is to be ignored
					w := d.NewObject(false)
					for i := len(fs) - 1; i >= 0; i-- {
						n := fs[i].Name
						if ic && i%2 == 0 {
							n = strings.ToUpper(n)
						}
						w.SetKeyInt(n, int64(100+i))
					}
					dst = reflect.New(tp)
					w.ToStdValue(dst.Interface(), ic)
					if !reflect.DeepEqual(src.Interface(), dst.Interface()) {
						t.Failf("struct from members in reverse: %v instead of %v (ignore case %v)", dst.Elem(), src.Elem(), ic)
					}
					t.Op()
				}
			}
			t.Trace()
		})
	}
}

func c25alike(c *Ctx) {
	overAlike(c, func(t *T, g []string, m *M) { exploreChains(t, m, 2, 60, 2) })
}

// c26alike: loading a document over one whose names resemble its own.
func c26alike(c *Ctx) {
	gs := alikeGroups()
	c.Bound("alike_names", fmt.Sprintf("%d groups of names that resemble each other: trees of each loaded one over another, in three formats", len(gs)))
	for gi, g := range gs {
		g := g
		wcase(c, func() string { return fmt.Sprintf("alike names, group %d", gi) }, func(t *T) {
			rev := make([]string, len(g))
			for i := range g {
				rev[len(g)-1-i] = g[i]
			}
			ts := append(alikeTrees(g), alikeTrees(rev)...)
			ts = append(ts, &M{K: KObj, Keys: g[:1], Vals: []*M{mStr(g[1])}}, &M{K: KObj, Keys: g[1:2], Vals: []*M{mStr(g[0])}})
			for _, cached := range []bool{false, true} {
				for _, f := range []string{"json", "mp", "bson"} {
					v := newRoot(d.VT_Object, cached)
					for i := range ts {
						for j := range ts {
							if hasNulKey(ts[i]) && f == "bson" || hasNulKey(ts[j]) && f == "bson" || c.quick && (i+j)%3 != 0 {
								continue
							}
							for _, m := range []*M{ts[i], ts[j]} {
								err := loadBy(v, f, string(encodeFor(f, m)))
								t.Op()
								if err != nil {
									t.Failf("%s: %v", f, err)
								}
								if s := full(v, m, looseEq); s != "" {
									t.Failf("%s, cached %v: loaded over another document: %s", f, cached, short(s))
								}
							}
						}
					}
					t.Trace()
				}
			}
		})
	}
}

// Sequences of one kind with one element of another kind, and rows of one shape with one row that deviates: code may
// decide from the first or last element how all are treated.

func oddKinds() []func(i int) *M {
	return []func(i int) *M{
		func(i int) *M { return mInt(int64(i % 100)) },
		func(i int) *M { return mInt(int64(-i - 40)) },
		func(i int) *M { return mInt(1<<40 + int64(i)) },
		func(i int) *M { return mDbl(float64(i) + 0.5) },
		func(i int) *M { return mStr("t" + itoa(i)) },
		func(i int) *M { return mStr("\n\"é" + itoa(i)) },
		func(i int) *M { return mStr("") },
		func(i int) *M { return mK(KTrue) },
		func(i int) *M { return mK(KNull) },
		func(i int) *M { return mArr() },
		func(i int) *M { return mObj() },
		func(i int) *M { return mArr(mInt(int64(i)), mStr("e")) },
		func(i int) *M { return mObj("k", mInt(int64(i))) },
	}
}

// oddTrees calls f with every such tree of kinds a and b.
func oddTrees(a, b int, sizes []int, f func(m *M)) {
	ks := oddKinds()
	for _, n := range sizes {
		for pi, p := range []int{0, 1, n / 2, n - 2, n - 1} {
			if p < 0 || p >= n || pi > 0 && p == 0 || pi > 1 && p == 1 && n > 2 && pi != 2 {
				continue
			}
			arr := entriesOf(n, func(i int) *M {
				if i == p {
					return ks[b](i)
				}
				return ks[a](i)
			})
			f(mObj("l", arr))
			if n <= 17 {
				o := mObj()
				for i, x := range arr.Vals {
					o.Keys, o.Vals = append(o.Keys, "k"+itoa(i)), append(o.Vals, x)
				}
				f(o)
			}
		}
	}
}

func rowTrees(sizes []int, f func(m *M)) {
	row := func(i int) *M {
		return mObj("id", mInt(int64(i)), "name", mStr("n"+itoa(i)), "v\n", mDbl(float64(i)+0.25), "sub", mObj("x", mInt(int64(-i)), "y", mArr(mInt(int64(i)))), "ok", mK(KTrue))
	}
	with := func(i int, g func(m *M)) *M { m := row(i); g(m); return m }
	set := func(m *M, k string, x *M) { m.Vals[m.find(k, false)] = x }
	devs := []func(i int) *M{
		func(i int) *M { return with(i, func(m *M) { m.removeAt(0) }) },
		func(i int) *M { return with(i, func(m *M) { m.removeAt(2) }) },
		func(i int) *M { return with(i, func(m *M) { m.removeAt(4) }) },
		func(i int) *M {
			return with(i, func(m *M) { m.Keys, m.Vals = append([]string{"new"}, m.Keys...), append([]*M{mInt(9)}, m.Vals...) })
		},
		func(i int) *M {
			return with(i, func(m *M) { m.Keys, m.Vals = append(m.Keys, "new"), append(m.Vals, mInt(9)) })
		},
		func(i int) *M { return with(i, func(m *M) { m.Keys[0], m.Keys[1] = m.Keys[1], m.Keys[0] }) },
		func(i int) *M {
			return with(i, func(m *M) {
				m.Keys[0], m.Keys[4], m.Vals[0], m.Vals[4] = m.Keys[4], m.Keys[0], m.Vals[4], m.Vals[0]
			})
		},
		func(i int) *M { return with(i, func(m *M) { m.Keys[1] = "nbme" }) },
		func(i int) *M { return with(i, func(m *M) { m.Keys[0] = "ID" }) },
		func(i int) *M { return with(i, func(m *M) { set(m, "id", mStr("5")) }) },
		func(i int) *M { return with(i, func(m *M) { set(m, "id", mK(KNull)) }) },
		func(i int) *M { return with(i, func(m *M) { set(m, "name", mObj("id", mInt(4))) }) },
		func(i int) *M { return with(i, func(m *M) { set(m, "sub", mK(KNull)) }) },
		func(i int) *M { return with(i, func(m *M) { set(m, "sub", mArr(mInt(1))) }) },
		func(i int) *M { return with(i, func(m *M) { set(m, "sub", mObj("y", mArr(), "x", mInt(3))) }) },
		func(i int) *M { return with(i, func(m *M) { set(m, "sub", mObj("x", mInt(1))) }) },
		func(i int) *M { return with(i, func(m *M) { set(m, "ok", mK(KFalse)) }) },
		func(i int) *M { return mObj() },
		func(i int) *M { return mArr() },
		func(i int) *M { return mK(KNull) },
		func(i int) *M { return mInt(7) },
		func(i int) *M { return mObj("id", mObj("id", mObj("id", mInt(1)))) },
	}
	for _, n := range sizes {
		for _, p := range []int{0, 1, n / 2, n - 1} {
			if p >= n {
				continue
			}
			for _, dv := range devs {
				m := entriesOf(n, row)
				m.Vals[p] = dv(p)
				f(mObj("rows", m, "end", mInt(1)))
			}
		}
	}
}

// overOdd makes a case of every ordered pair of kinds, and of the rows of every size.
func overOdd(c *Ctx, sizes []int, f func(t *T, m *M)) {
	n := len(oddKinds())
	c.Bound("one_deviates", fmt.Sprintf("sequences and objects of %v elements of one kind with one element of another at both ends, next to them and in the middle, all ordered pairs of %d kinds; rows of one shape with one of 22 deviations", sizes, n))
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			if a == b {
				continue
			}
			a, b := a, b
			wcase(c, func() string { return fmt.Sprintf("elements of kind %d with one of kind %d", a, b) }, func(t *T) {
				oddTrees(a, b, sizes, func(m *M) { f(t, m) })
				t.State(fmt.Sprint("odd", a, b))
			})
		}
		if c.Stop() {
			return
		}
	}
	for _, n := range sizes {
		n := n
		wcase(c, func() string { return fmt.Sprintf("%d rows, one of which deviates", n) }, func(t *T) {
			rowTrees([]int{n}, func(m *M) { f(t, m) })
			t.State(fmt.Sprint("rows", n))
		})
	}
}

var oddSizes = []int{2, 3, 5, 9, 17, 33, 66}

func c01odd(c *Ctx) { overOdd(c, oddSizes, func(t *T, m *M) { jsonRoundTrip(t, m, true) }) }
func c03odd(c *Ctx) { overOdd(c, oddSizes, func(t *T, m *M) { mpRoundTrip(t, m, true) }) }
func c04odd(c *Ctx) {
	overOdd(c, oddSizes[:5], func(t *T, m *M) {
		e := &mpEnc{c: &chooser{always: 1}}
		e.val(m)
		decideMP(t, m, e.out, mpDecs)
	})
}
func c05odd(c *Ctx) { overOdd(c, oddSizes, func(t *T, m *M) { bsonRoundTrip(t, m, true) }) }
func c08odd(c *Ctx) {
	l := &layout{indent: 2, compact: true, gap: 1, cgap: 1, eol: "\n", final: true}
	overOdd(c, oddSizes, func(t *T, m *M) {
		if yamlOK(m) {
			yamlDecide(t, m, l.render(yOf(m)), jsonEq, false)
		}
	})
}

// yamlOK: plain words, no empty container, no null, no sequence directly inside a sequence.
func yamlOK(m *M) bool {
	ok := true
	eachNode(m, func(x *M) {
		if x.K <= KArr && len(x.Vals) == 0 || x.K == KNull || x.K == KStr && !yamlWord(x.S) {
			ok = false
		}
		for i := range x.Vals {
			if x.K == KObj && !yamlWord(x.Keys[i]) || x.K == KArr && x.Vals[i].K == KArr {
				ok = false
			}
		}
	})
	return ok
}

func c13odd(c *Ctx) {
	overOdd(c, []int{2, 3, 9, 17}, func(t *T, m *M) {
		for pi, p := range producers() {
			src := p.f(m)
			for ci, cp := range copiers() {
				if !cp.ok(m) || c.quick && (ci+pi)%3 != 0 {
					continue
				}
				r := cp.f(src)
				t.Op()
				if s := full(r, m, eqOpt{}); s != "" {
					t.Failf("%s of %s: %s", cp.name, p.name, short(s))
				}
			}
			t.Trace()
		}
	})
}

func c17odd(c *Ctx) {
	ks := oddKinds()
	prods := producers()
	overOdd(c, []int{2, 3, 9, 33}, func(t *T, m *M) {
		// against itself and against the tree without the deviation
		n := m.clone()
		for i := range n.Vals {
			if l := n.Vals[i]; l.K == KArr && len(l.Vals) > 1 {
				for j := range l.Vals {
					if j > 0 && canonEq(l.Vals[j]) != canonEq(l.Vals[0]) && l.Vals[j].K != l.Vals[0].K {
						l.Vals[j] = ks[j%len(ks)](j)
					}
				}
			}
		}
		for i, p := range prods {
			a, b, x := p.f(m), prods[(i+1)%len(prods)].f(m), prods[(i+2)%len(prods)].f(n)
			if !a.Equal(b) || !b.Equal(a) {
				t.Failf("two values of %v are not equal", m)
			}
			if want := canonEq(m) == canonEq(n); a.Equal(x) != want || x.Equal(a) != want {
				t.Failf("Equal of %v and %v: %v, %v", m, n, a.Equal(x), x.Equal(a))
			}
			t.Op()
		}
		t.Trace()
	})
}

func c22odd(c *Ctx) { overOdd(c, []int{2, 3, 5, 9, 17, 33}, stdTree) }

func c25odd(c *Ctx) {
	overOdd(c, []int{3, 9}, func(t *T, m *M) { exploreChains(t, m, 1, 20, 1) })
}

func c26odd(c *Ctx) {
	n := len(oddKinds())
	c.Bound("one_deviates", "the sequences of 3 and 9 elements of one kind with one of another loaded one after another into the same value")
	for a := 0; a < n; a++ {
		a := a
		wcase(c, func() string { return fmt.Sprintf("elements of kind %d with one of another", a) }, func(t *T) {
			for _, f := range []string{"json", "mp", "bson"} {
				for _, cached := range []bool{false, true} {
					v := newRoot(d.VT_Object, cached)
					for b := 0; b < n; b++ {
						oddTrees(a, b, []int{9, 3}, func(m *M) {
							err := loadBy(v, f, string(encodeFor(f, m)))
							t.Op()
							if err != nil {
								t.Failf("%s: %v", f, err)
							}
							if s := full(v, m, looseEq); s != "" {
								t.Failf("%s, cached %v: %s", f, cached, short(s))
							}
						})
					}
				}
			}
			t.Trace()
		})
	}
}

// c01pairs: two special characters at every two places of a text, so that code working on words of several bytes is met.
func c01pairs(c *Ctx) {
	sp := []string{"\x00", "\x1f", " ", "!", "\"", "#", "/", "0", "<", ">", "&", "'", "[", "\\", "]", "`", "~", "\x7f", "é", "\u0080", "中", "\u2028", "😀"}
	width := 20
	if !c.quick {
		width = 36
	}
	c.Bound("pairs_of_specials", fmt.Sprintf("all ordered pairs of %d characters at all two places of a text of %d bytes", len(sp), width))
	for _, a := range sp {
		for _, b := range sp {
			a, b := a, b
			wcase(c, func() string { return fmt.Sprintf("%q and %q", a, b) }, func(t *T) {
				m := &M{K: KArr}
				for p := 0; p < width; p++ {
					for q := 0; q <= width-p; q++ {
						m.Vals = append(m.Vals, mStr(strOfLen(p)+a+strOfLen(q)+b+strOfLen(width-p-q)))
					}
				}
				jsonRoundTrip(t, m, true)
				t.State(a + b)
			})
		}
		if c.Stop() {
			return
		}
	}
}
