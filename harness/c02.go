package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
)

// C02: decoding standard JSON; rejecting broken text.

func init() {
	register("C02", runC02,
		"every token sequence up to a length bound, every structural edit and prefix of a document set, every number spelling and escape sequence up to a length, decoded through every JSON entry point and compared with encoding/json (acceptance and tree)",
		"encoding/json is the trusted reference acceptor and decoder", "duplicate keys and lone surrogates are only required not to be rejected")
}

func hasDup(m *M) bool {
	for i := range m.Keys {
		for j := 0; j < i; j++ {
			if m.Keys[i] == m.Keys[j] {
				return true
			}
		}
	}
	for _, v := range m.Vals {
		if hasDup(v) {
			return true
		}
	}
	return false
}

func hasInf(m *M) bool {
	if m.K == KDbl && math.IsInf(m.F, 0) {
		return true
	}
	for _, v := range m.Vals {
		if hasInf(v) {
			return true
		}
	}
	return false
}

// decideJSON compares acceptance and tree on text for the decoders. lenient: text may be accepted although invalid.
func decideJSON(t *T, text string, decs []decoder, lenient bool) {
	blank := strings.Trim(text, " \t\r\n") == ""
	if blank {
		return
	}
	valid := json.Valid([]byte(text))
	var ref *M
	dup := false
	if valid {
		var err error
		ref, err = refJSON([]byte(text))
		if err != nil {
			panic(err)
		}
		dup = hasDup(ref)
		if hasInf(ref) {
			return // beyond the range of double: outside the property
		}
	}
	for _, dec := range decs {
		v, err := dec.f([]byte(text))
		t.Op()
		if err != nil {
			if valid {
				t.Failf("%s rejects valid JSON %q: %v", dec.name, short(text), err)
			}
			if err.Error() == "" {
				t.Failf("%s: error without message for %q", dec.name, short(text))
			}
			t.Trace()
			continue
		}
		if !valid {
			if !lenient && !dialectValid(text) {
				t.Failf("%s accepts broken JSON %q as %v", dec.name, short(text), observe(v))
			}
			continue
		}
		if !dup {
			if s := full(v, ref, jsonEq); s != "" {
				t.Failf("%s of %q: %s", dec.name, short(text), s)
			}
		}
		t.Trace()
	}
	if valid {
		t.State("v" + text)
	} else {
		t.State("i" + text)
	}
}

func runC02(c *Ctx) {
	c02alike(c)
	c02blobs(c)
	c02deep(c)
	two := []decoder{jsonDecs[0], jsonDecs[3], jsonDecs[5]}
	// 1. token sequences
	toks := []string{"{", "}", "[", "]", ",", ":", `"a"`, `"b\n"`, "1", "-2.5e1", "true", "null"}
	maxLen := 6
	if !c.quick {
		maxLen = 7
	}
	c.Bound("token_sequence_length", fmt.Sprint(maxLen))
	for _, pre := range strsOver([]string{"\x00", "\x01", "\x02", "\x03", "\x04", "\x05", "\x06", "\x07", "\x08", "\x09", "\x0a", "\x0b"}, maxLen-2) {
		if c.Stop() {
			break
		}
		// one case = one prefix with all its extensions by up to two tokens (if it has the full prefix length)
		base := make([]string, 0, maxLen)
		for i := 0; i < len(pre); i++ {
			base = append(base, toks[pre[i]])
		}
		c.Case(func() string { return "token prefix " + strings.Join(base, " ") }, func(t *T) {
			decs := jsonDecs
			if len(base) > 3 {
				decs = two
			}
			decideJSON(t, strings.Join(base, " "), decs, false)
			if len(base) < maxLen-2 {
				return
			}
			p := strings.Join(base, " ")
			for _, a := range toks {
				decideJSON(t, p+" "+a, decs, false)
				for _, b := range toks {
					decideJSON(t, p+" "+a+"\n"+b, decs, false)
				}
			}
		})
	}
	// 2. documents with every structural edit, prefix, white space variant and trailing garbage
	n := 4
	if !c.quick {
		n = 5
	}
	shapes(n, []*M{mInt(7), mStr("x"), mK(KTrue)}, []string{"a", "b"}, "", c.Stop, func(m *M) {
		text := string(refEncode(m))
		c.Case(func() string { return "edits of " + text }, func(t *T) {
			decideJSON(t, text, jsonDecs, false)
			if m.K <= KArr {
				for i := 1; i < len(text); i++ {
					decideJSON(t, text[:i], two, false)
				}
			}
			inStr := false
			for i := 0; i < len(text); i++ {
				ch := text[i]
				if ch == '"' {
					inStr = !inStr
				}
				if inStr {
					continue
				}
				for _, ws := range []string{" ", "\t", "\n", "\r", " \r\n\t "} {
					decideJSON(t, text[:i+1]+ws+text[i+1:], two, false)
				}
				if strings.IndexByte("{}[],:\"", ch) < 0 {
					continue
				}
				decideJSON(t, text[:i]+text[i+1:], two, false)
				for _, x := range []string{"{", "}", "[", "]", ",", ":", "\"", "x", "\\", "\x00", ";"} {
					decideJSON(t, text[:i]+x+text[i+1:], two, false)
					decideJSON(t, text[:i]+x+text[i:], two, false)
				}
			}
			for _, g := range []string{"x", "}", "]", ",", "1", " null", "\"", " {", "\x00", "\v", "\f", "\u00a0"} {
				if m.K == KInt && (g == "1") {
					continue
				}
				decideJSON(t, text+g, jsonDecs, false)
				if g != "1" || m.K != KInt {
					decideJSON(t, g+text, two, false)
				}
			}
			for _, ws := range []string{" ", "\t", "\n", "\r", " \r\n\t "} {
				decideJSON(t, ws+text, jsonDecs, false)
				decideJSON(t, text+ws, jsonDecs, false)
				decideJSON(t, ws+ws+text+ws+ws, jsonDecs, false)
			}
		})
	})
	// 3. literals and their near misses
	for _, lit := range []string{"true", "false", "null"} {
		var vs []string
		vs = append(vs, lit)
		for i := 0; i < len(lit); i++ {
			vs = append(vs, lit[:i]+lit[i+1:], lit[:i]+"x"+lit[i+1:], lit[:i]+"x"+lit[i:], lit[:i]+strings.ToUpper(lit[i:i+1])+lit[i+1:], lit[:i]+string(lit[i]+1)+lit[i+1:], lit[:i]+" "+lit[i:])
		}
		vs = append(vs, lit+"x", lit+"1", lit+lit, lit+"\"\"", strings.ToUpper(lit))
		for _, s := range vs {
			s := s
			c.Case(func() string { return "literal " + s }, func(t *T) {
				for _, f := range []string{"%s", "[%s]", "[1,%s]", "[%s,1]", `{"a":%s}`, `{"a":%s,"b":1}`, " %s ", `{"k":[%s]}`} {
					decideJSON(t, fmt.Sprintf(f, s), jsonDecs, false)
				}
			})
		}
	}
	// 4. numbers: every spelling over the number alphabet
	nl := 5
	if !c.quick {
		nl = 7
	}
	c.Bound("number_spelling_length", fmt.Sprint(nl))
	heads := strsOver([]string{"0", "1", "9", "-", "+", ".", "e", "E"}, nl-2)
	for _, h := range heads {
		h := h
		c.Case(func() string { return "numbers starting " + h }, func(t *T) {
			try1 := func(s string) {
				if !json.Valid([]byte(s)) {
					return
				}
				for _, f := range []string{"%s", "[%s]", `{"a":%s}`, "[ %s , %s ]"} {
					decideJSON(t, strings.ReplaceAll(f, "%s", s), two, false)
				}
			}
			try1(h)
			if len(h) == nl-2 {
				for _, a := range "019-+.eE" {
					try1(h + string(a))
					for _, b := range "019-+.eE" {
						try1(h + string(a) + string(b))
					}
				}
			}
		})
	}
	var nums []string
	for _, f := range boundaryFloats() {
		for _, fm := range []byte{'e', 'E', 'f', 'g'} {
			for _, p := range []int{-1, 0, 3, 17, 20} {
				s := strconv.FormatFloat(f, fm, p, 64)
				nums = append(nums, s, "-"+strings.TrimPrefix(s, "-"))
			}
		}
	}
	for _, i := range boundaryInts() {
		s := strconv.FormatInt(i, 10)
		nums = append(nums, s, s+".0", s+"e0", s+"E+2", s+"e-2", s+"0", s+"00")
	}
	nums = append(nums, "9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "123456789012345678901234567890", "1e308", "1e-400", "0.1e1", "-0", "-0.0", "0e0", "0.000000000000000000000000000001", "1.7976931348623157e308")
	for _, s := range nums {
		s := s
		if !json.Valid([]byte(s)) {
			continue
		}
		c.Case(func() string { return "number " + s }, func(t *T) {
			for _, f := range []string{"%s", "[%s]", `{"a":%s}`, "[0,%s ,%s]", "\t%s\n"} {
				decideJSON(t, strings.ReplaceAll(f, "%s", s), jsonDecs, false)
			}
		})
	}
	many := decimals(10000)
	if !c.quick {
		many = decimals(200000)
	}
	many = append(many, longNumbers()...)
	c.Bound("number_sweep", fmt.Sprint(len(many)))
	for i := 0; i < len(many); i += 200 {
		part := many[i:min(i+200, len(many))]
		c.Case(func() string { return "numbers from " + part[0] }, func(t *T) {
			decideJSON(t, "["+strings.Join(part, ",")+"]", two, false)
			for j, s := range part {
				if j%20 == 0 {
					decideJSON(t, s, two, false)
					decideJSON(t, `{"n":`+s+`}`, two, false)
				}
			}
		})
	}
	// 5. escapes: every \uXXXX, both hex cases, surrogate pairs, short escapes, runs of backslashes; as text and as key
	docs := func(s string) []string {
		return []string{`"` + s + `"`, `["` + s + `"]`, `{"` + s + `":1}`, `{"a":"` + s + `","x` + s + `y":"x` + s + `y","z":[]}`, `["","` + s + `\\","` + s + `"]`}
	}
	step := 64
	for u := 0; u < 0x10000; u += step {
		u := u
		c.Case(func() string { return fmt.Sprintf("escapes \\u%04x..", u) }, func(t *T) {
			for x := u; x < u+step; x++ {
				if x >= 0xd800 && x < 0xe000 {
					continue
				}
				s := fmt.Sprintf(`\u%04x`, x)
				if x%3 == 0 {
					s = fmt.Sprintf(`\u%04X`, x)
				}
				for _, doc := range docs(s)[1:4] {
					decideJSON(t, doc, two, false)
				}
			}
		})
	}
	for hi := 0xd800; hi < 0xdc00; hi++ {
		hi := hi
		c.Case(func() string { return fmt.Sprintf("all pairs of \\u%04x", hi) }, func(t *T) {
			var b strings.Builder
			b.WriteString("[")
			for lo := 0xdc00; lo < 0xe000; lo++ {
				if lo > 0xdc00 {
					b.WriteString(",")
				}
				fmt.Fprintf(&b, `"\u%04x\u%04x"`, hi, lo)
			}
			b.WriteString("]")
			decideJSON(t, b.String(), two[:1+hi%2], false)
		})
	}
	runeSweep(1024, func(lo rune, rs []rune) {
		c.Case(func() string { return fmt.Sprintf("raw text from U+%04X", lo) }, func(t *T) { decideJSON(t, string(refEncode(runeTree(rs))), two, false) })
	})
	for hi := 0xd800; hi < 0xdc00; hi += 16 {
		hi := hi
		c.Case(func() string { return fmt.Sprintf("surrogates \\u%04x..", hi) }, func(t *T) {
			for h := hi; h < hi+16; h++ {
				for _, lo := range []int{0xdc00, 0xdc01, 0xde00, 0xdfff} {
					s := fmt.Sprintf(`\u%04x\u%04X`, h, lo)
					for _, doc := range docs(s)[1:4] {
						decideJSON(t, doc, two, false)
					}
				}
			}
		})
	}
	el := 4
	if !c.quick {
		el = 5
	}
	c.Bound("escape_pieces", fmt.Sprint(el))
	for _, s := range strsOver([]string{`\"`, `\\`, `\n`, `\/`, `\u0041`, `\ud83d\ude00`, "a", "é", "/", "u"}, el) {
		s := s
		c.Case(func() string { return "escape text " + s }, func(t *T) {
			for i, doc := range docs(s) {
				if len(s) > 12 && i == 0 {
					continue
				}
				decideJSON(t, doc, two, false)
			}
		})
	}
	for _, e := range []string{`\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`} {
		for _, s := range []string{e, "x" + e, e + "y", e + e, e + e + e, "x" + e + "y"} {
			s := s
			c.Case(func() string { return "short escape " + s }, func(t *T) {
				for _, doc := range docs(s) {
					decideJSON(t, doc, jsonDecs, false)
				}
			})
		}
	}
	// 6. unterminated strings: every prefix of documents full of escapes; quote structure
	for _, doc := range []string{`{"a\"b":"c\\","d":["\\\"","\u0041\""],"e\\":{"f\\\"":"\\\\"}}`, `["\\","\"","\\\\","\\\"",""]`, `{"":"","\\":"\\","\"":"\""}`, `{"k":"v","kk":[true,false,null,1.5e3,"é\u00e9"],"z":{"y":{"x":[[],{}]}}}`} {
		for i := 1; i <= len(doc); i++ {
			p := doc[:i]
			c.Case(func() string { return "prefix " + p }, func(t *T) {
				decideJSON(t, p, jsonDecs, false)
				for _, x := range []string{`"`, `\`, `}`, `]`, `,`, `"}`, `"]`, `\"}`, `\"]`, `1`, `:`} {
					decideJSON(t, p+x, two, false)
				}
			})
		}
	}
	// 7. first access by decoded key on an untouched value
	for _, k := range append(strsOver(escAlphabet[:11], 2), runeStrings()[:256]...) {
		k := k
		c.Case(func() string { return "key " + strconv.QuoteToASCII(k) }, func(t *T) {
			kj, _ := json.Marshal(k)
			esc := ""
			for _, r := range k {
				if r >= 0x10000 {
					r -= 0x10000
					esc += fmt.Sprintf(`\u%04x\u%04x`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
				} else {
					esc += fmt.Sprintf(`\u%04x`, r)
				}
			}
			for _, spelled := range []string{string(kj), `"` + esc + `"`} {
				doc := `{"first0":0,` + spelled + `:{"in":` + spelled + `},"last0":[1]}`
				for _, dec := range jsonDecs {
					v, err := dec.f([]byte(doc))
					if err != nil {
						t.Failf("%s rejects %s: %v", dec.name, doc, err)
					}
					x := v.ValueByName(k)
					t.Op()
					if x == nil {
						t.Failf("%s of %s: key %q not found", dec.name, doc, k)
					}
					if s := full(x, mObj("in", mStr(k)), jsonEq); s != "" {
						t.Failf("%s of %s: %s", dec.name, doc, s)
					}
					v2, _ := dec.f([]byte(doc))
					if v2.ValueByName(k+"?") != nil {
						t.Failf("%s of %s: absent key %q found", dec.name, doc, k+"?")
					}
					if got := v2.StringByPath("none", k, "in"); got != k {
						t.Failf("%s of %s: by path %q", dec.name, doc, got)
					}
					t.Op()
					t.Trace()
				}
			}
		})
	}
	// 8. white space of every length between all tokens, and one other byte inside it
	wl := 140
	if !c.quick {
		wl = 700
	}
	c.Bound("white_space_run", fmt.Sprintf("every length <= %d, around powers of two up to 65536", wl))
	for _, parts := range [][]string{{"{", `"a"`, ":", "[", "1", ",", `"b"`, "]", ",", `"c"`, ":", "null", "}"}, {"[", "{", "}", ",", "[", "]", ",", "true", ",", "-2.5", "]"}} {
		parts := parts
		var lens []int
		for n := 0; n <= wl; n++ {
			lens = append(lens, n)
		}
		for p := 256; p <= 65536; p *= 2 {
			lens = append(lens, p-1, p, p+1)
		}
		for pos := 0; pos <= len(parts); pos++ {
			pre, post := strings.Join(parts[:pos], ""), strings.Join(parts[pos:], "")
			for _, base := range []string{" ", "\t", "\n", "\r", " \t\r\n"} {
				base := base
				c.Case(func() string { return fmt.Sprintf("white space %q runs between %q and %q", base, pre, post) }, func(t *T) {
					for _, n := range lens {
						ws := strings.Repeat(base, n/len(base)+1)[:n]
						decideJSON(t, pre+ws+post, two, false)
						if base != " " && base != " \t\r\n" || n == 0 || n > 300 {
							continue
						}
						for _, bad := range []string{"\x00", "\x01", "\x08", "\x0b", "\x0c", "\x0e", "\x1f", "!", "\x7f", "\x80", "\xa0", "x"} {
							for _, at := range []int{0, n / 2, n - 1} {
								if at != n/2 && bad != "\x0b" && bad != "\x00" && bad != "x" {
									continue
								}
								decideJSON(t, pre+ws[:at]+bad+ws[at+1:]+post, two[:1+n%2], false)
							}
						}
					}
				})
			}
		}
	}
}

// c02deep: nested containers of every depth of a grid in which one level is closed, opened or separated wrongly.
func c02deep(c *Ctx) {
	lim := 1100
	if !c.quick {
		lim = 9000
	}
	var depths []int
	for i := 1; i < 64; i++ {
		depths = append(depths, i)
	}
	depths = append(depths, sizeGrid(lim)...)
	forms := []struct {
		name        string
		open, close func(i int) string
	}{
		{"arrays", func(i int) string { return "[" }, func(i int) string { return "]" }},
		{"objects", func(i int) string { return `{"a":` }, func(i int) string { return "}" }},
		{"in turn", func(i int) string { return []string{"[", `{"a":`}[i&1] }, func(i int) string { return []string{"]", "}"}[i&1] }},
		{"with neighbours", func(i int) string { return []string{"[1,", `{"b":2,"a":`}[i/3&1] }, func(i int) string { return []string{",3]", `,"c":4}`}[i/3&1] }},
	}
	c.Bound("deep_breaks", fmt.Sprintf("%d depths up to %d, four forms, one level broken in ten ways at the picked levels", len(depths), lim))
	for _, f := range forms {
		for _, n := range depths {
			f, n := f, n
			wcase(c, func() string { return fmt.Sprintf("%s nested %d deep, one level broken", f.name, n) }, func(t *T) {
				opens, closes := make([]string, n), make([]string, n)
				for i := range opens {
					opens[i], closes[n-1-i] = f.open(i), f.close(i)
				}
				text := func() string { return strings.Join(opens, "") + "1" + strings.Join(closes, "") }
				decideJSON(t, text(), jsonDecs, false)
				two := []decoder{jsonDecs[0], jsonDecs[3]}
				for _, i := range picks(n) {
					o, cl := opens[i], closes[i]
					last := cl[len(cl)-1:]
					other := map[string]string{"]": "}", "}": "]"}[last]
					for _, x := range []string{cl[:len(cl)-1] + other, "", cl + cl, cl + last, cl + ",", "," + cl, cl[:len(cl)-1] + ")", cl[:len(cl)-1] + " ", cl[:len(cl)-1] + ":", cl + other} {
						closes[i] = x
						decideJSON(t, text(), two, false)
					}
					closes[i] = cl
					for _, x := range []string{"", o + o, "[" + o, `{` + o, o + ",", strings.Replace(o, ":", "", 1), strings.Replace(o, `"`, "", 1), " " + o + " "} {
						opens[i] = x
						decideJSON(t, text(), two, false)
					}
					opens[i] = o
				}
			})
		}
		if c.Stop() {
			return
		}
	}
}
