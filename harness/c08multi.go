package main

import (
	"fmt"
	"strings"
)

// Plain scalars that go on over several lines: the lines are joined by single spaces.

func c08multi(c *Ctx) {
	firsts := []string{"x", "two words", "5", "1.50", "-7e2", "12345678901234567890", "true", "http://h:80/p", "a#b", "é中", "e"}
	rests := []string{"y", "more  words", "6", "2.50", "true", "false", "a:b", "p#q", "*b", "&c", "😀", "-1", "--", "1e3", "[z]"}
	type ctx struct {
		name      string
		pre, post string
		col       int  // the column continuation lines must exceed
		key       bool // the value belongs to a key: it may start on the next line
		m         func(x *M) *M
	}
	ctxs := []ctx{
		{"only member", "a:", "", 0, true, func(x *M) *M { return mObj("a", x) }},
		{"first member", "a:", "b: 1\n", 0, true, func(x *M) *M { return mObj("a", x, "b", mInt(1)) }},
		{"last member", "z: 1\na:", "", 0, true, func(x *M) *M { return mObj("z", mInt(1), "a", x) }},
		{"inner member", "o:\n   a:", "   b: s\nc: 2\n", 3, true, func(x *M) *M { return mObj("o", mObj("a", x, "b", mStr("s")), "c", mInt(2)) }},
		{"end of inner", "o:\n  b: s\n  a:", "c: 2\n", 2, true, func(x *M) *M { return mObj("o", mObj("b", mStr("s"), "a", x), "c", mInt(2)) }},
		{"only entry", "-", "", 0, false, func(x *M) *M { return mArr(x) }},
		{"first entry", "-", "- 1\n", 0, false, func(x *M) *M { return mArr(x, mInt(1)) }},
		{"entry between", "- s\n-", "- t\n", 0, false, func(x *M) *M { return mArr(mStr("s"), x, mStr("t")) }},
		{"entry of a member", "a:\n- s\n-", "b: 1\n", 0, false, func(x *M) *M { return mObj("a", mArr(mStr("s"), x), "b", mInt(1)) }},
		{"indented entry", "a:\n  -", "  - u\nb: 1\n", 2, false, func(x *M) *M { return mObj("a", mArr(x, mStr("u")), "b", mInt(1)) }},
		{"member in an entry", "- a:", "  b: 1\n- 2\n", 2, true, func(x *M) *M { return mArr(mObj("a", x, "b", mInt(1)), mInt(2)) }},
		{"last member in an entry", "- b: 1\n  a:", "- 2\n", 2, true, func(x *M) *M { return mArr(mObj("b", mInt(1), "a", x), mInt(2)) }},
		{"deep", "p:\n  q:\n  - r:\n      s:", "      t: 1\n  - 3\nu: 4\n", 6, true, func(x *M) *M {
			return mObj("p", mObj("q", mArr(mObj("r", mObj("s", x, "t", mInt(1))), mInt(3))), "u", mInt(4))
		}},
	}
	scalar := func(s string) *M {
		switch s {
		case "true", "false":
			return mK(map[string]Kind{"true": KTrue, "false": KFalse}[s])
		}
		if m, err := refJSON([]byte(s)); err == nil && s != "null" {
			return m
		}
		return mStr(s)
	}
	maxLines := 3
	if !c.quick {
		maxLines = 5
	}
	c.Bound("continued_text", fmt.Sprintf("%d places x %d first lines x up to %d continuation lines out of %d x indentations x line ends", len(ctxs), len(firsts), maxLines-1, len(rests)))
	for _, cx := range ctxs {
		for _, f := range firsts {
			cx, f := cx, f
			c.Case(func() string { return fmt.Sprintf("%s: text going on from %q", cx.name, f) }, func(t *T) {
				var rec func(lines []string)
				rec = func(lines []string) {
					m := cx.m(mStr(strings.Join(lines, " ")))
					if len(lines) == 1 {
						m = cx.m(scalar(lines[0]))
					}
					for v := 0; v < 24; v++ {
						next := v&1 == 1 // starts on the next line
						if next && !cx.key || len(lines) == 1 && v >= 4 {
							continue
						}
						if len(lines) > 2 && (v+len(lines[1])+len(lines[2]))%6 != 0 && c.quick {
							continue
						}
						eol, noise := "\n", ""
						if v&2 == 2 {
							eol = "\r\n"
						}
						if v&4 == 4 {
							noise = " # last line"
						}
						extra := v >> 3 // indentation of the lines
						var b strings.Builder
						b.WriteString(cx.pre)
						for i, l := range lines {
							if i == 0 && !next {
								b.WriteString(" " + l)
							} else {
								if i > 0 || next {
									b.WriteString(eol)
								}
								in := cx.col + 1 + []int{0, 2, i % 3}[extra]
								b.WriteString(strings.Repeat(" ", in) + l)
							}
						}
						b.WriteString(noise + eol)
						b.WriteString(strings.Replace(cx.post, "\n", eol, -1))
						doc := b.String()
						if v%5 == 0 && cx.post == "" {
							doc = strings.TrimRight(doc, "\r\n")
						}
						yamlDecide(t, m, doc, jsonEq, v == 0)
						t.State(doc)
					}
					if len(lines) < maxLines {
						for ri, r := range rests {
							if len(lines) > 2 && ri%4 != 0 {
								continue
							}
							rec(append(append([]string{}, lines...), r))
						}
					}
				}
				rec([]string{f})
			})
		}
		if c.Stop() {
			return
		}
	}
}
