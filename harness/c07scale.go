package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"

	d "github.com/suiyunonghen/dxsvalue"
	"github.com/suiyunonghen/dxsvalue/verifrt"
)

// Work and memory grow in proportion: families of documents that grow without bound in one feature.

type family struct {
	f, name string
	quad    bool // keys of one map: quadratic work is allowed
	mk      func(n int) string
}

func scaleFamilies() []family {
	var fs []family
	add := func(f, name string, quad bool, mk func(n int) string) { fs = append(fs, family{f, name, quad, mk}) }
	around := func(f, name, pre, unit, post string) {
		add(f, name, false, func(n int) string { return pre + strings.Repeat(unit, n) + post })
	}
	for _, u := range []string{"x", "é", "😀", `\\`, `\"`, `\n`, `\/`, `\u0041`, `\u00e9`, `\u4e2d`, `\ud83d\ude00`, `\ud83d`, `\q`, `\u00`, "\n", "\t", " ", "x\\\\\\\"", `a\nbcdefgh`, `'`, `Date(`, "\x00", "\xff"} {
		around("json", fmt.Sprintf("text of %q", u), `"`, u, `"`)
		around("json", fmt.Sprintf("unfinished text of %q", u), `"`, u, ``)
		around("json", fmt.Sprintf("text of %q in an array", u), `[1,"`, u, `"]`)
		around("json", fmt.Sprintf("key of %q", u), `{"`, u, `":1}`)
		around("json", fmt.Sprintf("array of texts %q", u), `["z"`, `,"`+u+`"`, `]`)
		around("json", fmt.Sprintf("objects with key %q", u), `[0`, `,{"`+u+`":"`+u+`"}`, `]`)
	}
	for _, u := range []string{"1", "0", "-1", "1.5", "1e5", "12345678901234567890", "true", "null", "inf", "nan", "-inf", "[]", "{}", "[[1]]", `{"a":{"b":[1]}}`, ` 1`, "1 ", "\n", "\"\"", `"Date(1)"`, `"Date(2020-01-02)"`} {
		around("json", fmt.Sprintf("array of %s", u), "[0", ","+u, "]")
		around("json", fmt.Sprintf("unfinished array of %s", u), "[0", ","+u, "")
		around("json", fmt.Sprintf("array of %s, wrong end", u), "[0", ","+u, "}")
		around("json", fmt.Sprintf("array of arrays of %s", u), "[[0]", ",["+u+"]", "]")
	}
	for _, w := range []string{" ", "\n", "\t", "\r\n"} {
		around("json", fmt.Sprintf("%q before", w), "", w, "[1]")
		around("json", fmt.Sprintf("%q after", w), "[1]", w, "")
		around("json", fmt.Sprintf("only %q", w), "", w, "")
		around("json", fmt.Sprintf("%q inside", w), "[1", w, ",2]")
		around("json", fmt.Sprintf("%q after colon", w), `{"a":`, w, "2}")
		around("json", fmt.Sprintf("%q before colon", w), `{"a"`, w, ":2}")
		around("json", fmt.Sprintf("%q in empty", w), `{`, w, "}")
		around("json", fmt.Sprintf("%q after number", w), `1`, w, "")
	}
	for _, u := range []string{"1", "0", "9", "-", ".", "e", "0.1", "+", "1e"} {
		around("json", fmt.Sprintf("number of %s", u), "", u, "")
		around("json", fmt.Sprintf("number 0.%s", u), "0.", u, "")
		around("json", fmt.Sprintf("number of %s in an array", u), "[1.", u, ",1]")
	}
	obj := func(f func(i int) string) func(n int) string {
		return func(n int) string {
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteString(f(i))
			}
			return b.String()
		}
	}
	add("json", "keys", true, func(n int) string {
		return "{" + strings.TrimSuffix(obj(func(i int) string { return fmt.Sprintf(`"k%d":%d,`, i, i) })(n), ",") + "}"
	})
	add("json", "escaped keys", true, func(n int) string {
		return "{" + strings.TrimSuffix(obj(func(i int) string { return fmt.Sprintf(`"k\n%d":%d,`, i, i) })(n), ",") + "}"
	})
	add("json", "keys, unfinished", true, func(n int) string { return "{" + obj(func(i int) string { return fmt.Sprintf(`"k%d":%d,`, i, i) })(n) })
	// MsgPack
	be := func(h byte, n int) string {
		return string([]byte{h, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
	}
	for _, u := range []string{"\x01", "\xc0", "\xc3", "\xa0", "\xa1a", "\x90", "\x80", "\x91\x01", "\x81\xa1a\x01", "\xcb\x40\x09\x21\xfb\x54\x44\x2d\x18", "\xd3\x00\x00\x00\x00\x00\x00\x00\x01", "\xc4\x01a", "\xc7\x03\x05abc", "\xd6\xff\x00\x00\x00\x01", "\xca\x3f\x80\x00\x00"} {
		u := u
		add("mp", fmt.Sprintf("array of % x", u), false, func(n int) string { return be(0xdd, n) + strings.Repeat(u, n) })
		add("mp", fmt.Sprintf("short array of % x", u), false, func(n int) string { return be(0xdd, n) + strings.Repeat(u, n-1) })
		add("mp", fmt.Sprintf("nested arrays of % x", u), false, func(n int) string { return be(0xdd, n) + strings.Repeat("\x91"+u, n) })
	}
	for _, h := range []byte{0xdb, 0xc6} {
		h := h
		add("mp", fmt.Sprintf("payload %x", h), false, func(n int) string { return be(h, n) + strings.Repeat("x", n) })
		add("mp", fmt.Sprintf("short payload %x", h), false, func(n int) string { return be(h, n+1) + strings.Repeat("x", n) })
	}
	add("mp", "payload c9", false, func(n int) string { return be(0xc9, n) + "\x05" + strings.Repeat("x", n) })
	add("mp", "keys", true, func(n int) string {
		return be(0xdf, n) + obj(func(i int) string { return fmt.Sprintf("\xa8%08d\x01", i) })(n)
	})
	// BSON
	le := func(n int) string { return string([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}) }
	doc := func(body string) string { return le(len(body)+5) + body + "\x00" }
	for _, u := range []string{"\x10%\x01\x00\x00\x00", "\x0a%", "\x08%\x01", "\x02%\x01\x00\x00\x00\x00", "\x02%\x03\x00\x00\x00ab\x00", "\x03%\x05\x00\x00\x00\x00", "\x04%\x05\x00\x00\x00\x00", "\x05%\x01\x00\x00\x00\x00a", "\x01%\x00\x00\x00\x00\x00\x00\xf0\x3f"} {
		u := u
		mk := func(n int) string {
			return obj(func(i int) string { return strings.Replace(u, "%", fmt.Sprintf("%d\x00", i), 1) })(n)
		}
		add("bson", fmt.Sprintf("array of % x", u), false, func(n int) string { return doc("\x04a\x00" + doc(mk(n))) })
		add("bson", fmt.Sprintf("document of % x", u), true, func(n int) string { return doc(mk(n)) })
		add("bson", fmt.Sprintf("cut array of % x", u), false, func(n int) string { s := doc("\x04a\x00" + doc(mk(n))); return s[:len(s)-3] })
	}
	add("bson", "text", false, func(n int) string { return doc("\x02a\x00" + le(n+1) + strings.Repeat("x", n) + "\x00") })
	add("bson", "binary", false, func(n int) string { return doc("\x05a\x00" + le(n) + "\x00" + strings.Repeat("x", n)) })
	add("bson", "key", false, func(n int) string { return doc("\x0a" + strings.Repeat("x", n) + "\x00") })
	add("bson", "unfinished key", false, func(n int) string { s := doc("\x0a" + strings.Repeat("x", n)); return s[:len(s)-1] + "x" })
	// YAML
	for _, u := range []string{"- 1\n", "- a\n", "-\n  - 1\n", "-\n  a: 1\n", "- a: 1\n  b: 2\n", "- true\n", "- 1.5\n", "# x\n", "\n", "  \n", "- a # x\n", "-\n", "- &a 1\n- *a\n", "-\n  &a\n", "- a: 1\n", "- a\n  b\n", "-\n  a:\n    - 1\n    - b: 2\n"} {
		around("yaml", fmt.Sprintf("lines %q", u), "- 0\n", u, "")
		around("yaml", fmt.Sprintf("lines %q below a key", u), "k:\n  - 0\n", "  "+strings.Replace(strings.TrimSuffix(u, "\n"), "\n", "\n  ", -1)+"\n", "")
		around("yaml", fmt.Sprintf("lines %q first", u), "", u, "- 0\n")
		around("yaml", fmt.Sprintf("lines %q before a broken one", u), "- 0\n", u, ": :\n x: y\n  *\n")
	}
	for _, u := range []string{"x", " ", "#", "- ", "a: ", "é", "&", "*", "1", ":", "\r", "\t"} {
		around("yaml", fmt.Sprintf("scalar of %q", u), "a: z", u, "\nb: 1\n")
		around("yaml", fmt.Sprintf("item of %q", u), "- z", u, "\n- 1\n")
		around("yaml", fmt.Sprintf("line of %q", u), "", u, "\na: 1\n")
		around("yaml", fmt.Sprintf("key of %q", u), "z", u, ": 1\n")
	}
	for _, u := range []string{"  x\n", "  x y\n", "   x\n", "x\n", "\n  x\n", "  # c\n", "  x # c\n"} {
		around("yaml", fmt.Sprintf("continued by %q", u), "a: y\n", u, "b: 1\n")
		around("yaml", fmt.Sprintf("item continued by %q", u), "- y\n", u, "- 1\n")
		around("yaml", fmt.Sprintf("literal of %q", u), "a: |\n", u, "b: 1\n")
		around("yaml", fmt.Sprintf("folded %q", u), "a: >\n", u, "b: 1\n")
	}
	add("yaml", "keys", true, obj(func(i int) string { return fmt.Sprintf("k%d: %d\n", i, i) }))
	add("yaml", "keys with mappings", true, obj(func(i int) string { return fmt.Sprintf("k%d:\n  a: %d\n", i, i) }))
	return fs
}

func threadCPU() float64 {
	var u syscall.Rusage
	syscall.Getrusage(1 /* RUSAGE_THREAD */, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

type effort struct {
	steps, alloc float64
	cpu          float64
}

func scaling(c *Ctx) {
	fs := scaleFamilies()
	const base = 2000
	factors := []int{1, 2, 4, 8}
	hugeBytes := 1 << 20
	if !c.quick {
		factors = append(factors, 16, 32)
		hugeBytes = 4 << 20
	}
	c.Bound("growing_families", fmt.Sprintf("%d families of documents that grow in one feature, n = %d x %v: statements and bytes allocated by decoding, reading and encoding grow at most 1.5 [2.5] times as fast as n (as n*n for the keys of one map); documents of %d MiB within 5 s of processor time", len(fs), base, factors, hugeBytes>>20))
	for _, f := range fs {
		f := f
		c.Case(func() string { return f.f + ": growing " + f.name }, func(t *T) {
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
			decs := formats[f.f].decs
			if f.f == "json" {
				decs = []decoder{decs[0], decs[3], decs[5], decs[8]}
			} else if f.f != "yaml" {
				decs = []decoder{decs[0], decs[3], decs[4], decs[5]}
			}
			measure := func(dec decoder, n int) (parts []effort) {
				in := []byte(f.mk(n))
				part := func(g func()) {
					verifrt.Start(1 << 40)
					a, p := allocated(), threadCPU()
					msg := try(g)
					e := effort{float64(verifrt.Steps()), float64(allocated() - a), threadCPU() - p}
					verifrt.Start(defaultBudget)
					if msg != "" {
						t.Failf("%s of %s, n=%d: %s", dec.name, f.name, n, msg)
					}
					parts = append(parts, e)
				}
				var v *d.DxValue
				var err error
				part(func() {
					v, err = dec.f(in)
					if err != nil {
						_ = err.Error()
					}
				})
				if err == nil && v != nil {
					part(func() {
						_ = v.String()
						v.Visit(func(k string, x *d.DxValue) bool { _ = x.DataType <= d.VT_Array || x.String() == ""; return true })
					})
					part(func() { v.ToJson(false, d.JSE_AllEscape, false, nil) })
					part(func() { v.ToJson(true, d.JSE_OnlyAnsiChar, false, nil) })
					part(func() { v.ToMsgPack(nil) })
					part(func() { v.ToBson(nil) })
					part(func() { x := v.Clone(true); x.Equal(v); d.FreeValue(x) })
					if dec.cached {
						d.FreeValue(v)
					}
				}
				t.Op()
				return
			}
			names := []string{"decoding", "reading", "encoding JSON", "encoding indented JSON", "encoding MessagePack", "encoding BSON", "cloning and comparing"}
			for _, dec := range decs {
				verifrt.ResetPools()
				var first []effort
				for _, k := range factors {
					es := measure(dec, base*k)
					if k == 1 {
						first = es
						continue
					}
					fk := float64(k)
					if f.quad {
						fk *= fk
					}
					for i, e := range es {
						if i >= len(first) {
							break
						}
						if e.steps > 1.5*fk*first[i].steps+20000 {
							t.Failf("%s, %s, %s: %.0f statements for n=%d, %.0f for n=%d", f.name, dec.name, names[i], first[i].steps, base, e.steps, base*k)
						}
						if e.alloc > 2.5*fk*first[i].alloc+8<<20 {
							t.Failf("%s, %s, %s: %.0f bytes allocated for n=%d, %.0f for n=%d", f.name, dec.name, names[i], first[i].alloc, base, e.alloc, base*k)
						}
					}
				}
				if !f.quad && (dec.name == decs[0].name || !c.quick) {
					unit := len(f.mk(1001)) - len(f.mk(1))
					huge := hugeBytes * 1000 / max(unit, 1000)
					if strings.Contains(f.name, "array") || strings.Contains(f.name, "lines") {
						huge = min(huge, hugeBytes/5) // one node for every unit
					}
					runtime.GC()
					old := debug.SetGCPercent(30)
					es := measure(dec, huge)
					debug.SetGCPercent(old)
					for i, e := range es {
						if ms := int64(e.cpu * 1000); ms > c.counters["max_ms_large_document"] {
							c.counters["max_ms_large_document"] = ms
						}
						if e.cpu > 5 {
							t.Failf("%s, %s, %s: %.1f s of processor time for n=%d", f.name, dec.name, names[i], e.cpu, huge)
						}
					}
				}
				t.Trace()
			}
			t.State("scale " + f.f + f.name)
		})
	}
}
