package main

import (
	"bytes"
	"fmt"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
)

// C10: buffers are neither modified nor aliased. C19: encoders append.

func init() {
	register("C10", runC10,
		"every document of the set, through every decoder, with the input placed inside a larger guarded buffer: the whole buffer must stay as it was while decoding, reading and (unless sharing) changing every node; with sharing off the input is overwritten with several patterns before anything is read and the value must be unaffected; every encoder's output and every copied-in binary is overwritten likewise",
		"with sharing requested, later writes to the input (or to the slice Binary() hands out) may show in the value; setters must still not write to the shared memory")
	register("C19", runC19,
		"every tree up to a node bound and every document of the set is encoded by every encoder into every destination shape (content length x spare capacity); result, destination content and repeated encoding are compared byte for byte")
}

const guardLen = 300

// guarded places b inside a larger buffer with canary bytes behind it (within capacity).
func guarded(b []byte) (all, in []byte) {
	all = make([]byte, guardLen+len(b)+guardLen)
	for i := range all {
		all[i] = byte(0xa0 + i%7)
	}
	copy(all[guardLen:], b)
	return all, all[guardLen : guardLen+len(b)]
}

func overwrite(b []byte, pat int) {
	for i := range b {
		switch pat {
		case 0:
			b[i] = 0
		case 1:
			b[i] ^= 0x55
		case 2:
			b[i] = '"'
		case 3:
			b[i] = 'Z'
		}
	}
}

// mutateAll changes every node of the tree in place.
func mutateAll(v *d.DxValue) {
	if v == nil || v.ReadOnly() {
		return
	}
	switch v.DataType {
	case d.VT_Object, d.VT_Array:
		for i := 0; i < v.Count(); i++ {
			_, c := v.Items(i)
			mutateAll(c)
		}
		if v.DataType == d.VT_Object {
			v.SetKeyString("mut", "M")
			if v.Count() > 1 {
				v.RemoveKey(v.KeyNameByIndex(0))
			}
		} else {
			v.InsertValue(0, d.VT_Int)
		}
	case d.VT_Binary, d.VT_ExBinary:
		b := v.Binary()
		for i := range b {
			b[i] ^= 0xff
		}
		v.SetExtType(77)
		v.SetBinary([]byte("0123456789abcdef0123456789"), true)
		v.SetBinary([]byte("x"), true)
	case d.VT_String, d.VT_RawString:
		v.SetString(v.String() + "~")
	case d.VT_Int:
		v.SetInt(v.Int() + 1)
	default:
		v.SetInt(9)
	}
}

// nodeMutators change one node in place, through setters only.
var nodeMutators = []struct {
	name string
	cont bool // for containers
	f    func(v *d.DxValue)
}{
	{"SetBinary longer, copied", false, func(v *d.DxValue) { v.SetBinary([]byte("0123456789abcdef0123456789"), true) }},
	{"SetBinary longer", false, func(v *d.DxValue) { v.SetBinary([]byte("0123456789abcdef0123456789"), false) }},
	{"SetBinary of one byte", false, func(v *d.DxValue) { v.SetBinary([]byte("x"), true) }},
	{"SetBinary by one more byte", false, func(v *d.DxValue) { v.SetBinary(append(append([]byte{}, v.Binary()...), 'x'), true) }},
	{"SetExtType", false, func(v *d.DxValue) { v.SetExtType(77) }},
	{"SetExtType, SetBinary", false, func(v *d.DxValue) { v.SetExtType(78); v.SetBinary([]byte("0123456789abcdef"), true); v.SetExtType(79) }},
	{"SetValue of bytes", false, func(v *d.DxValue) { v.SetValue([]byte("0123456789abcdef0123456789")) }},
	{"Reset to binary, SetBinary", false, func(v *d.DxValue) { v.Reset(d.VT_Binary); v.SetBinary([]byte("0123456789"), true) }},
	{"Reset to ext, SetExtType, SetBinary", false, func(v *d.DxValue) {
		v.Reset(d.VT_ExBinary)
		v.SetExtType(5)
		v.SetBinary([]byte("0123456789"), true)
	}},
	{"Clear, SetBinary", false, func(v *d.DxValue) { v.SetExtType(5); v.SetBinary([]byte("0123456789"), true) }},
	{"SetString", false, func(v *d.DxValue) { v.SetString(v.String() + "~") }},
	{"SetInt", false, func(v *d.DxValue) { v.SetInt(v.Int() + 1) }},
	{"SetDouble", false, func(v *d.DxValue) { v.SetDouble(2.5) }},
	{"SetKeyString", true, func(v *d.DxValue) { v.SetKeyString("mut", "M") }},
	{"RemoveKey, RemoveIndex", true, func(v *d.DxValue) {
		if v.DataType == d.VT_Object {
			v.RemoveKey(v.KeyNameByIndex(0))
		} else {
			v.RemoveIndex(0)
		}
	}},
	{"InsertValue", true, func(v *d.DxValue) {
		if v.DataType == d.VT_Array {
			v.InsertValue(0, d.VT_Int)
		}
	}},
}

// sharedSetters: v decoded from in with sharing. No setter on any one node may write to the input, or change any other
// node or another value sharing the same input.
func sharedSetters(t *T, dec func(b []byte) (*d.DxValue, error), doc []byte, m0 *M, in []byte, twin *d.DxValue, check func(string)) {
	var paths [][]int
	var walk func(m *M, p []int)
	walk = func(m *M, p []int) {
		if len(paths) > 40 {
			return
		}
		paths = append(paths, append([]int{}, p...))
		for i := range m.Vals {
			if len(m.Vals) > 12 && i > 4 && i < len(m.Vals)-4 {
				continue
			}
			walk(m.Vals[i], append(p, i))
		}
	}
	walk(m0, nil)
	for _, p := range paths {
		for _, mu := range nodeMutators {
			v, err := dec(in)
			if err != nil {
				t.Failf("decoding twice differs: %v", err)
			}
			n := v
			for _, i := range p {
				n = n.ValueByIndex(i)
			}
			if n == nil || n.ReadOnly() || mu.cont != (n.DataType == d.VT_Object || n.DataType == d.VT_Array) || mu.cont && n.Count() == 0 {
				continue
			}
			mu.f(n)
			t.Op()
			check(fmt.Sprintf("%s of node %v", mu.name, p))
			if s := full(v, replaced(m0, p, observe(n)), eqOpt{tol: 2 * time.Second}); s != "" {
				t.Failf("%s of node %v changes another node: %s", mu.name, p, s)
			}
		}
	}
	if s := full(twin, m0, eqOpt{tol: 2 * time.Second}); s != "" {
		t.Failf("changing values changes another value decoded from the same input: %s", s)
	}
}

// replaced is m with the node at path p replaced.
func replaced(m *M, p []int, n *M) *M {
	if len(p) == 0 {
		return n
	}
	c := *m
	c.Vals = append([]*M{}, m.Vals...)
	c.Vals[p[0]] = replaced(m.Vals[p[0]], p[1:], n)
	return &c
}

func runC10(c *Ctx) {
	c10alike(c)
	c10blobs(c)
	c10wide(c)
	docs := formatDocs()
	if !c.quick {
		seen := map[string]bool{}
		shapes(4, []*M{mStr("a\\"), mBin([]byte{7, 8}), mInt(300)}, []string{"k\n", "l"}, "cont", c.Stop, func(m *M) {
			for _, f := range []string{"mp", "bson"} {
				if f == "bson" && m.K != KObj {
					continue
				}
				b := encodeFor(f, m)
				if !seen[f+string(b)] {
					seen[f+string(b)] = true
					docs = append(docs, fdoc{formats[f], m, b, true, f + " " + m.String()})
				}
			}
		})
		shapes(4, []*M{mStr("a\\\n"), mInt(300)}, []string{"k\n", "l"}, "cont", c.Stop, func(m *M) {
			docs = append(docs, fdoc{formats["json"], m, encodeFor("json", m), true, "json " + m.String()})
			if !emptyInside(m) {
				m2 := mObj("w", m)
				_ = m2
			}
		})
	} else {
		shapes(3, []*M{mStr("a\\\n"), mInt(300)}, []string{"k\n", "l"}, "obj", c.Stop, func(m *M) {
			for _, f := range []string{"json", "mp", "bson"} {
				docs = append(docs, fdoc{formats[f], m, encodeFor(f, m), true, f + " " + m.String()})
			}
		})
	}
	docs = append(append(docs, sizeDocs()...), bigFdocs()...)
	for _, s := range seedDocs() {
		docs = append(docs, fdoc{formats[s.f], nil, []byte(s.b), false, "seed " + s.f})
	}
	for _, doc := range docs {
		doc := doc
		for _, dec := range doc.f.decs {
			dec := dec
			c.Case(func() string { return fmt.Sprintf("%s of %s (%q)", dec.name, doc.name, short(string(doc.b))) }, func(t *T) {
				all, in := guarded(doc.b)
				before := clone(all)
				check := func(when string) {
					if !bytes.Equal(all, before) {
						t.Failf("the input changed while %s:\n% x\n% x", when, before[guardLen:], all[guardLen:])
					}
				}
				v, err := dec.f(in)
				t.Op()
				check("decoding")
				if err != nil {
					t.Trace()
					return
				}
				m0 := observe(v)
				check("reading")
				for _, e := range jsonEncs {
					e.f(v)
				}
				v.ToMsgPack(nil)
				v.ToBson(nil)
				v.Clone(true)
				check("encoding")
				t.State(doc.f.name + string(doc.b) + dec.name)
				if dec.share {
					sharedSetters(t, dec.f, doc.b, m0, in, v, check)
					t.Trace()
					return
				}
				mutateAll(v)
				check("changing the value")
				for pat := 0; pat < 4; pat++ {
					_, in2 := guarded(doc.b)
					v2, err := dec.f(in2)
					if err != nil {
						t.Failf("decoding twice differs: %v", err)
					}
					overwrite(in2, pat)
					t.Op()
					if s := full(v2, m0, eqOpt{tol: 2 * time.Second}); s != "" {
						t.Failf("overwriting the input (pattern %d) changes the decoded value: %s", pat, s)
					}
					// a second time, now that everything has been read once
					_, in3 := guarded(doc.b)
					v3, _ := dec.f(in3)
					observe(v3)
					cl := v3.Clone(false)
					overwrite(in3, pat)
					t.Op()
					if s := full(v3, m0, eqOpt{tol: 2 * time.Second}); s != "" {
						t.Failf("overwriting the input (pattern %d) after reading changes the value: %s", pat, s)
					}
					if s := full(cl, m0, eqOpt{tol: 2 * time.Second}); s != "" {
						t.Failf("overwriting the input (pattern %d) changes a clone of the value: %s", pat, s)
					}
				}
				t.Trace()
			})
		}
	}
	// encoders do not hand out the value's memory
	type enc struct {
		name string
		f    func(v *d.DxValue) []byte
	}
	var encs []enc
	for _, e := range jsonEncs {
		encs = append(encs, enc{e.name, e.f})
	}
	for _, e := range mpEncs {
		encs = append(encs, enc{e.name, e.f})
	}
	for _, e := range bsonEncs {
		encs = append(encs, enc{e.name, e.f})
	}
	encs = append(encs, enc{"ToBson(nil)", func(v *d.DxValue) []byte { return v.ToBson(nil) }})
	trees := append(append(append(mpTrees(), bsonTrees()...), bigTrees()...), mExt(3, bytesOfLen(40)), mBin(bytesOfLen(40)), mStr(strOfLen(64)))
	for _, m := range trees {
		for _, e := range encs {
			m, e := m, e
			c.Case(func() string { return fmt.Sprintf("output of %s of %v", e.name, m) }, func(t *T) {
				for _, cached := range []bool{false, true} {
					v := build(m, cached)
					m0 := observe(v)
					for pat := 0; pat < 4; pat++ {
						out := e.f(v)
						overwrite(out, pat)
						overwrite(out[:cap(out)], pat)
						t.Op()
						if s := full(v, m0, eqOpt{tol: 2 * time.Second}); s != "" {
							t.Failf("overwriting the output of %s changes the value: %s", e.name, s)
						}
					}
					t.State(e.name + m.String())
					t.Trace()
				}
			})
		}
	}
	// binaries stored with copying
	stores := []struct {
		name string
		f    func(b []byte) (*d.DxValue, *M)
	}{
		{"SetBinary", func(b []byte) (*d.DxValue, *M) {
			v := d.NewValue(d.VT_Binary)
			v.SetBinary(b, true)
			return v, mBin(clone(b))
		}},
		{"SetBinary ext", func(b []byte) (*d.DxValue, *M) {
			v := d.NewValue(d.VT_ExBinary)
			v.SetExtType(4)
			v.SetBinary(b, true)
			return v, mExt(4, clone(b))
		}},
		{"SetBinary over shared", func(b []byte) (*d.DxValue, *M) {
			v := d.NewValue(d.VT_Binary)
			v.SetBinary(make([]byte, 4), false)
			v.SetBinary(b, true)
			return v, mBin(clone(b))
		}},
		{"SetBinary over ext data", func(b []byte) (*d.DxValue, *M) {
			v := d.NewValue(d.VT_ExBinary)
			v.SetExtType(4)
			v.SetBinary(make([]byte, 4), false)
			v.SetExtType(9)
			v.SetBinary(b, true)
			return v, mExt(9, clone(b))
		}},
		{"SetValue", func(b []byte) (*d.DxValue, *M) { return d.NewValueFrom(b, false), mBin(clone(b)) }},
		{"SetValue cached", func(b []byte) (*d.DxValue, *M) { return d.NewValueFrom(&b, true), mBin(clone(b)) }},
		{"SetKeyvalue", func(b []byte) (*d.DxValue, *M) {
			v := d.NewObject(false)
			v.SetKeyvalue("k", b, nil)
			return v, mObj("k", mBin(clone(b)))
		}},
		{"SetKeyvalue pointer", func(b []byte) (*d.DxValue, *M) {
			v := d.NewObject(true)
			v.SetKeyvalue("k", &b, v.ValueCache())
			return v, mObj("k", mBin(clone(b)))
		}},
		{"SetIndexvalue", func(b []byte) (*d.DxValue, *M) {
			v := d.NewArray(false)
			v.SetIndexvalue(0, b, nil)
			return v, mArr(mBin(clone(b)))
		}},
		{"SetIndexvalue pointer", func(b []byte) (*d.DxValue, *M) {
			v := d.NewArray(true)
			v.SetIndexvalue(0, &b, v.ValueCache())
			return v, mArr(mBin(clone(b)))
		}},
		{"struct field", func(b []byte) (*d.DxValue, *M) {
			return d.NewValueFrom(struct{ B []byte }{b}, false), mObj("B", mBin(clone(b)))
		}},
		{"map entry", func(b []byte) (*d.DxValue, *M) {
			return d.NewValueFrom(map[string]interface{}{"k": b}, false), mObj("k", mBin(clone(b)))
		}},
		{"typed map entry", func(b []byte) (*d.DxValue, *M) {
			return d.NewValueFrom(map[string][]byte{"k": b}, false), mObj("k", mBin(clone(b)))
		}},
		{"slice element", func(b []byte) (*d.DxValue, *M) {
			return d.NewValueFrom([]interface{}{b, [][]byte{b}}, false), mArr(mBin(clone(b)), mArr(mBin(clone(b))))
		}},
	}
	for _, st := range stores {
		for _, n := range []int{0, 1, 2, 8, 31, 32, 33, 64, 255, 256, 1000, 4096} {
			st, n := st, n
			c.Case(func() string { return fmt.Sprintf("%s of %d bytes", st.name, n) }, func(t *T) {
				for pat := 0; pat < 4; pat++ {
					all, in := guarded(bytesOfLen(n))
					before := clone(all)
					v, m := st.f(in)
					t.Op()
					if s := full(v, m, eqOpt{}); s != "" {
						t.Failf("%s: %s", st.name, s)
					}
					if !bytes.Equal(all, before) {
						t.Failf("%s changes the caller's buffer", st.name)
					}
					overwrite(in, pat)
					if s := full(v, m, eqOpt{}); s != "" {
						t.Failf("%s: overwriting the source changes the value: %s", st.name, s)
					}
					copy(all, before)
					mutateAll(v)
					if !bytes.Equal(all, before) {
						t.Failf("%s: changing the value changes the source", st.name)
					}
					t.Trace()
				}
				t.State(fmt.Sprint(st.name, n))
			})
		}
	}
	// one slice given to several values without copying: setting one of them never changes the others or the slice
	for _, n := range []int{1, 2, 7, 8, 32, 100, 300} {
		for _, mu := range nodeMutators {
			n, mu := n, mu
			c.Case(func() string { return fmt.Sprintf("%d bytes given to three values, %s", n, mu.name) }, func(t *T) {
				if mu.cont {
					return
				}
				for pos := 0; pos <= n; pos++ {
					if pos > 3 && pos < n-3 {
						continue
					}
					all, in := guarded(bytesOfLen(n))
					before := clone(all)
					var vs []*d.DxValue
					for _, b := range [][]byte{in, in[:pos], in[pos:]} {
						v := d.NewValue(d.VT_Binary)
						v.SetBinary(b, false)
						vs = append(vs, v)
					}
					for i := range vs {
						mu.f(vs[i])
						t.Op()
						if !bytes.Equal(all, before) {
							t.Failf("the shared slice changed")
						}
						for j := i + 1; j < len(vs); j++ {
							if s := full(vs[j], mBin([][]byte{in, in[:pos], in[pos:]}[j]), eqOpt{}); s != "" {
								t.Failf("another value changed: %s", s)
							}
						}
					}
					t.Trace()
				}
				t.State(fmt.Sprint(n, mu.name))
			})
		}
	}
	// a value read out as text or Go data does not alias either
	for _, m := range trees {
		m := m
		c.Case(func() string { return "extraction from " + m.String() }, func(t *T) {
			v := build(m, false)
			m0 := observe(v)
			var dst map[string]interface{}
			if m.K == KObj {
				dst = map[string]interface{}{}
				v.ToStdValue(&dst, false)
				t.Op()
			}
			js, _ := d.Marshal(v)
			overwrite(js, 1)
			if s := full(v, m0, eqOpt{tol: 2 * time.Second}); s != "" {
				t.Failf("Marshal output aliases the value: %s", s)
			}
			t.Trace()
		})
	}
}

// ---------------------------------------------------------------- C19

type appender struct {
	name string
	f    func(v *d.DxValue, dst []byte) []byte
}

func appenders() []appender {
	var out []appender
	for _, st := range []d.JsonEscapeStyle{d.JSE_AllEscape, d.JSE_OnlyAnsiChar, d.JSE_NoEscape} {
		for _, dt := range []bool{false, true} {
			st, dt := st, dt
			out = append(out,
				appender{fmt.Sprintf("Value2Json(%v,%v)", st, dt), func(v *d.DxValue, dst []byte) []byte { return d.Value2Json(v, st, dt, dst) }},
				appender{fmt.Sprintf("Value2FormatJson(%v,%v)", st, dt), func(v *d.DxValue, dst []byte) []byte { return d.Value2FormatJson(v, st, dt, dst) }},
			)
		}
	}
	return append(out,
		appender{"ToJson", func(v *d.DxValue, dst []byte) []byte { return v.ToJson(false, d.JSE_AllEscape, false, dst) }},
		appender{"ToJson format", func(v *d.DxValue, dst []byte) []byte { return v.ToJson(true, d.JSE_OnlyAnsiChar, true, dst) }},
		appender{"Value2MsgPack", func(v *d.DxValue, dst []byte) []byte { return d.Value2MsgPack(v, dst) }},
		appender{"ToMsgPack", func(v *d.DxValue, dst []byte) []byte { return v.ToMsgPack(dst) }},
		appender{"ToBson", func(v *d.DxValue, dst []byte) []byte { return v.ToBson(dst) }},
		appender{"Value2Bson", func(v *d.DxValue, dst []byte) []byte {
			b, err := d.Value2Bson(v, dst)
			if err != nil {
				return append(dst, "error"...)
			}
			return b
		}},
	)
}

func runC19(c *Ctx) {
	c19content(c)
	c19wide(c)
	apps := appenders()
	n := 3
	if !c.quick {
		n = 4
	}
	c.Bound("tree_nodes", fmt.Sprint(n))
	var trees []*M
	shapes(n, []*M{mInt(1), mStr("a\"é"), mK(KNull), mBin([]byte{1})}, []string{"k", "\\"}, "", c.Stop, func(m *M) { trees = append(trees, m) })
	trees = append(append(trees, mpTrees()...), bsonTrees()...)
	for _, x := range sizeLeaves() {
		trees = append(trees, x)
		if len(x.S)+len(x.B) < 1000 {
			trees = append(trees, mArr(x, x), mObj("k", x, "l", mInt(1)))
		}
	}
	trees = append(trees, bigTrees()...)
	trees = append(trees, mK(KNan), mK(KInf), mArr(mK(KNan), mK(KInf)), mObj("a", arrOfLen(70), "b", objOfLen(20), "c", mStr(strOfLen(5000))), mExt(4, bytesOfLen(70)))
	prefixes := []int{0, 1, 2, 3, 4, 5, 8, 16, 31, 255, 256}
	spares := []int{0, 1, 2, 3, 4, 5, 7, 8, 16, 64, 6000}
	if !c.quick {
		prefixes = nil
		for i := 0; i <= 40; i++ {
			prefixes = append(prefixes, i)
		}
		prefixes = append(prefixes, 63, 64, 127, 128, 255, 256, 1000, 4096, 65536)
		spares = nil
		for i := 0; i <= 40; i++ {
			spares = append(spares, i)
		}
		spares = append(spares, 64, 128, 1000, 8000)
	}
	c.Bound("destination_shapes", fmt.Sprint(len(prefixes)*len(spares)))
	for _, m := range trees {
		m := m
		c.Case(func() string { return "all encoders of " + m.String() }, func(t *T) {
			for _, prod := range []string{"built", "cached", "decoded"} {
				var v *d.DxValue
				switch prod {
				case "built":
					v = build(m, false)
				case "cached":
					v = build(m, true)
				default:
					if m.K > KArr && m.K != KStr {
						continue
					}
					b := d.Value2Json(build(m, false), d.JSE_AllEscape, false, nil)
					var err error
					if v, err = d.NewValueFromJson(b, false, false); err != nil {
						t.Failf("%v", err)
					}
				}
				m0 := observe(v)
				for _, a := range apps {
					base := clone(hb(a.f(v, nil)))
					t.Op()
					for _, p := range prefixes {
						for _, sp := range spares {
							if len(base) > 1000 && (p%16 != 0 || sp%16 != 0) {
								continue
							}
							buf := make([]byte, p+sp)
							for i := range buf {
								buf[i] = byte(0x41 + i%23)
							}
							orig := clone(buf)
							out := a.f(v, buf[:p:p+sp])
							t.Op()
							if len(out) != p+len(base) || !bytes.Equal(out[:p], orig[:p]) || !bytes.Equal(out[p:], base) {
								t.Failf("%s of %v (%s) with %d bytes in the destination and %d spare gives\n%q\ninstead of\n%q + %q", a.name, m, prod, p, sp, short(string(out)), short(string(orig[:p])), short(string(base)))
							}
							if !bytes.Equal(buf[:p], orig[:p]) {
								t.Failf("%s changes the destination's content", a.name)
							}
						}
					}
					if again := hb(a.f(v, nil)); !bytes.Equal(again, base) {
						t.Failf("%s of %v (%s) encodes differently the second time:\n%q\n%q", a.name, m, prod, short(string(base)), short(string(again)))
					}
					t.Trace()
				}
				if s := diff(m0, observe(v), eqOpt{}); s != "" {
					t.Failf("encoding changed the value: %s", s)
				}
				if prod == "cached" {
					free(v)
				}
			}
			heldCheck(t, func() string { return fmt.Sprintf("encoding %v", m) })
			t.State(m.String())
		})
	}
	// adjacent regions: a destination that ends inside a larger buffer
	for _, m := range mpTrees() {
		m := m
		c.Case(func() string { return "bounded destination for " + m.String() }, func(t *T) {
			v := build(m, false)
			for _, a := range apps {
				base := a.f(v, nil)
				for _, p := range []int{0, 1, 5} {
					buf := make([]byte, 64)
					for i := range buf {
						buf[i] = 'q'
					}
					out := a.f(v, buf[:p:p]) // no spare capacity: everything behind p belongs to the caller
					t.Op()
					if !bytes.Equal(out[p:], base) {
						t.Failf("%s into a full buffer: %q instead of %q", a.name, short(string(out[p:])), short(string(base)))
					}
					for i := range buf {
						if buf[i] != 'q' {
							t.Failf("%s writes beyond the destination's capacity", a.name)
						}
					}
				}
				t.Trace()
			}
		})
	}
}
