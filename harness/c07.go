package main

import (
	"fmt"
	"runtime/metrics"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
	"github.com/suiyunonghen/dxsvalue/verifrt"
)

// C07: decoders are total.

func init() {
	register("C07", runC07,
		"every byte string up to a length over a per-format alphabet (and over all 256 bytes for the shortest), every oversized-header string, and every single-byte substitution, insertion, deletion and truncation of seed documents is fed to every decoder; whatever comes out is inspected, printed, cloned, compared and re-encoded; statements executed and bytes allocated are bounded by a function of the input length",
		"work is counted in library statements, so termination is not a matter of wall-clock time", "key look-up is linear, so building a map of n keys may take n*n steps")
}

type format struct {
	name string
	decs []decoder
}

var yamlDecs = append([]decoder{
	{"NewValueFromYaml", false, false, func(b []byte) (*d.DxValue, error) { return d.NewValueFromYaml(b, false) }},
	{"NewValueFromYaml(cache)", false, true, func(b []byte) (*d.DxValue, error) { return d.NewValueFromYaml(b, true) }},
}, loaders(func(v *d.DxValue, b []byte, share bool) error { return v.LoadFromYaml(b) })...)

var formats = map[string]*format{
	"json": {"json", jsonDecs},
	"mp":   {"mp", mpDecs},
	"bson": {"bson", bsonDecs},
	"yaml": {"yaml", yamlDecs},
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

func workBudget(n int) uint64 {
	u := uint64(n)
	return 20000 + 1000*u + 40*u*u
}

// exercise uses v in every way; it must not panic.
func exercise(v *d.DxValue, depth int) {
	_ = observe(v)
	n := v.Count()
	for i := -1; i <= n; i++ {
		k, c := v.Items(i)
		_ = v.KeyNameByIndex(i)
		_ = v.ValueByIndex(i)
		_ = v.ValueByName(k)
		if c != nil && depth < 3 && i >= 0 && i < n {
			exercise(c, depth+1)
		}
	}
	_ = v.ValueByName("a")
	_ = v.ValueByPath("a", "0", "b")
	_, _, _, _ = v.Int(), v.Double(), v.Float(), v.Bool()
	_, _ = v.GoTime(), v.DateTime()
	_ = v.Duration(time.Second)
	_, _, _ = v.Binary(), v.BinLen(), v.BinExtType()
	_ = v.String()
	if depth > 0 {
		return
	}
	for _, e := range jsonEncs {
		_ = e.f(v)
	}
	for _, e := range mpEncs {
		_ = e.f(v)
	}
	_, _ = d.Value2Bson(v, nil)
	_ = v.ToBson(nil)
	cl := v.Clone(false)
	_ = cl.Equal(v)
	_ = v.Equal(cl)
	c2 := v.Clone(true)
	if c2 != nil && !c2.ReadOnly() {
		d.FreeValue(c2)
	}
}

// total decides one input for one decoder.
func total(t *T, f *format, dec decoder, in []byte, measure, deep bool) {
	var v *d.DxValue
	var err error
	b := clone(in)
	var before uint64
	if measure {
		before = allocated()
	}
	verifrt.Start(workBudget(len(in)))
	msg := try(func() { v, err = dec.f(b) })
	st := verifrt.Steps()
	verifrt.Start(defaultBudget)
	t.Op()
	if msg != "" {
		t.Failf("%s of %q (% x): %s", dec.name, short(string(in)), in[:min(len(in), 64)], msg)
	}
	if measure {
		if a := allocated() - before; a > 1<<20+4096*uint64(len(in)) {
			t.Failf("%s of %q (% x) allocates %d bytes", dec.name, short(string(in)), in[:min(len(in), 64)], a)
		}
	}
	if int64(st) > t.c.counters["max_statements_one_decode"] {
		t.c.counters["max_statements_one_decode"] = int64(st)
	}
	if err != nil {
		s := ""
		if m := try(func() { s = err.Error() }); m != "" || s == "" {
			t.Failf("%s of %q (% x): unreadable error %s", dec.name, short(string(in)), in[:min(len(in), 64)], m)
		}
		t.c.Count("rejected", 1)
	} else {
		if v == nil {
			t.Failf("%s of %q (% x): neither value nor error", dec.name, short(string(in)), in[:min(len(in), 64)])
		}
		t.c.Count("accepted", 1)
	}
	if v != nil && (err == nil || deep) {
		verifrt.Start(40 * workBudget(len(in)+64))
		msg := try(func() { exercise(v, 0) })
		verifrt.Start(defaultBudget)
		if msg != "" {
			t.Failf("using the result of %s of %q (% x; error %v): %s", dec.name, short(string(in)), in[:min(len(in), 64)], err, msg)
		}
		if dec.cached && !v.ReadOnly() {
			if msg := try(func() { d.FreeValue(v) }); msg != "" {
				t.Failf("freeing the result of %s of %q: %s", dec.name, short(string(in)), msg)
			}
		}
	}
	t.Trace()
}

var jsonAlpha = []string{"{", "}", "[", "]", "\"", ":", ",", "\\", "u", "0", "1", "-", ".", "e", "t", "n", "f", "i", "D", " ", "a", "+", "/"}
var mpAlpha = []string{"\x00", "\x01", "\x05", "a", "\x7f", "\x80", "\x81", "\x82", "\x90", "\x91", "\x92", "\xa0", "\xa1", "\xa2", "\xc0", "\xc1", "\xc2", "\xc3", "\xc4", "\xc5", "\xc6", "\xc7", "\xc8", "\xc9", "\xca", "\xcb", "\xcc", "\xcd", "\xce", "\xcf", "\xd0", "\xd1", "\xd2", "\xd3", "\xd4", "\xd5", "\xd6", "\xd7", "\xd8", "\xd9", "\xda", "\xdb", "\xdc", "\xdd", "\xde", "\xdf", "\xe0", "\xff"}
var bsonAlpha = []string{"\x00", "\x01", "\x02", "\x03", "\x04", "\x05", "\x06", "\x07", "\x08", "\x09", "\x0a", "\x0b", "\x0d", "\x10", "\x11", "\x12", "\x13", "\x7f", "\xff", "a", "0", "1", "-"}
var yamlAlpha = []string{"a", ":", " ", "\n", "-", "#", "&", "*", "<", "1", "\t", "\r", "\"", "'", "."}

func fullBytes() []string {
	var o []string
	for i := 0; i < 256; i++ {
		o = append(o, string([]byte{byte(i)}))
	}
	return o
}

// frame turns a BSON element list into documents with plausible and implausible declared lengths.
func bsonFrames(body string) []string {
	n := len(body) + 4
	fr := func(l int) string { return string([]byte{byte(l), byte(l >> 8), 0, 0}) + body }
	out := []string{fr(n), fr(n+1) + "\x00", fr(n + 5), fr(n - 1), fr(0), string([]byte{byte(n), 0, 0, 0x80}) + body}
	return out
}

type seedDoc struct {
	f string
	b string
}

func seedDocs() []seedDoc {
	var s []seedDoc
	j := func(x string) { s = append(s, seedDoc{"json", x}) }
	j(`{"a":1,"b":[true,null,"x\n\u00e9\ud83d\ude00"],"c":{"d":-1.5e3}}`)
	j(`[ {} , [ ] , "" , 0.25 , "Date(1600000000)" , nan ]`)
	j(`{"k\"\\":"v\u0041\/","d":"\/Date(1600000000+0800)\/"}`)
	j(`"a\tb"`)
	j(` [1,2,[3,[4,{"x":[]}]]] `)
	j(`-12345678901234567890.5e-3`)
	m := func(x *M, w ...int) {
		e := &mpEnc{c: &chooser{vec: w, size: make([]int, len(w))}}
		if len(w) == 0 {
			e.c = nil
		}
		e.val(x)
		s = append(s, seedDoc{"mp", string(e.out)})
	}
	tr := mObj("a", mInt(300), "b", mArr(mStr("x"), mK(KNull), mBin([]byte{1, 2, 3}), mExt(5, []byte{1, 2, 3, 4})), "t", mTime(time.Unix(1600000000, 500000000)), "f", mDbl(1.5), "m", mObj("z", mK(KTrue)))
	m(tr)
	m(mArr(mExt(1, bytesOfLen(20)), mFlt(2.5), mInt(-40000), mStr(strOfLen(40))))
	m(mObj("k", mArr(mArr(), mObj(), mTime(time.Unix(7, 0)), mTime(time.Unix(1<<33, 7)))))
	m(mTime(time.Unix(-5, 9)))
	b := func(x *M) { s = append(s, seedDoc{"bson", string(refBsonEncode(x))}) }
	b(mObj("a", mInt(3), "b", mArr(mStr("x"), mK(KNull), mObj("q", mInt(1<<40))), "d", mDbl(2.5)))
	b(mObj("o", mOID(bytesOfLen(12)), "x", mSubBin(4, []byte{1, 2, 3}), "y", mBin([]byte{9}), "z", mDec128(bytesOfLen(16))))
	b(mObj("t", mTS(5), "u", mTime(time.Unix(100, 0)), "v", mK(KTrue), "e", mObj(), "f", mArr()))
	y := func(x string) { s = append(s, seedDoc{"yaml", x}) }
	y("a: 1\nb:\n  c: x\n  d:\n    - 1\n    - e: 2\n      f: 3\n# c\ng: true\n")
	y("- a\n- b: 1\n  c: 2\n-\n  d: 3\n- 5\n")
	y("x: &a\n  k: v\n  l: 1\ny:\n  <<: *a\n  m: 2\nz: *a\nw: &b 5\nq: *b\n")
	y("a:\n  - &c\n    p: 1\n  - *c\n\nb: \"q\"\n")
	return s
}

func runC07(c *Ctx) {
	type enum struct {
		f  string
		al []string
		n  int // all strings up to n
	}
	var enums []enum
	if c.quick {
		enums = []enum{{"json", jsonAlpha, 4}, {"mp", mpAlpha, 3}, {"yaml", yamlAlpha, 4}, {"json", fullBytes(), 2}, {"mp", fullBytes(), 2}, {"yaml", fullBytes(), 2}, {"bson", fullBytes(), 1}, {"bson", bsonAlpha, 4}}
	} else {
		enums = []enum{{"json", jsonAlpha, 5}, {"mp", mpAlpha, 4}, {"yaml", yamlAlpha, 6}, {"json", fullBytes(), 2}, {"mp", fullBytes(), 3}, {"yaml", fullBytes(), 2}, {"bson", fullBytes(), 2}, {"bson", bsonAlpha, 5}}
	}
	few := func(f *format, in []byte) []decoder {
		// all decoders on short input; on longer ones one per code path
		switch f.name {
		case "json":
			return []decoder{f.decs[0], f.decs[3], f.decs[5], f.decs[8]}
		case "yaml":
			return []decoder{f.decs[0], f.decs[1], f.decs[3], f.decs[5]}
		}
		return []decoder{f.decs[0], f.decs[3], f.decs[4], f.decs[5]}
	}
	for _, e := range enums {
		e := e
		f := formats[e.f]
		c.Bound(fmt.Sprintf("%s_alphabet_%d_length", e.f, len(e.al)), fmt.Sprint(e.n))
		// strings shorter than 2 symbols and then one case per two-symbol prefix
		k := min(2, e.n)
		if e.n >= 6 {
			k = 3
		}
		for _, p := range strsOver(e.al, k) {
			p := p
			rest := 0
			if len(p) > 0 && symLen(p, e.al) == k {
				rest = e.n - k
			}
			c.Case(func() string { return fmt.Sprintf("%s strings %q + up to %d symbols of %d", e.f, p, rest, len(e.al)) }, func(t *T) {
				cnt := 0
				var rec func(s string, left int)
				run := func(s string) {
					ins := []string{s}
					if e.f == "bson" {
						ins = append(ins, bsonFrames(s)...)
					}
					for _, in := range ins {
						decs := f.decs
						if symLen(s, e.al) > 3 {
							decs = few(f, nil)
						}
						for _, dec := range decs {
							total(t, f, dec, []byte(in), cnt%8 == 0, cnt%16 < len(f.decs))
							cnt++
						}
						t.State(f.name + in)
					}
				}
				rec = func(s string, left int) {
					run(s)
					if left == 0 {
						return
					}
					for _, a := range e.al {
						rec(s+a, left-1)
					}
				}
				rec(p, rest)
			})
		}
	}
	// headers that promise far more than follows
	var big []string
	for _, h := range []string{"\xc4\xff", "\xc5\xff\xff", "\xc6\xff\xff\xff\xff", "\xc6\x7f\xff\xff\xff", "\xc7\xff\x05", "\xc8\xff\xff\x05", "\xc9\xff\xff\xff\xff\x05", "\xc9\x7f\xff\xff\xff\xff", "\xc9\xff\xff\xff\xff\xff", "\xd9\xff", "\xda\xff\xff", "\xdb\xff\xff\xff\xff", "\xdb\x7f\xff\xff\xff", "\xdb\x80\x00\x00\x00", "\xdc\xff\xff", "\xdd\xff\xff\xff\xff", "\xdd\x10\x00\x00\x00", "\xdd\x80\x00\x00\x00", "\xde\xff\xff", "\xdf\xff\xff\xff\xff", "\xdf\x10\x00\x00\x00", "\xdf\x80\x00\x00\x00", "\x8f", "\x9f", "\xbf"} {
		for _, pre := range []string{"", "\x91", "\x92\x01", "\x81\xa1a", "\x91\x91", "\x81"} {
			for _, tl := range []string{"", "\x00", "\xa1a", "\xa1a\x01", "\xa1a\x01\xa1b\x02", "\x01\x02\x03", "\xc0\xc0\xc0\xc0\xc0\xc0"} {
				big = append(big, pre+h+tl)
			}
		}
	}
	for _, in := range big {
		in := in
		c.Case(func() string { return fmt.Sprintf("oversized MessagePack header % x", in) }, func(t *T) {
			for _, dec := range mpDecs {
				total(t, formats["mp"], dec, []byte(in), true, true)
			}
			t.State("mp" + in)
		})
	}
	scaling(c)
	payloadGrid(c)
	tokenStrings(c, few)
	// deep nesting, up to far beyond what the stack holds for a recursive decoder
	for _, n := range []int{100, 1000, 20000, 99999, 100000, 100001, 1000000, 6000000} {
		n := n
		docs := []struct {
			f, name string
			ok      bool // complete documents: decoded up to 100000 levels
			mk      func() string
		}{
			{"json", "[", false, func() string { return rep("[", n) }},
			{"json", "[]", true, func() string { return rep("[", n) + rep("]", n) }},
			{"json", `{"a":1}`, true, func() string { return rep(`{"a":`, n) + "1" + rep("}", n) }},
			{"json", `[{"":1}]`, true, func() string { return rep(`[{"":`, n/2) + "1" + rep("}]", n/2) }},
			{"json", `[0,[]]`, false, func() string { return rep("[0,", n) + "[]" + rep(",0]", n) }},
			{"mp", "91", false, func() string { return rep("\x91", n) }},
			{"mp", "91..c0", true, func() string { return rep("\x91", n) + "\xc0" }},
			{"mp", "81a161..c0", true, func() string { return rep("\x81\xa1a", n) + "\xc0" }},
			{"mp", "81a091..c0", true, func() string { return rep("\x81\xa0\x91", n/2) + "\xc0" }},
			{"mp", "dc0001/de0001a0", true, func() string { return rep("\xdc\x00\x01\xde\x00\x01\xa0", n/2) + "\xc0" }},
			{"mp", "dd/df", true, func() string { return rep("\xdd\x00\x00\x00\x01\xdf\x00\x00\x00\x01\xa0", n/2) + "\xc0" }},
			{"bson", "documents", true, func() string { return nestBson(n, "\x03") }},
			{"bson", "arrays", true, func() string { return nestBson(n, "\x04") }},
			{"bson", "documents and arrays", true, func() string { return nestBson(n, "\x03\x04") }},
			{"yaml", "- ", false, func() string { return rep("- ", n) }},
			{"yaml", "- a", false, func() string { return rep("- ", n) + "a" }},
			{"yaml", "a: [", false, func() string { return "a: " + rep("[", n) }},
			{"yaml", "a: b: ", false, func() string { return rep("a: ", n) + "b" }},
			{"yaml", "? ", false, func() string { return rep("? ", n) }},
			{"yaml", "indented", false, func() string { return rep(" ", n) + "a: 1" }},
		}
		if n <= 1000 {
			docs = append(docs, struct {
				f, name string
				ok      bool
				mk      func() string
			}{"yaml", "mappings", false, func() string { return nestYaml(min(n, 400)) }})
		}
		for _, x := range docs {
			x := x
			c.Case(func() string { return fmt.Sprintf("%s %s nested %d", x.f, x.name, n) }, func(t *T) {
				b := []byte(x.mk())
				decs := formats[x.f].decs
				if n > 20000 {
					decs = few(formats[x.f], b)
				}
				for _, dec := range decs {
					verifrt.Start(1 << 40)
					msg := try(func() {
						v, err := dec.f(b)
						if err == nil && v == nil {
							t.Failf("neither value nor error")
						}
						if err != nil && (err.Error() == "" || n <= 100000 && x.ok) {
							t.Failf("refused: %q", err.Error())
						}
						if v != nil {
							_ = v.ToJson(false, d.JSE_OnlyAnsiChar, false, nil)
							_ = v.ToMsgPack(nil)
							_ = v.ToBson(nil)
							if n <= 1000 {
								_ = v.ToJson(true, d.JSE_OnlyAnsiChar, false, nil)
							}
							cl := v.Clone(true)
							if !cl.Equal(v) {
								t.Failf("clone differs")
							}
							d.FreeValue(cl)
						}
					})
					verifrt.Start(defaultBudget)
					if msg != "" {
						t.Failf("%s of %s %s nested %d: %s", dec.name, x.f, x.name, n, msg)
					}
					t.Op()
					t.Trace()
				}
				t.State(fmt.Sprint(x.f, x.name, n))
			})
		}
	}
	// one-byte faults on seed documents
	for si, s := range seedDocs() {
		s := s
		f := formats[s.f]
		for pos := 0; pos <= len(s.b); pos++ {
			pos := pos
			c.Case(func() string {
				return fmt.Sprintf("seed %d (%s): all one-byte faults at offset %d of %q", si, s.f, pos, s.b)
			}, func(t *T) {
				one := func(in string) {
					for i, dec := range f.decs {
						total(t, f, dec, []byte(in), i == 0, true)
					}
					t.State(f.name + in)
				}
				one(s.b[:pos])
				if pos < len(s.b) {
					one(s.b[pos:])
					one(s.b[:pos] + s.b[pos+1:])
					one(s.b[:pos+1] + s.b[pos:]) // duplicated byte
				}
				for x := 0; x < 256; x++ {
					if pos < len(s.b) {
						one(s.b[:pos] + string([]byte{byte(x)}) + s.b[pos+1:])
					}
					one(s.b[:pos] + string([]byte{byte(x)}) + s.b[pos:])
				}
			})
			if c.quick || pos >= len(s.b) {
				continue
			}
			// pairs of faults: two substitutions over the format's alphabet
			al := map[string][]string{"json": jsonAlpha, "mp": mpAlpha, "bson": bsonAlpha, "yaml": yamlAlpha}[s.f]
			for p2 := pos + 1; p2 < len(s.b); p2++ {
				p2 := p2
				c.Case(func() string { return fmt.Sprintf("seed %d (%s): fault pairs at %d,%d of %q", si, s.f, pos, p2, s.b) }, func(t *T) {
					decs := few(f, nil)
					i := 0
					for _, a := range al {
						for _, b := range al {
							in := s.b[:pos] + a + s.b[pos+1:p2] + b + s.b[p2+1:]
							total(t, f, decs[i%len(decs)], []byte(in), i%16 == 0, true)
							i++
						}
					}
				})
			}
		}
	}
}

// payloadGrid: every element type of BSON and every extension type of MsgPack with payloads around every short
// length, complete, one byte short and one byte long, at the end of the input and in front of more elements.
func payloadGrid(c *Ctx) {
	n := 18
	if !c.quick {
		n = 40
	}
	c.Bound("payload_grid", fmt.Sprintf("BSON: 256 element types x payloads of 0..%d bytes, 256 binary subtypes x declared lengths 0..%d (one more, one less); MsgPack: 256 extension types x lengths 0..%d (one more, one less) in every header width", n, n, n))
	le := func(x int) string { return string([]byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)}) }
	doc := func(body string) string { return le(len(body)+5) + body + "\x00" }
	run := func(t *T, f *format, decs []decoder, in string, k *int) {
		for _, dec := range decs {
			total(t, f, dec, []byte(in), *k%16 == 0, true)
			*k++
		}
		t.State(f.name + in)
	}
	bf, mf := formats["bson"], formats["mp"]
	var sharing []decoder // one fresh, one cached and sharing, one loader of each kind
	for _, dec := range []int{0, 3, 4, len(bf.decs) - 1} {
		sharing = append(sharing, bf.decs[dec])
	}
	var mdecs []decoder
	for _, dec := range []int{0, 3, 4, len(mf.decs) - 1} {
		mdecs = append(mdecs, mf.decs[dec])
	}
	for x := 0; x < 256; x++ {
		x := x
		c.Case(func() string { return fmt.Sprintf("BSON element type %#x, every short payload", x) }, func(t *T) {
			k := 0
			for l := 0; l <= n; l++ {
				for _, fill := range []string{"\x00", "\x01", "\xff", "a"} {
					for _, lead := range []int{-1, 0, 1, l - 4, l - 5, l, l + 1} {
						pay := rep(fill, l)
						if lead >= 0 && l >= 4 {
							pay = le(lead) + pay[4:]
						} else if lead != -1 {
							continue
						}
						el := string([]byte{byte(x)}) + "k\x00" + pay
						run(t, bf, sharing[k%2*2:k%2*2+2], doc(el), &k)
						if l >= 4 {
							run(t, bf, sharing[:1], le(len(el)+5)+el, &k)
						}
						run(t, bf, sharing[2:3], doc("\x04a\x00"+doc("\x100\x00\x01\x00\x00\x00"+el[:1]+"1\x00"+pay)), &k)
					}
				}
			}
			t.Trace()
		})
		c.Case(func() string { return fmt.Sprintf("BSON binary subtype %#x, every short length", x) }, func(t *T) {
			k := 0
			for l := 0; l <= n; l++ {
				for dl := -1; dl <= 1; dl++ {
					if l+dl < 0 {
						continue
					}
					el := "\x05k\x00" + le(l) + string([]byte{byte(x)}) + rep("b", l+dl)
					run(t, bf, sharing, doc(el), &k)
					run(t, bf, sharing[:2], doc(el)+"trailing", &k)
					run(t, bf, sharing[1:2], doc(el+"\x10z\x00\x01\x00\x00\x00"), &k)
					run(t, bf, sharing[:1], doc("\x04a\x00"+doc("\x050\x00"+el[3:])), &k)
				}
			}
			t.Trace()
		})
		c.Case(func() string { return fmt.Sprintf("MsgPack extension type %#x, every short length", x) }, func(t *T) {
			k := 0
			ty := string([]byte{byte(x)})
			for l := 0; l <= n; l++ {
				hs := []string{"\xc7" + string([]byte{byte(l)}) + ty, "\xc8\x00" + string([]byte{byte(l)}) + ty, "\xc9\x00\x00\x00" + string([]byte{byte(l)}) + ty}
				for i, fl := range []int{1, 2, 4, 8, 16} {
					if fl == l {
						hs = append(hs, string([]byte{byte(0xd4 + i)})+ty)
					}
				}
				for _, h := range hs {
					for dl := -1; dl <= 1; dl++ {
						if l+dl < 0 {
							continue
						}
						for _, fill := range []string{"\x00", "\xff", "\x35"} {
							el := h + rep(fill, l+dl)
							run(t, mf, mdecs[k%2*2:k%2*2+2], el, &k)
							run(t, mf, mdecs[k%4:k%4+1], "\x92"+el+"\xc0", &k)
							run(t, mf, mdecs[(k+1)%4:(k+1)%4+1], "\x81\xa1k"+el, &k)
							run(t, mf, mdecs[(k+2)%4:(k+2)%4+1], "\x81"+el+"\x01", &k)
						}
					}
				}
			}
			t.Trace()
		})
	}
}

// tokenStrings: all short sequences of the tokens of one construct, inside the context that reaches its decoder.
func tokenStrings(c *Ctx, few func(*format, []byte) []decoder) {
	sets := []struct {
		f, pre, post string
		al           []string
		n, deep      int
	}{
		{"json", `"`, "", []string{`\`, "u", "d", "0", "c", `"`}, 6, 8},
		{"json", `["`, `"]`, []string{`\u`, "d83d", "de00", `\`, "00", "n", "é"}, 5, 6},
		{"json", `{"`, `":1}`, []string{`\`, "u", "00", "e9", `"`, "a", ":"}, 5, 6},
		{"json", "[", "]", []string{"0", "1", "-", "+", ".", "e", "E"}, 6, 7},
		{"json", `["/Date(`, `)/"]`, []string{"1", "-", "+", "0800", ")", "/", ".", "16e"}, 5, 6},
		{"json", `["Date(`, `)"]`, []string{"1", "-", "+", "0800", ")", "/", ".", "16e"}, 5, 6},
		{"json", `[`, ``, []string{"nan", "inf", "-", "NaN", "Infinity", "tru", "e", "nul", "l", "]", ","}, 4, 5},
		{"yaml", "", "", []string{"a", ": ", "\n", "  ", "- ", "&x", "*x", "<<: ", "\"", "#", "1", "\t"}, 4, 6},
		{"yaml", "a: &x\n  b: 1\n", "\n", []string{"c: ", "*x", "\n", "  ", "<<: ", "&x", "- ", "d"}, 5, 6},
		{"yaml", "- ", "\n", []string{"'", "\"", "\\", "x", "|", ">", "{", "}", "[", ","}, 4, 6},
	}
	for si, s := range sets {
		s := s
		f := formats[s.f]
		n := s.n
		if !c.quick {
			n = s.deep
		}
		c.Bound(fmt.Sprintf("tokens_%d_%s", si, s.f), fmt.Sprintf("%q + up to %d of %d tokens + %q", s.pre, n, len(s.al), s.post))
		for _, a := range s.al {
			for _, b := range append([]string{""}, s.al...) {
				a, b := a, b
				c.Case(func() string { return fmt.Sprintf("%s %q + %q%q + tokens + %q", s.f, s.pre, a, b, s.post) }, func(t *T) {
					k := 0
					decs := few(f, nil)
					var rec func(mid string, left int)
					rec = func(mid string, left int) {
						in := s.pre + mid + s.post
						for i := 0; i < 2; i++ {
							total(t, f, decs[(k+i)%len(decs)], []byte(in), k%16 == 0, k%5 == 0)
						}
						k++
						t.State(f.name + in)
						if left == 0 {
							return
						}
						for _, x := range s.al {
							rec(mid+x, left-1)
						}
					}
					if b == "" {
						rec(a, 0)
					} else {
						rec(a+b, n-2)
					}
					t.Trace()
				})
			}
		}
	}
}

func symLen(s string, al []string) int { return len(s) } // all alphabets consist of single bytes

func rep(s string, n int) string {
	b := make([]byte, 0, n*len(s))
	for i := 0; i < n; i++ {
		b = append(b, s...)
	}
	return string(b)
}

func nestYaml(n int) string {
	b := ""
	for i := 0; i < n; i++ {
		b += rep(" ", i) + "a:\n"
	}
	return b + rep(" ", n) + "b: 1\n"
}

// nestBson returns n nested documents; the types of the nested ones cycle through kinds.
func nestBson(n int, kinds string) string {
	size := 5 + 8*(n-1)
	b := make([]byte, 0, size)
	for i := 0; i < n; i++ {
		r := size - 8*i
		b = append(b, byte(r), byte(r>>8), byte(r>>16), byte(r>>24))
		if i < n-1 {
			b = append(b, kinds[i%len(kinds)], '0', 0)
		}
	}
	for i := 0; i < n; i++ {
		b = append(b, 0)
	}
	return string(b)
}
