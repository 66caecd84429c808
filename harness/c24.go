package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"syscall"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
)

// C24: files round trip, file errors are reported.

func init() {
	register("C24", runC24,
		"every combination of (tree or content size around buffer boundaries) x (writer, byte-order mark, layout) x (previous file content absent, shorter, equal, longer) x (reader, cached or not) is executed against real files in a private scratch directory; file bytes are compared with the reference, trees with the model; every failing path kind (missing, missing directory, directory in place of a file, file in place of a directory, dangling link, unwritable device) is tried with every operation and must give an error and leave the value as it was",
		"files live only in a scratch directory owned by the check")
}

func c24read(t *T, what, path string, ref func(b []byte, cached bool) (*d.DxValue, error), f func(string, bool) (*d.DxValue, error), m *M, o eqOpt) {
	for _, cached := range []bool{false, true} {
		v, err := f(path, cached)
		t.Op()
		if err != nil {
			t.Failf("%s: reading back fails: %v", what, err)
		}
		if s := full(v, m, o); s != "" {
			t.Failf("%s (cached=%v): %s", what, cached, s)
		}
		t.Trace()
	}
}

func runC24(c *Ctx) {
	c24names(c)
	base, err := os.MkdirTemp("", "dxfiles")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	nf := 0
	fresh := func() string { nf++; return filepath.Join(base, fmt.Sprintf("f%d", nf)) }
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	bom := []byte{0xEF, 0xBB, 0xBF}
	type prev struct {
		name string
		f    func(n int) []byte // previous content for a new content of n bytes; nil: no file
	}
	prevs := []prev{
		{"absent", func(int) []byte { return nil }},
		{"empty", func(int) []byte { return []byte{} }},
		{"shorter", func(n int) []byte { return bytes.Repeat([]byte("#"), n/2) }},
		{"equal", func(n int) []byte { return bytes.Repeat([]byte("]"), n) }},
		{"longer", func(n int) []byte { return bytes.Repeat([]byte("}"), n+1) }},
		{"much longer", func(n int) []byte { return bytes.Repeat([]byte("x"), 2*n+5000) }},
	}
	place := func(path string, p prev, n int) {
		if b := p.f(n); b != nil {
			must(os.WriteFile(path, b, 0600))
		}
	}

	// JSON files
	trees := append(append(append([]*M{}, jsonTrees()...), arrTrees()...), scalarTrees()...)
	sizes := []int{500, 508, 509, 510, 511, 512, 513, 514, 515, 516, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65535, 65536, 65537}
	if !c.quick {
		for n := 490; n <= 540; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 2047, 2048, 2049, 32767, 32768, 131072, 1<<20-1, 1<<20, 1<<20+1, 5<<20)
	}
	for _, n := range sizes {
		trees = append(trees, mStr(strOfLen(n-2)), mObj("k", mStr(strOfLen(n-8))))
	}
	trees = append(append(trees, objOfLen(700), arrOfLen(3000)), bigTrees()...)
	level := 3
	if !c.quick {
		level = 4
	}
	shapes(level, []*M{mInt(1), mStr("é\n\""), mStr("/😀"), mK(KNull), mK(KTrue), mDbl(-0.5)}, []string{"a", "k\"\\"}, "oa", func() bool { return false }, func(m *M) { trees = append(trees, m.clone()) })
	c.Bound("json trees", fmt.Sprintf("%d, among them files of every size in %v", len(trees), sizes))
	for _, m := range trees {
		m := m
		c.Case(func() string { return "JSON file " + short(m.String()) }, func(t *T) {
			for _, hasBom := range []bool{false, true} {
				for _, form := range []bool{false, true} {
					v := build(m, form)
					var text []byte
					if form {
						text = d.Value2FormatJson(v, d.JSE_OnlyAnsiChar, false, nil)
					} else {
						text = d.Value2Json(v, d.JSE_OnlyAnsiChar, false, nil)
					}
					for _, p := range prevs {
						path := fresh()
						place(path, p, len(text))
						what := fmt.Sprintf("Value2File(bom=%v,format=%v) over %s", hasBom, form, p.name)
						if err := d.Value2File(v, path, hasBom, form); err != nil {
							t.Failf("%s: %v", what, err)
						}
						raw, err := os.ReadFile(path)
						must(err)
						body := raw
						if hasBom {
							if !bytes.HasPrefix(raw, bom) {
								t.Failf("%s: no byte-order mark in %q", what, short(string(raw)))
							}
							body = raw[3:]
						}
						ref, err := refJSON(body)
						if err != nil {
							t.Failf("%s: the file is not one JSON document: %v", what, err)
						}
						if s := diff(m, ref, jsonEq); s != "" {
							t.Failf("%s: the file denotes another tree: %s", what, s)
						}
						c24read(t, what, path, nil, d.NewValueFromJsonFile, m, jsonEq)
						if rb, err := d.ReadFile(path); err != nil || !bytes.Equal(rb, raw) {
							t.Failf("%s: ReadFile gives %d bytes of %d, error %v", what, len(rb), len(raw), err)
						}
						t.State(fmt.Sprint(hasBom, form, p.name, len(raw), m))
						os.Remove(path)
					}
					if s := full(v, m, eqOpt{}); s != "" {
						t.Failf("writing changed the value: %s", s)
					}
				}
			}
		})
	}

	// readers of the other formats: what decoding the bytes gives
	type rd struct {
		name string
		f    func(string, bool) (*d.DxValue, error)
		dec  func([]byte, bool) (*d.DxValue, error)
		bom  bool
	}
	readers := []rd{
		{"json", d.NewValueFromJsonFile, func(b []byte, cc bool) (*d.DxValue, error) { return d.NewValueFromJson(b, cc, false) }, true},
		{"mp", d.NewValueFromMsgPackFile, func(b []byte, cc bool) (*d.DxValue, error) { return d.NewValueFromMsgPack(b, cc, false) }, false},
		{"yaml", d.NewValueFromYamlFile, func(b []byte, cc bool) (*d.DxValue, error) { return d.NewValueFromYaml(b, cc) }, true},
	}
	docs := append(formatDocs(), bigFdocs()...)
	for _, n := range sizes {
		docs = append(docs, fdoc{f: formats["mp"], b: encodeFor("mp", mStr(strOfLen(n))), good: true},
			fdoc{f: formats["mp"], b: encodeFor("mp", mObj("b", mBin(bytesOfLen(n)), "t", mStr("end"))), good: true},
			fdoc{f: formats["yaml"], b: []byte("k: " + strOfLen(n-12) + "\nz: last"), good: true},
			fdoc{f: formats["yaml"], b: []byte("k: " + strOfLen(n-12) + "\nz: last\n"), good: true},
			fdoc{f: formats["json"], b: []byte(`["` + strOfLen(n-4) + `"]`), good: true})
	}
	for _, x := range docs {
		x := x
		var r *rd
		for i := range readers {
			if readers[i].name == x.f.name {
				r = &readers[i]
			}
		}
		if r == nil {
			continue
		}
		c.Case(func() string { return r.name + " file " + short(fmt.Sprintf("%q", x.b)) }, func(t *T) {
			for _, mark := range []bool{false, true} {
				if mark && !r.bom {
					break
				}
				path := fresh()
				b := clone(x.b)
				if mark {
					b = append(append([]byte(nil), bom...), b...)
				}
				must(os.WriteFile(path, b, 0600))
				for _, cached := range []bool{false, true} {
					v, err := r.f(path, cached)
					t.Op()
					w, werr := r.dec(clone(x.b), cached)
					if (err == nil) != (werr == nil) {
						t.Failf("file (bom=%v, cached=%v): error %v, decoding the bytes gives %v", mark, cached, err, werr)
					}
					if err != nil {
						_ = err.Error()
						t.Trace()
						continue
					}
					if s := full(v, observe(w), eqOpt{}); s != "" {
						t.Failf("file (bom=%v, cached=%v): %s", mark, cached, s)
					}
					if x.m != nil {
						if s := diff(x.m, observe(v), looseEq); s != "" {
							t.Failf("file (bom=%v, cached=%v): %s", mark, cached, s)
						}
					}
					t.Trace()
				}
				got, err := os.ReadFile(path)
				must(err)
				if !bytes.Equal(got, b) {
					t.Failf("reading changed the file")
				}
				os.Remove(path)
			}
		})
	}

	// pipes: the size is not known beforehand and data arrives in pieces; every way of cutting the data at a set of points
	for _, n := range []int{0, 1, 5, 511, 512, 513, 600, 1024, 1300, 5000, 70000} {
		n := n
		c.Case(func() string { return fmt.Sprintf("pipe of %d bytes", n) }, func(t *T) {
			content := append(bytes.Repeat([]byte("["), min(n, 1)), bytes.Repeat([]byte("1,"), n/2)...)
			content = append(content, bytes.Repeat([]byte(" "), n)...)[:n]
			var cuts []int
			for _, k := range []int{1, 3, 511, 512, 513, n - 1} {
				if k > 0 && k < n {
					cuts = append(cuts, k)
				}
			}
			for mask := 0; mask < 1<<len(cuts); mask++ {
				path := fresh()
				must(syscall.Mkfifo(path, 0600))
				done := make(chan error, 1)
				go func() {
					w, err := os.OpenFile(path, os.O_WRONLY, 0)
					if err != nil {
						done <- err
						return
					}
					last := 0
					for i, k := range cuts {
						if mask>>uint(i)&1 == 1 && k > last {
							if _, err := w.Write(content[last:k]); err != nil {
								done <- err
								return
							}
							last = k
							time.Sleep(50 * time.Microsecond)
						}
					}
					_, err = w.Write(content[last:])
					w.Close()
					done <- err
				}()
				got, err := d.ReadFile(path)
				t.Op()
				var werr error
				for waiting := true; waiting; { // a reader that gave up must not leave the writer waiting
					select {
					case werr = <-done:
						waiting = false
					default:
						if r, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
							time.Sleep(time.Millisecond)
							r.Close()
						}
					}
				}
				if err != nil || werr != nil || !bytes.Equal(got, content) {
					t.Failf("reading %d bytes written in pieces cut at %v (%b): %d bytes, error %v (writer %v)", n, cuts, mask, len(got), err, werr)
				}
				os.Remove(path)
				t.Trace()
			}
			t.State(fmt.Sprint("pipe", n))
		})
	}

	// binary data through files
	bsizes := []int{0, 1, 2, 3, 4, 5, 510, 511, 512, 513, 514, 1022, 1023, 1024, 1025, 4096, 65535, 65536, 65537, 1 << 20}
	{
		step := 7
		if !c.quick {
			step = 1
		}
		for n := 6; n < 1100; n += step {
			bsizes = append(bsizes, n)
		}
	}
	c.Bound("binary sizes", fmt.Sprint(len(bsizes)))
	type binPrior struct {
		name string
		mk   func() *d.DxValue
	}
	mk := func(k d.ValueType, ext byte, b []byte, share bool) func() *d.DxValue {
		return func() *d.DxValue {
			v := d.NewValue(k)
			if ext != 0 {
				v.SetExtType(ext)
			}
			if b != nil {
				v.SetBinary(append([]byte(nil), b...), !share)
			}
			return v
		}
	}
	priors := []binPrior{
		{"empty binary", mk(d.VT_Binary, 0, nil, false)}, {"short binary", mk(d.VT_Binary, 0, []byte{9, 8}, false)}, {"long binary", mk(d.VT_Binary, 0, bytesOfLen(70000), true)},
		{"empty ext", mk(d.VT_ExBinary, 33, nil, false)}, {"short ext", mk(d.VT_ExBinary, 200, []byte{7}, false)}, {"long ext", mk(d.VT_ExBinary, 1, bytesOfLen(70000), true)},
	}
	contents := func(n int) [][]byte {
		r := [][]byte{bytesOfLen(n)}
		if n >= 3 {
			x := append([]byte(nil), bom...) // a byte-order mark is data in a binary
			r = append(r, append(x, bytesOfLen(n-3)...), bytes.Repeat([]byte{0}, n), bytes.Repeat([]byte("\r\n\x1a"), n/3))
		}
		return r
	}
	for _, n := range bsizes {
		for ci, content := range contents(n) {
			content := content
			c.Case(func() string { return fmt.Sprintf("binary file of %d bytes, content %d", n, ci) }, func(t *T) {
				for _, ext := range []bool{false, true} {
					m := mBin(content)
					if ext {
						m = mExt(77, content)
					}
					for _, p := range prevs {
						path := fresh()
						place(path, p, len(content))
						v := build(m, n%2 == 0)
						what := fmt.Sprintf("SaveBinaryToFile(ext=%v) over %s", ext, p.name)
						if err := v.SaveBinaryToFile(path); err != nil {
							t.Failf("%s: %v", what, err)
						}
						t.Op()
						raw, err := os.ReadFile(path)
						if err != nil || !bytes.Equal(raw, content) {
							t.Failf("%s: file holds %d bytes (%v), want %d", what, len(raw), err, len(content))
						}
						if s := full(v, m, eqOpt{}); s != "" {
							t.Failf("%s changed the value: %s", what, s)
						}
						if n > 5000 && p.name != "longer" && p.name != "absent" {
							os.Remove(path)
							continue
						}
						for _, q := range priors {
							w := q.mk()
							ext0 := w.BinExtType()
							kind0 := w.DataType
							if err := w.SetBinaryFromFile(path); err != nil {
								t.Failf("SetBinaryFromFile into %s: %v", q.name, err)
							}
							t.Op()
							if !bytes.Equal(w.Binary(), content) || w.BinLen() != len(content) {
								t.Failf("SetBinaryFromFile into %s: %d bytes, want %d", q.name, w.BinLen(), len(content))
							}
							if w.DataType != kind0 || w.BinExtType() != ext0 {
								t.Failf("SetBinaryFromFile into %s: kind %d type %d, had %d %d", q.name, w.DataType, w.BinExtType(), kind0, ext0)
							}
							// the value does not depend on the file any more
							must(os.WriteFile(path, bytes.Repeat([]byte{0xaa}, len(content)+1), 0600))
							if !bytes.Equal(w.Binary(), content) {
								t.Failf("SetBinaryFromFile into %s: content changes with the file", q.name)
							}
							must(os.WriteFile(path, content, 0600))
							t.State(fmt.Sprint(ext, p.name, q.name, n, ci))
							t.Trace()
						}
						os.Remove(path)
					}
				}
			})
		}
	}

	// paths that cannot be used
	type bad struct {
		name        string
		mk          func() string
		read, write bool // must reading / writing fail
	}
	bads := []bad{
		{"missing file", func() string { return fresh() }, true, false},
		{"missing directory", func() string { return filepath.Join(fresh(), "x") }, true, true},
		{"directory", func() string { p := fresh(); must(os.Mkdir(p, 0700)); return p }, true, true},
		{"file used as directory", func() string {
			p := fresh()
			must(os.WriteFile(p, []byte("{}"), 0600))
			return filepath.Join(p, "x")
		}, true, true},
		{"empty name", func() string { return "" }, true, true},
		{"link to itself", func() string { p := fresh(); must(os.Symlink(p, p)); return p }, true, true},
		{"name too long", func() string { return filepath.Join(base, strOfLen(300)) }, true, true},
		{"name with NUL", func() string { return filepath.Join(base, "a\x00b") }, true, true},
		{"full device", func() string { return "/dev/full" }, false, true},
	}
	vals := append(append([]*M{}, typedTrees()...), mBin([]byte("data")), mBin(nil), mExt(5, []byte{1, 2}), mExt(5, nil), mStr("x"), mInt(3), mK(KNull), mBin(bytesOfLen(5000)))
	for _, b := range bads {
		b := b
		for _, m := range vals {
			m := m
			c.Case(func() string { return b.name + ", value " + short(m.String()) }, func(t *T) {
				for _, cached := range []bool{false, true} {
					v := build(m, cached)
					isBin := m.K == KBin || m.K == KExt
					same := func(what string) {
						if s := full(v, m, eqOpt{tol: tolBin, anyBin: false}); s != "" {
							t.Failf("%s on %s changed the value: %s", what, b.name, s)
						}
						t.Trace()
					}
					if b.read {
						p := b.mk()
						for _, r := range readers {
							if x, err := r.f(p, cached); err == nil {
								t.Failf("%s reader accepts %s: %v", r.name, b.name, observe(x))
							} else {
								_ = err.Error()
							}
							t.Op()
						}
						if x, err := d.ReadFile(p); err == nil || len(x) != 0 {
							t.Failf("ReadFile accepts %s: %d bytes, %v", b.name, len(x), err)
						}
						if err := v.SetBinaryFromFile(p); err == nil && isBin {
							t.Failf("SetBinaryFromFile accepts %s", b.name)
						}
						same("SetBinaryFromFile")
					}
					if b.write {
						for _, mark := range []bool{false, true} {
							for _, form := range []bool{false, true} {
								if err := d.Value2File(v, b.mk(), mark, form); err == nil {
									t.Failf("Value2File(bom=%v,format=%v) accepts %s", mark, form, b.name)
								}
								t.Op()
							}
						}
						same("Value2File")
						empty := len(m.B) == 0 && b.name == "full device" // nothing to write, nothing fails
						if err := v.SaveBinaryToFile(b.mk()); err == nil && isBin && !empty {
							t.Failf("SaveBinaryToFile accepts %s", b.name)
						}
						same("SaveBinaryToFile")
					}
				}
			})
		}
	}
}
