package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
	"github.com/suiyunonghen/dxsvalue/verifrt"
)

type rearranged struct {
	name string
	m    *M
}

// rearrangements gives the container's entries in other orders, with one missing or one twice.
func rearrangements(m *M) []rearranged {
	n := len(m.Vals)
	var out []rearranged
	if m.K > KArr || n < 2 {
		return nil
	}
	order := func(name string, idx []int) {
		r := &M{K: m.K}
		for _, i := range idx {
			r.Vals = append(r.Vals, m.Vals[i])
			if m.K == KObj {
				r.Keys = append(r.Keys, m.Keys[i])
			}
		}
		out = append(out, rearranged{name, r})
	}
	id := func() []int {
		r := make([]int, n)
		for i := range r {
			r[i] = i
		}
		return r
	}
	ps := picks(n)
	for _, i := range ps {
		if i+1 < n {
			x := id()
			x[i], x[i+1] = x[i+1], x[i]
			order(fmt.Sprintf("%d and %d exchanged", i, i+1), x)
		}
		if j := n - 1 - i; j > i+1 {
			x := id()
			x[i], x[j] = x[j], x[i]
			order(fmt.Sprintf("%d and %d exchanged", i, j), x)
			if m.K == KObj {
				r := &M{K: KObj, Keys: append([]string(nil), m.Keys...), Vals: append([]*M(nil), m.Vals...)}
				r.Vals[i], r.Vals[j] = r.Vals[j], r.Vals[i]
				out = append(out, rearranged{fmt.Sprintf("values of %d and %d exchanged", i, j), r})
			}
		}
		x := id()
		order(fmt.Sprintf("without %d", i), append(x[:i:i], x[i+1:]...))
		order(fmt.Sprintf("%d moved to the end", i), append(append(append([]int(nil), x[:i]...), x[i+1:]...), i))
		if m.K == KArr {
			order(fmt.Sprintf("%d twice", i), append(append(append([]int(nil), x[:i]...), i), x[i:]...))
		}
	}
	for _, by := range []int{1, 3, n / 2} {
		if by < n && by > 0 {
			x := id()
			order(fmt.Sprintf("rotated by %d", by), append(append([]int(nil), x[by:]...), x[:by]...))
		}
	}
	x := id()
	for i := range x {
		x[i] = n - 1 - i
	}
	order("reversed", x)
	return out
}

// c17rearr: a container equals its rearrangements exactly when the reference equality says so.
func c17rearr(c *Ctx) {
	c.Bound("rearrangements", "every sized tree against itself with entries exchanged, moved, dropped, doubled, rotated and reversed")
	overGrid(c, true, 300, 5000, func(t *T, k sizedKind, m *M) {
		rs := rearrangements(m)
		if len(rs) == 0 {
			return
		}
		self := build(m, false)
		ca := canonEq(m)
		for i, r := range rs {
			want := canonEq(r.m) == ca
			v := build(r.m, i%2 == 0)
			if got := self.Equal(v); got != want {
				t.Failf("%s: Equal says %v, want %v", r.name, got, want)
			}
			if got := v.Equal(self); got != want {
				t.Failf("%s (other side): Equal says %v, want %v", r.name, got, want)
			}
			t.Op()
			t.Trace()
		}
		if s := full(self, m, eqOpt{}); s != "" {
			t.Failf("comparing changed the value: %s", short(s))
		}
		t.State(fmt.Sprint(k.name, len(m.Vals)))
	})
}

// c16rearr: merging an array with its own rearrangements.
func c16rearr(c *Ctx) {
	kinds := []struct {
		name string
		f    func(i int) *M
	}{
		{"rows", func(i int) *M { return mObj("id", mInt(int64(i)), "name", mStr("n"+itoa(i))) }},
		{"rows of one", func(i int) *M { return mObj("k", mInt(int64(i))) }},
		{"lists", func(i int) *M { return mArr(mInt(int64(i)), mStr("x")) }},
		{"integers", func(i int) *M { return mInt(int64(i * 7)) }},
		{"doubles", func(i int) *M { return mDbl(float64(i) + 0.5) }},
		{"strings", func(i int) *M { return mStr("s" + itoa(i)) }},
		{"mixed", func(i int) *M {
			return []*M{mInt(int64(i)), mStr(itoa(i)), mArr(mInt(int64(i))), mObj("k", mInt(int64(i)))}[i%4]
		}},
		{"repeating", func(i int) *M { return mObj("k", mInt(int64(i%5))) }},
	}
	sizes := []int{2, 5, 9, 17, 24, 25, 26, 33, 49, 65, 101}
	if !c.quick {
		sizes = append(sizes, 129, 200, 257, 400)
	}
	c.Bound("rearranged_arrays", fmt.Sprintf("%d kinds of element, arrays of %v elements, merged with themselves with elements exchanged, moved, dropped, doubled, rotated and reversed, and shifted halves of them", len(kinds), sizes))
	for _, k := range kinds {
		for _, n := range sizes {
			k, n := k, n
			wcase(c, func() string { return fmt.Sprintf("%d %s and rearrangements", n, k.name) }, func(t *T) {
				a := entriesOf(n, k.f)
				rs := rearrangements(a)
				step := 1
				if c.quick && len(rs) > 24 {
					step = len(rs)/24 + 1
				}
				for i := 0; i < len(rs); i += step {
					c16check(t, a, rs[i].m, nil)
				}
				more := entriesOf(n+3, k.f)
				c16check(t, a, &M{K: KArr, Vals: more.Vals[n/2:]}, nil)
				c16check(t, &M{K: KArr, Vals: more.Vals[n/2:]}, a, nil)
				c16check(t, mObj("l", a, "z", mInt(1)), mObj("z", mInt(1), "l", rs[len(rs)-1].m), nil)
			})
		}
		if c.Stop() {
			return
		}
	}
}

// c19content: what the destination already holds has no influence on what is appended.
func c19content(c *Ctx) {
	alpha := []byte{'\n', '\r', ' ', '\t', ',', '[', ']', '{', '}', '"', '\\', ':', 0, 0xff, '0', 0xc3, 5, 'a'}
	var ends [][]byte
	for _, a := range alpha {
		ends = append(ends, []byte{a})
		for _, b := range alpha {
			ends = append(ends, []byte{a, b})
			if !c.quick {
				for _, e := range alpha {
					ends = append(ends, []byte{a, b, e})
				}
			}
		}
	}
	trees := []*M{mObj(), mArr(), mStr("x"), mInt(0), mK(KNull), mObj("a", mArr(mInt(1), mStr("é")), "b", mObj("c", mK(KTrue))), mArr(mObj("k", mDbl(1.5)), mArr()), mObj("t", mTime(time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)), "b", mBin([]byte{1, 2}))}
	apps := appenders()
	c.Bound("destination_contents", fmt.Sprintf("%d endings of the destination of up to 3 characters, and all cuts of the encoding itself, %d trees, every encoder", len(ends), len(trees)))
	for _, m := range trees {
		for ai, a := range apps {
			m, a, ai := m, a, ai
			wcase(c, func() string { return fmt.Sprintf("%s of %v behind all contents (%d)", a.name, m, ai) }, func(t *T) {
				v := build(m, false)
				base := clone(hb(a.f(v, nil)))
				one := func(pre []byte) {
					for _, sp := range []int{0, 7, 4096} {
						buf := make([]byte, len(pre), len(pre)+sp)
						copy(buf, pre)
						out := a.f(v, buf)
						t.Op()
						if len(out) != len(pre)+len(base) || !bytes.Equal(out[:len(pre)], pre) || !bytes.Equal(out[len(pre):], base) {
							t.Failf("%s of %v behind %q (spare %d) gives\n%q\ninstead of that and\n%q", a.name, m, short(string(pre)), sp, short(string(out)), short(string(base)))
						}
						if !bytes.Equal(buf, pre) {
							t.Failf("%s changes the destination's content %q", a.name, short(string(pre)))
						}
					}
				}
				for _, e := range ends {
					one(e)
					one(append([]byte("line 1"), e...))
				}
				for i := range base {
					one(base[:i])
					one(base[i:])
				}
				one(bytes.Repeat(base, 3))
				t.State(fmt.Sprint(ai, m))
				t.Trace()
			})
		}
		if c.Stop() {
			return
		}
	}
}

// c24names: files with unusual names; only the named file is read or written.
func c24names(c *Ctx) {
	names := []string{"f ", " f", "f.", ".f", "f\n", "\tf", "-f", "f*", "f?", "ü", "😀", "f\\x", "\\f", "f%41", "%s", "f\"", "'f'", "F", "f,g", "f;g", "f|g", "$HOME", "~", "...", "f\xff", "f:g", "file:f", "f#g", "f&g", "f\r",
		"f.json", "f.JSON", "f.gz", "f.json.bak", "f~", "sub/f", "./f", "sub/../f", "sub//f", "sub/./f ", string(bytes.Repeat([]byte("n"), 255)), " ", "  ", "\n", "\\", "sub/ "}
	c.Bound("file_names", fmt.Sprintf("%d unusual names (blanks, dots, escapes, long, relative parts), beside files of similar names that must stay as they are", len(names)))
	bases := []string{"f", "F", "x", "fx", "fA", "tmp", "ü ", "sub", "f.jso", "n", "f%41x", "%", "HOME", "s", "nn"}
	for _, name := range names {
		name := name
		wcase(c, func() string { return fmt.Sprintf("file name %q", short(name)) }, func(t *T) {
			dir, err := os.MkdirTemp("", "dxnames")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			must := func(err error) {
				if err != nil {
					panic(err)
				}
			}
			must(os.Mkdir(filepath.Join(dir, "sub"), 0700))
			path := dir + "/" + name
			decoy := []byte("[\"decoy\"]")
			for _, n := range bases {
				for _, in := range []string{"", "sub"} {
					p := filepath.Join(dir, in, n)
					if p != filepath.Clean(path) && n != "sub" {
						must(os.WriteFile(p, decoy, 0600))
					}
				}
			}
			others := func(what string, exists bool) {
				found := false
				filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
					must(err)
					if fi.IsDir() {
						return nil
					}
					if p == filepath.Clean(path) {
						found = true
						return nil
					}
					b, err := os.ReadFile(p)
					must(err)
					if !bytes.Equal(b, decoy) {
						t.Failf("%s: file %q holds %q", what, short(p[len(dir):]), short(string(b)))
					}
					return nil
				})
				if found != exists {
					t.Failf("%s: the named file exists: %v", what, found)
				}
				t.Trace()
			}
			m := mObj("a", mArr(mInt(1), mStr("é")), "b", mStr("named"))
			v := build(m, false)
			// nothing there
			if x, err := d.NewValueFromJsonFile(path, false); err == nil {
				t.Failf("a missing file is read: %v", observe(x))
			}
			if x, err := d.ReadFile(path); err == nil {
				t.Failf("a missing file is read: %q", x)
			}
			bin := build(mBin([]byte{1, 2}), false)
			if err := bin.SetBinaryFromFile(path); err == nil {
				t.Failf("a missing file is read into a binary")
			}
			others("reading a missing file", false)
			for _, mark := range []bool{false, true} {
				for _, form := range []bool{false, true} {
					if err := d.Value2File(v, path, mark, form); err != nil {
						t.Failf("Value2File: %v", err)
					}
					t.Op()
					others("Value2File", true)
					c24read(t, "Value2File", path, nil, d.NewValueFromJsonFile, m, jsonEq)
				}
			}
			text := []byte("k: named\n")
			must(os.WriteFile(path, text, 0600))
			c24read(t, "yaml", path, nil, d.NewValueFromYamlFile, mObj("k", mStr("named")), jsonEq)
			must(os.WriteFile(path, encodeFor("mp", m), 0600))
			c24read(t, "mp", path, nil, d.NewValueFromMsgPackFile, m, eqOpt{numeric: true})
			blob := bytesOfLen(700)
			if err := build(mBin(blob), false).SaveBinaryToFile(path); err != nil {
				t.Failf("SaveBinaryToFile: %v", err)
			}
			others("SaveBinaryToFile", true)
			if b, err := d.ReadFile(path); err != nil || !bytes.Equal(b, blob) {
				t.Failf("ReadFile: %d bytes, %v", len(b), err)
			}
			if err := bin.SetBinaryFromFile(path); err != nil || !bytes.Equal(bin.Binary(), blob) {
				t.Failf("SetBinaryFromFile: %d bytes, %v", bin.BinLen(), err)
			}
			others("reading", true)
			t.State(name)
		})
	}
}

// c27fresh: content that never comes twice; what is seen once must not be kept.
func c27fresh(c *Ctx) {
	type fresh struct {
		name string
		f    func(v *d.DxValue, id string)
	}
	sp := func(s string, args ...interface{}) []byte { return []byte(fmt.Sprintf(s, args...)) }
	other := func(m *M) *d.DxValue { return build(m, false) }
	kinds := []fresh{
		{"JSON names", func(v *d.DxValue, id string) {
			v.LoadFromJson(sp(`{"name%s":1,"o":{"n%s":[]}}`, id, id), false)
			observe(v)
		}},
		{"JSON escaped names", func(v *d.DxValue, id string) { v.LoadFromJson(sp(`{"na\u0041me%s":1}`, id), false); observe(v) }},
		{"JSON texts", func(v *d.DxValue, id string) { v.LoadFromJson(sp(`["text%s","t\u0041%s"]`, id, id), false); observe(v) }},
		{"JSON numbers", func(v *d.DxValue, id string) { v.LoadFromJson(sp(`[1%s,0.1%s,1%s.5]`, id, id, id), false); observe(v) }},
		{"shared JSON names", func(v *d.DxValue, id string) { v.LoadFromJson(sp(`{"name%s":"text%s"}`, id, id), true); observe(v) }},
		{"JSON dates", func(v *d.DxValue, id string) {
			v.LoadFromJson(sp(`["2020-01-02T03:04:05.%sZ","/Date(15%s)/"]`, id, id), false)
			v.AsDateTime("0", 0)
			for i := 0; i < v.Count(); i++ {
				if x := v.ValueByIndex(i); x != nil {
					x.DateTime()
					x.GoTime()
				}
			}
		}},
		{"broken JSON", func(v *d.DxValue, id string) { v.LoadFromJson(sp(`{"name%s":"x%s",}`, id, id), false) }},
		{"MsgPack names", func(v *d.DxValue, id string) {
			v.LoadFromMsgPack(encodeFor("mp", mObj("name"+id, mStr("text"+id))), false)
			observe(v)
		}},
		{"BSON names", func(v *d.DxValue, id string) {
			v.LoadFromBson(encodeFor("bson", mObj("name"+id, mStr("text"+id))), false)
			observe(v)
		}},
		{"YAML names", func(v *d.DxValue, id string) {
			v.LoadFromYaml(sp("name%s: text%s\nb%s:\n  - x%s\n", id, id, id, id))
			observe(v)
		}},
		{"YAML anchors", func(v *d.DxValue, id string) {
			v.LoadFromYaml(sp("a: &x%s\n  b: 1\nc: *x%s\n", id, id))
			observe(v)
		}},
		{"broken YAML", func(v *d.DxValue, id string) { v.LoadFromYaml(sp("a: &x%s\n  b: 1\nc: *y%s\n", id, id)) }},
		{"names set", func(v *d.DxValue, id string) {
			v.Clear()
			v.Reset(d.VT_Object)
			v.SetKeyString("name"+id, "text"+id)
			v.SetKeyInt("n"+id, 1)
			v.RemoveKey("name" + id)
		}},
		{"paths forced", func(v *d.DxValue, id string) {
			v.Clear()
			v.Reset(d.VT_Object)
			v.ForcePath(d.VT_Int, "p"+id, "q"+id).SetInt(1)
		}},
		{"names asked for", func(v *d.DxValue, id string) {
			if v.DataType != d.VT_Object || v.Count() != 2 {
				v.LoadFromJson([]byte(`{"a":{"b":1},"n":[1]}`), false)
			}
			v.ValueByName("name" + id)
			v.ValueByPath("a", "name"+id)
			v.StringByName("x"+id, "")
			v.IntByPath(0, "n", id)
			v.ForcePath(d.VT_Int, "a", "b")
		}},
		{"merges", func(v *d.DxValue, id string) {
			v.Clear()
			v.Reset(d.VT_Object)
			v.SetKeyInt("name"+id, 1)
			v.MergeWith(other(mObj("name"+id, mInt(2), "m"+id, mArr(mInt(1)))), func(p string, a, b *d.DxValue) d.MergeOp { return d.MO_Replace })
		}},
		{"copies", func(v *d.DxValue, id string) {
			v.Clear()
			v.CopyFrom(other(mObj("name"+id, mStr("text"+id))), nil)
			v.Clone(false)
			d.FreeValue(v.Clone(true))
		}},
		{"comparisons", func(v *d.DxValue, id string) {
			other(mObj("name"+id, mStr("text"+id))).Equal(other(mObj("name"+id, mStr("text"+id))))
		}},
		{"conversions", func(v *d.DxValue, id string) {
			x := other(mObj("Name"+id, mStr("text"+id)))
			var m map[string]interface{}
			x.ToStdValue(&m, true)
			var r struct{ Name string }
			x.ToStdValue(&r, true)
			d.FreeValue(d.NewValueFrom(map[string]interface{}{"name" + id: "x" + id}, true))
			v.Clear()
			v.SetValue(map[string]string{"name" + id: id})
		}},
		{"encodings", func(v *d.DxValue, id string) {
			x := other(mObj("name"+id, mStr("té\n"+id), "b", mBin([]byte(id)), "d", mDbl(float64(len(id))+1/3.0)))
			for _, a := range appenders() {
				a.f(x, nil)
			}
			_ = x.String()
		}},
		{"missing files", func(v *d.DxValue, id string) {
			d.NewValueFromJsonFile("/nonexistent/"+id, true)
			d.ReadFile("/nonexistent/" + id)
		}},
		{"extension types", func(v *d.DxValue, id string) {
			v.Clear()
			v.LoadFromMsgPack(encodeFor("mp", mArr(mExt(5, []byte(id)), mBin([]byte(id)))), false)
		}},
	}
	c.Bound("fresh_contents", fmt.Sprintf("%d kinds of use with names and texts that never come twice, on plain and cached holders", len(kinds)))
	for _, k := range kinds {
		for _, cached := range []bool{false, true} {
			k, cached := k, cached
			wcase(c, func() string { return fmt.Sprintf("%s never seen before (cached=%v)", k.name, cached) }, func(t *T) {
				v := d.NewObject(cached)
				next := 0
				run := func(n int) {
					for i := 0; i < n; i++ {
						verifrt.Start(defaultBudget)
						next++
						k.f(v, fmt.Sprintf("%09d", next))
						t.Op()
					}
				}
				run(40)
				h0 := heapLive()
				var grow [3]int64
				for w, n := range []int{250, 1000, 4000} {
					run(n)
					h1 := heapLive()
					grow[w] = h1 - h0
					h0 = h1
					if grow[w] < int64(n)*8 {
						break
					}
					if w == 2 {
						t.Failf("memory grows without bound: %d bytes in 250, %d in 1000, %d in 4000 repetitions, each with other content", grow[0], grow[1], grow[2])
					}
				}
				t.State(k.name)
				t.Trace()
				runtime.KeepAlive(v)
			})
		}
	}
}
