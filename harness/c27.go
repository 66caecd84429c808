package main

import (
	"fmt"
	"runtime"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
	"github.com/suiyunonghen/dxsvalue/verifrt"
)

// C27: repeated use keeps memory bounded.

func init() {
	register("C27", runC27,
		"every cycle of <= 2 operations (3 over a smaller set) that contains a load, Clear, or free is repeated on every kind of holder; the live heap after garbage collection must not grow with the number of repetitions (three windows of growing length), and the value must be the same after every repetition",
		"growth below 8 bytes per repetition is not seen", "operations that only add to a cached value between two releases are outside: its memory is given back by the next load, Clear or FreeValue")
}

type memState struct {
	v   *d.DxValue // the value under use
	top *d.DxValue // what holds it
	buf []byte
	out *d.DxValue
}

type memOp struct {
	name    string
	release bool
	small   bool
	f       func(s *memState)
}

func heapLive() int64 {
	verifrt.ResetPools()
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func memOps() []memOp {
	type rec struct {
		A int
		B []string
		C map[string]float64
	}
	tree := mObj("a", mArr(mInt(1), mDbl(2.5), mStr("x\ny"), mK(KNull), mK(KTrue), mObj("b", mArr(mArr(), mObj()))), "c\n", mStr("d"), "e", mObj("f", mStr("g"), "h", mBin([]byte{1, 2, 3})))
	plain := mObj("a", mArr(mInt(1), mDbl(2.5), mStr("x\ny"), mK(KNull), mK(KTrue), mObj("b", mArr(mArr(), mObj()))), "c\n", mStr("d"), "e", mObj("f", mStr("g")))
	js, mp, bs := refEncodeEsc(plain), encodeFor("mp", tree), encodeFor("bson", tree)
	yml := []byte("a: &x\n  b: 1\n  c:\n    - 1\n    - two\nd: *x\ne:\n  <<: *x\n  f: 2.5\n")
	arr := []byte(`[1,[2,"\u0041"],{"k":[]}]`)
	big := refEncode(mObj("n", arrOfLen(60), "o", objOfLen(20), "s", mStr(strOfLen(3000))))
	src, err := d.NewValueFromJson(js, false, false)
	if err != nil {
		panic(err)
	}
	std := struct {
		A []int
		T time.Time
		M map[string]string
		R rec
	}{[]int{1, 2, 3}, time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC), map[string]string{"x": "y"}, rec{B: []string{"q"}}}
	obj := func(v *d.DxValue) {
		if v.DataType != d.VT_Object {
			v.Reset(d.VT_Object)
		}
	}
	swap := func(s *memState, v *d.DxValue, err error) {
		if err == nil && v != nil {
			s.v, s.top = v, v
		}
	}
	free := func(s *memState) { d.FreeValue(s.top); s.v, s.top = nil, nil }
	load := func(n string, b []byte, f func(v *d.DxValue, b []byte)) memOp {
		return memOp{n, true, false, func(s *memState) { f(s.v, b) }}
	}
	ljs := func(v *d.DxValue, b []byte) { v.LoadFromJson(b, false) }
	ops := []memOp{
		load("load JSON", js, ljs),
		load("load a JSON array", arr, ljs),
		load("load a large JSON document", big, ljs),
		load("load JSON sharing", js, func(v *d.DxValue, b []byte) { v.LoadFromJson(b, true) }),
		load("load cut JSON", js[:len(js)-3], ljs),
		load("load MsgPack", mp, func(v *d.DxValue, b []byte) { v.LoadFromMsgPack(b, false) }),
		load("load cut MsgPack", mp[:len(mp)-1], func(v *d.DxValue, b []byte) { v.LoadFromMsgPack(b, false) }),
		load("load BSON", bs, func(v *d.DxValue, b []byte) { v.LoadFromBson(b, false) }),
		load("load cut BSON", bs[:len(bs)-2], func(v *d.DxValue, b []byte) { v.LoadFromBson(b, false) }),
		load("load YAML", yml, func(v *d.DxValue, b []byte) { v.LoadFromYaml(b) }),
		load("load broken YAML", []byte("a: &x\n  b: 1\nc: *y\n <<: *x\n"), func(v *d.DxValue, b []byte) { v.LoadFromYaml(b) }),
		load("load blank", []byte(" "), ljs),
		load("unmarshal", js, func(v *d.DxValue, b []byte) { d.Unmarshal(b, v) }),
		{"clear", true, true, func(s *memState) { s.v.Clear() }},
		{"free, decode JSON cached", true, true, func(s *memState) { free(s); v, err := d.NewValueFromJson(js, true, false); swap(s, v, err) }},
		{"free, decode MsgPack cached", true, false, func(s *memState) { free(s); v, err := d.NewValueFromMsgPack(mp, true, true); swap(s, v, err) }},
		{"free, decode BSON cached", true, false, func(s *memState) { free(s); v, err := d.NewValueFromBson(bs, true, false); swap(s, v, err) }},
		{"free, decode YAML cached", true, false, func(s *memState) { free(s); v, err := d.NewValueFromYaml(yml, true); swap(s, v, err) }},
		{"free, new cached object", true, false, func(s *memState) { free(s); v := d.NewObject(true); swap(s, v, nil) }},
		{"drop, decode JSON", true, false, func(s *memState) { v, err := d.NewValueFromJson(js, false, true); swap(s, v, err) }},
		{"drop, new object", true, false, func(s *memState) { v := d.NewObject(false); swap(s, v, nil) }},
		{"drop, clone", true, false, func(s *memState) { v := s.v.Clone(false); swap(s, v, nil) }},
		{"drop, cached clone", true, false, func(s *memState) { v := s.v.Clone(true); swap(s, v, nil) }},
		{"failing decodes", false, false, func(s *memState) {
			d.NewValueFromJson(js[:30], true, false)
			d.NewValueFromMsgPack(mp[:9], true, false)
			d.NewValueFromBson(bs[:20], true, false)
			d.NewValueFromYaml([]byte("a: *q\n"), true)
		}},
		{"set keys", false, true, func(s *memState) {
			obj(s.v)
			s.v.SetKeyString("a", "b")
			s.v.SetKey("q", d.VT_Array).SetIndexInt(0, 1)
			s.v.SetKeyInt("q", 1)
			s.v.SetKeyTime("t", time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC))
		}},
		{"set with its cache", false, false, func(s *memState) {
			obj(s.v)
			s.v.SetKeyCached("a", d.VT_Object, s.v.ValueCache())
			s.v.SetKeyCached("a", d.VT_Int, s.v.ValueCache())
		}},
		{"copy from", false, true, func(s *memState) { s.v.CopyFrom(src, nil) }},
		{"copy from with its cache", false, false, func(s *memState) { s.v.CopyFrom(src, s.v.ValueCache()) }},
		{"set value", false, false, func(s *memState) { s.v.SetValue(std) }},
		{"merge", false, true, func(s *memState) { obj(s.v); s.v.MergeWith(src, nil) }},
		{"force a path", false, true, func(s *memState) {
			obj(s.v)
			s.v.ForcePath(d.VT_Int, "p", "b", "c").SetInt(3)
			s.v.ForcePath(d.VT_Array, "p", "b", "c")
		}},
		{"add and remove", false, false, func(s *memState) {
			s.v.Reset(d.VT_Array)
			s.v.Append(d.VT_Object).SetKeyInt("a", 1)
			s.v.InsertValue(0, d.VT_String).SetString("x")
			s.v.RemoveIndex(0)
			s.v.RemoveIndex(0)
		}},
		{"add and extract", false, false, func(s *memState) {
			obj(s.v)
			s.v.SetKeyString("x1", "y")
			s.out = s.v.ExtractValue("x1")
		}},
		{"read all", false, true, func(s *memState) { _ = s.v.String(); observe(s.v); s.v.Equal(src) }},
		{"encode", false, true, func(s *memState) {
			s.buf = s.v.ToJson(true, d.JSE_AllEscape, false, s.buf[:0])
			s.buf = s.v.ToMsgPack(s.buf[:0])
			if s.v.DataType == d.VT_Object {
				s.buf = s.v.ToBson(s.buf[:0])
			}
		}},
		{"clone and free", false, false, func(s *memState) { d.FreeValue(s.v.Clone(true)) }},
		{"convert", false, false, func(s *memState) {
			var r rec
			var m map[string]interface{}
			s.v.ToStdValue(&r, true)
			s.v.ToStdValue(&m, true)
			x := d.NewValueFrom(rec{1, []string{"a"}, map[string]float64{"x": 1}}, true)
			d.FreeValue(x)
		}},
		{"bad path and bytes", false, false, func(s *memState) { d.NewValueFromJsonFile("/nonexistent/file", true); d.Marshal(s.v) }},
	}
	return ops
}

func memHolders() []struct {
	name string
	f    func() *memState
} {
	doc := []byte(`{"a":[1,{"b":"\u0041"}],"e":{"f":"g"}}`)
	one := func(f func() *d.DxValue) func() *memState {
		return func() *memState { v := f(); return &memState{v: v, top: v} }
	}
	in := func(cached bool) func() *memState {
		return func() *memState {
			v, err := d.NewValueFromJson(doc, cached, false)
			if err != nil {
				panic(err)
			}
			return &memState{v: v.ValueByName("e"), top: v}
		}
	}
	dec := func(cached bool) func() *memState {
		return func() *memState {
			v, err := d.NewValueFromJson(doc, cached, false)
			if err != nil {
				panic(err)
			}
			return &memState{v: v, top: v}
		}
	}
	return []struct {
		name string
		f    func() *memState
	}{
		{"an object", one(func() *d.DxValue { return d.NewObject(false) })},
		{"a cached object", one(func() *d.DxValue { return d.NewObject(true) })},
		{"a decoded value", dec(false)},
		{"a cached decoded value", dec(true)},
		{"an entry of a decoded value", in(false)},
		{"an entry of a cached decoded value", in(true)},
		{"a cached array", one(func() *d.DxValue { return d.NewArray(true) })},
	}
}

func runC27(c *Ctx) {
	c27fresh(c)
	c27wide(c)
	ops := memOps()
	var small []memOp
	for i, o := range ops {
		if o.small || i == 0 || !c.quick {
			small = append(small, o)
		}
	}
	var cycles [][]memOp
	add := func(seq ...memOp) {
		for _, o := range seq {
			if o.release {
				cycles = append(cycles, seq)
				return
			}
		}
	}
	for _, a := range ops {
		add(a)
		for _, b := range ops {
			add(a, b)
		}
	}
	for _, a := range small {
		for _, b := range small {
			for _, e := range small {
				add(a, b, e)
			}
		}
	}
	c.Bound("cycles", fmt.Sprintf("%d cycles of <= 3 operations out of %d", len(cycles), len(ops)))
	c.Bound("repetitions", "40, then 250, 1000 and 4000 while the heap grows")
	for _, h := range memHolders() {
		for _, cyc := range cycles {
			h, cyc := h, cyc
			name := func() string {
				s := h.name + ":"
				for _, o := range cyc {
					s += " " + o.name + ";"
				}
				return s
			}
			c.Case(name, func(t *T) {
				s := h.f()
				run := func(n int) {
					for i := 0; i < n; i++ {
						verifrt.Start(defaultBudget)
						for _, o := range cyc {
							o.f(s)
							t.Op()
						}
					}
				}
				// (the last operation decides the value; one more round must give it again)
				run(40)
				before := observe(s.v)
				h0 := heapLive()
				var grow [3]int64
				for k, n := range []int{250, 1000, 4000} {
					run(n)
					h1 := heapLive()
					grow[k] = h1 - h0
					h0 = h1
					if grow[k] < int64(n)*8 {
						break
					}
					if k == 2 {
						t.Failf("memory grows without bound: %d bytes in 250, %d in 1000, %d in 4000 repetitions", grow[0], grow[1], grow[2])
					}
				}
				if x := diff(before, observe(s.v), eqOpt{tol: 0}); x != "" {
					t.Failf("another value after more repetitions: %s", x)
				}
				t.State(name() + before.String())
				t.Trace()
				runtime.KeepAlive(s)
			})
		}
		if c.Stop() {
			return
		}
	}
}
