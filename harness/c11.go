package main

import (
	"fmt"
	"strings"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
	"github.com/suiyunonghen/dxsvalue/verifrt"
)

// C11: caching and recycling never change results. C26: loading replaces whatever was there.

func init() {
	register("C11", runC11,
		"every sequence (up to the depth) of sessions over a set (decode, build, clone, convert or load in cached and uncached mode, then use, grow, clear or free, or keep alive); before each sequence all recyclers are emptied, and every plan of recycler answers (reuse or miss) up to a deviation bound is explored; the log of each session must equal the log of the same session run first with caching off, and values kept alive are re-observed after every later session")
	register("C26", runC26,
		"every (prior state, document, document) combination over every kind of prior state and every good and bad document of each format, into fresh, cached and nested values; the loaded value must equal a fresh decode of the document, a failed load must leave an empty usable value")
}

// probe grows v by one child of every kind and reads what the new children hold: they must be empty or zero.
func probe(v *d.DxValue, log *strings.Builder) {
	kinds := []d.ValueType{d.VT_Int, d.VT_Double, d.VT_Float, d.VT_DateTime, d.VT_String, d.VT_RawString, d.VT_Binary, d.VT_ExBinary, d.VT_Object, d.VT_Array, d.VT_NULL, d.VT_True, d.VT_False, d.VT_NAN, d.VT_INF}
	rd := func(c *d.DxValue) {
		fmt.Fprintf(log, "%d/%d:%v,%v,%v,%v,%q,%x,%d,%d,%d;", c.DataType, c.ExtType, c.Int(), c.Double(), c.Float(), c.Bool(), c.String(), c.Binary(), c.BinLen(), c.BinExtType(), c.Count())
	}
	if v.ReadOnly() {
		return
	}
	switch v.DataType {
	case d.VT_Array:
		for _, k := range kinds {
			rd(v.SetIndex(v.Count(), k))
		}
	case d.VT_Object:
		for i, k := range kinds {
			rd(v.SetKey("probe"+itoa(i), k))
		}
	default:
		rd(v)
		v.Reset(d.VT_Object)
		for i, k := range kinds {
			rd(v.SetKeyCached("probe"+itoa(i), k, v.ValueCache()))
		}
	}
	fmt.Fprintf(log, "%v", observe(v))
}

func obs(v *d.DxValue) string {
	if v == nil {
		return "<nil>"
	}
	m := observe(v)
	s := m.String() + fmt.Sprintf("|%d|%d|%v", v.ExtType, v.Count(), consistent(v, m))
	return s
}

// a session logs what it sees; it may hand back a live value.
type session struct {
	name string
	run  func(cached bool, log *strings.Builder) *d.DxValue
	live bool // the returned value is still in use
}

type doc1 struct{ f, s string }

func decodeBy(f, s string, cached bool) (*d.DxValue, error) {
	b := []byte(s)
	switch f {
	case "json":
		return d.NewValueFromJson(b, cached, false)
	case "mp":
		return d.NewValueFromMsgPack(b, cached, false)
	case "bson":
		return d.NewValueFromBson(b, cached, false)
	}
	return d.NewValueFromYaml(b, cached)
}

func loadBy(v *d.DxValue, f, s string) error {
	b := []byte(s)
	switch f {
	case "json":
		return v.LoadFromJson(b, false)
	case "mp":
		return v.LoadFromMsgPack(b, false)
	case "bson":
		return v.LoadFromBson(b, false)
	}
	return v.LoadFromYaml(b)
}

func errTag(err error) string {
	if err != nil {
		return "E"
	}
	return "ok"
}

func sessions(full bool) []session {
	big := mObj("a", mInt(1), "b", mStr("x\ny"), "c", mArr(mInt(1), mInt(2), mStr("s"), mK(KNull)), "d", mObj("e", mDbl(2.5), "f", mObj("g", mStr("deep"))), "h", mK(KTrue))
	bin := mObj("b", mBin([]byte{1, 2, 3}), "t", mTime(time.Date(2021, 5, 6, 7, 8, 9, 0, time.UTC)), "l", mArr(mBin([]byte("zz")), mFlt(0.5), mInt(-7)))
	docs := []doc1{
		{"json", string(refEncode(big))},
		{"json", `[1,"a\n",{"k\t":[true,null]},-2.5]`},
		{"json", `{"a":[1,2,{"b":`},
		{"mp", string(encodeFor("mp", big))},
		{"mp", string(encodeFor("mp", mObj("x", mExt(5, []byte{9, 8}), "y", bin)))},
		{"mp", "\x92\xc4\x02"},
		{"bson", string(encodeFor("bson", bin))},
		{"yaml", "x: &a\n  k: v\n  n: 5\ny:\n  <<: *a\n  m: 2\nz: *a\nl:\n  - 1\n  - k: 2\n"},
		{"yaml", "y: *a\n"}, // an anchor of another document
		{"yaml", "- a\n- b\nc: d\n"},
	}
	if full {
		docs = append(docs, doc1{"json", `"te\u0041xt"`}, doc1{"json", "12345"}, doc1{"mp", "\xa3abc"}, doc1{"bson", string(encodeFor("bson", big))[:30]},
			doc1{"json", string(refEncode(objOfLen(20)))}, doc1{"yaml", "a: 1\nb: &a text\n"})
	}
	var out []session
	add := func(name string, live bool, f func(cached bool, log *strings.Builder) *d.DxValue) {
		out = append(out, session{name, f, live})
	}
	fin := []struct {
		name string
		live bool
		f    func(v *d.DxValue, log *strings.Builder)
	}{
		{"free", false, func(v *d.DxValue, log *strings.Builder) { free(v) }},
		{"grow+free", false, func(v *d.DxValue, log *strings.Builder) { probe(v, log); free(v) }},
		{"keep", true, func(v *d.DxValue, log *strings.Builder) {}},
	}
	if full {
		fin = append(fin, struct {
			name string
			live bool
			f    func(v *d.DxValue, log *strings.Builder)
		}{"grow+keep", true, func(v *d.DxValue, log *strings.Builder) { probe(v, log) }})
	}
	for _, doc := range docs {
		for _, e := range fin {
			doc, e := doc, e
			add("decode "+doc.f+" "+short(fmt.Sprintf("%q", doc.s))+" "+e.name, e.live, func(cached bool, log *strings.Builder) *d.DxValue {
				v, err := decodeBy(doc.f, doc.s, cached)
				log.WriteString(errTag(err))
				if err != nil {
					return nil
				}
				log.WriteString(obs(v))
				e.f(v, log)
				return v
			})
		}
	}
	// build, clear, rebuild, load over
	add("build+clear+grow+keep", true, func(cached bool, log *strings.Builder) *d.DxValue {
		v := newRoot(d.VT_Object, cached)
		fill(v, big)
		log.WriteString(obs(v))
		v.Clear()
		log.WriteString(obs(v))
		probe(v, log)
		return v
	})
	add("build bin+load json+load mp+free", false, func(cached bool, log *strings.Builder) *d.DxValue {
		v := newRoot(d.VT_Object, cached)
		fill(v, bin)
		log.WriteString(obs(v))
		log.WriteString(errTag(loadBy(v, docs[1].f, docs[1].s)))
		log.WriteString(obs(v))
		log.WriteString(errTag(loadBy(v, docs[3].f, docs[3].s)))
		log.WriteString(obs(v))
		probe(v, log)
		free(v)
		return nil
	})
	add("array+load bad+load yaml+keep", true, func(cached bool, log *strings.Builder) *d.DxValue {
		v := newRoot(d.VT_Array, cached)
		for i := 0; i < 12; i++ {
			v.SetIndexInt(i, int64(i))
		}
		log.WriteString(errTag(loadBy(v, docs[2].f, docs[2].s)))
		log.WriteString(fmt.Sprint(v.Count()))
		log.WriteString(errTag(loadBy(v, docs[7].f, docs[7].s)))
		log.WriteString(obs(v))
		return v
	})
	large := mObj("list", arrOfLen(40), "map", objOfLen(70), "text", mStr(strOfLen(300)), "deep", mArr(mObj("a", mArr(mObj("b", mArr(mObj("c", arrOfLen(9)), mBin(bytesOfLen(90))))))))
	add("build large+clear+refill+keep", true, func(cached bool, log *strings.Builder) *d.DxValue {
		v := newRoot(d.VT_Object, cached)
		fill(v, large)
		log.WriteString(obs(v))
		v.Clear()
		for i := 0; i < 9; i++ {
			v.SetKeyInt("r"+itoa(i), int64(i))
		}
		v.RemoveKey("r3")
		log.WriteString(obs(v))
		return v
	})
	largeMP := string(encodeFor("mp", large))
	add("decode large+remove+grow+free", false, func(cached bool, log *strings.Builder) *d.DxValue {
		v, err := decodeBy("mp", largeMP, cached)
		log.WriteString(errTag(err) + obs(v))
		l := v.ValueByName("list")
		for l.Count() > 3 {
			l.RemoveIndex(l.Count() / 2)
		}
		v.RemoveKey("deep")
		v.ValueByName("map").Clear()
		log.WriteString(obs(v))
		probe(v, log)
		free(v)
		return nil
	})
	add("clone+free source+keep", true, func(cached bool, log *strings.Builder) *d.DxValue {
		v := newRoot(d.VT_Object, cached)
		fill(v, big)
		c := v.Clone(cached)
		free(v)
		log.WriteString(obs(c))
		return c
	})
	add("convert+free", false, func(cached bool, log *strings.Builder) *d.DxValue {
		v := d.NewValueFrom(struct {
			A int
			B []byte
			C map[string]int
			D []string
		}{7, []byte{1, 2}, map[string]int{"k": 3}, []string{"p", "q"}}, cached)
		log.WriteString(obs(v))
		free(v)
		return nil
	})
	add("scalar roots", false, func(cached bool, log *strings.Builder) *d.DxValue {
		for _, k := range []d.ValueType{d.VT_Int, d.VT_Double, d.VT_String, d.VT_Binary, d.VT_ExBinary, d.VT_Array, d.VT_Object, d.VT_DateTime} {
			v := newRoot(k, cached)
			log.WriteString(obs(v))
			probe(v, log)
			free(v)
		}
		return nil
	})
	add("copy+merge+keep", true, func(cached bool, log *strings.Builder) *d.DxValue {
		v := newRoot(d.VT_Array, cached)
		s := newRoot(d.VT_Object, cached)
		fill(s, bin)
		v.CopyFrom(s, v.ValueCache())
		free(s)
		o := newRoot(d.VT_Object, cached)
		fill(o, big)
		v.MergeWith(o, nil)
		free(o)
		log.WriteString(obs(v))
		return v
	})
	return out
}

func newRoot(k d.ValueType, cached bool) *d.DxValue {
	if cached {
		return d.NewCacheValue(k)
	}
	return d.NewValue(k)
}

func runC11(c *Ctx) {
	c11fail(c)
	c11alike(c)
	c11wide(c)
	full := !c.quick
	ss := sessions(full)
	base := make([]string, len(ss))
	for i, s := range ss {
		verifrt.ResetPools()
		var b strings.Builder
		if msg := try(func() { s.run(false, &b) }); msg != "" {
			base[i] = "PANIC " + msg
			continue
		}
		base[i] = b.String()
	}
	verifrt.ResetPools()
	type step struct {
		s      int
		cached bool
	}
	var steps []step
	for i := range ss {
		steps = append(steps, step{i, true}, step{i, false})
	}
	depth, dev := 3, 1
	c.Bound("sessions", fmt.Sprint(len(ss)))
	c.Bound("sequence_length", fmt.Sprint(depth))
	c.Bound("recycler_misses", fmt.Sprint(dev))
	runSeq := func(t *T, seq []step, miss map[int]bool) int {
		verifrt.ResetPools()
		verifrt.SetMisses(miss)
		type kept struct {
			v   *d.DxValue
			obs string
			i   int
		}
		var live []kept
		for pos, st := range seq {
			var b strings.Builder
			v := ss[st.s].run(st.cached, &b)
			t.Op()
			if b.String() != base[st.s] {
				t.Failf("session #%d (%s, cached=%v) differs from the same session in a fresh process without caching:\nfresh: %s\nhere:  %s", pos, ss[st.s].name, st.cached, base[st.s], b.String())
			}
			for _, k := range live {
				if o := obs(k.v); o != k.obs {
					t.Failf("the value kept by session #%d changed during session #%d (%s, cached=%v):\nwas: %s\nis:  %s", k.i, pos, ss[st.s].name, st.cached, k.obs, o)
				}
			}
			if ss[st.s].live && v != nil {
				live = append(live, kept{v, obs(v), pos})
			}
		}
		n := verifrt.PoolGets()
		// the kept values can still be freed in any state, and what follows is as fresh
		for i, k := range live {
			if o := obs(k.v); o != k.obs {
				t.Failf("the value kept by session #%d changed while others were freed", k.i)
			}
			if i%2 == 0 {
				free(k.v)
			}
		}
		var b strings.Builder
		last := seq[0]
		ss[last.s].run(true, &b)
		t.Op()
		if b.String() != base[last.s] {
			t.Failf("session %s after the sequence differs from a fresh one:\nfresh: %s\nhere:  %s", ss[last.s].name, base[last.s], b.String())
		}
		t.Trace()
		return n
	}
	names := func(seq []step) string {
		var s []string
		for _, x := range seq {
			s = append(s, fmt.Sprintf("%s (cached=%v)", ss[x.s].name, x.cached))
		}
		return strings.Join(s, " ; ")
	}
	for i := range base {
		i := i
		c.Case(func() string { return "session " + ss[i].name + " alone" }, func(t *T) {
			if strings.HasPrefix(base[i], "PANIC") {
				t.Failf("%s", base[i])
			}
			t.State(base[i])
		})
	}
	recycledSlots(c)
	// all pairs and triples; plans of misses
	var rec func(seq []step, n int)
	explore := func(seq []step) {
		seq = append([]step(nil), seq...)
		c.Case(func() string { return names(seq) }, func(t *T) {
			n := runSeq(t, seq, nil)
			t.State(fmt.Sprint(seq))
			t.c.Count("sequences", 1)
			if len(seq) < 3 || full {
				for m := 0; m < n; m++ {
					runSeq(t, seq, map[int]bool{m: true})
					t.c.Count("recycler_plans", 1)
					if len(seq) < 3 && full {
						for m2 := m + 1; m2 < n; m2++ {
							runSeq(t, seq, map[int]bool{m: true, m2: true})
							t.c.Count("recycler_plans", 1)
						}
					}
				}
			}
		})
	}
	rec = func(seq []step, n int) {
		if c.Stop() {
			return
		}
		if len(seq) == n {
			explore(seq)
			return
		}
		for _, s := range steps {
			// a sequence without any cached session adds nothing beyond its first two
			rec(append(seq, s), n)
		}
	}
	for n := 1; n <= depth; n++ {
		rec(nil, n)
	}
}

// recycledSlots: memory that held one kind of value is handed out again as every kind of value.
func recycledSlots(c *Ctx) {
	type old struct {
		name string
		f    func(v *d.DxValue)
	}
	var olds []old
	add := func(m *M) { olds = append(olds, old{m.String(), func(v *d.DxValue) { fill(v, m) }}) }
	sizes := []int{1, 15, 16, 17, 33, 90, 300, 2000, 70000}
	for _, n := range sizes {
		add(mBin(bytesOfLen(n)))
		add(mExt(7, bytesOfLen(n)))
		add(mStr(strOfLen(n)))
	}
	for _, m := range []*M{mInt(-77), mFlt(1.5), mDbl(2.5), mTime(time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)), mExt(0, nil), mExt(255, nil), mK(KNull), mK(KNan),
		mObj("a", mInt(1)), objOfLen(3), objOfLen(40), objOfLen(300), mArr(mStr("x")), arrOfLen(3), arrOfLen(40), arrOfLen(300), mArr(mArr(mObj("k", mBin(bytesOfLen(90))))),
		{K: KBin, B: bytesOfLen(12), Sub: 7}, {K: KInt, I: 5, Sub: 17}} {
		add(m)
	}
	ld := func(name string, f func(v *d.DxValue) error) {
		olds = append(olds, old{name, func(v *d.DxValue) {
			if err := f(v); err != nil {
				panic(err)
			}
		}})
	}
	ld("escaped JSON, unread", func(v *d.DxValue) error {
		return v.LoadFromJson([]byte(`{"k\u0041\t":"\u0042","l":[1,"\n",{"\"":2.5}]}`), false)
	})
	ld("JSON text, unread", func(v *d.DxValue) error { return v.LoadFromJson([]byte(`"\u0041\n"`), false) })
	ld("shared MsgPack binary", func(v *d.DxValue) error { return v.LoadFromMsgPack([]byte("\xc4\x14aaaaaaaaaaaaaaaaaaaa"), true) })
	ld("shared MsgPack extension", func(v *d.DxValue) error { return v.LoadFromMsgPack([]byte("\xd8\x09aaaaaaaaaaaaaaaa"), true) })
	ld("BSON", func(v *d.DxValue) error {
		return v.LoadFromBson(refBsonEncode(mObj("o", mOID(bytesOfLen(12)), "d", mDec128(bytesOfLen(16)), "t", mTS(5), "x", mSubBin(4, bytesOfLen(20)))), false)
	})
	olds = append(olds, old{"a failed load", func(v *d.DxValue) { v.LoadFromJson([]byte(`{"a":[1,{"b\n":[2,"c`), false) }})
	kinds := []d.ValueType{d.VT_Object, d.VT_Array, d.VT_String, d.VT_RawString, d.VT_Int, d.VT_Float, d.VT_Double, d.VT_DateTime, d.VT_Binary, d.VT_ExBinary, d.VT_NULL, d.VT_True, d.VT_False, d.VT_NAN, d.VT_INF}
	c.Bound("recycled_slots", fmt.Sprintf("%d old contents x %d new kinds (bare, then filled), at the root and below it, 4 ways of recycling and 6 ways of creation", len(olds), len(kinds)))
	bare := func(b *strings.Builder, n *d.DxValue) {
		if n == nil {
			b.WriteString("<nil>")
			return
		}
		fmt.Fprintf(b, "%d/%d:%v,%v,%v,%v,%v,%v,%x,%d,%d,%d,%x|", n.DataType, n.ExtType, n.Int(), n.Double(), n.Float(), n.Bool(), n.Duration(7), float64(n.DateTime()), n.Binary(), n.BinLen(), n.BinExtType(), n.Count(), n.ToMsgPack(nil))
		fmt.Fprintf(b, "%q;", n.String())
	}
	samples := map[d.ValueType]*M{d.VT_Object: mObj("n", mInt(1), "m", mExt(3, nil)), d.VT_Array: mArr(mStr(""), mBin(nil)), d.VT_Binary: mBin([]byte{5}), d.VT_ExBinary: mExt(2, []byte{6}), d.VT_String: mStr("new")}
	// use creates children of kind k below v in one way and says what they hold
	use := func(v *d.DxValue, k d.ValueType, way int, cnt int) string {
		var b strings.Builder
		var kids []*d.DxValue
		for i := 0; i < cnt; i++ {
			var n *d.DxValue
			switch way {
			case 0:
				n = v.SetIndexCached(i, k, v.ValueCache())
			case 1:
				n = v.SetKeyCached("n"+itoa(i), k, v.ValueCache())
			case 2:
				n = v.SetIndex(i, k)
			case 3:
				n = v.SetKey("n"+itoa(i), k)
			case 4:
				n = v.ForcePath(k, "p"+itoa(i), "q")
			case 5:
				n = v.InsertValue(0, k)
			}
			bare(&b, n)
			kids = append(kids, n)
		}
		for i, n := range kids {
			if n == nil || n.ReadOnly() {
				continue
			}
			switch {
			case i%2 == 0 && samples[k] != nil:
				fill(n, samples[k])
			case k == d.VT_ExBinary: // the data without the type, then the type without the data
				if i%4 == 1 {
					n.SetBinary([]byte{byte(i)}, true)
				} else {
					n.SetExtType(byte(i))
				}
			case k == d.VT_Array:
				n.SetIndexCached(1, d.VT_ExBinary, v.ValueCache())
			case k == d.VT_Object:
				n.SetKeyCached("x", d.VT_ExBinary, v.ValueCache())
			}
			bare(&b, n)
		}
		b.WriteString(obs(v))
		return b.String()
	}
	rootKind := func(way int) d.ValueType {
		if way == 1 || way == 3 || way == 4 {
			return d.VT_Object
		}
		return d.VT_Array
	}
	for _, o := range olds {
		o := o
		c.Case(func() string { return "slots that held " + o.name + " handed out again" }, func(t *T) {
			for _, k := range kinds {
				for way := 0; way < 6; way++ {
					verifrt.ResetPools()
					want := use(newRoot(rootKind(way), false), k, way, 8)
					for rec := 0; rec < 4; rec++ {
						verifrt.ResetPools()
						v := d.NewCacheValue(d.VT_Array)
						for i := 0; i < 6; i++ {
							o.f(v.SetIndexCached(i, d.VT_Int, v.ValueCache()))
						}
						switch rec {
						case 0: // freed and taken again
							d.FreeValue(v)
							v = d.NewCacheValue(rootKind(way))
						case 1: // cleared, reshaped
							v.Clear()
							v.Reset(rootKind(way))
						case 2: // loaded over
							if err := v.LoadFromJson([]byte(map[bool]string{true: "{}", false: "[]"}[rootKind(way) == d.VT_Object]), false); err != nil {
								t.Failf("load: %v", err)
							}
						case 3: // freed, taken by a decoder, freed, taken again
							d.FreeValue(v)
							x, _ := d.NewValueFromMsgPack([]byte("\x93\xc0\x01\xa0"), true, false)
							d.FreeValue(x)
							v = d.NewCacheValue(rootKind(way))
						}
						got := use(v, k, way, 8)
						t.Op()
						if got != want {
							t.Failf("kind %d created below the root (way %d, recycling %d) where %s was:\nfresh: %s\nhere:  %s", k, way, rec, o.name, want, got)
						}
					}
				}
				// the root itself
				for twice := 0; twice < 2; twice++ {
					verifrt.ResetPools()
					var w, g strings.Builder
					bare(&w, newRoot(k, false))
					v := d.NewCacheValue(d.VT_Int)
					o.f(v)
					if twice == 1 {
						d.FreeValue(v)
						v = d.NewCacheValue(d.VT_ExBinary)
						v.SetExtType(9)
					}
					d.FreeValue(v)
					v = d.NewCacheValue(k)
					bare(&g, v)
					t.Op()
					if g.String() != w.String() {
						t.Failf("a root of kind %d taken where %s was:\nfresh: %s\nhere:  %s", k, o.name, w.String(), g.String())
					}
					v.Clear()
					v.Reset(k)
					g.Reset()
					bare(&g, v)
					if g.String() != w.String() {
						t.Failf("a root of kind %d taken where %s was, cleared:\nfresh: %s\nhere:  %s", k, o.name, w.String(), g.String())
					}
				}
			}
			t.State(o.name)
			t.Trace()
		})
		c.Case(func() string { return "documents decoded where " + o.name + " was" }, func(t *T) {
			for _, fd := range formatDocs() {
				x, e0 := decodeBy(fd.f.name, string(fd.b), false)
				want := "error"
				if e0 == nil {
					want = obs(x)
				}
				for rec := 0; rec < 2; rec++ {
					verifrt.ResetPools()
					v := d.NewCacheValue(d.VT_Array)
					if rec == 1 {
						o.f(v)
					} else {
						for i := 0; i < 6; i++ {
							o.f(v.SetIndexCached(i, d.VT_Int, v.ValueCache()))
						}
					}
					d.FreeValue(v)
					y, e1 := decodeBy(fd.f.name, string(fd.b), true)
					got := "error"
					if e1 == nil {
						got = obs(y)
					}
					t.Op()
					if got != want {
						t.Failf("%s decoded where %s was (%d):\nfresh: %s\nhere:  %s", fd.name, o.name, rec, want, got)
					}
				}
			}
			t.Trace()
		})
	}
}

// ---------------------------------------------------------------- C26

func priorStates() []struct {
	name string
	f    func(v *d.DxValue)
} {
	type ps = struct {
		name string
		f    func(v *d.DxValue)
	}
	out := []ps{{"fresh", func(v *d.DxValue) {}}}
	for _, m := range []*M{
		mObj(), mObj("old", mInt(1), "a", mArr(mStr("x"))), mArr(), mArr(mInt(1), mObj("a", mInt(2)), mInt(3), mInt(4), mInt(5)),
		mStr("old text"), mInt(77), mFlt(1.5), mDbl(2.5), mTime(time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)),
		mBin([]byte("old binary data")), mExt(9, []byte("old ext")), mK(KNull), mK(KTrue), mK(KFalse), mK(KNan), mK(KInf),
		{K: KBin, B: bytesOfLen(12), Sub: 7}, {K: KInt, I: 5, Sub: 17},
	} {
		m := m
		out = append(out, ps{m.String(), func(v *d.DxValue) { fill(v, m) }})
	}
	out = append(out,
		ps{"decoded with escaped keys, unread", func(v *d.DxValue) { v.LoadFromJson([]byte(`{"o\tl":"\u0041","b":[1,2,3]}`), false) }},
		ps{"decoded and read", func(v *d.DxValue) { v.LoadFromJson([]byte(`{"o\tl":"\u0041","b":[1,2,3]}`), false); obs(v) }},
		ps{"raw string", func(v *d.DxValue) { v.LoadFromJson([]byte(`"\u0041\n"`), false) }},
		ps{"after a failed load", func(v *d.DxValue) { v.LoadFromJson([]byte(`{"a":[1,{"b":`), false) }},
		ps{"after a failed msgpack load", func(v *d.DxValue) { v.LoadFromMsgPack([]byte("\x82\xa1a\x93\x01"), false) }},
		ps{"shared binary", func(v *d.DxValue) { v.LoadFromMsgPack([]byte("\xc4\x05hello"), true) }},
		ps{"object then cleared", func(v *d.DxValue) { fill(v, objOfLen(12)); v.Clear() }},
	)
	return out
}

func runC26(c *Ctx) {
	c26alike(c)
	c26odd(c)
	c26wide(c)
	docs := formatDocs()
	prior := priorStates()
	type holder struct {
		name string
		mk   func() *d.DxValue
	}
	holders := []holder{
		{"NewValue", func() *d.DxValue { return d.NewValue(d.VT_Object) }},
		{"NewCacheValue", func() *d.DxValue { return d.NewCacheValue(d.VT_Object) }},
		{"child of an object", func() *d.DxValue { p := d.NewObject(true); p.SetKeyInt("z", 1); return p.SetKey("c", d.VT_Object) }},
		{"element of an array", func() *d.DxValue { p := d.NewArray(false); p.SetIndexInt(0, 1); return p.SetIndex(1, d.VT_Array) }},
		{"zero value", func() *d.DxValue { return &d.DxValue{} }},
	}
	// what a fresh decode gives
	want := make([]*M, len(docs))
	werr := make([]bool, len(docs))
	for i, doc := range docs {
		i, doc := i, doc
		try(func() {
			v, err := decodeBy(doc.f.name, string(doc.b), false)
			werr[i] = err != nil
			if err == nil {
				want[i] = observe(v)
			}
		})
	}
	// inputs with nothing in them: the old content goes all the same
	blank := func(f, b string) {
		docs = append(docs, fdoc{formats[f], nil, []byte(b), true, fmt.Sprintf("%s blank %q", f, b)})
		want, werr = append(want, nil), append(werr, false)
	}
	for _, f := range []string{"json", "mp", "bson", "yaml"} {
		blank(f, "")
	}
	blank("json", " \r\n\t")
	blank("yaml", " \n\n  \t")
	c.Bound("documents", fmt.Sprint(len(docs)))
	c.Bound("prior_states", fmt.Sprint(len(prior)))
	c.Bound("holders", fmt.Sprint(len(holders)))
	load := func(t *T, v *d.DxValue, i int, share bool) {
		doc := docs[i]
		b := clone(doc.b)
		var err error
		switch doc.f.name {
		case "json":
			err = v.LoadFromJson(b, share)
		case "mp":
			err = v.LoadFromMsgPack(b, share)
		case "bson":
			err = v.LoadFromBson(b, share)
		default:
			err = v.LoadFromYaml(b)
		}
		t.Op()
		if (err != nil) != werr[i] {
			t.Failf("loading %s: error %v, decoding it as a new value: error=%v", doc.name, err, werr[i])
		}
		if err == nil && want[i] == nil {
			if v.Count() != 0 || v.Int() != 0 || v.Double() != 0 || v.BinLen() != 0 || v.BinExtType() != 0 || v.Bool() || v.DataType == d.VT_String && v.String() != "" ||
				v.ValueByName("old") != nil || v.ValueByName("again") != nil || v.ValueByName("0") != nil || v.ValueByIndex(0) != nil {
				t.Failf("loading %s leaves content: %v", doc.name, observe(v))
			}
		} else if err == nil {
			if s := full(v, want[i], eqOpt{tol: 2 * time.Second}); s != "" {
				t.Failf("loading %s differs from decoding it as a new value: %s", doc.name, s)
			}
			if doc.m != nil {
				if s := diff(doc.m, observe(v), eqOpt{numeric: true, f32dbl: true, tol: 2 * time.Second, anyBin: true}); s != "" {
					t.Failf("loading %s gives another tree than it denotes: %s", doc.name, s)
				}
			}
			if v.ExtType != 0 && want[i].Sub == 0 && want[i].K != KStr {
				t.Failf("loading %s leaves ExtType %d", doc.name, v.ExtType)
			}
		} else {
			if err.Error() == "" {
				t.Failf("unreadable error")
			}
			if v.Count() != 0 || v.Int() != 0 || v.Double() != 0 || v.BinLen() != 0 || v.DataType == d.VT_String && v.String() != "" {
				t.Failf("after the failed load of %s the value is not empty: %v", doc.name, observe(v))
			}
			for _, e := range jsonEncs {
				e.f(v)
			}
			v.ToMsgPack(nil)
			v.ToBson(nil)
			_ = v.String()
		}
		// a usable value: set, read back, encode
		t.State(fmt.Sprintf("%v|%v", observe(v), err != nil))
	}
	usable := func(t *T, v *d.DxValue) {
		v.SetKeyString("again", "x")
		if v.AsString("again", "") != "x" {
			t.Failf("the value cannot be set after loading: %v", observe(v))
		}
		v.Reset(d.VT_Array)
		v.SetIndexInt(0, 5)
		if v.Count() != 1 || v.IntByIndex(0, 0) != 5 {
			t.Failf("the value cannot be reset after loading: %v", observe(v))
		}
	}
	// large documents: after every prior state, before and after every other document
	nb := len(docs)
	bigs := bigFdocs()
	docs = append(docs, bigs...)
	for i := nb; i < len(docs); i++ {
		v, err := decodeBy(docs[i].f.name, string(docs[i].b), false)
		want, werr = append(want, nil), append(werr, err != nil)
		if err == nil {
			want[i] = observe(v)
		}
	}
	c.Bound("large_documents", fmt.Sprint(len(bigs)))
	for i := nb; i < len(docs); i++ {
		i := i
		c.Case(func() string { return "loading " + docs[i].name + " into every holder and state" }, func(t *T) {
			for hi := range holders {
				for pi := range prior {
					for j := range docs[:nb] {
						if (pi+j)%7 != (hi+i)%7 {
							continue
						}
						v := holders[hi].mk()
						prior[pi].f(v)
						load(t, v, i, (pi+j)%2 == 0)
						load(t, v, j, pi%2 == 0)
						load(t, v, i, j%2 == 0)
						usable(t, v)
						t.Trace()
					}
				}
			}
		})
		c.Case(func() string { return "loading " + docs[i].name + " between other large documents" }, func(t *T) {
			for hi := range holders {
				v := holders[hi].mk()
				for j := nb; j < len(docs); j++ {
					load(t, v, i, j%2 == 0)
					load(t, v, j, hi%2 == 0)
				}
				usable(t, v)
				t.Trace()
			}
		})
	}
	docs = docs[:nb]
	// every short input of every format, good or bad: the load and the decode as a new value agree
	n := 3
	if !c.quick {
		n = 4
	}
	sets := []struct {
		f, pre, post string
		al           []string
		n            int
	}{
		{"json", "", "", jsonAlpha, n}, {"mp", "", "", mpAlpha, n - 1}, {"mp", "", "", fullBytes(), 2}, {"bson", "", "", bsonAlpha, n}, {"yaml", "", "", yamlAlpha, n},
		{"json", "[", "]", []string{"1", ",", "-", "{", "}", `"a"`, ":", "nan", "true", "[", "]"}, n + 1},
		{"json", `"`, `"`, []string{`\`, "u", "0", "41", "n", `"`}, n + 2},
		{"yaml", "", "", []string{"a", ": ", "\n", "  ", "- ", "&x", "*x", "<<: ", "#", "1"}, n + 2},
		{"yaml", "a: 1\n", "", []string{"b", ": ", "\n", "  ", "- ", "# c", "---", "2"}, n + 1},
	}
	for si, s := range sets {
		s := s
		c.Bound(fmt.Sprintf("short_inputs_%d_%s", si, s.f), fmt.Sprintf("%q + up to %d of %d symbols + %q, in every prior state of two holders in turn", s.pre, s.n, len(s.al), s.post))
		for _, a := range append([]string{""}, s.al...) {
			for _, a2 := range append([]string{""}, s.al...) {
				a, a2 := a, a2
				if a == "" && a2 != "" {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("short %s inputs %q + %q%q + ... + %q", s.f, s.pre, a, a2, s.post) }, func(t *T) {
					k := len(a) + 3*len(a2)
					one := func(in string) {
						x, e0 := decodeBy(s.f, in, false)
						for r := 0; r < 3; r++ {
							k++
							v := holders[k%2].mk()
							pr := prior[(k/2)%len(prior)]
							pr.f(v)
							err := loadBy(v, s.f, in)
							t.Op()
							where := func() string {
								return fmt.Sprintf("loading %s %q into %s holding %s", s.f, in, holders[k%2].name, pr.name)
							}
							blank := in == "" || (s.f == "json" || s.f == "yaml") && strings.Trim(in, " \t\r\n") == ""
							if (err != nil) != (e0 != nil) && !blank {
								t.Failf("%s: error %v; decoding it as a new value: error %v", where(), err, e0)
							}
							if err != nil || x == nil || blank {
								if v.Count() != 0 || v.Int() != 0 || v.Double() != 0 || v.BinLen() != 0 || v.BinExtType() != 0 || v.DataType == d.VT_String && v.String() != "" {
									t.Failf("%s: not empty afterwards (error %v): %v", where(), err, observe(v))
								}
							} else if s := full(v, observe(x), eqOpt{}); s != "" {
								t.Failf("%s: not what decoding it as a new value gives: %s", where(), s)
							}
							if k%64 == 0 {
								usable(t, v)
							}
						}
						t.State(s.f + in)
					}
					var rec func(mid string, left int)
					rec = func(mid string, left int) {
						ins := []string{s.pre + mid + s.post}
						if s.f == "bson" {
							ins = append(ins, bsonFrames(mid)...)
						}
						for _, in := range ins {
							one(in)
						}
						if left == 0 {
							return
						}
						for _, x := range s.al {
							rec(mid+x, left-1)
						}
					}
					switch {
					case a == "" || a2 == "":
						rec(a, 0)
					default:
						rec(a+a2, s.n-2)
					}
					t.Trace()
				})
			}
		}
	}
	for hi := range holders {
		for pi := range prior {
			for i := range docs {
				hi, pi, i := hi, pi, i
				c.Case(func() string {
					return fmt.Sprintf("%s holding %s, loading %s and then every other document", holders[hi].name, prior[pi].name, docs[i].name)
				}, func(t *T) {
					for _, share := range []bool{false, true} {
						for j := range docs {
							if c.quick && hi > 1 && j%3 != i%3 {
								continue
							}
							v := holders[hi].mk()
							prior[pi].f(v)
							load(t, v, i, share)
							load(t, v, j, share)
							usable(t, v)
							t.Trace()
							if !c.quick && hi < 2 {
								for k := range docs {
									if k%5 != (i+j)%5 {
										continue
									}
									v := holders[hi].mk()
									prior[pi].f(v)
									load(t, v, i, share)
									load(t, v, j, !share)
									load(t, v, k, share)
									t.Trace()
								}
							}
							if v.ValueCache() != nil && hi == 1 {
								free(v)
							}
						}
					}
				})
			}
		}
	}
}
