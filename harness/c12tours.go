package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/suiyunonghen/DxCommonLib"
	d "github.com/suiyunonghen/dxsvalue"
)

// Tours are long scripts that together enter every exported operation with every kind of content. They are too long to
// explore at every switch point; they run in the happens-before build against themselves and in serial order.

type tourStd struct{ A, B string }

func (s *tourStd) DecodeFromDxValue(from *d.DxValue) { s.A, s.B = from.AsString("a", ""), "read" }
func (s tourStd) EncodeToDxValue(dest *d.DxValue)    { dest.SetKeyString("a", s.A) }

type tourStruct struct {
	A  int8
	B  uint16
	C  float32
	D  float64
	E  bool
	F  string
	G  []byte
	H  time.Time
	I  *tourStruct
	J  []interface{}
	K  map[string]interface{}
	L  map[string]int
	M  []tourStruct
	N  []string
	O  interface{}
	P  tourStd
	Q  DxCommonLib.TDateTime
	Rr string `json:"named"`
}

// tourTree is a tree holding every kind of content, different for every thread.
func tourTree(id int, f string) *M {
	s := itoa(id)
	m := mObj("text"+s, mStr("plain "+s), "esc\n"+s, mStr("q\"\\\u00e9\u4e2d\U0001F600\x01\t"+s), "int", mInt(int64(id)), "neg", mInt(int64(-200-id)), "big", mInt(1<<40+int64(id)),
		"list", mArr(mInt(int64(id)), mStr("x"+s), mObj("k"+s, mK(KTrue)), mArr()), "obj", mObj("in", mObj("deep"+s, mK(KNull))), "t", mK(KTrue), "f", mK(KFalse), "d", mDbl(1.25+float64(id)))
	if f != "yaml" {
		m.Keys = append(m.Keys, "null", "empty", "long")
		m.Vals = append(m.Vals, mK(KNull), mStr(""), mStr(strings.Repeat("l"+s, 150)))
	}
	if f == "mp" || f == "bson" || f == "" {
		m.Keys = append(m.Keys, "bin", "time")
		m.Vals = append(m.Vals, mBin([]byte{byte(id), 1, 2}), mTime(time.Date(2021, 5, 6, 7, 8, 9+id, 0, time.UTC)))
	}
	if f == "mp" || f == "" {
		m.Keys = append(m.Keys, "ext", "wide", "flt")
		m.Vals = append(m.Vals, mExt(byte(id+1), []byte{byte(id), 9}), arrOfLen(20+id), mFlt(0.5+float32(id)))
	}
	if f == "json" || f == "" {
		m.Keys = append(m.Keys, "nan", "inf")
		m.Vals = append(m.Vals, mK(KNan), mK(KInf))
	}
	return m
}

func tourReads(v *d.DxValue, log *strings.Builder) {
	p := func(x ...interface{}) { fmt.Fprintln(log, x...) }
	for _, n := range nodesOf(v) {
		x := n.n
		p(x.DataType, x.Type(), x.Count(), x.ReadOnly(), x.BinLen(), x.BinExtType(), x.Int(), x.Float(), x.Double(), x.Bool(), x.Duration(time.Second), float64(x.DateTime()), x.GoTime().UTC(), x.String(), x.Binary(), x.ValueCache() != nil)
		for i := 0; i < x.Count(); i++ {
			k, _ := x.Items(i)
			p(k, x.KeyNameByIndex(i), x.IntByIndex(i, 1), x.StringByIndex(i, "d"), x.BoolByIndex(i, true), x.FloatByIndex(i, 1), x.DoubleByIndex(i, 2))
			p(x.AsString(k, "d"), x.AsInt(k, 1), x.AsInt64(k, 2), x.AsBool(k, true), x.AsFloat(k, 1), x.AsDouble(k, 2), x.AsDuration(time.Minute, k), float64(x.AsDateTime(k, 3)))
			p(x.StringByName(k, "d"), x.IntByName(k, 1), x.BoolByName(k, true), x.FloatByName(k, 1), x.DoubleByName(k, 1), x.DurationByName(time.Minute, k), x.TimeByName(k, time.Time{}).UTC(), x.Find(k) == nil, x.ValueByName(k+"x") == nil)
			p(v.StringByPath("d", "obj", k), v.IntByPath(1, "list", k), v.BoolByPath(true, k), v.FloatByPath(1, k), v.DoubleByPath(1, k), v.DurationByPath(time.Minute, k), float64(v.DateTimeByPath(1, k)), v.GoTimeByPath(time.Time{}, k).UTC())
		}
	}
	v.Visit(func(k string, x *d.DxValue) bool { p(k, x.DataType); return true })
}

func c12tours() []script {
	dir := os.TempDir()
	tm := time.Date(2022, 1, 2, 3, 4, 5, 0, time.UTC)
	ts := []script{
		{"tour: reads", false, func(id int, log *strings.Builder) {
			for _, cached := range []bool{false, true} {
				v := build(tourTree(id, ""), cached)
				tourReads(v, log)
				d.FreeValue(v)
			}
		}},
		{"tour: setters", false, func(id int, log *strings.Builder) {
			for _, cached := range []bool{false, true} {
				v, c := newRoot(d.VT_Object, cached), int64(id)
				k := "k\n" + itoa(id)
				v.SetKeyInt(k, c)
				v.SetKeyFloat(k, 1.5)
				v.SetKeyDouble(k, 2.5)
				v.SetKeyBool(k, true)
				v.SetKeyString(k, "s\t"+itoa(id))
				v.SetKeyTime(k, tm)
				v.SetKeyCached(k, d.VT_Array, v.ValueCache()).SetIndexInt(0, c)
				a := v.SetKey("arr", d.VT_Array)
				a.SetIndexInt(0, c)
				a.SetIndexFloat(1, 0.5)
				a.SetIndexDouble(2, 0.5)
				a.SetIndexBool(3, false)
				a.SetIndexString(4, "e"+itoa(id))
				a.SetIndexTime(5, tm)
				a.SetIndexCached(6, d.VT_Object, v.ValueCache()).SetKeyInt("x", c)
				a.SetIndexValue(7, build(mObj("y", mInt(c)), false))
				a.InsertValue(1, d.VT_String).SetString("ins")
				a.Append(d.VT_ExBinary).SetExtType(byte(7 + id))
				for i, val := range []interface{}{int8(1), uint64(3), "t", true, 1.5, float32(2.5), []byte{1, byte(id)}, tm, nil, map[string]interface{}{"q": id}, []string{"a", "b"}, &tourStruct{A: int8(id), P: tourStd{"p", "q"}, I: &tourStruct{}}} {
					a.SetIndexvalue(8+i, val, nil)
					v.SetKeyvalue("v"+itoa(i), val, v.ValueCache())
					x := d.NewValue(d.VT_Object)
					x.SetValue(val)
					log.WriteString(observe(x).String())
				}
				x := v.SetKey("scalar", d.VT_String)
				x.SetBinary([]byte{byte(id)}, true)
				x.SetTime(tm)
				x.SetDelphiTime(44000.5)
				x.SetDouble(1)
				x.SetFloat(2)
				x.SetInt(3)
				x.SetBool(true)
				v.ForcePath(d.VT_Int, "n", "p", itoa(id)).SetInt(c)
				v.ForcePath(d.VT_Array, "arr", "2").Append(d.VT_NULL)
				v.RemoveKey("v1")
				log.WriteString(fmt.Sprint(v.ExtractValue("v2") != nil))
				a.RemoveIndex(1)
				w := newRoot(d.VT_Array, cached)
				w.CopyFrom(v, w.ValueCache())
				w.AddFrom(v, nil)
				w.MergeWith(v, func(p string, o, n *d.DxValue) d.MergeOp { return d.MO_Replace })
				log.WriteString(fmt.Sprint(w.Equal(v), v.Equal(v.Clone(true))))
				log.WriteString(observe(v).String() + observe(w).String())
				a.Clear()
				v.Reset(d.VT_Array)
				d.FreeValue(v)
				d.FreeValue(w)
			}
		}},
		{"tour: conversions", false, func(id int, log *strings.Builder) {
			p := func(x ...interface{}) { fmt.Fprintln(log, x...) }
			s := tourStruct{A: int8(id), B: 7, C: 1.5, D: 2.5, E: true, F: "f" + itoa(id), G: []byte{1, byte(id)}, H: tm, I: &tourStruct{F: "inner"}, J: []interface{}{1, "x", true, nil},
				K: map[string]interface{}{"one": id}, L: map[string]int{"l": id}, M: []tourStruct{{F: "m"}}, N: []string{"n"}, O: "any", P: tourStd{"p" + itoa(id), ""}, Q: 44000, Rr: "r"}
			v := d.NewValueFrom(&s, id%2 == 0)
			log.WriteString(observe(v).String())
			var o tourStruct
			v.ToStdValue(&o, true)
			p(o.A, o.B, o.C, o.D, o.E, o.F, o.G, o.H.UTC(), o.I != nil, o.J, o.K, o.L, len(o.M), o.N, o.O, o.P, o.Q, o.Rr)
			var mp map[string]interface{}
			v.ToStdValue(&mp, false)
			p(len(mp))
			var arr []interface{}
			v.ValueByName("J").ToStdValue(&arr, false)
			var ss []string
			v.ValueByName("N").ToStdValue(&ss, false)
			p(arr, ss)
			sc := build(mArr(mInt(int64(id)), mStr("7"), mDbl(1.5), mK(KTrue), mTime(tm), mBin([]byte{1})), false)
			for i := 0; i < sc.Count(); i++ {
				x := sc.ValueByIndex(i)
				var a int
				var a8 int8
				var u uint32
				var f float32
				var g float64
				var b bool
				var st string
				var t time.Time
				var by []byte
				var an interface{}
				for _, q := range []interface{}{&a, &a8, &u, &f, &g, &b, &st, &t, &by, &an} {
					if msg := try(func() { x.ToStdValue(q, false) }); msg != "" {
						p("panic")
					}
				}
				p(a, a8, u, f, g, b, st, by)
			}
			bs, err := d.Marshal(v)
			p(len(bs) > 0, err)
			js, err := d.Marshal(s)
			p(len(js) > 0, err)
			var back tourStruct
			p(d.Unmarshal(js, &back) == nil, back.F)
			var bv d.DxValue
			p(d.Unmarshal(bs, &bv) == nil, bv.Count())
			d.RegisterTypeMapFunc(reflect.TypeOf(c12reg{}), func(fv reflect.Value, v *d.DxValue) { fv.Set(reflect.ValueOf(c12reg{int(v.Int()) * 2})) })
			d.FreeValue(v)
		}},
		{"tour: files", false, func(id int, log *strings.Builder) {
			fn := filepath.Join(dir, "c12t-"+strconv.Itoa(os.Getpid())+"-"+itoa(id))
			defer os.Remove(fn)
			v := build(tourTree(id, "json"), false)
			for k := 0; k < 4; k++ {
				log.WriteString(errTag(d.Value2File(v, fn, k%2 == 1, k > 1)))
				w, err := d.NewValueFromJsonFile(fn, k == 0)
				log.WriteString(errTag(err))
				if err == nil {
					log.WriteString(observe(w).String())
					d.FreeValue(w)
				}
			}
			for _, f := range []string{"mp", "yaml"} {
				os.WriteFile(fn, encodeFor(f, tourTree(id, f).noLong(f)), 0o600)
				var w *d.DxValue
				var err error
				if f == "mp" {
					w, err = d.NewValueFromMsgPackFile(fn, true)
				} else {
					w, err = d.NewValueFromYamlFile(fn, false)
				}
				log.WriteString(errTag(err))
				if err == nil {
					log.WriteString(observe(w).String())
				}
			}
			b := d.NewValue(d.VT_Binary)
			log.WriteString(errTag(b.SetBinaryFromFile(fn)))
			log.WriteString(errTag(b.SaveBinaryToFile(fn)))
			x, err := d.ReadFile(fn)
			log.WriteString(fmt.Sprintf("%x%s", x, errTag(err)))
		}},
	}
	for _, f := range []string{"json", "mp", "bson", "yaml"} {
		f := f
		ts = append(ts, script{"tour: " + f, false, func(id int, log *strings.Builder) {
			doc := encodeFor(f, tourTree(id, f).noLong(f))
			for _, mode := range []struct{ cached, share bool }{{false, false}, {true, true}} {
				v, err := decodeFor(f, doc, mode.cached, mode.share)
				log.WriteString(errTag(err))
				if err != nil {
					continue
				}
				log.WriteString(observe(v).String())
				log.WriteString(v.String())
				for _, st := range []d.JsonEscapeStyle{d.JSE_NoEscape, d.JSE_AllEscape, d.JSE_OnlyAnsiChar} {
					for k := 0; k < 4; k++ {
						log.Write(v.ToJson(k&1 == 0, st, k&2 == 0, nil))
					}
				}
				log.WriteString(fmt.Sprintf("%x", v.ToMsgPack(nil)))
				b, err := d.Value2Bson(v, nil)
				log.WriteString(fmt.Sprintf("%x%s", b, errTag(err)))
				for cut := 1; cut < 8 && cut < len(doc); cut++ {
					_, err := decodeFor(f, doc[:len(doc)-cut], mode.cached, mode.share)
					log.WriteString(errTag(err))
				}
				d.FreeValue(v)
			}
		}})
	}
	ts = append(ts, script{"tour: constants", false, func(id int, log *strings.Builder) {
		// the shared constants under every mutator, and however they were obtained
		ways, ops := constWays(), constOps()
		for _, w := range ways {
			v := w.mk()
			log.WriteString(observe(v).String())
			if w.name == "NewValue" {
				for _, o := range ops {
					o.f(v)
				}
				log.WriteString(observe(v).String())
			} else if v.ReadOnly() {
				d.FreeValue(v)
			}
		}
	}})
	ts = append(ts, script{"tour: special binaries and literals", false, func(id int, log *strings.Builder) {
		by := func(n int) []byte { return bytesOfLen(n) }
		for _, doc := range [][]byte{
			[]byte(`{"a":"\/Date(1612345678123)\/","b":"` + itoa(id) + `","c":nan,"d":inf,"e":"2021-05-06 07:08:09","g":-1.5e3,"h":"\u00e9\ud83d\ude00"}`),
		} {
			v, err := d.NewValueFromJson(doc, true, true)
			log.WriteString(errTag(err))
			if err == nil {
				tourReads(v, log)
				d.FreeValue(v)
			}
		}
		// BSON element kinds built by hand
		el := func(t byte, payload []byte) []byte { return append([]byte{t, 'e', byte('0' + id), 0}, payload...) }
		bin := func(sub byte, n int) []byte { return append([]byte{byte(n), 0, 0, 0, sub}, by(n)...) }
		for _, e := range [][]byte{el(7, by(12)), el(0x13, by(16)), el(9, by(8)), el(0x11, by(8)), el(0x0b, []byte("a\x00i\x00")), el(0xff, nil), el(0x7f, nil), el(6, nil), el(5, bin(3, 16)), el(5, bin(4, 16)), el(5, bin(5, 16)), el(5, bin(2, 8)), el(0x0d, []byte{3, 0, 0, 0, 'a', 'b', 0}), el(0x0e, []byte{2, 0, 0, 0, 'a', 0})} {
			doc := append([]byte{0, 0, 0, 0}, e...)
			doc = append(doc, 0)
			doc[0] = byte(len(doc))
			v, err := d.NewValueFromBson(doc, id == 0, id == 1)
			log.WriteString(errTag(err))
			if err == nil {
				log.WriteString(v.String())
				log.Write(v.ToJson(false, d.JSE_OnlyAnsiChar, true, nil))
				log.WriteString(fmt.Sprintf("%x", v.ToBson(nil)))
				log.WriteString(fmt.Sprintf("%x", v.ToMsgPack(nil)))
			}
		}
		for _, e := range [][]byte{{0xd6, 0xff, 1, 2, 3, byte(id)}, {0xd7, 0xff, 0, 0, 0, 0, 1, 2, 3, byte(id)}, {0xc7, 12, 0xff, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4}, {0xcf, 0, 0, 0, 0, 0, 0, 0, byte(id)}, {0xca, 0x3f, 0x80, 0, 0}, {0xd9, 1, 'x'}, {0xde, 0, 1, 0xa1, 'k', 0xc3}, {0xdd, 0, 0, 0, 1, 0xc2}, {0xc1}} {
			v, err := d.NewValueFromMsgPack(e, id == 0, id == 1)
			log.WriteString(errTag(err))
			if err == nil {
				log.WriteString(observe(v).String() + v.String())
			}
		}
		v := d.NewValue(d.VT_ExBinary)
		v.SetExtType(byte(id))
		v.SetBinary([]byte{byte(id)}, false)
		log.WriteString(v.String() + fmt.Sprintf("%x", v.ToMsgPack(nil)))
		log.Write(v.ToJson(false, d.JSE_AllEscape, false, nil))
	}})
	return ts
}

// noLong drops what the format does not hold.
func (m *M) noLong(f string) *M {
	if f != "yaml" {
		return m
	}
	m = m.clone()
	for i := len(m.Keys) - 1; i >= 0; i-- {
		if strings.ContainsAny(m.Keys[i], "\n") || m.Keys[i] == "list" || m.Keys[i] == "obj" {
			m.removeAt(i)
		}
	}
	m.Keys = append(m.Keys, "seq", "map")
	m.Vals = append(m.Vals, mArr(mInt(1), mStr("two"), mObj("k", mInt(3))), mObj("in", mObj("deep", mStr("x"))))
	return m
}

func decodeFor(f string, b []byte, cached, share bool) (*d.DxValue, error) {
	switch f {
	case "json":
		return d.NewValueFromJson(b, cached, share)
	case "mp":
		return d.NewValueFromMsgPack(b, cached, share)
	case "bson":
		return d.NewValueFromBson(b, cached, share)
	}
	return d.NewValueFromYaml(b, cached)
}
