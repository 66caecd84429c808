package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
)

// C22: Go data converts in and out without loss.

func init() {
	register("C22", runC22,
		"every Go type built from all base types by slice, map, pointer and struct up to a nesting depth, with boundary contents, stored through every generic setter and compared with a reference conversion, then converted back (directly, and after a JSON or MsgPack round trip) into a fresh destination of the type and into generic maps and slices",
		"maps are compared without order; nil slices and maps may come back empty")
}

type (
	myInt   int16
	myUint  uint16
	myF32   float32
	myStr   string
	myFloat float64
	myBool  bool
	selfV   struct{ N int } // encodes by value, decodes by pointer
	selfP   struct{ N int } // pointer receivers only
	selfI   int             // scalar kind
	regT    struct{ X int64 }
)

func (s selfV) EncodeToDxValue(dest *d.DxValue) { dest.SetString("v:" + strconv.Itoa(s.N)) }
func (s *selfV) DecodeFromDxValue(from *d.DxValue) {
	s.N, _ = strconv.Atoi(strings.TrimPrefix(from.String(), "v:"))
}
func (s *selfP) EncodeToDxValue(dest *d.DxValue) {
	dest.Reset(d.VT_Array)
	dest.SetIndexInt(0, int64(s.N))
}
func (s *selfP) DecodeFromDxValue(from *d.DxValue) {
	if from.DataType == d.VT_Object { // stored by value: plain struct
		s.N = from.AsInt("N", -1)
		return
	}
	s.N = from.IntByIndex(0, -1)
}
func (s selfI) EncodeToDxValue(dest *d.DxValue) { dest.SetString("i" + strconv.Itoa(int(s))) }
func (s *selfI) DecodeFromDxValue(from *d.DxValue) {
	x, _ := strconv.Atoi(strings.TrimPrefix(from.String(), "i"))
	*s = selfI(x)
}

var (
	tTime   = reflect.TypeOf(time.Time{})
	tBytes  = reflect.TypeOf([]byte{})
	tAny    = reflect.TypeOf((*interface{})(nil)).Elem()
	tRegT   = reflect.TypeOf(regT{})
	tSelfV  = reflect.TypeOf(selfV{})
	tSelfP  = reflect.TypeOf(selfP{})
	tSelfI  = reflect.TypeOf(selfI(0))
	tMyStr  = reflect.TypeOf(myStr(""))
	tString = reflect.TypeOf("")
)

type Emb struct {
	Ea int
	Eb *string
}

type Emb2 struct{ Ec []Emb }

func baseTypes() []reflect.Type {
	var out []reflect.Type
	for _, x := range []interface{}{false, int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), float32(0), float64(0), "", time.Time{}, []byte{}, myInt(0), myUint(0), myF32(0), myStr(""), myFloat(0), myBool(false), selfV{}, selfP{}, selfI(0), regT{}} {
		out = append(out, reflect.TypeOf(x))
	}
	return append(out, tAny)
}

func structOf(a, b reflect.Type) reflect.Type {
	return reflect.StructOf([]reflect.StructField{{Name: "A", Type: a}, {Name: "B2", Type: b}, {Name: "Cc", Type: tString}})
}

func hasReg(t reflect.Type) bool {
	if t == tRegT {
		return true
	}
	switch t.Kind() {
	case reflect.Slice, reflect.Ptr, reflect.Map:
		return hasReg(t.Elem())
	case reflect.Struct:
		if t == tTime {
			return false
		}
		for i := 0; i < t.NumField(); i++ {
			if hasReg(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

func composed(t reflect.Type) []reflect.Type {
	var out []reflect.Type
	if t.Kind() != reflect.Uint8 {
		out = append(out, reflect.SliceOf(t))
	}
	out = append(out, reflect.MapOf(tString, t), structOf(t, t))
	if t.Kind() != reflect.Ptr && t != tAny {
		out = append(out, reflect.PtrTo(t))
	}
	if t.Kind() == reflect.String || t.Kind() == reflect.Slice {
		out = append(out, reflect.MapOf(tMyStr, t))
	}
	return out
}

func rv(x interface{}) reflect.Value { return reflect.ValueOf(x) }

// goValues lists contents of a type.
func goValues(t reflect.Type, nest int) []reflect.Value {
	conv := func(xs ...interface{}) []reflect.Value {
		var out []reflect.Value
		for _, x := range xs {
			out = append(out, rv(x).Convert(t))
		}
		return out
	}
	switch t {
	case tTime:
		return conv(time.Date(2021, 5, 6, 7, 8, 9, 250e6, time.UTC), time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2150, 12, 31, 23, 59, 59, 0, time.UTC))
	case tBytes:
		return conv([]byte{1, 0, 255}, []byte{}, []byte(nil))
	case tSelfV:
		return conv(selfV{7}, selfV{-1})
	case tSelfP:
		return conv(selfP{8}, selfP{-2})
	case tSelfI:
		return conv(selfI(9), selfI(0))
	case tRegT:
		return conv(regT{5})
	case tAny:
		i := 5
		var out []reflect.Value
		for _, x := range []interface{}{nil, 5, "s\n", 1.5, true, uint8(200), float32(0.25), []byte{9}, time.Date(2021, 5, 6, 7, 8, 9, 0, time.UTC), map[string]interface{}{"k": int64(1), "é": []interface{}{nil, "x"}}, []interface{}{1, map[string]interface{}{"q": false}}, []string{"a", ""}, map[string]string{"a": "b"}, map[string]int{"a": -1}, &i, []int{1, 2}, selfV{3}, &selfP{4}, struct{ Z string }{"z"}, map[string]map[string]bool{"o": {"i": true}}, (*int)(nil), (*uint8)(nil), (*bool)(nil), (*float32)(nil), (*time.Time)(nil), (*string)(nil), (*[]byte)(nil), (*map[string]interface{})(nil), (*map[string]int)(nil), (*map[string]string)(nil), (*[]interface{})(nil), (*[]string)(nil), (*[]int)(nil), (*selfV)(nil), (*selfP)(nil), (*d.DxValue)(nil), (*struct{ Z string })(nil), map[string]interface{}{"p": (*int64)(nil), "q": []interface{}{(*float64)(nil), (*d.DxValue)(nil)}}} {
			v := reflect.New(t).Elem()
			if x != nil {
				v.Set(rv(x))
			}
			out = append(out, v)
			if nest > 1 && len(out) == 6 {
				break
			}
		}
		return out
	}
	var out []reflect.Value
	if t.Kind() == reflect.Struct && (t.NumField() != 3 || t.Field(2).Name != "Cc") {
		for i := 0; i < 5; i++ {
			s := reflect.New(t).Elem()
			for k := 0; k < t.NumField(); k++ {
				es := goValues(t.Field(k).Type, nest+1)
				s.Field(k).Set(es[(i+k)%len(es)])
			}
			out = append(out, s)
		}
		return out
	}
	switch t.Kind() {
	case reflect.Bool:
		return conv(true, false)
	case reflect.String:
		return conv("text", "", "q\"\\\n\u00e9")
	case reflect.Float32:
		return conv(float32(0.1), float32(-math.MaxFloat32), float32(0.5))
	case reflect.Float64:
		return conv(0.1, -1e300, 123456.5)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b := uint(t.Bits())
		for _, x := range []int64{1, 0, -1, 1<<(b-1) - 1, -1 << (b - 1)} {
			out = append(out, rv(x).Convert(t))
		}
		return out
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b := uint(t.Bits())
		for _, x := range []uint64{1, 0, 1<<(b-1) - 1} {
			out = append(out, rv(x).Convert(t))
		}
		if b < 64 {
			out = append(out, rv(uint64(1)<<b-1).Convert(t))
		}
		return out
	case reflect.Ptr:
		for _, e := range goValues(t.Elem(), nest+1) {
			p := reflect.New(t.Elem())
			p.Elem().Set(e)
			out = append(out, p)
		}
		return append(out, reflect.Zero(t))
	case reflect.Slice:
		es := goValues(t.Elem(), nest+1)
		out = append(out, reflect.Zero(t), reflect.MakeSlice(t, 0, 3))
		all := reflect.MakeSlice(t, 0, 0)
		for i, e := range es {
			if i < 3 {
				out = append(out, reflect.Append(reflect.MakeSlice(t, 0, 0), e))
			}
			all = reflect.Append(all, e)
		}
		return append(out, all)
	case reflect.Map:
		es := goValues(t.Elem(), nest+1)
		out = append(out, reflect.Zero(t), reflect.MakeMap(t))
		all := reflect.MakeMap(t)
		for i, e := range es {
			if i < 3 {
				m := reflect.MakeMap(t)
				m.SetMapIndex(rv("k\n\"").Convert(t.Key()), e)
				out = append(out, m)
			}
			all.SetMapIndex(rv("k"+strconv.Itoa(i)).Convert(t.Key()), e)
		}
		return append(out, all)
	case reflect.Struct:
		a, b := goValues(t.Field(0).Type, nest+1), goValues(t.Field(1).Type, nest+1)
		n := len(a)
		if len(b) > n {
			n = len(b)
		}
		for i := 0; i < n; i++ {
			s := reflect.New(t).Elem()
			s.Field(0).Set(a[i%len(a)])
			s.Field(1).Set(b[(i+1)%len(b)])
			s.Field(2).SetString("c" + strconv.Itoa(i))
			out = append(out, s)
		}
		return out
	}
	panic(t.String())
}

// goToM is the reference conversion of Go data into a tree.
func goToM(v reflect.Value) *M {
	if !v.IsValid() {
		return mK(KNull)
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return mK(KNull)
		}
		if p, ok := v.Interface().(*selfP); ok && v.Kind() == reflect.Ptr {
			return mArr(mInt(int64(p.N)))
		}
		return goToM(v.Elem())
	}
	switch x := v.Interface().(type) {
	case time.Time:
		return mTime(x)
	case []byte:
		return mBin(x)
	case selfV:
		return mStr("v:" + strconv.Itoa(x.N))
	case selfI:
		return mStr("i" + strconv.Itoa(int(x)))
	}
	switch v.Kind() {
	case reflect.Bool:
		return mBool(v.Bool())
	case reflect.String:
		return mStr(v.String())
	case reflect.Float32:
		return mFlt(float32(v.Float()))
	case reflect.Float64:
		return mDbl(v.Float())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return mInt(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return mInt(int64(v.Uint()))
	case reflect.Slice:
		m := mArr()
		for i := 0; i < v.Len(); i++ {
			m.Vals = append(m.Vals, goToM(v.Index(i)))
		}
		return m
	case reflect.Map:
		m := mObj()
		for _, k := range v.MapKeys() {
			m.Keys = append(m.Keys, k.String())
			m.Vals = append(m.Vals, goToM(v.MapIndex(k)))
		}
		return m
	case reflect.Struct:
		m := mObj()
		for i := 0; i < v.NumField(); i++ {
			m.Keys = append(m.Keys, v.Type().Field(i).Name)
			m.Vals = append(m.Vals, goToM(v.Field(i)))
		}
		return m
	}
	panic(v.Type().String())
}

// stdOf is the reference conversion of a tree into generic Go data.
func stdOf(m *M) interface{} {
	switch m.K {
	case KObj:
		x := map[string]interface{}{}
		for i, k := range m.Keys {
			x[k] = stdOf(m.Vals[i])
		}
		return x
	case KArr:
		x := make([]interface{}, len(m.Vals))
		for i := range m.Vals {
			x[i] = stdOf(m.Vals[i])
		}
		return x
	case KStr:
		return m.S
	case KInt:
		return m.I
	case KFlt:
		return float32(m.F)
	case KDbl:
		return m.F
	case KTime:
		return m.T
	case KBin, KExt:
		return m.B
	case KTrue:
		return true
	case KFalse:
		return false
	case KNan:
		return math.NaN()
	case KInf:
		return math.Inf(1)
	}
	return nil
}

func sameTime(a, b time.Time) bool {
	x := a.Sub(b)
	return x <= 2*time.Millisecond && x >= -2*time.Millisecond
}

// stdDiff compares generic Go data; loose: numbers by value.
func stdDiff(p string, want, got interface{}, loose bool) string {
	bad := func() string { return fmt.Sprintf("at %q: want %T %v, got %T %v", p, want, want, got, got) }
	if loose {
		f := func(x interface{}) (float64, bool) {
			switch y := x.(type) {
			case int64:
				return float64(y), true
			case float32:
				return float64(y), true
			case float64:
				return y, true
			}
			return 0, false
		}
		if a, ok := f(want); ok {
			b, ok := f(got)
			if !ok || a != b {
				return bad()
			}
			return ""
		}
	}
	switch w := want.(type) {
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok || len(g) != len(w) {
			return bad()
		}
		for k := range w {
			x, has := g[k]
			if !has {
				return bad()
			}
			if s := stdDiff(p+"/"+k, w[k], x, loose); s != "" {
				return s
			}
		}
		return ""
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return bad()
		}
		for i := range w {
			if s := stdDiff(p+"/"+strconv.Itoa(i), w[i], g[i], loose); s != "" {
				return s
			}
		}
		return ""
	case time.Time:
		if g, ok := got.(time.Time); !ok || !sameTime(w, g) {
			return bad()
		}
		return ""
	case []byte:
		if g, ok := got.([]byte); !ok || !bytes.Equal(g, w) {
			return bad()
		}
		return ""
	}
	if w, ok := want.(float64); ok && w != w {
		if g, ok := got.(float64); !ok || g == g {
			return bad()
		}
		return ""
	}
	if want != got {
		return bad()
	}
	return ""
}

// goDiff compares the original Go data with what came back.
func goDiff(p string, want, got reflect.Value, loose bool) string {
	bad := func() string {
		return fmt.Sprintf("at %q (%v): want %+v, got %+v", p, want.Type(), want.Interface(), got.Interface())
	}
	switch want.Type() {
	case tTime:
		if !sameTime(want.Interface().(time.Time), got.Interface().(time.Time)) {
			return bad()
		}
		return ""
	case tBytes:
		if !bytes.Equal(want.Bytes(), got.Bytes()) {
			return bad()
		}
		return ""
	case tAny:
		return stdDiff(p, stdOf(goToM(want)), got.Interface(), loose)
	case tSelfV, tSelfP, tSelfI:
		if want.Interface() != got.Interface() {
			return bad()
		}
		return ""
	case tRegT:
		if want.Interface().(regT).X+1000 != got.Interface().(regT).X {
			return bad()
		}
		return ""
	}
	switch want.Kind() {
	case reflect.Ptr:
		if want.IsNil() || got.IsNil() {
			if want.IsNil() != got.IsNil() {
				return bad()
			}
			return ""
		}
		return goDiff(p+"/*", want.Elem(), got.Elem(), loose)
	case reflect.Slice:
		if want.Len() != got.Len() {
			return bad()
		}
		for i := 0; i < want.Len(); i++ {
			if s := goDiff(p+"/"+strconv.Itoa(i), want.Index(i), got.Index(i), loose); s != "" {
				return s
			}
		}
		return ""
	case reflect.Map:
		if want.Len() != got.Len() {
			return bad()
		}
		for _, k := range want.MapKeys() {
			g := got.MapIndex(k)
			if !g.IsValid() {
				return bad()
			}
			if s := goDiff(p+"/"+k.String(), want.MapIndex(k), g, loose); s != "" {
				return s
			}
		}
		return ""
	case reflect.Struct:
		for i := 0; i < want.NumField(); i++ {
			if s := goDiff(p+"/"+want.Type().Field(i).Name, want.Field(i), got.Field(i), loose); s != "" {
				return s
			}
		}
		return ""
	}
	if want.Interface() != got.Interface() {
		return bad()
	}
	return ""
}

type goSetter struct {
	name string
	f    func(x interface{}) *d.DxValue
}

func goSetters() []goSetter {
	prior := func(m *M, cached bool) *d.DxValue { return build(m, cached) }
	return []goSetter{
		{"NewValueFrom", func(x interface{}) *d.DxValue { return d.NewValueFrom(x, false) }},
		{"NewValueFrom cached", func(x interface{}) *d.DxValue { return d.NewValueFrom(x, true) }},
		{"SetValue over an object", func(x interface{}) *d.DxValue {
			v := prior(mObj("A", mStr("old"), "k0", mInt(3), "zz", mArr()), false)
			v.SetValue(x)
			return v
		}},
		{"SetValue over a cached array", func(x interface{}) *d.DxValue {
			v := prior(mArr(mStr("old"), mInt(3), mObj("A", mInt(1))), true)
			v.SetValue(x)
			return v
		}},
		{"SetValue over text", func(x interface{}) *d.DxValue { v := prior(mStr("old"), false); v.SetValue(x); return v }},
		{"SetKeyvalue", func(x interface{}) *d.DxValue {
			v := prior(mObj("a", mInt(1)), false)
			v.SetKeyvalue("k", x, nil)
			return v.ValueByName("k")
		}},
		{"SetKeyvalue cached over another kind", func(x interface{}) *d.DxValue {
			v := prior(mObj("k", mExt(1, []byte{1}), "l", mInt(2)), true)
			v.SetKeyvalue("k", x, v.ValueCache())
			return v.ValueByName("k")
		}},
		{"SetIndexvalue appended", func(x interface{}) *d.DxValue {
			v := prior(mArr(mInt(1)), false)
			v.SetIndexvalue(1, x, nil)
			return v.ValueByIndex(1)
		}},
		{"SetIndexvalue cached over another kind", func(x interface{}) *d.DxValue {
			v := prior(mArr(mExt(1, []byte{1}), mInt(2)), true)
			v.SetIndexvalue(0, x, v.ValueCache())
			return v.ValueByIndex(0)
		}},
		{"SetKeyvalue over an object", func(x interface{}) *d.DxValue {
			v := prior(mObj("a", mInt(1), "k", mObj("A", mStr("old"), "k0", mInt(3), "zz", mArr())), false)
			v.SetKeyvalue("k", x, nil)
			return v.ValueByName("k")
		}},
		{"SetKeyvalue over a cached array", func(x interface{}) *d.DxValue {
			v := prior(mObj("k", mArr(mStr("old"), mInt(3), mObj("A", mInt(1)), mArr(mInt(1), mInt(2))), "l", mInt(1)), true)
			v.SetKeyvalue("k", x, v.ValueCache())
			return v.ValueByName("k")
		}},
		{"SetKeyvalue of an array position over an object", func(x interface{}) *d.DxValue {
			v := prior(mArr(mInt(1), mObj("A", mStr("old"), "k0", mInt(3))), true)
			v.SetKeyvalue("1", x, nil)
			return v.ValueByIndex(1)
		}},
		{"SetIndexvalue over an array", func(x interface{}) *d.DxValue {
			v := prior(mArr(mInt(1), mArr(mStr("old"), mInt(3), mObj("A", mInt(1)), mArr(mInt(1), mInt(2)))), false)
			v.SetIndexvalue(1, x, nil)
			return v.ValueByIndex(1)
		}},
		{"SetIndexvalue over a cached object", func(x interface{}) *d.DxValue {
			v := prior(mArr(mObj("A", mStr("old"), "k0", mInt(3), "zz", mArr()), mInt(2)), true)
			v.SetIndexvalue(0, x, v.ValueCache())
			return v.ValueByIndex(0)
		}},
	}
}

func runC22(c *Ctx) {
	c22alike(c)
	c22odd(c)
	c22local(c)
	c22wide(c)
	d.RegisterTypeMapFunc(tRegT, func(fv reflect.Value, value *d.DxValue) {
		fv.Field(0).SetInt(value.AsInt64("X", -1) + 1000)
	})
	base := baseTypes()
	depth := 3
	if !c.quick {
		depth = 4
	}
	var types []reflect.Type
	level := base
	types = append(types, base...)
	for i := 0; i < depth; i++ {
		var nx []reflect.Type
		for _, t := range level {
			nx = append(nx, composed(t)...)
		}
		level = nx
		types = append(types, level...)
	}
	for _, a := range base {
		for _, b := range base {
			if a != b {
				pa := a
				if a != tAny && a.Kind() != reflect.Ptr { // a nil inside *interface{} is not distinguishable from a nil pointer
					pa = reflect.PtrTo(a)
				}
				types = append(types, structOf(a, b), structOf(pa, reflect.SliceOf(b)), reflect.SliceOf(structOf(a, reflect.MapOf(tString, b))))
			}
		}
	}
	for _, x := range []interface{}{struct{}{}, struct{ A int }{}, struct{ Emb }{}, struct{ *Emb }{}, struct {
		Emb
		X string
		*Emb2
	}{}, struct {
		A int      `json:"b,omitempty"`
		B string   `json:"-"`
		C []string `json:"a"`
	}{}, struct {
		A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q int
	}{}, struct {
		B  bool
		I  int8
		U  uint16
		F  float32
		D  float64
		S  string
		T  time.Time
		Y  []byte
		N  myInt
		R  regT
		V  selfV
		PB *bool
		PI *int32
		PU *uint8
		PF *float32
		PD *float64
		PS *string
		PT *time.Time
		LI []int
		LS []string
		LA []interface{}
		MA map[string]interface{}
		MS map[string]string
		MI map[string]int
		PM *map[string]int
		PL *[]string
		Z  interface{}
	}{}} {
		ty := reflect.TypeOf(x)
		types = append(types, ty, reflect.SliceOf(ty), reflect.MapOf(tString, ty), reflect.PtrTo(ty))
	}
	setters := goSetters()
	// library values as Go data, alone and inside Go containers
	for _, m := range append(append(typedTrees(), arrTrees()...), scalarTrees()...) {
		m := m
		c.Case(func() string { return fmt.Sprintf("library value %v as Go data", m) }, func(t *T) {
			type sI struct{ A interface{} }
			for _, cached := range []bool{false, true} {
				for way := 0; way < 2; way++ {
					for _, st := range setters {
						for _, w := range []struct {
							name string
							mk   func(x interface{}) interface{}
							get  func(v *d.DxValue) *d.DxValue
						}{
							{"itself", func(x interface{}) interface{} { return x }, func(v *d.DxValue) *d.DxValue { return v }},
							{"in a map", func(x interface{}) interface{} { return map[string]interface{}{"k": x} }, func(v *d.DxValue) *d.DxValue { return v.ValueByName("k") }},
							{"in a slice", func(x interface{}) interface{} { return []interface{}{1, x} }, func(v *d.DxValue) *d.DxValue { return v.ValueByIndex(1) }},
							{"in a struct", func(x interface{}) interface{} { return sI{x} }, func(v *d.DxValue) *d.DxValue { return v.ValueByName("A") }},
						} {
							x := build(m, cached)
							var arg interface{} = x
							if way == 1 {
								arg = *x
							}
							v := st.f(w.mk(arg))
							t.Op()
							if s := diff(m, observe(w.get(v)), eqOpt{tol: time.Millisecond}); s != "" {
								t.Failf("%v (cached %v, by value %v) %s through %s: %s", m, cached, way == 1, w.name, st.name, s)
							}
						}
					}
				}
			}
			t.Trace()
		})
	}
	c.Bound("types", fmt.Sprintf("%d: %d base types, composition depth %d, and structs over all pairs of base types", len(types), len(base), depth))
	c.Bound("setters", fmt.Sprint(len(setters)))
	goRoundTrip := func(t *T, ty reflect.Type, values []reflect.Value) {
		{
			for _, x := range values {
				m := goToM(x)
				t.State(ty.String() + m.String())
				var arg interface{}
				if x.Kind() == reflect.Interface && x.IsNil() {
					arg = nil
				} else {
					arg = x.Interface()
				}
				opt := eqOpt{tol: time.Millisecond, unord: true}
				back := func(v *d.DxValue, how string, loose bool) {
					p := reflect.New(ty)
					if ty == tRegT {
						return
					}
					ok := v.ToStdValue(p.Interface(), false)
					t.Op()
					if !ok {
						t.Failf("%v = %+v (%s): conversion back reports failure", ty, arg, how)
					}
					if s := goDiff("", x, p.Elem(), loose); s != "" {
						t.Failf("%v (%s) converted back: %s", ty, how, s)
					}
					// a second conversion into the same destination of maps, structs and scalars gives the same
					p2 := reflect.New(ty)
					v.ToStdValue(p2.Interface(), true)
					if s := goDiff("", x, p2.Elem(), loose); s != "" {
						t.Failf("%v (%s) converted back ignoring case: %s", ty, how, s)
					}
				}
				for _, st := range setters {
					v := st.f(arg)
					t.Op()
					if v == nil {
						t.Failf("%v = %+v: %s stores nothing", ty, arg, st.name)
					}
					got := observe(v)
					if s := diff(m, got, opt); s != "" {
						t.Failf("%v = %+v: %s: %s", ty, arg, st.name, s)
					}
					if s := consistent(v, got); s != "" {
						t.Failf("%v = %+v: %s: %s", ty, arg, st.name, s)
					}
					back(v, st.name, false)
				}
				// generic destinations
				v := d.NewValueFrom(arg, false)
				switch m.K {
				case KObj:
					g := map[string]interface{}{}
					if !v.ToStdValue(g, false) {
						t.Failf("%v: conversion into map[string]interface{} reports failure", ty)
					}
					if s := stdDiff("", stdOf(m), g, false); s != "" {
						t.Failf("%v into map[string]interface{}: %s", ty, s)
					}
					allStr := true
					for _, e := range m.Vals {
						allStr = allStr && e.K == KStr
					}
					if allStr {
						gs := map[string]string{}
						if !v.ToStdValue(gs, false) || len(gs) != len(m.Vals) {
							t.Failf("%v into map[string]string: %v", ty, gs)
						}
						for i, k := range m.Keys {
							if gs[k] != m.Vals[i].S {
								t.Failf("%v into map[string]string: %v", ty, gs)
							}
						}
					}
				case KArr:
					g := make([]interface{}, len(m.Vals))
					if !v.ToStdValue(g, false) {
						t.Failf("%v: conversion into []interface{} reports failure", ty)
					}
					if s := stdDiff("", stdOf(m), g, false); s != "" {
						t.Failf("%v into []interface{}: %s", ty, s)
					}
					allStr := true
					for _, e := range m.Vals {
						allStr = allStr && e.K == KStr
					}
					if allStr {
						gs := make([]string, len(m.Vals))
						ok := v.ToStdValue(gs, false)
						for i := range gs {
							if !ok || gs[i] != m.Vals[i].S {
								t.Failf("%v into []string: %v", ty, gs)
							}
						}
					}
				}
				// after a round trip through a format
				if jsonable(m) {
					w, err := d.NewValueFromJson(refEncode(m), true, false)
					if err != nil {
						t.Failf("JSON of %v: %v", m, err)
					}
					back(w, "JSON", true)
				}
				if mpable(m) {
					w, err := d.NewValueFromMsgPack(encodeFor("mp", m), false, true)
					if err != nil {
						t.Failf("MsgPack of %v: %v", m, err)
					}
					back(w, "MsgPack", false)
				}
			}
			t.Trace()
		}
	}
	for _, ty := range types {
		ty := ty
		c.Case(func() string { return "Go type " + ty.String() }, func(t *T) { goRoundTrip(t, ty, goValues(ty, 0)) })
		if c.Stop() {
			return
		}
	}
	// large Go data: long slices, maps and structs of every element type, and large generic trees
	for _, b := range base {
		b := b
		for _, n := range []int{7, 8, 9, 16, 17, 33, 65, 257} {
			n := n
			c.Case(func() string { return fmt.Sprintf("%d values of Go type %v", n, b) }, func(t *T) {
				es := goValues(b, 1)
				at := func(i int) reflect.Value { return es[i%len(es)] }
				sl, mp := reflect.MakeSlice(reflect.SliceOf(b), n, n), reflect.MakeMap(reflect.MapOf(tString, b))
				var fields []reflect.StructField
				for i := 0; i < n; i++ {
					sl.Index(i).Set(at(i))
					mp.SetMapIndex(reflect.ValueOf(strOfLen(i%40+1)+itoa(i)), at(i))
					if i < 65 {
						fields = append(fields, reflect.StructField{Name: "F" + itoa(i), Type: b})
					}
				}
				st := reflect.New(reflect.StructOf(fields)).Elem()
				for i := range fields {
					st.Field(i).Set(at(i))
				}
				if b.Kind() != reflect.Uint8 {
					goRoundTrip(t, sl.Type(), []reflect.Value{sl})
				}
				goRoundTrip(t, mp.Type(), []reflect.Value{mp})
				goRoundTrip(t, st.Type(), []reflect.Value{st})
				if n < 70 {
					ll := reflect.MakeSlice(reflect.SliceOf(mp.Type()), n, n)
					for i := 0; i < n; i++ {
						ll.Index(i).Set(mp)
					}
					goRoundTrip(t, ll.Type(), []reflect.Value{ll})
				}
			})
		}
	}
	for _, m := range bigTrees() {
		m := m
		c.Case(func() string { return "large generic Go data " + short(m.String()) }, func(t *T) {
			stdTree(t, m)
			t.State(m.String())
		})
	}
	c22extra(c)
}

// stdTree stores the generic Go data of m through every setter and converts it back.
func stdTree(t *T, m *M) {
	for _, st := range goSetters() {
		v := st.f(stdOf(m))
		t.Op()
		got := observe(v)
		if s := diff(m, got, eqOpt{unord: true}); s != "" {
			t.Failf("%s: %s", st.name, s)
		}
		if s := consistent(v, got); s != "" {
			t.Failf("%s: %s", st.name, s)
		}
		var g interface{}
		if m.K == KObj {
			x := map[string]interface{}{}
			v.ToStdValue(x, false)
			g = x
		} else {
			x := make([]interface{}, len(m.Vals))
			v.ToStdValue(x, false)
			g = x
		}
		if s := stdDiff("", stdOf(m), g, false); s != "" {
			t.Failf("%s, back: %s", st.name, s)
		}
		t.Trace()
	}
}

// c22extra: typed destinations filled from foreign trees (lengths, missing and unknown entries, case, growth).
func c22extra(c *Ctx) {
	type inner struct {
		X int
		Y string
	}
	type outer struct {
		Name string
		Age  uint8
		In   inner
		Ptr  *inner
		List []inner
		PL   []*inner
		M    map[string]inner
		Any  interface{}
		T    time.Time
		B    []byte
		F    float32
	}
	c.Case(func() string { return "typed slices of every length" }, func(t *T) {
		lens := []int{0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 255, 256, 257, 300, 511, 512, 513, 600, 1024}
		for _, n := range lens {
			m := arrOfLen(n)
			v := build(m, false)
			for _, ty := range []reflect.Type{reflect.TypeOf([]int{}), reflect.TypeOf([]int64{}), reflect.TypeOf([]float64{}), reflect.TypeOf([]interface{}{}), reflect.TypeOf([]string{}), reflect.TypeOf([]*int{}), reflect.TypeOf([]myInt{})} {
				for _, pre := range []int{0, 1, 4, 300} {
					p := reflect.New(ty)
					p.Elem().Set(reflect.MakeSlice(ty, 0, pre))
					if !v.ToStdValue(p.Interface(), false) || p.Elem().Len() != n {
						t.Failf("%d elements into %v of capacity %d: length %d", n, ty, pre, p.Elem().Len())
					}
					for i := 0; i < n; i++ {
						e := p.Elem().Index(i)
						if e.Kind() == reflect.Ptr {
							e = e.Elem()
						}
						if s := fmt.Sprint(e.Interface()); s != fmt.Sprint(m.Vals[i].I) {
							t.Failf("%d elements into %v of capacity %d: element %d is %s", n, ty, pre, i, s)
						}
					}
					t.Op()
				}
			}
		}
		t.Trace()
	})
	var pre []reflect.Type
	for _, b := range baseTypes() {
		if b.Kind() != reflect.Uint8 {
			pre = append(pre, reflect.SliceOf(b))
		}
		pre = append(pre, reflect.SliceOf(structOf(b, b)), reflect.SliceOf(reflect.SliceOf(b)), reflect.SliceOf(reflect.MapOf(tString, b)))
		if b != tAny && b != tSelfV && b != tSelfP && b != tSelfI { // a self-converting type behind a pointer decides itself what null means
			pre = append(pre, reflect.SliceOf(reflect.PtrTo(b)))
		}
	}
	for _, ty := range pre {
		ty := ty
		if hasReg(ty) {
			continue // the registered function of this harness does not invert the setter
		}
		c.Case(func() string { return "slices holding other content: " + ty.String() }, func(t *T) {
			es := goValues(ty.Elem(), 1)
			if len(es) > 12 {
				es = es[:12]
			}
			for _, n := range []int{0, 1, 2, 5, 256, 257, 600} {
				src := reflect.MakeSlice(ty, n, n)
				for i := 0; i < n; i++ {
					src.Index(i).Set(es[(i*7+n)%len(es)])
				}
				v := d.NewValueFrom(src.Interface(), n&1 == 1)
				for _, lc := range [][2]int{{0, 1}, {1, 1}, {1, 2}, {2, 2}, {2, 5}, {4, 4}, {0, 300}, {300, 300}, {3, 400}, {700, 700}} {
					p := reflect.New(ty)
					s := reflect.MakeSlice(ty, lc[1], lc[1])
					for i := 0; i < lc[1]; i++ {
						s.Index(i).Set(goValues(ty.Elem(), 1)[(i*5+1)%len(es)]) // no memory shared between elements
					}
					p.Elem().Set(s.Slice(0, lc[0]))
					if !v.ToStdValue(p.Interface(), false) {
						t.Failf("%d elements into a %v of length %d and capacity %d: failure reported", n, ty, lc[0], lc[1])
					}
					if d := goDiff("", src, p.Elem(), false); d != "" {
						t.Failf("%d elements into a %v of length %d and capacity %d: %s", n, ty, lc[0], lc[1], d)
					}
					t.Op()
				}
			}
			t.Trace()
		})
	}
	// arrays whose elements leave fields out or are null, into slices that hold other content: as into a new slice
	type holder struct {
		S  []inner
		N  [][]int
		P  []*inner
		L  [][]inner
		B  [][]byte
		M  []map[string]inner
		O  []outer
		Y  []interface{}
		X  int
		SP *[]inner
	}
	in0, in1 := mObj("X", mInt(3)), mObj("Y", mStr("q"))
	elems := []*M{mObj(), in0, in1, mObj("X", mInt(8), "Y", mStr("z")), mK(KNull), mArr(), mArr(mInt(1)), mArr(mInt(1), mInt(2), mInt(3)), mArr(in0, mK(KNull), mObj()), mBin(nil), mBin([]byte{9}),
		mObj("S", mArr(in0, in1, mObj()), "N", mArr(mArr(), mArr(mInt(1)), mK(KNull))), mObj("L", mArr(mArr(in1), mArr(), mArr(mObj(), in0)), "X", mInt(1)), mObj("O", mArr(mObj("Age", mInt(3)), mObj("List", mArr(in0))), "SP", mArr(in1)),
		mObj("P", mArr(mK(KNull), in0), "B", mArr(mBin([]byte{1}), mK(KNull)), "M", mArr(mObj("k", in0), mObj())), mObj("Y", mArr(mK(KNull), mInt(1))), mObj("In", in1, "Ptr", in0), mObj("Name", mStr("m"), "PL", mArr(in0, mK(KNull)), "M", mObj("k", in1))}
	oldInner := func(i int) inner { return inner{100 + i, "old" + itoa(i)} }
	oldOuter := func(i int) outer {
		in := oldInner(i)
		return outer{"old", 9, in, &in, []inner{in, in, in}, []*inner{&in, &in}, map[string]inner{"old": in}, "old", time.Unix(1e9, 0), []byte("old"), 1.5}
	}
	oldHolder := func(i int) holder {
		in := oldInner(i)
		return holder{[]inner{in, in, in, in}, [][]int{{7, 7, 7, 7}, {8}, {9, 9}}, []*inner{&in, &in, &in}, [][]inner{{in, in, in}, {in}, {in, in}}, [][]byte{{1, 2, 3}, {4}}, []map[string]inner{{"old": in}, {"o": in}}, []outer{oldOuter(i), oldOuter(i + 1)}, []interface{}{1, 2, 3}, 77, &[]inner{in, in}}
	}
	reuse := []func(n int) reflect.Value{
		func(n int) reflect.Value {
			var s []inner
			for i := 0; i < n; i++ {
				s = append(s, oldInner(i))
			}
			return rv(s)
		},
		func(n int) reflect.Value {
			var s []outer
			for i := 0; i < n; i++ {
				s = append(s, oldOuter(i))
			}
			return rv(s)
		},
		func(n int) reflect.Value {
			var s []holder
			for i := 0; i < n; i++ {
				s = append(s, oldHolder(i))
			}
			return rv(s)
		},
		func(n int) reflect.Value {
			var s []*holder
			for i := 0; i < n; i++ {
				h := oldHolder(i)
				s = append(s, &h)
			}
			return rv(s)
		},
		func(n int) reflect.Value {
			var s [][]holder
			for i := 0; i < n; i++ {
				s = append(s, []holder{oldHolder(i), oldHolder(i + 1), oldHolder(i + 2)})
			}
			return rv(s)
		},
		func(n int) reflect.Value {
			var s [][]int
			for i := 0; i < n; i++ {
				s = append(s, []int{70 + i, 80 + i, 90 + i})
			}
			return rv(s)
		},
		func(n int) reflect.Value {
			var s [][]byte
			for i := 0; i < n; i++ {
				s = append(s, []byte("old"))
			}
			return rv(s)
		},
		func(n int) reflect.Value {
			var s []map[string]inner
			for i := 0; i < n; i++ {
				s = append(s, map[string]inner{"old": oldInner(i)})
			}
			return rv(s)
		},
		func(n int) reflect.Value {
			var s []interface{}
			for i := 0; i < n; i++ {
				s = append(s, oldHolder(i))
			}
			return rv(s)
		},
	}
	for ri := range reuse {
		ri := ri
		for _, e1 := range elems {
			e1 := e1
			c.Case(func() string { return fmt.Sprintf("reused slices of %v from arrays with %v", reuse[ri](1).Type(), e1) }, func(t *T) {
				ty := reuse[ri](1).Type()
				for _, e2 := range elems {
					for _, e3 := range []*M{nil, mObj(), mK(KNull)} {
						m := mArr(e1, e2)
						if e3 != nil {
							m = mArr(e3, e1, e2)
						}
						v := build(m, false)
						fresh := reflect.New(ty)
						ok := v.ToStdValue(fresh.Interface(), false)
						if !ok {
							continue // kinds that do not fit
						}
						for _, lc := range [][2]int{{0, 0}, {0, 2}, {1, 1}, {1, 4}, {2, 2}, {3, 3}, {4, 4}, {0, 5}} {
							p := reflect.New(ty)
							p.Elem().Set(reuse[ri](lc[1]).Slice(0, lc[0]))
							ok2 := v.ToStdValue(p.Interface(), false)
							t.Op()
							if !ok2 || jsonOf(p) != jsonOf(fresh) {
								t.Failf("%v into a %v of length %d and capacity %d gives %s (%v), into a new one %s", m, ty, lc[0], lc[1], jsonOf(p), ok2, jsonOf(fresh))
							}
							t.State(jsonOf(p))
						}
					}
				}
				t.Trace()
			})
		}
	}
	full := mObj("Name", mStr("n"), "Age", mInt(7), "In", mObj("X", mInt(1), "Y", mStr("y")), "Ptr", mObj("Y", mStr("p"), "X", mInt(2)), "List", mArr(mObj("X", mInt(3)), mObj("Y", mStr("q"))), "PL", mArr(mK(KNull), mObj("X", mInt(9))),
		"M", mObj("a", mObj("X", mInt(4)), "b", mObj()), "Any", mArr(mInt(1), mObj("z", mK(KNull))), "T", mTime(time.Date(2021, 5, 6, 7, 8, 9, 0, time.UTC)), "B", mBin([]byte{1, 2}), "F", mDbl(0.5))
	want := outer{"n", 7, inner{1, "y"}, &inner{2, "p"}, []inner{{3, ""}, {0, "q"}}, []*inner{nil, {9, ""}}, map[string]inner{"a": {4, ""}, "b": {}}, []interface{}{int64(1), map[string]interface{}{"z": nil}}, time.Date(2021, 5, 6, 7, 8, 9, 0, time.UTC), []byte{1, 2}, 0.5}
	// every subset of the fields present, in both orders, with unknown entries around
	c.Case(func() string { return "structs from every subset of their fields" }, func(t *T) {
		for mask := 0; mask < 1<<uint(len(full.Keys)); mask++ {
			for _, mode := range []int{0, 1, 2} { // 0 plain, 1 reversed with unknown entries, 2 lower case names and ignoring case
				m := mObj()
				exp := outer{}
				if mode == 1 {
					m.Keys, m.Vals = append(m.Keys, "zz"), append(m.Vals, mObj("X", mInt(99)))
				}
				for k := range full.Keys {
					i := k
					if mode == 1 {
						i = len(full.Keys) - 1 - k
					}
					if mask&(1<<uint(i)) == 0 {
						continue
					}
					name := full.Keys[i]
					reflect.ValueOf(&exp).Elem().FieldByName(name).Set(reflect.ValueOf(want).FieldByName(name))
					if mode == 2 {
						name = strings.ToLower(name)
					}
					m.Keys, m.Vals = append(m.Keys, name), append(m.Vals, full.Vals[i])
				}
				v := build(m, mask&1 == 1)
				var o outer
				if !v.ToStdValue(&o, mode == 2) {
					t.Failf("%v: conversion reports failure", m)
				}
				t.Op()
				if !sameTime(o.T, exp.T) && !(exp.T.IsZero() && o.T.IsZero()) {
					t.Failf("%v: T = %v", m, o.T)
				}
				o.T = exp.T
				if s := stdDiff("Any", exp.Any, o.Any, false); s != "" {
					t.Failf("%v: %s", m, s)
				}
				o.Any = exp.Any
				if !reflect.DeepEqual(o, exp) {
					t.Failf("%v: got %+v, want %+v", m, o, exp)
				}
				if mode == 2 {
					var o2 outer
					v.ToStdValue(&o2, false)
					if !reflect.DeepEqual(o2, outer{}) {
						t.Failf("%v: lower-case names filled in without ignoring case: %+v", m, o2)
					}
				}
			}
		}
		t.Trace()
	})
	c.Case(func() string { return "nan and inf at every position" }, func(t *T) {
		ks := []*M{mK(KNan), mK(KInf), mInt(1), mDbl(math.NaN()), mDbl(math.Inf(1)), mDbl(math.Inf(-1)), mFlt(float32(math.Inf(1))), mK(KNull), mArr(mK(KInf), mK(KNan)), mObj("k", mK(KNan), "l", mK(KInf))}
		num := func(m *M) float64 {
			switch m.K {
			case KNan:
				return math.NaN()
			case KInf:
				return math.Inf(1)
			case KInt:
				return float64(m.I)
			}
			return m.F
		}
		same := func(a, b float64) bool { return a == b || a != a && b != b }
		for _, a := range ks {
			for _, b := range ks {
				for _, cached := range []bool{false, true} {
					arr := build(mArr(a, b), cached)
					obj := build(mObj("A", a, "B", b), cached)
					g := []interface{}{"old", "old"}
					if !arr.ToStdValue(g, false) {
						t.Failf("[%v,%v] into []interface{} fails", a, b)
					}
					if s := stdDiff("", stdOf(mArr(a, b)), g, false); s != "" {
						t.Failf("[%v,%v] into []interface{}: %s", a, b, s)
					}
					gm := map[string]interface{}{}
					if !obj.ToStdValue(gm, false) {
						t.Failf("{A:%v,B:%v} into a map fails", a, b)
					}
					if s := stdDiff("", stdOf(mObj("A", a, "B", b)), gm, false); s != "" {
						t.Failf("{A:%v,B:%v} into a map: %s", a, b, s)
					}
					t.Op()
					if a.K == KNull || b.K == KNull || a.K <= KArr || b.K <= KArr {
						continue
					}
					var f64 []float64
					var f32 []float32
					var pf []*float64
					mf := map[string]float64{}
					var st struct{ A, B float64 }
					var st2 struct {
						A *float32
						B interface{}
					}
					if !arr.ToStdValue(&f64, false) || !arr.ToStdValue(&f32, false) || !arr.ToStdValue(&pf, false) || !obj.ToStdValue(&mf, false) || !obj.ToStdValue(&st, false) || !obj.ToStdValue(&st2, false) {
						t.Failf("%v, %v into typed Go data fails", a, b)
					}
					for i, m := range []*M{a, b} {
						w := num(m)
						var x float64
						arr.ValueByIndex(i).ToStdValue(&x, false)
						if !same(x, w) || !same(f64[i], w) || !same(float64(f32[i]), w) || !same(*pf[i], w) || !same(mf["AB"[i:i+1]], w) || !same([]float64{st.A, st.B}[i], w) {
							t.Failf("%v into Go: %v %v %v %v %v %v", m, x, f64[i], f32[i], *pf[i], mf, st)
						}
					}
					if s := stdDiff("", stdOf(b), st2.B, false); !same(float64(*st2.A), num(a)) || s != "" {
						t.Failf("%v, %v into a struct of *float32 and interface{}: %v %v %s", a, b, *st2.A, st2.B, s)
					}
					t.Op()
				}
			}
		}
		t.Trace()
	})
	c.Case(func() string { return "registered and self-converting types at every position" }, func(t *T) {
		type holder struct {
			R  regT
			P  *regT
			L  []regT
			LP []*regT
			M  map[string]regT
			MP map[string]*regT
			MS map[string][]regT
			V  selfV
			VP *selfV
			VL []selfV
			PP *selfP
			PL []*selfP
			MV map[string]selfV
			I  selfI
			IL []selfI
			IP *selfI
		}
		i5 := selfI(5)
		h := holder{regT{1}, &regT{2}, []regT{{3}, {4}}, []*regT{{5}, nil}, map[string]regT{"a": {6}}, map[string]*regT{"b": {7}, "n": nil}, map[string][]regT{"c": {{8}}}, selfV{9}, &selfV{10}, []selfV{{11}}, &selfP{12}, []*selfP{{13}, nil}, map[string]selfV{"d": {14}}, 15, []selfI{16, 17}, &i5}
		for _, st := range goSetters() {
			v := st.f(h)
			m := goToM(reflect.ValueOf(h))
			if s := diff(m, observe(v), eqOpt{unord: true}); s != "" {
				t.Failf("%s: %s", st.name, s)
			}
			var o holder
			if !v.ToStdValue(&o, false) {
				t.Failf("%s: conversion back reports failure", st.name)
			}
			if s := goDiff("", reflect.ValueOf(h), reflect.ValueOf(o), false); s != "" {
				t.Failf("%s: %s", st.name, s)
			}
			t.Op()
		}
		t.Trace()
	})
}

// jsonOf renders Go data comparably; nil and empty slices count as the same.
func jsonOf(v reflect.Value) string {
	b, err := json.Marshal(v.Interface())
	if err != nil {
		return err.Error()
	}
	return strings.NewReplacer(":null", ":[]", "[null", "[[]", ",null", ",[]", `:""`, ":[]", `[""`, "[[]", `,""`, ",[]").Replace(string(b))
}
