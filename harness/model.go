package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
)

// ---------------------------------------------------------------- reference tree

type Kind uint8

const (
	KObj Kind = iota
	KArr
	KStr
	KInt
	KFlt // float32
	KDbl
	KTime
	KBin // binary (Sub = BSON subtype marker)
	KExt // extension data (Ext = type byte)
	KNull
	KTrue
	KFalse
	KNan
	KInf
	KNil // a nil entry
)

var kindName = [...]string{"obj", "arr", "str", "int", "f32", "f64", "time", "bin", "ext", "null", "true", "false", "nan", "inf", "nil"}

// M is the reference tree.
type M struct {
	K    Kind
	Keys []string
	Vals []*M
	S    string
	I    int64
	F    float64
	B    []byte
	Ext  byte // KExt: type byte
	Sub  byte // DxValue.ExtType of KBin, KExt and KInt
	T    time.Time
}

func mStr(s string) *M         { return &M{K: KStr, S: s} }
func mInt(i int64) *M          { return &M{K: KInt, I: i} }
func mDbl(f float64) *M        { return &M{K: KDbl, F: f} }
func mFlt(f float32) *M        { return &M{K: KFlt, F: float64(f)} }
func mBin(b []byte) *M         { return &M{K: KBin, B: b} }
func mExt(t byte, b []byte) *M { return &M{K: KExt, Ext: t, B: b} }
func mTime(t time.Time) *M     { return &M{K: KTime, T: t} }
func mK(k Kind) *M             { return &M{K: k} }
func mArr(v ...*M) *M          { return &M{K: KArr, Vals: v} }
func mBool(b bool) *M {
	if b {
		return mK(KTrue)
	}
	return mK(KFalse)
}

// mObj takes alternating key, value.
func mObj(kv ...interface{}) *M {
	m := &M{K: KObj}
	for i := 0; i+1 < len(kv); i += 2 {
		m.Keys = append(m.Keys, kv[i].(string))
		m.Vals = append(m.Vals, kv[i+1].(*M))
	}
	return m
}

func (m *M) idx(k string) int {
	for i := range m.Keys {
		if m.Keys[i] == k {
			return i
		}
	}
	return -1
}

func (m *M) clone() *M {
	if m == nil {
		return nil
	}
	n := *m
	n.Keys = append([]string(nil), m.Keys...)
	n.B = append([]byte(nil), m.B...)
	n.Vals = nil
	for _, v := range m.Vals {
		n.Vals = append(n.Vals, v.clone())
	}
	return &n
}

// String is a canonical text of the tree (used as digest and in messages).
func (m *M) String() string { var b strings.Builder; m.str(&b, short); return b.String() }

// Whole is String without abbreviations: different trees have different texts.
func (m *M) Whole() string {
	var b strings.Builder
	m.str(&b, func(s string) string { return s })
	return b.String()
}

func (m *M) str(b *strings.Builder, short func(string) string) {
	if m == nil {
		b.WriteString("<nil>")
		return
	}
	switch m.K {
	case KObj:
		b.WriteByte('{')
		for i := range m.Keys {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(short(strconv.QuoteToASCII(m.Keys[i])))
			b.WriteByte(':')
			m.Vals[i].str(b, short)
		}
		b.WriteByte('}')
	case KArr:
		b.WriteByte('[')
		for i := range m.Vals {
			if i > 0 {
				b.WriteByte(',')
			}
			m.Vals[i].str(b, short)
		}
		b.WriteByte(']')
	case KStr:
		b.WriteString(short(strconv.QuoteToASCII(m.S)))
	case KInt:
		b.WriteString(strconv.FormatInt(m.I, 10))
		if m.Sub != 0 {
			fmt.Fprintf(b, "/sub%d", m.Sub)
		}
	case KFlt:
		b.WriteString("f32:" + strconv.FormatFloat(m.F, 'g', -1, 64))
	case KDbl:
		b.WriteString("f64:" + strconv.FormatFloat(m.F, 'g', -1, 64))
	case KTime:
		b.WriteString("time:" + m.T.UTC().Format(time.RFC3339Nano))
	case KBin:
		fmt.Fprintf(b, "bin%d:%s", m.Sub, short(fmt.Sprintf("%x", m.B)))
	case KExt:
		fmt.Fprintf(b, "ext%d/%d:%s", m.Ext, m.Sub, short(fmt.Sprintf("%x", m.B)))
	default:
		b.WriteString(kindName[m.K])
	}
}

func short(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%s...(%d)", s[:100], len(s))
	}
	return s
}

// ---------------------------------------------------------------- comparison

type eqOpt struct {
	numeric bool          // int and float compare by value
	f32dbl  bool          // float32 may become float64
	tol     time.Duration // tolerance for times
	signs   bool          // the sign of a floating-point zero matters
	unord   bool          // key order does not matter
	anyBin  bool          // ignore Sub
}

func diff(want, got *M, o eqOpt) string { return diffAt("", want, got, o) }

func isNum(k Kind) bool { return k == KInt || k == KFlt || k == KDbl }

func numEq(a, b *M) bool {
	if a.K == KInt && b.K == KInt {
		return a.I == b.I
	}
	f := func(m *M) float64 {
		if m.K == KInt {
			return float64(m.I)
		}
		return m.F
	}
	x, y := f(a), f(b)
	if x != y {
		return false
	}
	// an integer compared with a float must be exact
	if a.K == KInt && math.Abs(y) < 9e18 && int64(y) != a.I {
		return false
	}
	if b.K == KInt && math.Abs(x) < 9e18 && int64(x) != b.I {
		return false
	}
	return true
}

func diffAt(p string, a, b *M, o eqOpt) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return fmt.Sprintf("at %q: want %v, got %v", p, a, b)
	}
	bad := func() string { return fmt.Sprintf("at %q: want %v, got %v", p, a, b) }
	if a.K != b.K {
		if o.numeric && isNum(a.K) && isNum(b.K) {
			if !numEq(a, b) {
				return bad()
			}
			return ""
		}
		if o.f32dbl && (a.K == KFlt && b.K == KDbl) {
			if a.F != b.F {
				return bad()
			}
			return ""
		}
		return fmt.Sprintf("at %q: want kind %s, got %s (want %v, got %v)", p, kindName[a.K], kindName[b.K], a, b)
	}
	switch a.K {
	case KObj:
		if len(a.Keys) != len(b.Keys) {
			return fmt.Sprintf("at %q: want %d entries, got %d (want %v, got %v)", p, len(a.Keys), len(b.Keys), a, b)
		}
		for i := range a.Keys {
			j := i
			if o.unord {
				j = b.idx(a.Keys[i])
				if j < 0 {
					return fmt.Sprintf("at %q: key %q missing in %v", p, a.Keys[i], b)
				}
			} else if a.Keys[i] != b.Keys[i] {
				return fmt.Sprintf("at %q: want key #%d %q, got %q", p, i, short(a.Keys[i]), short(b.Keys[i]))
			}
			if s := diffAt(p+"/"+short(a.Keys[i]), a.Vals[i], b.Vals[j], o); s != "" {
				return s
			}
		}
	case KArr:
		if len(a.Vals) != len(b.Vals) {
			return fmt.Sprintf("at %q: want %d elements, got %d (want %v, got %v)", p, len(a.Vals), len(b.Vals), a, b)
		}
		for i := range a.Vals {
			if s := diffAt(p+"/"+strconv.Itoa(i), a.Vals[i], b.Vals[i], o); s != "" {
				return s
			}
		}
	case KStr:
		if a.S != b.S {
			return bad()
		}
	case KInt:
		if a.I != b.I || (!o.anyBin && a.Sub != b.Sub) {
			return bad()
		}
	case KFlt, KDbl:
		if a.F != b.F && !(a.F != a.F && b.F != b.F) {
			return bad()
		}
		if o.signs && a.F == 0 && math.Signbit(a.F) != math.Signbit(b.F) {
			return bad()
		}
	case KTime:
		dt := a.T.Sub(b.T)
		if dt < 0 {
			dt = -dt
		}
		if dt > o.tol {
			return bad()
		}
	case KBin:
		if string(a.B) != string(b.B) || (!o.anyBin && a.Sub != b.Sub) {
			return bad()
		}
	case KExt:
		if string(a.B) != string(b.B) || a.Ext != b.Ext || (!o.anyBin && a.Sub != b.Sub) {
			return bad()
		}
	}
	return ""
}

// ---------------------------------------------------------------- real value <-> model

func cp(s string) string { return string(append([]byte(nil), s...)) }

// observe reads a real value completely through the public API. Reading may convert lazily held text, which
// C18 shows to be invisible.
func observe(v *d.DxValue) *M {
	if v == nil {
		return mK(KNil)
	}
	switch v.DataType {
	case d.VT_Object:
		m := &M{K: KObj}
		n := v.Count()
		for i := 0; i < n; i++ {
			k, c := v.Items(i)
			m.Keys = append(m.Keys, cp(k))
			m.Vals = append(m.Vals, observe(c))
		}
		return m
	case d.VT_Array:
		m := &M{K: KArr}
		n := v.Count()
		for i := 0; i < n; i++ {
			_, c := v.Items(i)
			m.Vals = append(m.Vals, observe(c))
		}
		return m
	case d.VT_String, d.VT_RawString:
		return mStr(cp(v.String()))
	case d.VT_Int:
		return &M{K: KInt, I: v.Int(), Sub: v.ExtType}
	case d.VT_Float:
		return mFlt(v.Float())
	case d.VT_Double:
		return mDbl(v.Double())
	case d.VT_DateTime:
		return mTime(v.GoTime())
	case d.VT_Binary:
		return &M{K: KBin, B: append([]byte(nil), v.Binary()...), Sub: v.ExtType}
	case d.VT_ExBinary:
		return &M{K: KExt, B: append([]byte(nil), v.Binary()...), Ext: v.BinExtType(), Sub: v.ExtType}
	case d.VT_NULL:
		return mK(KNull)
	case d.VT_True:
		return mK(KTrue)
	case d.VT_False:
		return mK(KFalse)
	case d.VT_NAN:
		return mK(KNan)
	case d.VT_INF:
		return mK(KInf)
	}
	return mStr(fmt.Sprintf("unknown kind %d", v.DataType))
}

// consistent checks that all ways of looking at a container agree with m (which describes v).
func consistent(v *d.DxValue, m *M) string {
	if v == nil {
		return "nil value"
	}
	if v.DataType != d.VT_Object && v.DataType != d.VT_Array {
		if v.Count() != 0 {
			return fmt.Sprintf("scalar has Count %d", v.Count())
		}
		return ""
	}
	n := len(m.Vals)
	if v.Count() != n {
		return fmt.Sprintf("Count %d, want %d", v.Count(), n)
	}
	i := 0
	bad := ""
	v.Visit(func(k string, c *d.DxValue) bool {
		if i >= n {
			bad = "Visit yields too many entries"
			return false
		}
		if m.K == KObj && k != m.Keys[i] {
			bad = fmt.Sprintf("Visit #%d key %q, want %q", i, short(k), short(m.Keys[i]))
			return false
		}
		if _, ic := v.Items(i); ic != c {
			bad = fmt.Sprintf("Visit and Items differ at %d", i)
			return false
		}
		i++
		return true
	})
	if bad != "" {
		return bad
	}
	if i != n {
		return fmt.Sprintf("Visit yields %d entries, want %d", i, n)
	}
	for i := 0; i < n; i++ {
		k, c := v.Items(i)
		if v.ValueByIndex(i) != c {
			return fmt.Sprintf("ValueByIndex(%d) differs from Items", i)
		}
		if m.K == KObj {
			if k != m.Keys[i] {
				return fmt.Sprintf("Items(%d) key %q, want %q", i, short(k), short(m.Keys[i]))
			}
			if v.KeyNameByIndex(i) != m.Keys[i] {
				return fmt.Sprintf("KeyNameByIndex(%d) = %q, want %q", i, short(v.KeyNameByIndex(i)), short(m.Keys[i]))
			}
			if n <= 64 && v.ValueByName(m.Keys[i]) != c {
				return fmt.Sprintf("ValueByName(%q) differs from Items(%d)", short(m.Keys[i]), i)
			}
		} else if n <= 64 && v.ValueByName(strconv.Itoa(i)) != c {
			return fmt.Sprintf("ValueByName(%d) differs from Items", i)
		}
		if s := consistent(c, m.Vals[i]); s != "" {
			return "entry " + strconv.Itoa(i) + ": " + s
		}
	}
	for _, j := range []int{-1, n} {
		if _, c := v.Items(j); c != nil || v.ValueByIndex(j) != nil {
			return fmt.Sprintf("index %d of %d yields a value", j, n)
		}
	}
	return ""
}

// full observes v twice (through Items, and through Visit/ByName/ByIndex) against want.
func full(v *d.DxValue, want *M, o eqOpt) string {
	if v == nil {
		return "nil value"
	}
	got := observe(v)
	if s := diff(want, got, o); s != "" {
		return s
	}
	return consistent(v, got)
}

// fill makes v (of any state) hold the tree m through the public setters.
func fill(v *d.DxValue, m *M) {
	switch m.K {
	case KObj:
		v.Reset(d.VT_Object)
		for i := range m.Keys {
			setKey(v, m.Keys[i], m.Vals[i])
		}
	case KArr:
		v.Reset(d.VT_Array)
		for i := range m.Vals {
			setIdx(v, i, m.Vals[i])
		}
	case KStr:
		v.SetString(m.S)
	case KInt:
		v.SetInt(m.I)
		if m.Sub != 0 {
			v.ExtType = m.Sub
		}
	case KFlt:
		v.SetFloat(float32(m.F))
	case KDbl:
		v.Reset(d.VT_Double)
		v.SetDouble(m.F)
	case KTime:
		v.Reset(d.VT_DateTime)
		v.SetTime(m.T)
	case KBin:
		v.Reset(d.VT_Binary)
		v.SetBinary(m.B, true)
		v.ExtType = m.Sub
	case KExt:
		v.Reset(d.VT_ExBinary)
		v.SetExtType(m.Ext)
		v.SetBinary(m.B, true)
		v.ExtType = m.Sub
	case KNull:
		v.Reset(d.VT_NULL)
	case KTrue:
		v.SetBool(true)
	case KFalse:
		v.SetBool(false)
	case KNan:
		v.Reset(d.VT_NAN)
	case KInf:
		v.Reset(d.VT_INF)
	}
}

var vtOf = map[Kind]d.ValueType{KObj: d.VT_Object, KArr: d.VT_Array, KStr: d.VT_String, KInt: d.VT_Int, KFlt: d.VT_Float,
	KDbl: d.VT_Double, KTime: d.VT_DateTime, KBin: d.VT_Binary, KExt: d.VT_ExBinary, KNull: d.VT_NULL, KTrue: d.VT_True,
	KFalse: d.VT_False, KNan: d.VT_NAN, KInf: d.VT_INF}

func setKey(v *d.DxValue, k string, m *M) {
	switch m.K {
	case KStr:
		v.SetKeyString(k, m.S)
	case KInt:
		v.SetKeyInt(k, m.I)
		if m.Sub != 0 {
			v.ValueByName(k).ExtType = m.Sub
		}
	case KDbl:
		v.SetKeyDouble(k, m.F)
	case KFlt:
		v.SetKeyFloat(k, float32(m.F))
	case KTime:
		v.SetKeyTime(k, m.T)
	case KTrue, KFalse:
		v.SetKeyBool(k, m.K == KTrue)
	case KNull, KNan, KInf:
		v.SetKeyValue(k, d.NewValue(vtOf[m.K]))
	default:
		fill(v.SetKey(k, vtOf[m.K]), m)
	}
}

func setIdx(v *d.DxValue, i int, m *M) {
	switch m.K {
	case KStr:
		v.SetIndexString(i, m.S)
	case KInt:
		v.SetIndexInt(i, m.I)
		if m.Sub != 0 {
			v.ValueByIndex(i).ExtType = m.Sub
		}
	case KDbl:
		v.SetIndexDouble(i, m.F)
	case KFlt:
		v.SetIndexFloat(i, float32(m.F))
	case KTime:
		v.SetIndexTime(i, m.T)
	case KTrue, KFalse:
		v.SetIndexBool(i, m.K == KTrue)
	case KNull, KNan, KInf:
		v.SetIndexValue(i, d.NewValue(vtOf[m.K]))
	default:
		fill(v.SetIndex(i, vtOf[m.K]), m)
	}
}

// build makes a new real value holding m.
func build(m *M, cached bool) *d.DxValue {
	var v *d.DxValue
	switch {
	case cached:
		v = d.NewCacheValue(vtOf[m.K])
	default:
		v = d.NewValue(vtOf[m.K])
	}
	if v.ReadOnly() {
		return v
	}
	fill(v, m)
	return v
}

func sortedKeys(m *M) []string {
	k := append([]string(nil), m.Keys...)
	sort.Strings(k)
	return k
}
