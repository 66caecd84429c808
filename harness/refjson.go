package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	d "github.com/suiyunonghen/dxsvalue"
)

// refJSON decodes a JSON document with encoding/json, keeping key order.
func refJSON(b []byte) (*M, error) {
	if !json.Valid(b) {
		var x interface{}
		err := json.Unmarshal(b, &x)
		if err == nil {
			err = fmt.Errorf("invalid JSON")
		}
		return nil, err
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	m, err := refJSONValue(dec)
	if err != nil {
		return nil, err
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data")
	}
	return m, nil
}

func refNum(s string) *M {
	if !strings.ContainsAny(s, ".eE") {
		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
			return mInt(i)
		}
	}
	f, _ := strconv.ParseFloat(s, 64)
	return mDbl(f)
}

func refJSONValue(dec *json.Decoder) (*M, error) {
	tok, err := dec.Token()
	if err != nil {
		return nil, err
	}
	switch x := tok.(type) {
	case json.Delim:
		if x == '[' {
			m := &M{K: KArr}
			for dec.More() {
				v, err := refJSONValue(dec)
				if err != nil {
					return nil, err
				}
				m.Vals = append(m.Vals, v)
			}
			_, err := dec.Token()
			return m, err
		}
		m := &M{K: KObj}
		for dec.More() {
			k, err := dec.Token()
			if err != nil {
				return nil, err
			}
			v, err := refJSONValue(dec)
			if err != nil {
				return nil, err
			}
			m.Keys = append(m.Keys, k.(string))
			m.Vals = append(m.Vals, v)
		}
		_, err := dec.Token()
		return m, err
	case json.Number:
		return refNum(string(x)), nil
	case string:
		return mStr(x), nil
	case bool:
		return mBool(x), nil
	case nil:
		return mK(KNull), nil
	}
	return nil, fmt.Errorf("token %v", tok)
}

// asJSON is the tree a JSON document can carry: numbers compare numerically.
var jsonEq = eqOpt{numeric: true}

func needsEscape(s string) bool {
	if !utf8.ValidString(s) {
		return true
	}
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] == '"' || s[i] == '\\' {
			return true
		}
	}
	return false
}

func treeNeedsEscape(m *M) bool {
	if m.K == KStr && needsEscape(m.S) {
		return true
	}
	for _, k := range m.Keys {
		if needsEscape(k) {
			return true
		}
	}
	for _, v := range m.Vals {
		if treeNeedsEscape(v) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- encoders and decoders under test

type jsonEnc struct {
	name  string
	style d.JsonEscapeStyle
	f     func(v *d.DxValue) []byte
}

var jsonEncs = []jsonEnc{
	{"Value2Json/All", d.JSE_AllEscape, func(v *d.DxValue) []byte { return d.Value2Json(v, d.JSE_AllEscape, false, nil) }},
	{"Value2Json/Ansi", d.JSE_OnlyAnsiChar, func(v *d.DxValue) []byte { return d.Value2Json(v, d.JSE_OnlyAnsiChar, false, nil) }},
	{"Value2FormatJson/All", d.JSE_AllEscape, func(v *d.DxValue) []byte { return d.Value2FormatJson(v, d.JSE_AllEscape, false, nil) }},
	{"Value2FormatJson/Ansi", d.JSE_OnlyAnsiChar, func(v *d.DxValue) []byte { return d.Value2FormatJson(v, d.JSE_OnlyAnsiChar, false, nil) }},
	{"Value2Json/No", d.JSE_NoEscape, func(v *d.DxValue) []byte { return d.Value2Json(v, d.JSE_NoEscape, false, nil) }},
	{"Value2FormatJson/No", d.JSE_NoEscape, func(v *d.DxValue) []byte { return d.Value2FormatJson(v, d.JSE_NoEscape, false, nil) }},
	{"ToJson/All", d.JSE_AllEscape, func(v *d.DxValue) []byte { return v.ToJson(false, d.JSE_AllEscape, true, nil) }},
	{"ToJson/format", d.JSE_OnlyAnsiChar, func(v *d.DxValue) []byte { return v.ToJson(true, d.JSE_OnlyAnsiChar, true, make([]byte, 0, 4)) }},
	{"Marshal", d.JSE_AllEscape, func(v *d.DxValue) []byte { b, _ := d.Marshal(v); return b }},
}

type decoder struct {
	name   string
	share  bool
	cached bool
	f      func(b []byte) (*d.DxValue, error)
}

func loaders(load func(v *d.DxValue, b []byte, share bool) error) []decoder {
	mk := func(name string, share bool, fresh func() *d.DxValue) decoder {
		return decoder{"Load(" + name + ",share=" + fmt.Sprint(share) + ")", share, strings.Contains(name, "cached"), func(b []byte) (*d.DxValue, error) {
			v := fresh()
			return v, load(v, b, share)
		}}
	}
	return []decoder{
		mk("object", false, func() *d.DxValue { return d.NewObject(false) }),
		mk("cached array", true, func() *d.DxValue {
			v := d.NewArray(true)
			v.SetIndexString(0, "old")
			v.SetIndex(1, d.VT_Object).SetKeyInt("old", 1)
			return v
		}),
		mk("int", false, func() *d.DxValue { v := d.NewValue(d.VT_Int); v.SetInt(77); return v }),
		mk("cached object", false, func() *d.DxValue {
			v := d.NewObject(true)
			v.SetKeyString("k", "old")
			v.SetKey("old", d.VT_Array).SetIndexInt(0, 9)
			return v
		}),
	}
}

var jsonDecs = append([]decoder{
	{"NewValueFromJson", false, false, func(b []byte) (*d.DxValue, error) { return d.NewValueFromJson(b, false, false) }},
	{"NewValueFromJson(share)", true, false, func(b []byte) (*d.DxValue, error) { return d.NewValueFromJson(b, false, true) }},
	{"NewValueFromJson(cache)", false, true, func(b []byte) (*d.DxValue, error) { return d.NewValueFromJson(b, true, false) }},
	{"NewValueFromJson(cache,share)", true, true, func(b []byte) (*d.DxValue, error) { return d.NewValueFromJson(b, true, true) }},
	{"Unmarshal", false, false, func(b []byte) (*d.DxValue, error) {
		v := &d.DxValue{}
		err := d.Unmarshal(b, v)
		return v, err
	}},
}, loaders(func(v *d.DxValue, b []byte, share bool) error { return v.LoadFromJson(b, share) })...)

func clone(b []byte) []byte { return append(make([]byte, 0, len(b)), b...) }

// ---------------------------------------------------------------- well-formed strict rendering used as input

// refEncode writes standard JSON (used to feed decoders).
func refEncode(m *M) []byte {
	switch m.K {
	case KObj:
		b := []byte{'{'}
		for i := range m.Keys {
			if i > 0 {
				b = append(b, ',')
			}
			k, _ := json.Marshal(m.Keys[i])
			b = append(append(b, k...), ':')
			b = append(b, refEncode(m.Vals[i])...)
		}
		return append(b, '}')
	case KArr:
		b := []byte{'['}
		for i := range m.Vals {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(b, refEncode(m.Vals[i])...)
		}
		return append(b, ']')
	case KStr:
		k, _ := json.Marshal(m.S)
		return k
	case KInt:
		return strconv.AppendInt(nil, m.I, 10)
	case KFlt, KDbl:
		s := strconv.FormatFloat(m.F, 'g', -1, 64)
		return []byte(s)
	case KTrue:
		return []byte("true")
	case KFalse:
		return []byte("false")
	}
	return []byte("null")
}

// refEncodeEsc is another spelling of the same document: every character of texts and keys as an escape sequence,
// numbers with exponents, white space everywhere.
func refEncodeEsc(m *M) []byte {
	str := func(s string) []byte {
		b := []byte{'"'}
		for _, u := range utf16.Encode([]rune(s)) {
			b = append(b, fmt.Sprintf("\\u%04X", u)...)
		}
		return append(b, '"')
	}
	switch m.K {
	case KObj:
		b := []byte("\n{ ")
		for i := range m.Keys {
			if i > 0 {
				b = append(b, " ,\t"...)
			}
			b = append(append(b, str(m.Keys[i])...), " : "...)
			b = append(b, refEncodeEsc(m.Vals[i])...)
		}
		return append(b, " }\r\n"...)
	case KArr:
		b := []byte(" [ ")
		for i := range m.Vals {
			if i > 0 {
				b = append(b, "\n, "...)
			}
			b = append(b, refEncodeEsc(m.Vals[i])...)
		}
		return append(b, "\t] "...)
	case KStr:
		return str(m.S)
	case KFlt, KDbl:
		return []byte(strconv.FormatFloat(m.F, 'e', -1, 64))
	}
	return refEncode(m)
}
