package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
)

// ---------------------------------------------------------------- reference BSON codec (bsonspec.org)

const (
	subOID  = 0x07 // DxValue.ExtType of an object id
	subDec  = 0x13
	subTS   = 0x11
	subBin  = 0x05 // DxValue.ExtType of a binary with a subtype (kind KExt)
	subTime = 0x09
)

func mOID(b []byte) *M              { return &M{K: KBin, Sub: subOID, B: b} }
func mDec128(b []byte) *M           { return &M{K: KBin, Sub: subDec, B: b} }
func mTS(i int64) *M                { return &M{K: KInt, Sub: subTS, I: i} }
func mSubBin(sub byte, b []byte) *M { return &M{K: KExt, Sub: subBin, Ext: sub, B: b} }

type bsonEnc struct {
	c    *chooser
	out  []byte
	lens []int // offsets of document and array lengths
	leng []int // offsets of string and binary lengths
}

func (e *bsonEnc) u32(i uint32) { e.out = binary.LittleEndian.AppendUint32(e.out, i) }
func (e *bsonEnc) u64(i uint64) { e.out = binary.LittleEndian.AppendUint64(e.out, i) }

func (e *bsonEnc) doc(m *M) {
	at := len(e.out)
	e.lens = append(e.lens, at)
	e.u32(0)
	for i, v := range m.Vals {
		k := strconv.Itoa(i)
		if m.K == KObj {
			k = m.Keys[i]
		}
		e.elem(k, v)
	}
	e.out = append(e.out, 0)
	binary.LittleEndian.PutUint32(e.out[at:], uint32(len(e.out)-at))
}

func (e *bsonEnc) elem(k string, m *M) {
	hd := func(t byte) { e.out = append(append(append(e.out, t), k...), 0) }
	switch m.K {
	case KObj:
		hd(3)
		e.doc(m)
	case KArr:
		hd(4)
		e.doc(m)
	case KStr:
		hd(2)
		e.leng = append(e.leng, len(e.out))
		e.u32(uint32(len(m.S) + 1))
		e.out = append(append(e.out, m.S...), 0)
	case KInt:
		if m.Sub == subTS {
			hd(0x11)
			e.u64(uint64(m.I))
			return
		}
		n := 1
		if m.I >= math.MinInt32 && m.I <= math.MaxInt32 {
			n = 2
		}
		if e.c.pick(n) == n-1 && n == 1 || n == 2 && e.c.prev() == 1 {
			hd(0x12)
			e.u64(uint64(m.I))
		} else {
			hd(0x10)
			e.u32(uint32(int32(m.I)))
		}
	case KFlt, KDbl:
		hd(1)
		e.u64(math.Float64bits(m.F))
	case KTime:
		hd(9)
		e.u64(uint64(m.T.UnixMilli()))
	case KBin:
		switch m.Sub {
		case subOID:
			hd(7)
			e.out = append(e.out, m.B...)
		case subDec:
			hd(0x13)
			e.out = append(e.out, m.B...)
		default:
			hd(5)
			if e.c.pick(2) == 0 {
				e.leng = append(e.leng, len(e.out))
				e.u32(uint32(len(m.B)))
				e.out = append(append(e.out, 0), m.B...)
			} else { // the old generic subtype repeats the length
				e.leng = append(e.leng, len(e.out))
				e.u32(uint32(len(m.B) + 4))
				e.out = append(e.out, 2)
				e.u32(uint32(len(m.B)))
				e.out = append(e.out, m.B...)
			}
		}
	case KExt:
		hd(5)
		e.leng = append(e.leng, len(e.out))
		e.u32(uint32(len(m.B)))
		e.out = append(append(e.out, m.Ext), m.B...)
	case KNull:
		hd(0x0a)
	case KTrue, KFalse:
		hd(8)
		if m.K == KTrue {
			e.out = append(e.out, 1)
		} else {
			e.out = append(e.out, 0)
		}
	default:
		panic("bsonEnc: kind " + kindName[m.K])
	}
}

func (c *chooser) prev() int {
	if c == nil {
		return 0
	}
	return c.vec[c.pos-1]
}

type bsonDec struct{ b []byte }

// refBSON decodes one document that must fill b exactly.
func refBSON(b []byte) (m *M, err error) {
	defer func() {
		if e := recover(); e != nil {
			m, err = nil, fmt.Errorf("malformed BSON: %v", e)
		}
	}()
	m, n := bsonDoc(b, KObj)
	if n != len(b) {
		return nil, fmt.Errorf("%d bytes follow the BSON document", len(b)-n)
	}
	return m, nil
}

func bsonDoc(b []byte, k Kind) (*M, int) {
	if len(b) < 5 {
		panic("document shorter than five bytes")
	}
	n := int(int32(binary.LittleEndian.Uint32(b)))
	if n < 5 || n > len(b) {
		panic(fmt.Sprintf("document length %d of %d", n, len(b)))
	}
	b = b[:n]
	if b[n-1] != 0 {
		panic("document not terminated")
	}
	m := &M{K: k}
	i := 4
	need := func(x int) []byte {
		if x < 0 || i+x > n-1 {
			panic("element exceeds its document")
		}
		r := b[i : i+x]
		i += x
		return r
	}
	for i < n-1 {
		tp := b[i]
		i++
		s := i
		for i < n-1 && b[i] != 0 {
			i++
		}
		if i >= n-1 {
			panic("key not terminated")
		}
		key := string(b[s:i])
		i++
		var v *M
		switch tp {
		case 1:
			v = mDbl(math.Float64frombits(binary.LittleEndian.Uint64(need(8))))
		case 2:
			l := int(int32(binary.LittleEndian.Uint32(need(4))))
			if l < 1 {
				panic("string length")
			}
			x := need(l)
			if x[l-1] != 0 {
				panic("string not terminated")
			}
			v = mStr(string(x[:l-1]))
		case 3, 4:
			kk := KObj
			if tp == 4 {
				kk = KArr
			}
			var l int
			v, l = bsonDoc(b[i:n-1], kk)
			i += l
		case 5:
			l := int(int32(binary.LittleEndian.Uint32(need(4))))
			sub := need(1)[0]
			x := append([]byte(nil), need(l)...)
			switch sub {
			case 0:
				v = mBin(x)
			case 2:
				if len(x) < 4 || int(binary.LittleEndian.Uint32(x)) != len(x)-4 {
					panic("old binary length")
				}
				v = mBin(x[4:])
			default:
				v = mSubBin(sub, x)
			}
		case 7:
			v = mOID(append([]byte(nil), need(12)...))
		case 8:
			x := need(1)[0]
			if x > 1 {
				panic("boolean")
			}
			v = mBool(x == 1)
		case 9:
			v = mTime(time.UnixMilli(int64(binary.LittleEndian.Uint64(need(8)))).UTC())
		case 0x0a:
			v = mK(KNull)
		case 0x10:
			v = mInt(int64(int32(binary.LittleEndian.Uint32(need(4)))))
		case 0x11:
			v = mTS(int64(binary.LittleEndian.Uint64(need(8))))
		case 0x12:
			v = mInt(int64(binary.LittleEndian.Uint64(need(8))))
		case 0x13:
			v = mDec128(append([]byte(nil), need(16)...))
		default:
			panic(fmt.Sprintf("element type %#x", tp))
		}
		if k == KArr {
			if key != strconv.Itoa(len(m.Vals)) {
				panic(fmt.Sprintf("array key %q at position %d", key, len(m.Vals)))
			}
		} else {
			m.Keys = append(m.Keys, key)
		}
		m.Vals = append(m.Vals, v)
	}
	return m, n
}

// bsonExpect is the tree a BSON document can carry for m.
func bsonExpect(m *M) *M {
	n := *m
	n.Vals = nil
	for _, v := range m.Vals {
		n.Vals = append(n.Vals, bsonExpect(v))
	}
	switch m.K {
	case KFlt:
		n.K = KDbl
	case KNan:
		return mDbl(math.NaN())
	case KInf:
		return mDbl(math.Inf(1))
	}
	return &n
}

var bsonEncs = []struct {
	name string
	f    func(v *d.DxValue) []byte
}{
	{"Value2Bson", func(v *d.DxValue) []byte {
		b, err := d.Value2Bson(v, nil)
		if err != nil {
			return nil
		}
		return b
	}},
	{"ToBson", func(v *d.DxValue) []byte { return v.ToBson(make([]byte, 0, 3)) }},
}

var bsonDecs = append([]decoder{
	{"NewValueFromBson", false, false, func(b []byte) (*d.DxValue, error) { return d.NewValueFromBson(b, false, false) }},
	{"NewValueFromBson(share)", true, false, func(b []byte) (*d.DxValue, error) { return d.NewValueFromBson(b, false, true) }},
	{"NewValueFromBson(cache)", false, true, func(b []byte) (*d.DxValue, error) { return d.NewValueFromBson(b, true, false) }},
	{"NewValueFromBson(cache,share)", true, true, func(b []byte) (*d.DxValue, error) { return d.NewValueFromBson(b, true, true) }},
}, loaders(func(v *d.DxValue, b []byte, share bool) error { return v.LoadFromBson(b, share) })...)

func refBsonEncode(m *M) []byte {
	e := &bsonEnc{}
	e.doc(m)
	return e.out
}
