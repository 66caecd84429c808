package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
)

// ---------------------------------------------------------------- choice enumeration

// chooser enumerates all choice vectors of a nondeterministic procedure (odometer over recorded choice sizes).
type chooser struct {
	vec, size []int
	pos       int
	always    int // when not zero, the choice that is always made
}

func (c *chooser) pick(n int) int {
	if c == nil {
		return 0
	}
	if c.always > 0 {
		return min(c.always, n-1)
	}
	if c.pos == len(c.vec) {
		c.vec = append(c.vec, 0)
		c.size = append(c.size, n)
	}
	c.size[c.pos] = n
	x := c.vec[c.pos]
	c.pos++
	return x
}

// next advances to the next vector; false when all have been tried.
func (c *chooser) next() bool {
	c.vec, c.size = c.vec[:c.pos], c.size[:c.pos]
	for i := len(c.vec) - 1; i >= 0; i-- {
		if c.vec[i]+1 < c.size[i] {
			c.vec[i]++
			c.vec, c.size = c.vec[:i+1], c.size[:i+1]
			c.pos = 0
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- reference MessagePack encoder

type mpEnc struct {
	c   *chooser
	out []byte
	at  []int // offsets at which a value starts
}

func (e *mpEnc) u(code byte, n int, v uint64) {
	e.out = append(e.out, code)
	for i := n - 1; i >= 0; i-- {
		e.out = append(e.out, byte(v>>(8*uint(i))))
	}
}

type opt struct {
	ok bool
	f  func()
}

func (e *mpEnc) choose(opts ...opt) {
	var l []func()
	for _, o := range opts {
		if o.ok {
			l = append(l, o.f)
		}
	}
	l[e.c.pick(len(l))]()
}

func (e *mpEnc) str(s string) {
	n := len(s)
	e.choose(
		opt{n < 32, func() { e.out = append(e.out, 0xa0|byte(n)) }},
		opt{n < 256, func() { e.u(0xd9, 1, uint64(n)) }},
		opt{n < 65536, func() { e.u(0xda, 2, uint64(n)) }},
		opt{true, func() { e.u(0xdb, 4, uint64(n)) }})
	e.out = append(e.out, s...)
}

func (e *mpEnc) val(m *M) {
	e.at = append(e.at, len(e.out))
	switch m.K {
	case KNull:
		e.out = append(e.out, 0xc0)
	case KTrue:
		e.out = append(e.out, 0xc3)
	case KFalse:
		e.out = append(e.out, 0xc2)
	case KInt:
		i := m.I
		e.choose(
			opt{i >= 0 && i < 128 || i < 0 && i >= -32, func() { e.out = append(e.out, byte(i)) }},
			opt{i >= 0 && i < 256, func() { e.u(0xcc, 1, uint64(i)) }},
			opt{i >= -128 && i < 128, func() { e.u(0xd0, 1, uint64(i)) }},
			opt{i >= 0 && i < 65536, func() { e.u(0xcd, 2, uint64(i)) }},
			opt{i >= -32768 && i < 32768, func() { e.u(0xd1, 2, uint64(i)) }},
			opt{i >= 0 && i < 1<<32, func() { e.u(0xce, 4, uint64(i)) }},
			opt{i >= -1<<31 && i < 1<<31, func() { e.u(0xd2, 4, uint64(i)) }},
			opt{i >= 0, func() { e.u(0xcf, 8, uint64(i)) }},
			opt{true, func() { e.u(0xd3, 8, uint64(i)) }})
	case KFlt:
		e.u(0xca, 4, uint64(math.Float32bits(float32(m.F))))
	case KDbl:
		e.u(0xcb, 8, math.Float64bits(m.F))
	case KStr:
		e.str(m.S)
	case KBin:
		n := len(m.B)
		e.choose(
			opt{n < 256, func() { e.u(0xc4, 1, uint64(n)) }},
			opt{n < 65536, func() { e.u(0xc5, 2, uint64(n)) }},
			opt{true, func() { e.u(0xc6, 4, uint64(n)) }})
		e.out = append(e.out, m.B...)
	case KExt:
		e.ext(m.Ext, m.B)
	case KTime:
		sec, ns := m.T.Unix(), uint64(m.T.Nanosecond())
		e.choose(
			opt{sec >= 0 && sec < 1<<32 && ns == 0, func() {
				e.out = append(e.out, 0xd6, 0xff)
				e.out = binary.BigEndian.AppendUint32(e.out, uint32(sec))
			}},
			opt{sec >= 0 && sec < 1<<34, func() {
				e.out = append(e.out, 0xd7, 0xff)
				e.out = binary.BigEndian.AppendUint64(e.out, ns<<34|uint64(sec))
			}},
			opt{true, func() {
				e.out = append(e.out, 0xc7, 12, 0xff)
				e.out = binary.BigEndian.AppendUint32(e.out, uint32(ns))
				e.out = binary.BigEndian.AppendUint64(e.out, uint64(sec))
			}})
	case KArr:
		n := len(m.Vals)
		e.choose(
			opt{n < 16, func() { e.out = append(e.out, 0x90|byte(n)) }},
			opt{n < 65536, func() { e.u(0xdc, 2, uint64(n)) }},
			opt{true, func() { e.u(0xdd, 4, uint64(n)) }})
		for _, v := range m.Vals {
			e.val(v)
		}
	case KObj:
		n := len(m.Vals)
		e.choose(
			opt{n < 16, func() { e.out = append(e.out, 0x80|byte(n)) }},
			opt{n < 65536, func() { e.u(0xde, 2, uint64(n)) }},
			opt{true, func() { e.u(0xdf, 4, uint64(n)) }})
		for i, v := range m.Vals {
			e.str(m.Keys[i])
			e.val(v)
		}
	case KNan:
		e.u(0xcb, 8, math.Float64bits(math.NaN()))
	case KInf:
		e.u(0xcb, 8, math.Float64bits(math.Inf(1)))
	default:
		panic("mpEnc: kind " + kindName[m.K])
	}
}

func (e *mpEnc) ext(tp byte, b []byte) {
	n := len(b)
	fix := map[int]byte{1: 0xd4, 2: 0xd5, 4: 0xd6, 8: 0xd7, 16: 0xd8}[n]
	e.choose(
		opt{fix != 0, func() { e.out = append(e.out, fix) }},
		opt{n < 256, func() { e.u(0xc7, 1, uint64(n)) }},
		opt{n < 65536, func() { e.u(0xc8, 2, uint64(n)) }},
		opt{true, func() { e.u(0xc9, 4, uint64(n)) }})
	e.out = append(e.out, tp)
	e.out = append(e.out, b...)
}

// ---------------------------------------------------------------- reference MessagePack decoder

type mpDec struct {
	b []byte
	i int
}

func refMP(b []byte) (m *M, err error) {
	defer func() {
		if e := recover(); e != nil {
			m, err = nil, fmt.Errorf("malformed MessagePack: %v", e)
		}
	}()
	p := &mpDec{b: b}
	m = p.val()
	if p.i != len(b) {
		return nil, fmt.Errorf("%d bytes follow the MessagePack object", len(b)-p.i)
	}
	return m, nil
}

func (p *mpDec) take(n int) []byte {
	if n < 0 || n > len(p.b)-p.i {
		panic(fmt.Sprintf("truncated at %d (need %d of %d)", p.i, n, len(p.b)-p.i))
	}
	r := p.b[p.i : p.i+n]
	p.i += n
	return r
}

func (p *mpDec) n(w int) uint64 {
	var v uint64
	for _, x := range p.take(w) {
		v = v<<8 | uint64(x)
	}
	return v
}

func (p *mpDec) key() string {
	m := p.val()
	if m.K != KStr {
		panic("map key is not a string")
	}
	return m.S
}

func (p *mpDec) val() *M {
	c := p.take(1)[0]
	switch {
	case c < 0x80:
		return mInt(int64(c))
	case c >= 0xe0:
		return mInt(int64(int8(c)))
	case c < 0x90:
		return p.mp(int(c & 15))
	case c < 0xa0:
		return p.arr(int(c & 15))
	case c < 0xc0:
		return mStr(string(p.take(int(c & 31))))
	}
	switch c {
	case 0xc0:
		return mK(KNull)
	case 0xc2:
		return mK(KFalse)
	case 0xc3:
		return mK(KTrue)
	case 0xc4:
		return mBin(append([]byte(nil), p.take(int(p.n(1)))...))
	case 0xc5:
		return mBin(append([]byte(nil), p.take(int(p.n(2)))...))
	case 0xc6:
		return mBin(append([]byte(nil), p.take(int(p.n(4)))...))
	case 0xc7:
		return p.ext(int(p.n(1)))
	case 0xc8:
		return p.ext(int(p.n(2)))
	case 0xc9:
		return p.ext(int(p.n(4)))
	case 0xca:
		return mFlt(math.Float32frombits(uint32(p.n(4))))
	case 0xcb:
		return mDbl(math.Float64frombits(p.n(8)))
	case 0xcc:
		return mInt(int64(p.n(1)))
	case 0xcd:
		return mInt(int64(p.n(2)))
	case 0xce:
		return mInt(int64(p.n(4)))
	case 0xcf:
		u := p.n(8)
		if u > math.MaxInt64 {
			panic("uint64 out of int64 range")
		}
		return mInt(int64(u))
	case 0xd0:
		return mInt(int64(int8(p.n(1))))
	case 0xd1:
		return mInt(int64(int16(p.n(2))))
	case 0xd2:
		return mInt(int64(int32(p.n(4))))
	case 0xd3:
		return mInt(int64(p.n(8)))
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return p.ext(1 << (c - 0xd4))
	case 0xd9:
		return mStr(string(p.take(int(p.n(1)))))
	case 0xda:
		return mStr(string(p.take(int(p.n(2)))))
	case 0xdb:
		return mStr(string(p.take(int(p.n(4)))))
	case 0xdc:
		return p.arr(int(p.n(2)))
	case 0xdd:
		return p.arr(int(p.n(4)))
	case 0xde:
		return p.mp(int(p.n(2)))
	case 0xdf:
		return p.mp(int(p.n(4)))
	}
	panic(fmt.Sprintf("code %#x", c))
}

func (p *mpDec) arr(n int) *M {
	m := &M{K: KArr}
	for i := 0; i < n; i++ {
		m.Vals = append(m.Vals, p.val())
	}
	return m
}

func (p *mpDec) mp(n int) *M {
	m := &M{K: KObj}
	for i := 0; i < n; i++ {
		m.Keys = append(m.Keys, p.key())
		m.Vals = append(m.Vals, p.val())
	}
	return m
}

func (p *mpDec) ext(n int) *M {
	tp := p.take(1)[0]
	b := append([]byte(nil), p.take(n)...)
	if tp == 0xff {
		switch n {
		case 4:
			return mTime(time.Unix(int64(binary.BigEndian.Uint32(b)), 0).UTC())
		case 8:
			u := binary.BigEndian.Uint64(b)
			if u>>34 > 999999999 {
				panic("nanoseconds out of range")
			}
			return mTime(time.Unix(int64(u&(1<<34-1)), int64(u>>34)).UTC())
		case 12:
			ns := binary.BigEndian.Uint32(b)
			if ns > 999999999 {
				panic("nanoseconds out of range")
			}
			return mTime(time.Unix(int64(binary.BigEndian.Uint64(b[4:])), int64(ns)).UTC())
		}
		panic("timestamp of a length the specification does not know")
	}
	return mExt(tp, b)
}

// ---------------------------------------------------------------- entry points

var mpEncs = []struct {
	name string
	f    func(v *d.DxValue) []byte
}{
	{"Value2MsgPack", func(v *d.DxValue) []byte { return d.Value2MsgPack(v, nil) }},
	{"ToMsgPack", func(v *d.DxValue) []byte { return v.ToMsgPack(make([]byte, 0, 3)) }},
}

var mpDecs = append([]decoder{
	{"NewValueFromMsgPack", false, false, func(b []byte) (*d.DxValue, error) { return d.NewValueFromMsgPack(b, false, false) }},
	{"NewValueFromMsgPack(share)", true, false, func(b []byte) (*d.DxValue, error) { return d.NewValueFromMsgPack(b, false, true) }},
	{"NewValueFromMsgPack(cache)", false, true, func(b []byte) (*d.DxValue, error) { return d.NewValueFromMsgPack(b, true, false) }},
	{"NewValueFromMsgPack(cache,share)", true, true, func(b []byte) (*d.DxValue, error) { return d.NewValueFromMsgPack(b, true, true) }},
}, loaders(func(v *d.DxValue, b []byte, share bool) error { return v.LoadFromMsgPack(b, share) })...)

var typedEq = eqOpt{tol: 2 * time.Millisecond, signs: true}
