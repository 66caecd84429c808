package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	DxCommonLib "github.com/suiyunonghen/DxCommonLib"
	d "github.com/suiyunonghen/dxsvalue"
)

// C20: scalars read back as set, whatever they held before.

func init() {
	register("C20", runC20,
		"every sequence of up to three setters (boundary values of every kind, Reset, Clear, generic setter) on values that held anything before, and every sequence of up to three keyed or indexed setters on one entry, followed by all typed reads, in lockstep with a reference scalar model")
}

// sc is the reference scalar.
type sc struct {
	k      Kind
	i      int64
	f      float64
	isT    bool // KTime/KDbl holding an instant t
	t      time.Time
	s      string
	b      []byte
	ext    byte
	hasExt bool
	n      int // entries of a container
}

type scOp struct {
	name string
	f    func(v *d.DxValue)
	m    func(s *sc)
}

var delphi0 = time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC)

func toDelphi(t time.Time) float64 { return float64(t.Sub(delphi0)) / float64(24*time.Hour) }

func scInts() []int64 {
	return []int64{0, 1, -1, 127, 128, 255, 256, -129, 65536, 1<<31 - 1, -1 << 31, 1 << 32, 1<<53 + 1, math.MaxInt64, math.MinInt64}
}
func scDbls() []float64 {
	return []float64{0, 1, -1, 0.5, -0.25, 1e15, 1e-9, 123456.75, math.MaxFloat64, -math.SmallestNonzeroFloat64, 44000.5}
}
func scFlts() []float32 { return []float32{0, 0.5, -1.5, 0.1, math.MaxFloat32} }
func scStrs() []string {
	return []string{"", "12", "-7", "1.5", "-0.25", "true", "TRUE", "false", "x", "2021-05-06T07:08:09Z", "2021-05-06 07:08:09", "2021/05/06 07:08:09", "1h30m", "250ms", "\\n\\u0041", "é\n", "12x", "-3s", "0s", "1m0.5s", "-9223372036854775808", "9223372036854775807", "9223372036854775808", "1e3", "-1.5e-2", "0", "2024-02-29 23:59:59", "2023-02-29 00:00:00", "2021-05-06"}
}
func scTimes() []time.Time {
	return []time.Time{time.Date(2021, 5, 6, 7, 8, 9, 250e6, time.UTC), time.Date(1900, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2189, 12, 31, 23, 59, 59, 999e6, time.UTC), time.Date(1970, 1, 1, 0, 0, 0, 1e6, time.UTC)}
}
func scBins() [][]byte { return [][]byte{nil, {1}, {0, 255, 7}, bytesOfLen(70)} }

func scOps(full bool) []scOp {
	var ops []scOp
	add := func(n string, f func(v *d.DxValue), m func(s *sc)) { ops = append(ops, scOp{n, f, m}) }
	lim := func(n int) int {
		if full || n < 4 {
			return n
		}
		return 4
	}
	for _, i := range scInts()[:lim(len(scInts()))] {
		i := i
		add(fmt.Sprintf("SetInt(%d)", i), func(v *d.DxValue) { v.SetInt(i) }, func(s *sc) { *s = sc{k: KInt, i: i} })
	}
	setD := func(s *sc, f float64) {
		if s.k == KTime {
			*s = sc{k: KTime, f: f}
		} else {
			*s = sc{k: KDbl, f: f}
		}
	}
	for _, f := range scDbls()[:lim(len(scDbls()))] {
		f := f
		add(fmt.Sprintf("SetDouble(%v)", f), func(v *d.DxValue) { v.SetDouble(f) }, func(s *sc) { setD(s, f) })
	}
	for _, f := range scFlts()[:lim(len(scFlts()))] {
		f := f
		add(fmt.Sprintf("SetFloat(%v)", f), func(v *d.DxValue) { v.SetFloat(f) }, func(s *sc) { *s = sc{k: KFlt, f: float64(f)} })
	}
	strs := scStrs()
	if !full {
		strs = []string{"", "12", "1.5", "\\u0041"}
	}
	for _, x := range strs {
		x := x
		add(fmt.Sprintf("SetString(%q)", x), func(v *d.DxValue) { v.SetString(x) }, func(s *sc) { *s = sc{k: KStr, s: x} })
	}
	for _, b := range []bool{true, false} {
		b := b
		k := KFalse
		if b {
			k = KTrue
		}
		add(fmt.Sprintf("SetBool(%v)", b), func(v *d.DxValue) { v.SetBool(b) }, func(s *sc) { *s = sc{k: k} })
	}
	setT := func(s *sc, tm time.Time) {
		if s.k == KDbl {
			*s = sc{k: KDbl, isT: true, t: tm}
		} else {
			*s = sc{k: KTime, isT: true, t: tm}
		}
	}
	tms := scTimes()
	if !full {
		tms = tms[:1]
	}
	for _, tm := range tms {
		tm := tm
		add(fmt.Sprintf("SetTime(%v)", tm), func(v *d.DxValue) { v.SetTime(tm) }, func(s *sc) { setT(s, tm) })
		add(fmt.Sprintf("SetDelphiTime(%v)", tm), func(v *d.DxValue) { v.SetDelphiTime(DxCommonLib.TDateTime(toDelphi(tm))) }, func(s *sc) { setT(s, tm) })
		add(fmt.Sprintf("SetValue(%v)", tm), func(v *d.DxValue) { v.SetValue(tm) }, func(s *sc) { *s = sc{k: KTime, isT: true, t: tm} })
	}
	for _, k := range allKinds {
		k := k
		add(fmt.Sprintf("Reset(%s)", kindName[k]), func(v *d.DxValue) { v.Reset(vtOf[k]) }, func(s *sc) { *s = sc{k: k} })
	}
	add("Reset(raw string)", func(v *d.DxValue) { v.Reset(d.VT_RawString) }, func(s *sc) { *s = sc{k: KStr} })
	add("Clear", func(v *d.DxValue) { v.Clear() }, func(s *sc) {
		k := s.k
		if k >= KNull {
			k = KNull
		}
		*s = sc{k: k}
	})
	bins := scBins()
	if !full {
		bins = bins[:3]
	}
	for _, b := range bins {
		b := b
		for _, cl := range []bool{true, false} {
			cl := cl
			add(fmt.Sprintf("SetBinary(%x,%v)", b, cl), func(v *d.DxValue) { v.SetBinary(append([]byte(nil), b...), cl) }, func(s *sc) {
				switch {
				case s.k == KBin, s.k == KExt && !s.hasExt:
					*s = sc{k: KBin, b: b}
				case s.k == KExt:
					s.b = b
				}
			})
		}
		add(fmt.Sprintf("SetValue(%x)", b), func(v *d.DxValue) { v.SetValue(append([]byte(nil), b...)) }, func(s *sc) { *s = sc{k: KBin, b: b} })
	}
	for _, e := range []byte{0, 5, 255} {
		e := e
		add(fmt.Sprintf("SetExtType(%d)", e), func(v *d.DxValue) { v.SetExtType(e) }, func(s *sc) {
			if s.k == KExt {
				s.ext, s.hasExt = e, true
			}
		})
	}
	add("SetValue(int8)", func(v *d.DxValue) { v.SetValue(int8(-5)) }, func(s *sc) { *s = sc{k: KInt, i: -5} })
	add("SetValue(uint16)", func(v *d.DxValue) { v.SetValue(uint16(65535)) }, func(s *sc) { *s = sc{k: KInt, i: 65535} })
	add("SetValue(uint32)", func(v *d.DxValue) { v.SetValue(uint32(1<<32 - 1)) }, func(s *sc) { *s = sc{k: KInt, i: 1<<32 - 1} })
	add("SetValue(float32)", func(v *d.DxValue) { v.SetValue(float32(0.1)) }, func(s *sc) { *s = sc{k: KFlt, f: float64(float32(0.1))} })
	add("SetValue(float64)", func(v *d.DxValue) { v.SetValue(2.75) }, func(s *sc) { setD(s, 2.75) })
	add("SetValue(string)", func(v *d.DxValue) { v.SetValue("a\\nb") }, func(s *sc) { *s = sc{k: KStr, s: "a\\nb"} })
	add("SetValue(bool)", func(v *d.DxValue) { v.SetValue(true) }, func(s *sc) { *s = sc{k: KTrue} })
	add("SetValue(nil)", func(v *d.DxValue) { v.SetValue(nil) }, func(s *sc) { *s = sc{k: KNull} })
	return ops
}

var allKinds = []Kind{KObj, KArr, KStr, KInt, KFlt, KDbl, KTime, KBin, KExt, KNull, KTrue, KFalse, KNan, KInf}

func near(a, b, tol float64) bool { return a == b || math.Abs(a-b) <= tol }

var dateLayouts = []string{"2006-01-02T15:04:05Z", "2006-01-02 15:04:05", "2006/01/02 15:04:05"}

const defDur = 77 * time.Hour

// num gives the natural numeric reading.
func (s *sc) num() (f float64, i int64, iok bool) {
	switch s.k {
	case KInt:
		return float64(s.i), s.i, true
	case KTrue:
		return 1, 1, true
	case KFlt, KDbl, KTime:
		f = s.f
		if s.isT {
			f = toDelphi(s.t)
		}
		return f, int64(f), math.Abs(f) < 9e18
	case KStr:
		f, err := strconv.ParseFloat(s.s, 64)
		if err != nil {
			f = 0
		}
		n, err := strconv.ParseInt(s.s, 10, 64)
		if err != nil {
			n = 0
		}
		return f, n, true
	case KNan:
		return math.NaN(), 0, true
	case KInf:
		return math.Inf(1), 0, true
	}
	return 0, 0, true
}

// checkScalar compares every read of v with the model; order selects which read comes first.
func (s *sc) check(t *T, v *d.DxValue, where func() string) {
	kd := v.DataType
	if !(kd == vtOf[s.k] || s.k == KStr && kd == d.VT_RawString) {
		t.Failf("%s: kind %d, want %s", where(), kd, kindName[s.k])
	}
	bad := func(what string, got, want interface{}) {
		t.Failf("%s: %s = %v, want %v", where(), what, got, want)
	}
	f, i, iok := s.num()
	tolD := 0.0
	if s.isT {
		tolD = 1.2e-8
	}
	if iok && !s.isT && v.Int() != i {
		bad("Int", v.Int(), i)
	}
	if g := v.Double(); !near(g, f, tolD) && !(g != g && f != f) {
		bad("Double", g, f)
	}
	if g := v.Float(); !s.isT && g != float32(f) && !(g != g && f != f) {
		bad("Float", g, float32(f))
	}
	wb := false
	switch s.k {
	case KStr:
		wb = strings.EqualFold(s.s, "true")
	case KInt, KFlt, KDbl, KTime:
		wb = f > 0
	case KTrue:
		wb = true
	}
	if g := v.Bool(); g != wb {
		bad("Bool", g, wb)
	}
	wd := defDur
	switch s.k {
	case KStr:
		if x, err := time.ParseDuration(s.s); err == nil {
			wd = x
		}
	case KInt:
		wd = time.Duration(s.i)
	}
	if g := v.Duration(defDur); g != wd {
		bad("Duration", g, wd)
	}
	// times
	gt, dt := v.GoTime(), float64(v.DateTime())
	switch {
	case s.isT:
		if x := gt.Sub(s.t); x > time.Millisecond || x < -time.Millisecond {
			bad("GoTime", gt, s.t)
		}
		if !near(dt, f, 1.2e-8) {
			bad("DateTime", dt, f)
		}
	case s.k == KInt || s.k == KFlt || s.k == KDbl || s.k == KTime:
		if dt != f {
			bad("DateTime", dt, f)
		}
		if f >= 0 && f < 100000 {
			w := delphi0.Add(time.Duration(f * float64(24*time.Hour)))
			if x := gt.Sub(w); x > 2*time.Millisecond || x < -2*time.Millisecond {
				bad("GoTime", gt, w)
			}
		}
	default:
		w := time.Time{}
		wdt := -1.0
		if s.k == KStr {
			for _, l := range dateLayouts {
				if x, err := time.ParseInLocation(l, s.s, time.UTC); err == nil {
					w, wdt = x, toDelphi(x)
				}
			}
		}
		if !gt.Equal(w) {
			bad("GoTime", gt, w)
		}
		if !near(dt, wdt, 1.2e-8) {
			bad("DateTime", dt, wdt)
		}
	}
	// text
	switch g := v.String(); s.k {
	case KStr:
		if g != s.s {
			bad("String", strconv.Quote(g), strconv.Quote(s.s))
		}
	case KInt:
		if g != strconv.FormatInt(s.i, 10) {
			bad("String", g, s.i)
		}
	case KFlt, KDbl:
		if x, err := strconv.ParseFloat(g, 64); err != nil || !near(x, f, tolD) {
			bad("String", g, f)
		}
	case KTime:
		if s.isT {
			x, err := time.ParseInLocation("2006-01-02 15:04:05", g, time.UTC)
			if y := s.t.Sub(x); err != nil || y < -time.Second || y > time.Second+time.Millisecond {
				bad("String", g, s.t)
			}
		}
	case KTrue, KFalse, KNull:
		if g != kindName[s.k] {
			bad("String", g, kindName[s.k])
		}
	}
	// binary
	wantB, wantE := []byte(nil), byte(0)
	if s.k == KBin || s.k == KExt {
		wantB, wantE = s.b, s.ext
	}
	if g := v.Binary(); string(g) != string(wantB) || v.BinLen() != len(wantB) || v.BinExtType() != wantE {
		bad("binary", fmt.Sprintf("%x/%d/%d", g, v.BinLen(), v.BinExtType()), fmt.Sprintf("%x/%d", wantB, wantE))
	}
	if v.Count() != s.n || s.n == 0 && (v.ValueByName("a") != nil || v.ValueByIndex(0) != nil) {
		bad("Count", v.Count(), s.n)
	}
	if !(v.DataType == vtOf[s.k]) && !(s.k == KStr) {
		bad("kind after reading", v.DataType, kindName[s.k])
	}
}

type scInit struct {
	name string
	mk   func() *d.DxValue
	s    sc
}

func scInits() []scInit {
	js := func(text string) *d.DxValue {
		v, err := d.NewValueFromJson([]byte(text), false, false)
		if err != nil {
			panic(err)
		}
		return v
	}
	out := []scInit{
		{"object with entries", func() *d.DxValue { return build(mObj("a", mInt(1), "b", mArr(mInt(2))), false) }, sc{k: KObj, n: 2}},
		{"array from JSON", func() *d.DxValue { return js(`[1,"a\n",[2]]`) }, sc{k: KArr, n: 3}},
		{"unread text", func() *d.DxValue { return js(`"\u0031\u0032"`) }, sc{k: KStr, s: "12"}},
		{"unread text entry", func() *d.DxValue { return js(`{"k\n":"x\n"}`).ValueByIndex(0) }, sc{k: KStr, s: "x\n"}},
		{"JSON number", func() *d.DxValue { return js(`[-2.5]`).ValueByIndex(0) }, sc{k: KDbl, f: -2.5}},
		{"cached int", func() *d.DxValue { v := d.NewCacheValue(d.VT_Int); v.SetInt(-1); return v }, sc{k: KInt, i: -1}},
		{"cached object, recycled", func() *d.DxValue {
			x := d.NewCacheValue(d.VT_Object)
			x.SetKeyDouble("a", -1)
			x.SetKey("b", d.VT_Binary).SetBinary([]byte{1, 2}, true)
			d.FreeValue(x)
			return d.NewCacheValue(d.VT_Double)
		}, sc{k: KDbl}},
		{"MsgPack ext data", func() *d.DxValue {
			v, err := d.NewValueFromMsgPack([]byte{0xd5, 9, 1, 2}, false, false)
			if err != nil {
				panic(err)
			}
			return v
		}, sc{k: KExt, ext: 9, hasExt: true, b: []byte{1, 2}}},
		{"MsgPack binary entry", func() *d.DxValue {
			v, err := d.NewValueFromMsgPack([]byte{0x91, 0xc4, 2, 7, 8}, true, false)
			if err != nil {
				panic(err)
			}
			return v.ValueByIndex(0)
		}, sc{k: KBin, b: []byte{7, 8}}},
	}
	for _, k := range []Kind{KStr, KFlt, KDbl, KTime, KBin, KExt, KArr} {
		k := k
		out = append(out, scInit{"new " + kindName[k], func() *d.DxValue { return d.NewValue(vtOf[k]) }, sc{k: k}})
	}
	return out
}

func runC20(c *Ctx) {
	inits := scInits()
	opsAll, opsFew := scOps(true), scOps(false)
	c.Bound("setters", fmt.Sprintf("%d, all sequences of length <= 3 (thorough: and all of length 4 over %d of them)", len(opsAll), len(opsFew)))
	c.Bound("initial_values", fmt.Sprint(len(inits)))
	run := func(t *T, in scInit, seq ...scOp) {
		v := in.mk()
		s := in.s
		for _, o := range seq {
			o.f(v)
			o.m(&s)
			t.Op()
		}
		where := func() string {
			w := in.name
			for _, o := range seq {
				w += ", " + o.name
			}
			return w
		}
		s.check(t, v, where)
		s.check(t, v, func() string { return where() + " (read twice)" })
		t.c.traces++
	}
	for _, in := range inits {
		in := in
		c.Case(func() string { return in.name + " and every setter" }, func(t *T) {
			run(t, in)
			for _, o := range opsAll {
				run(t, in, o)
			}
		})
		for _, o1 := range opsAll {
			o1 := o1
			c.Case(func() string { return fmt.Sprintf("%s, %s and every setter", in.name, o1.name) }, func(t *T) {
				t.State(in.name + o1.name)
				for _, o2 := range opsAll {
					run(t, in, o1, o2)
				}
			})
		}
		d3 := opsAll
		for _, o1 := range d3 {
			for _, o2 := range d3 {
				if c.Stop() {
					return
				}
				o1, o2 := o1, o2
				c.Case(func() string { return fmt.Sprintf("%s, %s, %s and every setter", in.name, o1.name, o2.name) }, func(t *T) {
					t.State(in.name + o1.name + o2.name)
					for _, o3 := range d3 {
						run(t, in, o1, o2, o3)
					}
				})
			}
		}
	}
	// every magnitude: powers of two, their neighbours and halves between them, of every numeric kind and as text;
	// binaries and texts of every length
	type wide struct {
		name string
		f    func(v *d.DxValue)
		s    sc
	}
	var ws []wide
	addI := func(i int64) {
		ws = append(ws, wide{fmt.Sprintf("SetInt(%d)", i), func(v *d.DxValue) { v.SetInt(i) }, sc{k: KInt, i: i}},
			wide{fmt.Sprintf("SetString(%d)", i), func(v *d.DxValue) { v.SetString(strconv.FormatInt(i, 10)) }, sc{k: KStr, s: strconv.FormatInt(i, 10)}})
	}
	addF := func(f float64) {
		x := strconv.FormatFloat(f, 'g', -1, 64)
		ws = append(ws, wide{"SetDouble(" + x + ")", func(v *d.DxValue) { v.Reset(d.VT_Double); v.SetDouble(f) }, sc{k: KDbl, f: f}},
			wide{"Reset(time), SetDouble(" + x + ")", func(v *d.DxValue) { v.Reset(d.VT_DateTime); v.SetDouble(f) }, sc{k: KTime, f: f}},
			wide{"SetFloat(" + x + ")", func(v *d.DxValue) { v.SetFloat(float32(f)) }, sc{k: KFlt, f: float64(float32(f))}})
	}
	for e := 0; e < 63; e++ {
		p := int64(1) << uint(e)
		for _, i := range []int64{p - 1, p, p + 1, p + p/2} {
			addI(i)
			addI(-i)
		}
	}
	for e := -40; e < 63; e++ {
		p := math.Ldexp(1, e)
		for _, f := range []float64{p, p * 1.5, p + 1, p - 0.25} {
			addF(f)
			addF(-f)
		}
	}
	lens := 300
	if !c.quick {
		lens = 3000
	}
	for n := 0; n <= lens; n++ {
		n, b, x := n, bytesOfLen(n), strOfLen(n)
		ws = append(ws, wide{fmt.Sprintf("binary of %d bytes", n), func(v *d.DxValue) { v.Reset(d.VT_Binary); v.SetBinary(append([]byte(nil), b...), n%2 == 0) }, sc{k: KBin, b: b}},
			wide{fmt.Sprintf("extension of %d bytes", n), func(v *d.DxValue) {
				v.Reset(d.VT_ExBinary)
				if n%2 == 0 {
					v.SetExtType(byte(n))
				}
				v.SetBinary(append([]byte(nil), b...), n%3 == 0)
			}, sc{k: map[bool]Kind{true: KExt, false: KBin}[n%2 == 0], b: b, ext: byte(n) * byte((n+1)%2), hasExt: n%2 == 0}},
			wide{fmt.Sprintf("text of %d bytes", n), func(v *d.DxValue) { v.SetString(x) }, sc{k: KStr, s: x}})
	}
	c.Bound("magnitudes", fmt.Sprintf("%d values of every numeric kind, text and binary length: each after every initial value, and before and after every setter of a smaller set", len(ws)))
	for i := range ws {
		w := ws[i]
		c.Case(func() string { return "magnitudes: " + w.name }, func(t *T) {
			for k, in := range inits {
				v := in.mk()
				w.f(v)
				w.s.check(t, v, func() string { return in.name + ", " + w.name })
				t.Op()
				for j, o := range opsFew {
					if j%len(inits) != k {
						continue
					}
					s := w.s
					o.f(v)
					o.m(&s)
					s.check(t, v, func() string { return in.name + ", " + w.name + ", " + o.name })
					w.f(v)
					w.s.check(t, v, func() string { return in.name + ", " + w.name + ", " + o.name + ", " + w.name })
					t.Op()
				}
			}
			t.State(w.name)
			t.Trace()
		})
	}
	// number and duration texts, decimals and a band of integers
	texts := append(decimals(3000), longNumbers()...)
	for _, u := range []string{"ns", "us", "ms", "s", "m", "h", "h0m", "m30s", ".5s", ".25h"} {
		for i := -120; i <= 400; i++ {
			texts = append(texts, itoa(i)+u)
		}
	}
	band := 3000
	if !c.quick {
		band = 70000
	}
	c.Bound("texts", fmt.Sprintf("%d number and duration texts, set and decoded; integers and thousandths to +-%d", len(texts), band))
	for i := 0; i < len(texts); i += 200 {
		part := texts[i:min(i+200, len(texts))]
		c.Case(func() string { return "texts from " + part[0] }, func(t *T) {
			v := d.NewValue(d.VT_Int)
			for _, x := range part {
				s := sc{k: KStr, s: x}
				v.SetString(x)
				s.check(t, v, func() string { return "SetString(" + x + ")" })
				w, err := d.NewValueFromJson([]byte("\""+x+"\""), false, false)
				if err != nil {
					t.Failf("text %s: %v", x, err)
				}
				s.check(t, w, func() string { return "decoded text " + x })
				v.SetInt(7)
				t.Op()
				t.Trace()
			}
		})
	}
	for i := -band; i < band; i += 200 {
		i := i
		c.Case(func() string { return fmt.Sprintf("integers and thousandths from %d", i) }, func(t *T) {
			v := d.NewValue(d.VT_String)
			for j := i; j < i+200; j++ {
				s := sc{k: KInt, i: int64(j)}
				v.SetInt(int64(j))
				s.check(t, v, func() string { return fmt.Sprintf("SetInt(%d)", j) })
				f := float64(j) / 1000
				s = sc{k: KFlt, f: float64(float32(f))}
				v.SetFloat(float32(f))
				s.check(t, v, func() string { return fmt.Sprintf("SetFloat(%v)", f) })
				s = sc{k: KDbl, f: f}
				v.SetDouble(f)
				s.check(t, v, func() string { return fmt.Sprintf("SetDouble(%v)", f) })
				t.Op()
			}
			t.Trace()
		})
	}
	if !c.quick {
		for _, in := range inits {
			for _, o1 := range opsFew {
				for _, o2 := range opsFew {
					if c.Stop() {
						return
					}
					in, o1, o2 := in, o1, o2
					c.Case(func() string { return fmt.Sprintf("%s, %s, %s and every two setters", in.name, o1.name, o2.name) }, func(t *T) {
						for _, o3 := range opsFew {
							for _, o4 := range opsFew {
								run(t, in, o1, o2, o3, o4)
							}
						}
					})
				}
			}
		}
	}
	// keyed and indexed setters on one entry
	type eop struct {
		name string
		key  func(v *d.DxValue, k string)
		idx  func(v *d.DxValue, i int)
		s    sc
	}
	var eops []eop
	add := func(n string, key func(v *d.DxValue, k string), idx func(v *d.DxValue, i int), s sc) {
		eops = append(eops, eop{n, key, idx, s})
	}
	for _, i := range []int64{0, 42, -1, math.MaxInt64, math.MinInt64} {
		i := i
		add(fmt.Sprint("int ", i), func(v *d.DxValue, k string) { v.SetKeyInt(k, i) }, func(v *d.DxValue, x int) { v.SetIndexInt(x, i) }, sc{k: KInt, i: i})
	}
	for _, f := range []float64{0, 1.5, -2, 1e300} {
		f := f
		add(fmt.Sprint("double ", f), func(v *d.DxValue, k string) { v.SetKeyDouble(k, f) }, func(v *d.DxValue, x int) { v.SetIndexDouble(x, f) }, sc{k: KDbl, f: f})
	}
	for _, f := range []float32{0, 0.1} {
		f := f
		add(fmt.Sprint("float ", f), func(v *d.DxValue, k string) { v.SetKeyFloat(k, f) }, func(v *d.DxValue, x int) { v.SetIndexFloat(x, f) }, sc{k: KFlt, f: float64(f)})
	}
	for _, s := range scStrs() {
		s := s
		add(fmt.Sprintf("string %q", s), func(v *d.DxValue, k string) { v.SetKeyString(k, s) }, func(v *d.DxValue, x int) { v.SetIndexString(x, s) }, sc{k: KStr, s: s})
	}
	for _, b := range []bool{true, false} {
		b := b
		s := sc{k: KFalse}
		if b {
			s.k = KTrue
		}
		add(fmt.Sprint("bool ", b), func(v *d.DxValue, k string) { v.SetKeyBool(k, b) }, func(v *d.DxValue, x int) { v.SetIndexBool(x, b) }, s)
	}
	for _, tm := range scTimes() {
		tm := tm
		add(fmt.Sprint("time ", tm), func(v *d.DxValue, k string) { v.SetKeyTime(k, tm) }, func(v *d.DxValue, x int) { v.SetIndexTime(x, tm) }, sc{k: KTime, isT: true, t: tm})
	}
	add("binary", func(v *d.DxValue, k string) { v.SetKey(k, d.VT_Binary).SetBinary([]byte{1, 2}, true) }, func(v *d.DxValue, x int) { v.SetIndex(x, d.VT_Binary).SetBinary([]byte{1, 2}, true) }, sc{k: KBin, b: []byte{1, 2}})
	add("ext", func(v *d.DxValue, k string) {
		n := v.SetKey(k, d.VT_ExBinary)
		n.SetExtType(3)
		n.SetBinary([]byte{9}, true)
	}, func(v *d.DxValue, x int) {
		n := v.SetIndex(x, d.VT_ExBinary)
		n.SetExtType(3)
		n.SetBinary([]byte{9}, true)
	}, sc{k: KExt, b: []byte{9}, ext: 3, hasExt: true})
	// the shared constants, stored as values
	for _, k := range []Kind{KNull, KTrue, KFalse, KNan, KInf} {
		vt := vtOf[k]
		add("shared "+kindName[k], func(v *d.DxValue, key string) { v.SetKeyValue(key, d.NewValue(vt)) }, func(v *d.DxValue, x int) { v.SetIndexValue(x, d.NewValue(vt)) }, sc{k: k})
		add("cached shared "+kindName[k], func(v *d.DxValue, key string) { v.SetKeyValue(key, d.NewCacheValue(vt)) }, func(v *d.DxValue, x int) { v.SetIndexValue(x, d.NewCacheValue(vt)) }, sc{k: k})
	}
	add("nothing", func(v *d.DxValue, key string) { v.SetKeyValue(key, nil); v.SetKey(key, d.VT_Int) }, func(v *d.DxValue, x int) { v.SetIndexValue(x, nil); v.SetIndex(x, d.VT_Int) }, sc{k: KInt})
	for _, k := range []Kind{KNull, KNan, KInf, KTrue, KFalse, KObj, KArr} {
		vt := vtOf[k]
		add(kindName[k], func(v *d.DxValue, key string) { v.SetKey(key, vt).Reset(vt) }, func(v *d.DxValue, x int) { v.SetIndex(x, vt).Reset(vt) }, sc{k: k})
	}
	conts := []struct {
		name string
		mk   func() *d.DxValue
		obj  bool
	}{
		{"object", func() *d.DxValue { return d.NewObject(false) }, true},
		{"cached object", func() *d.DxValue { return d.NewObject(true) }, true},
		{"JSON object", func() *d.DxValue {
			v, _ := d.NewValueFromJson([]byte(`{"\u006b":"t\n","z":[1]}`), false, false)
			return v
		}, true},
		{"array", func() *d.DxValue { return d.NewArray(false) }, false},
		{"JSON array", func() *d.DxValue {
			v, _ := d.NewValueFromJson([]byte(`[{"a":"t\n"},true]`), true, false)
			return v
		}, false},
	}
	dep := 2
	if !c.quick {
		dep = 3
	}
	c.Bound("entry_setters", fmt.Sprintf("%d, depth %d, in %d containers", len(eops), dep, len(conts)))
	for _, ct := range conts {
		ct := ct
		for a := range eops {
			a := a
			c.Case(func() string {
				return fmt.Sprintf("%s: %s, then every setter of the same entry", ct.name, eops[a].name)
			}, func(t *T) {
				one := func(seq ...int) {
					v := ct.mk()
					for _, x := range seq {
						if ct.obj {
							eops[x].key(v, "k")
						} else {
							eops[x].idx(v, 0)
						}
						t.Op()
					}
					where := func() string {
						w := ct.name
						for _, x := range seq {
							w += ", set " + eops[x].name
						}
						return w
					}
					s := eops[seq[len(seq)-1]].s
					name := "k"
					if !ct.obj {
						name = "0"
					}
					n := v.ValueByName(name)
					if n == nil {
						t.Failf("%s: entry missing", where())
					}
					f, i, iok := s.num()
					if ct.obj {
						if iok && !s.isT && (v.AsInt64("k", -99) != i || v.AsInt("k", -99) != int(i) || v.IntByName("k", -99) != int(i)) {
							t.Failf("%s: AsInt64 %d, want %d", where(), v.AsInt64("k", -99), i)
						}
						if s.k == KStr && (v.AsString("k", "def") != s.s || v.StringByName("k", "def") != s.s) {
							t.Failf("%s: AsString %q, want %q", where(), v.AsString("k", "def"), s.s)
						}
						if s.isT {
							if x := v.TimeByName("k", time.Time{}).Sub(s.t); x > time.Millisecond || x < -time.Millisecond {
								t.Failf("%s: TimeByName %v, want %v", where(), v.TimeByName("k", time.Time{}), s.t)
							}
						} else if g := v.AsDouble("k", -99); g != f && !(g != g && f != f) {
							t.Failf("%s: AsDouble %v, want %v", where(), g, f)
						}
					} else {
						if iok && !s.isT && v.IntByIndex(0, -99) != int(i) {
							t.Failf("%s: IntByIndex %d, want %d", where(), v.IntByIndex(0, -99), i)
						}
						if s.k == KStr && v.StringByIndex(0, "def") != s.s {
							t.Failf("%s: StringByIndex %q, want %q", where(), v.StringByIndex(0, "def"), s.s)
						}
						if !s.isT && !(f != f && math.IsNaN(v.DoubleByIndex(0, -99)) && math.IsNaN(float64(v.FloatByIndex(0, -99)))) && (v.DoubleByIndex(0, -99) != f || v.FloatByIndex(0, -99) != float32(f)) {
							t.Failf("%s: DoubleByIndex %v, want %v", where(), v.DoubleByIndex(0, -99), f)
						}
					}
					for _, abs := range []string{"absent", "7"} {
						if v.AsInt64(abs, 5) != 5 || v.AsString(abs, "def") != "def" || v.AsBool(abs, true) != true || v.AsDouble(abs, 2.5) != 2.5 || v.AsFloat(abs, 0.5) != 0.5 || v.DurationByName(3, abs) != 3 || !v.TimeByName(abs, s.t).Equal(s.t) {
							t.Failf("%s: absent entry %q does not give the default", where(), abs)
						}
					}
					s.check(t, n, where)
					t.c.traces++
				}
				one(a)
				for b := range eops {
					one(a, b)
					if dep > 2 {
						for e := range eops {
							one(a, b, e)
						}
					}
				}
			})
		}
	}
}
