package main

import (
	"math"
	"strings"
	"time"
)

// ---------------------------------------------------------------- enumeration of trees

// shapes calls f for every tree with at most n nodes built from the leaves and keys, containers included.
// Objects use every ordered selection of distinct keys. rootObj restricts the root to objects.
func shapes(n int, leaves []*M, keys []string, rootKinds string, stop func() bool, f func(*M)) {
	memo := map[int][]*M{}
	var exact func(n int) []*M // trees of exactly n nodes
	var forests func(n, k int) [][]*M
	fm := map[[2]int][][]*M{}
	forests = func(n, k int) [][]*M { // k trees with n nodes in total
		if k == 0 {
			if n == 0 {
				return [][]*M{nil}
			}
			return nil
		}
		if r, ok := fm[[2]int{n, k}]; ok {
			return r
		}
		var out [][]*M
		for a := 1; a <= n-(k-1); a++ {
			for _, t := range exact(a) {
				for _, rest := range forests(n-a, k-1) {
					out = append(out, append([]*M{t}, rest...))
				}
			}
		}
		fm[[2]int{n, k}] = out
		return out
	}
	var perms func(k int) [][]string
	perms = func(k int) [][]string {
		if k == 0 {
			return [][]string{nil}
		}
		var out [][]string
		for _, p := range perms(k - 1) {
			for _, x := range keys {
				dup := false
				for _, y := range p {
					dup = dup || y == x
				}
				if !dup {
					out = append(out, append(append([]string{}, p...), x))
				}
			}
		}
		return out
	}
	exact = func(n int) []*M {
		if r, ok := memo[n]; ok {
			return r
		}
		var out []*M
		if n == 1 {
			out = append(out, leaves...)
		}
		for k := 0; k <= n-1; k++ {
			for _, fo := range forests(n-1, k) {
				out = append(out, &M{K: KArr, Vals: fo})
			}
		}
		for k := 0; k <= n-1 && k <= len(keys); k++ {
			ps := perms(k)
			for _, fo := range forests(n-1, k) {
				for _, p := range ps {
					out = append(out, &M{K: KObj, Keys: p, Vals: fo})
				}
			}
		}
		memo[n] = out
		return out
	}
	for i := 1; i <= n; i++ {
		for _, t := range exact(i) {
			if stop() {
				return
			}
			if rootKinds == "obj" && t.K != KObj || rootKinds == "cont" && t.K > KArr {
				continue
			}
			f(t)
		}
	}
}

// contexts places x at every kind of position: root, alone, first, last, nested, behind long siblings.
func contexts(x *M) []*M {
	return []*M{
		x,
		mArr(x),
		mArr(mInt(0), x),
		mArr(x, mStr("z")),
		mObj("k", x),
		mObj("a", mInt(1), "k", x, "c", mArr()),
		mArr(mArr(x), mArr()),
		mObj("a", mObj("b", x), "c", mK(KNull)),
		mArr(mObj("k", x, "l", x), x),
		mObj("p", mArr(x, mObj("q", x)), "r", mStr("t")),
	}
}

// objContexts is contexts with an object at the root.
func objContexts(x *M) []*M {
	return []*M{
		mObj("k", x),
		mObj("a", mInt(1), "k", x, "c", mArr()),
		mObj("a", mObj("b", x), "c", mK(KNull)),
		mObj("p", mArr(x, mObj("q", x)), "r", mStr("t")),
		mObj("z", mArr(mArr(x), x, mArr()), "y", x),
	}
}

// ---------------------------------------------------------------- alphabets

// strsOver returns all strings of length <= n over the alphabet.
func strsOver(al []string, n int) []string {
	out := []string{""}
	last := []string{""}
	for i := 0; i < n; i++ {
		var nx []string
		for _, p := range last {
			for _, a := range al {
				nx = append(nx, p+a)
			}
		}
		out = append(out, nx...)
		last = nx
	}
	return out
}

var escAlphabet = []string{"a", "\"", "\\", "/", "\n", "\x01", "%", "4", "é", "中", "😀", "\x7f", "u", "\u2028"}

// allRunes: one string per code point class, including every code point below 0x180 and the edges of the ranges.
func runeStrings() []string {
	var out []string
	for r := rune(0); r < 0x180; r++ {
		out = append(out, string(r))
	}
	for _, r := range []rune{0x7ff, 0x800, 0xfff, 0x1000, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x1ffff, 0xfffff, 0x100000, 0x10ffff} {
		out = append(out, string(r), "x"+string(r)+"y")
	}
	return out
}

// lengths around every header boundary.
func boundaryLens(big bool) []int {
	l := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 14, 15, 16, 17, 30, 31, 32, 33, 63, 64, 127, 128, 254, 255, 256, 257, 258, 511, 512, 1023, 1024}
	if big {
		l = append(l, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537)
	}
	return l
}

// boundaryInts: +-2^k +-{0,1,2} and decimal boundaries.
func boundaryInts() []int64 {
	seen := map[int64]bool{}
	var out []int64
	add := func(i int64) {
		if !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	for i := int64(-130); i <= 260; i++ {
		add(i)
	}
	for k := uint(6); k < 64; k++ {
		p := int64(uint64(1) << k)
		for e := int64(-2); e <= 2; e++ {
			add(p + e)
			add(-p + e)
		}
	}
	t := int64(1)
	for k := 0; k < 18; k++ {
		t *= 10
		for e := int64(-1); e <= 1; e++ {
			add(t + e)
			add(-t + e)
		}
	}
	add(math.MaxInt64)
	add(math.MinInt64)
	add(math.MinInt64 + 1)
	add(1234567890123456789)
	return out
}

func boundaryFloats() []float64 {
	fs := []float64{0, math.Copysign(0, -1), 0.5, 1.5, -1.5, 0.1, -0.1, 3.14159, 1e-7, 1e-10, 123456.789, 1e10, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22, 1e100, -1e100,
		math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 2.2250738585072014e-308, math.MaxFloat32, math.SmallestNonzeroFloat32, 1.0 / 3, 2.0 / 3, 1e300, 1e-300, 4503599627370496.5,
		9007199254740991, 9007199254740992, 9007199254740994, 9.2233720368547758e18, -9.2233720368547758e18, 1.8446744073709552e19, 100, 1000000, 0.000001, 0.0000001, 5e-324, 16777216, 16777217, 1.7976931348623157e308, 0.30000000000000004}
	return fs
}

func boundaryF32() []float32 {
	return []float32{0, 0.5, -0.5, 1, -1, 0.1, 3.4028235e38, -3.4028235e38, 1e-45, 16777216, 1.5, 100, 1.1754944e-38, 0.33333334}
}

func bytesOfLen(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + n)
	}
	return b
}

func strOfLen(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte("abcdefghijklmnopqrstuvwxyz"[(i+n)%26])
	}
	return b.String()
}

func arrOfLen(n int) *M {
	m := &M{K: KArr}
	for i := 0; i < n; i++ {
		m.Vals = append(m.Vals, mInt(int64(i%300-20)))
	}
	return m
}

func objOfLen(n int) *M {
	m := &M{K: KObj}
	for i := 0; i < n; i++ {
		m.Keys = append(m.Keys, "k"+itoa(i))
		m.Vals = append(m.Vals, mInt(int64(i%300-20)))
	}
	return m
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	neg := i < 0
	if neg {
		i = -i
	}
	var b [20]byte
	p := len(b)
	for i > 0 {
		p--
		b[p] = byte('0' + i%10)
		i /= 10
	}
	if neg {
		p--
		b[p] = '-'
	}
	return string(b[p:])
}

func boundaryTimes() []time.Time {
	u := time.UTC
	var out []time.Time
	for _, y := range []int{1900, 1901, 1969, 1970, 1971, 1999, 2000, 2020, 2024, 2038, 2100, 2106, 2189} {
		for _, md := range [][2]int{{1, 1}, {2, 28}, {3, 1}, {12, 31}} {
			for _, hm := range [][4]int{{0, 0, 0, 0}, {12, 0, 0, 0}, {23, 59, 59, 0}, {6, 30, 15, 250000000}, {0, 0, 1, 999000000}} {
				out = append(out, time.Date(y, time.Month(md[0]), md[1], hm[0], hm[1], hm[2], hm[3], u))
			}
		}
	}
	return out
}

// runeSweep enumerates every Unicode scalar value, step at a time.
func runeSweep(step int, f func(lo rune, rs []rune)) {
	for lo := rune(0); lo <= 0x10ffff; lo += rune(step) {
		var rs []rune
		for r := lo; r < lo+rune(step) && r <= 0x10ffff; r++ {
			if r < 0xd800 || r > 0xdfff {
				rs = append(rs, r)
			}
		}
		if len(rs) > 0 {
			f(lo, rs)
		}
	}
}

// runeTree holds every rune as a string, as text between letters and (some of them in turn) as a key.
func runeTree(rs []rune) *M {
	a, o := mArr(), mObj()
	for i, r := range rs {
		a.Vals = append(a.Vals, mStr(string(r)))
		o.Keys = append(o.Keys, "k"+string(r))
		o.Vals = append(o.Vals, mStr("x"+string(r)+"y"))
		if len(o.Keys) == 32 || i == len(rs)-1 {
			a.Vals = append(a.Vals, o)
			o = mObj()
		}
	}
	return a
}

// offsetTree holds texts in which something special stands at the given offset, with tails of several lengths.
func offsetTree(p int) *M {
	a := mArr()
	s := strOfLen(p)
	for _, x := range []string{"\n", "\"", "\\", "é", "中", "😀", "\x01", "\u2028", "\\\"", "\"\n", "éé"} {
		for _, tail := range []string{"", "z", "abcdefg"} {
			a.Vals = append(a.Vals, mStr(s+x+tail))
		}
		a.Vals = append(a.Vals, mObj(s+x, mInt(1)))
	}
	return a
}

// decimals lists mantissas with the point in every place, and exponents around the ends of the range.
func decimals(limit int) []string {
	var out []string
	for m := 0; m < limit; m++ {
		s := itoa(m)
		for len(s) < 4 {
			s = "0" + s
		}
		for p := 1; p < len(s); p++ {
			h := s[:p]
			for len(h) > 1 && h[0] == '0' {
				h = h[1:]
			}
			out = append(out, h+"."+s[p:])
		}
	}
	return out
}

// longNumbers: digit strings of 1..25 digits with the point in every place, and every exponent.
func longNumbers() []string {
	var out []string
	for _, d := range []string{"1234567890123456789012345", "9999999999999999999999999", "1000000000000000000000001", "9007199254740993000000000"} {
		for n := 1; n <= len(d); n++ {
			out = append(out, d[:n], "-"+d[:n])
			for p := 1; p < n; p++ {
				out = append(out, d[:p]+"."+d[p:n])
			}
			out = append(out, "0."+d[:n], "-0.000"+d[:n])
		}
	}
	for e := -330; e <= 308; e++ {
		for _, m := range []string{"1", "-1.7", "4.9", "1.234567890123456"} {
			if e == 308 && m[0] == '4' { // beyond the range of a double
				continue
			}
			out = append(out, m+"e"+itoa(e))
		}
	}
	return out
}
