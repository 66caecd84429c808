package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// Blobs. A codec may copy or scan a text, a name or a blob in pieces; what is then special is a length just past a
// whole number of pieces. One long scalar at a time, at every length around the powers of two and their multiples by
// three, at each of the places where a scalar can stand.

func blobSizes(min, max int) []int {
	set := map[int]bool{}
	for p := min; p <= max; p *= 2 {
		for _, base := range []int{p, p / 2 * 3} {
			for _, dlt := range []int{-33, -17, -16, -15, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33} {
				if n := base + dlt; n > 0 && n <= max+33 && (base == p || dlt >= -2 && dlt <= 9) {
					set[n] = true
				}
			}
		}
	}
	var out []int
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

func blobBytes(n int) []byte {
	b := make([]byte, n)
	x := uint32(n)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// blobText differs from itself shifted by any short distance.
func blobText(n int) string {
	b := blobBytes(n)
	for i := range b {
		b[i] = 'a' + b[i]%26
	}
	return string(b)
}

type blobKind struct {
	name string
	bin  bool
	mk   func(n int) *M
}

func blobKinds() []blobKind {
	at := func(n, p int, sp string) string {
		s := blobText(max(0, n-len(sp)))
		p = max(0, min(p, len(s)))
		return s[:p] + sp + s[p:]
	}
	ks := []blobKind{
		{"text", false, func(n int) *M { return mObj("a", mStr(blobText(n)), "b", mInt(7)) }},
		{"text at the root of an array", false, func(n int) *M { return mArr(mInt(7), mStr(blobText(n))) }},
		{"name", false, func(n int) *M { return mObj("a", mInt(1), blobText(n), mInt(7)) }},
		{"name of an object", false, func(n int) *M { return mObj(blobText(n), mObj("x", mStr("y"), blobText(n+1), mArr(mInt(1)))) }},
		{"binary", true, func(n int) *M { return mObj("a", mBin(blobBytes(n)), "b", mInt(7)) }},
		{"extension", true, func(n int) *M { return mObj("a", mExt(5, blobBytes(n)), "b", mInt(7)) }},
		{"extension, last", true, func(n int) *M { return mArr(mInt(1), mExt(0x83, blobBytes(n))) }},
	}
	for _, sp := range []string{"\n", "é", "😀", "\x01", "\""} {
		sp := sp
		ks = append(ks,
			blobKind{fmt.Sprintf("text ending in %q", sp), false, func(n int) *M { return mArr(mStr(at(n, n, sp)), mInt(7)) }},
			blobKind{fmt.Sprintf("text with %q eight before the end", sp), false, func(n int) *M { return mArr(mStr(at(n, n-8, sp)), mInt(7)) }},
			blobKind{fmt.Sprintf("text beginning with %q", sp), false, func(n int) *M { return mArr(mStr(at(n, 0, sp)), mInt(7)) }},
			blobKind{fmt.Sprintf("name ending in %q", sp), false, func(n int) *M { return mObj(at(n, n, sp), mStr("x"), "b", mInt(7)) }},
			blobKind{fmt.Sprintf("text of %q after one letter", sp), false, func(n int) *M {
				return mArr(mStr("a"+strings.Repeat(sp, n/len(sp))), mInt(7))
			}})
	}
	return ks
}

func overBlobs(c *Ctx, bins bool, quickMax int, f func(t *T, m *M)) {
	lim := quickMax
	if !c.quick {
		lim = 1 << 20
	}
	sizes := blobSizes(64, lim)
	n := 0
	for _, k := range blobKinds() {
		if k.bin && !bins {
			continue
		}
		for _, size := range sizes {
			k, size := k, size
			n++
			wcase(c, func() string { return fmt.Sprintf("%s, length %d", k.name, size) }, func(t *T) {
				f(t, k.mk(size))
				t.State(fmt.Sprint(k.name, size))
			})
		}
		if c.Stop() {
			return
		}
	}
	c.Bound("blobs", fmt.Sprintf("%d single scalars and names of %d lengths around the powers of two up to %d", n, len(sizes), lim))
}

func c01blobs(c *Ctx) { overBlobs(c, false, 8192, func(t *T, m *M) { jsonRoundTrip(t, m, true) }) }

func c02blobs(c *Ctx) {
	overBlobs(c, false, 16384, func(t *T, m *M) {
		decideJSON(t, string(refEncode(m)), jsonDecs, false)
		decideJSON(t, string(refEncodeEsc(m)), jsonDecs, false)
	})
}

func c03blobs(c *Ctx) { overBlobs(c, true, 131072, func(t *T, m *M) { mpRoundTrip(t, m, true) }) }

func c04blobs(c *Ctx) {
	overBlobs(c, true, 131072, func(t *T, m *M) {
		for width := 0; width < 3; width++ {
			e := &mpEnc{}
			if width > 0 {
				e.c = &chooser{always: width}
			}
			e.val(m)
			decideMP(t, m, e.out, mpDecs)
		}
	})
}

// bsonable: the extensions of MessagePack have no place of their own in BSON.
func bsonable(m *M) bool {
	if m.K == KExt || hasNulKey(m) {
		return false
	}
	for _, v := range m.Vals {
		if !bsonable(v) {
			return false
		}
	}
	return true
}

func asDoc(m *M) *M {
	if m.K == KObj {
		return m
	}
	return mObj("d", m, "e", mInt(3))
}

func c05blobs(c *Ctx) {
	overBlobs(c, true, 32768, func(t *T, m *M) {
		if bsonable(m) {
			bsonRoundTrip(t, asDoc(m), true)
		}
	})
}

func c06blobs(c *Ctx) {
	overBlobs(c, true, 131072, func(t *T, m *M) {
		if !bsonable(m) {
			return
		}
		m = asDoc(m)
		b := refBsonEncode(m)
		for _, dec := range bsonDecs {
			v, err := dec.f(clone(b))
			t.Op()
			if err != nil {
				t.Failf("%s: %v", dec.name, err)
			}
			if s := full(v, bsonExpect(m), typedEq); s != "" {
				t.Failf("%s: %s", dec.name, short(s))
			}
			t.Trace()
		}
	})
}

func c08blobs(c *Ctx) {
	l := &layout{indent: 2, compact: true, gap: 1, cgap: 1, eol: "\n", final: true}
	overBlobs(c, false, 8192, func(t *T, m *M) {
		if yamlable(m) {
			yamlDecide(t, m, l.render(yOf(m)), jsonEq, false)
		}
	})
}

// c10blobs: the buffer is overwritten right after decoding.
func c10blobs(c *Ctx) {
	overBlobs(c, true, 65536, func(t *T, m *M) {
		m = asDoc(m)
		for _, f := range []string{"json", "mp", "bson", "yaml"} {
			if f == "json" && !jsonable(m) || f == "yaml" && !yamlable(m) || f == "bson" && !bsonable(m) {
				continue
			}
			b := encodeFor(f, m)
			for di, dec := range formats[f].decs {
				if dec.share {
					continue
				}
				in := clone(b)
				v, err := dec.f(in)
				t.Op()
				if err != nil {
					t.Failf("%s: %v", dec.name, err)
				}
				overwrite(in, di%4)
				if s := full(v, m, eqOpt{numeric: true, anyBin: true, tol: 2 * time.Second}); s != "" {
					t.Failf("%s: overwriting the input changes the value: %s", dec.name, short(s))
				}
				t.Trace()
			}
		}
	})
}

// c13blobs: a copy holds all of it, and keeps it when the source is written over.
func c13blobs(c *Ctx) {
	overBlobs(c, true, 2048, func(t *T, m *M) {
		k := len(m.String())
		for _, p := range producers() {
			if !p.ok(m) {
				continue
			}
			for _, cp := range copiers() {
				if !cp.ok(m) || strings.HasPrefix(cp.name, "merge array") && m.K == KArr {
					continue
				}
				if k++; c.quick && k%7 != 0 { // the combinations take turns
					continue
				}
				r := cp.f(p.f(m))
				t.Op()
				if s := full(r, m, eqOpt{tol: p.opt.tol}); s != "" {
					t.Failf("%s of %s: %s", cp.name, p.name, short(s))
				}
				t.Trace()
			}
		}
	})
}

// c17blobs: two values that differ in one byte of a long scalar or name.
func c17blobs(c *Ctx) {
	flip := func(s string, i int) string {
		b := []byte(s)
		b[i] ^= 1
		return string(b)
	}
	overBlobs(c, true, 65536, func(t *T, m *M) {
		a := build(m, false)
		if !a.Equal(build(m, true)) || !a.Equal(a) {
			t.Failf("a value does not equal its copy")
		}
		// the long part
		var walk func(x *M, cp func(*M) *M)
		check := func(y *M) {
			t.Op()
			b := build(y, false)
			if a.Equal(b) || b.Equal(a) {
				t.Failf("values that differ in one byte of a long part are equal: %s", short(y.String()))
			}
		}
		walk = func(x *M, cp func(*M) *M) {
			switch x.K {
			case KStr:
				if len(x.S) > 60 {
					for _, i := range picks(len(x.S)) {
						if x.S[i] < 0x80 {
							check(cp(mStr(flip(x.S, i))))
						}
					}
				}
			case KBin:
				for _, i := range picks(len(x.B)) {
					check(cp(mBin([]byte(flip(string(x.B), i)))))
				}
			case KExt:
				for _, i := range picks(len(x.B)) {
					check(cp(mExt(x.Ext, []byte(flip(string(x.B), i)))))
				}
			case KObj, KArr:
				for j := range x.Vals {
					j := j
					walk(x.Vals[j], func(n *M) *M {
						y := *x
						y.Vals = append([]*M{}, x.Vals...)
						y.Vals[j] = n
						return cp(&y)
					})
					if x.K == KObj && len(x.Keys[j]) > 60 {
						for _, i := range picks(len(x.Keys[j])) {
							if x.Keys[j][i] < 0x80 {
								y := *x
								y.Keys = append([]string{}, x.Keys...)
								y.Keys[j] = flip(x.Keys[j], i)
								check(cp(&y))
							}
						}
					}
				}
			}
		}
		walk(m, func(n *M) *M { return n })
		t.Trace()
	})
}
