package main

import (
	"fmt"
	"strconv"
	"time"
)

// indexNames gives texts that are, resemble, or are no positions of an array; the position of each, or -1 for none.
func indexNames() ([]string, []int) {
	var names []string
	var pos []int
	add := func(n string) {
		digits := n != ""
		for i := 0; i < len(n); i++ {
			digits = digits && n[i] >= '0' && n[i] <= '9'
		}
		switch {
		case digits && len(n) > 1 && n[0] == '0':
			return // leading zeros: not decided
		case n == "-0" || len(n) > 1 && n[0] == '-' && n[1] == '0' || len(n) > 0 && n[0] == '+':
			return
		}
		names = append(names, n)
		if digits {
			if i, err := strconv.Atoi(n); err == nil {
				pos = append(pos, i)
				return
			}
		}
		pos = append(pos, -1)
	}
	alpha := []string{"0", "1", "2", "9", "-", ".", ":", "/", " ", "A", "a", "e", "x", "_", "\n", "\x00", "\xff", "é", "１", ";", "?", "P"}
	add("")
	for _, a := range alpha {
		add(a)
		for _, b := range alpha {
			add(a + b)
			for _, e := range alpha[:10] {
				add(a + b + e)
			}
		}
	}
	for i := 0; i < 130; i++ {
		add(itoa(i))
		for _, n := range []string{"", "1", "2"} { // numbers that wrap to small ones
			add("-" + n + itoa(i))
		}
		for _, base := range []uint64{1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63} {
			add(strconv.FormatUint(base+uint64(i), 10))
		}
		add("184467440737095516" + itoa(16+i))
		add("1844674407370955161" + itoa(600+i))
		add("340282366920938463463374607431768211" + itoa(456+i))
	}
	return names, pos
}

// c15names: every name of the family applied to arrays of several sizes, at the top and inside, alone and followed by another step.
func c15names(c *Ctx) {
	names, pos := indexNames()
	sizes := []int{0, 1, 2, 3, 9, 10, 11, 13, 33, 64, 101, 128}
	c.Bound("names_on_arrays", fmt.Sprintf("%d names (all of up to 3 characters over an alphabet, numbers up to and beyond the word size) on arrays of %v elements", len(names), sizes))
	for _, n := range sizes {
		for pi, p := range producers()[:3] {
			n, p := n, p
			_ = pi
			wcase(c, func() string { return fmt.Sprintf("names on an array of %d elements (%s)", n, p.name) }, func(t *T) {
				m := entriesOf(n, func(i int) *M { return mObj("a", mInt(int64(i))) })
				v := p.f(m)
				w := p.f(mObj("l", m, "e", mInt(5)))
				l := w.ValueByName("l")
				for k, name := range names {
					t.Op()
					at := v.ValueByIndex(pos[k])
					if pos[k] >= 0 && pos[k] < n && at == nil {
						t.Failf("no element at %d of %d", pos[k], n)
					}
					in := l.ValueByIndex(pos[k])
					if v.ValueByName(name) != at || v.ValueByPath(name) != at || v.Find(name) != at {
						t.Failf("name %q on an array of %d: not the element at %d", name, n, pos[k])
					}
					if w.ValueByPath("l", name) != in || l.ValueByName(name) != in {
						t.Failf("name %q on the array of %d inside: not the element at %d", name, n, pos[k])
					}
					wi, ws := int64(-77), "def"
					if at != nil {
						wi, ws = int64(pos[k]), itoa(pos[k])
					}
					if g := v.IntByPath(-77, name, "a"); g != wi {
						t.Failf("path %q/a gives %d, want %d", name, g, wi)
					}
					if g := w.StringByPath("def", "l", name, "a"); g != ws {
						t.Failf("path l/%q/a gives %q, want %q", name, g, ws)
					}
					if at == nil {
						if v.AsInt64(name, 9) != 9 || v.AsDouble(name, 1.5) != 1.5 || !v.AsBool(name, true) || v.AsDuration(time.Second, name) != time.Second || v.AsString(name, "def") != "def" {
							t.Failf("name %q on an array of %d: the defaults are not given", name, n)
						}
					}
				}
				if s := full(v, m, p.opt); s != "" {
					t.Failf("look-ups change the value: %s", s)
				}
				t.State(fmt.Sprint("names", n))
			})
		}
	}
}
