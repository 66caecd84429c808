package main

import (
	"fmt"

	d "github.com/suiyunonghen/dxsvalue"
	"github.com/suiyunonghen/dxsvalue/verifrt"
)

// c11fail: a failing use of the recycler, and then every short sequence of cached decodes and frees: all values alive
// at the same time keep their contents.
func c11fail(c *Ctx) {
	nested := mObj("a", mArr(mInt(1), mArr(mInt(2), mArr(mStr("x"), mObj("k", mInt(3)))), mObj("o", mArr(mInt(4)))), "z", mInt(5))
	lists := mArr(mInt(1), mArr(mArr(mInt(2), mInt(3)), mInt(4)), mObj("k", mArr(mInt(5))))
	type bad struct{ f, s string }
	var bads []bad
	for _, f := range []string{"json", "mp", "bson"} {
		for _, m := range []*M{nested, lists} {
			if f == "bson" && m.K != KObj {
				continue
			}
			b := string(encodeFor(f, m))
			step := 1
			if c.quick && len(b) > 60 {
				step = 2
			}
			for i := 1; i < len(b); i += step {
				if _, err := decodeBy(f, b[:i], false); err != nil {
					bads = append(bads, bad{f, b[:i]})
				}
			}
		}
	}
	for _, s := range []string{"a:\n  - 1\n  - 2\n b: 1\n", "- a\n- b\nc: d\n", "a: &x\n  b:\n    - 1\n c\n", "a:\n  b:\n    c: 1\n  - 1\n", "a: 1\nxx\n"} {
		if _, err := decodeBy("yaml", s, false); err != nil {
			bads = append(bads, bad{"yaml", s})
		}
	}
	good := []*M{mArr(mInt(5), mInt(6)), mObj("a", mArr(mInt(1), mInt(2), mStr("q"), mInt(4), mInt(5)), "b", mStr("text"))}
	// operations: decode either document (from alternating formats), free the oldest or the newest value
	const nops = 4
	depth := 5
	if !c.quick {
		depth = 6
	}
	c.Bound("after_failures", fmt.Sprintf("%d failing documents (cuts of nested ones in every format), decoded cached once or twice, decoded into a cached value that is freed, or into one that stays; then every sequence of %d operations out of %d", len(bads), depth, nops))
	var seqs [][]int
	var gen func(seq []int, live int)
	gen = func(seq []int, live int) {
		if len(seq) == depth {
			seqs = append(seqs, append([]int(nil), seq...))
			return
		}
		for o := 0; o < nops; o++ {
			l := live
			switch {
			case o < 2:
				l++
			case live == 0 || o == 3 && live == 1:
				continue
			default:
				l--
			}
			gen(append(seq, o), l)
		}
	}
	gen(nil, 0)
	for bi, b := range bads {
		for mode := 0; mode < 4; mode++ {
			bi, b, mode := bi, b, mode
			wcase(c, func() string {
				return fmt.Sprintf("%s %s fails (%s), then cached values", b.f, short(fmt.Sprintf("%q", b.s)), []string{"once", "twice", "loaded and freed", "loaded"}[mode])
			}, func(t *T) {
				for _, seq := range seqs {
					verifrt.ResetPools()
					var kept *d.DxValue
					switch mode {
					case 0, 1:
						for i := 0; i <= mode; i++ {
							if _, err := decodeBy(b.f, b.s, true); err == nil {
								t.Failf("the cached decode succeeds")
							}
						}
					default:
						kept, _ = decodeBy("json", "[1,[2]]", true)
						if err := loadBy(kept, b.f, b.s); err == nil {
							t.Failf("the load succeeds")
						}
						if mode == 2 {
							d.FreeValue(kept)
							kept = nil
						}
					}
					type one struct {
						v *d.DxValue
						m *M
					}
					var live []one
					for i, o := range seq {
						switch {
						case o < 2:
							f := []string{"mp", "json"}[(i+bi)%2]
							v, err := decodeBy(f, string(encodeFor(f, good[o])), true)
							if err != nil {
								t.Failf("a good document fails: %v", err)
							}
							live = append(live, one{v, good[o]})
						case o == 2:
							d.FreeValue(live[0].v)
							live = live[1:]
						default:
							d.FreeValue(live[len(live)-1].v)
							live = live[:len(live)-1]
						}
						t.Op()
						for j, l := range live {
							if s := diff(l.m, observe(l.v), eqOpt{}); s != "" {
								t.Failf("after operations %v the value %d of %d alive has changed: %s", seq[:i+1], j, len(live), s)
							}
						}
						if kept != nil && (kept.Count() != 0) {
							t.Failf("the value whose load failed is not empty any more: %v", observe(kept))
						}
					}
					t.Trace()
				}
				t.State(b.f + b.s)
			})
		}
		if c.Stop() {
			return
		}
	}
}
