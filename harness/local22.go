package main

import (
	"fmt"
	"reflect"

	d "github.com/suiyunonghen/dxsvalue"
)

// localTypes gives pairs of struct types that are different but print alike: each is declared in a function of its own.
func localTypes() []reflect.Type {
	var out []reflect.Type
	add := func(x interface{}) { out = append(out, reflect.TypeOf(x)) }
	func() {
		type rec struct{ A, B int }
		add(rec{})
	}()
	func() {
		type rec struct{ B, A int }
		add(rec{})
	}()
	func() {
		type rec struct {
			A string
			B int
		}
		add(rec{})
	}()
	func() {
		type rec struct {
			A []int
			B *string
		}
		add(rec{})
	}()
	func() {
		type rec struct{ A, B, C int64 }
		add(rec{})
	}()
	func() {
		type rec struct{ C, B, A int64 }
		add(rec{})
	}()
	func() {
		type rec struct{ B uint8 }
		add(rec{})
	}()
	func() {
		type rec struct{ X struct{ A, B int } }
		add(rec{})
	}()
	func() {
		type rec struct{ X struct{ B, A int } }
		add(rec{})
	}()
	func() {
		type sub struct{ A, B int }
		type rec struct{ X sub }
		add(rec{})
	}()
	func() {
		type sub struct{ B, A int }
		type rec struct{ X sub }
		add(rec{})
	}()
	func() {
		type rec map[string]int
		add(rec{})
	}()
	func() {
		type rec []int
		add(rec{})
	}()
	return out
}

// fillGo puts numbers that tell every place of a Go value.
func fillGo(v reflect.Value, n *int64) {
	*n++
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fillGo(v.Field(i), n)
		}
	case reflect.Int, reflect.Int64:
		v.SetInt(*n)
	case reflect.Uint8:
		v.SetUint(uint64(*n))
	case reflect.String:
		v.SetString(fmt.Sprint("s", *n))
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		fillGo(v.Elem(), n)
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 2, 2))
		fillGo(v.Index(0), n)
		fillGo(v.Index(1), n)
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		v.SetMapIndex(reflect.ValueOf("B"), reflect.ValueOf(int(*n)))
		v.SetMapIndex(reflect.ValueOf("A"), reflect.ValueOf(int(*n+1)))
	}
}

func modelGo(v reflect.Value) *M {
	switch v.Kind() {
	case reflect.Struct:
		m := mObj()
		for i := 0; i < v.NumField(); i++ {
			m.Keys, m.Vals = append(m.Keys, v.Type().Field(i).Name), append(m.Vals, modelGo(v.Field(i)))
		}
		return m
	case reflect.Int, reflect.Int64:
		return mInt(v.Int())
	case reflect.Uint8:
		return mInt(int64(v.Uint()))
	case reflect.String:
		return mStr(v.String())
	case reflect.Ptr:
		return modelGo(v.Elem())
	case reflect.Slice:
		m := mArr()
		for i := 0; i < v.Len(); i++ {
			m.Vals = append(m.Vals, modelGo(v.Index(i)))
		}
		return m
	}
	m := mObj()
	for _, k := range []string{"A", "B"} {
		m.Keys, m.Vals = append(m.Keys, k), append(m.Vals, modelGo(v.MapIndex(reflect.ValueOf(k))))
	}
	return m
}

// c22local: every ordered pair of types that print alike, alone and inside slices, pointers, maps and other structs.
func c22local(c *Ctx) {
	ts := localTypes()
	c.Bound("types_printed_alike", fmt.Sprintf("all ordered pairs of %d types of one printed name, in 5 positions, in and out", len(ts)))
	wrap := []func(t reflect.Type) reflect.Type{
		func(t reflect.Type) reflect.Type { return t },
		reflect.SliceOf,
		reflect.PtrTo,
		func(t reflect.Type) reflect.Type { return reflect.SliceOf(reflect.PtrTo(t)) },
		func(t reflect.Type) reflect.Type {
			return reflect.StructOf([]reflect.StructField{{Name: "L", Type: t}, {Name: "R", Type: reflect.TypeOf(0)}})
		},
	}
	for i := range ts {
		for j := range ts {
			a, b := ts[i], ts[j]
			i, j := i, j
			wcase(c, func() string { return fmt.Sprintf("types %d and %d of the same printed name", i, j) }, func(t *T) {
				for wi, w := range wrap {
					for _, tp := range []reflect.Type{a, b, a} {
						x := reflect.New(w(tp))
						n := int64(0)
						fillGo(x.Elem(), &n)
						m := modelGo(x.Elem())
						opt := eqOpt{unord: tp.Kind() == reflect.Map}
						for k := 0; k < 4; k++ {
							if k == 1 && x.Elem().Kind() == reflect.Ptr {
								continue // pointers to pointers are outside
							}
							var v *d.DxValue
							switch k {
							case 0:
								v = d.NewValueFrom(x.Elem().Interface(), false)
							case 1:
								v = d.NewValueFrom(x.Interface(), true)
							case 2:
								o := d.NewObject(false)
								o.SetKeyvalue("k", x.Elem().Interface(), nil)
								v = o.ValueByName("k")
							default:
								o := d.NewArray(true)
								o.SetIndexvalue(0, x.Elem().Interface(), o.ValueCache())
								v = o.ValueByIndex(0)
							}
							t.Op()
							if s := diff(m, observe(v), opt); s != "" {
								t.Failf("type %d (%v) in position %d, entry %d: %s", i, tp, wi, k, s)
							}
						}
						for _, ic := range []bool{false, true} {
							y := reflect.New(w(tp))
							if !build(m, false).ToStdValue(y.Interface(), ic) {
								t.Failf("type %v in position %d: refused", tp, wi)
							}
							t.Op()
							if s := diff(m, modelGo(y.Elem()), eqOpt{}); s != "" {
								t.Failf("into %v in position %d (ignore case %v): %s", tp, wi, ic, s)
							}
						}
					}
				}
				t.State(fmt.Sprint("local", i, j))
			})
		}
	}
}
