package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"time"

	"github.com/suiyunonghen/DxCommonLib"
	d "github.com/suiyunonghen/dxsvalue"
)

// C23: times survive storage and every format.

func init() {
	register("C23", runC23,
		"instants (every calendar day of 1900-2189 at boundary times of day, every second of boundary days, every millisecond of boundary seconds, boundary instants given in other zones) are stored through every setter, read through every accessor, and carried through MessagePack, BSON and both JSON spellings by every encoder and decoder; hand-written timestamp encodings of all three MessagePack forms and BSON date-times are decoded; each result is compared with time.Time arithmetic",
		"the process runs in UTC")
}

const (
	tolStore = time.Millisecond + 10*time.Microsecond   // the store keeps a double of days, reads are truncated to the millisecond
	tolBin   = 2*time.Millisecond + 10*time.Microsecond // one truncation on either side
	tolSec   = time.Second + 2*time.Millisecond         // text forms are truncated to the second
)

func absD(x time.Duration) time.Duration {
	if x < 0 {
		return -x
	}
	return x
}

// fromDelphi is the reference reading of a day number.
func fromDelphi(f float64) time.Time {
	day := math.Floor(f)
	return delphi0.Add(time.Duration(day) * 24 * time.Hour).Add(time.Duration((f - day) * 86400e9))
}

type timeStore struct {
	name string
	f    func(v time.Time) (root *d.DxValue, path []string) // the time is at path of root
}

func timeStores() []timeStore {
	p := func(s ...string) []string { return s }
	obj := func(name string, f func(o *d.DxValue, tm time.Time)) timeStore {
		return timeStore{name, func(tm time.Time) (*d.DxValue, []string) {
			o := d.NewObject(false)
			f(o, tm)
			return o, p("t")
		}}
	}
	arr := func(name string, f func(o *d.DxValue, tm time.Time)) timeStore {
		return timeStore{name, func(tm time.Time) (*d.DxValue, []string) {
			o := d.NewArray(true)
			f(o, tm)
			return o, p("0")
		}}
	}
	root := func(name string, mk func() *d.DxValue, f func(v *d.DxValue, tm time.Time)) timeStore {
		return timeStore{name, func(tm time.Time) (*d.DxValue, []string) {
			v := mk()
			f(v, tm)
			return v, nil
		}}
	}
	fresh := func(k d.ValueType) func() *d.DxValue { return func() *d.DxValue { return d.NewValue(k) } }
	set := func(v *d.DxValue, tm time.Time) { v.SetTime(tm) }
	return []timeStore{
		root("SetTime", fresh(d.VT_DateTime), set),
		obj("SetKeyTime", func(o *d.DxValue, tm time.Time) { o.SetKeyTime("t", tm) }),
		arr("SetIndexTime", func(o *d.DxValue, tm time.Time) { o.SetIndexTime(0, tm) }),
		root("SetTime on int", func() *d.DxValue { v := d.NewValue(d.VT_Int); v.SetInt(-1); return v }, set),
		root("SetTime on string", func() *d.DxValue { v := d.NewValue(d.VT_String); v.SetString("x"); return v }, set),
		root("SetTime on object", func() *d.DxValue { v := d.NewObject(false); v.SetKeyInt("k", 1); return v }, set),
		root("SetTime on binary", func() *d.DxValue { v := d.NewValue(d.VT_Binary); v.SetBinary([]byte{1, 2}, true); return v }, set),
		root("SetTime on time", func() *d.DxValue { v := d.NewValue(d.VT_DateTime); v.SetTime(delphi0.Add(1e15)); return v }, set),
		root("SetTime cached", func() *d.DxValue { return d.NewCacheValue(d.VT_DateTime) }, set),
		root("SetDelphiTime", fresh(d.VT_DateTime), func(v *d.DxValue, tm time.Time) { v.SetDelphiTime(delphi(toDelphi(tm))) }),
		root("SetDelphiTime on null", fresh(d.VT_String), func(v *d.DxValue, tm time.Time) { v.SetDelphiTime(delphi(toDelphi(tm))) }),
		root("SetValue", fresh(d.VT_Object), func(v *d.DxValue, tm time.Time) { v.SetValue(tm) }),
		root("SetValue(ptr)", fresh(d.VT_Int), func(v *d.DxValue, tm time.Time) { v.SetValue(&tm) }),
		obj("SetKeyvalue", func(o *d.DxValue, tm time.Time) { o.SetKeyvalue("t", tm, nil) }),
		obj("SetKeyvalue(ptr)", func(o *d.DxValue, tm time.Time) { o.SetKeyInt("t", 5); o.SetKeyvalue("t", &tm, nil) }),
		arr("SetIndexvalue", func(o *d.DxValue, tm time.Time) { o.SetIndexvalue(0, tm, nil) }),
		arr("SetIndexvalue(ptr)", func(o *d.DxValue, tm time.Time) { o.SetIndexString(0, "x"); o.SetIndexvalue(0, &tm, nil) }),
		obj("SetValue(map)", func(o *d.DxValue, tm time.Time) { o.SetValue(map[string]interface{}{"t": tm}) }),
		obj("SetValue(struct)", func(o *d.DxValue, tm time.Time) {
			o.SetValue(struct{ T time.Time }{tm})
			o.SetKeyValue("t", o.ValueByName("T").Clone(false))
		}),
		arr("SetValue(slice)", func(o *d.DxValue, tm time.Time) { o.SetValue([]time.Time{tm}) }),
		arr("SetValue(generic slice)", func(o *d.DxValue, tm time.Time) { o.SetValue([]interface{}{&tm}) }),
		root("NewValueFrom", nil, nil),
		obj("ForcePath", func(o *d.DxValue, tm time.Time) { o.ForcePath(d.VT_DateTime, "t").SetTime(tm) }),
		root("CopyFrom", fresh(d.VT_String), func(v *d.DxValue, tm time.Time) {
			s := d.NewValue(d.VT_DateTime)
			s.SetTime(tm)
			v.CopyFrom(s, nil)
		}),
		obj("AddFrom", func(o *d.DxValue, tm time.Time) { s := d.NewObject(false); s.SetKeyTime("t", tm); o.AddFrom(s, nil) }),
		obj("MergeWith", func(o *d.DxValue, tm time.Time) {
			s := d.NewObject(false)
			s.SetKeyTime("t", tm)
			o.MergeWith(s, nil)
		}),
	}
}

func timeNear(t *T, what string, want, got time.Time, tol time.Duration) {
	if absD(want.Sub(got)) > tol {
		t.Failf("%s: %s became %s (off by %v)", what, want.UTC().Format(time.RFC3339Nano), got.UTC().Format(time.RFC3339Nano), got.Sub(want))
	}
}

// timeReads compares every accessor for the time at path of root.
func timeReads(t *T, what string, root *d.DxValue, path []string, tm time.Time, tol time.Duration, kind bool) {
	n := root.ValueByPath(path...)
	if n == nil {
		t.Failf("%s: nothing at %v", what, path)
	}
	if kind && n.DataType != d.VT_DateTime {
		t.Failf("%s: kind %d", what, n.DataType)
	}
	timeNear(t, what+" GoTime", tm, n.GoTime(), tol)
	timeNear(t, what+" DateTime", tm, fromDelphi(float64(n.DateTime())), tol)
	if kind {
		timeNear(t, what+" Double", tm, fromDelphi(n.Double()), tol)
		var g time.Time
		n.ToStdValue(&g, true)
		timeNear(t, what+" ToStdValue", tm, g, tol)
		if x, err := time.Parse("2006-01-02 15:04:05", n.String()); err != nil {
			t.Failf("%s: String() = %q", what, n.String())
		} else {
			timeNear(t, what+" String", tm, x, tol+time.Second)
		}
	}
	def := time.Unix(7, 0)
	timeNear(t, what+" GoTimeByPath", tm, root.GoTimeByPath(def, path...), tol)
	timeNear(t, what+" DateTimeByPath", tm, fromDelphi(float64(root.DateTimeByPath(3, path...))), tol)
	if len(path) == 1 {
		timeNear(t, what+" TimeByName", tm, root.TimeByName(path[0], def), tol)
		timeNear(t, what+" AsDateTime", tm, fromDelphi(float64(root.AsDateTime(path[0], DxCommonLib.TDateTime(3)))), tol)
		if root.DataType == d.VT_Object {
			var mp map[string]interface{}
			mp = map[string]interface{}{}
			root.ToStdValue(&mp, true)
			if g, ok := mp[path[0]].(time.Time); kind && !ok {
				t.Failf("%s: ToStdValue(map) gives %T", what, mp[path[0]])
			} else if kind {
				timeNear(t, what+" ToStdValue(map)", tm, g, tol)
			}
		}
	}
	t.Op()
}

// carry takes the value through every format.
func carry(t *T, root *d.DxValue, path []string, tm time.Time, lite bool) {
	lim := func(n int) int {
		if lite {
			return 1
		}
		return n
	}
	for _, e := range mpEncs[:lim(2)] {
		b := e.f(root)
		ref, err := refMP(b)
		if err != nil {
			t.Failf("%s: %v (%x)", e.name, err, b)
		}
		for range path {
			ref = ref.Vals[0]
		}
		if ref.K != KTime {
			t.Failf("%s: a reader sees %v (%x)", e.name, ref, b)
		}
		timeNear(t, e.name, tm, ref.T, tolStore)
		for _, dec := range mpDecs[:lim(len(mpDecs))] {
			v, err := dec.f(clone(b))
			if err != nil {
				t.Failf("%s rejects %x: %v", dec.name, b, err)
			}
			timeReads(t, e.name+" -> "+dec.name, v, path, tm, tolBin, true)
		}
	}
	if root.DataType == d.VT_Object {
		for _, e := range bsonEncs[:lim(2)] {
			b := e.f(root)
			ref, err := refBSON(b)
			if err != nil {
				t.Failf("%s: %v (%x)", e.name, err, b)
			}
			timeNear(t, e.name, tm, ref.Vals[0].T, tolStore)
			for _, dec := range bsonDecs[:lim(len(bsonDecs))] {
				v, err := dec.f(clone(b))
				if err != nil {
					t.Failf("%s rejects %x: %v", dec.name, b, err)
				}
				timeReads(t, e.name+" -> "+dec.name, v, path, tm, tolBin, true)
			}
		}
	}
	for _, form := range []bool{false, true} {
		if form && lite {
			break
		}
		for _, esc := range []bool{true, false} {
			for st := d.JSE_NoEscape; st <= d.JSE_OnlyAnsiChar; st++ {
				if lite && st != d.JSE_AllEscape {
					continue
				}
				b := root.ToJson(form, st, esc, nil)
				name := fmt.Sprintf("ToJson(%v,%v,dates=%v)", form, st, esc)
				for _, dec := range jsonDecs[:lim(len(jsonDecs))] {
					v, err := dec.f(clone(b))
					if err != nil {
						t.Failf("%s rejects %s: %v", dec.name, b, err)
					}
					timeReads(t, name+" "+string(b)+" -> "+dec.name, v, path, tm, tolSec, esc)
				}
			}
		}
	}
	t.Trace()
}

func runC23(c *Ctx) {
	stores := timeStores()
	for i := range stores {
		if stores[i].name == "NewValueFrom" {
			stores[i].f = func(tm time.Time) (*d.DxValue, []string) { return d.NewValueFrom(tm, false), nil }
		}
	}
	u := time.UTC
	one := func(t *T, tm time.Time, s timeStore, lite bool) {
		root, path := s.f(tm)
		timeReads(t, s.name, root, path, tm, tolStore, true)
		if !lite {
			for _, cached := range []bool{false, true} {
				timeReads(t, s.name+", cloned", root.Clone(cached), path, tm, tolStore, true)
			}
		}
		carry(t, root, path, tm, lite)
		timeReads(t, s.name+" after encoding", root, path, tm, tolStore, true)
		t.State(strconv.FormatInt(tm.UnixNano()/1e6, 10))
	}
	// every calendar day
	first, last := time.Date(1900, 1, 1, 0, 0, 0, 0, u), time.Date(2189, 12, 31, 0, 0, 0, 0, u)
	tods := []time.Duration{0, time.Millisecond, 12 * time.Hour, 24*time.Hour - time.Millisecond}
	if !c.quick {
		tods = append(tods, time.Second, 999*time.Millisecond, 12*time.Hour-time.Millisecond, 24*time.Hour-time.Second, 6*time.Hour+1234567*time.Nanosecond, 18*time.Hour+30*time.Minute)
	}
	c.Bound("days", fmt.Sprintf("every day from %s to %s at %d times of day, stored through SetTime, SetKeyTime and SetIndexTime in turn", first.Format("2006-01-02"), last.Format("2006-01-02"), len(tods)))
	k := 0
	for day := first; !day.After(last); day = day.AddDate(0, 0, 1) {
		day := day
		k++
		kk := k
		c.Case(func() string { return "day " + day.Format("2006-01-02") }, func(t *T) {
			for i, o := range tods {
				if c.quick {
					one(t, day.Add(o), stores[(kk+i)%3], true)
					continue
				}
				for _, s := range stores[:3] {
					one(t, day.Add(o), s, true)
				}
			}
		})
	}
	// every second of boundary days, every millisecond of boundary seconds
	days := []time.Time{first, time.Date(1970, 1, 1, 0, 0, 0, 0, u), time.Date(2000, 2, 29, 0, 0, 0, 0, u), last}
	if !c.quick {
		days = append(days, time.Date(1969, 12, 31, 0, 0, 0, 0, u), time.Date(2106, 2, 7, 0, 0, 0, 0, u), time.Date(2038, 1, 19, 0, 0, 0, 0, u), time.Date(1999, 12, 31, 0, 0, 0, 0, u))
	}
	c.Bound("seconds", fmt.Sprintf("every second of %d days, every millisecond of %d seconds", len(days), 2*len(days)))
	for _, day := range days {
		day := day
		for m := 0; m < 24*60; m++ {
			m := m
			c.Case(func() string { return fmt.Sprintf("minute %d of %s", m, day.Format("2006-01-02")) }, func(t *T) {
				for s := 0; s < 60; s++ {
					one(t, day.Add(time.Duration(m*60+s)*time.Second), stores[1], true)
				}
			})
		}
		for _, sec := range []int{0, 86399} {
			sec := sec
			for ms := 0; ms < 1000; ms += 20 {
				ms := ms
				c.Case(func() string { return fmt.Sprintf("second %d of %s from %d ms", sec, day.Format("2006-01-02"), ms) }, func(t *T) {
					for i := 0; i < 20; i++ {
						for _, s := range stores[:3] {
							one(t, day.Add(time.Duration(sec)*time.Second+time.Duration(ms+i)*time.Millisecond), s, true)
						}
					}
				})
			}
		}
	}
	// every way of storing, boundary instants, zones
	zones := []*time.Location{u}
	for _, h := range []int{-43200, -18000, -12600, 3600, 19800, 28800, 50400} {
		zones = append(zones, time.FixedZone(fmt.Sprintf("Z%d", h), h))
	}
	inst := boundaryTimes()
	// the borders of the MessagePack forms and of the JSON literal's digit counts
	for _, s := range []int64{-1, 0, 1, 999999, 1000000, 9999999, 86400*11 + 12345, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 6934000000, 999999999, 1000000000, 9999999, -86400 * 365} {
		inst = append(inst, time.Unix(s, 0).UTC(), time.Unix(s, 999999999).UTC(), time.Unix(s, 1).UTC(), time.Unix(s, 500e6).UTC())
	}
	c.Bound("stores", fmt.Sprintf("%d boundary instants in %d zones through %d ways of storing, each carried by every encoder and decoder", len(inst), len(zones), len(stores)))
	for _, s := range stores {
		s := s
		for _, z := range zones {
			z := z
			for i := 0; i < len(inst); i += 12 {
				i := i
				c.Case(func() string { return s.name + " in zone " + z.String() + " from " + inst[i].String() }, func(t *T) {
					for j := i; j < i+12 && j < len(inst); j++ {
						if y := inst[j].Year(); y < 1900 || y > 2189 {
							continue
						}
						one(t, inst[j].In(z), s, false)
					}
				})
			}
		}
	}
	// encodings written by others
	c.Bound("foreign", "the three MessagePack timestamp forms and BSON date-times over the boundary instants, at root, in objects and arrays")
	wrapMP := []struct {
		pre  string
		path []string
	}{{"", nil}, {"\x81\xa1t", []string{"t"}}, {"\x91", []string{"0"}}, {"\xde\x00\x01\xd9\x01t\x92", []string{"t", "0"}}}
	for i := range inst {
		tm := inst[i]
		if y := tm.Year(); y < 1900 || y > 2189 {
			continue
		}
		c.Case(func() string { return "foreign " + tm.String() }, func(t *T) {
			sec, ns := tm.Unix(), uint32(tm.Nanosecond())
			var forms [][]byte
			if sec >= 0 && sec < 1<<32 && ns == 0 {
				forms = append(forms, binary.BigEndian.AppendUint32([]byte{0xd6, 0xff}, uint32(sec)))
			}
			if sec >= 0 && sec < 1<<34 {
				forms = append(forms, binary.BigEndian.AppendUint64([]byte{0xd7, 0xff}, uint64(ns)<<34|uint64(sec)))
			}
			forms = append(forms, binary.BigEndian.AppendUint64(binary.BigEndian.AppendUint32([]byte{0xc7, 12, 0xff}, ns), uint64(sec)))
			for _, f := range forms {
				for _, w := range wrapMP {
					b := append([]byte(w.pre), f...)
					if len(w.path) == 2 {
						b = append(b, 0x05)
					}
					for _, dec := range mpDecs {
						v, err := dec.f(clone(b))
						if err != nil {
							t.Failf("%s rejects %x: %v", dec.name, b, err)
						}
						timeReads(t, fmt.Sprintf("%s of %x", dec.name, b), v, w.path, tm, tolStore, true)
						t.Trace()
					}
				}
			}
			ms := tm.UnixNano() / 1e6
			if tm.UnixNano() < 0 && tm.UnixNano()%1e6 != 0 {
				ms--
			}
			el := binary.LittleEndian.AppendUint64([]byte("\x09t\x00"), uint64(ms))
			doc := append(binary.LittleEndian.AppendUint32(nil, uint32(len(el)+5)), append(el, 0)...)
			for _, dec := range bsonDecs {
				v, err := dec.f(clone(doc))
				if err != nil {
					t.Failf("%s rejects %x: %v", dec.name, doc, err)
				}
				timeReads(t, fmt.Sprintf("%s of %x", dec.name, doc), v, []string{"t"}, tm, tolBin, true)
				t.Trace()
			}
			// date text in the accepted layouts and the literal
			for _, l := range []string{"2006-01-02 15:04:05", "2006/01/02 15:04:05", "2006-01-02T15:04:05Z"} {
				for _, dec := range jsonDecs {
					b := []byte(`{"t":"` + tm.Format(l) + `"}`)
					v, err := dec.f(b)
					if err != nil {
						t.Failf("%s rejects %s: %v", dec.name, b, err)
					}
					timeReads(t, dec.name+" of "+string(b), v, []string{"t"}, tm.Truncate(time.Second), tolStore, false)
					t.Trace()
				}
			}
			for _, dec := range jsonDecs {
				b := []byte(`["/Date(` + strconv.FormatInt(ms, 10) + `)/"]`)
				v, err := dec.f(b)
				if err != nil {
					t.Failf("%s rejects %s: %v", dec.name, b, err)
				}
				timeReads(t, dec.name+" of "+string(b), v, []string{"0"}, tm, tolBin, true)
				t.Trace()
			}
		})
	}
	// text that is no date
	for _, s := range []string{"", "x", "2021-05-06", "12:00:00", "2021-13-01 00:00:00", "2021-02-30 00:00:00", "Date", "/Date()/", "/Date(x)/", "Date(12", "/Date(-)/", "2021-05-06T07:08:09", "20210506"} {
		s := s
		c.Case(func() string { return "text " + strconv.Quote(s) }, func(t *T) {
			for _, dec := range jsonDecs {
				v, err := dec.f([]byte(`{"t":` + strconv.Quote(s) + `}`))
				if err != nil {
					t.Failf("%s rejects %q: %v", dec.name, s, err)
				}
				if n := v.ValueByName("t"); n.DataType == d.VT_DateTime || n.String() != s || !n.GoTime().IsZero() || n.DateTime() != -1 {
					t.Failf("%s: %q reads as kind %d %q %v %v", dec.name, s, n.DataType, n.String(), n.GoTime(), n.DateTime())
				}
				def := time.Unix(99, 0)
				if !v.TimeByName("absent", def).Equal(def) || !v.GoTimeByPath(def, "t", "x").Equal(def) || v.DateTimeByPath(8, "z") != 8 {
					t.Failf("%s: default not returned", dec.name)
				}
				t.Trace()
			}
		})
	}
}
