package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"time"

	d "github.com/suiyunonghen/dxsvalue"
	"github.com/suiyunonghen/dxsvalue/verifrt"
)

// C12: goroutines working on separate values never disturb each other.

func init() {
	register("C12", runC12,
		"2 or 3 controlled threads run operation scripts on values of their own; a cooperative scheduler with a switch point before every library statement (and around every synchronisation operation) runs, for every combination of scripts and every initial fill of the recyclers, every schedule up to the preemption bound; each thread's log must equal its log when run alone. The same executions are repeated in a build with the happens-before detector, in which the scheduler's own hand-over creates no ordering, and no conflicting unordered access may be reported",
		"sequentially consistent interleavings at statement granularity", "package sync is replaced by scheduler-aware equivalents", "one value is never used by two threads")
	registry["C12"].nolimit = true
}

type script struct {
	name  string
	small bool
	f     func(id int, log *strings.Builder)
}

type c12reg struct{ X int }

type c12struct struct {
	A int
	B string
	R c12reg
	L []string
}

func c12scripts() []script {
	return []script{
		{"decode JSON cached, read, free", true, func(id int, log *strings.Builder) {
			v, err := d.NewValueFromJson([]byte(fmt.Sprintf(`{"a\n":%d,"b":"x\ty%d"}`, id, id)), true, false)
			log.WriteString(errTag(err))
			log.WriteString(observe(v).String())
			d.FreeValue(v)
		}},
		{"build cached, free, build again", true, func(id int, log *strings.Builder) {
			v := d.NewCacheValue(d.VT_Object)
			v.SetKeyInt("i", int64(100+id))
			v.SetKeyString("s", "t"+itoa(id))
			log.WriteString(observe(v).String())
			d.FreeValue(v)
			w := d.NewCacheValue(d.VT_Array)
			w.SetIndexInt(0, int64(id))
			log.WriteString(observe(w).String())
		}},
		{"decode YAML with anchors", true, func(id int, log *strings.Builder) {
			v, err := d.NewValueFromYaml([]byte(fmt.Sprintf("x: &a\n  k: %d\ny: *a\n", id)), true)
			log.WriteString(errTag(err))
			if err == nil {
				log.WriteString(observe(v).String())
				d.FreeValue(v)
			}
		}},
		{"YAML error then YAML load", true, func(id int, log *strings.Builder) {
			_, err := d.NewValueFromYaml([]byte("a: *nope\n- b\n"), false)
			log.WriteString(errTag(err))
			v := d.NewValue(d.VT_Object)
			err = v.LoadFromYaml([]byte(fmt.Sprintf("k: v%d\n", id)))
			log.WriteString(errTag(err) + observe(v).String())
		}},
		{"MsgPack cached round trip", true, func(id int, log *strings.Builder) {
			b := encodeFor("mp", mArr(mInt(int64(1000+id)), mStr("s"+itoa(id)), mExt(byte(id+1), []byte{byte(id)})))
			v, err := d.NewValueFromMsgPack(b, true, false)
			log.WriteString(errTag(err) + observe(v).String())
			log.WriteString(fmt.Sprintf("%x", v.ToMsgPack(nil)))
			d.FreeValue(v)
		}},
		{"BSON round trip", true, func(id int, log *strings.Builder) {
			b := refBsonEncode(mObj("k", mInt(int64(id)), "a", mArr(mStr("z"+itoa(id)))))
			v, err := d.NewValueFromBson(b, true, false)
			log.WriteString(errTag(err) + observe(v).String())
			log.WriteString(fmt.Sprintf("%x", v.ToBson(nil)))
			d.FreeValue(v)
		}},
		{"encode JSON in all styles", true, func(id int, log *strings.Builder) {
			v := d.NewObject(false)
			v.SetKeyString("é\n", "q\""+itoa(id))
			for _, st := range []d.JsonEscapeStyle{d.JSE_AllEscape, d.JSE_OnlyAnsiChar} {
				log.Write(d.Value2Json(v, st, true, nil))
				log.Write(d.Value2FormatJson(v, st, true, nil))
			}
			log.WriteString(v.String())
		}},
		{"clone and free", true, func(id int, log *strings.Builder) {
			v := d.NewCacheValue(d.VT_Array)
			v.SetIndexString(0, "e"+itoa(id))
			c := v.Clone(true)
			d.FreeValue(v)
			log.WriteString(observe(c).String())
			e := d.NewCacheValue(d.VT_Object)
			log.WriteString(fmt.Sprint(c.Equal(e), e.Count()))
			d.FreeValue(c)
		}},
		{"convert Go data", false, func(id int, log *strings.Builder) {
			d.RegisterTypeMapFunc(reflect.TypeOf(c12reg{}), func(fv reflect.Value, v *d.DxValue) {
				fv.Set(reflect.ValueOf(c12reg{int(v.Int()) * 2}))
			})
			v := d.NewValueFrom(map[string]interface{}{"k": c12struct{id, "b" + itoa(id), c12reg{1}, []string{"l"}}}, true)
			log.WriteString(observe(v).String())
			var s c12struct
			src := d.NewValue(d.VT_Object)
			src.SetKeyInt("A", int64(id))
			src.SetKeyInt("R", int64(id+3))
			src.ToStdValue(&s, false)
			log.WriteString(fmt.Sprint(s))
			d.FreeValue(v)
		}},
		{"constants", false, func(id int, log *strings.Builder) {
			v := d.NewObject(true)
			v.SetKeyBool("t", true)
			v.SetKeyValue("n", d.NewValue(d.VT_NULL))
			v.ValueByName("t").SetInt(int64(id))
			v.ForcePath(d.VT_Int, "n", "x").SetInt(int64(id))
			v.SetKeyBool("f", false)
			v.SetKeyInt("f", int64(id))
			log.WriteString(observe(v).String())
			log.Write(v.ToJson(false, d.JSE_AllEscape, false, nil))
			d.FreeValue(v)
		}},
		{"merge", false, func(id int, log *strings.Builder) {
			a := build(mObj("o", mObj("x", mInt(int64(id))), "l", mArr(mInt(1)), "s", mStr("p")), false)
			b := build(mObj("o", mObj("x", mInt(int64(id+5)), "y", mK(KTrue)), "l", mArr(mInt(2)), "s", mStr("q"+itoa(id))), true)
			a.MergeWith(b, func(p string, o, n *d.DxValue) d.MergeOp { log.WriteString(p + ";"); return d.MO_Normal })
			log.WriteString(observe(a).String())
			d.FreeValue(b)
		}},
		{"JSON errors", true, func(id int, log *strings.Builder) {
			_, err := d.NewValueFromJson([]byte(fmt.Sprintf(`{"a%d":[1,`, id)), true, false)
			if err != nil {
				log.WriteString(err.Error())
			}
			v := d.NewObject(true)
			err = v.LoadFromJson([]byte(`["x`+itoa(id)+`"] z`), false)
			if err != nil {
				log.WriteString(err.Error())
			}
			v.SetKeyInt("k", int64(id))
			log.WriteString(observe(v).String())
			d.FreeValue(v)
		}},
		{"times and numbers", false, func(id int, log *strings.Builder) {
			v := d.NewArray(false)
			v.SetIndexTime(0, time.Date(2021, 5, 6, 7, 8, 9+id, 0, time.UTC))
			v.SetIndexDouble(1, 1.5+float64(id))
			v.SetIndexFloat(2, 0.25+float32(id))
			log.Write(d.Value2Json(v, d.JSE_AllEscape, true, nil))
			log.WriteString(fmt.Sprintf("%x", v.ToMsgPack(nil)) + v.StringByIndex(0, ""))
			w, err := d.NewValueFromJson([]byte(fmt.Sprintf("[1e%d,-0.5,12%d]", id+1, id)), false, true)
			log.WriteString(errTag(err) + observe(w).String())
		}},
		{"files", false, func(id int, log *strings.Builder) {
			dir := os.TempDir()
			fn := filepath.Join(dir, "c12-"+strconv.Itoa(os.Getpid())+"-"+itoa(id))
			v := d.NewObject(false)
			v.SetKeyInt("k", int64(id))
			log.WriteString(errTag(d.Value2File(v, fn, false, false)))
			w, err := d.NewValueFromJsonFile(fn, true)
			log.WriteString(errTag(err))
			if err == nil {
				log.WriteString(observe(w).String())
				d.FreeValue(w)
			}
			os.Remove(fn)
		}},
	}
}

// warm leaves n caches and parsers with foreign content in the recyclers.
func warm(n int) {
	verifrt.ResetPools()
	var vs []*d.DxValue
	for i := 0; i < n; i++ {
		v, _ := d.NewValueFromJson([]byte(`{"old":[1,2,3],"p":{"q":"r"},"z":"`+itoa(i)+`"}`), true, false)
		vs = append(vs, v)
	}
	for _, v := range vs {
		free(v)
	}
	if n > 0 {
		v, _ := d.NewValueFromYaml([]byte("o: &a\n  w: 1\np: *a\n"), true)
		free(v)
	}
}

type c12run struct {
	scripts []script
	idx     []int
	warm    int
	solo    []string
	exec    int64
}

func (r *c12run) names() string {
	var s []string
	for _, i := range r.idx {
		s = append(s, r.scripts[i].name)
	}
	return strings.Join(s, " || ")
}

// once executes one schedule; a non-empty message is a violation.
func (r *c12run) once(first int, plan []verifrt.Switch, rec bool, horizon int) (verifrt.Result, string) {
	warm(r.warm)
	logs := make([]strings.Builder, len(r.idx))
	pan := make([]string, len(r.idx))
	bodies := make([]func(), len(r.idx))
	for k, i := range r.idx {
		k, i := k, i
		bodies[k] = func() {
			defer func() {
				if e := recover(); e != nil {
					if verifrt.IsAbort(e) {
						panic(e)
					}
					pan[k] = fmt.Sprint(e)
				}
			}()
			r.scripts[i].f(k, &logs[k])
		}
	}
	r.exec++
	res := verifrt.Run(bodies, first, plan, rec, horizon)
	sched := func() string {
		return fmt.Sprintf("first thread %d, switches %v, recyclers filled with %d", first, plan, r.warm)
	}
	if res.Aborted {
		return res, ""
	}
	if res.Deadlock {
		return res, "deadlock: " + r.names() + " under " + sched()
	}
	for k := range bodies {
		if pan[k] != "" {
			return res, fmt.Sprintf("thread %d of %s panics (%s) under %s", k, r.names(), pan[k], sched())
		}
		if logs[k].String() != r.solo[k] {
			return res, fmt.Sprintf("thread %d of %s sees under %s\n%s\nbut alone it sees\n%s", k, r.names(), sched(), logs[k].String(), r.solo[k])
		}
	}
	return res, ""
}

func newC12run(ss []script, warmN int, idx ...int) (*c12run, string) {
	r := &c12run{scripts: ss, idx: idx, warm: warmN}
	for k, i := range idx {
		verifrt.ResetPools()
		var b strings.Builder
		k, i := k, i
		if msg := try(func() { ss[i].f(k, &b) }); msg != "" {
			return r, "alone: " + msg
		}
		r.solo = append(r.solo, b.String())
	}
	return r, ""
}

// explore runs all schedules with at most bound preemptions whose first switch point is in the chunk.
func (r *c12run) explore(t *T, bound, chunk, chunks int) {
	full := os.Getenv("VERIF_BUILD_MODE") == "full"
	check := func(first int, plan []verifrt.Switch, rec bool, hor int) verifrt.Result {
		res, msg := r.once(first, plan, rec, hor)
		t.Op()
		if msg != "" {
			t.Failf("%s", msg)
		}
		if res.Aborted {
			t.c.Count("schedules_cut_at_horizon", 1)
		} else if res.Diverged {
			t.c.Count("schedules_diverged", 1)
		} else {
			t.Trace()
		}
		t.c.Count("schedules", 1)
		return res
	}
	for first := 0; first < len(r.idx); first++ {
		base := check(first, nil, true, 0)
		t.c.Count("schedule_points", int64(base.Points))
		if !full || bound == 0 {
			continue
		}
		hor := 30*base.Points + 10000
		if chunks < 0 {
			// one preemption at -chunks evenly spaced points
			for k := 0; k < -chunks && k < base.Points; k++ {
				p := k
				if base.Points > -chunks {
					p = int(int64(k) * int64(base.Points) / int64(-chunks))
				}
				for to := 0; to < len(r.idx); to++ {
					if base.Others[p]&(1<<uint(to)) != 0 {
						check(first, []verifrt.Switch{{At: p, To: to}}, false, hor)
					}
				}
			}
			continue
		}
		for p := 0; p < base.Points; p++ {
			if p%chunks != chunk {
				continue
			}
			for to := 0; to < len(r.idx); to++ {
				if base.Others[p]&(1<<uint(to)) == 0 {
					continue
				}
				plan := []verifrt.Switch{{At: p, To: to}}
				r1 := check(first, plan, bound > 1, hor)
				if bound < 2 || r1.Aborted || r1.Diverged {
					continue
				}
				for q := p + 1; q < r1.Points; q++ {
					for to2 := 0; to2 < len(r.idx); to2++ {
						if r1.Others[q]&(1<<uint(to2)) == 0 {
							continue
						}
						check(first, []verifrt.Switch{{At: p, To: to}, {At: q, To: to2}}, false, hor)
					}
				}
			}
		}
	}
}

func runC12(c *Ctx) {
	ss := c12scripts()
	c.Bound("scripts", fmt.Sprint(len(ss)))
	if c.quick {
		c.Bound("preemptions", "1 for every pair of scripts and for triples of small scripts, 2 for pairs of equal small scripts")
	} else {
		c.Bound("preemptions", "2 for every pair of scripts, 1 for every triple")
	}
	const chunks = 4
	ex := func(bound, w int, chunks int, idx ...int) {
		idx = append([]int(nil), idx...)
		for ch := 0; ch < chunks; ch++ {
			ch := ch
			c.Case(func() string {
				return fmt.Sprintf("threads %v, recyclers %d, preemption bound %d, chunk %d", idx, w, bound, ch)
			}, func(t *T) {
				r, msg := newC12run(ss, w, idx...)
				if msg != "" {
					t.Failf("%s", msg)
				}
				r.explore(t, bound, ch, chunks)
				t.State(fmt.Sprint(idx, w, bound))
			})
		}
	}
	tours := c12tours()
	sparse := 60
	if !c.quick {
		sparse = 1500
	}
	c.Bound("tours", fmt.Sprintf("%d long scripts entering every exported operation: every pair in both serial orders and with one preemption at %d evenly spaced points, in both builds", len(tours), sparse))
	for i := range tours {
		for j := i; j < len(tours); j++ {
			i, j := i, j
			c.Case(func() string { return "tours " + tours[i].name + " || " + tours[j].name }, func(t *T) {
				r, msg := newC12run(tours, 1, i, j)
				if msg != "" {
					t.Failf("%s", msg)
				}
				r.explore(t, 1, 0, -sparse)
				t.State(fmt.Sprint("tour", i, j))
			})
		}
	}
	// race executions in the other binary
	for i := 0; i < len(ss)+len(tours); i++ {
		i := i
		c.Case(func() string {
			if i < len(ss) {
				return "happens-before check of script " + ss[i].name + " against every script"
			}
			return "happens-before check of " + tours[i-len(ss)].name + " against every tour"
		}, func(t *T) {
			bin := os.Getenv("VERIF_RACE_BIN")
			if bin == "" {
				t.c.Count("race_build_missing", 1)
				return
			}
			tier := "quick"
			if !c.quick {
				tier = "thorough"
			}
			cmd := exec.Command(bin, "race", tier, itoa(i))
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 history_size=3")
			out, err := cmd.CombinedOutput()
			if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == 3 || ee.ExitCode() == 66) {
				t.Failf("%s", short2(string(out)))
			} else if err != nil {
				t.c.Count("race_tool_errors", 1)
				fmt.Fprintln(os.Stderr, "race run:", err, short2(string(out)))
				return
			}
			var n, p int64
			fmt.Sscanf(strings.TrimSpace(string(out)), "race ok schedules=%d points=%d", &n, &p)
			t.c.Count("race_schedules", n)
			t.c.ops += n
			t.c.traces += n
		})
	}
	// first executions: in a fresh process, two threads are the first to enter the library
	spots := 4
	if !c.quick {
		spots = 40
	}
	c.Bound("first executions", fmt.Sprintf("every pair of scripts and of tours in fresh processes of the happens-before build, with nothing run before and every recycler request missing: the serial order and one preemption at %d evenly spaced points", spots-1))
	for k, set := range [][]script{ss, tours} {
		for i := range set {
			for j := i; j < len(set); j++ {
				k, i, j, names := k, i, j, set[i].name+" || "+set[j].name
				c.Case(func() string { return "first execution in a fresh process of " + names }, func(t *T) {
					bin := os.Getenv("VERIF_RACE_BIN")
					if bin == "" {
						t.c.Count("race_build_missing", 1)
						return
					}
					points := 0
					for s := 0; s < spots; s++ {
						at := -1
						if s > 0 {
							if at = s * points / spots; points == 0 {
								break
							}
						}
						cmd := exec.Command(bin, "cold", itoa(k), itoa(i), itoa(j), itoa(at))
						cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 history_size=3")
						out, err := cmd.CombinedOutput()
						if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == 3 || ee.ExitCode() == 66 || ee.ExitCode() == 2) {
							t.Failf("%s", short2(string(out)))
						} else if err != nil {
							t.c.Count("race_tool_errors", 1)
							fmt.Fprintln(os.Stderr, "cold run:", err, short2(string(out)))
							return
						}
						if s == 0 {
							fmt.Sscanf(strings.TrimSpace(string(out)), "cold ok points=%d", &points)
						}
						t.c.Count("first_executions", 1)
						t.Op()
						t.Trace()
					}
				})
			}
		}
	}
	for w := 0; w <= 2; w++ {
		for i := range ss {
			for j := i; j < len(ss); j++ {
				ex(1, w, chunks, i, j)
			}
		}
	}
	for i := range ss {
		for j := i; j < len(ss); j++ {
			for k := j; k < len(ss); k++ {
				if c.quick && !(ss[i].small && ss[j].small && ss[k].small && (i == j || j == k)) {
					continue
				}
				ex(1, 1, chunks, i, j, k)
			}
		}
	}
	if c.quick {
		for i := range ss {
			if ss[i].small {
				ex(2, 1, 64, i, i)
			}
		}
		return
	}
	for w := 0; w <= 1; w++ {
		for i := range ss {
			for j := i; j < len(ss); j++ {
				ex(2, w, 64, i, j)
			}
		}
	}
}

func short2(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}

// raceMain runs in the race build: script i against every script, serial orders and one preemption.
func raceMain(tier string, i int) {
	ss := c12scripts()
	var n, pts int64
	stride, sparse := 7, 4
	if tier != "quick" {
		stride, sparse = 1, 60
	}
	isTour := i >= len(ss)
	if isTour {
		i -= len(ss)
		ss = c12tours()
	}
	for w := 0; w <= 1; w++ {
		for j := range ss {
			var idx []int
			idx = append(idx, i, j)
			r, msg := newC12run(ss, w, idx...)
			if msg != "" {
				fmt.Println(msg)
				os.Exit(3)
			}
			before := verifrt.RaceErrors()
			for first := 0; first < 2; first++ {
				res, msg := r.once(first, nil, true, 0)
				n++
				pts += int64(res.Points)
				if msg == "" && verifrt.RaceErrors() > before {
					msg = fmt.Sprintf("unordered conflicting accesses (data race) between the threads of %s, first thread %d", r.names(), first)
				}
				if msg != "" {
					fmt.Println(msg)
					os.Exit(3)
				}
				if isTour {
					stride = res.Points/sparse + 1
				}
				for p := 0; p < res.Points; p += stride {
					if res.Others[p] == 0 {
						continue
					}
					plan := []verifrt.Switch{{At: p, To: 1 - int(res.Cur[p])}}
					_, msg := r.once(first, plan, false, 30*res.Points+10000)
					n++
					if msg == "" && verifrt.RaceErrors() > before {
						msg = fmt.Sprintf("unordered conflicting accesses (data race) between the threads of %s, first thread %d, switches %v", r.names(), first, plan)
					}
					if msg != "" {
						fmt.Println(msg)
						os.Exit(3)
					}
				}
			}
		}
	}
	fmt.Printf("race ok schedules=%d points=%d\n", n, pts)
	os.Exit(0)
}

// coldMain runs in the race build, in a process that has not entered the library before: scripts i and j, switching
// from the first to the second thread at the given point (never, if negative). The logs are compared afterwards
// with those of the scripts alone. (syscall.Exit: the detector's own end-of-process step is not needed.)
func coldMain(set, i, j, at int) {
	ss := c12scripts()
	if set == 1 {
		ss = c12tours()
	}
	r := &c12run{scripts: ss, idx: []int{i, j}, warm: -1}
	logs := make([]strings.Builder, 2)
	pan := make([]string, 2)
	bodies := make([]func(), 2)
	for k := range bodies {
		k, f := k, ss[r.idx[k]].f
		bodies[k] = func() {
			defer func() {
				if e := recover(); e != nil {
					if verifrt.IsAbort(e) {
						panic(e)
					}
					pan[k] = fmt.Sprint(e)
				}
			}()
			f(k, &logs[k])
		}
	}
	var plan []verifrt.Switch
	if at >= 0 {
		plan = []verifrt.Switch{{At: at, To: 1}}
	}
	verifrt.SetMissAll(true)
	before := verifrt.RaceErrors()
	res := verifrt.Run(bodies, 0, plan, false, 0)
	fail := func(f string, a ...interface{}) {
		fmt.Printf("first execution of %s, switch at point %d: ", r.names(), at)
		fmt.Printf(f+"\n", a...)
		syscall.Exit(3)
	}
	if verifrt.RaceErrors() > before {
		fail("unordered conflicting accesses (data race) between the threads")
	}
	if res.Deadlock {
		fail("deadlock")
	}
	for k := range bodies {
		if pan[k] != "" {
			fail("thread %d panics (%s)", k, pan[k])
		}
		var b strings.Builder
		if msg := try(func() { ss[r.idx[k]].f(k, &b) }); msg != "" {
			fail("alone: %s", msg)
		}
		if b.String() != logs[k].String() {
			fail("thread %d sees\n%s\nbut alone it sees\n%s", k, logs[k].String(), b.String())
		}
	}
	fmt.Printf("cold ok points=%d\n", res.Points)
	syscall.Exit(0)
}
