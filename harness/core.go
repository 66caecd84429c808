package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	d "github.com/suiyunonghen/dxsvalue"
	"github.com/suiyunonghen/dxsvalue/verifrt"
)

// ---------------------------------------------------------------- property registry

type propDef struct {
	id    string
	run   func(c *Ctx)
	rule  string
	note  []string
	bound map[string]string

	nolimit bool // no address-space limit (the race detector needs a large one)
}

var registry = map[string]*propDef{}

func register(id string, run func(c *Ctx), rule string, notes ...string) {
	registry[id] = &propDef{id: id, run: run, rule: rule, note: notes}
}

// ---------------------------------------------------------------- context of one worker

// Ctx enumerates cases. Case bodies run only for the cases of this shard (or the single replayed case).
type Ctx struct {
	id       string
	quick    bool
	shard, n int64
	only     int64 // >=0: run only this case
	last     int64 // >0: stop after this case
	idx      int64
	ran      int64
	ops      int64
	traces   int64
	states   map[uint64]struct{}
	fails    []failure
	samples  []string
	deadline time.Time
	stopped  bool
	cur      *int64 // shared memory: index of the case being run (+1)
	counters map[string]int64
	bounds   map[string]string
	verbose  bool
}

type failure struct {
	Idx  int64  `json:"case"`
	Desc string `json:"desc"`
	Msg  string `json:"msg"`
}

// T is handed to a case body.
type T struct {
	c    *Ctx
	desc func() string
}

type caseFail struct{ msg string }

const defaultBudget = 3_000_000_000

// Failf reports a violation and ends the case.
func (t *T) Failf(f string, a ...interface{}) { panic(caseFail{fmt.Sprintf(f, a...)}) }

// Op counts one library operation executed in lockstep with the reference.
func (t *T) Op() { t.c.ops++ }

// Trace counts one complete execution whose observations agreed with the reference.
func (t *T) Trace() { t.c.traces++ }

// State records a distinct state (by digest).
func (t *T) State(s string) {
	if len(t.c.states) > 4_000_000 {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	t.c.states[h.Sum64()] = struct{}{}
}

func (c *Ctx) Count(name string, n int64) { c.counters[name] += n }

// Bound records a bound for the evidence.
func (c *Ctx) Bound(k, v string) { c.bounds[k] = v }

const maxFails = 8

// Stop reports whether the enumeration should end early.
func (c *Ctx) Stop() bool { return c.stopped }

// Case registers the next case of the enumeration and runs it if it belongs to this worker.
func (c *Ctx) Case(desc func() string, body func(t *T)) {
	i := c.idx
	c.idx++
	if c.last > 0 && i > c.last {
		c.stopped = true
	}
	if c.stopped {
		return
	}
	if c.only >= 0 {
		if i != c.only {
			if i > c.only {
				c.stopped = true
			}
			return
		}
	} else if i%c.n != c.shard {
		return
	}
	if c.ran&63 == 0 && time.Now().After(c.deadline) {
		c.stopped = true
		c.counters["deadline_hit"]++
		return
	}
	c.ran++
	*c.cur = i + 1
	if c.ran == 1 || c.ran == 100 || c.ran == 5000 {
		s := desc()
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		c.samples = append(c.samples, fmt.Sprintf("case %d: %s", i, s))
	}
	t := &T{c: c, desc: desc}
	if msg, bad := guard(func() { body(t) }); bad {
		s := desc()
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		if len(msg) > 4000 {
			msg = msg[:4000] + "..."
		}
		c.fails = append(c.fails, failure{i, s, msg})
		if os.Getenv("VERIF_STOPFIRST") != "" { // used by mutation runs, which only need to know whether a check fails
			fmt.Printf("%s case %d: %s\n%s\n", c.id, i, s, msg)
			os.Exit(9)
		}
		if len(c.fails) >= maxFails {
			c.stopped = true
			c.counters["stopped_after_failures"]++
		}
	}
	*c.cur = 0
}

// guard runs f in a fresh library environment and turns panics into a message.
func guard(f func()) (msg string, bad bool) {
	verifrt.ResetPools()
	verifrt.Start(defaultBudget)
	d.IgnoreCase = false
	defer func() {
		if e := recover(); e != nil {
			bad = true
			switch x := e.(type) {
			case caseFail:
				msg = x.msg
			case verifrt.BudgetExceeded:
				msg = "does not terminate: " + x.Error()
			default:
				msg = fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))
			}
		}
		d.IgnoreCase = false
		if verifrt.Steps() > 0 {
			verifrt.Instrumented = true
		}
	}()
	f()
	return
}

// try runs f and returns the panic message if it panicked.
func try(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if cf, ok := e.(caseFail); ok {
				panic(cf)
			}
			if b, ok := e.(verifrt.BudgetExceeded); ok {
				msg = "does not terminate: " + b.Error()
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	f()
	return
}

func trimStack(s []byte) string {
	lines := strings.Split(string(s), "\n")
	var o []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "dxsvalue.") {
			o = append(o, strings.TrimSpace(l))
		}
		if len(o) > 12 {
			break
		}
	}
	return strings.Join(o, "\n")
}

// ---------------------------------------------------------------- worker

type workerOut struct {
	Total    int64             `json:"total"`
	Ran      int64             `json:"ran"`
	Ops      int64             `json:"ops"`
	Traces   int64             `json:"traces"`
	Stopped  bool              `json:"stopped"`
	Fails    []failure         `json:"fails"`
	Samples  []string          `json:"samples"`
	Counters map[string]int64  `json:"counters"`
	Bounds   map[string]string `json:"bounds"`
	Instr    bool              `json:"instr"`
}

func mapCur(path string) *int64 {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return new(int64)
	}
	f.Truncate(4096)
	b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return new(int64)
	}
	return (*int64)(unsafe.Pointer(&b[0]))
}

func newCtx(id, tier string, shard, n, only int64, dl time.Duration, cur *int64) *Ctx {
	return &Ctx{id: id, quick: tier == "quick", shard: shard, n: n, only: only, states: map[uint64]struct{}{},
		deadline: time.Now().Add(dl), cur: cur, counters: map[string]int64{}, bounds: map[string]string{}}
}

func runWorker(id, tier string, shard, n int64, dir string, dl time.Duration) {
	debug.SetGCPercent(300)
	runtime.GOMAXPROCS(2)
	c := newCtx(id, tier, shard, n, -1, dl, mapCur(filepath.Join(dir, fmt.Sprintf("cur.%d", shard))))
	registry[id].run(c)
	out := workerOut{c.idx, c.ran, c.ops, c.traces, c.stopped, c.fails, c.samples, c.counters, c.bounds, verifrt.Instrumented}
	js, _ := json.Marshal(out)
	sb := make([]byte, 0, 8*len(c.states))
	for h := range c.states {
		sb = binary.LittleEndian.AppendUint64(sb, h)
	}
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("states.%d", shard)), sb, 0o644)
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("out.%d", shard)), js, 0o644)
}

// runHistory repeats a worker's history up to and including a case; exit status 3 when that case fails.
func runHistory(id, tier string, idx, n int64) {
	c := newCtx(id, tier, idx%n, n, -1, time.Hour, new(int64))
	c.last = idx
	registry[id].run(c)
	for _, f := range c.fails {
		if f.Idx == idx {
			fmt.Printf("case %d after its history: %s\n%s\n", idx, f.Desc, f.Msg)
			os.Exit(3)
		}
	}
	fmt.Printf("case %d holds after its history\n", idx)
}

// runOne runs a single case; exit status 3 when it fails.
func runOne(id, tier string, only int64) {
	c := newCtx(id, tier, 0, 1, only, time.Hour, new(int64))
	registry[id].run(c)
	if len(c.fails) > 0 {
		fmt.Printf("case %d: %s\n%s\n", only, c.fails[0].Desc, c.fails[0].Msg)
		os.Exit(3)
	}
	if c.ran == 0 {
		fmt.Printf("case %d does not exist\n", only)
		os.Exit(4)
	}
	fmt.Printf("case %d holds\n", only)
}

// ---------------------------------------------------------------- parent

type limitBuf struct {
	mu sync.Mutex
	b  []byte
}

func (l *limitBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.b) < 20000 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}

func readCur(path string) int64 {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return 0
	}
	return int64(binary.LittleEndian.Uint64(b))
}

// wrap limits the address space of a child, so that a runaway allocation fails instead of exhausting the machine.
func limited(id string, args []string) *exec.Cmd {
	if registry[id].nolimit {
		return exec.Command(args[0], args[1:]...)
	}
	sh := append([]string{"-c", `ulimit -v 5000000 2>/dev/null; ulimit -c 0 2>/dev/null; exec "$0" "$@"`}, args...)
	return exec.Command("/bin/bash", sh...)
}

func rerun(self, id, tier string, idx int64, limit time.Duration) (bad bool, out string) {
	return rerunCmd(id, limited(id, []string{self, "one", id, tier, strconv.FormatInt(idx, 10)}), idx, limit)
}

// rerunShard repeats the whole history of the worker that saw the failure, for failures that need earlier cases.
func rerunShard(self, id, tier string, idx int64, nw int, limit time.Duration) (bad bool, out string) {
	return rerunCmd(id, limited(id, []string{self, "history", id, tier, strconv.FormatInt(idx, 10), strconv.Itoa(nw)}), idx, limit)
}

func rerunCmd(id string, cmd *exec.Cmd, idx int64, limit time.Duration) (bad bool, out string) {
	var b limitBuf
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Start(); err != nil {
		return false, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			if ee.ExitCode() == 4 {
				return false, string(b.b)
			}
			return true, string(b.b)
		}
		return err != nil, string(b.b)
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return true, fmt.Sprintf("case %d does not terminate (killed after %s)", idx, limit)
	}
}

func runParent(id, tier string, nw int, dl time.Duration, evdir string) int {
	start := time.Now()
	p := registry[id]
	self, _ := os.Executable()
	dir, err := os.MkdirTemp("", "dxv")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	type res struct {
		crashed bool
		hang    bool
		idx     int64
		out     string
	}
	results := make([]res, nw)
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := limited(id, []string{self, "worker", id, tier, strconv.Itoa(w), strconv.Itoa(nw), dir, dl.String()})
			cmd.Env = append(os.Environ(), "TMPDIR="+dir)
			var b limitBuf
			cmd.Stdout, cmd.Stderr = &b, &b
			if err := cmd.Start(); err != nil {
				results[w] = res{crashed: true, out: err.Error()}
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			curf := filepath.Join(dir, fmt.Sprintf("cur.%d", w))
			last, since := int64(-1), time.Now()
			for {
				select {
				case err := <-done:
					if err != nil {
						results[w] = res{crashed: true, idx: readCur(curf), out: string(b.b)}
					} else if len(b.b) > 0 {
						os.Stderr.Write(b.b)
					}
					return
				case <-time.After(2 * time.Second):
					cur := readCur(curf)
					if cur != last || cur == 0 {
						last, since = cur, time.Now()
					} else if time.Since(since) > 150*time.Second {
						results[w] = res{crashed: true, hang: true, idx: cur, out: "no progress"}
						cmd.Process.Kill()
						<-done
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	states := map[uint64]struct{}{}
	tot := workerOut{Counters: map[string]int64{}, Bounds: map[string]string{}}
	exhaustive := true
	var fails []failure
	toolErr := ""
	for w := 0; w < nw; w++ {
		r := results[w]
		if r.crashed {
			exhaustive = false
			if r.idx > 0 {
				out := r.out
				if i := strings.Index(out, "goroutine "); i > 0 && len(out) > i+1500 {
					out = out[:i+1500]
				}
				fails = append(fails, failure{r.idx - 1, "(process died while running this case)", out})
			} else {
				toolErr = r.out
			}
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("out.%d", w)))
		if err != nil {
			toolErr = err.Error()
			continue
		}
		var o workerOut
		json.Unmarshal(b, &o)
		tot.Total = o.Total
		tot.Ran += o.Ran
		tot.Ops += o.Ops
		tot.Traces += o.Traces
		tot.Instr = tot.Instr || o.Instr
		if o.Stopped {
			exhaustive = false
		}
		fails = append(fails, o.Fails...)
		if len(tot.Samples) < 6 {
			tot.Samples = append(tot.Samples, o.Samples...)
		}
		for k, v := range o.Counters {
			tot.Counters[k] += v
		}
		for k, v := range o.Bounds {
			tot.Bounds[k] = v
		}
		sb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("states.%d", w)))
		for i := 0; i+8 <= len(sb); i += 8 {
			states[binary.LittleEndian.Uint64(sb[i:])] = struct{}{}
		}
	}
	sort.Slice(fails, func(a, b int) bool { return fails[a].Idx < fails[b].Idx })
	// confirm
	var confirmed *failure
	var confOut string
	tried, history := 0, 0
	for i := range fails {
		if tried >= 6 {
			break
		}
		tried++
		n := 0
		for k := 0; k < 5; k++ {
			bad, out := rerun(self, id, tier, fails[i].Idx, 100*time.Second)
			if bad {
				n++
				confOut = out
			}
			if n >= 1 && k >= 1 && strings.Contains(out, "killed after") {
				break
			}
			if time.Since(start) > 800*time.Second {
				break
			}
		}
		fmt.Printf("failure at case %d reproduced %d time(s) on re-run\n", fails[i].Idx, n)
		if n == 0 && time.Since(start) < 500*time.Second {
			if bad, out := rerunShard(self, id, tier, fails[i].Idx, nw, time.Since(start)+60*time.Second); bad && !strings.Contains(out, "killed after") {
				fmt.Println("reproduced after the same history of earlier cases")
				n, confOut, history = 1, out, nw
			}
		}
		if n > 0 {
			confirmed = &fails[i]
			break
		}
	}
	nviol := 0
	status := 0
	if confirmed != nil {
		nviol = len(fails)
		rp := filepath.Join(evdir, "replays")
		os.MkdirAll(rp, 0o755)
		rf := filepath.Join(rp, fmt.Sprintf("%s-%s-%d.json", id, tier, confirmed.Idx))
		js, _ := json.MarshalIndent(map[string]interface{}{
			"property": id, "tier": tier, "case": confirmed.Idx, "history": history, "description": confirmed.Desc, "message": confirmed.Msg,
			"confirmation": confOut, "replay": fmt.Sprintf("./check %s replay %s", id, rf)}, "", " ")
		os.WriteFile(rf, js, 0o644)
		fmt.Println(confirmed.Desc)
		fmt.Println(confirmed.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rf)
		status = 1
	} else if toolErr != "" && tot.Ran == 0 {
		fmt.Fprintln(os.Stderr, "tool error:", toolErr)
		status = 2
	} else if len(fails) > 0 {
		fmt.Println("unconfirmed failures (not reproducible on re-run) are not reported as violations")
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"states": len(states), "transitions": tot.Ops, "traces_validated_against_impl": tot.Traces,
		"cases_enumerated": tot.Total, "cases_run": tot.Ran, "rule": p.rule, "samples": tot.Samples,
		"exhaustive": exhaustive && confirmed == nil, "counters": tot.Counters, "bounds": tot.Bounds,
		"library_instrumented": tot.Instr, "build_mode": os.Getenv("VERIF_BUILD_MODE"), "unconfirmed_failures": len(fails) - nviol,
	}
	level := os.Getenv("VERIF_LEVEL")
	if level == "" {
		level = "model_checking"
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": p.note, "wall_s": float64(time.Since(start).Milliseconds()) / 1000, "violations": nviol}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(evdir, 0o755)
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: cases=%d/%d states=%d transitions=%d traces=%d exhaustive=%v wall=%.1fs\n", id, tier, tot.Ran, tot.Total,
		len(states), tot.Ops, tot.Traces, cov["exhaustive"], time.Since(start).Seconds())
	return status
}

func main() {
	flag.Parse()
	a := os.Args[1:]
	time.Local = time.UTC
	switch a[0] {
	case "worker":
		sh, _ := strconv.ParseInt(a[3], 10, 64)
		n, _ := strconv.ParseInt(a[4], 10, 64)
		dl, _ := time.ParseDuration(a[6])
		runWorker(a[1], a[2], sh, n, a[5], dl)
	case "one":
		n, _ := strconv.ParseInt(a[3], 10, 64)
		runOne(a[1], a[2], n)
	case "parent":
		nw, _ := strconv.Atoi(os.Getenv("VERIF_WORKERS"))
		if nw <= 0 {
			nw = runtime.NumCPU()
			if nw > 8 {
				nw = 8
			}
		}
		dl := 420 * time.Second
		if a[2] == "thorough" {
			dl = 3 * time.Hour
		}
		if s := os.Getenv("VERIF_DEADLINE"); s != "" {
			if x, err := time.ParseDuration(s); err == nil {
				dl = x
			}
		}
		if registry[a[1]] == nil {
			fmt.Fprintln(os.Stderr, "no such property", a[1])
			os.Exit(2)
		}
		os.Exit(runParent(a[1], a[2], nw, dl, a[3]))
	case "history":
		n, _ := strconv.ParseInt(a[3], 10, 64)
		w, _ := strconv.ParseInt(a[4], 10, 64)
		runHistory(a[1], a[2], n, w)
	case "race":
		n, _ := strconv.Atoi(a[2])
		raceMain(a[1], n)
	case "cold":
		var n [4]int
		for i := range n {
			n[i], _ = strconv.Atoi(a[1+i])
		}
		coldMain(n[0], n[1], n[2], n[3])
	case "list":
		var l []string
		for k := range registry {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
	default:
		fmt.Fprintln(os.Stderr, "usage: worker|one|parent|list")
		os.Exit(2)
	}
}

var _ = bytes.Equal

// Results handed out (text, encoded bytes) are kept together with a copy of what they said; heldCheck reports the first
// one that later operations changed.
type heldRes struct{ now, then string }

var held []heldRes

func hs(s string) string {
	if len(held) < 4096 && len(s) > 0 {
		held = append(held, heldRes{s, strings.Clone(s)})
	}
	return s
}

func hb(b []byte) []byte {
	if len(b) > 0 {
		hs(unsafe.String(&b[0], len(b)))
	}
	return b
}

func heldCheck(t *T, where func() string) {
	for _, h := range held {
		if h.now != h.then {
			t.Failf("%s: a result handed out earlier, %q, now says %q", where(), short(h.then), short(h.now))
		}
	}
	for i := range held {
		held[i] = heldRes{}
	}
	held = held[:0]
}
