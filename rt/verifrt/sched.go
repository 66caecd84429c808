package verifrt

import "unsafe"

// Cooperative scheduler: threads are goroutines of which exactly one runs at a time. At every point the
// running thread may be preempted according to Plan (point number -> thread to run next). A point at which
// the running thread blocks or ends is not a preemption: the lowest enabled thread (in rotation) follows unless
// the plan says otherwise.

type thread struct {
	id      int
	ch      chan struct{}
	done    bool
	blocked func() bool // nil or true while blocked
}

type scheduler struct {
	th      []*thread
	cur     int
	points  int
	plan    []Switch
	next    int
	end     chan struct{}
	dead    bool
	enabled []uint8 // per point: number of other enabled threads (only recorded when rec)
	rec     bool
	horizon int
	aborted bool
}

// Switch preempts the running thread at point At in favour of thread To.
type Switch struct{ At, To int }

var sch *scheduler

// Result of one execution.
type Result struct {
	Points   int
	Deadlock bool
	Aborted  bool    // horizon reached (not a verdict)
	Diverged bool    // the plan could not be followed (hard error)
	Cur      []uint8 // thread running at each point
	Others   []uint8 // bit mask of other enabled threads at each point
}

type abort struct{}

var curTrace []uint8
var maskTrace []uint8
var diverged bool

func (s *scheduler) mask() uint8 {
	var m uint8
	for i, t := range s.th {
		if i != s.cur && !t.done && !(t.blocked != nil && t.blocked()) {
			m |= 1 << uint(i)
		}
	}
	return m
}

func (s *scheduler) point() {
	p := s.points
	s.points++
	if s.rec {
		curTrace = append(curTrace, uint8(s.cur))
		maskTrace = append(maskTrace, s.mask())
	}
	if s.horizon > 0 && s.points > s.horizon {
		s.aborted = true
		panic(abort{})
	}
	if s.next < len(s.plan) && s.plan[s.next].At == p {
		to := s.plan[s.next].To
		s.next++
		if to == s.cur || s.th[to].done || (s.th[to].blocked != nil && s.th[to].blocked()) {
			diverged = true
			return
		}
		me := s.th[s.cur]
		s.cur = to
		raceOff()
		s.th[to].ch <- struct{}{}
		<-me.ch
		raceOn()
		if s.dead || s.aborted {
			panic(abort{})
		}
	}
}

// Run executes the bodies under the plan. Bodies must recover their own panics (except the scheduler's).
func Run(bodies []func(), first int, plan []Switch, rec bool, horizon int) Result {
	s := &scheduler{plan: plan, rec: rec, end: make(chan struct{}), horizon: horizon, cur: first}
	curTrace, maskTrace, diverged = curTrace[:0], maskTrace[:0], false
	for i := range bodies {
		s.th = append(s.th, &thread{id: i, ch: make(chan struct{}, 1)})
	}
	sch = s
	for i := range bodies {
		i := i
		go func() {
			t := s.th[i]
			raceOff()
			<-t.ch
			raceOn()
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(abort); !ok {
						panic(e)
					}
				}
				t.done = true
				RaceRelease(unsafe.Pointer(t))
				s.pass()
			}()
			if !s.dead && !s.aborted {
				bodies[i]()
			}
		}()
	}
	s.th[first].ch <- struct{}{}
	<-s.end
	for _, t := range s.th {
		RaceAcquire(unsafe.Pointer(t))
	}
	sch = nil
	r := Result{Points: s.points, Deadlock: s.dead, Aborted: s.aborted, Diverged: diverged || s.next < len(plan) && !s.dead && !s.aborted}
	if rec {
		r.Cur = append([]uint8(nil), curTrace...)
		r.Others = append([]uint8(nil), maskTrace...)
	}
	return r
}

// pass hands control on when the running thread ended or blocked; returns false on deadlock.
func (s *scheduler) pass() bool {
	n := len(s.th)
	for k := 1; k <= n; k++ {
		j := (s.cur + k) % n
		t := s.th[j]
		if t.done || (!s.dead && !s.aborted && t.blocked != nil && t.blocked()) {
			continue
		}
		s.cur = j
		raceOff()
		t.ch <- struct{}{}
		raceOn()
		return true
	}
	all := true
	for _, t := range s.th {
		if !t.done {
			all = false
		}
	}
	if all {
		close(s.end)
		return true
	}
	// deadlock: wake the blocked threads so that they unwind
	s.dead = true
	for k := 1; k <= n; k++ {
		j := (s.cur + k) % n
		if !s.th[j].done {
			s.cur = j
			raceOff()
			s.th[j].ch <- struct{}{}
			raceOn()
			return false
		}
	}
	return false
}

// Active reports whether a controlled execution is running.
func Active() bool { return sch != nil }

// Block suspends the running thread while cond() is true.
func Block(cond func() bool) {
	s := sch
	if s == nil {
		if cond() {
			panic("verifrt: blocked forever (single thread)")
		}
		return
	}
	for cond() {
		t := s.th[s.cur]
		t.blocked = cond
		s.pass()
		raceOff()
		<-t.ch
		raceOn()
		if s.dead || s.aborted {
			t.blocked = nil
			panic(abort{})
		}
	}
	s.th[s.cur].blocked = nil
}

// Point is an explicit schedule point (before synchronisation operations).
func Point() {
	if sch != nil {
		sch.point()
	}
}

// IsAbort tells a body's recover that a panic belongs to the scheduler.
func IsAbort(e interface{}) bool { _, ok := e.(abort); return ok }
