// Package vsync stands in for package sync in the instrumented library. All blocking goes through the
// cooperative scheduler; Pool is deterministic and its answers can be enumerated.
package vsync

import (
	"unsafe"

	"github.com/suiyunonghen/dxsvalue/verifrt"
)

func acq(p unsafe.Pointer) { verifrt.RaceAcquire(p) }
func rel(p unsafe.Pointer) { verifrt.RaceRelease(p) }

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	verifrt.Point()
	verifrt.Block(func() bool { return m.held })
	m.held = true
	acq(unsafe.Pointer(m))
}
func (m *Mutex) TryLock() bool {
	verifrt.Point()
	if m.held {
		return false
	}
	m.held = true
	acq(unsafe.Pointer(m))
	return true
}
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	rel(unsafe.Pointer(m))
	m.held = false
	verifrt.Point()
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	verifrt.Point()
	verifrt.Block(func() bool { return m.w || m.r > 0 })
	m.w = true
	acq(unsafe.Pointer(&m.w))
	acq(unsafe.Pointer(&m.r))
}
func (m *RWMutex) TryLock() bool {
	verifrt.Point()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	acq(unsafe.Pointer(&m.w))
	acq(unsafe.Pointer(&m.r))
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	rel(unsafe.Pointer(&m.w))
	m.w = false
	verifrt.Point()
}
func (m *RWMutex) RLock() {
	verifrt.Point()
	verifrt.Block(func() bool { return m.w })
	m.r++
	acq(unsafe.Pointer(&m.w))
}
func (m *RWMutex) TryRLock() bool {
	verifrt.Point()
	if m.w {
		return false
	}
	m.r++
	acq(unsafe.Pointer(&m.w))
	return true
}
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rel(unsafe.Pointer(&m.r))
	m.r--
	verifrt.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	verifrt.Point()
	if o.done {
		acq(unsafe.Pointer(&o.done))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { rel(unsafe.Pointer(&o.done)); o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	if d < 0 {
		rel(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	verifrt.Point()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	verifrt.Point()
	verifrt.Block(func() bool { return w.n > 0 })
	acq(unsafe.Pointer(w))
}

type Cond struct {
	L    Locker
	seq  int
	wait []int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.seq++
	id := c.seq
	c.wait = append(c.wait, id)
	c.L.Unlock()
	verifrt.Block(func() bool {
		for _, w := range c.wait {
			if w == id {
				return true
			}
		}
		return false
	})
	acq(unsafe.Pointer(c))
	c.L.Lock()
}
func (c *Cond) Signal() {
	rel(unsafe.Pointer(c))
	if len(c.wait) > 0 {
		c.wait = c.wait[1:]
	}
	verifrt.Point()
}
func (c *Cond) Broadcast() { rel(unsafe.Pointer(c)); c.wait = nil; verifrt.Point() }

// Pool is a LIFO stack; whether a non-empty pool answers is decided by verifrt.PoolHit.
type Pool struct {
	New        func() interface{}
	items      []poolItem
	registered bool
}

type poolItem struct {
	x     interface{}
	token *[8]byte
}

func (p *Pool) ResetPool() { p.items = nil }

func (p *Pool) Get() interface{} {
	verifrt.Point()
	if n := len(p.items); n > 0 && verifrt.PoolHit() {
		it := p.items[n-1]
		p.items[n-1] = poolItem{}
		p.items = p.items[:n-1]
		acq(unsafe.Pointer(it.token))
		verifrt.Point()
		return it.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	verifrt.Point()
	if x == nil {
		return
	}
	if !p.registered {
		p.registered = true
		verifrt.RegisterPool(p)
	}
	it := poolItem{x, new([8]byte)}
	rel(unsafe.Pointer(it.token))
	p.items = append(p.items, it)
	verifrt.Point()
}

// Map is a linked list in insertion order, so that Range is deterministic (and, in the race build, no run-time
// map operation of the stand-in itself is observed by the detector). Every operation is one atomic step.
type Map struct {
	first *mapNode
}

type mapNode struct {
	k, v interface{}
	next *mapNode
}

func (m *Map) begin() {
	verifrt.Point()
	acq(unsafe.Pointer(m))
}

func (m *Map) find(k interface{}) *mapNode {
	for n := m.first; n != nil; n = n.next {
		if n.k == k {
			return n
		}
	}
	return nil
}

func (m *Map) store(k, v interface{}) {
	rel(unsafe.Pointer(m))
	last := (*mapNode)(nil)
	for n := m.first; n != nil; n = n.next {
		if n.k == k {
			n.v = v
			return
		}
		last = n
	}
	n := &mapNode{k: k, v: v}
	if last == nil {
		m.first = n
	} else {
		last.next = n
	}
}

func (m *Map) remove(k interface{}) {
	rel(unsafe.Pointer(m))
	last := (*mapNode)(nil)
	for n := m.first; n != nil; n = n.next {
		if n.k == k {
			if last == nil {
				m.first = n.next
			} else {
				last.next = n.next
			}
			return
		}
		last = n
	}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.begin()
	if n := m.find(k); n != nil {
		return n.v, true
	}
	return nil, false
}

func (m *Map) Store(k, v interface{}) {
	m.begin()
	m.store(k, v)
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.begin()
	if n := m.find(k); n != nil {
		return n.v, true
	}
	m.store(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.begin()
	if n := m.find(k); n != nil {
		v := n.v
		m.remove(k)
		return v, true
	}
	return nil, false
}

func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.begin()
	var old interface{}
	n := m.find(k)
	if n != nil {
		old = n.v
	}
	m.store(k, v)
	return old, n != nil
}

func (m *Map) CompareAndSwap(k, old, new interface{}) bool {
	m.begin()
	if n := m.find(k); n != nil && n.v == old {
		m.store(k, new)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.begin()
	if n := m.find(k); n != nil && n.v == old {
		m.remove(k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.begin()
	rel(unsafe.Pointer(m))
	m.first = nil
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	m.begin()
	var all []mapNode
	for n := m.first; n != nil; n = n.next {
		all = append(all, *n)
	}
	for _, n := range all {
		if !f(n.k, n.v) {
			return
		}
	}
}
