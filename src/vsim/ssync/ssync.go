// Package ssync replaces package sync in instrumented code: same semantics,
// blocking goes through the simulator.
package ssync

import (
	"sync"
	"unsafe"

	"vsim/simrt"
)

type Locker = sync.Locker

func acq[T any](p *T)  { simrt.Acquire(unsafe.Pointer(p)) }
func rel[T any](p *T)  { simrt.Release(unsafe.Pointer(p)) }
func relm[T any](p *T) { simrt.ReleaseMerge(unsafe.Pointer(p)) }

// State of package-level objects does not survive from one run to the next.

type Mutex struct {
	locked bool
	epoch  uint64
}

func (m *Mutex) fresh() {
	if m.epoch != simrt.Epoch {
		m.epoch, m.locked = simrt.Epoch, false
	}
}

func (m *Mutex) Lock() {
	m.fresh()
	simrt.Y()
	if m.locked {
		simrt.Block("mutex", func() bool { return !m.locked })
	}
	m.locked = true
	acq(m)
}
func (m *Mutex) TryLock() bool {
	m.fresh()
	simrt.Y()
	if m.locked {
		return false
	}
	m.locked = true
	acq(m)
	return true
}
func (m *Mutex) Unlock() {
	if !m.locked && !simrt.Killing() {
		panic("sync: unlock of unlocked mutex")
	}
	rel(m)
	m.locked = false
	simrt.Y()
}

type RWMutex struct {
	w       bool
	r       int
	waiting int
	epoch   uint64
}

func (m *RWMutex) fresh() {
	if m.epoch != simrt.Epoch {
		*m = RWMutex{epoch: simrt.Epoch}
	}
}

func (m *RWMutex) Lock() {
	m.fresh()
	simrt.Y()
	if m.w || m.r > 0 {
		m.waiting++
		simrt.Block("rwmutex", func() bool { return !m.w && m.r == 0 })
		m.waiting--
	}
	m.w = true
	acq(m)
	acq(&m.r)
}
func (m *RWMutex) TryLock() bool {
	m.fresh()
	simrt.Y()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	acq(m)
	acq(&m.r)
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w && !simrt.Killing() {
		panic("sync: Unlock of unlocked RWMutex")
	}
	rel(m)
	rel(&m.r)
	m.w = false
	simrt.Y()
}
func (m *RWMutex) RLock() {
	m.fresh()
	simrt.Y()
	if m.w || m.waiting > 0 {
		simrt.Block("rwmutex (read)", func() bool { return !m.w && m.waiting == 0 })
	}
	m.r++
	acq(m)
}
func (m *RWMutex) TryRLock() bool {
	m.fresh()
	simrt.Y()
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	acq(m)
	return true
}
func (m *RWMutex) RUnlock() {
	if m.r <= 0 && !simrt.Killing() {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	relm(&m.r)
	m.r--
	simrt.Y()
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	simrt.Y()
	if d < 0 {
		relm(w)
	}
	w.n += d
	if w.n < 0 && !simrt.Killing() {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.Y()
	if w.n > 0 {
		simrt.Block("waitgroup", func() bool { return w.n <= 0 })
	}
	acq(w)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	simrt.Y()
	if o.done {
		acq(o)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { rel(o); o.done = true }()
		f()
	}
}
func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type Cond struct {
	L     Locker
	queue []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	w := new(bool)
	c.queue = append(c.queue, w)
	c.L.Unlock()
	simrt.Block("cond", func() bool { return *w })
	acq(w)
	c.L.Lock()
}
func (c *Cond) Signal() {
	simrt.Y()
	if len(c.queue) > 0 {
		rel(c.queue[0])
		*c.queue[0] = true
		c.queue = c.queue[1:]
	}
}
func (c *Cond) Broadcast() {
	simrt.Y()
	for _, w := range c.queue {
		rel(w)
		*w = true
	}
	c.queue = nil
}

// Pool hands objects back last-in first-out, which is the most revealing
// order for objects used after they were put back.
type Pool struct {
	New   func() any
	items []any
	epoch uint64
}

func (p *Pool) fresh() {
	if p.epoch != simrt.Epoch {
		p.epoch, p.items = simrt.Epoch, nil
	}
}

func (p *Pool) Get() any {
	p.fresh()
	simrt.Y()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		acq(p)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	p.fresh()
	simrt.Y()
	if x != nil {
		relm(p)
		p.items = append(p.items, x)
	}
}

// Map is a sync.Map with iteration in order of insertion.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) begin() {
	simrt.Y()
	if m.m == nil {
		m.m = map[any]any{}
	}
	acq(m)
}

// Every operation comes after the writes before it, a write also after the reads.
func (m *Map) read() { relm(&m.keys) }
func (m *Map) load(k any) (any, bool) {
	v, ok := m.m[k]
	m.read()
	return v, ok
}
func (m *Map) store(k, v any, ok bool) {
	acq(&m.keys)
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	relm(m)
}
func (m *Map) drop(k any) {
	acq(&m.keys)
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
	relm(m)
}

func (m *Map) Load(k any) (any, bool) { m.begin(); return m.load(k) }
func (m *Map) Store(k, v any)         { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.begin()
	old, ok := m.load(k)
	m.store(k, v, ok)
	return old, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.begin()
	if old, ok := m.load(k); ok {
		return old, true
	}
	m.store(k, v, false)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.begin()
	old, ok := m.load(k)
	if ok {
		m.drop(k)
	}
	return old, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, a, b any) bool {
	m.begin()
	if old, ok := m.load(k); !ok || old != a {
		return false
	}
	m.store(k, b, true)
	return true
}
func (m *Map) CompareAndDelete(k, a any) bool {
	m.begin()
	if old, ok := m.load(k); !ok || old != a {
		return false
	}
	m.drop(k)
	return true
}
func (m *Map) Range(f func(k, v any) bool) {
	m.begin()
	keys := append([]any(nil), m.keys...)
	m.read()
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() {
	m.begin()
	acq(&m.keys)
	m.m, m.keys = map[any]any{}, nil
	relm(m)
}
