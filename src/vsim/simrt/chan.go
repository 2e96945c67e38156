package simrt

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"slices"
	"unsafe"
)

// Channel operations of instrumented code. Buffered channels use the real
// channel with non-blocking operations; rendezvous on unbuffered channels is
// done between parked cases. Only the token holder runs, so plain fields do.

// ChanCase is one case of a select (or a single operation).
type ChanCase interface {
	can() bool // could proceed now
	do()       // proceed (can() just reported true)
	arm(*sel)  // register as waiting party on an unbuffered channel
	disarm()
	isSend() bool
	addr() uintptr
	unbuffered() bool
}

type sel struct {
	fired ChanCase
}

type rendezvous struct{ waiting []interface{} }

// rv holds the parked cases per unbuffered channel.
var rv Assoc[uintptr, *rendezvous]

func rvOf(p uintptr) *rendezvous {
	r := rv.Get(p)
	if r == nil {
		r = &rendezvous{}
		rv.Set(p, r)
	}
	return r
}

// chanSync stands for a channel towards the race detector.
func chanSync(p uintptr) unsafe.Pointer {
	if !Race {
		return nil
	}
	return unsafe.Pointer(rvOf(p))
}

func chanPtr(c interface{}) uintptr { return reflect.ValueOf(c).Pointer() }

func (r *rendezvous) remove(x interface{}) {
	for i, w := range r.waiting {
		if w == x {
			for i++; i < len(r.waiting); i++ {
				r.waiting[i-1] = r.waiting[i]
			}
			r.waiting = r.waiting[:len(r.waiting)-1]
			return
		}
	}
}

// RCase is a receive.
type RCase[T any] struct {
	c     <-chan T
	Val   T
	Ok    bool
	got   bool
	s     *sel
	ptr   uintptr
	armed bool
}

// SCase is a send.
type SCase[T any] struct {
	c     chan<- T
	v     T
	s     *sel
	ptr   uintptr
	armed bool
	done  bool
	fin   bool
}

//go:norace
func RecvCase[T any](c <-chan T) *RCase[T] { return &RCase[T]{c: c, ptr: chanPtr(c)} }

//go:norace
func SendCase[T any](c chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{c: c, v: v, ptr: chanPtr(c)} }
}

//go:norace
func (r *RCase[T]) isSend() bool { return false }

//go:norace
func (r *RCase[T]) addr() uintptr { return r.ptr }

//go:norace
func (r *RCase[T]) unbuffered() bool { return cap(r.c) == 0 }

//go:norace
func (r *RCase[T]) can() bool {
	if r.c == nil {
		return false
	}
	if r.got || len(r.c) > 0 {
		return true
	}
	if cap(r.c) == 0 {
		if q := rv.Get(r.ptr); q != nil {
			for _, w := range q.waiting {
				if s, ok := w.(*SCase[T]); ok && s.s != r.s && s.s.fired == nil {
					return true
				}
			}
		}
	}
	// closed, or fed by a goroutine the simulator does not own (context, runtime timer)
	select {
	case v, ok := <-r.c:
		r.Val, r.Ok, r.got = v, ok, true
		return true
	default:
		return false
	}
}

//go:norace
func (r *RCase[T]) do() {
	if r.got {
		if !r.Ok { // closed: order this task after the one that closed it
			<-r.c
		}
		return
	}
	if len(r.c) > 0 {
		r.Val, r.Ok = <-r.c
		r.got = true
		return
	}
	for _, w := range rv.Get(r.ptr).waiting {
		if s, ok := w.(*SCase[T]); ok && s.s != r.s && s.s.fired == nil {
			r.Val, r.Ok, r.got = s.v, true, true
			s.s.fired = s
			return
		}
	}
	panic("simrt: receive lost its sender")
}

//go:norace
func (r *RCase[T]) arm(s *sel) {
	r.s = s
	if r.c != nil && cap(r.c) == 0 {
		ReleaseMerge(chanSync(r.ptr))
		q := rvOf(r.ptr)
		q.waiting = append(q.waiting, r)
		r.armed = true
	}
}

//go:norace
func (r *RCase[T]) disarm() {
	if r.armed {
		rvOf(r.ptr).remove(r)
		r.armed = false
	}
}

//go:norace
func (x *SCase[T]) isSend() bool { return true }

//go:norace
func (x *SCase[T]) addr() uintptr { return x.ptr }

//go:norace
func (x *SCase[T]) unbuffered() bool { return cap(x.c) == 0 }

//go:norace
func (x *SCase[T]) can() bool {
	if x.c == nil {
		return false
	}
	if cap(x.c) > 0 {
		return len(x.c) < cap(x.c) || closed.Get(x.ptr)
	}
	if closed.Get(x.ptr) {
		return true
	}
	if q := rv.Get(x.ptr); q != nil {
		for _, w := range q.waiting {
			if r, ok := w.(*RCase[T]); ok && r.s != x.s && r.s.fired == nil {
				return true
			}
		}
	}
	return false
}

//go:norace
func (x *SCase[T]) do() {
	if cap(x.c) > 0 || closed.Get(x.ptr) {
		x.c <- x.v // panics if closed, as it should
		return
	}
	for _, w := range rv.Get(x.ptr).waiting {
		if r, ok := w.(*RCase[T]); ok && r.s != x.s && r.s.fired == nil {
			r.Val, r.Ok, r.got = x.v, true, true
			r.s.fired = r
			return
		}
	}
	panic("simrt: send lost its receiver")
}

//go:norace
func (x *SCase[T]) arm(s *sel) {
	x.s = s
	if x.c != nil && cap(x.c) == 0 {
		ReleaseMerge(chanSync(x.ptr))
		q := rvOf(x.ptr)
		q.waiting = append(q.waiting, x)
		x.armed = true
	}
}

//go:norace
func (x *SCase[T]) disarm() {
	if x.armed {
		rvOf(x.ptr).remove(x)
		x.armed = false
	}
}

var closed Assoc[uintptr, bool]

// ResetChans forgets channels of earlier runs.
func ResetChans() {
	rv, closed, ptrIDs = Assoc[uintptr, *rendezvous]{}, Assoc[uintptr, bool]{}, Assoc[uintptr, int]{}
}

// Close replaces close(ch).
//
//go:norace
func Close[T any](c chan<- T) {
	Y()
	if c != nil {
		closed.Set(chanPtr(c), true)
	}
	close(c)
}

// Select replaces a select statement; -1 is the default case.
func Select(hasDefault bool, cases ...ChanCase) int {
	if Killing() {
		Block("select", func() bool { return true })
	}
	Y()
	s := &sel{}
	for _, c := range cases {
		c.arm(s)
	}
	defer func() {
		for _, c := range cases {
			c.disarm()
		}
		if s.fired != nil && Race {
			Acquire(chanSync(s.fired.addr()))
		}
	}()
	ready := func() bool {
		if s.fired != nil {
			return true
		}
		for _, c := range cases {
			if c.can() {
				return true
			}
		}
		return false
	}
	if !ready() {
		if hasDefault {
			return -1
		}
		what := "select"
		if len(cases) == 1 {
			what = "receive"
			if cases[0].isSend() {
				what = "send"
			}
		}
		Block(what+" on channel", ready)
	}
	if s.fired != nil {
		for i, c := range cases {
			if c == s.fired {
				return i
			}
		}
	}
	// several ready cases: the scheduler's PRNG decides, via extra yield-free choice
	var can []int
	for i, c := range cases {
		if c.can() {
			can = append(can, i)
		}
	}
	k := can[pickCase(len(can))]
	s.fired = cases[k]
	if Race && cases[k].unbuffered() {
		ReleaseMerge(chanSync(cases[k].addr()))
	}
	cases[k].do()
	return k
}

// pickCase makes the choice among ready select cases a scheduling decision.
func pickCase(n int) int {
	s := S
	if n <= 1 || s == nil || s.killing {
		return 0
	}
	s.ns++
	pick := 0
	if s.cfg.Replay {
		pick = s.ovS[s.ns]
		if pick < 0 || pick >= n {
			pick = 0
		}
	} else {
		pick = s.rng.IntN(n)
	}
	if pick != 0 {
		s.Recorded = append(s.Recorded, Override{"s", s.ns, pick})
	}
	s.mix(uint64(pick) + 77)
	return pick
}

// Recv replaces <-c.
//
//go:norace
func Recv[T any](c <-chan T) T {
	r := RecvCase(c)
	Select(false, r)
	return r.Val
}

// Recv2 replaces v, ok := <-c.
//
//go:norace
func Recv2[T any](c <-chan T) (T, bool) {
	r := RecvCase(c)
	Select(false, r)
	return r.Val, r.Ok
}

// SendTo replaces c <- v.
//
//go:norace
func SendTo[T any](c chan<- T) func(T) {
	return func(v T) { Select(false, SendCase(c)(v)) }
}

// ChanSeq replaces range over a channel.
//
//go:norace
func ChanSeq[T any](c <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// MapSeq replaces range over a map with iteration in sorted key order.
func MapSeq[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sortKeys(keys)
		for _, k := range keys {
			v, ok := m[k]
			if ok && !yield(k, v) {
				return
			}
		}
	}
}

//go:norace
func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		slices.Sort(ks)
	case []int:
		slices.Sort(ks)
	case []int64:
		slices.Sort(ks)
	default:
		slices.SortFunc(keys, func(a, b K) int { return cmp.Compare(keyString(a), keyString(b)) })
	}
}

func keyString(k interface{}) string {
	v := reflect.ValueOf(k)
	if v.Kind() == reflect.Ptr || v.Kind() == reflect.Chan || v.Kind() == reflect.UnsafePointer {
		return fmt.Sprintf("%016x", ptrOrder(v.Pointer()))
	}
	return fmt.Sprintf("%v", k)
}

// ptrOrder numbers pointers in order of first use, so that ordering by pointer
// keys does not depend on addresses.
var ptrIDs Assoc[uintptr, int]

func ptrOrder(p uintptr) int {
	id, ok := ptrIDs.Get2(p)
	if !ok {
		id = ptrIDs.Len() + 1
		ptrIDs.Set(p, id)
	}
	return id
}

// NotePtr lets the order of map iteration over pointer keys follow creation order.
func NotePtr(p interface{}) { ptrOrder(reflect.ValueOf(p).Pointer()) }
