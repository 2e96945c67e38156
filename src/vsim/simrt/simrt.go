// Package simrt is the deterministic cooperative scheduler.
//
// Every goroutine of a simulated run is a Task. Exactly one task (or the
// scheduler itself) executes at any time: the scheduler hands a token to a
// task, the task hands it back when it blocks or is preempted at a yield
// point. Yield points are inserted by the instrumenter before every statement
// of the driver. Which task runs next, and whether a yield point preempts, is
// decided by a seeded PRNG (search) or by a recorded list (replay).
//
// The whole run lives in a testing/synctest bubble, so time.Now, deadlines and
// timers see a fake clock which only moves when the scheduler sleeps.
package simrt

import (
	"container/heap"
	"fmt"
	"math/rand/v2"
	"runtime"
	"time"
	"unsafe"
)

// Override is one scheduling decision that differs from the default policy
// (keep running the current task; when it blocks, the next one in id order).
// Kind "y" is a preemption at the N-th yield point, "b" the N-th choice made
// when the running task blocked, "s" the N-th choice among ready select cases.
// Task -1 means: let the next pending event happen first.
type Override struct {
	Kind string `json:"k"`
	N    uint64 `json:"n"`
	Task int    `json:"t"`
}

// Config of one run.
type Config struct {
	Seed      uint64
	MeanSlice int           // mean number of yield points between preemptions; 0 = none
	PBlock    float64       // probability of a non-default choice when a task blocks
	PEarly    float64       // probability that a preemption lets the next event happen
	Horizon   time.Duration // how far a single early event may be away
	Budget    time.Duration // how much time early events may let pass in total
	Replay    bool
	Overrides []Override
	MaxSteps  uint64
}

type Task struct {
	ID     int
	Name   string
	Daemon bool
	wake   chan struct{}
	ready  func() bool
	what   string
	done   bool
}

type Event struct {
	at     time.Duration
	seq    uint64
	fn     func()
	idx    int
	cancel bool
}

type eventHeap []*Event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *eventHeap) Push(x interface{}) { e := x.(*Event); e.idx = len(*h); *h = append(*h, e) }
func (h *eventHeap) Pop() interface{} {
	o := *h
	e := o[len(o)-1]
	*h = o[:len(o)-1]
	return e
}

// Panic describes a panic escaping a task.
type Panic struct {
	Task  string
	Value string
	Stack string
}

type Sched struct {
	cfg     Config
	rng     *rand.Rand
	start   time.Time
	tasks   []*Task
	cur     *Task
	last    int
	events  eventHeap
	seq     uint64
	n       uint64 // yield points passed
	nb      uint64 // choices made on blocking
	ns      uint64 // select choices
	nextPre uint64
	ovY     []Override
	ovB     map[uint64]int
	ovS     map[uint64]int
	back    chan struct{}
	killing bool
	early   time.Duration
	preempt bool

	Recorded  []Override
	Panics    []Panic
	Deadlock  []string // names of blocked tasks when nothing could happen any more
	StepLimit bool
	Stopped   bool
	Switches  uint64
	EventsRun uint64
	Hash      uint64 // hash of the interleaving: every switch with its position
	Races     int    // data races seen by the race detector
	OnRace    func() // called when there is one
	joined    *byte  // what finished tasks release, for those that come after all of them
	past      *byte  // what the scheduler releases: tasks come after the events before them
	Observe   func() // called by the scheduler after every event and task switch
}

// Epoch numbers the runs of this process.
var Epoch uint64

// S is the running scheduler; nil outside a run.
var S *Sched

const never = ^uint64(0)

// New makes a scheduler; must be called inside the synctest bubble.
func New(cfg Config) *Sched {
	Epoch++
	ResetChans()
	pcg.Seed(cfg.Seed, 0xda7a)
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20_000_000
	}
	s := &Sched{joined: new(byte), past: new(byte), cfg: cfg, rng: rand.New(rand.NewPCG(cfg.Seed, 0x5eed)), start: time.Now(), back: make(chan struct{}), Hash: 14695981039346656037}
	s.ovB, s.ovS = map[uint64]int{}, map[uint64]int{}
	if cfg.Replay {
		for _, o := range cfg.Overrides {
			switch o.Kind {
			case "y":
				s.ovY = append(s.ovY, o)
			case "b":
				s.ovB[o.N] = o.Task
			case "s":
				s.ovS[o.N] = o.Task
			}
		}
	}
	s.arm()
	return s
}

func (s *Sched) arm() {
	switch {
	case s.cfg.Replay:
		for len(s.ovY) > 0 && s.ovY[0].N <= s.n {
			s.ovY = s.ovY[1:]
		}
		s.nextPre = never
		if len(s.ovY) > 0 {
			s.nextPre = s.ovY[0].N
		}
	case s.cfg.MeanSlice > 0:
		s.nextPre = s.n + 1 + uint64(s.rng.ExpFloat64()*float64(s.cfg.MeanSlice))
	default:
		s.nextPre = never
	}
	if s.nextPre > s.cfg.MaxSteps {
		s.nextPre = s.cfg.MaxSteps
	}
}

// Now is the simulated time since the start of the run.
func (s *Sched) Now() time.Duration { return time.Since(s.start) }

// N is the number of yield points passed.
func (s *Sched) N() uint64 { return s.n }

// After schedules fn on the scheduler goroutine.
func (s *Sched) After(d time.Duration, fn func()) *Event {
	if d < 0 {
		d = 0
	}
	return s.At(s.Now()+d, fn)
}

func (s *Sched) At(at time.Duration, fn func()) *Event {
	s.seq++
	e := &Event{at: at, seq: s.seq, fn: fn}
	heap.Push(&s.events, e)
	return e
}

// Cancel removes a scheduled event.
func (s *Sched) Cancel(e *Event) {
	if e != nil && !e.cancel && e.idx >= 0 && e.idx < len(s.events) && s.events[e.idx] == e {
		heap.Remove(&s.events, e.idx)
		e.cancel = true
	}
}

// Spawn creates a task. May be called before Run or by a running task/event.
func (s *Sched) Spawn(name string, daemon bool, f func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, Daemon: daemon, wake: make(chan struct{})}
	s.tasks = append(s.tasks, t)
	go func() {
		raceOff()
		<-t.wake
		raceOn()
		Acquire(unsafe.Pointer(s.past))
		defer func() {
			if r := recover(); r != nil {
				if !s.killing {
					buf := make([]byte, 8192)
					buf = buf[:runtime.Stack(buf, false)]
					s.Panics = append(s.Panics, Panic{Task: t.Name, Value: fmt.Sprint(r), Stack: string(buf)})
				}
			}
			ReleaseMerge(unsafe.Pointer(s.joined))
			t.done = true
			raceOff()
			s.back <- struct{}{}
			raceOn()
		}()
		if s.killing {
			return
		}
		f()
	}()
	return t
}

// Join orders the running task after every task that has finished.
func Join() {
	if S != nil {
		Acquire(unsafe.Pointer(S.joined))
	}
}

// Stop ends the run: tasks are abandoned as soon as control returns to the scheduler.
func (s *Sched) Stop() { s.Stopped = true }

func (s *Sched) isReady(t *Task) bool {
	return !t.done && (t.ready == nil || t.ready())
}

func (s *Sched) runDue() {
	for len(s.events) > 0 && s.events[0].at <= s.Now() {
		s.runEvent()
	}
}

func (s *Sched) runEvent() {
	e := heap.Pop(&s.events).(*Event)
	e.cancel = true
	s.EventsRun++
	e.fn()
	if s.Observe != nil {
		s.Observe()
	}
}

// advance sleeps to the next event and runs it.
func (s *Sched) advance() {
	if d := s.events[0].at - s.Now(); d > 0 {
		time.Sleep(d)
	}
	s.runEvent()
}

func (s *Sched) mix(v uint64) { s.Hash = (s.Hash ^ v) * 1099511628211 }

// Run executes until all non-daemon tasks are done, a deadlock, a step limit or Stop.
func (s *Sched) Run() {
	S = s
	raceOff()
	base := raceErrors()
	defer func() {
		s.killing = true
		for _, t := range s.tasks {
			for !t.done {
				s.cur = t
				t.wake <- struct{}{}
				<-s.back
			}
		}
		S = nil
		raceOn()
		Acquire(unsafe.Pointer(s.joined))
	}()
	var run []*Task
	foreign := 0
	for {
		s.runDue()
		if s.Stopped || len(s.Panics) > 0 {
			return
		}
		live := false
		run = run[:0]
		for _, t := range s.tasks {
			if t.done {
				continue
			}
			if !t.Daemon {
				live = true
			}
			if s.isReady(t) {
				run = append(run, t)
			}
		}
		if !live {
			return
		}
		if len(run) == 0 {
			if len(s.events) > 0 {
				s.advance()
				continue
			}
			if foreign < 3 { // let timers the simulator does not own fire
				foreign++
				time.Sleep(10 * time.Minute)
				continue
			}
			for _, t := range s.tasks {
				if !t.done && !t.Daemon {
					s.Deadlock = append(s.Deadlock, t.Name+": "+t.what)
				}
			}
			return
		}
		foreign = 0
		if s.n >= s.cfg.MaxSteps {
			s.StepLimit = true
			return
		}
		t, again := s.choose(run)
		if again {
			continue
		}
		if t.ID != s.last {
			s.Switches++
			s.mix(s.n)
			s.mix(uint64(t.ID) + 1)
			s.last = t.ID
		}
		t.ready, t.what = nil, ""
		s.cur = t
		raceOn()
		ReleaseMerge(unsafe.Pointer(s.past))
		raceOff()
		t.wake <- struct{}{}
		<-s.back
		s.cur = nil
		if Race {
			if n := raceErrors() - base; n > s.Races {
				s.Races = n
				if s.OnRace != nil {
					s.OnRace()
				}
			}
		}
		if s.Observe != nil {
			s.Observe()
		}
	}
}

// choose picks the next task. The default keeps the current task, or else the
// next runnable one in id order. Deviations are recorded under the decision number.
func (s *Sched) choose(run []*Task) (*Task, bool) {
	def := run[0]
	for _, t := range run {
		if t.ID == s.last {
			def = t
			break
		}
	}
	if def.ID != s.last {
		for _, t := range run {
			if t.ID > s.last {
				def = t
				break
			}
		}
	}
	pick := def.ID
	pre := s.preempt
	s.preempt = false
	kind, n, p := "y", s.n, 1.0
	if !pre {
		s.nb++
		kind, n, p = "b", s.nb, s.cfg.PBlock
	}
	if s.cfg.Replay {
		if pre {
			if len(s.ovY) > 0 && s.ovY[0].N == s.n {
				pick = s.ovY[0].Task
			}
		} else if v, ok := s.ovB[s.nb]; ok {
			pick = v
		}
	} else if p > 0 && s.rng.Float64() < p {
		if s.cfg.PEarly > 0 && s.mayAdvance() && s.rng.Float64() < s.cfg.PEarly {
			pick = -1
		} else {
			pick = run[s.rng.IntN(len(run))].ID
		}
	}
	if pre {
		s.arm()
	}
	if pick == -1 {
		if !s.mayAdvance() {
			pick = def.ID
		} else {
			s.Recorded = append(s.Recorded, Override{kind, n, -1})
			s.mix(s.n)
			s.mix(0)
			s.early += s.events[0].at - s.Now()
			s.advance()
			return nil, true
		}
	}
	for _, t := range run {
		if t.ID == pick {
			if t != def || pre {
				s.Recorded = append(s.Recorded, Override{kind, n, pick})
			}
			return t, false
		}
	}
	return def, false
}

// mayAdvance tells whether the next event may happen before ready tasks run.
func (s *Sched) mayAdvance() bool {
	if len(s.events) == 0 {
		return false
	}
	d := s.events[0].at - s.Now()
	return d <= s.cfg.Horizon && s.early+d <= s.cfg.Budget
}

// Early is the time that passed so far while tasks were ready to run.
func (s *Sched) Early() time.Duration { return s.early }

// Y is a yield point.
func Y() {
	s := S
	if s == nil || s.killing {
		return
	}
	s.n++
	if s.n < s.nextPre {
		return
	}
	if s.cur == nil {
		return
	}
	s.preempt = true
	s.handoff(s.cur)
}

func (s *Sched) handoff(t *Task) {
	raceOff()
	s.back <- struct{}{}
	<-t.wake
	raceOn()
	Acquire(unsafe.Pointer(s.past))
	if s.killing {
		runtime.Goexit()
	}
	s.cur = t
}

// Block parks the current task until ready reports true.
func Block(what string, ready func() bool) {
	s := S
	if s == nil {
		if !ready() {
			panic("simrt: block outside a run: " + what)
		}
		return
	}
	if s.killing {
		runtime.Goexit()
	}
	t := s.cur
	t.ready, t.what = ready, what
	s.handoff(t)
}

// CurID is the id of the running task, -1 on the scheduler.
func CurID() int {
	if S == nil || S.cur == nil {
		return -1
	}
	return S.cur.ID
}

// Killing reports whether the run is being torn down (deferred code only).
func Killing() bool { return S != nil && S.killing }

// Forever blocks for good.
func Forever() { Block("select {}", func() bool { return false }) }

// Go starts a goroutine of the code under test as a task.
func Go(f func()) {
	s := S
	if s == nil {
		go f()
		return
	}
	if s.killing {
		return
	}
	s.Spawn(fmt.Sprintf("go#%d", len(s.tasks)), true, f)
}

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	s := S
	if s == nil {
		time.Sleep(d)
		return
	}
	if s.killing {
		return
	}
	fired := false
	s.After(d, func() { fired = true })
	Block("sleep", func() bool { return fired })
}

// Timer replaces time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	ev *Event
	on bool
}

func (t *Timer) start(d time.Duration) {
	s := S
	if s == nil {
		return
	}
	t.on = true
	ReleaseMerge(unsafe.Pointer(t))
	if t.c != nil {
		ReleaseMerge(chanSync(chanPtr(t.c)))
	}
	t.ev = s.After(d, func() {
		t.on = false
		if t.f != nil {
			Go(func() {
				Acquire(unsafe.Pointer(t))
				t.f()
			})
			return
		}
		select {
		case t.c <- time.Now():
		default:
		}
	})
}
func (t *Timer) Stop() bool {
	was := t.on
	if was && S != nil {
		S.Cancel(t.ev)
	}
	t.on = false
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	return was
}
func (t *Timer) Reset(d time.Duration) bool { was := t.Stop(); t.start(d); return was }

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C   <-chan time.Time
	c   chan time.Time
	ev  *Event
	d   time.Duration
	off bool
}

func (t *Ticker) arm() {
	if S == nil {
		return
	}
	ReleaseMerge(chanSync(chanPtr(t.c)))
	t.ev = S.After(t.d, func() {
		if t.off {
			return
		}
		select {
		case t.c <- time.Now():
		default:
		}
		t.arm()
	})
}
func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}
func (t *Ticker) Stop() {
	t.off = true
	if S != nil {
		S.Cancel(t.ev)
	}
}
func (t *Ticker) Reset(d time.Duration)     { t.Stop(); t.off = false; t.d = d; t.arm() }
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
