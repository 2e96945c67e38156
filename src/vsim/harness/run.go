package harness

import (
	"fmt"
	"hash/fnv"
	"io"
	stdlog "log"
	"runtime/metrics"
	"sort"
	"strings"
	"testing"
	"testing/cryptotest"
	"testing/synctest"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	blog "github.com/johnnadratowski/golang-neo4j-bolt-driver/log"

	"vsim/simrt"
	"vsim/snet"
)

// Violation of one or more properties.
type Violation struct {
	Class  string   `json:"class"`
	Props  []string `json:"props"`
	Detail string   `json:"detail"`
	Step   uint64   `json:"step"`
}

func (v *Violation) has(p string) bool {
	for _, x := range v.Props {
		if x == p {
			return true
		}
	}
	return false
}

// Outcome of a run.
type Outcome struct {
	Viol      []Violation
	LogHash   uint64
	Inter     uint64 // hash of the interleaving
	Steps     uint64
	Switches  uint64
	Events    uint64
	SimTime   time.Duration
	Faults    map[string]int
	Probes    map[string]int
	Recorded  []simrt.Override
	Log       []string
	Conns     []ConnInfo
	Calls     int
	Received  int
	PanicText string
}

// ConnInfo describes a connection of a run, used to place faults.
type ConnInfo struct {
	Dial   int
	S2C    int
	C2S    int
	Marks  []int
	WMarks []int
}

// Run is the state of one simulated run.
type Run struct {
	Sc      *Scenario
	S       *simrt.Sched
	N       *snet.Network
	Srv     *Server
	Recs    simrt.Assoc[int, *ExecRec]
	Viol    []Violation
	Probes  simrt.Counts
	drv     bolt.Driver
	pool    bolt.ClosableDriverPool
	clients simrt.Assoc[int, *client] // by task id
	issue   int
	borrows int
	calls   int
	cleanup []func() // after the run
	sql     sqlShared
	verbose bool
	lines   []string
	h       uint64

	corrupt      simrt.Assoc[*snet.Conn, bool]
	faultMark    simrt.Assoc[*snet.Conn, string]
	resetRefused simrt.Assoc[*snet.Conn, bool]
	undec        simrt.Assoc[*snet.Conn, bool] // a message that cannot be decoded was sent
	anyFault     bool
	shortest     time.Duration // shortest timeout in force during the run

	holder       simrt.Assoc[*snet.Conn, *mConn]
	knownBad     simrt.Assoc[*snet.Conn, *mConn]
	busy         int
	waiting      simrt.Assoc[*client, time.Duration] // waiting borrowers: since when a slot was free, -1 if none
	poolClosing  bool
	poolClosedAt time.Duration
	probing      bool
	probeHeld    int
	probeFails   int
}

func (r *Run) logf(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	h := fnv.New64a()
	var b [8]byte
	for i := range b {
		b[i] = byte(r.h >> (8 * i))
	}
	h.Write(b[:])
	fmt.Fprintf(h, "%d %d %s", r.S.Now(), r.S.N(), s)
	r.h = h.Sum64()
	if r.verbose {
		r.lines = append(r.lines, fmt.Sprintf("[%12s #%d] %s", r.S.Now(), r.S.N(), s))
	}
}

// familyProp is the property a family of runs is about: a wrong result, error
// or hang in such a run breaks it, besides what the class itself breaks.
var familyProp = map[string]string{"clean": "C01", "fail": "C02", "fault": "C03", "pool": "C09", "sql": "C15", "tls": "C16", "multi": "C17", "corrupt": "C07", "undec": "C07", "open": "C14", "url": "C18"}

// resultClasses break the guarantee of their family.
var resultClasses = map[string]bool{"wrong-row": true, "false-success": true, "spurious-error": true, "spurious-broken": true, "wrong-summary": true, "wrong-metadata": true,
	"wrong-failure": true, "lost-failure": true, "timeout-without-fault": true, "wrong-end": true, "silent-truncation": true, "panic": true, "late-return": true, "misuse-result": true,
	"success-after-broken": true, "stuck": true}

func (r *Run) violate(class string, props []string, f string, a ...interface{}) {
	if r.S.Stopped && len(r.Viol) > 8 {
		return
	}
	v := Violation{Class: class, Detail: fmt.Sprintf(f, a...)}
	if r.S != nil {
		v.Step = r.S.N()
	}
	set := map[string]bool{}
	for _, p := range props {
		set[p] = true
	}
	if resultClasses[class] {
		set[familyProp[r.Sc.Family]] = true
		if r.Sc.Family == "multi" && r.pool != nil {
			set["C09"] = true
		}
	}
	if r.Sc.Family == "multi" {
		set["C17"] = true
	}
	if r.Sc.SQL && (r.Sc.Family == "sql" || r.Sc.Family == "multi") {
		set["C15"] = true
	}
	if r.Sc.TLS != nil && class != "late-return" {
		set["C16"] = true
	}
	for p := range set {
		if p != "" {
			v.Props = append(v.Props, p)
		}
	}
	sort.Strings(v.Props)
	r.logf("VIOLATION %s %v %s", class, v.Props, v.Detail)
	r.Viol = append(r.Viol, v)
	if len(r.Viol) >= 8 {
		r.S.Stop()
	}
}

func (r *Run) rec(id int) *ExecRec { return r.Recs.Get(id) }

func (r *Run) faultConn(c *snet.Conn, why string) { r.faultMark.Set(c, why) }
func (r *Run) corruptConn(c *snet.Conn)           { r.corrupt.Set(c, true); r.faultMark.Set(c, "corrupt") }

// faulted reports whether something happened to the connection that entitles
// a call on it to fail.
func (r *Run) faulted(m *mConn) bool {
	if r.poolClosing && m.pooled {
		return true
	}
	if m.net == nil {
		return r.anyFault
	}
	return m.net.Dead || r.faultMark.Get(m.net) != ""
}

// quiet: nothing in this run can break a connection or make it unusable.
func (r *Run) quiet() bool {
	if len(r.Sc.Faults) > 0 || len(r.Sc.Srv.Init) > 0 || len(r.Sc.Srv.TxFail) > 0 || r.Sc.TLS != nil && !r.tlsAcceptable() {
		return false
	}
	for _, p := range r.Sc.Execs {
		if p.Ack != "" || p.Raw != "" || p.Undec != "" {
			return false
		}
	}
	return true
}

func (r *Run) isCorrupt(m *mConn) bool { return m.net != nil && r.corrupt.Get(m.net) }

func (r *Run) onFault(f *snet.Fault, c *snet.Conn) {
	switch f.Kind {
	case snet.S2CPause, snet.C2SSlow, snet.DialSlow:
		limit := r.shortest
		if r.Sc.TLS != nil {
			limit = min(limit, 5*time.Second) // what crypto/tls allows for its goodbye
		}
		if time.Duration(f.MS)*time.Millisecond < limit*6/10 {
			return // slower than usual, but within the timeout: not an excuse
		}
	}
	r.anyFault = true
	if c == nil {
		return
	}
	switch f.Kind {
	case snet.S2CFlip, snet.S2CInsert, snet.S2CDelete, snet.S2CDup:
		r.corruptConn(c)
	case snet.CloseErr:
	default:
		r.faultMark.Set(c, f.Kind)
	}
}

// onTouch is called when the running task uses a socket.
func (r *Run) onTouch(c *snet.Conn, what string) {
	k := r.clients.Get(simrt.CurID())
	if k == nil {
		return
	}
	k.touch(c, what)
}

func (r *Run) onDial() {
	if k := r.clients.Get(simrt.CurID()); k != nil {
		k.progress()
	}
}

// onTimeout is called when a wait of the running task ends by its deadline:
// not before the configured timeout.
func (r *Run) onTimeout(c *snet.Conn, op string, waited time.Duration) {
	k := r.clients.Get(simrt.CurID())
	if k == nil || k.what == "close" {
		return
	}
	if k.what == "popen" && c != nil {
		fresh := false
		for _, d := range k.dialed {
			fresh = fresh || d == c
		}
		if !fresh {
			return // a pool may probe a connection as it likes
		}
	}
	if r.Sc.TLS != nil && op == "write" && waited >= 5*time.Second {
		return // the goodbye of crypto/tls
	}
	want := time.Duration(r.Sc.timeoutMS()) * time.Millisecond
	if k.cur != nil {
		want = k.cur.timeout
	}
	if waited+r.S.Early() < want {
		r.violate("early-timeout", []string{"C04", "C18"}, "%s: a %s gave up after %v, the timeout is %v", k.what, op, waited, want)
	}
}

// poolChanged re-evaluates, for every waiting borrower, whether a slot is free.
func (r *Run) poolChanged() {
	r.waiting.Each(func(k *client, since time.Duration) {
		free := r.busy-1 < r.Sc.Pool.Max
		switch {
		case free && since < 0:
			r.waiting.Set(k, r.S.Now())
		case !free && since >= 0:
			r.waiting.Set(k, -1)
		}
	})
}

func heapAllocs() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

var discard = stdlog.New(io.Discard, "", 0)

// Execute runs a scenario.
func Execute(t *testing.T, sc *Scenario, verbose bool) *Outcome {
	var out *Outcome
	run := func(t *testing.T) { out = execute(t, sc, verbose) }
	if sc.TLS != nil {
		t.Run("tls", func(t *testing.T) {
			cryptotest.SetGlobalRandom(t, sc.Seed)
			synctest.Test(t, run)
		})
	} else {
		synctest.Test(t, run)
	}
	return out
}

func execute(t *testing.T, sc *Scenario, verbose bool) *Outcome {
	blog.ErrorLog, blog.InfoLog, blog.TraceLog = discard, discard, discard
	if sc.Trace {
		blog.SetLevel("trace")
	} else {
		blog.SetLevel("none")
	}
	cfg := simrt.Config{Seed: sc.Sched.Seed, MeanSlice: sc.Sched.MeanSlice, PBlock: sc.Sched.PBlock, PEarly: sc.Sched.PEarly,
		Replay: sc.Sched.Replay, Overrides: sc.Sched.Overrides, MaxSteps: 30_000_000}
	shortest := time.Duration(sc.timeoutMS()) * time.Millisecond
	for _, s := range sc.Clients {
		for _, o := range s.Ops {
			if o.Op == "timeout" && time.Duration(o.N)*time.Millisecond < shortest {
				shortest = time.Duration(o.N) * time.Millisecond
			}
		}
	}
	// a task that is not scheduled for a while must not run into a timeout by that alone
	cfg.Horizon, cfg.Budget = min(shortest/20, 20*time.Millisecond), min(shortest/5, 300*time.Millisecond)
	S := simrt.New(cfg)
	r := &Run{Sc: sc, S: S, verbose: verbose, poolClosedAt: -1}
	r.shortest = shortest
	for _, p := range sc.Execs {
		r.Recs.Set(p.ID, &ExecRec{Plan: p, Conn: -1})
	}
	r.Srv = &Server{R: r, Cfg: sc.Srv}
	var faults []*snet.Fault
	for _, f := range sc.Faults {
		g := *f
		faults = append(faults, &g)
	}
	r.N = &snet.Network{S: S, Faults: faults, SegMode: sc.Net.Seg, LatMin: time.Duration(sc.Net.LatUS) * time.Microsecond, LatJit: time.Duration(sc.Net.JitUS) * time.Microsecond,
		Seed: sc.Net.Seed, Log: r.logf, OnFault: r.onFault, OnTouch: r.onTouch, OnDial: r.onDial, OnTimeout: r.onTimeout}
	r.N.Accept = func(c *snet.Conn) snet.Peer {
		s := r.Srv.accept(c)
		if sc.TLS != nil {
			return r.tlsPeer(c, s)
		}
		return s
	}
	snet.N = r.N
	defer func() { snet.N = nil }()
	r.N.Start()
	if sc.Pool != nil {
		p, err := bolt.NewClosableDriverPool(sc.url(), sc.Pool.Max)
		if err != nil {
			panic(err)
		}
		r.pool = p
		S.Observe = func() {
			if r.N.Open > sc.Pool.Max {
				r.violate("too-many-connections", []string{"C08"}, "%d network connections open, the maximum is %d", r.N.Open, sc.Pool.Max)
				S.Stop()
			}
		}
	}
	r.drv = bolt.NewDriver()
	raceText() // what abandoned tasks did
	S.OnRace = r.onRace
	left := 0
	for i, s := range sc.Clients {
		k := newClient(r, i, s)
		left++
		task := S.Spawn(fmt.Sprintf("client%d", i), false, func() {
			if sc.SQL {
				k.runSQL()
			} else {
				k.run()
			}
			if sc.Pool != nil && sc.Pool.Probe && k.held != nil {
				k.closeConn(&Op{Op: "close"}, k.held)
			}
			left--
		})
		r.clients.Set(task.ID, k)
	}
	if sc.Pool != nil && sc.Pool.Probe {
		S.Spawn("prober", false, func() {
			simrt.Block("clients", func() bool { return left == 0 })
			r.probe()
		})
	}
	S.Run()
	now := S.Now()
	for _, f := range r.cleanup {
		f()
	}
	for _, p := range S.Panics {
		props := []string{}
		if r.anyFault || r.corrupt.Len() > 0 {
			props = append(props, "C07")
		}
		if sc.Pool != nil {
			props = append(props, "C10")
			if r.poolClosing {
				props = append(props, "C11")
			}
		}
		r.violate("panic", props, "%s panicked: %s at %s", p.Task, p.Value, panicSite(p.Stack))
	}
	if len(S.Deadlock) > 0 {
		props := []string{"C04"}
		if sc.Pool != nil {
			props = append(props, "C10")
			if r.poolClosing {
				props = append(props, "C11")
			}
		}
		r.violate("stuck", props, "blocked for ever: %s", strings.Join(S.Deadlock, "; "))
	}
	if S.StepLimit {
		r.violate("stuck", []string{"C04", "C07"}, "a call does not end (step limit)")
	}
	if len(S.Panics) == 0 && len(S.Deadlock) == 0 && !S.StepLimit && !S.Stopped {
		r.final()
	}
	o := &Outcome{Viol: r.Viol, LogHash: r.h, Inter: S.Hash, Steps: S.N(), Switches: S.Switches, Events: S.EventsRun, SimTime: now, Faults: r.N.FaultLog.Map(),
		Probes: r.Probes.Map(), Recorded: S.Recorded, Log: r.lines, Calls: r.calls}
	for _, c := range r.N.Conns {
		o.Conns = append(o.Conns, ConnInfo{Dial: c.Dial, S2C: c.S2C, C2S: c.C2S, Marks: c.S2CMarks, WMarks: c.C2SMarks})
	}
	r.Recs.Each(func(_ int, e *ExecRec) { o.Received += e.Received })
	for _, p := range S.Panics {
		o.PanicText += p.Value + "\n" + p.Stack + "\n"
	}
	return o
}

func panicSite(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "golang-neo4j-bolt-driver") && strings.Contains(l, ".go:") {
			l = strings.TrimSpace(l)
			if i := strings.LastIndex(l, "golang-neo4j-bolt-driver/"); i >= 0 {
				l = l[i+len("golang-neo4j-bolt-driver/"):]
			}
			if i := strings.Index(l, " "); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "?"
}

// final holds the checks over the whole history.
func (r *Run) final() {
	sc := r.Sc
	// let what is still on the wire reach the server, and the server see closes
	// (nothing to do: the database is judged by what the server has applied when
	// the callers were told, see below)
	if r.pool != nil && r.poolClosedAt >= 0 && r.N.Open != 0 {
		r.violate("open-after-pool-close", []string{"C11"}, "%d network connections still open after the pool was closed and every call returned", r.N.Open)
	}
	if r.pool != nil && r.poolClosedAt < 0 && !r.poolClosing && r.N.Dials > sc.Pool.Max && r.quiet() {
		r.violate("not-reused", []string{"C10"}, "a pool of %d dialled %d times though no connection broke", sc.Pool.Max, r.N.Dials)
	}
	// database
	for _, e := range r.sortedRecs() {
		if r.corrupt.Len() > 0 {
			break // what the caller was told may have been made up on the wire
		}
		if e.Applied > 1 {
			r.violate("applied-twice", []string{"C12", "C15"}, "X%d was applied %d times", e.Plan.ID, e.Applied)
		}
		if !e.Plan.Write || e.Issued == 0 {
			continue
		}
		if e.MTx == nil {
			switch e.Told {
			case "ok":
				if e.Applied != 1 && !r.corrupt.Get(connOf(r, e)) {
					r.violate("lost-write", []string{"C12"}, "X%d reported success but was applied %d times", e.Plan.ID, e.Applied)
				}
			case "fail":
				if e.Applied != 0 {
					r.violate("failed-write-applied", []string{"C12", "C02"}, "X%d reported a failure but was applied", e.Plan.ID)
				}
			}
			continue
		}
		switch e.MTx.told {
		case "committed":
			if e.Told == "ok" && e.Applied != 1 {
				r.violate("lost-commit", []string{"C12"}, "X%d succeeded in a transaction whose commit succeeded, but was applied %d times", e.Plan.ID, e.Applied)
			}
		case "rolledback", "failed", "open", "lost":
			if e.Applied != 0 {
				r.violate("rolled-back-write-applied", []string{"C12"}, "X%d belongs to a transaction that ended as %q but was applied", e.Plan.ID, e.MTx.told)
			}
		}
	}
	if sc.TLS != nil {
		for _, c := range r.N.Conns {
			r.tlsSecrecy(c)
		}
	}
	seen := map[*mTx]bool{}
	for _, e := range r.sortedRecs() {
		m := e.MTx
		if m == nil || seen[m] || m.told != "unknown" {
			continue
		}
		seen[m] = true
		in, out := 0, 0
		for _, x := range m.execs {
			if !x.Plan.Write || x.Told != "ok" {
				continue
			}
			if x.Applied > 0 {
				in++
			} else {
				out++
			}
		}
		if in > 0 && out > 0 {
			r.violate("partial-commit", []string{"C12"}, "a transaction with unknown outcome was applied in part: %d statements applied, %d not", in, out)
		}
	}
	for _, s := range r.Srv.Sess {
		if s == nil {
			continue
		}
		for _, t := range s.Recs {
			if !t.Claimed && !r.corrupt.Get(s.c) {
				r.violate("stray-tx-control", []string{"C05", "C12"}, "conn %d: the server received a %s the caller did not ask for", t.Conn, t.Kind)
			}
		}
	}
}

func connOf(r *Run, e *ExecRec) *snet.Conn {
	if e.Conn >= 0 && e.Conn < len(r.N.Conns) {
		return r.N.Conns[e.Conn]
	}
	return nil
}

func (r *Run) sortedRecs() []*ExecRec {
	var out []*ExecRec
	r.Recs.Each(func(_ int, e *ExecRec) { out = append(out, e) })
	sort.Slice(out, func(i, j int) bool { return out[i].Plan.ID < out[j].Plan.ID })
	return out
}
