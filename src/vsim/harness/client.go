package harness

import (
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"regexp"
	"runtime/debug"
	"strings"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	berrors "github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"

	sql "vsim/dsql"
	"vsim/simrt"
	"vsim/snet"
)

// client interprets a script against the real driver and judges every answer
// against what the server stub recorded.
type client struct {
	r      *Run
	idx    int
	script *Script
	conns  map[int]*mConn
	stmts  map[int]*mStmt
	rows   map[int]*mRows
	txs    map[int]*mTx

	cur     *mConn // handle of the call in progress
	touched *snet.Conn
	dialed  []*snet.Conn
	what    string        // the call under way
	first   time.Duration // first use of the network in this call, -1
	held    *mConn
	noSum   bool
	onUse   func(c *snet.Conn, what string)
}

type mConn struct {
	id        int
	c         bolt.Conn
	net       *snet.Conn
	pooled    bool
	borrow    int
	closed    bool
	dead      bool // a call on it reported a broken connection
	timeout   time.Duration
	stmt      *mStmt
	tx        *mTx
	held      bool
	returning bool // its Close has been called
}

type mStmt struct {
	conn   *mConn
	s      bolt.Stmt
	ps     bolt.PipelineStmt
	texts  []int
	closed bool
	hidden bool
	rows   *mRows
}

type mRows struct {
	stmt   *mStmt
	r      bolt.Rows
	pr     bolt.PipelineRows
	xs     []*ExecRec
	cur    int
	idx    int
	ended  bool
	failed bool
	closed bool
	next   *mRows
}

type mTx struct {
	conn  *mConn
	tx    driver.Tx
	over  bool
	told  string // open, committed, failed, rolledback, unknown, lost
	execs []*ExecRec
}

func newClient(r *Run, i int, s *Script) *client {
	return &client{r: r, idx: i, script: s, conns: map[int]*mConn{}, stmts: map[int]*mStmt{}, rows: map[int]*mRows{}, txs: map[int]*mTx{}, first: -1}
}

// innermost digs out the innermost error.
func innermost(err error) error {
	for i := 0; i < 50 && err != nil; i++ {
		if e, ok := err.(*berrors.Error); ok {
			if e == nil {
				return nil
			}
			in := e.InnerMost()
			if in == error(e) || in == nil {
				return e
			}
			err = in
			continue
		}
		u := errors.Unwrap(err)
		if u == nil {
			return err
		}
		err = u
	}
	return err
}

// classify sorts an error: ok, eof (exactly io.EOF), fail (server failure), bad (broken connection), other.
func classify(err error) (string, map[string]interface{}) {
	if err == nil {
		return "ok", nil
	}
	if err == io.EOF {
		return "eof", nil
	}
	switch x := innermost(err).(type) {
	case messages.FailureMessage:
		return "fail", x.Metadata
	case *messages.FailureMessage:
		return "fail", x.Metadata
	default:
		if errors.Is(x, driver.ErrBadConn) {
			return "bad", nil
		}
	}
	return "other", nil
}

func brief(err error) string {
	if err == nil {
		return "nil"
	}
	k, m := classify(err)
	switch k {
	case "eof", "bad":
		return k
	case "fail":
		return "failure " + short(m["message"])
	}
	t := err.Error()
	if e, ok := err.(*berrors.Error); ok {
		if in := e.InnerMost(); in != nil && in != error(e) {
			t = in.Error()
		}
	}
	if i := strings.IndexByte(t, '\n'); i >= 0 {
		t = t[:i]
	}
	return addresses.ReplaceAllString(t, "0x")
}

// addresses differ from process to process
var addresses = regexp.MustCompile(`0x[0-9a-f]+`)

// touch notes which socket the running call uses, and checks exclusivity.
func (k *client) touch(c *snet.Conn, what string) {
	k.progress()
	if k.onUse != nil {
		k.onUse(c, what)
		return
	}
	m := k.cur
	if m == nil || !m.pooled {
		if what != "close" {
			k.touched = c
		}
		if what == "dial" {
			k.dialed = append(k.dialed, c)
		}
		if what != "close" && k.r.pool != nil {
			if h := k.r.holder.Get(c); h != nil && h.held {
				k.r.violate("shared-connection", []string{"C08", "C11"}, "conn %d: used by client %d (closing the pool) while borrow %d holds it", c.ID, k.idx, h.borrow)
			}
		}
		return
	}
	if what == "dial" {
		k.dialed = append(k.dialed, c)
		k.touched = c
		k.r.holder.Set(c, m)
		return
	}
	if what == "close" {
		return
	}
	k.touched = c
	if h := k.r.holder.Get(c); h != nil && h != m && h.returning {
		h.held = false // handed on before the returning call came back; it must not touch it again
	}
	if h := k.r.holder.Get(c); h != nil && h != m && h.held {
		k.r.violate("shared-connection", []string{"C08"}, "conn %d: %s by borrow %d while borrow %d holds it", c.ID, what, m.borrow, h.borrow)
	}
	if m.closed && !m.held && k.r.holder.Get(c) != m {
		k.r.violate("shared-connection", []string{"C08"}, "conn %d: %s through a handle that was returned", c.ID, what)
	}
	if b := k.r.knownBad.Get(c); b != nil && b != m {
		k.r.violate("reused-broken", []string{"C09", "C10"}, "conn %d: handed out again though borrow %d found it broken", c.ID, b.borrow)
		k.r.knownBad.Del(c)
	}
	if m.held {
		k.r.holder.Set(c, m)
	}
}

// progress is called when a borrower stops waiting for the pool.
func (k *client) progress() {
	if k.first < 0 {
		k.first = k.r.S.Now()
	}
	k.stopWaiting()
}

func (k *client) stopWaiting() {
	if since, ok := k.r.waiting.Get2(k); ok {
		k.r.waiting.Del(k)
		limit := time.Second
		if k.r.Sc.TLS != nil { // the goodbye of crypto/tls to a peer that does not read takes up to 5 s
			limit += time.Duration(k.r.clients.Len()+1) * 6 * time.Second
		}
		if since >= 0 && k.r.S.Now()-since > limit {
			k.r.violate("blocked-while-free", []string{"C10"}, "client %d waited %v for a connection while one was free", k.idx, k.r.S.Now()-since)
		}
	}
}

const slack = 50 * time.Millisecond

// call runs one API call and checks its time bound.
func (k *client) call(m *mConn, what string, f func()) {
	r := k.r
	k.cur, k.touched, k.dialed, k.first, k.what = m, nil, nil, -1, what
	r.calls++
	start := r.S.Now()
	to := r.N.TimedOut
	r.logf("c%d call %s", k.idx, what)
	var a0 uint64
	if r.Sc.Family == "corrupt" {
		a0 = heapAllocs()
	}
	f()
	end := r.S.Now()
	if m != nil && k.touched != nil {
		m.net = k.touched
	}
	if r.Sc.Family == "corrupt" && !r.Sc.Trace { // trace output of a read costs the square of its size
		if d := heapAllocs() - a0; d > 48<<20+uint64(r.received())*4000 {
			r.violate("allocation", []string{"C07"}, "%s allocated %d MB when %d bytes had been received", what, d>>20, r.received())
		}
	}
	if m == nil {
		return
	}
	last := start
	if m.pooled && what == "popen" {
		if k.first < 0 {
			return
		}
		last = k.first
	}
	for _, c := range r.N.Conns {
		if (m.net == nil || c == m.net || r.pool != nil) && c.LastMove > last && c.LastMove <= end {
			last = c.LastMove
		}
	}
	allowed := m.timeout + slack + r.S.Early() // the caller may have been kept off the processor
	if r.Sc.TLS != nil {
		allowed += 5 * time.Second // the limit of crypto/tls for saying goodbye
	}
	if end > last+allowed {
		r.violate("late-return", []string{"C04"}, "%s returned %v after the last byte moved, the timeout is %v", what, end-last, m.timeout)
	}
	if r.N.TimedOut > to && !r.faulted(m) && r.pool == nil && len(r.Sc.Clients) == 1 {
		r.violate("timeout-without-fault", []string{"C04"}, "%s ran into the timeout though the server answered everything", what)
	}
}

func (r *Run) received() int {
	n := 0
	for _, c := range r.N.Conns {
		n += c.S2C
	}
	return n
}

func (k *client) issue(m *mConn, xs []*ExecRec) {
	for _, e := range xs {
		k.r.issue++
		e.Issued = k.r.issue
		e.Borrow = m.borrow
		e.MTx = m.tx
		e.WantTx = m.tx != nil
		if m.tx != nil {
			m.tx.execs = append(m.tx.execs, e)
		}
	}
}

func (k *client) recs(o *Op) []*ExecRec {
	var out []*ExecRec
	for _, x := range o.X {
		e := k.r.rec(x)
		if e == nil || e.Issued != 0 {
			return nil
		}
		out = append(out, e)
	}
	return out
}

func (k *client) run() {
	for _, o := range k.script.Ops {
		k.step(o)
		if k.r.S.Stopped {
			return
		}
	}
	k.r.logf("c%d done", k.idx)
}

// markDead notes that the caller has been told the connection is broken.
func (k *client) markDead(m *mConn) {
	m.dead = true
	if m.net != nil && m.pooled {
		k.r.knownBad.Set(m.net, m)
	}
	if m.tx != nil && m.tx.told == "open" {
		m.tx.told = "lost"
	}
}

// judgeErr judges an error of a call that talks to the server; fail is the
// failure the server answered (nil if none).
func (k *client) judgeErr(m *mConn, what string, err error, fail map[string]interface{}) string {
	r := k.r
	kind, meta := classify(err)
	f := r.faulted(m)
	switch kind {
	case "fail":
		if r.isCorrupt(m) {
			break
		}
		if r.resetRefused.Get(m.net) {
			k.markDead(m)
			break
		}
		if fail == nil || !eqMap(meta, fail) {
			r.violate("wrong-failure", []string{"C02"}, "%s returned the failure %s, the server answered %s", what, short(meta), short(fail))
		}
	case "bad":
		if !f {
			r.violate("spurious-broken", []string{"C01"}, "%s reports a broken connection, but nothing was wrong with it", what)
		}
		k.markDead(m)
	case "other", "eof":
		switch {
		case !f:
			p := []string{"C01"}
			if fail != nil {
				p = append(p, "C02")
			}
			r.violate("spurious-error", p, "%s returned %s; the server answered %s", what, brief(err), short(fail))
		case !r.isCorrupt(m) && !r.undec.Get(m.net) && !(r.poolClosing && m.pooled):
			r.violate("not-badconn", []string{"C03"}, "%s on a broken connection returned %s instead of driver.ErrBadConn", what, brief(err))
		}
		k.markDead(m)
	}
	r.logf("c%d %s -> %s", k.idx, what, brief(err))
	return kind
}

// dead handles calls on a connection already reported broken; true if judged.
func (k *client) deadCall(m *mConn, what string, err error) bool {
	if !m.dead {
		return false
	}
	k.r.logf("c%d %s (broken) -> %s", k.idx, what, brief(err))
	if err == nil || err == io.EOF {
		k.r.violate("success-after-broken", []string{"C03", "C07"}, "%s returned %s on a connection already reported broken", what, brief(err))
	}
	return true
}

// misuse: the call had to be refused locally.
func (k *client) misuse(m *mConn, what string, err error, xs []*ExecRec) {
	k.r.logf("c%d %s (misuse) -> %s", k.idx, what, brief(err))
	k.r.Probes.Add("misuse")
	if err == nil {
		k.r.violate("misuse-result", []string{"C01", "C05"}, "%s succeeded although the handle cannot be used", what)
	}
}

func (k *client) falseSuccess(m *mConn, what string, e *ExecRec) {
	p := []string{"C01"}
	switch {
	case e.Fail != nil:
		p = append(p, "C02")
	case k.r.faulted(m):
		p = append(p, "C03")
	case e.Received == 0:
		p = append(p, "C05")
	}
	if e.MTx != nil {
		p = append(p, "C12")
	}
	k.r.violate("false-success", p, "%s reported success for X%d, which the server did not complete (received=%d failure=%s)", what, e.Plan.ID, e.Received, short(e.Fail))
}

func (k *client) judgeResult(m *mConn, what string, e *ExecRec, res bolt.Result) {
	r := k.r
	if r.isCorrupt(m) {
		if res != nil {
			res.RowsAffected()
			res.Metadata()
		}
		return
	}
	if e.SumMeta == nil {
		k.falseSuccess(m, what, e)
		return
	}
	if !eqMap(res.Metadata(), e.SumMeta) {
		r.violate("wrong-summary", []string{"C01", "C06"}, "%s: metadata %s, the server sent %s", what, short(res.Metadata()), short(e.SumMeta))
	}
	if n, err := res.RowsAffected(); err != nil || n != affected(e.SumMeta) {
		r.violate("wrong-summary", []string{"C01"}, "%s: RowsAffected %d,%v, want %d", what, n, err, affected(e.SumMeta))
	}
}

func (k *client) judgeCols(m *mConn, what string, e *ExecRec, meta map[string]interface{}, cols []string) {
	if k.r.isCorrupt(m) {
		return
	}
	if e.RunMeta == nil {
		k.falseSuccess(m, what, e)
		return
	}
	if !eqMap(meta, e.RunMeta) {
		k.r.violate("wrong-metadata", []string{"C01", "C06"}, "%s: metadata %s, the server sent %s", what, short(meta), short(e.RunMeta))
	}
	if cols != nil {
		want := e.Plan.columns()
		ok := len(want) == len(cols)
		for i := range want {
			ok = ok && want[i] == interface{}(cols[i])
		}
		if !ok {
			k.r.violate("wrong-metadata", []string{"C01"}, "%s: columns %v, want %v", what, cols, want)
		}
	}
}

func (k *client) judgeRow(m *mConn, what string, e *ExecRec, i int, row []interface{}) {
	if k.r.isCorrupt(m) {
		return
	}
	if i >= len(e.Rows) {
		k.r.violate("wrong-row", []string{"C01"}, "%s: row %d of X%d is %s, the server sent only %d rows", what, i, e.Plan.ID, short(row), len(e.Rows))
		return
	}
	if !eqVal(interface{}(row), interface{}(e.Rows[i])) {
		p := []string{"C01", "C06"}
		if k.r.faulted(m) {
			p = append(p, "C03")
		}
		k.r.violate("wrong-row", p, "%s: row %d of X%d is %s, the server sent %s", what, i, e.Plan.ID, short(row), short(e.Rows[i]))
	}
}

// badCheck judges a call with unencodable parameters.
func (k *client) badCheck(m *mConn, what string, err error) {
	k.r.Probes.Add("bad-params")
	k.r.logf("c%d %s (bad params) -> %s", k.idx, what, brief(err))
	if err == nil {
		k.r.violate("bad-params-accepted", []string{"C05"}, "%s succeeded with parameters that cannot be represented", what)
		return
	}
	if kind, _ := classify(err); kind == "bad" && !k.r.faulted(m) {
		k.r.violate("bad-params-broke", []string{"C05"}, "%s with unrepresentable parameters reports a broken connection", what)
	}
}

func anyBad(xs []*ExecRec) bool {
	for _, e := range xs {
		if e.Plan.Bad {
			return true
		}
	}
	return false
}

func tell(e *ExecRec, kind string) {
	if e.Told == "" {
		e.Told = kind
	}
}

func (k *client) step(o *Op) {
	r := k.r
	switch o.Op {
	case "open", "popen":
		k.open(o)
		return
	case "openbad":
		k.openBad(o)
		return
	case "plclose":
		k.poolClose()
		return
	case "sleep":
		simrt.Sleep(time.Duration(o.N) * time.Millisecond)
		return
	case "heal":
		r.N.Heal()
		return
	case "next", "all", "rclose":
		if mr := k.rows[o.H]; mr != nil {
			k.rowsOp(o, mr)
		}
		return
	case "sexec", "squery", "spexec", "spquery", "sclose":
		if s := k.stmts[o.H]; s != nil {
			k.stmtOp(o, s)
		}
		return
	case "commit", "rollback":
		if t := k.txs[o.H]; t != nil {
			k.txEnd(o, t)
		}
		return
	}
	m := k.conns[o.H]
	if m == nil {
		return
	}
	switch o.Op {
	case "chunk":
		if !m.closed {
			m.c.SetChunkSize(uint16(o.N))
		}
	case "timeout":
		if !m.closed {
			m.timeout = time.Duration(o.N) * time.Millisecond
			m.c.SetTimeout(m.timeout)
		}
	case "close":
		k.closeConn(o, m)
	case "gc":
		debug.FreeOSMemory()
	case "begin":
		k.begin(o, m)
	case "prep", "pprep":
		k.prep(o, m)
	case "exec", "queryall", "query", "pexec", "pquery":
		k.connOp(o, m)
	default:
		panic("harness: unknown op " + o.Op)
	}
}

func (k *client) open(o *Op) {
	r := k.r
	m := &mConn{id: o.ID, timeout: time.Duration(r.Sc.timeoutMS()) * time.Millisecond}
	r.borrows++
	m.borrow = r.borrows
	var c bolt.Conn
	var err error
	if o.Op == "popen" {
		if k.held != nil {
			return // a client holds at most one pooled connection
		}
		m.pooled, m.held = true, true
		r.busy++
		r.waiting.Set(k, -1)
		r.poolChanged()
		before := r.poolClosedAt
		k.call(m, "popen", func() { c, err = r.pool.OpenPool() })
		k.stopWaiting()
		if err != nil {
			m.held = false
			r.busy--
			r.poolChanged()
		} else if before >= 0 {
			r.violate("open-after-close", []string{"C11"}, "OpenPool succeeded after the pool had been closed")
		}
	} else {
		k.call(m, "open", func() { c, err = r.drv.OpenNeo(r.Sc.url()) })
	}
	k.judgeOpen(o, m, err)
	if err != nil {
		return
	}
	if c == nil {
		r.violate("false-success", []string{"C14"}, "open returned neither a connection nor an error")
		return
	}
	m.c = c
	k.conns[o.ID] = m
	if m.pooled {
		k.held = m
	}
}

// openBad opens an invalid URL: an error, and nothing is dialled.
func (k *client) openBad(o *Op) {
	r := k.r
	u := r.Sc.badURL(o.N)
	n := r.N.Dials
	try := func(how string, f func() error) {
		var err error
		k.call(nil, how, func() { err = f() })
		r.logf("c%d %s %q -> %s", k.idx, how, u, brief(err))
		if err == nil {
			r.violate("invalid-url", []string{"C18"}, "%s accepted the URL %q", how, u)
		}
	}
	switch (o.N / 64) % 4 {
	default:
		try("open", func() error { _, err := r.drv.OpenNeo(u); return err })
	case 1:
		try("sql open", func() error { _, err := bolt.NewDriver().Open(u); return err })
	case 2:
		if r.Sc.Pool != nil {
			return
		}
		p, err := bolt.NewClosableDriverPool(u, 1)
		if err != nil {
			return
		}
		// every attempt fails; none may keep the slot
		for i := 0; i < 3; i++ {
			try("popen of another pool", func() error { _, err := p.OpenPool(); return err })
		}
		p.Close()
	case 3:
		try("sql.Open and Ping", func() error {
			db, err := sql.Open("neo4j-bolt", u)
			if err == nil {
				err = db.Ping()
				db.Close()
			}
			return err
		})
	}
	r.Probes.Add("invalid-url")
	if len(r.Sc.Clients) == 1 && r.N.Dials != n {
		r.violate("invalid-url", []string{"C18"}, "something was dialled for the URL %q", u)
	}
}

func (k *client) judgeOpen(o *Op, m *mConn, err error) {
	r := k.r
	var sess *Session
	if m.net != nil && m.net.ID < len(r.Srv.Sess) {
		sess = r.Srv.Sess[m.net.ID]
	}
	r.logf("c%d %s -> %s", k.idx, o.Op, brief(err))
	if err == nil {
		if sess != nil && !sess.InitOK && !r.corrupt.Get(m.net) {
			r.violate("handed-out-uninitialised", []string{"C14"}, "%s returned a connection (conn %d, %q) the server did not accept", o.Op, m.net.ID, sess.initPlan())
		}
		if sess != nil && sess.initPlan() != "" && sess.initPlan() != "ok" {
			r.violate("handed-out-uninitialised", []string{"C14"}, "%s returned a connection (conn %d) though the server answered %q", o.Op, m.net.ID, sess.initPlan())
		}
		if sess == nil && !m.pooled {
			r.violate("handed-out-uninitialised", []string{"C14"}, "%s returned a connection without contacting the server", o.Op)
		}
		if r.Sc.TLS != nil {
			k.tlsOpened(m)
		}
		if m.net != nil && m.net.Addr != r.Sc.host() {
			r.violate("wrong-address", []string{"C14", "C16", "C18"}, "%s connected to %q, the URL says %q", o.Op, m.net.Addr, r.Sc.host())
		}
		return
	}
	for _, c := range k.dialed {
		if !c.IsClosed() {
			r.violate("leaked-socket", []string{"C13"}, "%s failed (%s) but conn %d stays open", o.Op, brief(err), c.ID)
		}
	}
	if r.Sc.TLS != nil {
		k.tlsOpenFailed(m, err)
		return
	}
	kind, meta := classify(err)
	plan := ""
	if sess != nil && len(k.dialed) > 0 {
		plan = sess.initPlan()
	}
	faulted := r.anyFault || (m.net != nil && r.faulted(m)) || (m.pooled && r.poolClosing)
	switch {
	case m.net != nil && r.corrupt.Get(m.net):
	case plan == "fail" || plan == "failclose":
		if kind == "fail" && eqMap(meta, initFailMeta(m.net.ID)) {
			return
		}
		if !(faulted && kind == "bad") {
			r.violate("init-failure-lost", []string{"C14"}, "the server rejected the connection, but open returned %s", brief(err))
		}
	case plan != "":
	case !faulted && !r.N.Down:
		r.violate("spurious-error", []string{"C14"}, "%s failed with %s though the server accepted the connection", o.Op, brief(err))
	case len(k.dialed) > 0 && kind != "bad" && !r.undec.Get(m.net) && !(m.pooled && r.poolClosing):
		r.violate("not-badconn", []string{"C03"}, "%s on a broken connection returned %s instead of driver.ErrBadConn", o.Op, brief(err))
	}
}

func (k *client) closeConn(o *Op, m *mConn) {
	r := k.r
	var err error
	again := m.closed
	st := m.stmt
	m.closed = true
	if m.pooled && m.held {
		// from here on the connection is on its way back
		defer func() {
			if k.held == m {
				k.held = nil
			}
		}()
	}
	wasHeld := m.held
	m.returning = m.pooled
	k.call(m, "close", func() { err = m.c.Close() })
	if m.pooled && wasHeld {
		m.held = false
		r.busy--
		r.poolChanged()
	}
	r.logf("c%d close -> %s", k.idx, brief(err))
	if again {
		r.Probes.Add("double-close")
		return
	}
	// implicit rollback
	if m.net != nil && m.net.ID < len(r.Srv.Sess) {
		for _, t := range r.Srv.Sess[m.net.ID].Recs {
			if !t.Claimed && t.Kind == "ROLLBACK" && m.tx != nil {
				t.Claimed = true
				break
			}
		}
	}
	if m.tx != nil {
		if m.tx.told == "open" {
			m.tx.told = "rolledback"
		}
		m.tx.over = true
		if m.pooled && m.net != nil && !m.net.IsClosed() && r.Srv.Sess[m.net.ID].tx != 0 && !r.corrupt.Get(m.net) && !m.net.Dead && r.holder.Get(m.net) == m {
			r.violate("carried-tx", []string{"C09", "C12"}, "conn %d went back to the pool with its transaction still open", m.net.ID)
		}
		m.tx = nil
	}
	if st != nil {
		st.closed = true
		if st.rows != nil {
			st.rows.closed = true
		}
		m.stmt = nil
	}
	if !m.pooled && m.net != nil && !m.net.IsClosed() {
		r.violate("leaked-socket", []string{"C13"}, "Close returned %s but conn %d stays open", brief(err), m.net.ID)
	}
	if !m.pooled && err != nil && !r.faulted(m) && r.N.FaultLog.Get(snet.CloseErr) == 0 {
		if kind, _ := classify(err); kind != "fail" {
			r.violate("spurious-error", []string{"C13"}, "Close of a healthy connection returned %s", brief(err))
		}
	}
}

func (k *client) poolClose() {
	r := k.r
	r.poolClosing = true
	again := r.poolClosedAt >= 0
	var err error
	k.call(nil, "pool close", func() { err = r.pool.Close() })
	r.poolClosedAt = r.S.Now()
	r.logf("c%d pool close -> %s", k.idx, brief(err))
	if again {
		r.Probes.Add("pool-close-again")
	}
	r.Probes.Add("pool-close")
}

func (k *client) begin(o *Op, m *mConn) {
	r := k.r
	var tx driver.Tx
	var err error
	bad := m.closed || m.stmt != nil || m.tx != nil
	k.call(m, "begin", func() { tx, err = m.c.Begin() })
	if bad {
		if m.tx != nil && err == nil {
			r.violate("nested-begin", []string{"C12"}, "Begin succeeded while a transaction is open")
		} else {
			k.misuse(m, "begin", err, nil)
		}
		return
	}
	t := k.claim(m, "BEGIN")
	if k.deadCall(m, "begin", err) {
		return
	}
	if err == nil {
		r.logf("c%d begin -> ok", k.idx)
		if !r.isCorrupt(m) && (t == nil || !t.Pull) {
			r.violate("false-success", []string{"C12", "C02"}, "Begin succeeded but the server did not open a transaction")
		}
		mt := &mTx{conn: m, tx: tx, told: "open"}
		m.tx = mt
		k.txs[o.ID] = mt
		return
	}
	var f map[string]interface{}
	if t != nil {
		f = t.Fail
	}
	k.judgeErr(m, "begin", err, f)
}

// claim finds the transaction control statement this call sent.
func (k *client) claim(m *mConn, kind string) *TxRec {
	if m.net == nil || m.net.ID >= len(k.r.Srv.Sess) {
		return nil
	}
	for _, t := range k.r.Srv.Sess[m.net.ID].Recs {
		if !t.Claimed && t.Kind == kind {
			t.Claimed = true
			return t
		}
	}
	return nil
}

func (k *client) txEnd(o *Op, mt *mTx) {
	r := k.r
	m := mt.conn
	bad := mt.over || m.closed
	var err error
	open := m.stmt
	k.call(m, o.Op, func() {
		if o.Op == "commit" {
			err = mt.tx.Commit()
		} else {
			err = mt.tx.Rollback()
		}
	})
	if bad {
		k.misuse(m, o.Op, err, nil)
		return
	}
	kind := map[string]string{"commit": "COMMIT", "rollback": "ROLLBACK"}[o.Op]
	t := k.claim(m, kind)
	wasDead := m.dead
	var openFail map[string]interface{}
	if open != nil {
		// the call closes the open statement first
		openFail = k.rowsDrained(open.rows)
	}
	if k.deadCall(m, o.Op, err) {
		mt.over = true
		m.tx = nil
		k.closeStmtModel(open)
		return
	}
	if err == nil {
		r.logf("c%d %s -> ok", k.idx, o.Op)
		if !r.isCorrupt(m) {
			if t == nil || !t.Pull {
				r.violate("false-success", []string{"C12", "C02"}, "%s reported success but the server did not complete it", o.Op)
			} else if openFail != nil {
				r.violate("lost-failure", []string{"C02", "C12"}, "%s succeeded though the rows it closed ended in a failure", o.Op)
			}
		}
		mt.told = map[string]string{"commit": "committed", "rollback": "rolledback"}[o.Op]
		mt.over = true
		m.tx = nil
		k.closeStmtModel(open)
		return
	}
	fail := openFail
	if t != nil {
		fail = t.Fail
	}
	kd := k.judgeErr(m, o.Op, err, fail)
	switch {
	case t == nil && kd == "fail":
		// the open statement failed while closing; the transaction is still open
		k.closeStmtModel(open)
		return
	case kd == "fail":
		if o.Op == "commit" {
			mt.told = "failed"
		} else {
			mt.told = "rolledback"
		}
	case o.Op == "commit" && !wasDead:
		mt.told = "unknown"
	default:
		mt.told = "lost"
	}
	mt.over = true
	m.tx = nil
	k.closeStmtModel(open)
}

func (k *client) closeStmtModel(s *mStmt) {
	if s == nil {
		return
	}
	s.closed = true
	if s.rows != nil {
		s.rows.closed = true
		s.rows = nil
	}
	if s.conn.stmt == s {
		s.conn.stmt = nil
	}
}

// rowsDrained tells what draining the rest of the rows amounted to: the
// failure that was met, if any; executions fully drained count as reported.
func (k *client) rowsDrained(mr *mRows) map[string]interface{} {
	if mr == nil || mr.ended || mr.closed {
		return nil
	}
	mr.ended = true
	for _, e := range mr.xs[mr.cur:] {
		if e.Fail != nil {
			mr.failed = true
			return e.Fail
		}
	}
	return nil
}

func (k *client) prep(o *Op, m *mConn) {
	var err error
	s := &mStmt{conn: m, texts: o.S}
	bad := m.closed || m.stmt != nil
	k.call(m, o.Op, func() {
		if o.Op == "prep" {
			s.s, err = m.c.PrepareNeo(stmtText(o.S[0]))
		} else {
			var qs []string
			for _, t := range o.S {
				qs = append(qs, stmtText(t))
			}
			s.ps, err = m.c.PreparePipeline(qs...)
		}
	})
	if bad {
		k.misuse(m, o.Op, err, nil)
		return
	}
	if err != nil {
		if !m.dead && !k.r.faulted(m) {
			k.r.violate("spurious-error", []string{"C01"}, "%s returned %s", o.Op, brief(err))
		}
		return
	}
	m.stmt = s
	k.stmts[o.ID] = s
}

func queriesOf(xs []*ExecRec) (qs []string, ps []map[string]interface{}) {
	for _, e := range xs {
		qs = append(qs, e.Plan.query())
		ps = append(ps, e.Plan.params())
	}
	return
}

func (k *client) connOp(o *Op, m *mConn) {
	xs := k.recs(o)
	if len(xs) == 0 {
		return
	}
	var err error
	qs, ps := queriesOf(xs)
	mis := m.closed || m.stmt != nil
	unenc := anyBad(xs)
	if !mis && !unenc {
		k.issue(m, xs)
	}
	var (
		res   bolt.Result
		ress  []bolt.Result
		rows  bolt.Rows
		prows bolt.PipelineRows
		data  [][]interface{}
		rmeta map[string]interface{}
		smeta map[string]interface{}
	)
	what := fmt.Sprintf("%s%v", o.Op, o.X)
	k.call(m, what, func() {
		switch o.Op {
		case "exec":
			res, err = m.c.ExecNeo(qs[0], ps[0])
		case "queryall":
			data, rmeta, smeta, err = m.c.QueryNeoAll(qs[0], ps[0])
		case "query":
			rows, err = m.c.QueryNeo(qs[0], ps[0])
		case "pexec":
			ress, err = m.c.ExecPipeline(qs, ps...)
		case "pquery":
			prows, err = m.c.QueryPipeline(qs, ps...)
		}
	})
	if mis {
		k.misuse(m, what, err, xs)
		return
	}
	if k.deadCall(m, what, err) {
		return
	}
	if unenc {
		k.badCheck(m, what, err)
		return
	}
	switch o.Op {
	case "exec":
		k.doneExec(m, what, xs, []bolt.Result{res}, err)
	case "pexec":
		k.doneExec(m, what, xs, ress, err)
	case "queryall":
		k.doneAll(m, what, xs[0], data, rmeta, smeta, err)
	case "query", "pquery":
		s := &mStmt{conn: m, hidden: true}
		k.gotRows(o, m, s, what, xs, rows, prows, err)
	}
}

func (k *client) stmtOp(o *Op, s *mStmt) {
	m := s.conn
	var err error
	if o.Op == "sclose" {
		bad := s.closed
		pend := s.rows
		k.call(m, "sclose", func() {
			if s.s != nil {
				err = s.s.Close()
			} else {
				err = s.ps.Close()
			}
		})
		if bad {
			return
		}
		k.judgeClose(m, "sclose", pend, err)
		k.closeStmtModel(s)
		return
	}
	xs := k.recs(o)
	if len(xs) == 0 {
		return
	}
	if (s.s != nil) != (o.Op == "sexec" || o.Op == "squery") {
		return
	}
	_, ps := queriesOf(xs)
	mis := s.closed || m.closed || (s.rows != nil && !s.rows.closed) || len(xs) != len(s.texts)
	unenc := anyBad(xs)
	if !mis && !unenc {
		k.issue(m, xs)
	}
	var (
		res   bolt.Result
		ress  []bolt.Result
		rows  bolt.Rows
		prows bolt.PipelineRows
	)
	what := fmt.Sprintf("%s%v", o.Op, o.X)
	k.call(m, what, func() {
		switch o.Op {
		case "sexec":
			res, err = s.s.ExecNeo(ps[0])
		case "squery":
			rows, err = s.s.QueryNeo(ps[0])
		case "spexec":
			ress, err = s.ps.ExecPipeline(ps...)
		case "spquery":
			prows, err = s.ps.QueryPipeline(ps...)
		}
	})
	if mis {
		k.misuse(m, what, err, xs)
		return
	}
	if k.deadCall(m, what, err) {
		return
	}
	if unenc {
		k.badCheck(m, what, err)
		return
	}
	switch o.Op {
	case "sexec":
		k.doneExec(m, what, xs, []bolt.Result{res}, err)
	case "spexec":
		k.doneExec(m, what, xs, ress, err)
	default:
		k.gotRows(o, m, s, what, xs, rows, prows, err)
	}
}

func firstFail(xs []*ExecRec) (int, map[string]interface{}) {
	for i, e := range xs {
		if e.Fail != nil {
			return i, e.Fail
		}
	}
	return -1, nil
}

func (k *client) doneExec(m *mConn, what string, xs []*ExecRec, ress []bolt.Result, err error) {
	if err == nil {
		k.r.logf("c%d %s -> ok", k.idx, what)
		if len(ress) != len(xs) {
			k.r.violate("wrong-summary", []string{"C01"}, "%s returned %d results for %d statements", what, len(ress), len(xs))
			return
		}
		for i, e := range xs {
			if ress[i] == nil {
				k.falseSuccess(m, what, e)
				continue
			}
			k.judgeResult(m, what, e, ress[i])
			tell(e, "ok")
		}
		return
	}
	i, f := firstFail(xs)
	kind := k.judgeErr(m, what, err, f)
	if kind == "fail" && i >= 0 {
		for j, e := range xs {
			switch {
			case j == i:
				tell(e, "fail")
			case j > i:
				tell(e, "none")
			}
		}
		return
	}
	for _, e := range xs {
		tell(e, "bad")
	}
}

func (k *client) doneAll(m *mConn, what string, e *ExecRec, data [][]interface{}, rmeta, smeta map[string]interface{}, err error) {
	for i, row := range data {
		k.judgeRow(m, what, e, i, row)
	}
	if err == nil {
		k.r.logf("c%d %s -> ok %d rows", k.idx, what, len(data))
		if !k.r.isCorrupt(m) {
			k.judgeCols(m, what, e, rmeta, nil)
			k.judgeEnd(m, what, e, len(data), smeta)
		}
		tell(e, "ok")
		return
	}
	tell(e, k.judgeErr(m, what, err, e.Fail))
}

// judgeEnd judges the reported end of a result set after n rows.
func (k *client) judgeEnd(m *mConn, what string, e *ExecRec, n int, smeta map[string]interface{}) {
	r := k.r
	if r.isCorrupt(m) {
		return
	}
	if e.SumMeta == nil || n != len(e.Rows) {
		p := []string{"C01"}
		class := "wrong-end"
		if r.faulted(m) {
			p, class = append(p, "C03"), "silent-truncation"
		}
		if e.Fail != nil {
			p = append(p, "C02")
		}
		r.violate(class, p, "%s: end of X%d reported after %d rows; the server sent %d rows, summary %v, failure %s", what, e.Plan.ID, n, len(e.Rows), e.SumMeta != nil, short(e.Fail))
		return
	}
	if smeta != nil && !eqMap(smeta, e.SumMeta) || smeta == nil && len(e.SumMeta) > 0 && m != nil && !k.noSum {
		r.violate("wrong-summary", []string{"C01", "C06"}, "%s: summary %s, the server sent %s", what, short(smeta), short(e.SumMeta))
	}
}

func (k *client) gotRows(o *Op, m *mConn, s *mStmt, what string, xs []*ExecRec, rows bolt.Rows, prows bolt.PipelineRows, err error) {
	if err != nil {
		var f map[string]interface{}
		if xs[0].FailRun {
			f = xs[0].Fail
		}
		kind := k.judgeErr(m, what, err, f)
		for i, e := range xs {
			if i > 0 && kind == "fail" {
				tell(e, "none")
			} else {
				tell(e, kind)
			}
		}
		return
	}
	k.r.logf("c%d %s -> rows", k.idx, what)
	mr := &mRows{stmt: s, r: rows, pr: prows, xs: xs}
	if s.hidden {
		m.stmt = s
	}
	s.rows = mr
	k.rows[o.ID] = mr
	if rows != nil {
		k.judgeCols(m, what, xs[0], rows.Metadata(), rows.Columns())
	} else {
		k.judgeCols(m, what, xs[0], prows.Metadata(), prows.Columns())
	}
}

// judgeClose judges the closing of rows (or of a statement with open rows).
func (k *client) judgeClose(m *mConn, what string, mr *mRows, err error) {
	r := k.r
	if m.dead {
		r.logf("c%d %s (broken) -> %s", k.idx, what, brief(err))
		return
	}
	if mr == nil || mr.closed || mr.ended {
		r.logf("c%d %s -> %s", k.idx, what, brief(err))
		if err != nil && !r.faulted(m) && !(mr != nil && mr.failed) {
			r.violate("spurious-error", []string{"C01"}, "%s returned %s", what, brief(err))
		}
		return
	}
	left := mr.xs[mr.cur:]
	i, f := firstFail(left)
	mr.ended = true
	if err == nil {
		r.logf("c%d %s -> ok", k.idx, what)
		if r.isCorrupt(m) {
			return
		}
		if f != nil {
			r.violate("lost-failure", []string{"C02"}, "%s reported success though X%d ended in a failure", what, left[i].Plan.ID)
			return
		}
		for _, e := range left {
			if e.SumMeta == nil {
				k.falseSuccess(m, what, e)
				return
			}
			tell(e, "ok")
		}
		return
	}
	kind := k.judgeErr(m, what, err, f)
	mr.failed = true
	for j, e := range left {
		switch {
		case kind == "fail" && j == i:
			tell(e, "fail")
		case kind == "fail" && j > i && i >= 0:
			tell(e, "none")
		case kind != "fail":
			tell(e, "bad")
		}
	}
}

func (k *client) rowsOp(o *Op, mr *mRows) {
	m := mr.stmt.conn
	if o.Op == "rclose" {
		bad := mr.closed || mr.next != nil
		var err error
		k.call(m, "rclose", func() {
			if mr.r != nil {
				err = mr.r.Close()
			} else {
				err = mr.pr.Close()
			}
		})
		if bad {
			return
		}
		k.judgeClose(m, "rclose", mr, err)
		mr.closed = true
		if mr.stmt.rows == mr {
			mr.stmt.rows = nil
		}
		if mr.stmt.hidden {
			k.closeStmtModel(mr.stmt)
		}
		return
	}
	if o.Op == "all" {
		if mr.r == nil {
			for i := 0; i < 2000; i++ {
				if !k.nextPipe(o, mr) {
					return
				}
				mr = k.rows[o.H]
			}
			return
		}
		k.all(mr)
		return
	}
	for i := 0; i < max(1, o.N); i++ {
		mr = k.rows[o.H]
		if mr.r != nil {
			if !k.next(mr) {
				return
			}
		} else if !k.nextPipe(o, mr) {
			return
		}
	}
}

func (k *client) rowsUsable(m *mConn, mr *mRows) bool {
	return !mr.closed && !mr.stmt.closed && !m.closed && mr.next == nil
}

func (k *client) next(mr *mRows) bool {
	r := k.r
	m := mr.stmt.conn
	var row []interface{}
	var meta map[string]interface{}
	var err error
	k.call(m, "next", func() { row, meta, err = mr.r.NextNeo() })
	return k.judgeNext(r, m, mr, "next", row, meta, err, true)
}

// judgeNext judges one step of reading; reports whether reading can go on.
func (k *client) judgeNext(r *Run, m *mConn, mr *mRows, what string, row []interface{}, meta map[string]interface{}, err error, sum bool) bool {
	if !k.rowsUsable(m, mr) {
		if err == nil || row != nil {
			r.violate("misuse-result", []string{"C01"}, "%s on closed rows returned %s, %s", what, short(row), brief(err))
		}
		k.misuse(m, what, err, nil)
		return false
	}
	e := mr.xs[mr.cur]
	if mr.ended {
		r.logf("c%d %s (ended) -> %s", k.idx, what, brief(err))
		if err == nil || row != nil || (mr.failed && err == io.EOF) {
			r.violate("wrong-end", []string{"C01", "C02"}, "%s after the end of X%d (failed=%v) returned %s, %s", what, e.Plan.ID, mr.failed, short(row), brief(err))
		}
		return false
	}
	if m.dead {
		mr.ended, mr.failed = true, true
		k.deadCall(m, what, err)
		return false
	}
	switch {
	case err == nil:
		if row == nil && !r.isCorrupt(m) {
			r.violate("wrong-row", []string{"C01"}, "%s returned no row and no error", what)
			return false
		}
		k.judgeRow(m, what, e, mr.idx, row)
		mr.idx++
		if r.isCorrupt(m) {
			return mr.idx < 50
		}
		return true
	case err == io.EOF:
		r.logf("c%d %s -> EOF after %d", k.idx, what, mr.idx)
		mr.ended = true
		k.noSum = !sum
		k.judgeEnd(m, what, e, mr.idx, meta)
		k.noSum = false
		tell(e, "ok")
		return false
	}
	var f map[string]interface{}
	if !e.FailRun && mr.idx == len(e.Rows) {
		f = e.Fail
	}
	mr.ended, mr.failed = true, true
	tell(e, k.judgeErr(m, what, err, f))
	return false
}

func (k *client) all(mr *mRows) {
	r := k.r
	m := mr.stmt.conn
	var data [][]interface{}
	var meta map[string]interface{}
	var err error
	k.call(m, "all", func() { data, meta, err = mr.r.All() })
	if !k.rowsUsable(m, mr) {
		k.misuse(m, "all", err, nil)
		return
	}
	e := mr.xs[0]
	if mr.ended {
		r.logf("c%d all (ended) -> %s", k.idx, brief(err))
		if len(data) > 0 || (mr.failed && err == nil) {
			r.violate("wrong-end", []string{"C01", "C02"}, "All after the end of X%d (failed=%v) returned %d rows, %s", e.Plan.ID, mr.failed, len(data), brief(err))
		}
		return
	}
	if k.deadCall(m, "all", err) {
		mr.ended, mr.failed = true, true
		return
	}
	for _, row := range data {
		k.judgeRow(m, "all", e, mr.idx, row)
		mr.idx++
	}
	mr.ended = true
	if err == nil {
		r.logf("c%d all -> %d rows", k.idx, len(data))
		k.judgeEnd(m, "all", e, mr.idx, meta)
		tell(e, "ok")
		return
	}
	mr.failed = true
	tell(e, k.judgeErr(m, "all", err, e.Fail))
}

// nextPipe reads one step of a pipeline; the handle moves on to the next result set.
func (k *client) nextPipe(o *Op, mr *mRows) bool {
	r := k.r
	m := mr.stmt.conn
	var row []interface{}
	var meta map[string]interface{}
	var nx bolt.PipelineRows
	var err error
	k.call(m, "pnext", func() { row, meta, nx, err = mr.pr.NextPipeline() })
	usable := k.rowsUsable(m, mr) && !mr.ended && !m.dead
	e := mr.xs[mr.cur]
	if !usable || row != nil || (err != nil && err != io.EOF) {
		if usable && err != nil && mr.idx == len(e.Rows) && e.Fail == nil && mr.cur+1 < len(mr.xs) && mr.xs[mr.cur+1].FailRun {
			// the end of this set and the failure of the next one come together
			mr.ended, mr.failed = true, true
			kind := k.judgeErr(m, "pnext", err, mr.xs[mr.cur+1].Fail)
			if kind == "fail" {
				tell(e, "ok")
			} else {
				tell(e, "bad")
			}
			tell(mr.xs[mr.cur+1], kind)
			return false
		}
		return k.judgeNext(r, m, mr, "pnext", row, meta, err, false)
	}
	if r.isCorrupt(m) {
		if nx != nil {
			n := &mRows{stmt: mr.stmt, pr: nx, xs: mr.xs, cur: min(mr.cur+1, len(mr.xs)-1)}
			mr.next = n
			mr.stmt.rows = n
			k.rows[o.H] = n
			return true
		}
		mr.ended = true
		return false
	}
	// end of a result set
	if e.SumMeta == nil || mr.idx != len(e.Rows) {
		p, class := []string{"C01"}, "wrong-end"
		if r.faulted(m) {
			p, class = append(p, "C03"), "silent-truncation"
		}
		if e.Fail != nil {
			p = append(p, "C02")
		}
		r.violate(class, p, "pnext: end of X%d reported after %d rows; the server sent %d", e.Plan.ID, mr.idx, len(e.Rows))
	}
	tell(e, "ok")
	if mr.cur == len(mr.xs)-1 {
		r.logf("c%d pnext -> end of pipeline", k.idx)
		mr.ended = true
		if nx != nil {
			r.violate("wrong-end", []string{"C01"}, "pnext: more result sets than statements")
		}
		return false
	}
	if nx == nil {
		r.violate("wrong-end", []string{"C01"}, "pnext: the pipeline ended after %d of %d statements", mr.cur+1, len(mr.xs))
		mr.ended = true
		return false
	}
	n := &mRows{stmt: mr.stmt, pr: nx, xs: mr.xs, cur: mr.cur + 1}
	ne := mr.xs[n.cur]
	r.logf("c%d pnext -> result %d", k.idx, n.cur)
	k.judgeCols(m, "pnext", ne, nx.Metadata(), nx.Columns())
	if meta != nil && !eqMap(meta, ne.RunMeta) && !eqMap(meta, e.SumMeta) {
		r.violate("wrong-metadata", []string{"C01"}, "pnext: metadata %s belongs to neither statement", short(meta))
	}
	mr.next = n
	mr.stmt.rows = n
	k.rows[o.H] = n
	k.rows[-o.H] = mr // the superseded handle
	return true
}
