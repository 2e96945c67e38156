package harness

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"maps"
	"slices"
	"time"
	"unsafe"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"

	sql "vsim/dsql"
	"vsim/simrt"
	"vsim/snet"
)

// sqlShared is what the users of one sql.DB share.
type sqlShared struct {
	db     *sql.DB
	done   int
	opened bool
	sync   byte // orders what the first user set up before what the others do
	bad    simrt.Assoc[*snet.Conn, bool]
	stmts  simrt.Assoc[int, *sqlStmt]
	ready  bool // the first user has prepared what all use
}

// runSQL interprets a script through database/sql, which is an instrumented
// copy of the toolchain's: its locks and goroutines belong to the simulation.
func (k *client) runSQL() {
	r := k.r
	sh := &r.sql
	if k.idx == 0 {
		db, err := sql.Open("neo4j-bolt", r.Sc.url())
		if err != nil {
			r.violate("spurious-error", []string{"C15"}, "sql.Open: %v", err)
			r.S.Stop()
			return
		}
		if i := r.Sc.Idle; i != 0 {
			db.SetMaxIdleConns(i) // negative: keep none
		}
		db.SetMaxOpenConns(r.Sc.MaxOpen)
		sh.db, sh.opened = db, true
		simrt.ReleaseMerge(unsafe.Pointer(&sh.sync))
	} else {
		simrt.Block("database opened", func() bool { return sh.opened })
		simrt.Acquire(unsafe.Pointer(&sh.sync))
	}
	ctx, cancel := context.WithCancel(context.Background())
	q := &sqlClient{k: k, r: r, db: sh.db, ctx: ctx, stmts: map[int]*sqlStmt{}, held: map[int]*sqlRows{}}
	r.cleanup = append(r.cleanup, cancel)
	for _, o := range k.script.Ops {
		q.step(o)
		if r.S.Stopped {
			return
		}
	}
	q.fresh = false
	q.endTx()
	for _, o := range sortedKeys(q.held) {
		q.rowsEnd(q.held[o], false)
	}
	for _, o := range sortedKeys(q.stmts) {
		q.stmts[o].st.Close()
	}
	if k.idx == 0 {
		sh.ready = true
	}
	simrt.ReleaseMerge(unsafe.Pointer(&sh.sync))
	if sh.done++; sh.done < len(r.Sc.Clients) {
		return
	}
	simrt.Acquire(unsafe.Pointer(&sh.sync))
	sh.stmts.Each(func(_ int, s *sqlStmt) { s.st.Close() })
	q.call("db close", func() { sh.db.Close() })
	if r.Sc.MaxOpen > 0 {
		simrt.Sleep(400 * time.Second) // connections being opened by database/sql itself
	}
	for _, c := range r.N.Conns {
		if !c.IsClosed() {
			r.violate("leaked-socket", []string{"C13", "C15"}, "conn %d is still open after db.Close", c.ID)
		}
	}
}

// sharedStmt is the first handle of the statements all users share.
const sharedStmt = 1 << 20

type sqlClient struct {
	k      *client
	r      *Run
	db     *sql.DB
	ctx    context.Context
	tx     *sql.Tx
	mtx    *mTx
	txConn *snet.Conn
	stmts  map[int]*sqlStmt
	held   map[int]*sqlRows
	used   []*snet.Conn
	peak   int  // most connections in use at a time
	dials  int  // dialled before the call
	fresh  bool // the call takes a connection from database/sql
}

// call runs a call and notes the sockets it used.
func (q *sqlClient) call(what string, f func()) {
	q.r.calls++
	q.r.logf("sql %s", what)
	q.used = nil
	q.dials = q.r.N.Dials
	idle := q.r.N.Open - len(q.held)
	if q.tx != nil {
		idle--
	}
	q.peak = max(q.peak, q.r.N.Open-idle+1)
	q.k.cur, q.k.what = nil, what
	q.k.onUse = func(c *snet.Conn, kind string) {
		for _, u := range q.used {
			if u == c {
				return
			}
		}
		if kind == "close" {
			return
		}
		q.used = append(q.used, c)
		if q.r.sql.bad.Get(c) && kind == "write" && q.r.Sc.TLS == nil { // crypto/tls says goodbye
			q.r.violate("reused-broken", []string{"C15"}, "conn %d is used again after a call on it reported it broken", c.ID)
		}
	}
	var a0 uint64
	corrupt := q.r.Sc.Family == "corrupt" && !q.r.Sc.Trace
	if corrupt {
		a0 = heapAllocs()
	}
	start, to := q.r.S.Now(), q.r.N.TimedOut
	f()
	q.k.onUse = nil
	q.timing(what, start, to)
	if q.fresh && q.r.N.Dials > q.dials && len(q.r.Sc.Clients) == 1 && q.r.quiet() {
		switch limit := max(0, q.r.Sc.Idle); {
		case idle > 0:
			q.r.violate("not-reused", []string{"C15"}, "%s opened a connection though %d healthy ones were free", what, idle)
		case q.peak <= limit || limit == 0 && q.r.Sc.Idle == 0 && q.peak <= 2:
			// database/sql keeps that many idle connections
			if q.r.N.Dials > q.peak {
				q.r.violate("not-reused", []string{"C15"}, "%s opened connection %d though no more than %d are needed at a time", what, q.r.N.Dials, q.peak)
			}
		}
	}
	if corrupt {
		if d := heapAllocs() - a0; d > 48<<20+uint64(q.r.received())*4000 {
			q.r.violate("allocation", []string{"C07"}, "%s allocated %d MB when %d bytes had been received", what, d>>20, q.r.received())
		}
	}
}

// timing judges the time a call took. database/sql repeats a call on up to two
// further connections when one was reported broken.
func (q *sqlClient) timing(what string, start time.Duration, to int) {
	r := q.r
	if len(r.Sc.Clients) > 1 {
		return // waits for others
	}
	last, end := start, r.S.Now()
	for _, c := range r.N.Conns {
		if c.LastMove > last && c.LastMove <= end {
			last = c.LastMove
		}
	}
	timeout := time.Duration(r.Sc.timeoutMS()) * time.Millisecond
	allowed := 3*timeout + slack + r.S.Early()
	if r.Sc.TLS != nil {
		allowed += 15 * time.Second
	}
	if end > last+allowed {
		r.violate("late-return", []string{"C04", "C15"}, "%s returned %v after the last byte moved, the timeout is %v", what, end-last, timeout)
	}
	if r.N.TimedOut > to && !q.faulted() && !q.corrupt() && r.undec.Len() == 0 && (r.Sc.TLS == nil || r.tlsAcceptable()) {
		r.violate("timeout-without-fault", []string{"C04", "C15"}, "%s ran into the timeout though the server answered everything", what)
	}
}

// faulted: was any connection this call used (or tried to dial) hit by a fault?
func (q *sqlClient) faulted() bool {
	if len(q.used) == 0 {
		return q.r.anyFault || q.r.undec.Len() > 0 || len(q.r.Sc.Srv.Init) > 0 && len(q.r.Sc.Clients) > 1
	}
	for _, c := range q.used {
		if c.Dead || q.r.faultMark.Get(c) != "" {
			return true
		}
	}
	return q.r.N.Down || q.dialFault()
}

func (q *sqlClient) dialFault() bool {
	for _, k := range []string{snet.DialHole, snet.DialRefuse, snet.DialSlow, snet.Crash} {
		if q.r.N.FaultLog.Get(k) > 0 {
			return true
		}
	}
	return false
}

func sqlKind(err error) (string, map[string]interface{}) {
	if errors.Is(err, driver.ErrBadConn) {
		return "bad", nil
	}
	return classify(err)
}

// judge judges an error; returns its kind.
func (q *sqlClient) judge(what string, err error, e *ExecRec) string {
	kind, meta := sqlKind(err)
	q.r.logf("sql %s -> %s", what, brief(err))
	var fail map[string]interface{}
	if e != nil {
		fail = e.Fail
	}
	if q.r.Sc.TLS != nil && !q.r.tlsAcceptable() {
		if kind == "ok" && what != "prepare" && what != "sclose" || kind == "fail" {
			q.r.violate("unverified-server", []string{"C16", "C18"}, "%s talked to a server that must be rejected (%s)", what, q.r.Sc.TLS.Server)
		}
		return kind
	}
	switch kind {
	case "ok":
		return kind
	case "fail":
		if q.corrupt() {
			return kind
		}
		if q.planFail(meta) {
			return kind
		}
		for _, c := range q.used {
			if q.r.resetRefused.Get(c) {
				q.r.sql.bad.Set(c, true)
				return kind
			}
		}
		if fail == nil || !eqMap(meta, fail) {
			q.r.violate("wrong-failure", []string{"C02"}, "%s returned the failure %s, the server answered %s", what, short(meta), short(fail))
		}
		return kind
	}
	if !q.faulted() && !q.corrupt() {
		q.r.violate("spurious-error", []string{"C01"}, "%s returned %s; the server answered %s", what, brief(err), short(fail))
	}
	if q.fresh && len(q.used) == 0 && q.r.N.Dials == q.dials && len(q.r.Sc.Clients) == 1 {
		q.r.violate("reused-broken", []string{"C15"}, "%s returned %s without trying a working or new connection", what, brief(err))
	}
	for _, c := range q.used {
		q.r.sql.bad.Set(c, true)
	}
	return "bad"
}

// corrupt: what the server said may have been changed on the way.
func (q *sqlClient) corrupt() bool {
	for _, c := range q.used {
		if q.r.corrupt.Get(c) {
			return true
		}
	}
	return len(q.used) == 0 && q.r.corrupt.Len() > 0
}

// planFail: the rejection of a connection by the server.
func (q *sqlClient) planFail(meta map[string]interface{}) bool {
	for _, s := range q.r.Srv.Sess {
		if s != nil && (s.initPlan() == "fail" || s.initPlan() == "failclose") && eqMap(meta, initFailMeta(s.c.ID)) {
			return true
		}
	}
	return false
}

// sqlStmt is an open statement; it belongs to the transaction it was prepared in.
type sqlStmt struct {
	st  *sql.Stmt
	mtx *mTx
}

func (q *sqlClient) issue(e *ExecRec, m *mTx) {
	q.r.issue++
	e.Issued = q.r.issue
	e.MTx = m
	e.WantTx = m != nil
	if m != nil {
		m.execs = append(m.execs, e)
	}
}

// args marshals the parameters the way the documentation asks for.
func (q *sqlClient) args(e *ExecRec) ([]interface{}, bool) {
	p := e.Plan.params()
	if p == nil {
		return nil, true
	}
	// several maps are merged
	maps := []map[string]interface{}{p}
	if n := int(e.Plan.Seed % 7); n < 3 && len(p) > 1 && !e.Plan.Bad {
		maps = nil
		for i := 0; i < n+1; i++ {
			maps = append(maps, map[string]interface{}{})
		}
		for i, key := range sortedKeys(p) {
			maps[i%len(maps)][key] = p[key]
		}
	}
	var out []interface{}
	for _, m := range maps {
		b, err := encoding.Marshal(m)
		if err != nil {
			if !e.Plan.Bad {
				q.r.violate("spurious-error", []string{"C05"}, "Marshal of parameters failed: %s", brief(err))
			}
			return nil, false
		}
		if e.Plan.Bad {
			q.r.violate("bad-params-accepted", []string{"C05"}, "Marshal accepted parameters that cannot be represented")
			return nil, false
		}
		out = append(out, b)
	}
	return out, true
}

func (q *sqlClient) step(o *Op) {
	r := q.r
	q.fresh = q.tx == nil
	switch o.Op {
	case "begin":
		if q.tx != nil {
			return
		}
		q.txConn = nil
		var tx *sql.Tx
		var err error
		q.call("begin", func() { tx, err = q.db.BeginTx(q.ctx, nil) })
		t := q.claim("BEGIN")
		var fail map[string]interface{}
		if t != nil {
			fail = t.Fail
		}
		q.judge("begin", err, &ExecRec{Plan: &ExecPlan{}, Fail: fail})
		if err != nil {
			return
		}
		if (t == nil || !t.Pull) && !q.corrupt() {
			r.violate("false-success", []string{"C12"}, "begin succeeded but the server opened no transaction")
		}
		q.tx, q.mtx = tx, &mTx{told: "open"}
		if len(q.used) > 0 {
			q.txConn = q.used[len(q.used)-1]
		}
	case "commit", "rollback":
		q.fresh = false
		q.end(o.Op)
	case "openbad":
		q.k.openBad(o)
	case "sleep":
		q.k.step(o)
	case "exec":
		e := r.rec(o.X[0])
		args, ok := q.args(e)
		if !ok {
			return
		}
		q.issue(e, q.mtx)
		var res sql.Result
		var err error
		what := fmt.Sprintf("exec%v", o.X)
		q.call(what, func() {
			if q.tx != nil {
				res, err = q.tx.ExecContext(context.Background(), e.Plan.query(), args...)
			} else {
				res, err = q.db.ExecContext(context.Background(), e.Plan.query(), args...)
			}
		})
		if q.busy(q.mtx) {
			q.refused(what, e, err)
			return
		}
		q.execDone(what, e, res, err)
	case "query":
		e := r.rec(o.X[0])
		args, ok := q.args(e)
		if !ok {
			return
		}
		q.issue(e, q.mtx)
		var rows *sql.Rows
		var err error
		what := fmt.Sprintf("query%v", o.X)
		q.call(what, func() {
			if q.tx != nil {
				rows, err = q.tx.QueryContext(context.Background(), e.Plan.query(), args...)
			} else {
				rows, err = q.db.QueryContext(context.Background(), e.Plan.query(), args...)
			}
		})
		if q.busy(q.mtx) {
			if rows != nil {
				rows.Close()
			}
			q.refused(what, e, err)
			return
		}
		q.rows(what, e, rows, err, o)
	case "rnext":
		q.fresh = false
		if rr := q.held[o.H]; rr != nil && q.rowsNext(rr, o.N) {
			delete(q.held, o.H)
			q.rowsEnd(rr, true)
		}
	case "rclose":
		q.fresh = false
		if rr := q.held[o.H]; rr != nil {
			delete(q.held, o.H)
			q.rowsEnd(rr, false)
		}
	case "prep":
		var st *sql.Stmt
		var err error
		q.call("prepare", func() {
			if q.tx != nil {
				st, err = q.tx.PrepareContext(context.Background(), stmtText(o.S[0]))
			} else {
				st, err = q.db.PrepareContext(context.Background(), stmtText(o.S[0]))
			}
		})
		if q.judge("prepare", err, nil) == "ok" {
			if o.N > 0 {
				r.sql.stmts.Set(o.ID, &sqlStmt{st: st})
			} else {
				q.stmts[o.ID] = &sqlStmt{st: st, mtx: q.mtx}
			}
		}
		if o.N > 1 {
			r.sql.ready = true
			simrt.ReleaseMerge(unsafe.Pointer(&r.sql.sync))
		}
	case "sexec", "squery":
		s := q.stmts[o.H]
		if s == nil && o.H >= sharedStmt {
			simrt.Block("shared statements", func() bool { return r.sql.ready })
			simrt.Acquire(unsafe.Pointer(&r.sql.sync))
			s = r.sql.stmts.Get(o.H)
		}
		if s == nil {
			return
		}
		st, mtx := s.st, s.mtx
		if len(o.S) > 0 && q.tx != nil && mtx == nil {
			st, mtx = q.tx.StmtContext(context.Background(), st), q.mtx
		}
		q.fresh = mtx == nil
		e := r.rec(o.X[0])
		args, ok := q.args(e)
		if !ok {
			return
		}
		q.issue(e, mtx)
		what := fmt.Sprintf("%s%v", o.Op, o.X)
		if o.Op == "sexec" {
			var res sql.Result
			var err error
			q.call(what, func() { res, err = st.ExecContext(context.Background(), args...) })
			if q.busy(mtx) {
				q.refused(what, e, err)
				return
			}
			q.execDone(what, e, res, err)
			return
		}
		var rows *sql.Rows
		var err error
		q.call(what, func() { rows, err = st.QueryContext(context.Background(), args...) })
		if q.busy(mtx) {
			if rows != nil {
				rows.Close()
			}
			q.refused(what, e, err)
			return
		}
		q.rows(what, e, rows, err, o)
	case "sclose":
		q.fresh = false
		if s := q.stmts[o.H]; s != nil {
			delete(q.stmts, o.H)
			if s.mtx != nil {
				q.closeTxRows()
			}
			var err error
			q.call("sclose", func() { err = s.st.Close() })
			q.judge("sclose", err, nil)
		}
	}
}

func (q *sqlClient) claim(kind string) *TxRec {
	var last *TxRec
	for _, s := range q.r.Srv.Sess {
		if s == nil || s.c != q.txConn && !slices.Contains(q.used, s.c) {
			continue
		}
		for _, t := range s.Recs {
			if !t.Claimed && t.Kind == kind {
				t.Claimed = true
				last = t
			}
		}
	}
	return last
}

func (q *sqlClient) endTx() {
	if q.tx != nil {
		q.end("rollback")
	}
}

// busy: rows of the transaction are open, so that its connection can do nothing else.
func (q *sqlClient) busy(m *mTx) bool {
	for _, rr := range q.held {
		if m != nil && rr.mtx == m {
			return true
		}
	}
	return false
}

func (q *sqlClient) closeTxRows() {
	for _, o := range sortedKeys(q.held) {
		if rr := q.held[o]; rr.mtx != nil {
			delete(q.held, o)
			q.rowsEnd(rr, false)
		}
	}
}

// refused judges a call on a connection that is busy with open rows: an error, and nothing is sent.
func (q *sqlClient) refused(what string, e *ExecRec, err error) {
	kind, _ := sqlKind(err)
	q.r.logf("sql %s -> %s (rows are open)", what, brief(err))
	q.r.Probes.Add("sql-busy")
	tell(e, "misuse")
	if q.txConn != nil && q.r.corrupt.Get(q.txConn) {
		return
	}
	if kind == "ok" || kind == "fail" {
		q.r.violate("misuse-result", []string{"C01"}, "%s ran while rows of the same transaction were open", what)
	}
	if kind == "bad" && !q.faulted() {
		q.r.violate("spurious-error", []string{"C01"}, "%s while rows of the same transaction were open reported the connection broken", what)
	}
	if e.Conn >= 0 {
		q.r.violate("misuse-result", []string{"C01", "C05"}, "%s was sent while rows of the same transaction were open", what)
	}
}

func (q *sqlClient) end(op string) {
	if q.tx == nil {
		return
	}
	q.closeTxRows()
	tx, m := q.tx, q.mtx
	q.tx, q.mtx = nil, nil
	for id, s := range q.stmts {
		if s.mtx == m {
			delete(q.stmts, id) // database/sql closes them
		}
	}
	var err error
	q.call(op, func() {
		if op == "commit" {
			err = tx.Commit()
		} else {
			err = tx.Rollback()
		}
	})
	kind := map[string]string{"commit": "COMMIT", "rollback": "ROLLBACK"}[op]
	t := q.claim(kind)
	if kind == "COMMIT" {
		q.claim("ROLLBACK")
	}
	if len(q.used) == 0 && q.txConn != nil {
		q.used = append(q.used, q.txConn)
	}
	var fail map[string]interface{}
	if t != nil {
		fail = t.Fail
	}
	k := q.judge(op, err, &ExecRec{Plan: &ExecPlan{}, Fail: fail})
	switch {
	case k == "ok" && (t == nil || !t.Pull) && q.r.corrupt.Len() == 0:
		q.r.violate("false-success", []string{"C12"}, "%s reported success but the server did not complete it", op)
	case k == "ok" && op == "commit":
		m.told = "committed"
	case k == "ok":
		m.told = "rolledback"
	case k == "fail" && op == "commit":
		m.told = "failed"
	case k == "fail":
		m.told = "rolledback"
	case op == "commit" && !q.lost(m):
		m.told = "unknown"
	default:
		m.told = "lost"
	}
}

// lost: a statement of the transaction already reported the connection broken.
func (q *sqlClient) lost(m *mTx) bool {
	for _, e := range m.execs {
		if e.Told == "bad" {
			return true
		}
	}
	return false
}

func (q *sqlClient) execDone(what string, e *ExecRec, res sql.Result, err error) {
	kind := q.judge(what, err, e)
	tell(e, kind)
	if kind != "ok" {
		return
	}
	if q.corrupt() {
		res.RowsAffected()
		return
	}
	if e.SumMeta == nil {
		q.k.falseSuccess(&mConn{net: q.conn()}, what, e)
		return
	}
	if n, err := res.RowsAffected(); err != nil || n != affected(e.SumMeta) {
		q.r.violate("wrong-summary", []string{"C01", "C15"}, "%s: RowsAffected %d,%v, want %d", what, n, err, affected(e.SumMeta))
	}
}

func (q *sqlClient) conn() *snet.Conn {
	if len(q.used) > 0 {
		return q.used[len(q.used)-1]
	}
	return nil
}

// sqlRows is a result set in use.
type sqlRows struct {
	what string
	e    *ExecRec
	m    *mConn
	rows *sql.Rows
	cols []string
	used []*snet.Conn
	n    int
	mtx  *mTx
}

// rows judges a new result set and reads it, or keeps it for later.
func (q *sqlClient) rows(what string, e *ExecRec, rows *sql.Rows, err error, o *Op) {
	r := q.r
	kind := q.judge(what, err, e)
	if kind != "ok" {
		tell(e, kind)
		return
	}
	rr := &sqlRows{what: what, e: e, rows: rows, mtx: e.MTx, m: &mConn{net: q.conn()}, used: q.used}
	rr.cols, err = rows.Columns()
	if err != nil {
		r.violate("wrong-metadata", []string{"C01", "C15"}, "%s: Columns: %v", what, err)
	}
	switch {
	case q.corrupt():
	case e.RunMeta == nil:
		q.k.falseSuccess(rr.m, what, e)
	default:
		q.k.judgeCols(rr.m, what, e, e.RunMeta, rr.cols)
	}
	if o.ID != 0 {
		r.Probes.Add("rows-held")
		q.held[o.ID] = rr
		return
	}
	q.rowsEnd(rr, q.rowsNext(rr, o.N))
}

// rowsNext reads up to limit rows (all if negative); reports whether the end was reached.
func (q *sqlClient) rowsNext(rr *sqlRows, limit int) bool {
	q.fresh = false
	r, e := q.r, rr.e
	for k := 0; limit < 0 || k < limit; k++ {
		var more bool
		q.call("next", func() { more = rr.rows.Next() })
		rr.used = append(rr.used, q.used...)
		if !more {
			return true
		}
		vals := make([]interface{}, len(rr.cols))
		ptrs := make([]interface{}, len(rr.cols))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		err := rr.rows.Scan(ptrs...)
		if q.corrupt() || r.corrupt.Get(rr.m.net) {
			continue
		}
		if err != nil {
			r.violate("wrong-row", []string{"C15"}, "%s: Scan: %v", rr.what, err)
			return false
		}
		if rr.n >= len(e.Rows) {
			r.violate("wrong-row", []string{"C01", "C15"}, "%s: row %d, the server sent %d", rr.what, rr.n, len(e.Rows))
			return false
		}
		for i, v := range vals {
			q.value(rr.what, e, rr.n, i, v, e.Rows[rr.n][i])
		}
		rr.n++
	}
	return false
}

// rowsEnd closes a result set and judges how it ended.
func (q *sqlClient) rowsEnd(rr *sqlRows, ended bool) {
	q.fresh = false
	r, e, what := q.r, rr.e, rr.what
	rerr := rr.rows.Err()
	var cerr error
	q.call("rclose", func() { cerr = rr.rows.Close() })
	q.used = append(q.used, rr.used...)
	if q.corrupt() {
		if rerr == nil {
			rerr = cerr
		}
		tell(e, q.judge(what+" rows", rerr, e))
		return
	}
	if ended && rerr == nil {
		if e.SumMeta == nil || rr.n != len(e.Rows) {
			r.violate("silent-truncation", []string{"C01", "C03"}, "%s: end reported after %d rows; the server sent %d, failure %s", what, rr.n, len(e.Rows), short(e.Fail))
		}
		if q.judge(what+" close", cerr, e) == "ok" {
			tell(e, "ok")
		}
		return
	}
	if rerr == nil {
		rerr = cerr
		if rerr == nil && e.Fail != nil {
			r.violate("lost-failure", []string{"C02"}, "%s: closing the rows reported success though the statement failed", what)
		}
		if rerr == nil && e.SumMeta == nil && e.Fail == nil {
			q.k.falseSuccess(rr.m, what, e)
		}
	}
	tell(e, q.judge(what+" rows", rerr, e))
}

func (q *sqlClient) value(what string, e *ExecRec, n, i int, got, want interface{}) {
	switch want.(type) {
	case []interface{}, map[string]interface{}, graph.Node, graph.Relationship, graph.UnboundRelationship, graph.Path:
		b, ok := got.([]byte)
		if !ok {
			q.r.violate("wrong-row", []string{"C15"}, "%s: column %d is %T, want marshalled bytes", what, i, got)
			return
		}
		v, err := encoding.Unmarshal(b)
		if err != nil {
			q.r.violate("wrong-row", []string{"C15"}, "%s: column %d does not unmarshal: %s", what, i, brief(err))
			return
		}
		got = v
	}
	if !eqVal(got, want) {
		q.r.violate("wrong-row", []string{"C01", "C06", "C15"}, "%s: row %d column %d of X%d is %s, the server sent %s", what, n, i, e.Plan.ID, short(got), short(want))
	}
}

func sortedKeys[K int | string, V any](m map[K]V) []K {
	return slices.Sorted(maps.Keys(m))
}
