package harness

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"vsim/simrt"
	"vsim/snet"
)

// ExecRec is what the server saw and answered for one execution: the oracle.
type ExecRec struct {
	Plan     *ExecPlan
	Issued   int // order in which callers issued it; 0 = never (or expected to be refused locally)
	Conn     int
	Received int
	Pulled   bool
	Discard  bool
	RunMeta  map[string]interface{}
	Rows     [][]interface{}
	SumMeta  map[string]interface{}
	Fail     map[string]interface{} // FAILURE metadata, on run or later
	FailRun  bool
	Ignored  bool
	Tx       int // server transaction it ran in; 0 = auto commit
	Applied  int
	Borrow   int // borrow (pool handle) that issued it
	WantTx   bool
	Told     string // what the caller was told: "", ok, fail, bad
	MTx      *mTx
}

// TxRec is a transaction control statement the server received.
type TxRec struct {
	Kind    string
	Conn    int
	Run     bool // answered positively
	Pull    bool
	Fail    map[string]interface{}
	Ignored bool
	Claimed bool // asked for by the caller (or still under way when the socket was closed)
	plan    string
}

const (
	stHandshake = iota
	stConnected
	stReady
	stStreaming
	stFailed
	stDefunct
)

type Server struct {
	R     *Run
	Cfg   SrvCfg
	Sess  []*Session
	txSeq int
	txCnt simrt.Counts
}

type Session struct {
	srv         *Server
	c           *snet.Conn
	w           func(b []byte) // writes to the client (through TLS if enabled)
	rng         *rand.Rand
	wide        *rand.Rand
	state       int
	hs          []byte
	uf          unframer
	queue       [][]byte
	busy        bool
	gone        bool
	tx          int
	txFail      bool
	txEx        []*ExecRec
	cur         *ExecRec
	curTx       *TxRec
	ack         string
	Recs        []*TxRec
	lastI       int // issue number of the last execution seen
	owner       int // borrow of the last execution seen
	InitOK      bool
	Bytes       int
	reset       bool // RESET was processed (refused ack)
	interrupted bool // only RESET gets an answer
	undec       bool // a message that cannot be decoded was sent: nothing after it counts
}

func (sv *Server) accept(c *snet.Conn) *Session {
	s := &Session{srv: sv, c: c, rng: newRand(sv.Cfg.Seed, uint64(c.ID)*31+5)}
	s.w = c.ServerSend
	if sv.Cfg.Wide {
		s.wide = newRand(sv.Cfg.Seed, uint64(c.ID)*31+6)
	}
	for len(sv.Sess) <= c.ID {
		sv.Sess = append(sv.Sess, nil)
	}
	sv.Sess[c.ID] = s
	return s
}

func (s *Session) initPlan() string {
	if s.srv.R.probing {
		return ""
	}
	return s.srv.Cfg.Init[s.c.ID]
}

// violate reports a protocol violation of the client, unless the bytes it
// received were corrupted: then it may be misled into anything.
func (s *Session) violate(class string, props []string, f string, a ...interface{}) {
	if s.srv.R.corrupt.Get(s.c) {
		return
	}
	s.srv.R.violate(class, props, f, a...)
}

func (s *Session) Closed() {
	if s.gone {
		return
	}
	s.gone = true
	s.state = stDefunct
	s.endTx(false)
}

func (s *Session) endTx(commit bool) {
	if s.tx == 0 {
		return
	}
	if commit {
		for _, r := range s.txEx {
			if r.Plan.Write {
				r.Applied++
			}
		}
	}
	s.srv.R.logf("conn %d tx %d end commit=%v", s.c.ID, s.tx, commit)
	s.tx, s.txFail, s.txEx = 0, false, nil
}

// Receive gets client bytes (after TLS).
func (s *Session) Receive(b []byte) {
	if s.gone {
		return
	}
	s.Bytes += len(b)
	if s.state == stHandshake {
		if t := s.srv.R.Sc.TLS; t != nil && t.Server == "plain" && len(s.hs) == 0 && b[0] == 0x16 {
			s.srv.R.faultConn(s.c, "no TLS") // a TLS client hello, which this server cannot make sense of
			s.c.ServerClose()
			return
		}
		if p := s.initPlan(); p != "" && p != "fail" && p != "failclose" {
			s.srv.R.faultConn(s.c, "refused "+p)
		}
		s.hs = append(s.hs, b...)
		if len(s.hs) < 20 {
			if !bytes.HasPrefix([]byte{0x60, 0x60, 0xb0, 0x17}, s.hs[:min(4, len(s.hs))]) {
				s.violate("bad-preamble", []string{"C05", "C14"}, "conn %d: handshake starts with %x", s.c.ID, s.hs)
				s.c.ServerClose()
			}
			return
		}
		b = s.hs[20:]
		s.handshake()
	}
	s.uf.buf = append(s.uf.buf, b...)
	for {
		m, ok := s.uf.next()
		if !ok {
			break
		}
		s.queue = append(s.queue, m)
	}
	s.kick()
}

func (s *Session) handshake() {
	s.state = stConnected
	offers := false
	for i := 4; i < 20; i += 4 {
		if binary.BigEndian.Uint32(s.hs[i:]) == 1 {
			offers = true
		}
	}
	if !bytes.Equal(s.hs[:4], []byte{0x60, 0x60, 0xb0, 0x17}) || !offers {
		s.violate("bad-preamble", []string{"C05", "C14"}, "conn %d: handshake %x", s.c.ID, s.hs[:20])
	}
	v := []byte{0, 0, 0, 1}
	switch s.initPlan() {
	case "v0":
		v = []byte{0, 0, 0, 0}
	case "http":
		v = []byte("HTTP")
	case "silent":
		return
	case "hsclose":
		s.c.ServerClose()
		return
	case "hsshort":
		s.w([]byte{0, 0})
		s.c.ServerClose()
		return
	}
	if p := s.initPlan(); strings.HasPrefix(p, "v:") {
		v, _ = hex.DecodeString(p[2:])
	}
	s.w(v)
	s.mark()
	if p := s.initPlan(); p == "v0" || p == "http" {
		s.c.ServerClose()
	}
}

func (s *Session) mark() { s.c.S2CMarks = append(s.c.S2CMarks, s.c.Sent()) }

func (s *Session) think() time.Duration {
	if s.srv.Cfg.ThinkUS == 0 {
		return 0
	}
	return time.Duration(s.rng.IntN(s.srv.Cfg.ThinkUS+1)) * time.Microsecond
}

func (s *Session) kick() {
	if s.busy || len(s.queue) == 0 || s.gone {
		return
	}
	s.busy = true
	s.srv.R.S.After(s.think(), func() {
		if s.gone {
			return
		}
		m := s.queue[0]
		s.queue = s.queue[1:]
		s.process(m)
	})
}

// done ends the processing of one message.
func (s *Session) done() {
	s.busy = false
	s.kick()
}

func (s *Session) send(sig byte, fields ...interface{}) {
	s.sendRaw(packMsg(s.wide, sig, fields...))
}

func (s *Session) sendRaw(msg []byte) {
	s.w(frame(msg, s.srv.Cfg.Chunk, s.rng))
	s.mark()
}

func (s *Session) illegal(what string) {
	names := []string{"handshake", "connected", "ready", "streaming", "failed", "defunct"}
	s.violate("illegal-message", []string{"C05"}, "conn %d: %s in state %s", s.c.ID, what, names[s.state])
	s.send(sigFailure, map[string]interface{}{"code": "Neo.ClientError.Request.Invalid", "message": "illegal " + what})
	s.c.ServerClose()
}

func (s *Session) process(msg []byte) {
	u := &unpacker{b: msg}
	v, err := u.val()
	st, ok := v.(Struct)
	if err != nil || !ok || u.i != len(msg) {
		s.violate("undecodable-request", []string{"C05"}, "conn %d: cannot decode request (%v, %d of %d bytes) %x", s.c.ID, err, u.i, len(msg), msg[:min(len(msg), 64)])
		s.c.ServerClose()
		return
	}
	arity := map[byte]int{sigInit: 2, sigRun: 2, sigPull: 0, sigDiscard: 0, sigAck: 0, sigReset: 0}
	if n, ok := arity[st.Sig]; !ok || n != len(st.Fields) {
		s.illegal(fmt.Sprintf("message %x with %d fields", st.Sig, len(st.Fields)))
		return
	}
	if s.state == stConnected {
		if st.Sig != sigInit {
			s.illegal(fmt.Sprintf("message %x", st.Sig))
			return
		}
		s.init(st)
		return
	}
	if s.state == stFailed && st.Sig != sigReset && (st.Sig != sigAck || s.interrupted) {
		s.ignored(st)
		return
	}
	switch st.Sig {
	case sigRun:
		s.run(st)
	case sigPull, sigDiscard:
		s.pull(st.Sig == sigDiscard)
	case sigAck:
		if s.state != stFailed {
			s.illegal("ACK_FAILURE")
			return
		}
		if s.ack == "undec" {
			s.ack, s.state = "", stReady
			s.sendUndec(sigSuccess, map[string]interface{}{})
			s.done()
			return
		}
		if s.ack == "refuse" || s.ack == "dead" || s.ack == "undecreset" {
			s.srv.R.logf("conn %d ack refused", s.c.ID)
			s.srv.R.Probes.Add("ack-refused")
			if s.ack == "refuse" {
				s.ack = ""
			}
			s.send(sigFailure, map[string]interface{}{"code": "Neo.ClientError.Request.Ack", "message": "refused"})
			s.done()
			return
		}
		s.state = stReady
		s.send(sigSuccess, map[string]interface{}{})
		s.done()
	case sigReset:
		if s.ack == "dead" {
			s.srv.R.Probes.Add("reset-refused")
			s.send(sigFailure, map[string]interface{}{"code": "Neo.ClientError.Request.Reset", "message": "refused"})
			s.done()
			return
		}
		s.srv.R.Probes.Add("reset")
		s.endTx(false)
		s.cur, s.curTx = nil, nil
		s.reset, s.interrupted = true, false
		s.state = stReady
		if s.ack == "undecreset" {
			s.ack = ""
			s.sendUndec(sigSuccess, map[string]interface{}{})
		} else {
			s.send(sigSuccess, map[string]interface{}{})
		}
		s.done()
	default:
		s.illegal(fmt.Sprintf("message %x", st.Sig))
	}
}

func (s *Session) init(st Struct) {
	r := s.srv.R
	name, ok1 := st.Fields[0].(string)
	tok, ok2 := st.Fields[1].(map[string]interface{})
	want := map[string]interface{}{"scheme": "none"}
	if r.Sc.User != "" {
		want = map[string]interface{}{"scheme": "basic", "principal": r.Sc.User, "credentials": r.Sc.Pass}
	}
	if !ok1 || !ok2 || name != bolt.ClientID || !eqVal(tok, want) {
		s.violate("wrong-init", []string{"C14", "C18"}, "conn %d: INIT %s %s, want %q %s", s.c.ID, short(st.Fields[0]), short(st.Fields[1]), bolt.ClientID, short(want))
	}
	switch s.initPlan() {
	case "fail":
		s.state = stFailed
		s.send(sigFailure, initFailMeta(s.c.ID))
		s.srv.R.S.After(time.Second, s.c.ServerClose)
	case "failclose":
		s.state = stFailed
		s.send(sigFailure, initFailMeta(s.c.ID))
		s.c.ServerClose()
	case "ignored":
		s.send(sigIgnored)
	case "record":
		s.send(sigRecord, []interface{}{int64(1)})
	case "initclose":
		s.c.ServerClose()
		return
	case "initsilent":
		return
	case "initjunk":
		s.w(frame([]byte{0xB1, 0x55, 0xA0}, ChunkOne, s.rng))
	case "initundec":
		s.sendUndec(sigSuccess, map[string]interface{}{"server": "Neo4j/3.1.0"})
		s.state = stReady
	default:
		s.state = stReady
		s.InitOK = true
		s.send(sigSuccess, map[string]interface{}{"server": "Neo4j/3.1.0", "conn": int64(s.c.ID)})
	}
	s.done()
}

func initFailMeta(conn int) map[string]interface{} {
	return map[string]interface{}{"code": "Neo.ClientError.Security.Unauthorized", "message": fmt.Sprintf("The client is unauthorized (%d)", conn)}
}

func (s *Session) ignored(st Struct) {
	if st.Sig == sigRun {
		text, _ := st.Fields[0].(string)
		switch text {
		case "BEGIN", "COMMIT", "ROLLBACK":
			t := &TxRec{Kind: text, Conn: s.c.ID, Ignored: true, Claimed: s.c.IsClosed()}
			s.Recs = append(s.Recs, t)
		default:
			if rec := s.identify(st); rec != nil {
				rec.Ignored = true
			}
		}
	}
	s.send(sigIgnored)
	s.done()
}

// identify finds the execution a RUN belongs to and checks text, parameters and order.
func (s *Session) identify(st Struct) *ExecRec {
	r := s.srv.R
	text, _ := st.Fields[0].(string)
	params, okp := st.Fields[1].(map[string]interface{})
	if st.Fields[1] == nil {
		params, okp = map[string]interface{}{}, true
	}
	id := -1
	if strings.HasPrefix(text, "/*X") {
		if i := strings.Index(text, "*/"); i > 0 {
			id, _ = strconv.Atoi(text[3:i])
		}
	} else if strings.HasPrefix(text, "/*S") {
		if x, ok := params["x"].(int64); ok {
			id = int(x)
		}
	}
	rec := r.rec(id)
	if rec == nil {
		s.violate("unknown-statement", []string{"C05"}, "conn %d: RUN %s %s matches no execution the caller asked for", s.c.ID, short(text), short(params))
		return nil
	}
	if text != rec.Plan.query() {
		s.violate("wrong-text", []string{"C05"}, "conn %d X%d: query text %s, want %s", s.c.ID, id, short(text), short(rec.Plan.query()))
	}
	if rec.Plan.Bad {
		s.violate("bad-params-sent", []string{"C05"}, "conn %d X%d: a request with unrepresentable parameters reached the server", s.c.ID, id)
	} else if want := rec.Plan.wantParams(); !okp || !eqMap(params, want) {
		s.violate("wrong-params", []string{"C05"}, "conn %d X%d: parameters %s, want %s", s.c.ID, id, diff(params, want), short(want))
	}
	if rec.Issued == 0 {
		s.violate("unissued-run", []string{"C05", "C08"}, "conn %d X%d: reached the server though the call was not allowed to use the connection", s.c.ID, id)
	}
	rec.Received++
	rec.Conn = s.c.ID
	if rec.Received > 1 {
		s.violate("duplicate-run", []string{"C05", "C12", "C15"}, "X%d was sent to the server %d times", id, rec.Received)
	}
	queued := s.srv.R.Sc.SQL && len(s.srv.R.Sc.Clients) > 1 // calls wait for connections in database/sql
	if rec.Issued != 0 && rec.Issued < s.lastI && !queued {
		s.violate("run-order", []string{"C05"}, "conn %d X%d arrived after a later statement", s.c.ID, id)
	}
	s.lastI = rec.Issued
	if rec.Borrow != s.owner {
		// first statement of a new borrower on this connection
		if s.tx != 0 && !rec.WantTx {
			s.violate("carried-tx", []string{"C09", "C12"}, "conn %d X%d runs inside a transaction of the previous user", s.c.ID, id)
		}
		s.owner = rec.Borrow
	}
	return rec
}

func diff(a, b map[string]interface{}) string {
	for k, v := range b {
		if w, ok := a[k]; !ok {
			return fmt.Sprintf("missing %q", k)
		} else if !eqVal(v, w) {
			return fmt.Sprintf("%q is %s not %s", k, short(w), short(v))
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			return fmt.Sprintf("extra %q", k)
		}
	}
	return "?"
}

func (s *Session) fail(meta map[string]interface{}, ack string) {
	s.state = stFailed
	s.ack = ack
	if ack == "dead" {
		s.srv.R.faultConn(s.c, "reset refused")
		s.srv.R.resetRefused.Set(s.c, true)
	}
	s.srv.R.Probes.Add("failure-sent")
	s.send(sigFailure, meta)
	s.done()
}

// interrupt ends the session's work the way an administrator does: whatever is
// asked of it is ignored until it is reset.
func (s *Session) interrupt() {
	s.endTx(false)
	s.cur, s.curTx = nil, nil
	s.state, s.interrupted, s.undec = stFailed, true, true
	s.srv.R.faultConn(s.c, "interrupted")
	s.srv.R.undec.Set(s.c, true)
	s.srv.R.Probes.Add("interrupted")
	s.send(sigIgnored)
	s.done()
}

func (s *Session) run(st Struct) {
	r := s.srv.R
	if s.state != stReady {
		s.illegal("RUN")
		return
	}
	text, ok := st.Fields[0].(string)
	if !ok {
		s.illegal("RUN without text")
		return
	}
	if text == "BEGIN" || text == "COMMIT" || text == "ROLLBACK" {
		s.control(text, st)
		return
	}
	rec := s.identify(st)
	if rec == nil {
		s.fail(map[string]interface{}{"code": "Neo.ClientError.Statement.SyntaxError", "message": "unknown statement"}, "")
		return
	}
	rec.Tx = s.tx
	if (s.tx != 0) != rec.WantTx && !s.reset {
		s.violate("wrong-tx", []string{"C12"}, "conn %d X%d: executed in transaction=%v, the caller has a transaction open=%v", s.c.ID, rec.Plan.ID, s.tx != 0, rec.WantTx)
	}
	p := rec.Plan
	r.logf("conn %d RUN X%d tx=%d", s.c.ID, p.ID, s.tx)
	if p.Undec == "intrun" {
		s.interrupt()
		return
	}
	if s.tx != 0 && s.txFail {
		h := s.heard(rec)
		h.Fail = map[string]interface{}{"code": "Neo.ClientError.Transaction.Terminated", "message": fmt.Sprintf("transaction failed before X%d", p.ID)}
		h.FailRun = true
		s.fail(h.Fail, "")
		return
	}
	if p.Fail == "run" {
		s.txFail = s.tx != 0
		if p.Undec == "run" {
			s.state, s.ack = stFailed, p.Ack
			s.sendUndec(sigFailure, failMeta(p))
			s.done()
			return
		}
		s.heard(rec).Fail = failMeta(p)
		s.heard(rec).FailRun = true
		s.fail(failMeta(p), p.Ack)
		return
	}
	if p.Raw != "" && s.raw(p) {
		return
	}
	meta := map[string]interface{}{"fields": p.columns()}
	if !s.srv.Cfg.NoExtra {
		meta["x"] = int64(p.ID)
		meta["result_available_after"] = int64(p.ID % 7)
	}
	s.cur = rec
	s.state = stStreaming
	if p.Undec == "run" {
		s.sendUndec(sigSuccess, meta)
	} else {
		s.heard(rec).RunMeta = meta
		s.send(sigSuccess, meta)
	}
	s.done()
}

var failCodes = []string{"Neo.ClientError.Statement.SyntaxError", "Neo.ClientError.Statement.SyntaxError", "Neo.ClientError.Statement.TypeError", "Neo.ClientError.Schema.ConstraintValidationFailed",
	"Neo.ClientError.Transaction.Terminated", "Neo.ClientError.Transaction.TransactionTimedOut", "Neo.ClientError.Cluster.NotALeader", "Neo.ClientError.General.ForbiddenOnReadOnlyDatabase",
	"Neo.ClientError.Security.Unauthorized", "Neo.ClientError.Request.Invalid", "Neo.ClientNotification.Statement.UnboundedVariableLengthPattern", "Neo.DatabaseError.General.UnknownError",
	"Neo.DatabaseError.Statement.ExecutionFailed", "Neo.DatabaseError.Transaction.TransactionCommitFailed", "Neo.TransientError.Transaction.DeadlockDetected", "Neo.TransientError.Transaction.DeadlockDetected",
	"Neo.TransientError.Transaction.LockClientStopped", "Neo.TransientError.General.DatabaseUnavailable", "Neo.TransientError.Network.CommunicationError", "Neo.TransientError.Transaction.Terminated",
	"Neo.TransientError.Cluster.NoLeaderAvailable", "", "%!s(MISSING)"}

func failMeta(p *ExecPlan) map[string]interface{} {
	r := newRand(p.Seed, 4)
	m := map[string]interface{}{"code": failCodes[r.IntN(len(failCodes))], "message": fmt.Sprintf("planned failure of X%d %s", p.ID, genStr(newRand(p.Seed, 3), int(p.Seed%300)))}
	if r.IntN(6) == 0 {
		m["extra"] = map[string]interface{}{"n": int64(p.ID)}
	}
	return m
}

func (s *Session) pull(discard bool) {
	if s.state != stStreaming {
		s.illegal(map[bool]string{true: "DISCARD_ALL", false: "PULL_ALL"}[discard])
		return
	}
	if s.curTx != nil {
		s.pullControl()
		return
	}
	rec := s.cur
	p := rec.Plan
	rec.Pulled, rec.Discard = true, discard
	n := p.Rows
	if p.Fail == "rows" && p.FailAt < n {
		n = p.FailAt
	}
	if discard {
		n = 0
	}
	s.rows(rec, 0, n)
}

func (s *Session) rows(rec *ExecRec, i, n int) {
	p := rec.Plan
	for ; i < n; i++ {
		row := p.row(i)
		if p.Undec == "introw" && p.UndecAt%n == i {
			s.interrupt()
			return
		}
		if p.Undec == "row" && p.UndecAt%n == i {
			s.sendUndec(sigRecord, row)
		} else {
			h := s.heard(rec)
			h.Rows = append(h.Rows, row)
			s.send(sigRecord, row)
		}
		if p.GapMS > 0 && i+1 < n {
			k := i + 1
			s.srv.R.S.After(time.Duration(p.GapMS)*time.Millisecond, func() {
				if !s.gone {
					s.rows(rec, k, n)
				}
			})
			return
		}
	}
	if p.Undec == "intsum" {
		s.interrupt()
		return
	}
	if p.Fail == "rows" {
		s.txFail = s.tx != 0
		s.cur = nil
		if p.Undec == "sum" {
			s.state, s.ack = stFailed, p.Ack
			s.sendUndec(sigFailure, failMeta(p))
			s.done()
			return
		}
		s.heard(rec).Fail = failMeta(p)
		s.fail(failMeta(p), p.Ack)
		return
	}
	meta := map[string]interface{}{"type": "rw"}
	if !s.srv.Cfg.NoExtra {
		meta["sum"] = int64(p.ID)
		meta["result_consumed_after"] = int64(p.ID % 11)
		if st := p.stats(p.Write); st != nil {
			meta["stats"] = st
		}
		if p.Seed%5 == 0 {
			meta["plan"] = map[string]interface{}{"operatorType": "ProduceResults", "children": []interface{}{map[string]interface{}{"args": map[string]interface{}{}}}}
		}
	}
	if s.tx == 0 {
		if p.Write {
			rec.Applied++
		}
	} else {
		s.txEx = append(s.txEx, rec)
	}
	s.cur = nil
	s.state = stReady
	if p.Undec == "sum" {
		s.sendUndec(sigSuccess, meta)
	} else {
		s.heard(rec).SumMeta = meta
		s.send(sigSuccess, meta)
	}
	s.done()
}

func (s *Session) control(kind string, st Struct) {
	r := s.srv.R
	t := &TxRec{Kind: kind, Conn: s.c.ID, Claimed: s.c.IsClosed()}
	s.Recs = append(s.Recs, t)
	if m, ok := st.Fields[1].(map[string]interface{}); st.Fields[1] != nil && (!ok || len(m) > 0) {
		s.violate("wrong-params", []string{"C05"}, "conn %d: %s with parameters %s", s.c.ID, kind, short(st.Fields[1]))
	}
	s.srv.txCnt.Add(kind)
	plan := s.srv.Cfg.TxFail[fmt.Sprintf("%s#%d", kind, s.srv.txCnt.Get(kind))]
	t.plan = plan
	r.logf("conn %d %s tx=%d plan=%s", s.c.ID, kind, s.tx, plan)
	bad := func(msg string) {
		meta := map[string]interface{}{"code": "Neo.ClientError.Transaction.Invalid", "message": fmt.Sprintf("%s %s #%d", kind, msg, s.srv.txCnt.Get(kind))}
		if !s.undec {
			t.Fail = meta
		}
		s.fail(meta, "")
	}
	switch {
	case plan == "intrun":
		s.interrupt()
		return
	case plan == "run":
		if kind != "BEGIN" {
			s.endTx(false)
		}
		bad("planned")
		return
	case kind == "BEGIN" && s.tx != 0:
		bad("nested")
		s.violate("nested-begin", []string{"C12", "C09"}, "conn %d: BEGIN inside an open transaction", s.c.ID)
		return
	case kind != "BEGIN" && s.tx == 0:
		if !s.reset {
			s.violate("tx-control-without-tx", []string{"C12"}, "conn %d: %s without an open transaction", s.c.ID, kind)
		}
		bad("no transaction")
		return
	case kind == "COMMIT" && s.txFail:
		s.endTx(false)
		bad("failed transaction")
		return
	}
	switch kind {
	case "BEGIN":
		s.srv.txSeq++
		s.tx = s.srv.txSeq
		s.reset = false
	case "COMMIT":
		if s.srv.Cfg.CommitAt != "pull" && plan == "" {
			s.endTx(true)
		}
	case "ROLLBACK":
		s.endTx(false)
	}
	s.curTx = t
	s.state = stStreaming
	if plan == "recrun" {
		s.misfit()
	} else if plan == "undecrun" {
		s.sendUndec(sigSuccess, map[string]interface{}{"fields": []interface{}{}})
	} else {
		t.Run = !s.undec
		s.send(sigSuccess, map[string]interface{}{"fields": []interface{}{}})
	}
	s.done()
}

func (s *Session) pullControl() {
	t := s.curTx
	s.curTx = nil
	plan := t.plan
	if plan == "intpull" {
		s.interrupt()
		return
	}
	if plan == "pull" {
		s.endTx(false)
		meta := map[string]interface{}{"code": "Neo.ClientError.Transaction.Invalid", "message": t.Kind + " planned at pull"}
		if !s.undec {
			t.Fail = meta
		}
		s.fail(meta, "")
		return
	}
	if t.Kind == "COMMIT" {
		s.endTx(true)
	}
	s.state = stReady
	if plan == "recpull" {
		s.misfit()
	} else if plan == "undecpull" {
		s.sendUndec(sigSuccess, map[string]interface{}{})
	} else {
		t.Pull = !s.undec
		s.send(sigSuccess, map[string]interface{}{})
	}
	s.done()
}

// heard is where the answers to an execution are recorded: nothing counts after
// a message that cannot be decoded, though the server goes on as if it had been.
func (s *Session) heard(rec *ExecRec) *ExecRec {
	if s.undec {
		return &ExecRec{Plan: rec.Plan}
	}
	return rec
}

// sendUndec sends a message like the given one that cannot be decoded.
func (s *Session) sendUndec(sig byte, field interface{}) {
	r := newRand(s.srv.Cfg.Seed, uint64(s.c.Sent())+17)
	var msg []byte
	switch r.IntN(8) {
	case 0: // cut
		full := packMsg(s.wide, sig, field)
		msg = full[:1+r.IntN(len(full)-1)]
	case 1: // of no known kind
		msg = packMsg(s.wide, []byte{0x55, 0x00, 0xFF, 0x72 ^ 0x0F, 0x2E}[r.IntN(5)], field)
	case 2: // no list or map at all
		msg = packMsg(s.wide, sig, badValue(r, field))
	default:
		msg = packMsg(s.wide, sig, spoil(r, field))
	}
	s.srv.R.faultConn(s.c, "undecodable")
	s.srv.R.undec.Set(s.c, true)
	s.srv.R.Probes.Add(fmt.Sprintf("undecodable-%02x", sig))
	s.srv.R.logf("conn %d undecodable %x", s.c.ID, msg[:min(len(msg), 40)])
	s.undec = true
	s.sendRaw(msg)
}

// misfit answers with a record where there can be none.
func (s *Session) misfit() {
	s.srv.R.faultConn(s.c, "misfit")
	s.srv.R.undec.Set(s.c, true)
	s.srv.R.Probes.Add("misfit")
	s.undec = true
	s.send(sigRecord, []interface{}{})
}

// raw answers an execution with malformed data; reports whether it took over.
func (s *Session) raw(p *ExecPlan) bool {
	r := newRand(p.Seed, 9)
	s.srv.R.corruptConn(s.c)
	s.srv.R.Probes.Add("raw-" + p.Raw)
	ok := func() { s.sendRaw(packMsg(nil, sigSuccess, map[string]interface{}{"fields": []interface{}{"a"}})) }
	rec := func(val []byte) []byte { return append([]byte{0xB1, sigRecord, 0x91}, val...) }
	switch p.Raw {
	case "sizes": // absurd sizes of strings, lists, maps
		ok()
		m := []byte{0xD0, 0xD1, 0xD2, 0xD4, 0xD5, 0xD6, 0xD8, 0xD9, 0xDA}[r.IntN(9)]
		v := append([]byte{m}, [][]byte{{0xFF, 0xFF, 0xFF, 0xFF}, {0x7F, 0xFF, 0xFF, 0xFF}, {0x80, 0, 0, 0}, {0x3F, 0xFF, 0xFF, 0xFF}, {0x0F, 0xFF, 0xFF, 0xFF}}[r.IntN(5)]...)
		s.sendRaw(rec(v))
	case "bomb": // nested headers that each claim many elements
		ok()
		var v []byte
		m := [][]byte{{0xD5, 0xFF, 0xFF}, {0xD9, 0xFF, 0xFF, 0x81, 'k'}, {0xD6, 0, 0xFF, 0xFF, 0xFF}, {0xD4, 0x7F}}[r.IntN(4)]
		for i := 0; i < 2000; i++ {
			v = append(v, m...)
		}
		s.sendRaw(rec(v))
	case "types": // fields of the wrong type
		ok()
		v := [][]byte{
			{0xB3, sigNode, 0x81, 'a', 0x90, 0xA0}, {0xB3, sigNode, 0x01, 0x01, 0xA0}, {0xB3, sigNode, 0x01, 0x91, 0x01, 0xA0}, {0xB3, sigNode, 0x01, 0x90, 0x90},
			{0xB5, sigRel, 0xC0, 1, 1, 0x81, 'a', 0xA0}, {0xB5, sigRel, 1, 0xC0, 1, 0x81, 'a', 0xA0}, {0xB5, sigRel, 1, 1, 0x80, 0x81, 'a', 0xA0}, {0xB5, sigRel, 1, 1, 1, 1, 0xA0}, {0xB5, sigRel, 1, 1, 1, 0x81, 'a', 1},
			{0xB3, sigURel, 0xC3, 0x81, 'a', 0xA0}, {0xB3, sigURel, 1, 1, 0xA0}, {0xB3, sigURel, 1, 0x81, 'a', 0x90},
			{0xB3, sigPath, 1, 0x90, 0x90}, {0xB3, sigPath, 0x91, 1, 0x90, 0x90}, {0xB3, sigPath, 0x90, 0x91, 1, 0x90}, {0xB3, sigPath, 0x90, 0x90, 0x91, 0x81, 'a'}, {0xB3, sigPath, 0x90, 0x90, 0x91, 0xC0}, {0xB3, sigPath, 0x90, 0x90, 1},
			{0xA1, 1, 1}, {0xA1, 0x90, 1}, {0xA1, 0xC0, 1}, {0xB1, 0x55, 1}, {0xDF}, {0xC4}, {0xE0}, {0xEF}, {0xDE, 0, 0}, {0xDC, 1, sigNode}, {0xDD, 0xFF, 0xFF, sigNode},
		}
		s.sendRaw(rec(v[r.IntN(len(v))]))
	case "trunc": // a message that ends inside a value
		ok()
		row := ExecPlan{ID: p.ID, Cols: 3, Class: ClMix, Seed: p.Seed}
		full := packMsg(nil, sigRecord, row.row(0))
		s.sendRaw(full[:r.IntN(len(full))])
	case "extra": // a message followed by unused bytes
		ok()
		s.sendRaw(append(packMsg(nil, sigRecord, []interface{}{int64(1)}), 1, 2, 3))
	case "empty":
		if r.IntN(2) == 0 {
			ok()
		}
		for i := 0; i < 1+r.IntN(4); i++ {
			s.sendRaw(nil)
		}
	case "runmeta": // odd but decodable metadata
		v := [][]byte{
			append([]byte{0xB1, sigSuccess, 0xA1, 0x86}, append([]byte("fields"), 0x01)...),
			append([]byte{0xB1, sigSuccess, 0xA1, 0x86}, append([]byte("fields"), 0x92, 0x01, 0xC0)...),
			append([]byte{0xB1, sigSuccess, 0xA1, 0x86}, append([]byte("fields"), 0xC0)...),
			{0xB1, sigSuccess, 0x90}, {0xB1, sigSuccess, 0xC0}, {0xB1, sigSuccess, 0x01}, {0xB0, sigSuccess}, {0xB2, sigSuccess, 0xA0, 0xA0}}
		s.sendRaw(v[r.IntN(len(v))])
	case "stats": // wrong types in the summary
		ok()
		v := []interface{}{"x", nil, int64(1), []interface{}{}, map[string]interface{}{"nodes-created": "many"}, map[string]interface{}{"nodes-deleted": nil}, map[string]interface{}{"relationships-created": 1.5}, map[string]interface{}{"relationships-deleted": []interface{}{}}}
		s.sendRaw(packMsg(nil, sigSuccess, map[string]interface{}{"stats": v[r.IntN(len(v))]}))
	case "msg": // a message that is not expected here
		if r.IntN(2) == 0 {
			ok()
		}
		v := [][]byte{{0xB0, sigIgnored}, {0xB0, sigAck}, {0xB0, sigReset}, {0xB0, sigPull}, {0xB0, sigDiscard}, {0xB1, sigRecord, 0x90}, {0xB1, sigRecord, 0xA0}, {0xB1, sigFailure, 0x90}, {0xB1, sigFailure, 0xC0}, {0xB0, sigFailure}, {0xB0, sigRecord}, {0x01}, {0xC0}, {0x80}, {0xC3}, {0x91, 0xC0}, {0xA0}, {0xB3, sigNode, 1, 0x90, 0xA0}, {0xB2, sigInit, 0x80, 0xA0}, {0xB2, sigRun, 0x80, 0xA0}}
		for i := 0; i < 1+r.IntN(3); i++ {
			s.sendRaw(v[r.IntN(len(v))])
		}
	case "fails": // several failures in a row
		for i := 0; i < 1+r.IntN(4); i++ {
			s.sendRaw(packMsg(nil, sigFailure, map[string]interface{}{"code": int64(1), "message": nil}))
		}
	case "deep": // nesting that would exhaust the stack
		ok()
		n := 3000000
		v := bytes.Repeat([]byte{0x91}, n)
		if r.IntN(2) == 0 {
			v = bytes.Repeat([]byte{0xA1, 0x81, 'k'}, n)
		}
		s.sendRaw(rec(v))
	case "random":
		b := make([]byte, 1+r.IntN(200))
		for i := range b {
			if r.IntN(2) == 0 {
				b[i] = byte(r.IntN(256))
			} else {
				b[i] = []byte{0xB1, 0x71, 0x70, 0x7F, 0x91, 0xA1, 0x81, 0xD0, 0xD5, 0xD9, 0xCB, 0xC1, 0xB3, 0x4E, 0x50}[r.IntN(15)]
			}
		}
		if r.IntN(3) == 0 {
			s.w(b)
		} else {
			s.sendRaw(b)
		}
	default:
		return false
	}
	// afterwards the server answers everything with SUCCESS, or goes silent, or closes
	switch r.IntN(4) {
	case 0:
		s.c.ServerClose()
	case 1: // silent
	default:
		s.cur = nil
		s.state = stDefunct
		k := 0
		var again func()
		again = func() {
			if k++; k > 6 || s.gone {
				return
			}
			s.sendRaw(packMsg(nil, sigSuccess, map[string]interface{}{"fields": []interface{}{"stray"}}))
			s.srv.R.S.After(300*time.Millisecond, again)
		}
		s.srv.R.S.After(100*time.Millisecond, again)
	}
	return true
}
