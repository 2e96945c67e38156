package harness

import (
	"fmt"
	"math/rand/v2"

	"vsim/snet"
)

// gen builds scenarios. Everything is drawn from one seeded source.
type gen struct {
	r     *rand.Rand
	sc    *Scenario
	nx    int
	ns    int
	nh    int
	short int // shortest timeout in ms
	tune  tune
}

// tune shifts the weights of the session generator.
type tune struct {
	fail    float64 // probability that an execution fails at the server
	ack     float64 // ... and the acknowledgement is refused
	write   float64
	tx      int // weight of transactions
	pipe    int
	prep    int
	query   int
	chunk   int
	timeout int
	bad     int // weight of unencodable parameters
	misuse  int
	reopen  int
	par     float64
	pclass  []string
	vclass  []string
	big     float64 // long query texts
	gap     float64
	txfail  float64
	maxRows int
	raw     float64
	undec   float64
	dirty   float64 // leave rows/tx/statement open at close
	len     int
	small   bool // nothing long: the order of things is all that matters
}

func defTune() tune {
	return tune{write: .5, tx: 6, pipe: 6, prep: 5, query: 12, chunk: 2, timeout: 1, bad: 1, misuse: 2, reopen: 1, par: .4,
		pclass: []string{ClInt, ClMix}, vclass: []string{ClInt, ClInt, ClMix, ClEdge, ClGraph}, big: .02, gap: .05, maxRows: 12, dirty: .3, len: 14}
}

func (g *gen) p(x float64) bool        { return g.r.Float64() < x }
func (g *gen) pick(s ...string) string { return s[g.r.IntN(len(s))] }
func (g *gen) n(lo, hi int) int        { return lo + g.r.IntN(hi-lo+1) }
func (g *gen) pickInt(s ...int) int    { return s[g.r.IntN(len(s))] }
func (g *gen) weighted(w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := g.r.IntN(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

var passwords = []string{"secretpw", "p@ss:w/rd?&#%", "päss wörd", "x", "correct horse battery staple 0123456789 0123456789", ""}

func (g *gen) base(prop, family string, seed uint64) {
	r := g.r
	sc := &Scenario{Prop: prop, Family: family, Seed: seed}
	g.sc = sc
	if g.p(.7) {
		sc.User = g.pick("neo4j", "user@host", "ünï", "a b")
		sc.Pass = passwords[r.IntN(len(passwords))]
	}
	sc.Timeout = g.pickInt(0, 1, 2, 5, 30, 90)
	g.short = sc.timeoutMS()
	if g.p(.3) {
		sc.URLVar = 1 + r.Uint64()>>12
		sc.Host = g.pick("", "localhost:7687", "10.1.2.3:7687", "[2001:db8::7]:7688", "db.example:80")
	}
	sc.Net = NetCfg{Seg: g.pickInt(0, 0, 1, 2, 3, 3), LatUS: g.pickInt(0, 10, 200, 1500), JitUS: g.pickInt(0, 0, 100, 3000), Seed: r.Uint64() >> 12}
	sc.Srv = SrvCfg{Chunk: g.n(0, 4), Wide: g.p(.25), ThinkUS: g.pickInt(0, 0, 100, 4000), Seed: r.Uint64() >> 12, CommitAt: g.pick("run", "pull"), NoExtra: g.p(.1)}
	sc.Sched = SchedCfg{Seed: r.Uint64() >> 12}
	if g.p(.75) {
		// most runs are about the order of things: keep what is moved small
		g.tune.vclass, g.tune.pclass, g.tune.maxRows, g.tune.big, g.tune.par = []string{ClInt}, []string{ClInt}, 3, .002, .15
	}
	sc.Trace = family != "corrupt" && g.p(.06) || g.p(.005)
}

func (g *gen) sched() {
	g.sc.Sched.MeanSlice = g.pickInt(3, 10, 30, 100, 1000)
	g.sc.Sched.PBlock = .5
	g.sc.Sched.PEarly = .2
}

// maxGap is the longest pause of a healthy server, in percent of the timeout.
func (g *gen) maxGap() int {
	if g.sc.Sched.MeanSlice != 0 {
		return 45
	}
	return 94
}

// capGaps sees to it that the pauses of a healthy server and slow networks
// together stay below the timeout.
func (g *gen) capGaps() {
	limit := 94
	for _, f := range g.sc.Faults {
		switch f.Kind {
		case snet.S2CPause, snet.C2SSlow, snet.DialSlow:
			limit = max(limit-45, 1)
		}
	}
	for _, p := range g.sc.Execs {
		p.GapMS = min(p.GapMS, g.short*limit/100)
	}
}

func (g *gen) exec(stmt int, inTx bool) int {
	t := &g.tune
	g.nx++
	p := &ExecPlan{ID: g.nx, Stmt: stmt, Cols: g.n(1, 4), Seed: g.r.Uint64() >> 12}
	switch g.r.IntN(12) {
	case 0, 1:
		p.Rows = 0
	case 2, 3, 4, 5:
		p.Rows = 1
	case 6:
		p.Rows = t.maxRows * 5
	default:
		p.Rows = g.n(1, t.maxRows)
	}
	if g.p(.05) && !t.small {
		p.Cols = g.pickInt(0, 16, 17, 40)
	}
	p.Class = t.vclass[g.r.IntN(len(t.vclass))]
	if (p.Class == ClBig || p.Class == ClDeep) && p.Rows > 3 {
		p.Rows = 1 + p.Rows%3
	}
	if p.Class == ClBig {
		p.Cols = min(p.Cols, 3)
	}
	if g.p(.02) {
		p.Class, p.Cols = ClNone, 0
	}
	if g.p(t.par) {
		p.NPar = g.n(1, 4)
		if g.p(.05) {
			p.NPar = g.pickInt(15, 16, 17, 40)
		}
		p.PClass = t.pclass[g.r.IntN(len(t.pclass))]
		if p.PClass == ClBig {
			p.NPar = min(p.NPar, 3)
		}
	}
	if stmt == 0 && !t.small {
		switch {
		case g.p(t.big):
			p.Text = g.pickInt(65400, 65500, 65520, 65530, 65535, 65536, 66000, 131000, 200000) + g.r.IntN(40)
		case g.p(.1):
			p.Text = g.pickInt(1, 100, 200, 230, 240, 250, 256, 300, 2000, 32700, 32768) + g.r.IntN(20)
		}
	}
	p.Write = g.p(t.write)
	if g.p(t.fail) {
		if g.p(.55) || p.Rows == 0 {
			p.Fail = "run"
			if g.p(.2) {
				p.Fail = "rows"
			}
		} else {
			p.Fail = "rows"
			p.FailAt = g.r.IntN(p.Rows + 1)
		}
		if !inTx && g.p(t.ack) {
			p.Ack = g.pick("refuse", "refuse", "dead")
		}
	}
	if g.p(t.gap) && p.Rows > 1 && p.Rows <= 6 {
		p.GapMS = max(1, g.short*g.n(5, g.maxGap())/100)
	}
	if g.p(t.raw) {
		p.Raw = g.pick("sizes", "sizes", "bomb", "types", "types", "types", "trunc", "trunc", "extra", "empty", "runmeta", "runmeta", "stats", "stats", "msg", "msg", "fails", "random", "random", "random")
		p.Fail, p.Ack = "", ""
	}
	if g.p(t.undec) {
		p.Undec = g.pick("run", "row", "row", "row", "sum", "intrun", "introw", "intsum", "ack", "ack")
		if p.Undec == "ack" {
			p.Undec, p.Ack = "", g.pick("undec", "undecreset")
			if p.Fail == "" {
				p.Fail, p.FailAt = g.pick("run", "rows"), g.r.IntN(p.Rows+1)
			}
		}
		if p.Undec == "row" || p.Undec == "introw" {
			p.Rows = max(p.Rows, 1)
			p.UndecAt = g.r.IntN(p.Rows)
			if p.Fail == "rows" {
				p.FailAt = p.Rows
			}
		}
	}
	g.sc.Execs = append(g.sc.Execs, p)
	return p.ID
}

func (g *gen) badExec(stmt int) int {
	id := g.exec(stmt, true)
	p := g.sc.Execs[len(g.sc.Execs)-1]
	p.Bad, p.Fail, p.Raw = true, "", ""
	return id
}

func (g *gen) handle() int { g.nh++; return g.nh }

// sess generates the operations of one client on one connection at a time.
type sess struct {
	g     *gen
	ops   []*Op
	open  string // "open" or "popen"
	h     int
	tx    int
	stmt  int
	texts []int
	pipe  bool
	rows  int
	hid   bool // rows without a visible statement
	past  []int
	pastS []int
	pastT []int
	pastH []int
}

func (s *sess) add(o *Op) { s.ops = append(s.ops, o) }

func (s *sess) connect() {
	s.h = s.g.handle()
	s.add(&Op{Op: s.open, ID: s.h})
	s.tx, s.stmt, s.rows = 0, 0, 0
}

func (s *sess) dropRows() {
	if s.rows != 0 {
		s.past = append(s.past, s.rows)
		s.rows = 0
	}
}

func (s *sess) close() {
	s.add(&Op{Op: "close", H: s.h})
	s.pastH = append(s.pastH, s.h)
	s.dropRows()
	if s.stmt != 0 {
		s.pastS = append(s.pastS, s.stmt)
	}
	if s.tx != 0 {
		s.pastT = append(s.pastT, s.tx)
	}
	s.stmt, s.tx, s.hid = 0, 0, false
	if s.g.p(.1) {
		s.add(&Op{Op: "close", H: s.h})
	}
}

func (s *sess) pipeN() int {
	if s.g.p(.02) && !s.g.tune.small {
		return s.g.n(7, 40)
	}
	return s.g.pickInt(1, 2, 2, 3, 3, 4, 6)
}

// pause lets time pass in the middle of whatever is going on.
func (s *sess) pause() {
	s.add(&Op{Op: "sleep", N: s.g.pickInt(1, 100, 1000, 5000, 70000, 100000)})
}

func (s *sess) misuse() {
	g := s.g
	switch g.r.IntN(7) {
	case 6:
		if len(s.pastH) > 0 {
			op := g.pick("exec", "queryall", "query", "pexec", "pquery", "begin", "prep", "pprep", "close", "chunk", "timeout")
			o := &Op{Op: op, ID: g.handle(), H: s.pastH[g.r.IntN(len(s.pastH))]}
			switch op {
			case "prep", "pprep":
				o.S = []int{g.text()}
			case "exec", "queryall", "query":
				o.X = []int{g.exec(0, true)}
			case "pexec", "pquery":
				o.X = []int{g.exec(0, true), g.exec(0, true)}
			case "timeout":
				o.N = 1000
			}
			s.add(o)
		}
	case 0:
		if len(s.past) > 0 {
			s.add(&Op{Op: g.pick("next", "all", "rclose"), H: s.past[g.r.IntN(len(s.past))], N: 1})
		}
	case 1:
		if len(s.past) > 0 {
			s.add(&Op{Op: g.pick("next", "rclose"), H: -s.past[g.r.IntN(len(s.past))], N: 1})
		} else if s.rows != 0 {
			s.add(&Op{Op: g.pick("next", "rclose"), H: -s.rows, N: 1})
		}
	case 2:
		if len(s.pastS) > 0 {
			h := s.pastS[g.r.IntN(len(s.pastS))]
			s.add(&Op{Op: g.pick("sexec", "squery", "spexec", "spquery"), ID: g.handle(), H: h, X: []int{g.exec(0, true)}})
		}
	case 3:
		if len(s.pastT) > 0 {
			s.add(&Op{Op: g.pick("commit", "rollback"), H: s.pastT[g.r.IntN(len(s.pastT))]})
		}
	case 4:
		s.add(&Op{Op: g.pick("exec", "queryall", "query"), ID: g.handle(), H: s.h, X: []int{g.exec(0, s.tx != 0)}})
		if s.stmt == 0 && s.rows == 0 {
			if o := s.ops[len(s.ops)-1]; o.Op == "query" {
				s.rows, s.hid = o.ID, true
			}
		}
	case 5:
		id := g.handle()
		s.add(&Op{Op: g.pick("begin", "prep", "pprep"), ID: id, H: s.h, S: []int{g.text()}})
		if o := s.ops[len(s.ops)-1]; s.stmt == 0 && s.rows == 0 {
			if o.Op != "begin" {
				s.stmt, s.pipe, s.texts = id, o.Op == "pprep", o.S
			} else if s.tx == 0 {
				s.tx = id
			}
		}
	}
}

func (g *gen) text() int { g.ns++; return g.ns }

func (s *sess) step() {
	g := s.g
	t := &g.tune
	inTx := s.tx != 0
	if g.r.IntN(100) < t.misuse {
		s.misuse()
		return
	}
	if g.p(.025) {
		s.pause()
	}
	if s.rows != 0 {
		switch g.r.IntN(11) {
		case 0, 1, 2, 3:
			s.add(&Op{Op: "next", H: s.rows, N: g.pickInt(1, 1, 2, 3, 5, 20)})
		case 4, 5, 6:
			s.add(&Op{Op: "all", H: s.rows})
		case 7, 8, 9:
			s.add(&Op{Op: "rclose", H: s.rows})
			s.dropRows()
			s.hid = false
		default:
			switch {
			case s.stmt != 0:
				s.add(&Op{Op: "sclose", H: s.stmt})
				s.pastS = append(s.pastS, s.stmt)
				s.dropRows()
				s.stmt = 0
			case inTx:
				s.endTx()
			case g.p(.3):
				s.close()
				s.connect()
			}
		}
		return
	}
	if s.stmt != 0 {
		var xs []int
		bad := g.r.IntN(60) < t.bad
		for i, x := range s.texts {
			if bad && i == len(s.texts)-1 {
				xs = append(xs, g.badExec(x))
			} else {
				xs = append(xs, g.exec(x, inTx))
			}
		}
		switch k := g.r.IntN(8); {
		case k < 3:
			op := "sexec"
			if s.pipe {
				op = "spexec"
			}
			s.add(&Op{Op: op, H: s.stmt, X: xs})
		case k < 6:
			op := "squery"
			if s.pipe {
				op = "spquery"
			}
			id := g.handle()
			s.add(&Op{Op: op, ID: id, H: s.stmt, X: xs})
			if !bad {
				s.rows, s.hid = id, false
			}
		default:
			g.sc.Execs = g.sc.Execs[:len(g.sc.Execs)-len(xs)]
			s.add(&Op{Op: "sclose", H: s.stmt})
			s.pastS = append(s.pastS, s.stmt)
			s.stmt = 0
		}
		return
	}
	endW := 0
	if inTx {
		endW = 10
	}
	switch g.weighted([]int{10, 6, t.query, t.pipe, t.pipe, t.prep, t.prep / 2, t.tx, endW, t.chunk, t.timeout, t.bad, t.reopen, 1}) {
	case 0:
		s.add(&Op{Op: "exec", H: s.h, X: []int{g.exec(0, inTx)}})
	case 1:
		s.add(&Op{Op: "queryall", H: s.h, X: []int{g.exec(0, inTx)}})
	case 2:
		id := g.handle()
		s.add(&Op{Op: "query", ID: id, H: s.h, X: []int{g.exec(0, inTx)}})
		s.rows, s.hid = id, true
	case 3, 4:
		var xs []int
		n := s.pipeN()
		for i := 0; i < n; i++ {
			if i == n-1 && g.r.IntN(60) < t.bad {
				xs = append(xs, g.badExec(0))
			} else {
				xs = append(xs, g.exec(0, inTx))
			}
		}
		id := g.handle()
		if g.p(.5) {
			s.add(&Op{Op: "pexec", H: s.h, X: xs})
		} else {
			s.add(&Op{Op: "pquery", ID: id, H: s.h, X: xs})
			s.rows, s.hid = id, true
		}
	case 5:
		s.stmt, s.pipe, s.texts = g.handle(), false, []int{g.text()}
		s.add(&Op{Op: "prep", ID: s.stmt, H: s.h, S: s.texts})
	case 6:
		s.stmt, s.pipe, s.texts = g.handle(), true, nil
		for i, n := 0, s.pipeN(); i < n; i++ {
			s.texts = append(s.texts, g.text())
		}
		s.add(&Op{Op: "pprep", ID: s.stmt, H: s.h, S: s.texts})
	case 7:
		if inTx {
			if g.p(.15) {
				s.add(&Op{Op: "begin", ID: g.handle(), H: s.h})
			} else {
				s.endTx()
			}
			return
		}
		s.tx = g.handle()
		s.add(&Op{Op: "begin", ID: s.tx, H: s.h})
	case 8:
		s.endTx()
	case 9:
		s.add(&Op{Op: "chunk", H: s.h, N: g.pickInt(0, 1, 2, 3, 7, 16, 100, 1000, 8192, 32767, 32768, 65534, 65535)})
	case 10:
		n := g.pickInt(200, 500, 1500, 8000)
		if n < g.short {
			g.short = n
			for _, p := range g.sc.Execs {
				p.GapMS = min(p.GapMS, n*g.maxGap()/100)
			}
		}
		s.add(&Op{Op: "timeout", H: s.h, N: n})
	case 11:
		s.add(&Op{Op: g.pick("exec", "queryall", "query"), ID: g.handle(), H: s.h, X: []int{g.badExec(0)}})
	case 12:
		s.close()
		s.connect()
	case 13:
		s.add(&Op{Op: "sleep", N: g.pickInt(1, 10, 1000, 70000)})
	}
}

func (s *sess) endTx() {
	s.add(&Op{Op: s.g.pick("commit", "commit", "rollback"), H: s.tx})
	s.dropRows()
	if s.stmt != 0 {
		s.pastS = append(s.pastS, s.stmt)
	}
	s.stmt = 0
	s.pastT = append(s.pastT, s.tx)
	s.tx = 0
}

// session generates the whole script of one client.
func (g *gen) session(open string) *Script {
	s := &sess{g: g, open: open}
	s.connect()
	n := g.n(3, g.tune.len)
	for i := 0; i < n; i++ {
		s.step()
	}
	if open == "popen" {
		s.finish(.85)
	} else {
		s.finish(.9)
	}
	return &Script{Ops: s.ops}
}

func (s *sess) finish(pClose float64) {
	g := s.g
	if !g.p(g.tune.dirty) {
		if s.rows != 0 {
			s.add(&Op{Op: "rclose", H: s.rows})
			s.dropRows()
		}
		if s.stmt != 0 {
			s.add(&Op{Op: "sclose", H: s.stmt})
			s.stmt = 0
		}
		if s.tx != 0 {
			s.endTx()
		}
	}
	if g.p(pClose) {
		s.close()
		if g.p(.15) {
			s.misuse()
		}
	}
}

func (g *gen) txFails() {
	if !g.p(g.tune.txfail) {
		return
	}
	g.sc.Srv.TxFail = map[string]string{}
	for i, n := 0, g.n(1, 2); i < n; i++ {
		g.sc.Srv.TxFail[fmt.Sprintf("%s#%d", g.pick("BEGIN", "COMMIT", "COMMIT", "ROLLBACK"), g.n(1, 3))] = g.pick("run", "pull")
	}
}

var streamFaults = []string{snet.S2CEOF, snet.S2CEOF, snet.S2CReset, snet.S2CStall, snet.S2CStall, snet.S2CPause, snet.C2SReset, snet.C2SReset, snet.C2SBlock, snet.C2SSlow, snet.C2SHole, snet.C2SClose}
var stallFaults = []string{snet.S2CStall, snet.S2CStall, snet.S2CStall, snet.S2CPause, snet.C2SBlock, snet.C2SBlock, snet.C2SSlow, snet.C2SHole, snet.S2CEOF}
var contentFaults = []string{snet.S2CFlip, snet.S2CFlip, snet.S2CFlip, snet.S2CInsert, snet.S2CDelete, snet.S2CDup}

// place puts a fault of the given kind on a connection of the dry run.
func (g *gen) place(kind string, c ConnInfo) *snet.Fault {
	f := &snet.Fault{Conn: c.Dial, Kind: kind}
	total, marks := c.S2C, c.Marks
	if len(kind) > 3 && kind[:3] == "c2s" {
		total, marks = c.C2S, c.WMarks
	}
	if total == 0 {
		total = 24
	}
	switch k := g.r.IntN(10); {
	case k < 5 && len(marks) > 0:
		f.At = marks[g.r.IntN(len(marks))] + g.n(-3, 4)
	case k < 6:
		f.At = g.r.IntN(min(total, 60) + 1)
	default:
		f.At = g.r.IntN(total + 1)
	}
	if f.At < 0 {
		f.At = 0
	}
	switch kind {
	case snet.S2CPause, snet.C2SSlow:
		if g.p(.5) {
			f.MS = max(1, g.short*g.n(5, 45)/100)
		} else {
			f.MS = g.short * g.n(16, 60) / 10
		}
	case snet.S2CFlip:
		f.Mask = g.pickInt(1, 2, 4, 8, 16, 32, 64, 128, 0xff, g.n(1, 255))
	case snet.S2CInsert:
		f.Mask = g.n(0, 255)
	case snet.S2CDup:
		f.MS = g.n(1, 40)
	}
	return f
}

func (g *gen) dialFault(i int) *snet.Fault {
	f := &snet.Fault{Conn: i, Kind: g.pick(snet.DialRefuse, snet.DialRefuse, snet.DialHole, snet.DialSlow)}
	if f.Kind == snet.DialSlow {
		if g.p(.5) {
			f.MS = max(1, g.short*g.n(5, 45)/100)
		} else {
			f.MS = g.short * g.n(16, 60) / 10
		}
	}
	return f
}

// faults places n stream faults using a dry run without them.
func (g *gen) faults(dry *Outcome, n int, kinds []string, pDial, pCrash, pCloseErr float64) {
	conns := dry.Conns
	if len(conns) == 0 {
		return
	}
	for i := 0; i < n; i++ {
		c := conns[g.r.IntN(len(conns))]
		switch {
		case g.p(pDial):
			g.sc.Faults = append(g.sc.Faults, g.dialFault(g.r.IntN(len(conns)+2)))
		case g.p(pCrash):
			g.sc.Faults = append(g.sc.Faults, &snet.Fault{Kind: snet.Crash, At: g.r.IntN(int(dry.SimTime.Milliseconds()) + 2), MS: g.pickInt(1, 50, 1000, 20000)})
		default:
			g.sc.Faults = append(g.sc.Faults, g.place(kinds[g.r.IntN(len(kinds))], c))
		}
	}
	if g.p(pCloseErr) {
		g.sc.Faults = append(g.sc.Faults, &snet.Fault{Kind: snet.CloseErr, Conn: conns[g.r.IntN(len(conns))].Dial})
	}
}

// Props lists the properties decided by simulation.
var Props = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"}

// Generate makes the scenario of a property for a seed. dry runs a scenario
// to learn where faults can be placed.
func Generate(prop string, seed uint64, dry func(*Scenario) *Outcome) *Scenario {
	g := &gen{r: newRand(seed, hashStr(prop)), tune: defTune()}
	k := g.r.IntN(100)
	fam := ""
	sel := func(pairs ...interface{}) {
		for i := 0; i < len(pairs); i += 2 {
			if k < pairs[i].(int) {
				fam = pairs[i+1].(string)
				return
			}
			k -= pairs[i].(int)
		}
	}
	switch prop {
	case "C01":
		sel(52, "clean", 21, "fail", 13, "values", 6, "sql", 4, "pool", 4, "multi")
	case "C02":
		sel(78, "fail", 8, "txfail", 8, "sqlfail", 6, "poolfail")
	case "C03":
		sel(57, "fault", 20, "faultfail", 8, "poolfault", 10, "sqlfault", 5, "undec")
	case "C04":
		sel(48, "stall", 15, "fail", 9, "clean", 12, "open", 6, "sqlstall", 5, "tlsstall", 5, "poolstall")
	case "C05":
		sel(48, "params", 17, "clean", 12, "fail", 9, "fault", 8, "sqlparams", 3, "pool", 3, "multi")
	case "C06":
		sel(88, "values", 12, "sqlvalues")
	case "C07":
		sel(34, "raw", 24, "content", 4, "contentpool", 11, "sqlcorrupt", 19, "undec", 4, "undecpool", 4, "undecsql")
	case "C08":
		sel(60, "pool", 40, "poolfault")
	case "C09":
		sel(60, "pooldirty", 40, "pooldirtyfault")
	case "C10":
		sel(25, "pool", 75, "poolfault")
	case "C11":
		sel(50, "poolclose", 50, "poolclosefault")
	case "C12":
		sel(38, "txfail", 37, "txfault", 10, "txpool", 10, "sqltx", 5, "undec")
	case "C13":
		sel(42, "openfault", 20, "fault", 11, "fail", 9, "contentclose", 8, "openpool", 5, "tls", 5, "sqlfault")
	case "C14":
		sel(54, "open", 22, "openfault", 14, "openpool", 5, "sqlopen", 5, "multiopen")
	case "C15":
		sel(33, "sql", 47, "sqlfault", 10, "sqlmulti", 10, "sqlmultifault")
	case "C16":
		sel(76, "tls", 8, "tlspool", 8, "tlsmulti", 8, "tlssql")
	case "C17":
		sel(60, "multi", 26, "multipool", 7, "sqlmulti", 7, "sqlmultifault")
	case "C18":
		sel(60, "url", 12, "urlpool", 10, "urlsql", 18, "urltls")
	}
	g.family(prop, fam, seed, func(sc *Scenario) *Outcome {
		c := *sc
		c.Trace = false
		return dry(&c)
	})
	if g.sc.Trace {
		for _, p := range g.sc.Execs {
			if p.heavy() {
				g.sc.Trace = false // trace output costs the square of the size of a chunk
			}
		}
	}
	g.capGaps()
	return g.sc
}

func (g *gen) family(prop, fam string, seed uint64, dry func(*Scenario) *Outcome) {
	t := &g.tune
	switch fam {
	case "clean":
		g.base(prop, "clean", seed)
		t.tx, t.reopen = 3, 1
		g.single()
	case "fail":
		g.base(prop, "fail", seed)
		t.fail, t.ack, t.txfail = .3, .15, .15
		g.single()
	case "values":
		g.base(prop, "clean", seed)
		g.sc.Srv.Wide = g.p(.6)
		t.vclass = []string{ClMix, ClEdge, ClEdge, ClBig, ClDeep, ClGraph, ClGraph}
		if g.p(.6) { // large values are slow: only some runs have them
			t.vclass, t.maxRows, t.big = []string{ClMix, ClEdge, ClGraph}, 5, .002
		}
		t.len, t.misuse, t.tx, t.bad = 7, 0, 1, 0
		g.single()
	case "params":
		g.base(prop, "clean", seed)
		t.pclass = []string{ClMix, ClEdge, ClEdge, ClBig, ClDeep, ClGraph}
		t.par, t.big, t.chunk, t.bad, t.len = .9, .15, 10, 5, 9
		t.vclass, t.maxRows = []string{ClInt}, 3
		if g.p(.6) {
			t.pclass, t.big = []string{ClMix, ClEdge, ClGraph}, .01
		}
		g.single()
	case "fault", "faultfail", "stall":
		g.base(prop, "fault", seed)
		t.len = 10
		if fam == "faultfail" {
			t.fail, t.ack, t.txfail = .25, .2, .2
		}
		g.single()
		o := dry(g.sc)
		if fam == "stall" {
			g.faults(o, g.n(1, 2), stallFaults, .05, .02, 0)
		} else {
			g.faults(o, g.pickInt(1, 1, 1, 2, 3), streamFaults, .03, .03, .05)
		}
	case "txfail", "txfault":
		g.base(prop, "fail", seed)
		t.tx, t.write, t.txfail, t.len, t.misuse, t.query = 40, .9, .5, 14, 6, 8
		if fam == "txfail" {
			t.fail, t.ack = .15, 0
		} else {
			t.fail, t.txfail = .05, .1
		}
		g.single()
		if fam == "txfault" {
			g.sc.Family = "fault"
			g.faults(dry(g.sc), g.pickInt(1, 1, 2), streamFaults, .03, .05, .05)
		}
	case "txpool":
		g.poolBase(prop, seed)
		t.tx, t.write, t.txfail, t.len = 40, .9, .2, 8
		g.clients(g.n(1, 3))
		if g.p(.5) {
			g.faults(dry(g.sc), 1, streamFaults, .05, .05, .05)
		}
	case "raw":
		g.base(prop, "corrupt", seed)
		t.raw, t.len = .3, 7
		t.vclass, t.pclass = []string{ClInt, ClMix, ClGraph}, []string{ClInt}
		t.gap = 0
		g.single()
		if g.p(1.0 / 150) {
			p := g.sc.Execs
			if len(p) > 0 {
				q := p[g.r.IntN(len(p))]
				q.Raw, q.Fail, q.Bad = "deep", "", false
				g.sc.Net.Seg = 0
				g.sc.Srv.Chunk = g.pickInt(0, 4)
			}
		}
	case "undec", "undecpool", "undecsql":
		t.fail, t.txfail, t.gap = .1, .2, 0
		switch fam {
		case "undecpool":
			g.poolBase(prop, seed)
			t.undec, t.len, t.fail, t.txfail, t.gap = .2, 6, .1, .2, 0
			g.clients(g.n(1, 2))
		case "undecsql":
			g.base(prop, "undec", seed)
			t.undec, t.gap = .15, 0
			t.vclass, t.pclass = []string{ClInt, ClMix, ClGraph, ClEdge}, []string{ClInt}
			g.sc.SQL = true
			g.sqlScript()
		default:
			g.base(prop, "undec", seed)
			t.vclass, t.pclass = []string{ClInt, ClMix, ClGraph, ClEdge}, []string{ClInt}
			t.undec, t.len = .2, 9
			if g.p(.3) {
				t.tx, t.undec = 30, .08
			}
			g.single()
		}
		g.sc.Family = "undec"
		if g.p(.4) {
			if g.sc.Srv.TxFail == nil {
				g.sc.Srv.TxFail = map[string]string{}
			}
			for i, n := 0, g.n(1, 3); i < n; i++ {
				g.sc.Srv.TxFail[fmt.Sprintf("%s#%d", g.pick("BEGIN", "COMMIT", "COMMIT", "ROLLBACK"), g.n(1, 3))] = g.pick("undecrun", "undecpull", "undecrun", "undecpull", "intrun", "intpull", "recrun", "recpull")
			}
		}
		if g.p(.1) {
			g.sc.Srv.Init = map[int]string{g.r.IntN(2): "initundec"}
		}
	case "content", "contentclose", "contentpool":
		if fam == "contentpool" {
			g.poolBase(prop, seed)
			g.sc.Family = "corrupt"
			t.len = 6
			t.gap = 0
			g.clients(g.n(1, 2))
		} else {
			g.base(prop, "corrupt", seed)
			t.vclass, t.pclass = []string{ClInt, ClMix, ClGraph, ClEdge}, []string{ClInt}
			t.len, t.gap = 7, 0
			if fam == "contentclose" {
				t.dirty = .6
			}
			if g.p(.3) {
				t.fail = .2
			}
			g.single()
		}
		g.faults(dry(g.sc), g.pickInt(1, 1, 2, 4), contentFaults, 0, 0, 0)
		if g.p(.2) {
			g.faults(dry(g.sc), 1, streamFaults, .03, .03, 0)
		}
	case "open", "openfault":
		g.base(prop, "open", seed)
		s := &sess{g: g, open: "open"}
		n := g.n(1, 4)
		if fam == "openfault" {
			t.dirty = .7
			t.fail = .1
		}
		for i := 0; i < n; i++ {
			s.connect()
			for j, m := 0, g.n(0, 4); j < m; j++ {
				s.step()
			}
			s.finish(1)
		}
		g.sc.Clients = []*Script{{Ops: s.ops}}
		if fam == "open" || g.p(.2) {
			g.initPlans(n + 1)
		}
		if fam == "openfault" {
			o := dry(g.sc)
			g.faults(o, g.n(1, 3), streamFaults, .2, .05, .3)
			for _, f := range g.sc.Faults {
				if g.p(.5) && f.Kind != snet.Crash && f.Kind != snet.CloseErr {
					f.At = g.r.IntN(70)
				}
			}
		}
	case "openpool":
		g.poolBase(prop, seed)
		t.len = 3
		g.clients(g.n(1, 3))
		g.initPlans(4)
		if g.p(.4) {
			g.faults(dry(g.sc), 1, streamFaults, .4, .1, 0)
		}
	case "pool", "poolfault", "poolfail", "poolstall", "pooldirty", "pooldirtyfault":
		g.poolBase(prop, seed)
		t.len = 5
		if fam == "poolfail" {
			t.fail, t.ack, t.txfail = .3, .2, .15
		} else if g.p(.5) {
			t.fail, t.ack, t.txfail = .15, .2, .1
		}
		if fam[:min(9, len(fam))] == "pooldirty" {
			t.dirty, t.tx = .85, 15
		}
		g.clients(g.n(1, 4))
		if len(fam) > 5 && fam[len(fam)-5:] == "fault" {
			if g.p(.25) {
				g.initPlans(5)
			}
			g.faults(dry(g.sc), g.n(1, 4), streamFaults, .25, .1, .2)
		} else if fam == "poolstall" {
			g.faults(dry(g.sc), g.n(1, 2), stallFaults, .05, .02, 0)
		}
	case "poolclose", "poolclosefault":
		g.poolBase(prop, seed)
		g.sc.Pool.Probe = false
		t.len = 5
		g.clients(g.n(1, 4))
		o := dry(g.sc)
		ms := int(o.SimTime.Milliseconds()) + 2
		closer := &Script{}
		for i, n := 0, g.pickInt(1, 1, 2); i < n; i++ {
			if g.p(.8) {
				d := g.r.IntN(ms)
				if g.p(.5) {
					d = g.r.IntN(min(ms, 30) + 1)
				}
				closer.Ops = append(closer.Ops, &Op{Op: "sleep", N: d})
			}
			closer.Ops = append(closer.Ops, &Op{Op: "plclose"})
		}
		if g.p(.5) {
			closer.Ops = append(closer.Ops, &Op{Op: "popen", ID: g.handle()})
		}
		g.sc.Clients = append(g.sc.Clients, closer)
		if g.p(.3) { // a client closes the pool itself
			c := g.sc.Clients[0]
			i := g.r.IntN(len(c.Ops) + 1)
			c.Ops = append(c.Ops[:i:i], append([]*Op{{Op: "plclose"}}, c.Ops[i:]...)...)
		}
		if fam == "poolclosefault" {
			g.faults(o, g.n(1, 3), streamFaults, .2, .1, .3)
		}
	case "multi", "multiopen":
		g.base(prop, "multi", seed)
		g.sched()
		g.small(.6)
		t.len = 8
		t.fail, t.ack, t.txfail = .1, .1, .1
		n := g.n(2, 4)
		for i := 0; i < n; i++ {
			g.sc.Clients = append(g.sc.Clients, g.session("open"))
		}
		g.txFails()
		if g.p(.25) || fam == "multiopen" { // some connections are refused while others are being opened
			g.initPlans(n + 2)
			for i := 0; i < n+2; i++ {
				if g.sc.Srv.Init[i] != "" && g.p(.4) {
					g.sc.Srv.Init[i] = g.version()
				}
			}
		}
		if g.p(.5) {
			o := dry(g.sc)
			if len(o.Conns) > 0 {
				c := o.Conns[g.r.IntN(len(o.Conns))]
				for i, n := 0, g.n(1, 2); i < n; i++ {
					if f := g.place(streamFaults[g.r.IntN(len(streamFaults))], c); true {
						g.sc.Faults = append(g.sc.Faults, f)
					}
				}
			}
		}
	case "multipool":
		g.poolBase(prop, seed)
		g.sc.Family = "multi"
		t.len = 6
		t.fail, t.ack = .1, .1
		g.clients(g.n(2, 4))
		if g.p(.2) {
			g.initPlans(4)
		}
	case "sql", "sqlfault", "sqlfail", "sqlstall", "sqlparams", "sqlvalues", "sqltx", "sqlopen":
		g.base(prop, "sql", seed)
		g.sc.SQL = true
		t.fail, t.txfail = .12, .15
		t.vclass = []string{ClInt, ClMix, ClGraph, ClEdge}
		t.pclass = []string{ClInt, ClMix, ClEdge, ClGraph}
		switch fam {
		case "sqlfail":
			t.fail, t.txfail = .35, .25
		case "sqlparams":
			t.par, t.big, t.maxRows = .9, .1, 3
			t.pclass, t.vclass = []string{ClMix, ClEdge, ClEdge, ClGraph, ClBig}, []string{ClInt}
		case "sqlvalues":
			g.sc.Srv.Wide = g.p(.6)
			t.vclass = []string{ClMix, ClEdge, ClEdge, ClGraph, ClGraph, ClBig}
		case "sqltx":
			t.tx, t.write, t.txfail = 40, .9, .3
		}
		g.sqlScript()
		switch fam {
		case "sqlopen":
			g.initPlans(4)
		case "sqlstall":
			g.faults(dry(g.sc), g.n(1, 2), stallFaults, .05, .02, 0)
		case "sqltx":
			if g.p(.5) {
				g.faults(dry(g.sc), g.pickInt(1, 1, 2), streamFaults, .03, .05, .05)
			}
		case "sqlfault":
			if g.p(.15) {
				g.initPlans(3)
			}
			g.faults(dry(g.sc), g.pickInt(1, 1, 2, 3), streamFaults, .08, .05, .05)
		}
	case "sqlmulti", "sqlmultifault":
		g.base(prop, "multi", seed)
		g.sched()
		g.sc.SQL = true
		g.small(.6)
		t.fail, t.txfail = .12, .15
		g.sqlMulti()
		if fam == "sqlmultifault" {
			if g.p(.15) {
				g.initPlans(4)
			}
			g.faults(dry(g.sc), g.pickInt(1, 1, 2, 3), streamFaults, .08, .05, .05)
		}
	case "sqlcorrupt":
		g.base(prop, "corrupt", seed)
		g.sc.SQL = true
		t.gap, t.raw = 0, .25
		t.vclass, t.pclass = []string{ClInt, ClMix, ClGraph, ClEdge}, []string{ClInt}
		if g.p(.5) {
			t.raw = 0
		}
		g.sqlScript()
		if t.raw == 0 {
			g.faults(dry(g.sc), g.pickInt(1, 1, 2, 4), contentFaults, 0, 0, 0)
		}
	case "tlspool", "tlsmulti", "tlssql":
		switch fam {
		case "tlspool":
			g.poolBase(prop, seed)
			t.len = 4
			g.clients(g.n(1, 3))
		case "tlsmulti":
			g.base(prop, "multi", seed)
			g.sched()
			t.len = 4
			for i, n := 0, g.n(2, 3); i < n; i++ {
				g.sc.Clients = append(g.sc.Clients, g.session("open"))
			}
		case "tlssql":
			g.base(prop, "sql", seed)
			g.sc.SQL = true
			g.sqlScript()
		}
		g.sc.TLS = &TLSCfg{Server: g.pick("good", "good", "good", "chain", "sysca", "wronghost", "otherca", "expired"), CA: g.p(.8), NoVerify: g.p(.15), Client: g.p(.1)}
		if g.p(.05) {
			if g.badFile(); g.sc.TLS.mayFail() {
				g.sc.TLS.NoVerify = false
			}
		}
		if ok := (&Run{Sc: g.sc}).tlsAcceptable(); !ok && g.sc.Pool != nil {
			g.sc.Pool.Probe = false
		}
		g.sc.Net.Seg = g.pickInt(0, 0, 2, 3)
		if g.p(.4) {
			g.faults(dry(g.sc), 1, streamFaults, .1, .03, .05)
		}
	case "url", "urltls", "urlpool", "urlsql":
		if fam == "urlpool" {
			g.poolBase(prop, seed)
		} else {
			g.base(prop, "url", seed)
		}
		g.sc.Family = "url"
		t.vclass, t.pclass, t.maxRows, t.big, t.par, t.gap = []string{ClInt}, []string{ClInt}, 2, 0, .1, .1
		g.sc.URLVar = 1 + g.r.Uint64()>>12
		g.sc.Host = g.pick("", "localhost:7687", "10.1.2.3:7687", "[2001:db8::7]:7688", "db.example:80", "localhost:1", "10.1.2.3:65535")
		g.sc.Timeout = g.pickInt(0, 0, 1, 2, 3, 7, 10, 45, 59, 60, 61, 90, 100)
		g.short = g.sc.timeoutMS()
		if g.p(.3) {
			g.sc.User, g.sc.Pass = "", ""
		} else {
			g.sc.User, g.sc.Pass = g.credential(1), g.credential(g.r.IntN(2))
		}
		t.len = 3
		switch fam {
		case "urlpool":
			g.clients(g.n(1, 2))
		case "urlsql":
			g.sc.SQL = true
			g.sqlScript()
		case "urltls":
			g.tls()
			g.single()
		default:
			s := &sess{g: g, open: "open"}
			for i, n := 0, g.n(1, 3); i < n; i++ {
				s.connect()
				for j, m := 0, g.n(0, 3); j < m; j++ {
					s.step()
				}
				s.finish(1)
			}
			g.sc.Clients = []*Script{{Ops: s.ops}}
		}
		if g.p(.3) && fam != "urlpool" {
			s := g.sc.Clients[0]
			for i, n := 0, g.n(1, 4); i < n; i++ {
				at := g.r.IntN(len(s.Ops) + 1)
				s.Ops = append(s.Ops[:at:at], append([]*Op{{Op: "openbad", N: g.r.IntN(256)}}, s.Ops[at:]...)...)
			}
		}
		switch {
		case g.p(.5):
			g.faults(dry(g.sc), 1, stallFaults, .3, .02, 0)
		case g.p(.1) && fam != "urlpool":
			g.initPlans(3)
		}
	case "tls", "tlsstall":
		g.base(prop, "tls", seed)
		g.sc.User, g.sc.Pass = "neo4j", g.pick("secretpw", "correct horse battery staple")
		g.tls()
		t.len = 5
		if g.p(.3) {
			t.fail = .2
		}
		t.vclass = []string{ClInt, ClMix}
		if fam == "tlsstall" {
			g.sc.TLS.Server = g.pick("good", "good", "sysca", "silent")
		}
		g.single()
		if fam == "tlsstall" {
			g.faults(dry(g.sc), 1, stallFaults, .05, .02, 0)
		} else if g.p(.4) {
			g.faults(dry(g.sc), 1, streamFaults, .1, .03, .05)
		} else if g.p(.1) {
			g.initPlans(2)
		}
	default:
		panic("harness: no family " + fam + " for " + prop)
	}
	g.sc.Family = g.sc.Family + ""
}

func (g *gen) tls() {
	g.sc.TLS = &TLSCfg{Server: g.pick("good", "good", "good", "good", "good", "chain", "sysca", "sysca", "wronghost", "selfsigned", "otherca", "expired", "notyet", "eku", "leafsigned", "plain", "garbage", "silent"), CA: g.p(.75), NoVerify: g.p(.2), Client: g.p(.2)}
	g.sc.Net.Seg = g.pickInt(0, 0, 2, 3)
	if g.p(.08) {
		g.badFile()
	}
}

// badFile makes one of the files of the TLS configuration unusable.
func (g *gen) badFile() {
	t := g.sc.TLS
	t.Bad = g.pick("camissing", "cajunk", "certmissing", "keymissing", "nokey", "certjunk", "mismatch")
	if t.Bad[:2] == "ca" {
		t.CA = true
	} else {
		t.Client = true
	}
	t.Server = g.pick("good", "sysca", t.Server)
}

// credential is a user name or password of at least n characters.
func (g *gen) credential(n int) string {
	if g.p(.4) {
		return g.pick("neo4j", "user@host", "ünï", "a b", passwords[g.r.IntN(len(passwords)-1)])
	}
	const chars = "abcXYZ019 !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~\t\n\x00\x7fäß漢😀"
	rs := []rune(chars)
	out := ""
	for i, m := 0, n+g.r.IntN(12); i < m; i++ {
		out += string(rs[g.r.IntN(len(rs))])
	}
	return out
}

func (g *gen) single() {
	g.sc.Clients = []*Script{g.session("open")}
	g.txFails()
}

func (g *gen) poolBase(prop string, seed uint64) {
	g.base(prop, "pool", seed)
	g.sched()
	g.sc.Pool = &PoolCfg{Max: g.pickInt(1, 1, 2, 2, 3), Probe: true}
	// tuning done by a user of the pool must not reach the next one
	g.tune.gap = .02
	g.small(.75)
}

// small makes most runs of a family small.
func (g *gen) small(p float64) {
	if t := &g.tune; g.p(p) {
		t.small, t.maxRows, t.par = true, 1, .05
		if g.p(.7) {
			g.sc.Net.Seg, g.sc.Srv.Chunk = g.pickInt(0, 0, 3), 0
		}
		g.sc.Trace = g.sc.Trace && g.p(.2)
		t.vclass, t.pclass = []string{ClInt}, []string{ClInt}
	}
}

// clients makes n pool users, each borrowing a few times.
func (g *gen) clients(n int) {
	for i := 0; i < n; i++ {
		s := &sess{g: g, open: "popen"}
		for j, m := 0, g.n(1, 4); j < m; j++ {
			s.connect()
			for k, l := 0, g.n(0, g.tune.len); k < l; k++ {
				s.step()
			}
			s.finish(.95)
			if g.p(.15) {
				s.add(&Op{Op: "sleep", N: g.pickInt(1, 5, 100, 3000)})
			}
		}
		g.sc.Clients = append(g.sc.Clients, &Script{Ops: s.ops})
	}
	g.txFails()
}

// version is an answer to the version proposals other than 1.
func (g *gen) version() string {
	v := [4]byte{0, 0, 0, 1}
	switch g.r.IntN(5) {
	case 0:
		v[3] = byte(g.pickInt(2, 3, 4, 255, 129))
	case 1:
		v[g.r.IntN(3)] = byte(g.pickInt(1, 1, 2, 128, 255))
	case 2: // the 1 in another place
		v = [4]byte{}
		v[g.r.IntN(3)] = 1
	case 3:
		v[g.r.IntN(3)], v[3] = byte(g.n(1, 255)), byte(g.n(0, 255))
	case 4:
		for i := range v {
			v[i] = byte(g.r.IntN(256))
		}
	}
	if g.p(.1) {
		v = [4]byte{} // no version, but it carries on
	}
	if v == [4]byte{0, 0, 0, 1} {
		v[0] = 1
	}
	return fmt.Sprintf("v:%x", v[:])
}

func (g *gen) initPlans(n int) {
	g.sc.Srv.Init = map[int]string{}
	for i := 0; i < n; i++ {
		if g.p(.5) {
			g.sc.Srv.Init[i] = g.pick("fail", "fail", "failclose", "ignored", "record", "initclose", "initsilent", "initjunk", "initundec", "v0", g.version(), g.version(), g.version(), "http", "silent", "hsclose", "hsshort")
		}
	}
}

type sqlStmtGen struct {
	id, text int
	tx       bool
}

// sqlScript generates the script of a user of database/sql.
func (g *gen) sqlScript() {
	g.sc.Clients = []*Script{g.sqlOps(nil, true)}
	g.sc.Idle = g.pickInt(0, 0, 0, 0, -1, 1, 3)
	g.txFails()
}

// sqlMulti generates several users of one sql.DB.
func (g *gen) sqlMulti() {
	n := g.n(2, 4)
	limit := 0
	switch {
	case g.p(.4):
		limit = g.n(1, 3) // every user then needs one connection at a time
	case g.p(.2):
		limit = 8 * n
	}
	g.sc.MaxOpen = limit
	g.sc.Idle = g.pickInt(0, 0, 0, -1, 1, 3)
	var shared []sqlStmtGen
	var prep []*Op
	for i, m := 0, g.pickInt(0, 0, 1, 2); i < m; i++ {
		s := sqlStmtGen{sharedStmt + i, g.text(), false}
		shared = append(shared, s)
		prep = append(prep, &Op{Op: "prep", ID: s.id, S: []int{s.text}})
	}
	for i, o := range prep {
		o.N = 1
		if i == len(prep)-1 {
			o.N = 2
		}
	}
	for i := 0; i < n; i++ {
		s := g.sqlOps(shared, limit == 0 || limit > 4)
		if i == 0 {
			s.Ops = append(prep, s.Ops...)
		}
		g.sc.Clients = append(g.sc.Clients, s)
	}
	g.txFails()
}

// sqlOps: wide scripts hold more than one connection at a time.
func (g *gen) sqlOps(shared []sqlStmtGen, wide bool) *Script {
	type stmt = sqlStmtGen
	var ops []*Op
	tx := false
	stmts := append([]stmt{}, shared...)
	var held []int
	// hold turns a query into one whose rows stay open while others run
	hold := func(o *Op, _ bool) *Op {
		if wide && g.p(.25) {
			o.ID = g.handle()
			held = append(held, o.ID)
		}
		return o
	}
	// inTx lets the transaction use a statement of the database
	inTx := func(o *Op, s stmt) *Op {
		if tx && !s.tx && wide && g.p(.4) {
			o.S = []int{1}
		}
		return o
	}
	pStmt := []float64{0, .6, .9}[g.r.IntN(3)]
	for i, n := 0, g.n(3, 14); i < n; i++ {
		lim := g.pickInt(-1, -1, -1, 0, 1, 2)
		if len(held) > 0 && g.p(.35) {
			i := g.r.IntN(len(held))
			if g.p(.7) {
				ops = append(ops, &Op{Op: "rnext", H: held[i], N: g.pickInt(-1, 1, 2, 4)})
			} else {
				ops = append(ops, &Op{Op: "rclose", H: held[i]})
				held = append(held[:i:i], held[i+1:]...)
			}
			continue
		}
		if len(stmts) > 0 && g.p(pStmt) {
			i := g.r.IntN(len(stmts))
			s := stmts[i]
			if tx && !s.tx && !wide {
				continue
			}
			k := g.r.IntN(5)
			if k == 4 && s.id >= sharedStmt {
				k = 0
			}
			switch k {
			case 0, 1:
				ops = append(ops, inTx(&Op{Op: "sexec", H: s.id, X: []int{g.exec(s.text, s.tx)}}, s))
			case 2, 3:
				ops = append(ops, hold(inTx(&Op{Op: "squery", H: s.id, X: []int{g.exec(s.text, s.tx)}, N: lim}, s), s.tx))
			default:
				ops = append(ops, &Op{Op: "sclose", H: s.id})
				stmts = append(stmts[:i:i], stmts[i+1:]...)
			}
			continue
		}
		switch g.r.IntN(12) {
		case 0, 1, 2:
			ops = append(ops, &Op{Op: "exec", X: []int{g.exec(0, tx)}})
		case 3, 4, 5:
			ops = append(ops, hold(&Op{Op: "query", X: []int{g.exec(0, tx)}, N: lim}, tx))
		case 6, 7:
			s := stmt{g.handle(), g.text(), tx}
			stmts = append(stmts, s)
			ops = append(ops, &Op{Op: "prep", ID: s.id, S: []int{s.text}})
		case 8, 9, 10:
			if tx {
				ops = append(ops, &Op{Op: g.pick("commit", "commit", "rollback")})
				var keep []stmt
				for _, s := range stmts {
					if !s.tx {
						keep = append(keep, s)
					}
				}
				stmts = keep
			} else {
				ops = append(ops, &Op{Op: "begin"})
			}
			tx = !tx
		case 11:
			ops = append(ops, &Op{Op: "sleep", N: g.pickInt(1, 100, 5000, 100000)})
		}
	}
	for _, s := range stmts {
		if g.p(.7) && s.id < sharedStmt {
			ops = append(ops, &Op{Op: "sclose", H: s.id})
		}
	}
	if tx && g.p(.8) {
		ops = append(ops, &Op{Op: "commit"})
	}
	for _, p := range g.sc.Execs {
		p.Ack = ""
	}
	return &Script{Ops: ops}
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
