// Package snet is the simulated network: client sockets with deadlines,
// latency, segmentation and faults, driven by the simrt scheduler.
package snet

import (
	"context"
	"crypto/tls"
	"errors"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"vsim/simrt"
)

// Fault is one injected fault. Conn is the index of the connection in dial
// order (or of the dial attempt for dial faults).
type Fault struct {
	Conn  int    `json:"conn"`
	Kind  string `json:"kind"`
	At    int    `json:"at"`             // byte offset in the affected direction
	MS    int    `json:"ms,omitempty"`   // duration for pauses
	Mask  int    `json:"mask,omitempty"` // corruption: xor mask / inserted byte
	Fired bool   `json:"-"`
	Time  int64  `json:"-"`
}

// Fault kinds.
const (
	S2CEOF     = "s2c-eof"     // server side closes after At bytes
	S2CReset   = "s2c-reset"   // connection reset after At bytes
	S2CStall   = "s2c-stall"   // server falls silent for good after At bytes
	S2CPause   = "s2c-pause"   // bytes from At on arrive MS later
	S2CFlip    = "s2c-flip"    // byte At is xored with Mask
	S2CInsert  = "s2c-insert"  // a byte is inserted before byte At
	S2CDelete  = "s2c-delete"  // byte At is dropped
	S2CDup     = "s2c-dup"     // MS bytes before At are sent twice
	C2SReset   = "c2s-reset"   // write fails after At accepted bytes
	C2SBlock   = "c2s-block"   // the peer stops reading: writes block after At bytes
	C2SSlow    = "c2s-slow"    // as block, but only for MS
	C2SHole    = "c2s-hole"    // bytes from At on never reach the server
	C2SClose   = "c2s-close"   // the server closes once it got At bytes
	DialRefuse = "dial-refuse" // dial attempt fails at once
	DialHole   = "dial-hole"   // dial attempt is never answered
	DialSlow   = "dial-slow"   // dial attempt takes MS
	CloseErr   = "close-err"   // local close reports an error (the socket is closed)
	Crash      = "crash"       // server process dies At ms into the run, back after MS
)

// Peer is the server side of a connection.
type Peer interface {
	Receive(b []byte)
	Closed() // the client closed, or the connection died
}

// Segmentation modes of the byte streams.
const (
	SegWhole = iota
	SegByte
	SegSmall
	SegMixed
)

type Network struct {
	S         *simrt.Sched
	Accept    func(c *Conn) Peer
	Faults    []*Fault
	SegMode   int
	LatMin    time.Duration
	LatJit    time.Duration
	Seed      uint64
	Conns     []*Conn
	Dials     int
	DialLog   []DialRec
	Open      int
	MaxOpen   int
	Down      bool // server process not running
	FaultLog  simrt.Counts
	TimedOut  int // deadline errors returned to the client
	Log       func(format string, args ...interface{})
	LastFault time.Duration
	OnFault   func(f *Fault, c *Conn)
	OnTouch   func(c *Conn, what string) // the running task reads, writes or closes
	OnDial    func()
	OnTimeout func(c *Conn, op string, waited time.Duration) // a deadline error is returned; waited: since the deadline was set
}

type DialRec struct {
	Addr    string
	Timeout time.Duration
	Start   time.Duration
	End     time.Duration
	Err     string
	Conn    int
}

// N is the network of the current run.
var N *Network

func (n *Network) timedOut(c *Conn, op string, waited time.Duration) {
	if n.OnTimeout != nil {
		n.OnTimeout(c, op, waited)
	}
}

func (n *Network) logf(f string, a ...interface{}) {
	if n.Log != nil {
		n.Log(f, a...)
	}
}

// lock tells the race detector that a socket has a lock of its own.
func (c *Conn) lock() {
	simrt.Acquire(unsafe.Pointer(c))
	simrt.ReleaseMerge(unsafe.Pointer(c))
}

func (n *Network) touch(c *Conn, what string) {
	c.lock()
	if n.OnTouch != nil && !simrt.Killing() {
		n.OnTouch(c, what)
	}
}

func (n *Network) fire(f *Fault, c *Conn) {
	if f.Fired {
		return
	}
	f.Fired = true
	f.Time = int64(n.S.Now())
	n.LastFault = n.S.Now()
	n.FaultLog.Add(f.Kind)
	n.logf("fault %s conn=%d at=%d", f.Kind, f.Conn, f.At)
	if n.OnFault != nil {
		n.OnFault(f, c)
	}
}

// Start schedules the timed faults.
func (n *Network) Start() {
	for _, f := range n.Faults {
		if f.Kind == Crash {
			f := f
			n.S.At(time.Duration(f.At)*time.Millisecond, func() {
				n.fire(f, nil)
				n.Down = true
				for _, c := range n.Conns {
					if !c.closed {
						c.die(f.Mask == 1)
					}
				}
			})
			n.S.At(time.Duration(f.At+f.MS)*time.Millisecond, func() {
				n.Down = false
				n.LastFault = n.S.Now()
				n.logf("server back")
			})
		}
	}
}

func (n *Network) find(conn int, kinds ...string) []*Fault {
	var out []*Fault
	for _, f := range n.Faults {
		if f.Conn != conn {
			continue
		}
		for _, k := range kinds {
			if f.Kind == k {
				out = append(out, f)
			}
		}
	}
	return out
}

// Heal makes every fault that has not fired ineffective.
func (n *Network) Heal() {
	for _, f := range n.Faults {
		if !f.Fired && f.Kind != Crash {
			f.Conn = -1
		}
	}
	for _, c := range n.Conns {
		c.s2cF, c.c2sF, c.closeF = nil, nil, nil
	}
}

// Conn is the client end of a simulated TCP connection.
type Conn struct {
	ID   int
	Dial int // index of the dial attempt
	Addr string
	n    *Network
	rng  *rand.Rand
	Peer Peer

	in      []byte
	q       [][]byte // arrived segments not yet in the buffer
	inEOF   bool
	inReset bool
	wReset  bool
	closed  bool
	rdl     time.Time
	wdl     time.Time
	rset    time.Duration // when the deadlines were set
	wset    time.Duration
	Dead    bool // a fault ended this connection (or made it silent)
	silent  bool
	hole    bool
	paused  time.Duration
	waiters int

	sent      int // s2c bytes produced by the server
	S2C       int // s2c bytes delivered to the client's buffer
	C2S       int // c2s bytes accepted from the client
	c2sDel    int // c2s bytes delivered to the server
	lastIn    time.Duration
	lastOut   time.Duration
	LastMove  time.Duration
	s2cF      []*Fault
	c2sF      []*Fault
	closeF    []*Fault
	S2CMarks  []int // s2c offsets at message ends
	C2SMarks  []int // c2s offsets after each Write call
	CloseTime time.Duration
	Record    bool
	C2SData   []byte
	ReadCalls int
	peerGone  bool
	OpenedAt  time.Duration
	TLS       bool
}

func opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: addr("sim"), Err: err}
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// Dial shims ---------------------------------------------------------------

func Dial(network, address string) (net.Conn, error) { return DialTimeout(network, address, 0) }

func DialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	return dialConn(nil, address, timeout)
}

func dialConn(ctx context.Context, address string, timeout time.Duration) (net.Conn, error) {
	c, err := dial(ctx, address, timeout)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// pause sleeps; it ends early when the context is cancelled.
func pause(ctx context.Context, d time.Duration) error {
	if ctx == nil || ctx.Done() == nil {
		simrt.Sleep(d)
		return nil
	}
	s := simrt.S
	if s == nil || simrt.Killing() {
		return ctx.Err()
	}
	fired := false
	ev := s.After(d, func() { fired = true })
	simrt.Block("sleep", func() bool { return fired || ctx.Err() != nil })
	s.Cancel(ev)
	if fired {
		return nil
	}
	return ctx.Err()
}

const osDialTimeout = 127 * time.Second

func dial(ctx context.Context, address string, timeout time.Duration) (*Conn, error) {
	n := N
	if n == nil {
		return nil, errors.New("snet: no simulated network")
	}
	simrt.Y()
	k := n.Dials
	n.Dials++
	if n.OnDial != nil {
		n.OnDial()
	}
	rng := rand.New(rand.NewPCG(n.Seed, uint64(k)*7919+13))
	rec := DialRec{Addr: address, Timeout: timeout, Start: n.S.Now(), Conn: -1}
	fail := func(err error) (*Conn, error) {
		rec.End, rec.Err = n.S.Now(), err.Error()
		n.DialLog = append(n.DialLog, rec)
		n.logf("dial %d %s failed: %v", k, address, err)
		return nil, err
	}
	if timeout < 0 {
		return fail(opErr("dial", os.ErrDeadlineExceeded))
	}
	d := n.LatMin + time.Duration(rng.Int64N(int64(n.LatJit)+1))
	limit := timeout
	if limit == 0 || limit > osDialTimeout {
		limit = osDialTimeout
	}
	refuse, hole := false, false
	for _, f := range n.find(k, DialRefuse, DialHole, DialSlow) {
		n.fire(f, nil)
		switch f.Kind {
		case DialRefuse:
			refuse = true
		case DialHole:
			hole = true
		case DialSlow:
			d += time.Duration(f.MS) * time.Millisecond
		}
	}
	if refuse && d < limit {
		if err := pause(ctx, d); err != nil {
			return fail(opErr("dial", err))
		}
		return fail(opErr("dial", syscall.ECONNREFUSED))
	}
	if d >= limit || hole {
		if err := pause(ctx, limit); err != nil {
			return fail(opErr("dial", err))
		}
		if limit == timeout {
			n.timedOut(nil, "dial", n.S.Now()-rec.Start)
		}
		return fail(opErr("dial", os.ErrDeadlineExceeded))
	}
	if err := pause(ctx, d); err != nil {
		return fail(opErr("dial", err))
	}
	if n.Down {
		return fail(opErr("dial", syscall.ECONNREFUSED))
	}
	c := &Conn{ID: len(n.Conns), Dial: k, Addr: address, n: n, rng: rng, OpenedAt: n.S.Now()}
	// byte faults are attached to the dial index, so that they do not move when an earlier dial fails
	c.s2cF = n.find(k, S2CEOF, S2CReset, S2CStall, S2CPause, S2CFlip, S2CInsert, S2CDelete, S2CDup)
	c.c2sF = n.find(k, C2SReset, C2SBlock, C2SSlow, C2SHole, C2SClose)
	c.closeF = n.find(k, CloseErr)
	rec.Conn = c.ID
	n.Conns = append(n.Conns, c)
	n.Open++
	if n.Open > n.MaxOpen {
		n.MaxOpen = n.Open
	}
	c.LastMove = n.S.Now()
	rec.End = n.S.Now()
	n.DialLog = append(n.DialLog, rec)
	n.logf("conn %d open (dial %d) %s", c.ID, k, address)
	n.touch(c, "dial")
	c.Peer = n.Accept(c)
	c.checkS2CFaults()
	return c, nil
}

// Dialer mirrors net.Dialer.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func (d *Dialer) limit(ctx context.Context) time.Duration {
	var t time.Duration
	min := func(x time.Duration) {
		if x <= 0 {
			x = -1
		}
		if t == 0 || x < t {
			t = x
		}
	}
	if d != nil && d.Timeout != 0 {
		min(d.Timeout)
	}
	if d != nil && !d.Deadline.IsZero() {
		min(time.Until(d.Deadline))
	}
	if ctx != nil {
		if dl, ok := ctx.Deadline(); ok {
			min(time.Until(dl))
		}
	}
	return t
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return dialConn(nil, address, d.limit(nil))
}
func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	return dialConn(ctx, address, d.limit(ctx))
}

// TLSDial and friends run the real crypto/tls over the simulated socket.
func TLSDial(network, address string, config *tls.Config) (*tls.Conn, error) {
	return tlsDial(nil, 0, address, config)
}
func TLSDialWithDialer(d *Dialer, network, address string, config *tls.Config) (*tls.Conn, error) {
	return tlsDial(nil, d.limit(nil), address, config)
}

type TLSDialer struct {
	NetDialer *Dialer
	Config    *tls.Config
}

func (d *TLSDialer) Dial(network, address string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, address)
}
func (d *TLSDialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	c, err := tlsDial(ctx, d.NetDialer.limit(ctx), address, d.Config)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func tlsDial(ctx context.Context, limit time.Duration, address string, config *tls.Config) (*tls.Conn, error) {
	start, startN := time.Now(), simrt.S.Now()
	raw, err := dial(ctx, address, limit)
	if err != nil {
		return nil, err
	}
	host := address
	if i := strings.LastIndex(address, ":"); i >= 0 {
		host = address[:i]
	}
	if config == nil {
		config = &tls.Config{}
	}
	if config.ServerName == "" {
		config = config.Clone()
		config.ServerName = host
	}
	if limit != 0 {
		raw.SetDeadline(start.Add(limit))
		raw.rset, raw.wset = startN, startN
	}
	c := tls.Client(raw, config)
	if err := c.Handshake(); err != nil {
		raw.Close()
		return nil, err
	}
	raw.SetDeadline(time.Time{})
	return c, nil
}

// net.Conn -----------------------------------------------------------------

func (c *Conn) LocalAddr() net.Addr  { return addr("client") }
func (c *Conn) RemoteAddr() net.Addr { return addr(c.Addr) }

func expired(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (c *Conn) wait(what string, dl *time.Time, ready func() bool) {
	var ev *simrt.Event
	if !dl.IsZero() {
		ev = c.n.S.After(time.Until(*dl), func() {})
	}
	c.waiters++
	simrt.Block(what, func() bool { return c.closed || expired(*dl) || ready() })
	c.waiters--
	c.n.S.Cancel(ev)
}

func (c *Conn) Read(b []byte) (int, error) {
	simrt.Y()
	if simrt.Killing() || simrt.S == nil {
		return 0, opErr("read", net.ErrClosed)
	}
	c.ReadCalls++
	if c.closed {
		return 0, opErr("read", net.ErrClosed)
	}
	if len(b) == 0 {
		return 0, nil
	}
	c.n.touch(c, "read")
	if !expired(c.rdl) && len(c.in) == 0 && !c.inEOF && !c.inReset {
		c.wait("read from server", &c.rdl, func() bool { return len(c.in) > 0 || c.inEOF || c.inReset })
	}
	switch {
	case c.closed:
		return 0, opErr("read", net.ErrClosed)
	case c.inReset && len(c.in) == 0:
		return 0, opErr("read", syscall.ECONNRESET)
	case expired(c.rdl):
		c.n.TimedOut++
		c.n.logf("conn %d read timeout", c.ID)
		c.n.timedOut(c, "read", c.n.S.Now()-c.rset)
		return 0, opErr("read", os.ErrDeadlineExceeded)
	case len(c.in) > 0:
		k := len(b)
		if k > len(c.in) {
			k = len(c.in)
		}
		if c.n.SegMode != SegWhole && k > 1 && c.rng.IntN(3) == 0 {
			k = 1 + c.rng.IntN(k)
		}
		copy(b, c.in[:k])
		c.in = c.in[k:]
		return k, nil
	default:
		return 0, io.EOF
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	simrt.Y()
	if simrt.Killing() || simrt.S == nil {
		return 0, opErr("write", net.ErrClosed)
	}
	total := 0
	c.n.touch(c, "write")
	for {
		if c.closed {
			return total, opErr("write", net.ErrClosed)
		}
		if c.wReset {
			return total, opErr("write", syscall.EPIPE)
		}
		if expired(c.wdl) {
			c.n.TimedOut++
			c.n.logf("conn %d write timeout", c.ID)
			c.n.timedOut(c, "write", c.n.S.Now()-c.wset)
			return total, opErr("write", os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			c.C2SMarks = append(c.C2SMarks, c.C2S)
			return total, nil
		}
		k := len(b)
		if f := c.nextC2S(C2SReset, C2SBlock, C2SSlow); f != nil {
			room := f.At - c.C2S
			if room <= 0 {
				c.n.fire(f, c)
				switch f.Kind {
				case C2SReset:
					c.dropC2S(f)
					c.die(true)
					continue
				case C2SBlock:
					c.Dead = true
					c.wait("write to server (peer not reading)", &c.wdl, func() bool { return c.wReset })
					continue
				case C2SSlow:
					end := c.n.S.Now() + time.Duration(f.MS)*time.Millisecond
					c.n.S.At(end, func() {})
					c.dropC2S(f)
					c.wait("write to server (peer slow)", &c.wdl, func() bool { return c.wReset || c.n.S.Now() >= end })
					if c.n.S.Now() < end {
						// the window stays closed until then
						c.c2sF = append(c.c2sF, &Fault{Conn: f.Conn, Kind: C2SSlow, At: c.C2S, MS: int((end-c.n.S.Now())/time.Millisecond) + 1, Fired: true})
					}
					continue
				}
			}
			if k > room {
				k = room
			}
		}
		part := append([]byte(nil), b[:k]...)
		b = b[k:]
		total += k
		c.C2S += k
		if c.Record {
			c.C2SData = append(c.C2SData, part...)
		}
		c.LastMove = c.n.S.Now()
		c.toServer(part)
	}
}

func (c *Conn) nextC2S(kinds ...string) *Fault {
	var best *Fault
	for _, f := range c.c2sF {
		for _, k := range kinds {
			if f.Kind == k && (best == nil || f.At < best.At) {
				best = f
			}
		}
	}
	return best
}

func (c *Conn) dropC2S(f *Fault) {
	for i, x := range c.c2sF {
		if x == f {
			c.c2sF = append(c.c2sF[:i:i], c.c2sF[i+1:]...)
			return
		}
	}
}

func (c *Conn) lat() time.Duration {
	return c.n.LatMin + time.Duration(c.rng.Int64N(int64(c.n.LatJit)+1))
}

func (c *Conn) segLen(n int) int {
	switch c.n.SegMode {
	case SegByte:
		return 1
	case SegSmall:
		return 1 + c.rng.IntN(16)
	case SegMixed:
		switch c.rng.IntN(4) {
		case 0:
			return 1 + c.rng.IntN(4)
		case 1:
			return 1 + c.rng.IntN(200)
		case 2:
			return 1 + c.rng.IntN(5000)
		}
	}
	return n
}

func (c *Conn) toServer(b []byte) {
	n := len(b)
	for _, f := range c.c2sF {
		if f.Kind == C2SHole && c.C2S > f.At {
			c.n.fire(f, c)
			c.Dead = true
			keep := n - (c.C2S - f.At)
			if c.hole || keep < 0 {
				keep = 0
			}
			c.hole = true
			b = b[:keep]
			break
		}
	}
	for len(b) > 0 {
		k := c.segLen(len(b))
		// avoid an unbounded number of events for large messages
		if len(b) > 4096 && k < len(b)/64 {
			k = len(b) / 64
		}
		if k > len(b) {
			k = len(b)
		}
		seg := b[:k]
		b = b[k:]
		at := c.n.S.Now() + c.lat()
		if at < c.lastOut {
			at = c.lastOut
		}
		c.lastOut = at
		c.n.S.At(at, func() { c.serverGets(seg) })
	}
}

func (c *Conn) serverGets(b []byte) {
	if c.peerGone {
		if !c.closed && c.inEOF { // bytes arriving at a closed socket are answered by a reset
			c.wReset = true
		}
		return
	}
	if f := c.nextC2S(C2SClose); f != nil && c.c2sDel+len(b) >= f.At {
		k := f.At - c.c2sDel
		if k > 0 {
			c.c2sDel += k
			c.Peer.Receive(b[:k])
		}
		c.n.fire(f, c)
		c.dropC2S(f)
		c.die(false)
		return
	}
	c.c2sDel += len(b)
	c.Peer.Receive(b)
}

// die ends the connection from the server side: reset or orderly close.
func (c *Conn) die(reset bool) {
	if c.peerGone {
		return
	}
	c.Dead = true
	c.peerGone = true
	if reset {
		c.inReset, c.wReset = true, true
		c.in = nil
	} else {
		at := c.n.S.Now() + c.lat()
		if at < c.lastIn {
			at = c.lastIn
		}
		c.n.S.At(at, func() { c.inEOF = true })
	}
	c.Peer.Closed()
}

// ServerSend is called by the server: bytes on their way to the client.
func (c *Conn) ServerSend(b []byte) {
	if c.peerGone || c.silent {
		return
	}
	b = c.corrupt(b)
	for len(b) > 0 {
		k := c.segLen(len(b))
		if len(b) > 4096 && k < len(b)/64 {
			k = len(b) / 64
		}
		if k > len(b) {
			k = len(b)
		}
		c.sendSeg(b[:k:k])
		b = b[k:]
	}
}

// ServerClose is an orderly close by the server as part of the protocol.
func (c *Conn) ServerClose() {
	if !c.peerGone {
		c.die(false)
	}
}

func (c *Conn) sendSeg(seg []byte) {
	at := c.n.S.Now() + c.lat()
	if at < c.lastIn {
		at = c.lastIn
	}
	c.lastIn = at
	c.n.S.At(at, func() { c.arrive(seg) })
}

// arrive puts bytes into the client's receive buffer, applying offset faults.
func (c *Conn) arrive(seg []byte) {
	c.q = append(c.q, seg)
	c.drain()
}

func (c *Conn) drain() {
	for len(c.q) > 0 {
		if c.inReset || c.inEOF || c.silent || c.closed {
			c.q = nil
			return
		}
		if c.paused > c.n.S.Now() {
			return // drained again when the pause ends
		}
		seg := c.q[0]
		k := len(seg)
		if f := c.nextS2C(); f != nil && f.At-c.S2C < k {
			k = f.At - c.S2C
		}
		if k > 0 {
			c.in = append(c.in, seg[:k]...)
			c.S2C += k
			c.LastMove = c.n.S.Now()
		}
		if k == len(seg) {
			c.q = c.q[1:]
		} else {
			c.q[0] = seg[k:]
		}
		c.checkS2CFaults()
	}
}

func (c *Conn) nextS2C() *Fault {
	var best *Fault
	for _, f := range c.s2cF {
		switch f.Kind {
		case S2CEOF, S2CReset, S2CStall, S2CPause:
			if best == nil || f.At < best.At {
				best = f
			}
		}
	}
	return best
}

func (c *Conn) checkS2CFaults() {
	for {
		f := c.nextS2C()
		if f == nil || f.At > c.S2C {
			return
		}
		for i, x := range c.s2cF {
			if x == f {
				c.s2cF = append(c.s2cF[:i:i], c.s2cF[i+1:]...)
				break
			}
		}
		if c.closed {
			return
		}
		c.n.fire(f, c)
		switch f.Kind {
		case S2CEOF:
			if !c.peerGone {
				c.Dead, c.peerGone = true, true
				c.Peer.Closed()
			}
			c.inEOF = true
		case S2CReset:
			c.die(true)
		case S2CStall:
			c.silent = true
			c.Dead = true
		case S2CPause:
			c.paused = c.n.S.Now() + time.Duration(f.MS)*time.Millisecond
			c.n.S.At(c.paused, c.drain)
		}
	}
}

// corrupt applies content faults at stream offsets.
func (c *Conn) corrupt(b []byte) []byte {
	start := c.sent
	c.sent += len(b)
	for _, f := range c.s2cF {
		if f.Fired || f.At < start || f.At >= start+len(b) {
			continue
		}
		i := f.At - start
		switch f.Kind {
		case S2CFlip:
			b = append([]byte(nil), b...)
			b[i] ^= byte(f.Mask)
		case S2CInsert:
			b = append(append(append([]byte(nil), b[:i]...), byte(f.Mask)), b[i:]...)
		case S2CDelete:
			b = append(append([]byte(nil), b[:i]...), b[i+1:]...)
		case S2CDup:
			k := f.MS
			if k > i {
				k = i
			}
			b = append(append(append([]byte(nil), b[:i]...), b[i-k:i]...), b[i:]...)
		default:
			continue
		}
		c.n.fire(f, c)
		break
	}
	return b
}

// Sent is the number of bytes the server has produced (before content faults).
func (c *Conn) Sent() int { return c.sent }

func (c *Conn) Close() error {
	simrt.Y()
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.n.touch(c, "close")
	c.closed = true
	c.CloseTime = c.n.S.Now()
	c.n.Open--
	if simrt.S == nil {
		return nil // tidying up after a run
	}
	c.n.logf("conn %d closed by client", c.ID)
	if !c.peerGone {
		at := c.n.S.Now() + c.lat()
		if at < c.lastOut {
			at = c.lastOut
		}
		if !simrt.Killing() {
			c.n.S.At(at, func() {
				if !c.peerGone {
					c.peerGone = true
					c.Peer.Closed()
				}
			})
		}
	}
	for _, f := range c.closeF {
		c.n.fire(f, c)
		return opErr("close", syscall.EIO)
	}
	return nil
}

// IsClosed reports whether the client closed the socket.
func (c *Conn) IsClosed() bool { return c.closed }

// Gone reports whether the server side has seen the end of the connection.
func (c *Conn) Gone() bool { return c.peerGone }

func (c *Conn) SetDeadline(t time.Time) error {
	c.lock()
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.lock()
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.rdl, c.rset = t, c.n.S.Now()
	c.rewake(t)
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.lock()
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.wdl, c.wset = t, c.n.S.Now()
	c.rewake(t)
	return nil
}

// rewake makes the clock stop at a deadline set while another task is blocked.
func (c *Conn) rewake(t time.Time) {
	if c.waiters > 0 && !t.IsZero() && !simrt.Killing() {
		c.n.S.After(time.Until(t), func() {})
	}
}
