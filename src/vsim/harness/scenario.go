package harness

import (
	"fmt"
	"math"
	"strings"

	"vsim/simrt"
	"vsim/snet"
)

// Scenario is one complete simulated run: everything that happens is a
// function of it and of the code under test. It is also the replay file.
type Scenario struct {
	Prop    string        `json:"prop"`
	Family  string        `json:"family"`
	Seed    uint64        `json:"seed"`
	User    string        `json:"user,omitempty"`
	Pass    string        `json:"pass,omitempty"`
	Timeout int           `json:"timeout_s"` // URL parameter; 0 = not given (60 s)
	Host    string        `json:"host,omitempty"`
	URLVar  uint64        `json:"url_var,omitempty"` // seed for the spelling of the URL; 0 = plain
	Net     NetCfg        `json:"net"`
	Srv     SrvCfg        `json:"srv"`
	Pool    *PoolCfg      `json:"pool,omitempty"`
	TLS     *TLSCfg       `json:"tls,omitempty"`
	SQL     bool          `json:"sql,omitempty"`
	Idle    int           `json:"idle,omitempty"`    // SetMaxIdleConns; 0 = not called
	MaxOpen int           `json:"maxopen,omitempty"` // SetMaxOpenConns
	Execs   []*ExecPlan   `json:"execs"`
	Clients []*Script     `json:"clients"`
	Faults  []*snet.Fault `json:"faults,omitempty"`
	Sched   SchedCfg      `json:"sched"`
	Trace   bool          `json:"trace,omitempty"` // driver log level trace
}

type NetCfg struct {
	Seg   int    `json:"seg"`
	LatUS int    `json:"lat_us"`
	JitUS int    `json:"jit_us"`
	Seed  uint64 `json:"seed"`
}

type SrvCfg struct {
	Chunk    int               `json:"chunk"`
	Wide     bool              `json:"wide,omitempty"`
	ThinkUS  int               `json:"think_us,omitempty"`
	Seed     uint64            `json:"seed"`
	CommitAt string            `json:"commit_at,omitempty"` // "run" or "pull"
	TxFail   map[string]string `json:"tx_fail,omitempty"`   // "COMMIT#2" -> "run"/"pull"
	Init     map[int]string    `json:"init,omitempty"`      // per connection: what happens in the handshake
	NoExtra  bool              `json:"no_extra,omitempty"`  // minimal metadata
}

type PoolCfg struct {
	Max   int  `json:"max"`
	Probe bool `json:"probe"` // check capacity afterwards
}

type TLSCfg struct {
	Server   string `json:"server"`        // good, chain, sysca, wronghost, selfsigned, otherca, expired, notyet, eku, leafsigned, plain, garbage, silent
	CA       bool   `json:"ca"`            // pass the CA file
	NoVerify bool   `json:"no_verify"`     // tls_no_verify
	Client   bool   `json:"client"`        // present a client certificate
	Bad      string `json:"bad,omitempty"` // an unusable file: camissing, cajunk, certmissing, keymissing, nokey, certjunk, mismatch
}

type SchedCfg struct {
	Seed      uint64           `json:"seed"`
	MeanSlice int              `json:"mean_slice,omitempty"`
	PBlock    float64          `json:"p_block,omitempty"`
	PEarly    float64          `json:"p_early,omitempty"`
	Replay    bool             `json:"replay,omitempty"`
	Overrides []simrt.Override `json:"overrides,omitempty"`
}

// ExecPlan says what the caller asks for in one statement execution and what
// the server will answer.
type ExecPlan struct {
	ID      int    `json:"id"`
	Stmt    int    `json:"stmt,omitempty"` // executed through the prepared statement with this text id
	Text    int    `json:"text,omitempty"` // length of padding in the query text
	NPar    int    `json:"npar,omitempty"`
	PClass  string `json:"pclass,omitempty"`
	Bad     bool   `json:"bad,omitempty"`      // one parameter cannot be encoded
	BadUint bool   `json:"bad_uint,omitempty"` // that parameter is a uint beyond int64 (known finding)
	Cols    int    `json:"cols"`
	Rows    int    `json:"rows"`
	Class   string `json:"class,omitempty"`
	Seed    uint64 `json:"seed"`
	Fail    string `json:"fail,omitempty"` // "", "run", "rows"
	FailAt  int    `json:"fail_at,omitempty"`
	Ack     string `json:"ack,omitempty"` // "": acknowledged; "refuse": ACK_FAILURE refused; "dead": RESET refused as well; "undec", "undecreset": the answer to it, or to the RESET, cannot be decoded
	Write   bool   `json:"write,omitempty"`
	GapMS   int    `json:"gap_ms,omitempty"` // pause between rows
	Raw     string `json:"raw,omitempty"`    // malformed answer (C07)
	Undec   string `json:"undec,omitempty"`  // which answer cannot be decoded ("run", "row", "sum") or is IGNORED, as in a session that an administrator interrupted ("intrun", "introw", "intsum")
	UndecAt int    `json:"undec_at,omitempty"`
}

// Script is what one client task does.
type Script struct {
	Ops []*Op `json:"ops"`
}

// Op is one API call. Handles are named by the op that creates them.
type Op struct {
	Op string `json:"op"`
	ID int    `json:"id,omitempty"` // handle created
	H  int    `json:"h,omitempty"`  // handle used
	X  []int  `json:"x,omitempty"`  // executions
	S  []int  `json:"s,omitempty"`  // prepared text ids
	N  int    `json:"n,omitempty"`
}

func (o *Op) String() string {
	s := o.Op
	if o.ID != 0 {
		s += fmt.Sprintf(" id=%d", o.ID)
	}
	if o.H != 0 {
		s += fmt.Sprintf(" h=%d", o.H)
	}
	if len(o.X) > 0 {
		s += fmt.Sprintf(" x=%v", o.X)
	}
	if len(o.S) > 0 {
		s += fmt.Sprintf(" s=%v", o.S)
	}
	if o.N != 0 {
		s += fmt.Sprintf(" n=%d", o.N)
	}
	return s
}

func pad(n int, salt uint64) string {
	if n <= 0 {
		return ""
	}
	r := newRand(salt, 77)
	return "'" + genStr(r, n) + "'"
}

func (p *ExecPlan) heavy() bool {
	big := func(c string) bool { return c == ClBig || c == ClDeep }
	return big(p.Class) || big(p.PClass) || p.Text > 1000 || p.Rows*p.Cols > 20 || p.Cols > 8 || p.NPar > 6 || p.Raw != ""
}

// query is the text of an execution.
func (p *ExecPlan) query() string {
	if p.Stmt != 0 {
		return stmtText(p.Stmt)
	}
	return fmt.Sprintf("/*X%d*/ RETURN %s", p.ID, pad(p.Text, p.Seed))
}

func stmtText(id int) string { return fmt.Sprintf("/*S%d*/ RETURN {x}", id) }

// params are the parameters the caller passes (nil if none).
func (p *ExecPlan) params() map[string]interface{} {
	if p.NPar == 0 && !p.Bad && p.Stmt == 0 {
		return nil
	}
	r := newRand(p.Seed, 0xAA)
	out := map[string]interface{}{}
	if p.Stmt != 0 {
		out["x"] = int64(p.ID)
	}
	budget := 3000
	for i := 0; i < p.NPar; i++ {
		out[fmt.Sprintf("p%d", i)] = genParam(r, p.PClass, &budget)
	}
	if p.Bad {
		out[fmt.Sprintf("p%d", p.NPar)] = badParam(r)
		if p.BadUint {
			out[fmt.Sprintf("p%d", p.NPar)] = uint(math.MaxInt64) + 1 + uint(p.Seed%1000)
		}
	}
	return out
}

func (p *ExecPlan) wantParams() map[string]interface{} {
	return normParam(p.params()).(map[string]interface{})
}

func (p *ExecPlan) columns() []interface{} {
	out := make([]interface{}, p.Cols)
	for i := range out {
		out[i] = fmt.Sprintf("c%d_%d", i, p.ID)
	}
	return out
}

func (p *ExecPlan) row(i int) []interface{} {
	if p.Class == "none" {
		return []interface{}{}
	}
	r := newRand(p.Seed, uint64(i)+1000)
	out := make([]interface{}, p.Cols)
	budget := 3000
	for j := range out {
		if j == 0 && p.Cols > 1 {
			out[j] = int64(p.ID)*100000 + int64(i)
		} else {
			out[j] = genVal(r, p.Class, 0, &budget)
		}
	}
	return out
}

func (p *ExecPlan) stats(write bool) map[string]interface{} {
	if !write {
		return nil
	}
	r := newRand(p.Seed, 0xBB)
	s := map[string]interface{}{"x": int64(p.ID)}
	for _, k := range []string{"nodes-created", "nodes-deleted", "relationships-created", "relationships-deleted", "properties-set", "labels-added"} {
		if r.IntN(2) == 0 {
			s[k] = int64(r.IntN(40)) * int64(r.IntN(400))
		}
	}
	return s
}

// affected is what RowsAffected has to report.
func affected(sum map[string]interface{}) int64 {
	s, _ := sum["stats"].(map[string]interface{})
	var n int64
	for _, k := range []string{"nodes-created", "nodes-deleted", "relationships-created", "relationships-deleted"} {
		if v, ok := s[k].(int64); ok {
			n += v
		}
	}
	return n
}

func (s *Scenario) url() string {
	r := newRand(s.URLVar, 5)
	pick := func(plain string, more ...string) string {
		if s.URLVar == 0 {
			return plain
		}
		return append(more, plain)[r.IntN(len(more)+1)]
	}
	u := pick("bolt", "BOLT", "Bolt") + "://"
	if s.User != "" {
		raw := ""
		if s.URLVar&1 == 1 {
			raw = "!$&'()*+,;=-._~" // legal as they are
		}
		u += urlEscape(s.User, raw) + ":" + urlEscape(s.Pass, raw) + "@"
	}
	u += s.host() + pick("", "/")
	var q []string
	if s.Timeout != 0 {
		q = append(q, fmt.Sprintf("timeout=%d", s.Timeout))
	}
	if s.TLS != nil {
		q = append(q, "tls="+pick("true", "1", "True", "TRUE", "t"))
		if s.TLS.CA {
			q = append(q, "tls_ca_cert_file="+certDir+"/"+pick(s.TLS.file("ca.pem"), s.TLS.file(urlEscape(oddCA, ""))))
		}
		if s.TLS.NoVerify {
			q = append(q, "tls_no_verify="+pick("1", "true", "True", "TRUE", "t"))
		} else if v := pick("", "false", "0", "False", "f", "FALSE"); v != "" {
			q = append(q, "tls_no_verify="+v)
		}
		if s.TLS.Client {
			q = append(q, "tls_cert_file="+certDir+"/"+s.TLS.file("client.pem"))
			if s.TLS.Bad != "nokey" {
				q = append(q, "tls_key_file="+certDir+"/"+s.TLS.file("client.key"))
			}
		}
	}
	if s.TLS == nil {
		if v := pick("", "", "", "tls=false", "tls=0", "tls=False", "tls_no_verify=true", "tls=f"); v != "" {
			q = append(q, v)
		}
	}
	if s.URLVar != 0 {
		r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
	}
	if len(q) > 0 {
		u += "?" + strings.Join(q, "&")
	}
	return u
}

// file is the name of the file the URL gives for f.
func (t *TLSCfg) file(f string) string {
	if f != "client.pem" && f != "client.key" {
		switch t.Bad {
		case "camissing":
			return "missing.pem"
		case "cajunk":
			return "junk.pem"
		}
		return f
	}
	switch t.Bad + " " + f {
	case "certmissing client.pem", "keymissing client.key":
		return "missing.pem"
	case "certjunk client.pem":
		return "junk.pem"
	case "mismatch client.key":
		return "other.key"
	}
	return f
}

// badURL is an invalid URL.
func (s *Scenario) badURL(n int) string {
	host := s.host()
	c := []string{
		"",
		"http://" + host,
		"neo4j://" + host,
		"bolts://u:p@" + host,
		"bolt+s://" + host,
		"tcp://" + host,
		"//" + host,
		"/" + host,
		"bolt://neo4j@" + host,
		"bolt://neo4j@" + host + "?timeout=5",
		"bolt://" + host + "?timeout=abc",
		"bolt://" + host + "?timeout=1.5",
		"bolt://" + host + "?timeout=10s",
		"bolt://a:b@" + host + "?timeout=5x",
		"bolt://" + host + "?timeout=0x10&tls=false",
		"bolt://" + host + "?timeout=99999999999999999999",
		"bolt://%zz@" + host,
		"bolt://[::1/",
		"bolt://db.example:76x7",
		"bolt://db.exa mple:7687",
		"bolt://db.example:7687/\x7f",
		":7687",
		"%",
	}
	return c[n%64%len(c)]
}

func (s *Scenario) host() string {
	if s.Host == "" {
		return "db.example:7687"
	}
	return s.Host
}

func urlEscape(s, raw string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte(raw, c) >= 0 {
			sb.WriteByte(c)
		} else {
			fmt.Fprintf(&sb, "%%%02X", c)
		}
	}
	return sb.String()
}

func (s *Scenario) timeoutMS() int {
	if s.Timeout == 0 {
		return 60000
	}
	return s.Timeout * 1000
}
