package harness

import (
	"bytes"
	"crypto"
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"time"

	"vsim/simrt"
	"vsim/snet"
)

// certDir holds the certificate files given to the driver.
var certDir string

// oddCA is a file name that has to be escaped in a URL.
const oddCA = "ca 1+1&é.pem"

var serverCerts = map[string]tls.Certificate{}

func key(name string) ed25519.PrivateKey {
	h := sha256.Sum256([]byte("vsim key " + name))
	return ed25519.NewKeyFromSeed(h[:])
}

// InitCerts makes the certificates; everything is derived from fixed seeds.
func InitCerts(dir string) error {
	certDir = dir
	base := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC) // the simulated clock starts here
	serial := int64(1)
	var eku []x509.ExtKeyUsage
	mk := func(cn string, hosts []string, from, to time.Time, ca bool, parent *x509.Certificate, pk, signer ed25519.PrivateKey) (*x509.Certificate, []byte, error) {
		serial++
		t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn}, NotBefore: from, NotAfter: to, DNSNames: hosts,
			KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}, BasicConstraintsValid: true}
		if eku != nil {
			t.ExtKeyUsage = eku
		}
		for _, h := range hosts {
			if ip := net.ParseIP(h); ip != nil {
				t.IPAddresses = append(t.IPAddresses, ip)
			}
		}
		if ca {
			t.IsCA = true
			t.KeyUsage |= x509.KeyUsageCertSign
			t.ExtKeyUsage = nil
		}
		if parent == nil {
			parent = t
		}
		der, err := x509.CreateCertificate(nil, t, parent, pk.Public(), signer)
		if err != nil {
			return nil, nil, err
		}
		c, err := x509.ParseCertificate(der)
		return c, der, err
	}
	y := 365 * 24 * time.Hour
	ca, caDER, err := mk("sim CA", nil, base.Add(-y), base.Add(10*y), true, nil, key("ca"), key("ca"))
	if err != nil {
		return err
	}
	ca2, _, err := mk("other CA", nil, base.Add(-y), base.Add(10*y), true, nil, key("ca2"), key("ca2"))
	if err != nil {
		return err
	}
	add := func(name string, hosts []string, from, to time.Time, parent *x509.Certificate, signer ed25519.PrivateKey) error {
		k := key(name)
		if signer == nil {
			signer = k
		}
		_, der, err := mk("db", hosts, from, to, false, parent, k, signer)
		serverCerts[name] = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: crypto.Signer(k)}
		return err
	}
	host := []string{"db.example", "localhost", "10.1.2.3", "2001:db8::7"}
	for _, e := range []error{
		add("good", host, base.Add(-y), base.Add(y), ca, key("ca")),
		add("wronghost", []string{"evil.example"}, base.Add(-y), base.Add(y), ca, key("ca")),
		add("expired", host, base.Add(-2*y), base.Add(-y), ca, key("ca")),
		add("notyet", host, base.Add(y), base.Add(2*y), ca, key("ca")),
		add("otherca", host, base.Add(-y), base.Add(y), ca2, key("ca2")),
		add("selfsigned", host, base.Add(-y), base.Add(y), nil, nil),
	} {
		if e != nil {
			return e
		}
	}
	// signed by the system's CA
	sys, sysDER, err := mk("system CA", nil, base.Add(-y), base.Add(10*y), true, nil, key("sys"), key("sys"))
	if err != nil {
		return err
	}
	if err := add("sysca", host, base.Add(-y), base.Add(y), sys, key("sys")); err != nil {
		return err
	}
	// through an intermediate CA
	inter, interDER, err := mk("intermediate CA", nil, base.Add(-y), base.Add(10*y), true, ca, key("inter"), key("ca"))
	if err != nil {
		return err
	}
	if err := add("chain", host, base.Add(-y), base.Add(y), inter, key("inter")); err != nil {
		return err
	}
	// signed by a certificate that is not a CA
	leaf, leafDER, err := mk("leaf", host, base.Add(-y), base.Add(y), false, ca, key("leaf"), key("ca"))
	if err != nil {
		return err
	}
	if err := add("leafsigned", host, base.Add(-y), base.Add(y), leaf, key("leaf")); err != nil {
		return err
	}
	for name, der := range map[string][]byte{"chain": interDER, "leafsigned": leafDER} {
		c := serverCerts[name]
		c.Certificate = append(c.Certificate, der)
		serverCerts[name] = c
	}
	// a certificate for clients only
	eku = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
	if err := add("eku", host, base.Add(-y), base.Add(y), ca, key("ca")); err != nil {
		return err
	}
	eku = nil
	_, cl, err := mk("client", nil, base.Add(-y), base.Add(y), false, ca, key("client"), key("ca"))
	if err != nil {
		return err
	}
	pk, err := x509.MarshalPKCS8PrivateKey(key("client"))
	if err != nil {
		return err
	}
	for name, b := range map[string]*pem.Block{"ca.pem": {Type: "CERTIFICATE", Bytes: caDER}, "sys.pem": {Type: "CERTIFICATE", Bytes: sysDER}, "client.pem": {Type: "CERTIFICATE", Bytes: cl}, "client.key": {Type: "PRIVATE KEY", Bytes: pk}, oddCA: {Type: "CERTIFICATE", Bytes: caDER}} {
		// Other worker processes may be reading the same (identical) files.
		tmp := filepath.Join(dir, fmt.Sprintf(".%s.%d", name, os.Getpid()))
		if err := os.WriteFile(tmp, pem.EncodeToMemory(b), 0600); err != nil {
			return err
		}
		if err := os.Rename(tmp, filepath.Join(dir, name)); err != nil {
			return err
		}
	}
	ok, err := x509.MarshalPKCS8PrivateKey(key("other client"))
	if err != nil {
		return err
	}
	for name, b := range map[string][]byte{"junk.pem": []byte("this is not a certificate\n"), "other.key": pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: ok})} {
		tmp := filepath.Join(dir, fmt.Sprintf(".%s.%d", name, os.Getpid()))
		if err := os.WriteFile(tmp, b, 0600); err != nil {
			return err
		}
		if err := os.Rename(tmp, filepath.Join(dir, name)); err != nil {
			return err
		}
	}
	// the roots of the simulated machine
	os.Setenv("SSL_CERT_FILE", filepath.Join(dir, "sys.pem"))
	os.Setenv("SSL_CERT_DIR", filepath.Join(dir, "none"))
	_, err = x509.SystemCertPool()
	return err
}

// tlsSide is the server end of a TLS connection: real crypto/tls in a daemon
// task; the plaintext goes to the Bolt session.
type tlsSide struct {
	r    *Run
	c    *snet.Conn
	sess *Session
	in   []byte
	gone bool
	conn *tls.Conn
	hs   bool
}

func (r *Run) tlsPeer(c *snet.Conn, sess *Session) snet.Peer {
	c.Record = true
	t := &tlsSide{r: r, c: c, sess: sess}
	switch r.Sc.TLS.Server {
	case "plain":
		return sess // a server that does not speak TLS at all; judged by what it gets
	case "garbage":
		r.faultConn(c, "garbage")
		r.S.After(time.Millisecond, func() { c.ServerSend([]byte("SSH-2.0-OpenSSH_7.4\r\n")) })
		return t
	case "silent":
		r.faultConn(c, "silent")
		return t
	}
	cfg := &tls.Config{Certificates: []tls.Certificate{serverCerts[r.Sc.TLS.Server]}, MinVersion: tls.VersionTLS10, MaxVersion: tls.VersionTLS13}
	if r.Sc.TLS.Client && r.Sc.TLS.Bad == "" {
		cfg.ClientAuth = tls.RequireAnyClientCert
	}
	t.conn = tls.Server(t, cfg)
	sess.w = func(b []byte) {
		if t.hs && !t.gone {
			t.conn.Write(b)
		}
	}
	r.S.Spawn(fmt.Sprintf("tls%d", c.ID), true, t.loop)
	return t
}

func (t *tlsSide) loop() {
	if err := t.conn.Handshake(); err != nil {
		t.r.logf("conn %d: TLS handshake failed at the server", t.c.ID)
		t.c.ServerClose()
		return
	}
	t.hs = true
	t.r.Probes.Add("tls-handshake")
	if t.r.Sc.TLS.Client && t.r.Sc.TLS.Bad == "" && len(t.conn.ConnectionState().PeerCertificates) == 0 {
		t.r.violate("no-client-cert", []string{"C16", "C18"}, "conn %d: the configured client certificate was not presented", t.c.ID)
	}
	buf := make([]byte, 4096)
	for {
		n, err := t.conn.Read(buf)
		if n > 0 {
			t.sess.Receive(append([]byte(nil), buf[:n]...))
		}
		if err != nil {
			t.sess.Closed()
			t.c.ServerClose()
			return
		}
	}
}

// Peer
func (t *tlsSide) Receive(b []byte) { t.in = append(t.in, b...) }
func (t *tlsSide) Closed()          { t.gone = true; t.sess.Closed() }

// net.Conn for tls.Server
func (t *tlsSide) Read(b []byte) (int, error) {
	simrt.Block("tls server read", func() bool { return len(t.in) > 0 || t.gone })
	if len(t.in) == 0 {
		return 0, io.EOF
	}
	n := copy(b, t.in)
	t.in = t.in[n:]
	return n, nil
}
func (t *tlsSide) Write(b []byte) (int, error) {
	t.c.ServerSend(append([]byte(nil), b...))
	t.c.S2CMarks = append(t.c.S2CMarks, t.c.Sent())
	return len(b), nil
}
func (t *tlsSide) Close() error                        { return nil }
func (t *tlsSide) LocalAddr() net.Addr                 { return nil }
func (t *tlsSide) RemoteAddr() net.Addr                { return nil }
func (t *tlsSide) SetDeadline(time.Time) error         { return nil }
func (t *tlsSide) SetReadDeadline(time.Time) error     { return nil }
func (t *tlsSide) SetWriteDeadline(t2 time.Time) error { return nil }

// tlsAcceptable: may the client talk to this server at all?
func (r *Run) tlsAcceptable() bool {
	t := r.Sc.TLS
	switch t.Server {
	case "plain", "garbage", "silent":
		return false
	}
	switch t.Bad {
	case "":
	case "camissing", "cajunk": // nothing can be verified
		return t.NoVerify
	default: // the client certificate asked for cannot be presented
		return false
	}
	switch {
	case t.NoVerify:
		return true
	case t.CA:
		return t.Server == "good" || t.Server == "chain"
	}
	return t.Server == "sysca"
}

// tlsMayFail: an unreadable CA file may or may not matter when nothing is verified.
func (t *TLSCfg) mayFail() bool { return t.NoVerify && (t.Bad == "camissing" || t.Bad == "cajunk") }

// tlsSecrecy: nothing readable on the wire, nothing at all to an unverified server.
func (r *Run) tlsSecrecy(c *snet.Conn) {
	if bytes.Contains(c.C2SData, []byte{0x60, 0x60, 0xb0, 0x17}) || (len(r.Sc.Pass) > 5 && bytes.Contains(c.C2SData, []byte(r.Sc.Pass))) {
		r.violate("clear-text", []string{"C16", "C18"}, "conn %d: protocol bytes or credentials in clear text on the wire", c.ID)
	}
	s := r.Srv.Sess[c.ID]
	if s != nil && s.Bytes > 0 && !r.tlsAcceptable() && r.Sc.TLS.Server != "plain" {
		r.violate("unverified-server", []string{"C16", "C18"}, "conn %d: %d protocol bytes sent to a server that fails verification (%s)", c.ID, s.Bytes, r.Sc.TLS.Server)
	}
}

func (k *client) tlsOpened(m *mConn) {
	if !k.r.tlsAcceptable() {
		k.r.violate("unverified-server", []string{"C16", "C18"}, "open succeeded with a server that must be rejected (%s, ca=%v %s)", k.r.Sc.TLS.Server, k.r.Sc.TLS.CA, k.r.Sc.TLS.Bad)
	}
}

func (k *client) tlsOpenFailed(m *mConn, err error) {
	r := k.r
	if r.tlsAcceptable() && !r.Sc.TLS.mayFail() && !r.anyFault && (m.net == nil || r.Srv.Sess[m.net.ID].initPlan() == "") {
		r.violate("spurious-error", []string{"C16"}, "open failed with %s though the server is acceptable (%s)", brief(err), r.Sc.TLS.Server)
	}
}
