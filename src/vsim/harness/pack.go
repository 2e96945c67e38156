package harness

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"sort"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
)

// An independent implementation of PackStream and of the chunked framing, used
// by the stub server. It shares no code with the driver's encoder and decoder.

// Struct is a generic PackStream structure.
type Struct struct {
	Sig    byte
	Fields []interface{}
}

const (
	sigInit    = 0x01
	sigAck     = 0x0E
	sigReset   = 0x0F
	sigRun     = 0x10
	sigDiscard = 0x2F
	sigPull    = 0x3F
	sigSuccess = 0x70
	sigRecord  = 0x71
	sigIgnored = 0x7E
	sigFailure = 0x7F
	sigNode    = 0x4E
	sigRel     = 0x52
	sigURel    = 0x72
	sigPath    = 0x50
)

// packer encodes; with wide set it picks non-minimal encodings that are still legal.
type packer struct {
	b    []byte
	wide *rand.Rand
}

func (p *packer) lvl(min, max int) int {
	if p.wide == nil || min >= max || p.wide.IntN(2) == 0 {
		return min
	}
	return min + p.wide.IntN(max-min+1)
}

func (p *packer) u16(n int) { p.b = append(p.b, byte(n>>8), byte(n)) }
func (p *packer) u32(n int) { p.b = append(p.b, byte(n>>24), byte(n>>16), byte(n>>8), byte(n)) }

func (p *packer) size(n int, tiny, m8, m16, m32 byte) {
	l := 3
	switch {
	case n <= 15:
		l = 0
	case n <= 255:
		l = 1
	case n <= 65535:
		l = 2
	}
	max := 3
	if m32 == 0 {
		max = 2
	}
	switch p.lvl(l, max) {
	case 0:
		p.b = append(p.b, tiny|byte(n))
	case 1:
		p.b = append(p.b, m8, byte(n))
	case 2:
		p.b = append(p.b, m16)
		p.u16(n)
	default:
		p.b = append(p.b, m32)
		p.u32(n)
	}
}

func (p *packer) int(v int64) {
	l := 4
	switch {
	case v >= -16 && v <= 127:
		l = 0
	case v >= -128 && v <= 127:
		l = 1
	case v >= math.MinInt16 && v <= math.MaxInt16:
		l = 2
	case v >= math.MinInt32 && v <= math.MaxInt32:
		l = 3
	}
	switch p.lvl(l, 4) {
	case 0:
		p.b = append(p.b, byte(v))
	case 1:
		p.b = append(p.b, 0xC8, byte(v))
	case 2:
		p.b = append(p.b, 0xC9)
		p.u16(int(v))
	case 3:
		p.b = append(p.b, 0xCA)
		p.u32(int(v))
	default:
		p.b = append(p.b, 0xCB)
		p.b = binary.BigEndian.AppendUint64(p.b, uint64(v))
	}
}

func (p *packer) str(s string) {
	p.size(len(s), 0x80, 0xD0, 0xD1, 0xD2)
	p.b = append(p.b, s...)
}

func (p *packer) st(sig byte, fields ...interface{}) {
	// structures of the protocol are always sent in their canonical tiny form
	p.b = append(p.b, 0xB0|byte(len(fields)), sig)
	for _, f := range fields {
		p.val(f)
	}
}

func (p *packer) val(v interface{}) {
	switch x := v.(type) {
	case nil:
		p.b = append(p.b, 0xC0)
	case bool:
		if x {
			p.b = append(p.b, 0xC3)
		} else {
			p.b = append(p.b, 0xC2)
		}
	case int:
		p.int(int64(x))
	case int64:
		p.int(x)
	case float64:
		p.b = append(p.b, 0xC1)
		p.b = binary.BigEndian.AppendUint64(p.b, math.Float64bits(x))
	case string:
		p.str(x)
	case []string:
		p.size(len(x), 0x90, 0xD4, 0xD5, 0xD6)
		for _, e := range x {
			p.str(e)
		}
	case []int:
		p.size(len(x), 0x90, 0xD4, 0xD5, 0xD6)
		for _, e := range x {
			p.int(int64(e))
		}
	case []interface{}:
		p.size(len(x), 0x90, 0xD4, 0xD5, 0xD6)
		for _, e := range x {
			p.val(e)
		}
	case map[string]interface{}:
		p.size(len(x), 0xA0, 0xD8, 0xD9, 0xDA)
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			p.str(k)
			p.val(x[k])
		}
	case graph.Node:
		p.st(sigNode, x.NodeIdentity, x.Labels, x.Properties)
	case graph.Relationship:
		p.st(sigRel, x.RelIdentity, x.StartNodeIdentity, x.EndNodeIdentity, x.Type, x.Properties)
	case graph.UnboundRelationship:
		p.st(sigURel, x.RelIdentity, x.Type, x.Properties)
	case graph.Path:
		nodes := make([]interface{}, len(x.Nodes))
		for i, n := range x.Nodes {
			nodes[i] = n
		}
		rels := make([]interface{}, len(x.Relationships))
		for i, n := range x.Relationships {
			rels[i] = n
		}
		p.st(sigPath, nodes, rels, x.Sequence)
	case rawBytes:
		p.b = append(p.b, x...)
	case Struct:
		p.st(x.Sig, x.Fields...)
	default:
		panic(fmt.Sprintf("packer: %T", v))
	}
}

var errShort = errors.New("packstream: short")

// unpacker decodes one message of the client.
type unpacker struct {
	b []byte
	i int
}

func (u *unpacker) n(k int) ([]byte, error) {
	if k < 0 || len(u.b)-u.i < k {
		return nil, errShort
	}
	r := u.b[u.i : u.i+k]
	u.i += k
	return r, nil
}

func (u *unpacker) uint(k int) (int, error) {
	b, err := u.n(k)
	if err != nil {
		return 0, err
	}
	v := 0
	for _, x := range b {
		v = v<<8 | int(x)
	}
	return v, nil
}

func (u *unpacker) val() (interface{}, error) {
	mb, err := u.n(1)
	if err != nil {
		return nil, err
	}
	m := mb[0]
	size := func(tiny byte, m8, m16, m32 byte) (int, bool, error) {
		switch {
		case m&0xF0 == tiny:
			return int(m & 0x0F), true, nil
		case m == m8:
			n, err := u.uint(1)
			return n, true, err
		case m == m16:
			n, err := u.uint(2)
			return n, true, err
		case m == m32 && m32 != 0:
			n, err := u.uint(4)
			return n, true, err
		}
		return 0, false, nil
	}
	switch {
	case m == 0xC0:
		return nil, nil
	case m == 0xC1:
		b, err := u.n(8)
		if err != nil {
			return nil, err
		}
		return math.Float64frombits(binary.BigEndian.Uint64(b)), nil
	case m == 0xC2:
		return false, nil
	case m == 0xC3:
		return true, nil
	case m < 0x80 || m >= 0xF0:
		return int64(int8(m)), nil
	case m == 0xC8:
		n, err := u.uint(1)
		return int64(int8(n)), err
	case m == 0xC9:
		n, err := u.uint(2)
		return int64(int16(n)), err
	case m == 0xCA:
		n, err := u.uint(4)
		return int64(int32(n)), err
	case m == 0xCB:
		b, err := u.n(8)
		if err != nil {
			return nil, err
		}
		return int64(binary.BigEndian.Uint64(b)), nil
	}
	if n, ok, err := size(0x80, 0xD0, 0xD1, 0xD2); ok {
		if err != nil {
			return nil, err
		}
		b, err := u.n(n)
		return string(b), err
	}
	if n, ok, err := size(0x90, 0xD4, 0xD5, 0xD6); ok {
		if err != nil {
			return nil, err
		}
		if n > len(u.b)-u.i {
			return nil, errShort
		}
		out := make([]interface{}, 0, n)
		for i := 0; i < n; i++ {
			v, err := u.val()
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
		return out, nil
	}
	if n, ok, err := size(0xA0, 0xD8, 0xD9, 0xDA); ok {
		if err != nil {
			return nil, err
		}
		if n > len(u.b)-u.i {
			return nil, errShort
		}
		out := make(map[string]interface{}, n)
		for i := 0; i < n; i++ {
			k, err := u.val()
			if err != nil {
				return nil, err
			}
			v, err := u.val()
			if err != nil {
				return nil, err
			}
			ks, ok := k.(string)
			if !ok {
				return nil, fmt.Errorf("packstream: map key %T", k)
			}
			if _, dup := out[ks]; dup {
				return nil, fmt.Errorf("packstream: duplicate key %q", ks)
			}
			out[ks] = v
		}
		return out, nil
	}
	if n, ok, err := size(0xB0, 0xDC, 0xDD, 0); ok {
		if err != nil {
			return nil, err
		}
		s, err := u.n(1)
		if err != nil {
			return nil, err
		}
		out := Struct{Sig: s[0]}
		for i := 0; i < n; i++ {
			v, err := u.val()
			if err != nil {
				return nil, err
			}
			out.Fields = append(out.Fields, v)
		}
		return graphValue(out), nil
	}
	return nil, fmt.Errorf("packstream: marker %x", m)
}

// graphValue turns graph structures (a client may send nodes as parameters) into graph values.
func graphValue(s Struct) interface{} {
	str := func(v interface{}) (string, bool) { x, ok := v.(string); return x, ok }
	i64 := func(v interface{}) (int64, bool) { x, ok := v.(int64); return x, ok }
	mp := func(v interface{}) (map[string]interface{}, bool) {
		if v == nil {
			return nil, true
		}
		x, ok := v.(map[string]interface{})
		return x, ok
	}
	switch {
	case s.Sig == sigNode && len(s.Fields) == 3:
		id, ok1 := i64(s.Fields[0])
		ls, ok2 := s.Fields[1].([]interface{})
		ps, ok3 := mp(s.Fields[2])
		if ok1 && ok2 && ok3 {
			n := graph.Node{NodeIdentity: id, Properties: ps}
			for _, l := range ls {
				x, ok := str(l)
				if !ok {
					return s
				}
				n.Labels = append(n.Labels, x)
			}
			return n
		}
	case s.Sig == sigRel && len(s.Fields) == 5:
		a, ok1 := i64(s.Fields[0])
		b, ok2 := i64(s.Fields[1])
		c, ok3 := i64(s.Fields[2])
		t, ok4 := str(s.Fields[3])
		ps, ok5 := mp(s.Fields[4])
		if ok1 && ok2 && ok3 && ok4 && ok5 {
			return graph.Relationship{RelIdentity: a, StartNodeIdentity: b, EndNodeIdentity: c, Type: t, Properties: ps}
		}
	case s.Sig == sigURel && len(s.Fields) == 3:
		a, ok1 := i64(s.Fields[0])
		t, ok2 := str(s.Fields[1])
		ps, ok3 := mp(s.Fields[2])
		if ok1 && ok2 && ok3 {
			return graph.UnboundRelationship{RelIdentity: a, Type: t, Properties: ps}
		}
	case s.Sig == sigPath && len(s.Fields) == 3:
		ns, ok1 := s.Fields[0].([]interface{})
		rs, ok2 := s.Fields[1].([]interface{})
		sq, ok3 := s.Fields[2].([]interface{})
		if ok1 && ok2 && ok3 {
			p := graph.Path{}
			for _, n := range ns {
				x, ok := n.(graph.Node)
				if !ok {
					return s
				}
				p.Nodes = append(p.Nodes, x)
			}
			for _, n := range rs {
				x, ok := n.(graph.UnboundRelationship)
				if !ok {
					return s
				}
				p.Relationships = append(p.Relationships, x)
			}
			for _, n := range sq {
				x, ok := n.(int64)
				if !ok {
					return s
				}
				p.Sequence = append(p.Sequence, int(x))
			}
			return p
		}
	}
	return s
}

// packMsg encodes a server message.
func packMsg(wide *rand.Rand, sig byte, fields ...interface{}) []byte {
	p := &packer{wide: wide}
	p.st(sig, fields...)
	return p.b
}

// Chunk modes of the server.
const (
	ChunkOne   = iota // one chunk per message (65535 at most)
	ChunkByte         // one byte per chunk (only for small messages)
	ChunkSmall        // 1..16 bytes
	ChunkMixed        // mixture
	ChunkMax          // split only at 65535
	numChunkModes
)

// frame cuts a message into chunks and adds the end marker.
func frame(msg []byte, mode int, r *rand.Rand) []byte {
	out := make([]byte, 0, len(msg)+16)
	for len(msg) > 0 {
		k := len(msg)
		switch mode {
		case ChunkByte:
			k = 1 + len(msg)/256
		case ChunkSmall:
			k = 1 + r.IntN(16) + len(msg)/256
		case ChunkMixed:
			switch r.IntN(5) {
			case 0:
				k = 1 + r.IntN(3)
			case 1:
				k = 1 + r.IntN(255)
			case 2:
				k = 250 + r.IntN(20)
			case 3:
				k = 32760 + r.IntN(20)
			}
		}
		if k > len(msg) {
			k = len(msg)
		}
		if k > 65535 {
			k = 65535
		}
		out = append(out, byte(k>>8), byte(k))
		out = append(out, msg[:k]...)
		msg = msg[k:]
	}
	return append(out, 0, 0)
}

// unframe takes complete messages from the front of a byte stream.
type unframer struct {
	buf  []byte
	msg  []byte
	have bool
}

// next returns a message, or nil if none is complete yet. Empty messages (a
// NOOP keep-alive in later protocol versions) are an error in version 1.
func (u *unframer) next() (msg []byte, ok bool) {
	for len(u.buf) >= 2 {
		n := int(u.buf[0])<<8 | int(u.buf[1])
		if len(u.buf) < 2+n {
			return nil, false
		}
		if n == 0 {
			u.buf = u.buf[2:]
			m := u.msg
			u.msg = nil
			return m, true
		}
		u.msg = append(u.msg, u.buf[2:2+n]...)
		u.buf = u.buf[2+n:]
	}
	return nil, false
}

// rawBytes stand for themselves on the wire.
type rawBytes []byte

var undecodable = [][]byte{
	// structures with fields of the wrong type
	{0xB3, sigNode, 0x81, 'a', 0x90, 0xA0}, {0xB3, sigNode, 0x01, 0x01, 0xA0}, {0xB3, sigNode, 0x01, 0x91, 0x01, 0xA0}, {0xB3, sigNode, 0x01, 0x90, 0x90},
	{0xB3, sigNode, 0xC0, 0x90, 0xA0}, {0xB3, sigNode, 1, 0x91, 0xC0, 0xA0}, {0xB3, sigNode, 1, 0xC0, 0xA0}, {0xB3, sigNode, 1, 0x90, 0xC0}, {0xB3, sigNode, 1, 0x90, 0xA1, 0xC0, 1},
	{0xB5, sigRel, 0xC0, 1, 1, 0x81, 'a', 0xA0}, {0xB5, sigRel, 1, 0xC0, 1, 0x81, 'a', 0xA0}, {0xB5, sigRel, 1, 1, 0x80, 0x81, 'a', 0xA0}, {0xB5, sigRel, 1, 1, 1, 1, 0xA0}, {0xB5, sigRel, 1, 1, 1, 0x81, 'a', 1},
	{0xB5, sigRel, 1, 1, 1, 0xC0, 0xA0}, {0xB5, sigRel, 1, 1, 1, 0x81, 'a', 0xC0},
	{0xB3, sigURel, 0xC3, 0x81, 'a', 0xA0}, {0xB3, sigURel, 1, 1, 0xA0}, {0xB3, sigURel, 1, 0x81, 'a', 0x90},
	{0xB3, sigPath, 1, 0x90, 0x90}, {0xB3, sigPath, 0x91, 1, 0x90, 0x90}, {0xB3, sigPath, 0x90, 0x91, 1, 0x90}, {0xB3, sigPath, 0x90, 0x90, 0x91, 0x81, 'a'}, {0xB3, sigPath, 0x90, 0x90, 0x91, 0xC0}, {0xB3, sigPath, 0x90, 0x90, 1},
	{0xB3, sigPath, 0xC0, 0x90, 0x90}, {0xB3, sigPath, 0x90, 0xC0, 0x90}, {0xB3, sigPath, 0x90, 0x90, 0xC0}, {0xB3, sigPath, 0x91, 0xC0, 0x90, 0x90}, {0xB3, sigPath, 0x90, 0x91, 0xC1, 0, 0, 0, 0, 0, 0, 0, 0, 0x90},
	// maps with keys that are no strings
	{0xA1, 1, 1}, {0xA1, 0x90, 1}, {0xA1, 0xC0, 1}, {0xA1, 0xC2, 1}, {0xA1, 0xC1, 0, 0, 0, 0, 0, 0, 0, 0, 1}, {0xA2, 0x81, 'a', 1, 0xC0, 1}, {0xA2, 0xC0, 1, 0x81, 'a', 1}, {0xD8, 1, 0xC0, 0xC0}, {0xA1, 0xA0, 1},
	{0xA1, 0xC3, 0xC3}, {0xD9, 0, 1, 0xC9, 1, 1, 1},
	// unknown structures and markers
	{0xB1, 0x55, 1}, {0xB0, 0x00}, {0xDF}, {0xC4}, {0xC5}, {0xC6}, {0xC7}, {0xCC}, {0xCD}, {0xCE}, {0xCF}, {0xD3}, {0xD7}, {0xDB}, {0xE0}, {0xEF},
	// sizes beyond the message
	{0xD2, 0xFF, 0xFF, 0xFF, 0xFF}, {0xD2, 0x7F, 0xFF, 0xFF, 0xFF}, {0xDA, 0x80, 0, 0, 0}, {0xDA, 0xFF, 0xFF, 0xFF, 0xFF}, {0xD6, 0x7F, 0xFF, 0xFF, 0xFF}, {0xD6, 0xFF, 0xFF, 0xFF, 0xFF},
}

// badValue is a value no decoder of the protocol can accept in the place of v.
func badValue(r *rand.Rand, v interface{}) interface{} {
	if r.IntN(3) == 0 {
		switch v.(type) {
		case []interface{}: // the list of a record
			return []interface{}{nil, int64(1), "x", true, 1.5, map[string]interface{}{}}[r.IntN(6)]
		case map[string]interface{}: // metadata
			return []interface{}{nil, int64(1), "x", true, 1.5, []interface{}{}}[r.IntN(6)]
		}
	}
	return rawBytes(undecodable[r.IntN(len(undecodable))])
}

// spoil hides a value that cannot be decoded somewhere inside v.
func spoil(r *rand.Rand, v interface{}) interface{} {
	bad := interface{}(rawBytes(undecodable[r.IntN(len(undecodable))]))
	for r.IntN(2) == 0 {
		switch r.IntN(4) {
		case 0:
			bad = []interface{}{bad}
		case 1:
			bad = []interface{}{int64(1), "a", bad, nil, int64(2)}
		case 2:
			bad = map[string]interface{}{"k": bad, "z": int64(1)}
		case 3:
			bad = Struct{Sig: sigNode, Fields: []interface{}{int64(5), []interface{}{"L"}, map[string]interface{}{"p": bad}}}
		}
	}
	switch x := v.(type) {
	case []interface{}:
		if len(x) == 0 {
			return []interface{}{bad}
		}
		y := append([]interface{}(nil), x...)
		y[r.IntN(len(y))] = bad
		return y
	case map[string]interface{}:
		y := map[string]interface{}{}
		for k, e := range x {
			y[k] = e
		}
		y["zz"] = bad
		if r.IntN(4) == 0 {
			y["aa"] = bad
		}
		return y
	}
	return bad
}
