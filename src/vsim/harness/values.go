package harness

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"strings"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
)

// Value classes.
const (
	ClInt   = "int"
	ClMix   = "mix"
	ClEdge  = "edge"
	ClBig   = "big"
	ClDeep  = "deep"
	ClGraph = "graph"
	ClNone  = "none"
)

var edgeSizes = []int{0, 1, 14, 15, 16, 17, 31, 32, 126, 127, 128, 129, 200, 254, 255, 256, 257, 1000}
var bigSizes = []int{32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 70000, 131070, 131072}
var bigCounts = []int{32767, 32768, 65535, 65536}

var edgeInts = []int64{0, 1, -1, 15, 16, -15, -16, -17, -18, 126, 127, 128, 129, -126, -127, -128, -129, -130, 255, 256, 257,
	32766, 32767, 32768, 32769, -32767, -32768, -32769, 65535, 65536, -65536,
	math.MaxInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32 + 1, math.MinInt32, math.MinInt32 - 1,
	math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64 - 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}

var edgeFloats = []float64{0, math.Copysign(0, -1), 1.5, -1.5, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1e100, 3.14, 100, -7}

func genStr(r *rand.Rand, n int) string {
	if n <= 0 {
		return ""
	}
	switch r.IntN(6) {
	case 0: // multi-byte runes; length in bytes is n
		var sb strings.Builder
		for sb.Len()+4 <= n {
			sb.WriteString([]string{"é", "漢", "😀", "z"}[r.IntN(4)])
		}
		for sb.Len() < n {
			sb.WriteByte('q')
		}
		return sb.String()
	case 1: // bytes that look like chunk ends and markers
		b := make([]byte, n)
		for i := range b {
			b[i] = []byte{0, 0, 0x7F, 0x70, 0xB1, 0xC0, 0x90, 'a'}[r.IntN(8)]
		}
		return string(b)
	}
	if n > 64 {
		s := fmt.Sprintf("%08x", r.Uint32())
		return (strings.Repeat(s, n/8+1))[:n]
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + r.IntN(26))
	}
	return string(b)
}

func genInt(r *rand.Rand) int64 {
	switch r.IntN(3) {
	case 0:
		return edgeInts[r.IntN(len(edgeInts))]
	case 1:
		return int64(r.Uint64()) >> uint(r.IntN(64))
	}
	return int64(r.IntN(200) - 50)
}

func genScalar(r *rand.Rand) interface{} {
	switch r.IntN(7) {
	case 0:
		return nil
	case 1:
		return r.IntN(2) == 0
	case 2, 3:
		return genInt(r)
	case 4:
		if r.IntN(2) == 0 {
			return edgeFloats[r.IntN(len(edgeFloats))]
		}
		return r.NormFloat64() * 1e6
	}
	return genStr(r, r.IntN(40))
}

func genProps(r *rand.Rand, class string) map[string]interface{} {
	m := map[string]interface{}{}
	for i, n := 0, r.IntN(4); i < n; i++ {
		m[fmt.Sprintf("p%d", i)] = genScalar(r)
	}
	if class == ClEdge && r.IntN(3) == 0 {
		m["e"] = genStr(r, edgeSizes[r.IntN(len(edgeSizes))])
	}
	return m
}

func genNode(r *rand.Rand) graph.Node {
	n := graph.Node{NodeIdentity: genInt(r), Properties: genProps(r, ClEdge)}
	for i, k := 0, r.IntN(4); i < k; i++ {
		n.Labels = append(n.Labels, genStr(r, 1+r.IntN(20)))
	}
	return n
}

func genURel(r *rand.Rand) graph.UnboundRelationship {
	return graph.UnboundRelationship{RelIdentity: genInt(r), Type: genStr(r, 1+r.IntN(20)), Properties: genProps(r, ClEdge)}
}

func genGraph(r *rand.Rand) interface{} {
	switch r.IntN(4) {
	case 0:
		return genNode(r)
	case 1:
		return graph.Relationship{RelIdentity: genInt(r), StartNodeIdentity: genInt(r), EndNodeIdentity: genInt(r), Type: genStr(r, 1+r.IntN(20)), Properties: genProps(r, ClEdge)}
	case 2:
		return genURel(r)
	}
	p := graph.Path{}
	k := r.IntN(5)
	switch r.IntN(200) {
	case 0: // sequence numbers that need more than one byte
		k = 126 + r.IntN(10)
	case 1:
		k = 300
	default:
		if r.IntN(12) == 0 {
			k = 15 + r.IntN(4)
		}
	}
	node, rel := func() graph.Node { return genNode(r) }, func() graph.UnboundRelationship { return genURel(r) }
	if k > 20 {
		node = func() graph.Node { return graph.Node{NodeIdentity: genInt(r), Properties: map[string]interface{}{}} }
		rel = func() graph.UnboundRelationship {
			return graph.UnboundRelationship{RelIdentity: genInt(r), Type: "T", Properties: map[string]interface{}{}}
		}
	}
	p.Nodes = append(p.Nodes, node())
	for i := 0; i < k; i++ {
		p.Nodes = append(p.Nodes, node())
		p.Relationships = append(p.Relationships, rel())
		s := i + 1
		if r.IntN(2) == 0 {
			s = -s
		}
		p.Sequence = append(p.Sequence, s, i+1)
	}
	return p
}

// genVal makes a value of a class. Budget limits the total number of elements.
func genVal(r *rand.Rand, class string, depth int, budget *int) interface{} {
	*budget--
	if *budget < 0 {
		return int64(7)
	}
	switch class {
	case ClInt:
		return genInt(r)
	case ClEdge:
		n := edgeSizes[r.IntN(len(edgeSizes))]
		switch r.IntN(6) {
		case 0:
			return edgeInts[r.IntN(len(edgeInts))]
		case 1, 2:
			return genStr(r, n)
		case 3:
			l := make([]interface{}, n)
			for i := range l {
				l[i] = genScalarSmall(r)
			}
			return l
		case 4:
			m := make(map[string]interface{}, n)
			for i := 0; i < n; i++ {
				m[fmt.Sprintf("k%d", i)] = genScalarSmall(r)
			}
			return m
		}
		return edgeFloats[r.IntN(len(edgeFloats))]
	case ClBig:
		switch r.IntN(5) {
		case 0:
			l := make([]interface{}, bigCounts[r.IntN(len(bigCounts))])
			for i := range l {
				l[i] = int64(i % 100)
			}
			return l
		case 1:
			m := map[string]interface{}{}
			for i, n := 0, bigCounts[r.IntN(2)]; i < n; i++ {
				m[fmt.Sprintf("%d", i)] = nil
			}
			return m
		}
		return genStr(r, bigSizes[r.IntN(len(bigSizes))])
	case ClDeep:
		d := 1 + r.IntN(60)
		if r.IntN(6) == 0 {
			d = 300 + r.IntN(700)
		}
		var v interface{} = genScalar(r)
		for i := 0; i < d; i++ {
			if r.IntN(2) == 0 {
				v = []interface{}{v}
			} else {
				v = map[string]interface{}{"d": v}
			}
		}
		return v
	case ClGraph:
		return genGraph(r)
	}
	// mix
	switch k := r.IntN(10); {
	case k < 6 || depth > 3:
		return genScalar(r)
	case k < 8:
		l := make([]interface{}, r.IntN(6))
		for i := range l {
			l[i] = genVal(r, ClMix, depth+1, budget)
		}
		return l
	default:
		m := map[string]interface{}{}
		for i, n := 0, r.IntN(5); i < n; i++ {
			m[genStr(r, 1+r.IntN(12))+fmt.Sprint(i)] = genVal(r, ClMix, depth+1, budget)
		}
		return m
	}
}

func genScalarSmall(r *rand.Rand) interface{} {
	switch r.IntN(3) {
	case 0:
		return int64(r.IntN(300) - 150)
	case 1:
		return genStr(r, r.IntN(3))
	}
	return r.IntN(2) == 0
}

func newRand(a, b uint64) *rand.Rand { return rand.New(rand.NewPCG(a, b)) }

// normParam is what the server is expected to decode for a parameter value.
func normParam(v interface{}) interface{} {
	switch x := v.(type) {
	case nil, bool, string, float64, int64:
		return v
	case graph.Node, graph.Relationship, graph.UnboundRelationship, graph.Path:
		return v
	case float32:
		return float64(x)
	case map[string]interface{}:
		out := make(map[string]interface{}, len(x))
		for k, e := range x {
			out[k] = normParam(e)
		}
		return out
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return rv.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(rv.Uint())
	case reflect.Slice:
		out := make([]interface{}, rv.Len())
		for i := range out {
			out[i] = normParam(rv.Index(i).Interface())
		}
		return out
	}
	return v
}

// genParam makes a parameter value, using the Go types a caller may pass.
func genParam(r *rand.Rand, class string, budget *int) interface{} {
	if class == ClMix && r.IntN(3) == 0 {
		switch r.IntN(14) {
		case 0:
			return int(genInt(r))
		case 1:
			return int8(genInt(r))
		case 2:
			return int16(genInt(r))
		case 3:
			return int32(genInt(r))
		case 4:
			return uint(genInt(r) & math.MaxInt64)
		case 5:
			return uint8(genInt(r))
		case 6:
			return uint16(genInt(r))
		case 7:
			return uint32(genInt(r))
		case 8:
			return uint64(genInt(r) & math.MaxInt64)
		case 9:
			return float32(r.NormFloat64())
		case 10:
			l := make([]string, r.IntN(20))
			for i := range l {
				l[i] = genStr(r, r.IntN(20))
			}
			return l
		case 11:
			l := make([]int, r.IntN(20))
			for i := range l {
				l[i] = int(genInt(r))
			}
			return l
		case 12:
			return []float64{r.NormFloat64(), 1}
		default:
			return [][]int{{1, 2}, {}, {int(genInt(r))}}
		}
	}
	return genVal(r, class, 0, budget)
}

// badParam makes a value the encoder has to refuse.
func badParam(r *rand.Rand) interface{} {
	var bad interface{}
	switch r.IntN(6) {
	case 0:
		bad = struct{ A int }{1}
	case 1:
		bad = map[int]string{1: "x"}
	case 2:
		bad = make(chan int)
	case 3:
		bad = uint64(math.MaxInt64) + 1 + uint64(r.IntN(1000))
	case 4:
		x := 3
		bad = &x
	case 5:
		bad = complex(1, 2)
	}
	// often nested behind a lot of encodable data
	switch r.IntN(4) {
	case 0:
		return []interface{}{int64(1), "two", bad}
	case 1:
		return map[string]interface{}{"z": genStr(r, r.IntN(300)), "zz": []interface{}{bad}}
	case 2:
		return []interface{}{genStr(r, 60000+r.IntN(10000)), genStr(r, r.IntN(70000)), bad}
	}
	return bad
}

// eqVal compares values; nil and empty lists/maps/labels are equal, NaN equals NaN.
func eqVal(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case float64:
		y, ok := b.(float64)
		return ok && (math.Float64bits(x) == math.Float64bits(y) || (x != x && y != y))
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !eqVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !eqVal(v, w) {
				return false
			}
		}
		return true
	case graph.Node:
		y, ok := b.(graph.Node)
		return ok && x.NodeIdentity == y.NodeIdentity && eqStrs(x.Labels, y.Labels) && eqMap(x.Properties, y.Properties)
	case graph.Relationship:
		y, ok := b.(graph.Relationship)
		return ok && x.RelIdentity == y.RelIdentity && x.StartNodeIdentity == y.StartNodeIdentity && x.EndNodeIdentity == y.EndNodeIdentity && x.Type == y.Type && eqMap(x.Properties, y.Properties)
	case graph.UnboundRelationship:
		y, ok := b.(graph.UnboundRelationship)
		return ok && x.RelIdentity == y.RelIdentity && x.Type == y.Type && eqMap(x.Properties, y.Properties)
	case graph.Path:
		y, ok := b.(graph.Path)
		if !ok || len(x.Nodes) != len(y.Nodes) || len(x.Relationships) != len(y.Relationships) || len(x.Sequence) != len(y.Sequence) {
			return false
		}
		for i := range x.Nodes {
			if !eqVal(x.Nodes[i], y.Nodes[i]) {
				return false
			}
		}
		for i := range x.Relationships {
			if !eqVal(x.Relationships[i], y.Relationships[i]) {
				return false
			}
		}
		for i := range x.Sequence {
			if x.Sequence[i] != y.Sequence[i] {
				return false
			}
		}
		return true
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	}
	return reflect.DeepEqual(a, b)
}

func eqMap(a, b map[string]interface{}) bool {
	if len(a) == 0 && len(b) == 0 {
		return true
	}
	return eqVal(a, b)
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// wellFormed reports whether v is made only of documented value types.
func wellFormed(v interface{}, depth int) bool {
	if depth > 1<<20 {
		return false
	}
	switch x := v.(type) {
	case nil, bool, int64, float64, string, graph.Node, graph.Relationship, graph.UnboundRelationship, graph.Path:
		return true
	case []interface{}:
		for _, e := range x {
			if !wellFormed(e, depth+1) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		for _, e := range x {
			if !wellFormed(e, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// short renders a value for logs.
func short(v interface{}) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 160 {
		s = fmt.Sprintf("%s…(%d bytes)", s[:160], len(s))
	}
	return s
}
