// Package checks holds one check per property.
package checks

import (
	"database/sql/driver"
	stderrors "errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/mindstand/go-bolt/connection"
	berrors "github.com/mindstand/go-bolt/errors"
	"github.com/mindstand/go-bolt/structures/graph"
	"github.com/mindstand/go-bolt/structures/messages"

	"verif/core"
	"verif/fake"
	"verif/pack"
)

type (
	obj = map[string]interface{}
	arr = []interface{}
)

// url builds a plain connection string for a server.
func connURL(s *fake.Server, query string) string {
	if query == "" {
		query = "timeout=5"
	}
	return fmt.Sprintf("bolt://neo4j:secret@%s?%s", s.Addr, query)
}

// dial opens a connection that is expected to work.
func dial(c *core.C, s *fake.Server) connection.IConnection {
	conn, err := connection.CreateBoltConn(connURL(s, ""))
	if err != nil || conn == nil {
		c.Fail("open", "opening a connection to a healthy v%d server failed: %v", s.Version, err)
		c.Abort()
	}
	c.Defer(func() { quietClose(conn) })
	return conn
}

func quietClose(conn connection.IConnection) {
	defer func() { recover() }()
	conn.Close()
}

// innermost follows the library's own wrapping and the standard one.
func innermost(err error) error {
	for i := 0; i < 100 && err != nil; i++ {
		if e, ok := err.(*berrors.Error); ok {
			if e == nil {
				return nil
			}
			in := e.InnerMost()
			if in == nil || in == error(e) {
				return e
			}
			err = in
			continue
		}
		u := stderrors.Unwrap(err)
		if u == nil {
			return err
		}
		err = u
	}
	return err
}

func isBadConn(err error) bool { return innermost(err) == driver.ErrBadConn }

// failureOf returns the server failure at the bottom of an error.
func failureOf(err error) (messages.FailureMessage, bool) {
	in := innermost(err)
	if f, ok := in.(messages.FailureMessage); ok {
		return f, true
	}
	if f, ok := in.(*messages.FailureMessage); ok && f != nil {
		return *f, true
	}
	return messages.FailureMessage{}, false
}

// isNilErr guards against typed nil errors.
func isNilErr(err error) bool {
	if err == nil {
		return true
	}
	v := reflect.ValueOf(err)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

func short(v interface{}) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 500 {
		s = s[:500] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}

func errText(err error) string {
	if err == nil {
		return "<nil>"
	}
	s := err.Error()
	if i := strings.Index(s, "Stack Trace"); i >= 0 {
		s = s[:i]
	}
	if len(s) > 400 {
		s = s[:400]
	}
	return strings.TrimSpace(s)
}

// ---- comparing what the API returned with what was sent ----

// same returns "" or the path of the first difference between two Go values.
func same(got, want interface{}) string {
	if got == nil || want == nil {
		if got == nil && want == nil {
			return ""
		}
		return fmt.Sprintf(": got %s, want %s", short(got), short(want))
	}
	if reflect.TypeOf(got) != reflect.TypeOf(want) {
		return fmt.Sprintf(": got %T %s, want %T %s", got, short(got), want, short(want))
	}
	switch w := want.(type) {
	case float64:
		g := got.(float64)
		if math.Float64bits(g) != math.Float64bits(w) {
			return fmt.Sprintf(": got float %v (%x), want %v (%x)", g, math.Float64bits(g), w, math.Float64bits(w))
		}
	case arr:
		g := got.(arr)
		if len(g) != len(w) {
			return fmt.Sprintf(": got %d elements, want %d", len(g), len(w))
		}
		for i := range w {
			if d := same(g[i], w[i]); d != "" {
				return fmt.Sprintf("[%d]%s", i, d)
			}
		}
	case [][]interface{}:
		g := got.([][]interface{})
		if len(g) != len(w) {
			return fmt.Sprintf(": got %d rows, want %d", len(g), len(w))
		}
		for i := range w {
			if d := same(arr(g[i]), arr(w[i])); d != "" {
				return fmt.Sprintf("row %d%s", i, d)
			}
		}
	case obj:
		g := got.(obj)
		if len(g) != len(w) {
			return fmt.Sprintf(": got %d keys %v, want %d", len(g), trimKeys(g), len(w))
		}
		for k := range w {
			gv, ok := g[k]
			if !ok {
				return fmt.Sprintf(": key %q missing", trunc(k))
			}
			if d := same(gv, w[k]); d != "" {
				return fmt.Sprintf("{%q}%s", trunc(k), d)
			}
		}
	case []string:
		g := got.([]string)
		if len(g) != len(w) {
			return fmt.Sprintf(": got %d strings, want %d", len(g), len(w))
		}
		for i := range w {
			if g[i] != w[i] {
				return fmt.Sprintf("[%d]: got %q, want %q", i, g[i], w[i])
			}
		}
	case graph.Node:
		g := got.(graph.Node)
		if g.NodeIdentity != w.NodeIdentity {
			return fmt.Sprintf(".id: got %d, want %d", g.NodeIdentity, w.NodeIdentity)
		}
		if d := same(nz(g.Labels), nz(w.Labels)); d != "" {
			return ".labels" + d
		}
		if d := same(g.Properties, w.Properties); d != "" {
			return ".properties" + d
		}
	case graph.Relationship:
		g := got.(graph.Relationship)
		if g.RelIdentity != w.RelIdentity || g.StartNodeIdentity != w.StartNodeIdentity || g.EndNodeIdentity != w.EndNodeIdentity || g.Type != w.Type {
			return fmt.Sprintf(": got %s, want %s", short(g), short(w))
		}
		if d := same(g.Properties, w.Properties); d != "" {
			return ".properties" + d
		}
	case graph.UnboundRelationship:
		g := got.(graph.UnboundRelationship)
		if g.RelIdentity != w.RelIdentity || g.Type != w.Type {
			return fmt.Sprintf(": got %s, want %s", short(g), short(w))
		}
		if d := same(g.Properties, w.Properties); d != "" {
			return ".properties" + d
		}
	case graph.Path:
		g := got.(graph.Path)
		if len(g.Nodes) != len(w.Nodes) || len(g.Relationships) != len(w.Relationships) || len(g.Sequence) != len(w.Sequence) {
			return fmt.Sprintf(": got path of %d/%d/%d, want %d/%d/%d", len(g.Nodes), len(g.Relationships), len(g.Sequence), len(w.Nodes), len(w.Relationships), len(w.Sequence))
		}
		for i := range w.Nodes {
			if d := same(g.Nodes[i], w.Nodes[i]); d != "" {
				return fmt.Sprintf(".nodes[%d]%s", i, d)
			}
		}
		for i := range w.Relationships {
			if d := same(g.Relationships[i], w.Relationships[i]); d != "" {
				return fmt.Sprintf(".rels[%d]%s", i, d)
			}
		}
		for i := range w.Sequence {
			if g.Sequence[i] != w.Sequence[i] {
				return fmt.Sprintf(".seq[%d]: got %d, want %d", i, g.Sequence[i], w.Sequence[i])
			}
		}
	default:
		if !reflect.DeepEqual(got, want) {
			if len(fmt.Sprint(got)) > 200 {
				return fmt.Sprintf(": %T values of length %d and %d differ", got, len(fmt.Sprint(got)), len(fmt.Sprint(want)))
			}
			return fmt.Sprintf(": got %s, want %s", short(got), short(want))
		}
	}
	return ""
}

func nz(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func trimKeys(m obj) []string {
	var r []string
	for k := range m {
		r = append(r, trunc(k))
	}
	sort.Strings(r)
	if len(r) > 20 {
		r = r[:20]
	}
	return r
}

func trunc(s string) string {
	if len(s) > 60 {
		return s[:60] + fmt.Sprintf("..(%d)", len(s))
	}
	return s
}

// clone makes a deep copy of a value returned by the API.
func clone(v interface{}) interface{} {
	switch x := v.(type) {
	case arr:
		if x == nil {
			return x
		}
		r := make(arr, len(x))
		for i := range x {
			r[i] = clone(x[i])
		}
		return r
	case [][]interface{}:
		r := make([][]interface{}, len(x))
		for i := range x {
			r[i], _ = clone(arr(x[i])).(arr)
		}
		return r
	case obj:
		if x == nil {
			return x
		}
		r := make(obj, len(x))
		for k, w := range x {
			r[strings.Clone(k)] = clone(w)
		}
		return r
	case string:
		return strings.Clone(x)
	case []string:
		r := make([]string, len(x))
		for i := range x {
			r[i] = strings.Clone(x[i])
		}
		return r
	case graph.Node:
		return graph.Node{NodeIdentity: x.NodeIdentity, Labels: clone(x.Labels).([]string), Properties: clone(x.Properties).(obj)}
	case graph.Relationship:
		x.Type = strings.Clone(x.Type)
		x.Properties = clone(x.Properties).(obj)
		return x
	case graph.UnboundRelationship:
		x.Type = strings.Clone(x.Type)
		x.Properties = clone(x.Properties).(obj)
		return x
	case graph.Path:
		p := graph.Path{Sequence: append([]int{}, x.Sequence...)}
		for _, n := range x.Nodes {
			p.Nodes = append(p.Nodes, clone(n).(graph.Node))
		}
		for _, n := range x.Relationships {
			p.Relationships = append(p.Relationships, clone(n).(graph.UnboundRelationship))
		}
		return p
	}
	return v
}

// lift turns a server value into the Go value the API must return for it (no temporal or spatial values).
func lift(v interface{}) interface{} {
	switch x := v.(type) {
	case int:
		return int64(x)
	case []string:
		r := make(arr, len(x))
		for i := range x {
			r[i] = x[i]
		}
		return r
	case arr:
		r := make(arr, len(x))
		for i := range x {
			r[i] = lift(x[i])
		}
		return r
	case obj:
		r := make(obj, len(x))
		for k, w := range x {
			r[k] = lift(w)
		}
		return r
	case pack.Struct:
		f := x.Fields
		strs := func(v interface{}) []string {
			r := []string{}
			for _, s := range v.(arr) {
				r = append(r, s.(string))
			}
			return r
		}
		switch x.Sig {
		case 'N':
			return graph.Node{NodeIdentity: f[0].(int64), Labels: strs(f[1]), Properties: lift(f[2]).(obj)}
		case 'R':
			return graph.Relationship{RelIdentity: f[0].(int64), StartNodeIdentity: f[1].(int64), EndNodeIdentity: f[2].(int64), Type: f[3].(string), Properties: lift(f[4]).(obj)}
		case 'r':
			return graph.UnboundRelationship{RelIdentity: f[0].(int64), Type: f[1].(string), Properties: lift(f[2]).(obj)}
		case 'P':
			p := graph.Path{Nodes: []graph.Node{}, Relationships: []graph.UnboundRelationship{}, Sequence: []int{}}
			for _, n := range f[0].(arr) {
				p.Nodes = append(p.Nodes, lift(n).(graph.Node))
			}
			for _, n := range f[1].(arr) {
				p.Relationships = append(p.Relationships, lift(n).(graph.UnboundRelationship))
			}
			for _, n := range f[2].(arr) {
				p.Sequence = append(p.Sequence, int(n.(int64)))
			}
			return p
		}
		panic("lift: struct")
	}
	return v
}

func liftRows(rows [][]interface{}) [][]interface{} {
	r := make([][]interface{}, len(rows))
	for i := range rows {
		r[i] = lift(arr(rows[i])).(arr)
	}
	return r
}

func liftMap(m obj) obj {
	if m == nil {
		return obj{}
	}
	return lift(m).(obj)
}

// ---- random values ----

var edgeInts = func() []int64 {
	r := []int64{0, 1, -1, -15, -16, -17, -18}
	for _, k := range []uint{7, 8, 15, 16, 24, 31, 32, 48, 52, 53, 62} {
		p := int64(1) << k
		for d := int64(-2); d <= 2; d++ {
			r = append(r, p+d, -p+d)
		}
	}
	return append(r, math.MaxInt64, math.MaxInt64-1, math.MinInt64, math.MinInt64+1)
}()

var edgeFloats = []float64{0, math.Copysign(0, -1), 1, -1, 1.5, math.Pi, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), math.Float64frombits(0x7ff8000000000abc), 1e-310, 3.0, 127, 128, 1 << 53, float64(math.MaxInt64)}

var edgeLens = []int{0, 1, 14, 15, 16, 17, 126, 127, 128, 129, 254, 255, 256, 257}
var bigLens = []int{32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70001, 131072}

func randInt(r *rand.Rand) int64 {
	switch r.Intn(4) {
	case 0:
		return edgeInts[r.Intn(len(edgeInts))]
	case 1:
		return int64(r.Intn(300) - 150)
	case 2:
		return int64(r.Uint64()) >> uint(r.Intn(63))
	}
	return int64(r.Uint64())
}

func randFloat(r *rand.Rand) float64 {
	switch r.Intn(5) {
	case 0:
		return edgeFloats[r.Intn(len(edgeFloats))]
	case 1:
		return r.NormFloat64() * 1000
	case 2: // whole numbers
		return float64(randInt(r))
	case 3: // decimal fractions
		return math.Round(r.NormFloat64()*1e6) / math.Pow10(r.Intn(9))
	}
	return math.Float64frombits(r.Uint64())
}

var pieces = []string{"a", "Z", "9", " ", "\n", "\x00", "é", "ß", "日本", "🎉", "'", "\"", "\\", "$p", "%s", "%!d", "`", "{}", "\u202e", "\ufeff", "//", "MATCH (n)", "\t", "\r\n", ";", "; ", "/* c */", "--", "EXPLAIN ", "profile ", "USE db ", ":param x => 1", "RETURN 1", "CALL {", "CREATE (n)", "null", "true", "$", "|", "  "}

func randStr(r *rand.Rand) string {
	switch r.Intn(10) {
	case 0:
		n := edgeLens[r.Intn(len(edgeLens))]
		return strOf(r, n)
	case 1:
		b := make([]byte, r.Intn(40))
		r.Read(b)
		return string(b)
	case 2:
		return ""
	}
	var sb strings.Builder
	for i := r.Intn(8); i >= 0; i-- {
		sb.WriteString(pieces[r.Intn(len(pieces))])
	}
	return sb.String()
}

// strOf is a string of exactly n bytes.
func strOf(r *rand.Rand, n int) string {
	const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	b := make([]byte, n)
	for i := range b {
		b[i] = al[r.Intn(len(al))]
	}
	return string(b)
}

func edgeLen(r *rand.Rand, big bool) int {
	if big && r.Intn(3) == 0 {
		return bigLens[r.Intn(len(bigLens))]
	}
	return edgeLens[r.Intn(len(edgeLens))]
}

func randSize(r *rand.Rand, budget *int) int {
	n := 0
	switch r.Intn(12) {
	case 0:
		n = edgeLens[r.Intn(len(edgeLens))]
	default:
		n = r.Intn(5)
	}
	if n > *budget {
		n = *budget
		if n < 0 {
			n = 0
		}
	}
	return n
}

// randVal is a random server value without temporal or spatial parts.
func randVal(r *rand.Rand, depth int, budget *int) interface{} {
	*budget--
	k := r.Intn(14)
	if depth <= 0 && k >= 7 {
		k = r.Intn(7)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2, 3:
		return randInt(r)
	case 4:
		return randFloat(r)
	case 5, 6:
		return randStr(r)
	case 7, 8:
		n := randSize(r, budget)
		l := make(arr, n)
		for i := range l {
			l[i] = randVal(r, depth-1, budget)
		}
		return l
	case 9, 10:
		return randMap(r, depth-1, budget)
	case 11:
		return randNode(r, depth-1, budget)
	case 12:
		return pack.Struct{Sig: 'R', Fields: arr{randInt(r), randInt(r), randInt(r), randStr(r), randMap(r, depth-1, budget)}}
	default:
		return randPath(r, depth-1, budget)
	}
}

func randMap(r *rand.Rand, depth int, budget *int) obj {
	n := randSize(r, budget)
	m := make(obj, n)
	for i := 0; i < n; i++ {
		k := randStr(r)
		if i > 3 {
			k = fmt.Sprintf("k%d", i)
		}
		m[k] = randVal(r, depth, budget)
	}
	return m
}

func randNode(r *rand.Rand, depth int, budget *int) pack.Struct {
	lab := arr{}
	for i := r.Intn(3); i > 0; i-- {
		lab = append(lab, randStr(r))
	}
	return pack.Struct{Sig: 'N', Fields: arr{randInt(r), lab, randMap(r, depth, budget)}}
}

func randPath(r *rand.Rand, depth int, budget *int) pack.Struct {
	nodes, rels, seq := arr{}, arr{}, arr{}
	n := r.Intn(4)
	nodes = append(nodes, randNode(r, depth, budget))
	for i := 0; i < n; i++ {
		nodes = append(nodes, randNode(r, depth, budget))
		rels = append(rels, pack.Struct{Sig: 'r', Fields: arr{randInt(r), randStr(r), randMap(r, depth, budget)}})
		s := int64(i + 1)
		if r.Intn(2) == 0 {
			s = -s
		}
		seq = append(seq, s, int64(i+1))
	}
	return pack.Struct{Sig: 'P', Fields: arr{nodes, rels, seq}}
}

// shapeOf classifies a value for the evidence.
func shapeOf(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "n"
	case bool:
		return "b"
	case int64:
		return fmt.Sprintf("i%d", bitlen(x))
	case float64:
		return "f"
	case string:
		return "s" + lenClass(len(x))
	case arr:
		s := "[" + lenClass(len(x))
		for i := 0; i < len(x) && i < 4; i++ {
			s += shapeOf(x[i])
		}
		return s + "]"
	case obj:
		ks := make([]string, 0, len(x))
		for _, w := range x {
			ks = append(ks, shapeOf(w))
		}
		sort.Strings(ks)
		if len(ks) > 4 {
			ks = ks[:4]
		}
		return "{" + lenClass(len(x)) + strings.Join(ks, "") + "}"
	case pack.Struct:
		s := "<" + string(rune(x.Sig))
		return s + ">"
	}
	return "?"
}

func bitlen(x int64) int {
	switch {
	case x >= -16 && x <= 127:
		return 0
	case x >= -128 && x <= 127:
		return 8
	case x >= -32768 && x <= 32767:
		return 16
	case x >= math.MinInt32 && x <= math.MaxInt32:
		return 32
	}
	return 64
}

func lenClass(n int) string {
	switch {
	case n <= 15:
		return "t"
	case n <= 127:
		return "7"
	case n <= 255:
		return "8"
	case n <= 32767:
		return "15"
	case n <= 65535:
		return "16"
	}
	return "32"
}

// randChunk returns a random legal chunking policy.
func randChunk(r *rand.Rand) func(n int) []int {
	mode := r.Intn(5)
	rr := rand.New(rand.NewSource(r.Int63()))
	return func(n int) []int {
		var s []int
		for n > 0 {
			k := n
			switch mode {
			case 0:
				k = 1
				if n > 3000 {
					k = 1 + rr.Intn(200)
				}
			case 1:
				k = 1 + rr.Intn(7)
				if n > 3000 {
					k = 1 + rr.Intn(700)
				}
			case 2:
				k = 1 + rr.Intn(n)
			case 3:
				k = []int{127, 128, 255, 256, 32767, 32768, 65535}[rr.Intn(7)]
			}
			if k > 65535 {
				k = 65535
			}
			if k > n {
				k = n
			}
			s = append(s, k)
			n -= k
		}
		return s
	}
}

// randSeg returns a random TCP segmentation.
func randSeg(r *rand.Rand) func() int {
	mode := r.Intn(4)
	rr := rand.New(rand.NewSource(r.Int63()))
	n := 0
	return func() int {
		n++
		if n > 60 {
			return 0
		}
		switch mode {
		case 0:
			return 1
		case 1:
			return 1 + rr.Intn(5)
		case 2:
			return 1 + rr.Intn(3000)
		}
		return 0
	}
}

const slow = 10 * time.Second
