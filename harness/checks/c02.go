package checks

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mindstand/go-bolt/connection"
	"github.com/mindstand/go-bolt/structures/graph"

	"verif/core"
	"verif/fake"
	"verif/pack"
)

func init() {
	core.Register(&core.Check{ID: "C02", MinEvals: 40,
		Rule: "A case is one connection (versions 1-4; random legal PackStream widths, chunkings and TCP segmentations) whose server streams random or boundary-sized rows and summaries; rows and metadata returned by every query method are compared bit for bit with what was sent, when returned and again after later traffic, also when the caller has changed what earlier queries returned. Distinct and non-trivial: distinct (version, row shape) pairs with at least one value.",
		Run:  runC02})
}

// script lets a case set the next results of a server, by statement order.
type script struct {
	mu  sync.Mutex
	res []*fake.Result
	def func(c *fake.Conn, m *fake.Msg) *fake.Result
}

func (s *script) push(r *fake.Result) { s.mu.Lock(); s.res = append(s.res, r); s.mu.Unlock() }
func (s *script) run(c *fake.Conn, m *fake.Msg) *fake.Result {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.res) == 0 {
		if s.def != nil {
			return s.def(c, m)
		}
		return nil
	}
	r := s.res[0]
	s.res = s.res[1:]
	return r
}

func runC02(t *core.T) {
	var jobs []core.Job
	add := func(name string, fn func(c *core.C)) { jobs = append(jobs, core.Job{Name: name, Fn: fn}) }
	for v := 1; v <= 4; v++ {
		v := v
		for i := 0; i < t.Pick(14, 200); i++ {
			i := i
			add(fmt.Sprintf("random/v%d/%d", v, i), func(c *core.C) { c02Random(c, v, i) })
		}
		for i := 0; i < t.Pick(2, 10); i++ {
			add(fmt.Sprintf("undecodable/v%d/%d", v, i), func(c *core.C) { c02Undecodable(c, v) })
		}
		add(fmt.Sprintf("endurance/v%d", v), func(c *core.C) { c02Endurance(c, v) })
		for _, kind := range []string{"huge", "string", "key", "list", "map", "row", "rows", "ints", "floats", "nested", "labels", "props", "path", "fields", "graphs"} {
			kind := kind
			add(fmt.Sprintf("sizes/v%d/%s", v, kind), func(c *core.C) { c02Sizes(c, v, kind) })
		}
	}
	t.Parallel(8, jobs)
}

func randSummary(r *rand.Rand) obj {
	b := 40
	m := randMap(r, 2, &b)
	delete(m, "code")
	if r.Intn(2) == 0 {
		m["type"] = []string{"r", "w", "rw", "s"}[r.Intn(4)]
	}
	if r.Intn(2) == 0 {
		m["t_last"] = int64(r.Intn(1000))
		m["bookmark"] = fmt.Sprintf("neo4j:bookmark:v1:tx%d", r.Intn(1000000))
	}
	if r.Intn(2) == 0 {
		m["stats"] = obj{"nodes-created": randInt(r), "properties-set": int64(3)}
	}
	return m
}

type got struct {
	rows  [][]interface{}
	meta  obj
	rows2 interface{} // snapshots
	meta2 interface{}
	what  string
}

// expectResult runs a query whose answer is res and compares everything.
func expectResult(c *core.C, q connection.IQuery, text string, res *fake.Result, what string) *got {
	var rows [][]interface{}
	var r connection.IResult
	var err error
	api := c.R.Intn(5)
	switch api {
	case 0, 1:
		rows, r, err = q.Query(text, connection.QueryParams{"q": 1})
	case 2, 3:
		rows, r, err = q.QueryWithDb(text, nil, "")
	default:
		r, err = q.Exec(text, nil)
	}
	c.Event("results", 1)
	c.Event("rows", int64(len(res.Rows)))
	if err != nil {
		c.Fail("error", "%s: a well-formed response gave an error: %s", what, errText(err))
		c.Abort()
	}
	if r == nil {
		c.Fail("nil result", "%s: no result object", what)
		c.Abort()
	}
	if api != 4 {
		if d := same(rows, liftRows(res.Rows)); d != "" {
			c.Fail("rows", "%s: rows differ at %s", what, d)
			c.Abort()
		}
	}
	want := liftMap(res.Summary)
	if d := same(r.Metadata(), want); d != "" {
		c.Fail("metadata", "%s: summary metadata differs at %s", what, d)
		c.Abort()
	}
	return &got{rows, r.Metadata(), clone(rows), clone(r.Metadata()), what}
}

func (g *got) unchanged(c *core.C) {
	if d := same(g.rows, g.rows2); d != "" {
		c.Fail("altered", "%s: rows returned earlier were altered at %s", g.what, d)
	}
	if d := same(g.meta, g.meta2); d != "" {
		c.Fail("altered", "%s: metadata returned earlier was altered at %s", g.what, d)
	}
}

// scribble changes a returned value wherever a caller can.
func scribble(v interface{}) {
	switch x := v.(type) {
	case [][]interface{}:
		for i := range x {
			scribble(arr(x[i]))
		}
	case arr:
		for i := range x {
			scribble(x[i])
			x[i] = "scribble"
		}
		_ = append(x, "scribble")
	case obj:
		for k := range x {
			scribble(x[k])
			x[k] = "scribble"
		}
		if x != nil {
			x["scribbled"] = int64(1)
		}
	case []string:
		for i := range x {
			x[i] = "scribble"
		}
		_ = append(x, "scribble")
	case graph.Node:
		scribble(x.Labels)
		scribble(x.Properties)
	case graph.Relationship:
		scribble(x.Properties)
	case graph.UnboundRelationship:
		scribble(x.Properties)
	case graph.Path:
		for i := range x.Nodes {
			scribble(x.Nodes[i])
			x.Nodes[i] = graph.Node{}
		}
		for i := range x.Relationships {
			scribble(x.Relationships[i])
			x.Relationships[i] = graph.UnboundRelationship{}
		}
		for i := range x.Sequence {
			x.Sequence[i] = 77
		}
	}
}

func wire(c *core.C, seg bool) func(fc *fake.Conn) {
	seed := c.R.Int63()
	chunk := randChunk(c.R)
	sg := randSeg(c.R)
	width := c.R.Intn(3) != 0
	return func(fc *fake.Conn) {
		fc.Wire.Rng = rand.New(rand.NewSource(seed))
		fc.Wire.Width = width
		fc.Wire.Chunk = chunk
		if seg {
			fc.Wire.Seg = sg
			fc.Wire.Pause = 100 * time.Microsecond
		}
	}
}

func c02Random(c *core.C, v, i int) {
	sc := &script{}
	s := &fake.Server{Version: v, Run: sc.run}
	s.OnConn = wire(c, i%4 == 1)
	c.Serve(s)
	conn := dial(c, s)
	var all []*got
	n := c.T.Pick(25, 60)
	if i%4 == 1 {
		n = 8
	}
	for k := 0; k < n; k++ {
		res := &fake.Result{Fields: []string{"a"}, Summary: randSummary(c.R), RunMeta: obj{"t_first": int64(1)}}
		nrow := c.R.Intn(6)
		if c.R.Intn(15) == 0 {
			nrow = 300
		}
		b := 150
		if c.R.Intn(10) == 0 {
			b = 4000
		}
		width := c.R.Intn(5)
		for j := 0; j < nrow; j++ {
			row := make(arr, width)
			for x := range row {
				row[x] = randVal(c.R, 1+c.R.Intn(5), &b)
			}
			res.Rows = append(res.Rows, row)
		}
		sc.push(res)
		var q connection.IQuery = conn
		var tx connection.ITransaction
		if k%9 == 4 && v >= 3 {
			var err error
			if tx, err = conn.Begin(); err != nil {
				c.Fail("begin", "begin failed: %s", errText(err))
				return
			}
			q = tx
		}
		g := expectResult(c, q, fmt.Sprintf("MATCH %d", k), res, fmt.Sprintf("query %d", k))
		if tx != nil {
			if err := tx.Commit(); err != nil {
				c.Fail("commit", "commit failed: %s", errText(err))
				return
			}
		}
		all = append(all, g)
		if len(res.Rows) > 0 && width > 0 {
			c.Distinct("v%d %s", v, shapeOf(arr(res.Rows[0])))
		}
		if k == 0 && i < 2 {
			c.Sample("v%d %s", v, short(res.Rows))
		}
		if k%5 == 0 {
			for _, g := range all {
				g.unchanged(c)
			}
		}
		if i%2 == 1 && k%2 == 1 { // what was returned is the caller's to change
			scribble(g.rows)
			scribble(g.meta)
			g.rows2, g.meta2 = clone(g.rows), clone(g.meta)
			c.Event("results changed by the caller", 1)
		}
	}
	conn.Close()
	for _, g := range all {
		g.unchanged(c)
	}
}

// c02Endurance uses one connection for a long time.
func c02Endurance(c *core.C, v int) {
	n := int64(0)
	s := c.Serve(&fake.Server{Version: v, NoLog: true, Run: func(fc *fake.Conn, m *fake.Msg) *fake.Result {
		k := atomic.AddInt64(&n, 1)
		return &fake.Result{Fields: []string{"k"}, Rows: [][]interface{}{{k, m.Query}}, Summary: obj{"k": k}}
	}})
	conn := dial(c, s)
	for i := 0; i < c.T.Pick(4500, 140000); i++ {
		var q connection.IQuery = conn
		var tx connection.ITransaction
		var err error
		if v >= 3 && i%3 == 2 {
			if tx, err = conn.Begin(); err != nil {
				c.Fail("error", "v%d: Begin after %d queries on a healthy connection failed: %s", v, i, errText(err))
				return
			}
			q = tx
		}
		text := fmt.Sprintf("MATCH %d", i)
		rows, r, err := q.Query(text, nil)
		if err != nil {
			c.Fail("error", "v%d: query %d on a healthy connection failed: %s", v, i, errText(err))
			return
		}
		k := int64(i + 1)
		if d := same(rows, [][]interface{}{{k, text}}); d != "" {
			c.Fail("rows", "v%d: rows of query %d differ at %s", v, i, d)
			return
		}
		if d := same(r.Metadata(), obj{"k": k}); d != "" {
			c.Fail("metadata", "v%d: summary of query %d differs at %s", v, i, d)
			return
		}
		if tx != nil {
			if err := tx.Commit(); err != nil {
				c.Fail("error", "v%d: Commit after %d queries on a healthy connection failed: %s", v, i, errText(err))
				return
			}
		}
	}
	c.Distinct("v%d endurance", v)
	c.Event("queries of one connection", n)
}

// undecodable values: no driver value can stand for them, so the result that holds one must not be
// delivered as a success.
func undecodable(k int) interface{} {
	bad := []interface{}{
		pack.Struct{Sig: 'N', Fields: arr{"x", arr{}, obj{}}},
		pack.Struct{Sig: 0x55, Fields: arr{int64(1)}},
		pack.Struct{Sig: 'R', Fields: arr{int64(1)}},
		pack.Struct{Sig: 'P', Fields: arr{arr{int64(1)}, arr{}, arr{}}},
		pack.Raw{0xc7}, pack.Raw{0xd4, 0xff}, pack.Raw{0xa1, 0x01, 0x01},
	}
	return bad[k%len(bad)]
}

// c02Undecodable streams values that can not be decoded amid others that can.
func c02Undecodable(c *core.C, v int) {
	sc := &script{}
	s := &fake.Server{Version: v, Run: sc.run}
	s.OnConn = wire(c, false)
	c.Serve(s)
	for k := 0; k < 28; k++ {
		bad := undecodable(k)
		n := c.R.Intn(6)
		res := &fake.Result{Fields: []string{"x"}, Summary: obj{"k": "v"}}
		for i := 0; i < n; i++ {
			res.Rows = append(res.Rows, arr{int64(i), strOf(c.R, c.R.Intn(40))})
		}
		at := c.R.Intn(n + 2)
		what := fmt.Sprintf("undecodable value %d in row %d of %d", k%7, at, n)
		row := arr{"before", bad, "after"}
		switch c.R.Intn(3) {
		case 0:
			row = arr{bad}
		case 1:
			row = arr{int64(1), arr{"in", bad}, obj{"k": int64(1)}}
		}
		if at > n {
			what = fmt.Sprintf("undecodable value %d in the summary after %d rows", k%7, n)
			res.Summary["odd"] = bad
		} else {
			res.Rows = append(res.Rows[:at], append([][]interface{}{row}, res.Rows[at:]...)...)
		}
		sc.push(res)
		conn := dial(c, s)
		var rows [][]interface{}
		var err error
		exec := c.R.Intn(4) == 0
		if exec {
			_, err = conn.Exec("RETURN x", nil)
		} else {
			rows, _, err = conn.Query("RETURN x", nil)
		}
		c.Event("undecodable results", 1)
		c.Distinct("v%d undecodable %d at %d of %d exec=%v", v, k%7, at, n, exec)
		if err == nil {
			c.Fail("undecodable", "v%d: %s: the query reported success and delivered %d rows %s", v, what, len(rows), short(rows))
			c.Abort()
		}
		conn.Close()
	}
}

func c02Sizes(c *core.C, v int, kind string) {
	sc := &script{}
	s := &fake.Server{Version: v, Run: sc.run}
	if kind != "huge" {
		s.OnConn = wire(c, false)
	}
	c.Serve(s)
	conn := dial(c, s)
	var keep []*got
	one := func(what string, vals ...interface{}) {
		res := &fake.Result{Fields: []string{"x"}, Rows: [][]interface{}{append(append(arr{"before"}, vals...), "after"), {int64(7)}}, Summary: obj{"k": "v"}}
		sc.push(res)
		g := expectResult(c, conn, "RETURN x", res, what)
		if len(keep) < 20 {
			keep = append(keep, g)
		}
		c.Distinct("v%d %s", v, what)
	}
	lens := append(append([]int{}, edgeLens...), bigLens...)
	switch kind {
	case "huge": // messages of megabytes
		for _, n := range []int{1 << 20, 5 << 20, 1<<24 + 7, c.T.Pick(1<<25, 1<<27)} {
			one(fmt.Sprintf("a string of %d bytes", n), strings.Repeat("0123456789abcdef", n/16)+"end")
		}
		l := make(arr, c.T.Pick(2500000, 10000000))
		for i := range l {
			l[i] = int64(i)
		}
		one(fmt.Sprintf("a list of %d numbers", len(l)), l)
	case "ints":
		for _, x := range edgeInts {
			for k := 0; k < 4; k++ {
				one(fmt.Sprintf("int %d", x), x, arr{x}, obj{"k": x})
			}
		}
	case "floats":
		for i, x := range edgeFloats {
			one(fmt.Sprintf("float %d", i), x, arr{x, nil, true, false})
		}
	case "nested":
		for _, d := range []int{1, 2, 100, 500, 1000} {
			for k := 0; k < 2; k++ {
				var w interface{} = "leaf"
				for i := 0; i < d; i++ {
					if i%2 == k {
						w = arr{w}
					} else {
						w = obj{"n": w}
					}
				}
				one(fmt.Sprintf("depth %d/%d", d, k), w)
			}
		}
	case "rows":
		for _, n := range []int{0, 1, 2, 15, 16, 255, 256, 1000, 5000, 66000, 140000, c.T.Pick(1, 1200000)} {
			res := &fake.Result{Fields: []string{"i"}, Summary: obj{"n": int64(n)}}
			for i := 0; i < n; i++ {
				res.Rows = append(res.Rows, arr{int64(i), fmt.Sprint(i)})
			}
			sc.push(res)
			expectResult(c, conn, "MATCH rows", res, fmt.Sprintf("%d rows", n))
			c.Distinct("v%d rows %d", v, n)
		}
	case "graphs":
		for i := 0; i < c.T.Pick(60, 600); i++ {
			b := 200
			one(fmt.Sprintf("graph %d", i), randNode(c.R, 3, &b), randPath(c.R, 3, &b), arr{pack.Struct{Sig: 'R', Fields: arr{randInt(c.R), randInt(c.R), randInt(c.R), randStr(c.R), randMap(c.R, 2, &b)}}}, obj{"r": pack.Struct{Sig: 'r', Fields: arr{randInt(c.R), randStr(c.R), randMap(c.R, 2, &b)}}})
		}
	default:
		for _, n := range lens {
			if n > 66000 && kind != "string" && !c.T.Thorough {
				continue
			}
			what := fmt.Sprintf("%s of size %d", kind, n)
			ints := make(arr, 0)
			strs := make(arr, 0)
			m := obj{}
			if kind != "string" && kind != "key" {
				for i := 0; i < n; i++ {
					ints = append(ints, int64(i%120))
					strs = append(strs, "l")
				}
			}
			if kind == "map" || kind == "props" {
				for i := 0; i < n; i++ {
					m[fmt.Sprint("k", i)] = int64(i)
				}
			}
			switch kind {
			case "string":
				one(what, strOf(c.R, n))
			case "key":
				one(what, obj{strOf(c.R, n): int64(1), "z": "y"})
			case "list":
				one(what, ints)
			case "map":
				one(what, m)
			case "row":
				one(what, ints...)
			case "labels":
				one(what, pack.Struct{Sig: 'N', Fields: arr{int64(1), strs, obj{}}})
			case "props":
				one(what, pack.Struct{Sig: 'N', Fields: arr{int64(1), arr{"L"}, m}}, pack.Struct{Sig: 'R', Fields: arr{int64(1), int64(2), int64(3), "T", m}})
			case "path":
				if n > 300 {
					continue
				}
				nodes, rels, seq := arr{pack.Struct{Sig: 'N', Fields: arr{int64(0), arr{}, obj{}}}}, arr{}, arr{}
				for i := 0; i < n; i++ {
					nodes = append(nodes, pack.Struct{Sig: 'N', Fields: arr{int64(i), arr{}, obj{}}})
					rels = append(rels, pack.Struct{Sig: 'r', Fields: arr{int64(i), "T", obj{}}})
					seq = append(seq, int64(i+1), int64(i+1))
				}
				one(what, pack.Struct{Sig: 'P', Fields: arr{nodes, rels, seq}})
			case "fields":
				fs := make([]string, n)
				for i := range fs {
					fs[i] = "f"
				}
				res := &fake.Result{Fields: fs, Rows: [][]interface{}{{"x"}}, Summary: obj{"list": ints}}
				sc.push(res)
				keep = append(keep, expectResult(c, conn, "RETURN", res, what))
				c.Distinct("v%d %s", v, what)
			}
		}
	}
	for _, g := range keep {
		g.unchanged(c)
	}
}
