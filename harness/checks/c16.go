package checks

import (
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mindstand/go-bolt/connection"

	"verif/core"
	"verif/fake"
)

func init() {
	core.Register(&core.Check{ID: "C16", MinEvals: 20, CaseMax: 240 * time.Second,
		Rule: "Several goroutines use one connection at once - queries, execs, failing statements, transactions with statements and an ending, liveness checks, timeout and chunk-size changes, giving back (rollback), close - under the race detector, with the server pausing, failing, cutting or losing the connection. Every statement carries its own token: a call that succeeds must return its own token, a failing one its own failure; no message may be illegal in the server's state or badly framed; statements of a transaction handle run in that transaction of the server and only there, and the ending reported is the one that happened; without faults the connection stays usable and every plain query succeeds; after close nothing succeeds and the socket is released; nothing hangs or panics. Distinct and non-trivial: distinct orders of goroutines in which the server received the statements.",
		Run: func(t *core.T) {
			var jobs []core.Job
			for v := 1; v <= 4; v++ {
				for _, kind := range []string{"query", "mixed", "tx", "close", "fail", "cut", "lost", "idle"} {
					for i := 0; i < t.Pick(40, 400); i++ {
						v, kind := v, kind
						jobs = append(jobs, core.Job{Name: fmt.Sprintf("%s/v%d/%d", kind, v, i), Fn: func(c *core.C) { c16Storm(c, v, kind) }})
					}
				}
			}
			t.Parallel(8, jobs)
		}})
}

type c16run struct {
	c     *core.C
	v     int
	kind  string
	conn  connection.IConnection
	s     *fake.Server
	fault bool // the connection may be lost
	// whether Close was called, and returned
	closing, closed int32
	toks            int64
	mu              sync.Mutex
	txs             []*c16tx
	nClosed         int
}

// c16tx is what one transaction handle did.
type c16tx struct {
	db   string
	toks []string // of successful statements
	all  []string // of all statements
	end  string   // "commit", "rollback" when reported
	shut bool     // its goroutine was done with it
}

func (h *c16run) label() string { return fmt.Sprintf("v%d %s", h.v, h.kind) }

func (h *c16run) tok(g int) string {
	return fmt.Sprintf("g%d-%d", g, atomic.AddInt64(&h.toks, 1))
}

// result checks what a call with a token returned; it tells whether the call succeeded.
func (h *c16run) result(what, q string, rows [][]interface{}, res connection.IResult, err error, wasClosed bool) bool {
	c := h.c
	c.Event("calls", 1)
	if !isNilErr(err) {
		if rows != nil || !isNilResult(res) {
			c.Fail("partial", "%s: %s returned rows or a result with error %s", h.label(), what, errText(err))
		}
		if f, ok := failureOf(err); ok {
			if !strings.Contains(fmt.Sprint(f.Metadata["message"]), q) || q[0] != 'F' && q[0] != 'P' {
				c.Fail("foreign failure", "%s: %s of %q returned the failure %v, which belongs to another call", h.label(), what, q, f.Metadata["message"])
			}
		}
		return false
	}
	if wasClosed {
		c.Fail("after close", "%s: %s succeeded after Close had returned", h.label(), what)
	}
	if q[0] == 'F' || q[0] == 'P' {
		c.Fail("lost failure", "%s: %s of %q succeeded although the server failed it", h.label(), what, q)
		return false
	}
	if rows != nil && (len(rows) != 1 || len(rows[0]) != 2 || rows[0][1] != q) {
		c.Fail("foreign result", "%s: %s of %q returned %s", h.label(), what, q, short(rows))
	}
	if m := res.Metadata(); m["for"] != q {
		c.Fail("foreign summary", "%s: %s of %q returned the summary %s", h.label(), what, q, short(m))
	}
	return true
}

// broken tells whether calls may fail for reasons other than their own.
func (h *c16run) broken() bool { return h.fault || atomic.LoadInt32(&h.closing) != 0 }

func (h *c16run) isClosed() bool { return atomic.LoadInt32(&h.closed) != 0 }

// step is one random action of a goroutine.
func (h *c16run) step(g int, r *rand.Rand) {
	c := h.c
	kinds := map[string]string{
		"query": "qqqqev", "mixed": "qqqevtttsTb", "tx": "ttttqv", "close": "qqetvC", "fail": "qqFFPtv", "cut": "qqetFv", "lost": "qetFvs", "idle": "qetvi",
	}[h.kind]
	pre := ""
	k := kinds[r.Intn(len(kinds))]
	switch k {
	case 'F', 'P':
		pre = string(k) + " "
		k = 'q'
	}
	wasClosed := h.isClosed()
	switch k {
	case 'q', 'e':
		q := pre + h.tok(g)
		var rows [][]interface{}
		var res connection.IResult
		var err error
		switch {
		case k == 'e':
			res, err = h.conn.Exec(q, connection.QueryParams{"p": strings.Repeat("x", r.Intn(200))})
		case h.v == 4 && r.Intn(3) == 0 && h.kind == "query":
			rows, res, err = h.conn.QueryWithDb(q, nil, "db")
		default:
			rows, res, err = h.conn.Query(q, connection.QueryParams{"p": int64(g)})
		}
		if !h.result("query", q, rows, res, err, wasClosed) && pre == "" && !h.broken() && h.kind != "fail" {
			c.Fail("spurious", "%s: a plain query failed although the server failed nothing: %s", h.label(), errText(err))
		}
	case 't':
		h.transact(g, r)
	case 'b':
		if tx, err := h.conn.BeginWithDatabase(""); isNilErr(err) {
			tx.IsClosed()
			tx.Rollback()
		}
	case 'v':
		open := h.conn.ValidateOpen()
		if open && wasClosed {
			c.Fail("after close", "%s: the connection reports itself open after Close had returned", h.label())
		}
		if !open && !h.broken() {
			c.Fail("not open", "%s: the connection reports itself closed although nobody closed it", h.label())
		}
		c.Event("liveness checks", 1)
	case 's':
		h.conn.SetTimeout(time.Duration(15+r.Intn(5)) * time.Second)
	case 'T':
		h.conn.SetChunkSize(uint16(1 + r.Intn(3000)))
	case 'i':
		err := h.conn.MakeIdle()
		if !isNilErr(err) && !h.broken() {
			c.Fail("idle", "%s: MakeIdle failed: %s", h.label(), errText(err))
		}
	case 'C':
		if r.Intn(6) != 0 {
			return
		}
		atomic.StoreInt32(&h.closing, 1)
		err := h.conn.Close()
		if isNilErr(err) {
			h.mu.Lock()
			h.nClosed++
			h.mu.Unlock()
		}
		atomic.StoreInt32(&h.closed, 1)
		c.Event("closes", 1)
	}
}

// transact runs a transaction; others may use it too.
func (h *c16run) transact(g int, r *rand.Rand) {
	wasClosed := h.isClosed()
	tx, err := h.conn.Begin()
	if !isNilErr(err) {
		if tx != nil {
			h.c.Fail("partial", "%s: Begin returned a transaction with error %s", h.label(), errText(err))
		}
		return
	}
	if wasClosed {
		h.c.Fail("after close", "%s: Begin succeeded after Close had returned", h.label())
	}
	h.c.Event("transactions", 1)
	t := &c16tx{}
	h.mu.Lock()
	h.txs = append(h.txs, t)
	h.mu.Unlock()
	run := func(r *rand.Rand) {
		q := h.tok(g)
		if h.kind == "fail" && r.Intn(5) == 0 {
			q = "F " + q
		}
		h.mu.Lock()
		t.all = append(t.all, q)
		h.mu.Unlock()
		var rows [][]interface{}
		var res connection.IResult
		var err error
		wasClosed := h.isClosed()
		if r.Intn(3) == 0 {
			res, err = tx.Exec(q, nil)
		} else {
			rows, res, err = tx.Query(q, nil)
		}
		if h.result("statement of a transaction", q, rows, res, err, wasClosed) {
			h.mu.Lock()
			t.toks = append(t.toks, q)
			h.mu.Unlock()
		}
	}
	run(r)
	// a second goroutine uses the transaction too, and may go on while it is being ended
	var wg sync.WaitGroup
	if r.Intn(2) == 0 {
		r2 := newRand(r.Int63())
		n := 1 + r.Intn(3)
		guard(h.c, &wg, func() {
			for i := 0; i < n; i++ {
				run(r2)
				tx.IsClosed()
			}
		})
	}
	for i := r.Intn(3); i > 0; i-- {
		run(r)
	}
	switch r.Intn(5) {
	case 0, 1:
		if err := tx.Commit(); isNilErr(err) {
			h.mu.Lock()
			t.end = "commit"
			h.mu.Unlock()
		}
	case 2:
		if err := tx.Rollback(); isNilErr(err) {
			h.mu.Lock()
			t.end = "rollback"
			h.mu.Unlock()
		}
	case 3: // both at once: one of them ends it
		var ce, re error
		var w2 sync.WaitGroup
		guard(h.c, &w2, func() { ce = tx.Commit() })
		re = tx.Rollback()
		w2.Wait()
		h.mu.Lock()
		if isNilErr(ce) && isNilErr(re) {
			h.c.Fail("ended twice", "%s: Commit and Rollback of one transaction both succeeded", h.label())
		} else if isNilErr(ce) {
			t.end = "commit"
		} else if isNilErr(re) {
			t.end = "rollback"
		}
		h.mu.Unlock()
	default: // abandoned, until someone ends it
		if h.kind != "idle" && h.kind != "close" {
			if err := tx.Rollback(); isNilErr(err) {
				h.mu.Lock()
				t.end = "rollback"
				h.mu.Unlock()
			}
		}
	}
	wg.Wait()
}

func c16Storm(c *core.C, v int, kind string) {
	s := &fake.Server{Version: v, NoLog: true}
	s.Run = func(fc *fake.Conn, m *fake.Msg) *fake.Result {
		r := whoResult(fc, m)
		r.Summary = obj{"type": "r", "for": m.Query}
		return r
	}
	pauses := newRand(c.R.Int63())
	var mu sync.Mutex
	slowly := c.R.Intn(2) == 0
	s.Hook = func(fc *fake.Conn, m *fake.Msg, rep []interface{}) ([]interface{}, *fake.Act) {
		mu.Lock()
		d := time.Duration(0)
		if slowly && pauses.Intn(3) == 0 {
			d = time.Duration(pauses.Intn(1500)) * time.Microsecond
		}
		mu.Unlock()
		if d > 0 {
			time.Sleep(d)
		}
		return rep, nil
	}
	shape := wire(c, c.R.Intn(2) == 0)
	s.OnConn = shape
	c.Serve(s)
	conn, err := connection.CreateBoltConn(connURL(s, "timeout=20"))
	if err != nil {
		c.Fail("open", "opening a healthy connection failed: %s", errText(err))
		return
	}
	fc := s.Conns()[0]
	h := &c16run{c: c, v: v, kind: kind, conn: conn, s: s}
	switch kind {
	case "cut":
		h.fault = true
		fc.Wire.Mode = []string{"half", "full", "rst"}[c.R.Intn(3)]
		fc.ArmTx(fc.Sent() + c.R.Int63n(6000))
	case "lost":
		h.fault = true
		d := time.Duration(c.R.Intn(40000)) * time.Microsecond
		mode := []string{"half", "full", "rst"}[c.R.Intn(3)]
		time.AfterFunc(d, func() { fc.Kill(mode) })
	}
	n := 2 + c.R.Intn(7)
	steps := 5 + c.R.Intn(20)
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		g, r := g, newRand(c.R.Int63())
		guard(c, &wg, func() {
			for i := 0; i < steps && !c.Failed(); i++ {
				h.step(g, r)
				if r.Intn(4) == 0 {
					runtime.Gosched()
				}
			}
		})
	}
	if !within(60*time.Second, wg.Wait) {
		c.Fail("stuck", "%s: %d goroutines using one connection do not finish", h.label(), n)
		fc.Kill("rst")
		return
	}
	// what the server saw
	var order []string
	for _, st := range s.Stmts() {
		q := strings.TrimPrefix(strings.TrimPrefix(st.Query, "F "), "P ")
		if i := strings.IndexByte(q, '-'); i > 0 {
			order = append(order, q[:i])
		}
	}
	if len(order) > 24 {
		order = order[:24]
	}
	c.Distinct("v%d %s %s", v, kind, strings.Join(order, ""))
	if vs := s.Violations("framing", "malformed", "illegal"); len(vs) > 0 {
		c.Fail("wire", "%s: the server received %s: %s", h.label(), vs[0].Kind, vs[0].Detail)
		return
	}
	h.transactions()
	if c.Failed() {
		return
	}
	// afterwards
	if kind == "close" {
		conn.Close()
		if h.nClosed > 1 {
			c.Fail("closed twice", "%s: Close succeeded %d times", h.label(), h.nClosed)
		}
		if _, _, err := conn.Query("after", nil); isNilErr(err) {
			c.Fail("after close", "%s: a query succeeded after Close", h.label())
		}
		if !waitClosed(fc) {
			c.Fail("leak", "%s: the socket was not closed", h.label())
		}
		return
	}
	if !h.fault {
		conn.MakeIdle() // an abandoned transaction
		rows, _, err := conn.Query("after", nil)
		if !isNilErr(err) || len(rows) != 1 || len(rows[0]) != 2 || rows[0][1] != "after" {
			c.Fail("unusable", "%s: a query after the goroutines finished returned %s, error %s", h.label(), short(rows), errText(err))
		}
		if !conn.ValidateOpen() {
			c.Fail("unusable", "%s: the connection reports itself closed afterwards", h.label())
		}
	}
	quietClose(conn)
	if fc.Wire.Mode == "half" && !waitClosed(fc) {
		c.Fail("leak", "%s: the socket was not closed", h.label())
	}
}

// transactions compares what the transaction handles reported with the server's transactions.
func (h *c16run) transactions() {
	c := h.c
	h.mu.Lock()
	defer h.mu.Unlock()
	in := map[string]*fake.Tx{}
	ended := map[int]string{}
	for _, tx := range h.s.Txs() {
		ended[tx.ID] = tx.End
	}
	for _, st := range h.s.Stmts() {
		in[st.Query] = st.Tx
	}
	for _, t := range h.txs {
		id := -1
		for _, q := range t.all {
			tx, ran := in[q]
			if !ran {
				continue // refused
			}
			if tx == nil {
				c.Fail("outside", "%s: statement %q of a transaction ran outside of transactions", h.label(), q)
				return
			}
			if id >= 0 && tx.ID != id {
				c.Fail("other transaction", "%s: statements of one transaction ran in two: %q", h.label(), q)
				return
			}
			id = tx.ID
		}
		if id >= 0 && t.end != "" && ended[id] != t.end {
			c.Fail("ending", "%s: a transaction was reported ended by %s, on the server it ended by %q", h.label(), t.end, ended[id])
			return
		}
		c.Event("transactions compared", 1)
	}
}
