package checks

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"github.com/mindstand/go-bolt/connection"

	"verif/core"
	"verif/fake"
)

func init() {
	core.Register(&core.Check{ID: "C08", MinEvals: 20, CaseMax: 240 * time.Second,
		Rule:   "The connection is cut at every byte, in both directions, of every kind of exchange (opening, query, exec, many rows, query in a transaction, begin, commit, rollback, idle, close, failure and reset; versions 1-4; half close, full close and reset; over TCP and TLS), and while it is idle before every kind of call. The error, the liveness report, the promptness and the refusal of every later call and the release of the socket (seen by the server, and as open files of the process with garbage collection off) are checked; success is accepted only when the server had sent its whole answer. Distinct and non-trivial: distinct (version, exchange, mode, direction, byte, outcome).",
		Assume: []string{"a failure already received whose acknowledgement is cut off may be reported instead of the loss"},
		Run:    runC08})
}

// exch is a kind of exchange: prep brings the connection to where do can start.
type exch struct {
	name string
	open bool
	prep func(x *xrun)
	do   func(x *xrun) ([][]interface{}, connection.IResult, error)
	fail bool // it fails even without a cut
	rows int
}

type xrun struct {
	c    *core.C
	s    *fake.Server
	fc   *fake.Conn
	conn connection.IConnection
	tx   connection.ITransaction
}

const cutText = "RETURN cut"

func exchanges() []exch {
	begin := func(x *xrun) {
		tx, err := x.conn.Begin()
		if err != nil {
			x.c.Fail("begin", "Begin on a healthy connection: %s", errText(err))
			x.c.Abort()
		}
		x.tx = tx
	}
	return []exch{
		{name: "open", open: true},
		{name: "query", rows: 3, do: func(x *xrun) ([][]interface{}, connection.IResult, error) {
			return x.conn.Query(cutText, connection.QueryParams{"a": int64(1)})
		}},
		{name: "exec", rows: 3, do: func(x *xrun) ([][]interface{}, connection.IResult, error) {
			r, err := x.conn.Exec(cutText, nil)
			return nil, r, err
		}},
		{name: "empty", do: func(x *xrun) ([][]interface{}, connection.IResult, error) { return x.conn.Query("RETURN none", nil) }},
		{name: "txquery", rows: 3, prep: begin, do: func(x *xrun) ([][]interface{}, connection.IResult, error) { return x.tx.Query(cutText, nil) }},
		{name: "txexec", rows: 3, prep: begin, do: func(x *xrun) ([][]interface{}, connection.IResult, error) {
			r, err := x.tx.Exec(cutText, nil)
			return nil, r, err
		}},
		{name: "begin", do: func(x *xrun) ([][]interface{}, connection.IResult, error) {
			tx, err := x.conn.Begin()
			if err != nil && tx != nil {
				x.c.Fail("half", "Begin returned both a transaction and an error")
			}
			x.tx = tx
			return nil, nil, err
		}},
		{name: "commit", prep: begin, do: func(x *xrun) ([][]interface{}, connection.IResult, error) { return nil, nil, x.tx.Commit() }},
		{name: "rollback", prep: begin, do: func(x *xrun) ([][]interface{}, connection.IResult, error) { return nil, nil, x.tx.Rollback() }},
		{name: "idle", prep: begin, do: func(x *xrun) ([][]interface{}, connection.IResult, error) { return nil, nil, x.conn.MakeIdle() }},
		{name: "close", prep: begin, do: func(x *xrun) ([][]interface{}, connection.IResult, error) { return nil, nil, x.conn.Close() }},
		{name: "failure", fail: true, do: func(x *xrun) ([][]interface{}, connection.IResult, error) { return x.conn.Query("FAIL", nil) }},
		{name: "failpull", fail: true, do: func(x *xrun) ([][]interface{}, connection.IResult, error) { return x.conn.Query("FAILPULL", nil) }},
	}
}

func cutResult(c *fake.Conn, m *fake.Msg) *fake.Result {
	switch m.Query {
	case "FAIL":
		return &fake.Result{Fail: &fake.Failure{Code: "Neo.ClientError.X", Message: "failed"}}
	case "FAILPULL":
		return &fake.Result{Fields: []string{"a"}, Rows: [][]interface{}{{int64(1)}}, FailPull: &fake.Failure{Code: "Neo.ClientError.X", Message: "failed"}}
	case "RETURN none":
		return &fake.Result{Fields: []string{"a"}}
	}
	return &fake.Result{Fields: []string{"a"}, Rows: [][]interface{}{{int64(1), "one"}, {int64(2), "two"}, {int64(3), obj{"k": arr{int64(7)}}}}, Summary: obj{"type": "r"}}
}

// cut describes one cut: after so many bytes, counted from the start of the exchange; idle: before it.
type cut struct {
	dir  int // 0: server to driver, 1: driver to server
	at   int64
	mode string
	idle bool
}

func (k cut) String() string {
	if k.idle {
		return "idle/" + k.mode
	}
	return fmt.Sprintf("%s byte %d/%s", []string{"reply", "request"}[k.dir], k.at, k.mode)
}

// c08Server starts a server for cutting; next is applied to the next connection at its start.
func c08Server(c *core.C, v int, tlsOn bool, ca *authority, next *cut) (*fake.Server, string) {
	s := &fake.Server{Version: v, Run: cutResult}
	q := "timeout=20"
	if tlsOn {
		s.TLS = serverTLS(ca.good())
		q += "&tls=true&tls_ca_cert_file=" + ca.File
	}
	s.OnConn = func(fc *fake.Conn) {
		if next != nil && next.mode != "" && !next.idle {
			fc.Wire.Mode = next.mode
			if next.dir == 0 {
				fc.Wire.KillTx = next.at
			} else {
				fc.Wire.KillRx = next.at
			}
		}
	}
	s.NoLog = true
	c.Serve(s)
	return s, connURL(s, q)
}

func runC08(t *core.T) {
	ca := newCA(scratchDir(), "c08")
	// the sockets of the process, with the collector off so that nothing is released by chance
	t.CaseT("sockets", 600*time.Second, func(c *core.C) { c08Sockets(c, ca) })
	var jobs []core.Job
	for v := 1; v <= 4; v++ {
		for _, e := range exchanges() {
			for _, mode := range []string{"half", "full", "rst"} {
				for _, tlsOn := range []bool{false, true} {
					if tlsOn && v != 1 && v != 4 && !t.Thorough {
						continue
					}
					v, e, mode, tlsOn := v, e, mode, tlsOn
					jobs = append(jobs, core.Job{Name: fmt.Sprintf("cut/v%d/%s/%s/tls=%v", v, e.name, mode, tlsOn), Fn: func(c *core.C) { c08Cuts(c, v, e, mode, tlsOn, ca) }})
				}
			}
		}
	}
	for v := 1; v <= 4; v++ {
		for i := 0; i < t.Pick(3, 30); i++ {
			v := v
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("large/v%d/%d", v, i), Fn: func(c *core.C) { c08Large(c, v) }})
		}
	}
	for v := 1; v <= 4; v++ {
		for i := 0; i < t.Pick(4, 16); i++ {
			v, i := v, i
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("unread/v%d/%d", v, i), Fn: func(c *core.C) { c08Unread(c, v, i%4 == 3, ca) }})
		}
	}
	t.Parallel(8, jobs)
}

// c08Unread closes the connection while a large request is partly accepted and waits for the server to read on.
func c08Unread(c *core.C, v int, tlsOn bool, ca *authority) {
	s, url := c08Server(c, v, tlsOn, ca, nil)
	big := connection.QueryParams{"big": strings.Repeat("x", 16<<20)}
	for _, mode := range []string{"full", "rst", "timeout"} {
		conn, err := connection.CreateBoltConn(url)
		if err != nil {
			c.Fail("open", "opening a healthy connection failed: %s", errText(err))
			return
		}
		fc := s.Conns()[s.NConns()-1]
		after := []int64{0, 1, 100, 70000, 1 << 20, 5 << 20}[c.R.Intn(6)]
		label := fmt.Sprintf("v%d, TLS %v: a request of 16 MB of which the server reads %d bytes, then %s", v, tlsOn, after, mode)
		var q connection.IQuery = conn
		var tx connection.ITransaction
		if c.R.Intn(2) == 0 {
			if tx, err = conn.Begin(); err != nil {
				c.Fail("begin", "%s: %s", label, errText(err))
				return
			}
			q = tx
		}
		fc.ArmStall(-1, fc.Received()+after)
		d := time.Duration(20+c.R.Intn(60)) * time.Millisecond
		if mode == "timeout" {
			conn.SetTimeout(100 * time.Millisecond)
		} else {
			go func() { time.Sleep(d); fc.Kill(mode) }()
		}
		rows, res, err := q.Query("RETURN unread", big)
		c.Event("unread requests", 1)
		c.Distinct("%s tx=%v", label, tx != nil)
		fc.Free()
		switch {
		case isNilErr(err) || rows != nil || !isNilResult(res):
			c.Fail("unread success", "%s: the call returned %d rows, error %s", label, len(rows), errText(err))
			return
		case !isBadConn(err):
			c.Fail("unread error", "%s: the innermost error is %T %s", label, innermost(err), errText(innermost(err)))
			return
		case conn.ValidateOpen():
			c.Fail("unread open", "%s: the connection reports itself open", label)
			return
		case tx != nil && !tx.IsClosed():
			c.Fail("unread tx", "%s: the transaction reports itself open", label)
			return
		}
		if _, err := conn.Begin(); err == nil {
			c.Fail("unread later", "%s: Begin succeeded afterwards", label)
			return
		}
		conn.Close()
	}
}

// c08One performs an exchange with a cut and checks everything about it. tx, rx are the lengths of the uncut exchange.
func c08One(c *core.C, s *fake.Server, url string, v int, e exch, k cut, next *cut, tx, rx int64) (ok bool) {
	label := fmt.Sprintf("v%d %s cut at %s", v, e.name, k)
	bad := func(key, f string, a ...interface{}) bool {
		c.Fail(e.name+" "+key, "%s: %s", label, fmt.Sprintf(f, a...))
		return false
	}
	c.Event("cuts", 1)
	x := &xrun{c: c, s: s}
	*next = cut{}
	if e.open {
		*next = k
	}
	n0 := s.NConns()
	start := time.Now()
	conn, err := connection.CreateBoltConn(url)
	if e.open && !k.idle {
		c.Distinct("%s err=%v", label, err != nil)
		if took := time.Since(start); took > slow {
			return bad("slow", "took %v", took)
		}
		if s.NConns() <= n0 { // refused before it was accepted
			return err != nil || bad("open", "opened without a server")
		}
		fc := s.Conns()[n0]
		whole := k.dir == 0 && k.at >= tx
		if isNilErr(err) {
			if !whole {
				return bad("success", "opening succeeded although the server's answer was incomplete (%d of %d bytes sent)", fc.Sent(), tx)
			}
		} else {
			if conn != nil {
				return bad("half", "a connection came with error %s", errText(err))
			}
			if !isBadConn(err) && !(k.dir == 1 && k.at == 0) && !strings.Contains(url, "tls=true") {
				return bad("error", "the innermost error is %T %s", innermost(err), errText(innermost(err)))
			}
			if k.mode == "half" && !waitClosed(fc) {
				return bad("leak", "the socket was not closed after the open failed")
			}
			return true
		}
	} else if err != nil {
		c.Fail("open", "opening a healthy connection failed: %s", errText(err))
		return false
	}
	x.conn = conn
	x.fc = s.Conns()[s.NConns()-1]
	defer quietClose(conn)
	if !e.open {
		if e.prep != nil {
			e.prep(x)
		}
		fc := x.fc
		fc.Wire.Mode = k.mode
		tx0, rx0 := fc.Sent(), fc.Received()
		if k.idle {
			fc.Kill(k.mode)
		} else if k.dir == 0 {
			fc.ArmTx(tx0 + k.at)
		} else {
			fc.ArmRx(rx0 + k.at)
		}
		start = time.Now()
		rows, res, err := e.do(x)
		took := time.Since(start)
		c.Distinct("%s err=%v", label, !isNilErr(err))
		if took > slow {
			return bad("slow", "took %v with the connection cut", took)
		}
		if isNilErr(err) {
			if !e.fail && fc.Sent()-tx0 < tx {
				return bad("success", "success although only %d of the %d bytes of the answer had been sent", fc.Sent()-tx0, tx)
			}
			if e.fail {
				return bad("success", "success although the server reported a failure")
			}
			if strings.HasSuffix(e.name, "query") && len(rows) != e.rows {
				return bad("rows", "%d rows instead of %d", len(rows), e.rows)
			}
		} else {
			if rows != nil || !isNilResult(res) {
				return bad("partial", "error %s came with rows %s", errText(err), short(rows))
			}
			_, isF := failureOf(err)
			if !isBadConn(err) && !(e.fail && isF) && !(e.name == "close" && fc.Sent()-tx0 >= tx) {
				return bad("error", "the innermost error is %T %s", innermost(err), errText(innermost(err)))
			}
			if e.fail && isF && fc.Sent() == tx0 {
				return bad("error", "a failure the server never sent was reported: %s", errText(err))
			}
		}
		if isNilErr(err) && !fc.Killed() && !k.idle { // past the end: cut it now, so that the next call finds out
			fc.Kill(k.mode)
		}
		if !isNilErr(err) && !fc.Killed() && !e.fail {
			return bad("spurious", "failed although nothing was cut: %s", errText(err))
		}
		if e.fail && !fc.Killed() {
			fc.Kill(k.mode)
		}
	}
	// the connection is dead; perhaps the driver does not know yet
	if x.conn.ValidateOpen() {
		return bad("open", "the connection reports itself open although the server is gone")
	}
	if x.tx != nil && !x.tx.IsClosed() {
		return bad("tx open", "the transaction reports itself open although the server is gone")
	}
	later := func(name string, f func() error) bool {
		n := s.NMsgs()
		t0 := time.Now()
		err := f()
		if d := time.Since(t0); d > slow {
			return bad("blocks", "%s afterwards took %v", name, d)
		}
		c.Event("later calls", 1)
		if isNilErr(err) {
			return bad("later", "%s afterwards succeeded", name)
		}
		_ = n
		return true
	}
	for i := 0; i < 2; i++ {
		if !later("Query", func() error {
			r, q, err := x.conn.Query("RETURN 1", nil)
			if err != nil && (r != nil || !isNilResult(q)) {
				bad("partial", "rows with error afterwards")
			}
			return err
		}) || !later("Exec", func() error { _, err := x.conn.Exec("RETURN 1", nil); return err }) ||
			!later("Begin", func() error { _, err := x.conn.Begin(); return err }) {
			return false
		}
		if x.tx != nil {
			if !later("tx.Query", func() error { _, _, err := x.tx.Query("RETURN 1", nil); return err }) ||
				!later("tx.Commit", func() error { return x.tx.Commit() }) || !later("tx.Rollback", func() error { return x.tx.Rollback() }) {
				return false
			}
		}
		t0 := time.Now()
		x.conn.Close()
		if d := time.Since(t0); d > slow {
			return bad("blocks", "Close took %v", d)
		}
	}
	if k.mode == "half" && !waitClosed(x.fc) {
		return bad("leak", "the socket was not closed although the connection was closed")
	}
	return true
}

func waitClosed(fc *fake.Conn) bool {
	select {
	case <-fc.PeerClosed:
		return true
	case <-time.After(slow):
		return false
	}
}

// c08Length measures an exchange.
func c08Length(c *core.C, s *fake.Server, url string, e exch) (tx, rx int64) {
	conn, err := connection.CreateBoltConn(url)
	if err != nil {
		c.Fail("open", "opening a healthy connection failed: %s", errText(err))
		c.Abort()
	}
	defer quietClose(conn)
	fc := s.Conns()[s.NConns()-1]
	if e.open {
		return fc.Sent(), fc.Received()
	}
	x := &xrun{c: c, s: s, fc: fc, conn: conn}
	if e.prep != nil {
		e.prep(x)
	}
	t0, r0 := fc.Sent(), fc.Received()
	_, _, err = e.do(x)
	if !e.fail && !isNilErr(err) {
		c.Fail("healthy", "%s on a healthy connection failed: %s", e.name, errText(err))
		c.Abort()
	}
	if e.name == "close" {
		waitClosed(fc)
	}
	return fc.Sent() - t0, fc.Received() - r0
}

func c08Cuts(c *core.C, v int, e exch, mode string, tlsOn bool, ca *authority) {
	next := &cut{}
	s, url := c08Server(c, v, tlsOn, ca, next)
	tx, rx := c08Length(c, s, url, e)
	step := int64(1)
	if tlsOn {
		step = int64(c.T.Pick(11, 1))
	}
	if !e.open && !c08One(c, s, url, v, e, cut{mode: mode, idle: true}, next, tx, rx) {
		return
	}
	for dir := 0; dir < 2; dir++ {
		n := tx
		if dir == 1 {
			n = rx
		}
		for at := int64(0); at <= n; at += step {
			if !c08One(c, s, url, v, e, cut{dir: dir, at: at, mode: mode}, next, tx, rx) {
				return
			}
		}
	}
	c.Sample("v%d %s %s: %d reply bytes, %d request bytes, each cut", v, e.name, mode, tx, rx)
}

// c08Large cuts long answers and long requests at random places, with the wire split up.
func c08Large(c *core.C, v int) {
	rows := 1 + c.R.Intn(400)
	text := strOf(c.R, 1+c.R.Intn(3000))
	var at int64
	var mode string
	var dir int
	s := &fake.Server{Version: v, NoLog: true, Run: func(fc *fake.Conn, m *fake.Msg) *fake.Result {
		r := &fake.Result{Fields: []string{"a", "b"}}
		for i := 0; i < rows; i++ {
			r.Rows = append(r.Rows, []interface{}{int64(i), text})
		}
		return r
	}}
	s.OnConn = wire(c, true)
	c.Serve(s)
	var tx, rx int64
	for i := 0; i < 12; i++ {
		conn := dial(c, s)
		fc := s.Conns()[s.NConns()-1]
		t0, r0 := fc.Sent(), fc.Received()
		if i > 0 {
			mode = []string{"half", "full", "rst"}[c.R.Intn(3)]
			dir = c.R.Intn(2)
			fc.Wire.Mode = mode
			if dir == 0 {
				at = c.R.Int63n(tx)
				fc.ArmTx(t0 + at)
			} else {
				at = c.R.Int63n(rx)
				fc.ArmRx(r0 + at)
			}
		}
		c.Event("cuts", 1)
		got, res, err := conn.Query("RETURN big", connection.QueryParams{"big": strings.Repeat("x", 200000)})
		if i == 0 {
			tx, rx = fc.Sent()-t0, fc.Received()-r0
			if err != nil || len(got) != rows {
				c.Fail("healthy", "v%d: a large query failed: %s", v, errText(err))
				return
			}
			continue
		}
		c.Distinct("v%d large dir%d %s %d err=%v", v, dir, mode, at*10/(tx+1), err != nil)
		if isNilErr(err) || got != nil || !isNilResult(res) {
			c.Fail("large success", "v%d: a query cut (%s) after %d of %d bytes (direction %d) returned %d rows, error %s", v, mode, at, []int64{tx, rx}[dir], dir, len(got), errText(err))
			return
		}
		if !isBadConn(err) {
			c.Fail("large error", "v%d: a query cut (%s) after %d bytes (direction %d): the innermost error is %T %s", v, mode, at, dir, innermost(err), errText(innermost(err)))
			return
		}
		if conn.ValidateOpen() {
			c.Fail("large open", "v%d: the connection reports itself open although it was cut", v)
			return
		}
		if _, err := conn.Begin(); err == nil {
			c.Fail("large later", "v%d: Begin succeeded on a cut connection", v)
			return
		}
		conn.Close()
		if mode == "half" && !waitClosed(fc) {
			c.Fail("large leak", "v%d: the socket was not closed", v)
			return
		}
	}
}

// sockets counts the sockets the process has open.
func sockets() int {
	fs, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	n := 0
	for _, f := range fs {
		if l, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

// settles waits for the number of sockets to come down to n.
func settles(n int) int {
	end := time.Now().Add(slow)
	for {
		k := sockets()
		if k <= n || time.Now().After(end) {
			return k
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func c08Sockets(c *core.C, ca *authority) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	base := sockets()
	for v := 1; v <= 4; v++ {
		for _, tlsOn := range []bool{false, true} {
			if tlsOn && v != 4 {
				continue
			}
			next := &cut{}
			s, url := c08Server(c, v, tlsOn, ca, next)
			own := sockets() - base // the listener
			for _, e := range exchanges() {
				*next = cut{}
				tx, rx := c08Length(c, s, url, e)
				if k := settles(base + own); k != base+own {
					c.Fail("socket leak", "v%d: after a healthy %s and Close %d sockets are open instead of %d", v, e.name, k, base+own)
					return
				}
				for _, mode := range []string{"half", "full", "rst"} {
					for _, k := range []cut{{0, 0, mode, false}, {0, tx / 2, mode, false}, {0, tx - 1, mode, false}, {0, tx, mode, false}, {1, 0, mode, false}, {1, rx / 2, mode, false}, {1, rx, mode, false}, {0, 0, mode, true}} {
						if e.open && k.idle {
							continue
						}
						if !c08One(c, s, url, v, e, k, next, tx, rx) {
							return
						}
						*next = cut{}
						if n := settles(base + own); n > base+own {
							c.Fail("socket leak", "v%d tls=%v: after %s cut at %s and Close %d sockets are open instead of %d", v, tlsOn, e.name, k, n, base+own)
							return
						}
						c.Event("socket counts", 1)
					}
				}
			}
			s.Stop()
			base = settles(base)
		}
	}
}
