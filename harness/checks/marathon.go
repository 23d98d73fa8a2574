package checks

import (
	"fmt"
	"time"

	"github.com/mindstand/go-bolt/connection"
	"github.com/mindstand/go-bolt/routing"

	"verif/core"
	"verif/fake"
)

// marathons have one connection do thousands of operations, for what wears out, overflows or happens every so often.
// The server tells with each row which connection it is, what it was asked and whether a transaction is open.
func marathons(t *core.T, kinds ...string) []core.Job {
	var jobs []core.Job
	for v := 1; v <= 4; v++ {
		for _, kind := range kinds {
			v, kind := v, kind
			if kind == "routed" && v < 3 {
				continue
			}
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("marathon/v%d/%s", v, kind), Fn: func(c *core.C) { marathon(c, v, kind, t.Pick(12000, 150000)) }})
		}
	}
	return jobs
}

func marathon(c *core.C, v int, kind string, n int) {
	answer := func(fc *fake.Conn, m *fake.Msg) *fake.Result {
		if m.Query == "FAIL" {
			return &fake.Result{Fail: &fake.Failure{Code: "Neo.ClientError.Statement.SyntaxError", Message: "no"}}
		}
		return &fake.Result{Fields: []string{"q", "tx", "conn"}, Rows: [][]interface{}{{m.Query, fc.InTx(), int64(fc.ID)}}, Summary: obj{"type": "r"}}
	}
	var open func() (connection.IConnection, error)
	var back func(connection.IConnection) error
	var rest []*fake.Server
	if kind == "routed" {
		cl := newClusterWith(c, v, 2, true, func(i int, s *fake.Server) {
			overviews := s.Run
			s.Run = func(fc *fake.Conn, m *fake.Msg) *fake.Result {
				if m.Query == overviewQuery {
					return overviews(fc, m)
				}
				return answer(fc, m)
			}
		}, "LEADER", "FOLLOWER")
		p, err := routing.NewRoutingPool(cl.url("timeout=30"), 2, time.Hour, "neo4j:secret", "?timeout=30")
		c.Must(err)
		c.Must(p.Start())
		c.Defer(func() { p.Stop() })
		open, back = p.BorrowRWConnection, p.Reclaim
		rest = cl.members
	} else {
		s := &fake.Server{Version: v, NoLog: true, Run: answer}
		c.Serve(s)
		rest = []*fake.Server{s}
		if kind == "pool" {
			p := newPool(c, s, 1, "timeout=30")
			open = func() (connection.IConnection, error) { return p.Open(bothModes[c.R.Intn(2)]) }
			back = p.Reclaim
		} else {
			conn, err := connection.CreateBoltConn(connURL(s, "timeout=30"))
			c.Must(err)
			open = func() (connection.IConnection, error) { return conn, nil }
			back = func(x connection.IConnection) error { return x.MakeIdle() }
			c.Defer(func() { conn.Close() })
		}
	}
	first := int64(-1)
	for i := 0; i < n && !c.Failed(); {
		conn, err := open()
		if err != nil {
			c.Fail("marathon open", "v%d %s: after %d operations a connection could not be had: %s", v, kind, i, errText(err))
			return
		}
		if c.R.Intn(20) == 0 && !conn.ValidateOpen() {
			c.Fail("marathon open", "v%d %s: after %d operations the connection says it is not open", v, kind, i)
			return
		}
		k := 1 + c.R.Intn(40)
		if c.R.Intn(40) == 0 {
			k = 300 + c.R.Intn(400)
		}
		var tx connection.ITransaction
		if c.R.Intn(3) == 0 {
			if tx, err = conn.Begin(); err != nil {
				c.Fail("marathon begin", "v%d %s: after %d operations beginning failed: %s", v, kind, i, errText(err))
				return
			}
			i++
		}
		var on connection.IQuery = conn
		if tx != nil {
			on = tx
		}
		for ; k > 0; k-- {
			i++
			if c.R.Intn(50) == 0 {
				_, _, err := on.Query("FAIL", nil)
				if isNilErr(err) {
					c.Fail("marathon success", "v%d %s: operation %d, which fails, was reported as a success", v, kind, i)
					return
				}
				if tx != nil {
					tx = nil
					break
				}
				continue
			}
			text := fmt.Sprintf("Q %d", i)
			rows, _, err := on.Query(text, nil)
			if !isNilErr(err) {
				c.Fail("marathon error", "v%d %s: operation %d (transaction: %v) failed: %s", v, kind, i, tx != nil, errText(err))
				return
			}
			if len(rows) != 1 || len(rows[0]) != 3 || rows[0][0] != text || rows[0][1] != (tx != nil) {
				c.Fail("marathon rows", "v%d %s: operation %d (%s, transaction: %v) returned %v", v, kind, i, text, tx != nil, rows)
				return
			}
			id := rows[0][2].(int64)
			if first < 0 {
				first = id
			}
			if id != first {
				c.Fail("marathon change", "v%d %s: operation %d was done by connection %d instead of %d", v, kind, i, id, first)
				return
			}
		}
		if tx != nil {
			i++
			end := tx.Commit
			if c.R.Intn(2) == 0 {
				end = tx.Rollback
			}
			if err := end(); !isNilErr(err) {
				c.Fail("marathon end", "v%d %s: after %d operations ending the transaction failed: %s", v, kind, i, errText(err))
				return
			}
		}
		if err := back(conn); !isNilErr(err) {
			c.Fail("marathon back", "v%d %s: after %d operations giving the connection back failed: %s", v, kind, i, errText(err))
			return
		}
	}
	for _, s := range rest {
		t := 0
		for _, x := range s.Txs() {
			if x.End == "" {
				t++
			}
		}
		if t > 0 {
			c.Fail("marathon open tx", "v%d %s: %d transactions are open at the end", v, kind, t)
		}
	}
	c.Event("marathon operations", int64(n))
	c.Distinct("marathon v%d %s", v, kind)
}
