package checks

import (
	"fmt"
	"runtime/debug"
	"sync"
	"time"

	"github.com/mindstand/go-bolt/connection"
	berrors "github.com/mindstand/go-bolt/errors"

	"verif/core"
	"verif/fake"
)

func init() {
	core.Register(&core.Check{ID: "C13", Keep: true, MinEvals: 20, CaseMax: 240 * time.Second,
		Rule: "Connections are closed in every state (fresh, used, transaction open, ended, failed statement, failed transaction, refused reset, undecodable or unexpected answer, timed out, server stalled, server gone in three ways and noticed or not, parameters refused, closed concurrently), versions 1-4, TCP and TLS, timeouts from none given to a day, and at random points of random histories with faults. The server observes the release and its transaction book; the process's open sockets are counted with garbage collection off; after Close every call must fail promptly without a byte sent and a second Close must say so. Distinct and non-trivial: distinct (version, state, TLS, result of Close) and (call, state, fault, outcome) in histories.",
		Run: func(t *core.T) {
			ca := newCA(scratchDir(), "c13")
			t.CaseT("sockets", 400*time.Second, func(c *core.C) {
				defer debug.SetGCPercent(debug.SetGCPercent(-1))
				base := sockets()
				for v := 1; v <= 4; v++ {
					for _, st := range closeStates {
						for _, tlsOn := range []bool{false, true} {
							if tlsOn && v != 4 {
								continue
							}
							for _, mode := range []string{"half", "full", "rst"} {
								if !c13State(c, v, st, tlsOn, mode, ca, base) {
									return
								}
								if mode == "half" && !modal[st] {
									break
								}
							}
						}
					}
				}
			})
			jobs := runHist(t, "C13", map[string]profile{
				"close": {fail: 60, reset: 20, odd: 30, kill: 40, stall: 5, len: 80, closeOp: 150, badParam: 30, badDb: 30},
				"chaos": {fail: 100, reset: 40, odd: 80, kill: 80, stall: 5, len: 60, closeOp: 80},
			}, t.Pick(20, 300))
			for _, j := range endings(t) {
				jobs = append(jobs, j)
			}
			for i := 0; i < t.Pick(24, 300); i++ {
				v := 1 + i%4
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("concurrent/v%d/%d", v, i), Fn: func(c *core.C) { c13Concurrent(c, v) }})
			}
			t.Parallel(8, append(jobs, c06Faults(t)...))
		}})
}

var closeStates = []string{"fresh", "used", "tx", "tx used", "committed", "rolled back", "failed", "failed tx", "reset refused", "reset refused tx", "reset ignored", "undecodable", "unexpected", "timed out", "tx stalled", "gone", "gone tx", "gone noticed", "bad parameter", "idle", "invalid db", "tx rollback refused", "tx rollback and reset refused", "tx rollback pull refused", "tx rollback ignored", "tx rollback record", "tx rollback undecodable"}
var modal = map[string]bool{"gone": true, "gone tx": true, "gone noticed": true}

func c13State(c *core.C, v int, st string, tlsOn bool, mode string, ca *authority, base int) bool {
	s := &fake.Server{Version: v, NoLog: true}
	q := []string{"timeout=20", "chunk_size=500", "timeout=61&chunk_size=16", "timeout=600", "timeout=86400&chunk_size=1000"}[(v+len(st)+len(mode))%5]
	if tlsOn {
		s.TLS = serverTLS(ca.good())
		q += "&tls=true&tls_ca_cert_file=" + ca.File
	}
	refuse, noEnd, noPull, ending, odd := false, false, false, false, ""
	s.Fail = func(fc *fake.Conn, m *fake.Msg) *fake.Failure {
		if refuse && m.Name == "RESET" {
			return &fake.Failure{Code: "Neo.X", Message: "no reset"}
		}
		ending = m.Name == "ROLLBACK" || m.Query == "ROLLBACK" || ending && m.Name == "PULL"
		if noEnd && ending && (!noPull || v > 2 || m.Name == "PULL") {
			return &fake.Failure{Code: "Neo.X", Message: "no rollback"}
		}
		return nil
	}
	s.Run = cutResult
	s.Hook = func(fc *fake.Conn, m *fake.Msg, rep []interface{}) ([]interface{}, *fake.Act) {
		if odd == "ignored" && m.Name == "RESET" {
			return []interface{}{fake.Ignored()}, nil
		}
		if noEnd && odd != "" {
			if m.Name != "ROLLBACK" && m.Query != "ROLLBACK" {
				return rep, nil
			}
		} else if odd == "" || odd == "ignored" || m.Name != "RUN" {
			return rep, nil
		}
		switch odd {
		case "raw":
			return nil, &fake.Act{Raw: []byte{0, 2, 0xc7, 0xff, 0, 0}}
		case "record":
			return []interface{}{fake.Record([]interface{}{int64(1)})}, nil
		case "ignored":
			return []interface{}{fake.Ignored()}, nil
		case "stall":
			return nil, &fake.Act{Stall: true, Before: true}
		}
		return rep, nil
	}
	s.Start()
	defer s.Stop()
	own := sockets() - base
	conn, err := connection.CreateBoltConn(connURL(s, q))
	if err != nil {
		c.Fail("open", "opening a healthy connection failed: %s", errText(err))
		return false
	}
	fc := s.Conns()[0]
	label := fmt.Sprintf("v%d tls=%v %s %s", v, tlsOn, st, mode)
	var tx connection.ITransaction
	begin := func() {
		if tx, err = conn.Begin(); err != nil {
			c.Fail("begin", "%s: %s", label, errText(err))
			c.Abort()
		}
	}
	query := func(text string) {
		if tx != nil {
			tx.Query(text, nil)
		} else {
			conn.Query(text, nil)
		}
	}
	switch st {
	case "used":
		query("RETURN 1")
	case "tx":
		begin()
	case "tx used":
		begin()
		query("RETURN 1")
	case "committed":
		begin()
		query("RETURN 1")
		tx.Commit()
	case "rolled back":
		begin()
		tx.Rollback()
	case "failed":
		query("FAIL")
	case "failed tx":
		begin()
		query("FAILPULL")
	case "reset refused":
		refuse = true
		query("FAIL")
	case "reset refused tx":
		refuse = true
		begin()
		query("FAIL")
	case "reset ignored":
		odd = "ignored"
		query("FAIL")
	case "undecodable":
		begin()
		odd = "raw"
		query("RETURN 1")
	case "unexpected":
		odd = "record"
		query("RETURN 1")
	case "timed out":
		conn.SetTimeout(40 * time.Millisecond)
		odd = "stall"
		query("RETURN 1")
		conn.SetTimeout(20 * time.Second)
	case "tx stalled":
		begin()
		fc.Wire.StallTx = 0 // no more answers
		conn.SetTimeout(150 * time.Millisecond)
	case "gone":
		fc.Kill(mode)
	case "gone tx":
		begin()
		query("RETURN 1")
		fc.Kill(mode)
	case "gone noticed":
		begin()
		fc.Kill(mode)
		query("RETURN 1")
	case "bad parameter":
		begin()
		tx.Exec("RETURN 1", connection.QueryParams{"a": make(chan int)})
	case "idle":
		begin()
		conn.MakeIdle()
	case "tx rollback refused", "tx rollback and reset refused", "tx rollback pull refused", "tx rollback ignored", "tx rollback record", "tx rollback undecodable":
		begin()
		query("RETURN 1")
		refuse = st == "tx rollback and reset refused"
		noPull = st == "tx rollback pull refused"
		odd = map[string]string{"tx rollback ignored": "ignored", "tx rollback record": "record", "tx rollback undecodable": "raw"}[st]
		noEnd = true
	case "invalid db":
		begin()
		tx.ExecWithDb("RETURN 1", nil, "other")
	}
	t0 := time.Now()
	err = conn.Close()
	took := time.Since(t0)
	c.Event("closes", 1)
	c.Distinct("%s close=%v", label, !isNilErr(err))
	bad := func(key, f string, a ...interface{}) bool {
		c.Fail(key, "%s: %s", label, fmt.Sprintf(f, a...))
		return false
	}
	if took > slow {
		return bad("close blocks", "Close took %v", took)
	}
	healthy := map[string]bool{"fresh": true, "used": true, "tx": true, "tx used": true, "committed": true, "rolled back": true, "failed": true, "failed tx": true, "bad parameter": true, "idle": true, "invalid db": true}
	if healthy[st] && !isNilErr(err) {
		return bad("close fails", "Close returned %s", errText(err))
	}
	if mode == "half" || !modal[st] {
		if !waitClosed(fc) {
			return bad("leak", "the server does not see the connection closed")
		}
	}
	if n := settles(base + own); n > base+own {
		return bad("socket leak", "%d sockets are open instead of %d", n, base+own)
	}
	c.Event("socket counts", 1)
	for _, x := range s.Txs() {
		if x.End == "" || x.End == "commit" && st != "committed" {
			return bad("open tx", "transaction %d is %q on the server after Close", x.ID, x.End)
		}
	}
	n := s.NMsgs()
	for i := 0; i < 2; i++ {
		if conn.ValidateOpen() {
			return bad("open", "the connection reports itself open after Close")
		}
		t0 = time.Now()
		errs := []error{}
		names := []string{}
		add := func(n string, e error) { names = append(names, n); errs = append(errs, e) }
		_, _, e := conn.Query("RETURN 1", nil)
		add("Query", e)
		_, _, e = conn.QueryWithDb("RETURN 1", nil, "db")
		add("QueryWithDb", e)
		_, e = conn.Exec("RETURN 1", nil)
		add("Exec", e)
		_, e = conn.ExecWithDb("RETURN 1", nil, "db")
		add("ExecWithDb", e)
		_, e = conn.Begin()
		add("Begin", e)
		_, e = conn.BeginWithDatabase("db")
		add("BeginWithDatabase", e)
		if tx != nil {
			if !tx.IsClosed() {
				return bad("tx open", "the transaction reports itself open after Close")
			}
			_, _, e = tx.Query("RETURN 1", nil)
			add("tx.Query", e)
			_, e = tx.Exec("RETURN 1", nil)
			add("tx.Exec", e)
			add("tx.Commit", tx.Commit())
			add("tx.Rollback", tx.Rollback())
		}
		for j, e := range errs {
			if isNilErr(e) {
				return bad("works", "%s succeeded after Close", names[j])
			}
		}
		c.Event("calls after Close", int64(len(errs)))
		e = conn.Close()
		if e == nil || innermost(e) != error(berrors.ErrClosed) {
			return bad("second close", "a second Close returned %v", e)
		}
		if d := time.Since(t0); d > slow {
			return bad("blocks", "the calls after Close took %v", d)
		}
	}
	if s.NMsgs() != n {
		return bad("sent", "messages were sent after Close")
	}
	for _, vi := range s.Violations() {
		if vi.Kind == "illegal" && odd == "" && !refuse {
			return bad("illegal", "%s", vi.Detail)
		}
	}
	return true
}

// c13Concurrent closes a connection from several goroutines while it is used.
func c13Concurrent(c *core.C, v int) {
	s := c.Serve(&fake.Server{Version: v, Run: cutResult})
	conn := dial(c, s)
	tx, err := conn.Begin()
	if err != nil {
		c.Fail("begin", "%s", errText(err))
		return
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	oks, closedErrs := 0, 0
	n := 2 + c.R.Intn(6)
	for i := 0; i < n; i++ {
		wg.Add(1)
		d := time.Duration(c.R.Intn(800)) * time.Microsecond
		go func() {
			defer wg.Done()
			time.Sleep(d)
			err := conn.Close()
			mu.Lock()
			if isNilErr(err) {
				oks++
			} else if innermost(err) == error(berrors.ErrClosed) {
				closedErrs++
			}
			mu.Unlock()
		}()
	}
	for i := 0; i < 10; i++ {
		tx.Query(cutText, nil)
	}
	wg.Wait()
	c.Event("concurrent closes", int64(n))
	c.Distinct("v%d concurrent %d ok=%d stmts=%d", v, n, oks, len(s.Stmts()))
	if oks != 1 || closedErrs != n-1 {
		c.Fail("concurrent", "v%d: of %d concurrent Close calls %d succeeded and %d said it was closed already", v, n, oks, closedErrs)
	}
	if held := s.WaitReleased(slow); len(held) > 0 {
		c.Fail("leak", "v%d: the connection was not released by %d concurrent Close calls", v, n)
	}
	if e := s.Txs()[0].End; e == "" || e == "commit" {
		c.Fail("open tx", "v%d: the transaction is %q on the server", v, e)
	}
	for _, vi := range s.Violations() {
		c.Fail("illegal", "v%d: %s", v, vi.Detail)
	}
}
