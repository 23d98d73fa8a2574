package checks

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"

	"verif/core"
	"verif/fake"
)

func init() {
	core.Register(&core.Check{ID: "C17", Keep: true, MinEvals: 20, CaseMax: 240 * time.Second,
		Rule: "Under the race detector, pools of 1-6 connections (Bolt 1-4) are used by 2-12 borrowers at once who query, fail, leave transactions open, close or lose their connections and return them once, twice, twice at once or again after they were lent to someone else, while idle connections are killed and the server goes away and comes back. The server tells every borrower which connection it has: exclusivity, the number lent and the number the kernel holds open are checked at every step, then exactly n must be borrowable and a waiting caller be served by every kind of return. Distinct and non-trivial: distinct (version, size, last use, kind of return) and scripted (return kind, size, round).",
		Run:  func(t *core.T) { runPool(t) }})
	core.Register(&core.Check{ID: "C18", Keep: true, MinEvals: 20, CaseMax: 240 * time.Second,
		Rule: "The histories of C17 without the race detector, and scripted handovers: a borrower leaves a connection in every state (transaction open, failed, used, settings changed, closed, server gone in three ways while lent or idle, rollback refused or stalled), and the next borrower's first statement must work, outside of any transaction, with the configured chunk size and timeout; abandoned transactions must end as rolled back in the server's book before their connection is lent. Distinct and non-trivial: distinct (version, state left, fault, size).",
		Run:  func(t *core.T) { runPool(t) }})
	core.Register(&core.Check{ID: "C19", Keep: true, MinEvals: 20, CaseMax: 240 * time.Second,
		Rule: "Under the race detector, dozens of pools of one client are opened, used and closed in a row next to some that stay, and pools are closed by 1-3 callers at once while connections are idle, lent and waited for, and while borrowers churn; the waiting and later calls, the second close, the server's view of idle and later returned connections, and the goroutines and sockets left are observed. Distinct and non-trivial: distinct (version, size, lent, waiting, closers).",
		Run:  func(t *core.T) { runPool(t) }})
}

func runPool(t *core.T) {
	prop := t.Prop
	var jobs []core.Job
	add := func(name string, fn func(c *core.C)) { jobs = append(jobs, core.Job{Name: name, Fn: fn}) }
	for i := 0; i < t.Pick(24, 300); i++ {
		i := i
		v := 1 + i%4
		add(fmt.Sprintf("churn/v%d/%d", v, i), func(c *core.C) {
			n := poolSize(c.R)
			h := newPoolHist(c, prop, v, n, "")
			h.churn(2+c.R.Intn(2*n)%24, t.Pick(12, 40), i%3 > 0, i%3 == 2)
			if c.Failed() {
				return
			}
			h.books()
			if !h.capacity("a random history") {
				return
			}
			h.shut(c.R.Intn(n+1), c.R.Intn(4))
		})
	}
	if prop == "C17" {
		for i, n := range tideSizes(t) {
			n, v := n, 1+i%4
			add(fmt.Sprintf("tide/v%d/n%d", v, n), func(c *core.C) { poolTide(c, prop, v, n) })
		}
	}
	if prop == "C17" || prop == "C18" {
		for v := 1; v <= 4; v++ {
			for _, kind := range returnKinds {
				for _, n := range []int{1, 2, 4} {
					v, kind, n := v, kind, n
					if n > 1 && v != 1+len(kind)%4 && !t.Thorough {
						continue
					}
					add(fmt.Sprintf("return/%s/v%d/n%d", strings.ReplaceAll(kind, " ", "-"), v, n), func(c *core.C) { poolReturn(c, prop, v, n, kind) })
				}
			}
		}
		for i := 0; i < t.Pick(6, 40); i++ {
			add(fmt.Sprintf("odd returns/%d", i), func(c *core.C) { poolOdd(c, prop, 1+c.R.Intn(4)) })
			add(fmt.Sprintf("outage/%d", i), func(c *core.C) { poolOutage(c, prop, 1+c.R.Intn(4)) })
		}
	}
	if prop == "C18" {
		for v := 1; v <= 4; v++ {
			for _, mode := range []string{"half", "full", "rst", "farewell"} {
				for _, n := range []int{1, 3} {
					v, mode, n := v, mode, n
					add(fmt.Sprintf("idle killed/v%d/%s/n%d", v, mode, n), func(c *core.C) { poolIdleKilled(c, v, n, mode) })
				}
			}
			v := v
			add(fmt.Sprintf("settings/v%d", v), func(c *core.C) { poolSettings(c, v) })
			add(fmt.Sprintf("longer timeout/v%d", v), func(c *core.C) { c18ShortPool(c, v) })
		}
	}
	if prop == "C19" {
		for i := 0; i < t.Pick(60, 600); i++ {
			v := 1 + i%4
			add(fmt.Sprintf("close/v%d/%d", v, i), func(c *core.C) {
				n := 1 + c.R.Intn(4)
				h := newPoolHist(c, prop, v, n, "")
				for k := c.R.Intn(n + 1); k > 0; k-- {
					if l, _ := h.borrow("warm"); l != nil {
						h.giveBack(c.R, l)
					}
				}
				h.shut(c.R.Intn(n+1), c.R.Intn(5))
			})
			add(fmt.Sprintf("close under load/v%d/%d", v, i), func(c *core.C) { poolCloseLoad(c, prop, v) })
		}
		for v := 1; v <= 4; v++ {
			v := v
			add(fmt.Sprintf("pools in a row/v%d", v), func(c *core.C) { poolsInARow(c, v) })
			add(fmt.Sprintf("close slow/v%d", v), func(c *core.C) { poolCloseSlow(c, prop, v) })
		}
	}
	t.Parallel(8, jobs)
	if prop == "C19" || prop == "C17" {
		t.CaseT("what is left", 120*time.Second, func(c *core.C) { poolLeft(c, prop) })
	}
}

var returnKinds = []string{"healthy", "used", "closed", "killed half", "killed full", "killed rst", "killed noticed", "transaction open", "transaction used", "transaction failed", "rollback refused", "rollback lost", "failed", "reset refused", "undecodable", "twice", "twice at once", "later again"}

// poolsInARow opens and closes many pools of one client, next to some that stay open.
func poolsInARow(c *core.C, v int) {
	s := &fake.Server{Version: v, Run: whoResult, NoLog: true}
	c.Serve(s)
	client, err := goBolt.NewClient(goBolt.WithConnectionString(connURL(s, "timeout=20")))
	c.Must(err)
	t := &c30tok{}
	type stay struct {
		p    lender
		conn connection.IConnection
		id   int
	}
	var stays []stay
	works := func(what string, conn connection.IConnection) (int, bool) {
		id, err := who(conn, t.next())
		if err != nil {
			c.Fail("row", "v%d: %s does not work: %s", v, what, errText(err))
			return 0, false
		}
		return id, true
	}
	for i := 0; i < c.T.Pick(60, 600) && !c.Failed(); i++ {
		n := 1 + c.R.Intn(4)
		what := fmt.Sprintf("pool %d of a client", i)
		p, err := client.NewDriverPool(n)
		if err != nil {
			c.Fail("row", "v%d: %s (of %d connections) can not be made: %s", v, what, n, errText(err))
			return
		}
		var lent []connection.IConnection
		for k := 1 + c.R.Intn(n); k > 0; k-- {
			conn, err := p.Open(bothModes[c.R.Intn(2)])
			if err != nil {
				c.Fail("row", "v%d: %s can not be borrowed from: %s", v, what, errText(err))
				return
			}
			if _, ok := works("a connection of "+what, conn); !ok {
				return
			}
			lent = append(lent, conn)
		}
		if i%12 == 0 {
			id, ok := works("a connection of "+what, lent[0])
			if !ok {
				return
			}
			stays = append(stays, stay{p, lent[0], id})
			for _, conn := range lent[1:] {
				p.Reclaim(conn)
			}
			continue
		}
		for k, conn := range lent {
			if k == 0 || c.R.Intn(2) == 0 {
				if err := p.Reclaim(conn); err != nil {
					c.Fail("row", "v%d: %s does not take its connection back: %s", v, what, errText(err))
				}
			} else {
				conn.Close()
			}
		}
		if err := p.Close(); err != nil {
			c.Fail("row", "v%d: closing %s failed: %s", v, what, errText(err))
		}
		if _, err := p.Open(bothModes[0]); err == nil {
			c.Fail("row", "v%d: %s lends after it was closed", v, what)
		}
		for k, x := range stays {
			if id, ok := works(fmt.Sprintf("a connection lent by another pool (%d), after closing %s,", k, what), x.conn); ok && id != x.id {
				c.Fail("row", "v%d: after closing %s, a connection of another pool is %d instead of %d", v, what, id, x.id)
			}
		}
		d, err := client.NewDriver()
		if err != nil {
			c.Fail("row", "v%d: a driver can not be made: %s", v, errText(err))
			return
		}
		conn, err := d.Open(bothModes[0])
		if err != nil {
			c.Fail("row", "v%d: a driver can not open: %s", v, errText(err))
			return
		}
		conn.Close()
		c.Event("pools in a row", 1)
	}
	for _, x := range stays {
		x.p.Reclaim(x.conn)
		x.p.Close()
	}
	if left := s.WaitReleased(slow); len(left) > 0 && !c.Failed() {
		c.Fail("row", "v%d: %d connections are left when all pools are closed", v, len(left))
	}
	c.Distinct("in a row v%d", v)
}

// poolReturn has waiting callers served by connections returned in one particular way, more often than the pool is large.
func poolReturn(c *core.C, prop string, v, n int, kind string) {
	h := newPoolHist(c, prop, v, n, "timeout=20")
	var mu sync.Mutex
	refuse, raw, lose := false, false, false
	h.s.Fail = func(fc *fake.Conn, m *fake.Msg) *fake.Failure {
		mu.Lock()
		defer mu.Unlock()
		if refuse && (m.Name == "ROLLBACK" || m.Name == "RESET" || m.Query == "ROLLBACK") {
			return &fake.Failure{Code: "Neo.X", Message: "no"}
		}
		return nil
	}
	h.s.Hook = func(fc *fake.Conn, m *fake.Msg, rep []interface{}) ([]interface{}, *fake.Act) {
		mu.Lock()
		defer mu.Unlock()
		if raw && m.Name == "RUN" {
			return nil, &fake.Act{Raw: []byte{0, 2, 0xc7, 0xff, 0, 0}}
		}
		if lose && (m.Name == "ROLLBACK" || m.Query == "ROLLBACK") {
			return nil, &fake.Act{Close: "half", Before: true}
		}
		return rep, nil
	}
	set := func(p *bool, x bool) { mu.Lock(); *p = x; mu.Unlock() }
	var held []*loan
	for i := 0; i < n; i++ {
		l, err := h.borrow(fmt.Sprintf("first %d", i))
		if err != nil || l.dead {
			h.fail("C17 C18", "open error", "borrowing from a new pool failed: %v", err)
			return
		}
		held = append(held, l)
	}
	rounds := n + 3
	for k := 0; k < rounds && !c.Failed(); k++ {
		var next *loan
		got := make(chan struct{})
		var wg sync.WaitGroup
		guard(c, &wg, func() { defer close(got); next, _ = h.borrow(fmt.Sprintf("waiter %d", k)) })
		if k%2 == 0 {
			time.Sleep(3 * time.Millisecond) // the other order matters as well
		}
		l := held[0]
		held = held[1:]
		fc := h.s.Conns()[l.id]
		switch kind {
		case "used":
			who(l.conn, h.tok())
		case "closed":
			l.conn.Close()
		case "killed half", "killed full", "killed rst":
			fc.Kill(kind[7:])
		case "killed noticed":
			fc.Kill("half")
			who(l.conn, h.tok())
		case "transaction open":
			l.conn.Begin()
		case "transaction used", "rollback refused", "rollback lost":
			if tx, err := l.conn.Begin(); err == nil {
				tok := h.tok()
				tx.Query(tok, nil)
				h.mu.Lock()
				h.abandon[tok] = true
				h.mu.Unlock()
			}
			set(&refuse, kind == "rollback refused")
			set(&lose, kind == "rollback lost")
		case "transaction failed":
			if tx, err := l.conn.Begin(); err == nil {
				tx.Query("F "+h.tok(), nil)
			}
		case "failed":
			l.conn.Query("F "+h.tok(), nil)
		case "reset refused":
			set(&refuse, true)
			l.conn.Query("F "+h.tok(), nil)
			set(&refuse, false)
		case "undecodable":
			set(&raw, true)
			l.conn.Query(h.tok(), nil)
			set(&raw, false)
		}
		h.release(l)
		switch kind {
		case "twice":
			h.reclaim(l.conn)
			h.p.Reclaim(l.conn)
		case "twice at once":
			var rw sync.WaitGroup
			for i := 0; i < 2; i++ {
				guard(c, &rw, func() { h.p.Reclaim(l.conn) })
			}
			rw.Wait()
		default:
			h.reclaim(l.conn)
		}
		set(&refuse, false)
		set(&lose, false)
		select {
		case <-got:
		case <-time.After(slow):
			h.fail("C17", "waiter forgotten", "v%d, pool of %d: a caller waiting for a connection did not get one within %v of the return of a connection (%s, number %d)", v, n, slow, kind, k)
			return
		}
		wg.Wait()
		if next == nil || next.dead {
			h.fail("C17 C18", "waiter failed", "v%d, pool of %d: after the return of a connection (%s, number %d) the next borrower got none that works", v, n, kind, k)
			return
		}
		if kind == "later again" {
			h.p.Reclaim(l.conn) // its connection may be lent to next now
			id, err := who(next.conn, h.tok())
			if err != nil || id != next.id {
				h.fail("C17", "taken away", "v%d: a connection stopped working when its earlier borrower returned it once more: %v", v, err)
				return
			}
			var other *loan
			var ow sync.WaitGroup
			guard(c, &ow, func() { other, _ = h.borrow("intruder") })
			if !within(20*time.Millisecond, ow.Wait) {
				h.release(next)
				h.reclaim(next.conn)
				if !within(slow, ow.Wait) {
					h.fail("C17", "waiter forgotten", "v%d, pool of %d: a caller waiting for a connection did not get one within %v (%s)", v, n, slow, kind)
					return
				}
				next = other
			}
			if next == nil {
				return
			}
		}
		c.Event("handovers", 1)
		c.Distinct("v%d n%d return %s round %d", v, n, kind, k)
		held = append(held, next)
	}
	for _, l := range held {
		h.release(l)
		h.reclaim(l.conn)
	}
	h.books()
	if !c.Failed() && h.capacity("returns of connections ("+kind+")") {
		h.shut(0, 0)
	}
}

// poolOdd returns things that were never lent by the pool.
func poolOdd(c *core.C, prop string, v int) {
	n := 1 + c.R.Intn(3)
	h := newPoolHist(c, prop, v, n, "")
	s2 := &fake.Server{Version: v, Run: whoResult, NoLog: true}
	c.Serve(s2)
	other := newPool(c, s2, 2, "")
	for k := 0; k < 4*n && !c.Failed(); k++ {
		l, err := h.borrow("a")
		if err != nil || l.dead {
			h.fail("C17 C18", "open error", "borrowing failed: %v", err)
			return
		}
		var foreign connection.IConnection
		kind := []string{"nil", "own connection", "another pool's", "own, closed", "ours to another"}[c.R.Intn(5)]
		switch kind {
		case "own connection", "own, closed":
			foreign, err = connection.CreateBoltConn(connURL(s2, ""))
			c.Must(err)
			if kind == "own, closed" {
				foreign.Close()
			}
		case "another pool's":
			foreign, err = other.Open(bolt_mode.WriteMode)
			c.Must(err)
		case "ours to another":
			if !within(slow, func() { other.Reclaim(l.conn) }) {
				h.fail("C17", "return blocked", "returning a connection of another pool did not return within %v", slow)
				return
			}
		}
		if kind != "ours to another" && !within(slow, func() { h.p.Reclaim(foreign) }) {
			h.fail("C17", "return blocked", "returning %s did not return within %v", kind, slow)
			return
		}
		if id, err := who(l.conn, h.tok()); err != nil || id != l.id {
			h.fail("C17", "taken away", "a lent connection stopped working when %s was returned: %v", kind, err)
			return
		}
		if kind == "another pool's" {
			other.Reclaim(foreign)
		} else if foreign != nil {
			quietClose(foreign)
		}
		h.release(l)
		h.reclaim(l.conn)
		c.Distinct("v%d n%d returned %s", v, n, kind)
		if !h.capacity("a return of " + kind) {
			return
		}
	}
	// the other pool has its two connections
	a, err1 := other.Open(bolt_mode.WriteMode)
	var b connection.IConnection
	var err2 error
	if !within(slow, func() { b, err2 = other.Open(bolt_mode.WriteMode) }) || err1 != nil || err2 != nil {
		h.fail("C17", "capacity lost", "the other pool lost connections: %v %v", err1, err2)
		return
	}
	ia, ea := who(a, "W x")
	ib, eb := who(b, "W y")
	if ea != nil || eb != nil || ia == ib {
		h.fail("C17", "shared", "the other pool lends connections %d (%v) and %d (%v)", ia, ea, ib, eb)
	}
}

// poolOutage loses every connection and the server with them, then brings the server back.
func poolOutage(c *core.C, prop string, v int) {
	n := 1 + c.R.Intn(4)
	h := newPoolHist(c, prop, v, n, "")
	for round := 0; round < 4 && !c.Failed(); round++ {
		var held []*loan
		lend := 1 + c.R.Intn(n)
		for i := 0; i < lend; i++ {
			l, err := h.borrow("holder")
			if err != nil || l.dead {
				h.fail("C17 C18", "open error", "round %d: borrowing failed: %v", round, err)
				return
			}
			held = append(held, l)
		}
		waiters := 0
		if lend == n {
			waiters = 1 + c.R.Intn(3)
		}
		atomicFault(h, 1)
		h.s.StopListening()
		for _, fc := range h.s.Conns() {
			fc.Kill([]string{"half", "full", "rst"}[c.R.Intn(3)])
		}
		var wg sync.WaitGroup
		for i := 0; i < waiters; i++ {
			guard(c, &wg, func() {
				if l, err := h.borrow("waiter"); err == nil {
					h.release(l)
					h.p.Reclaim(l.conn)
				}
			})
		}
		time.Sleep(2 * time.Millisecond)
		for _, l := range held {
			h.release(l)
			h.reclaim(l.conn)
		}
		if !within(2*slow, wg.Wait) {
			h.fail("C17", "waiter forgotten", "v%d, pool of %d: %d callers are still waiting %v after all lent connections were returned dead and the server refuses new ones", v, n, waiters, 2*slow)
			return
		}
		// calls fail now, at no cost to the capacity
		for i := c.R.Intn(2 * n); i >= 0; i-- {
			var conn connection.IConnection
			var err error
			if !within(slow, func() { conn, err = h.p.Open(bolt_mode.WriteMode) }) {
				h.fail("C17", "open blocked", "v%d, pool of %d: Open blocks although nothing is lent and the server refuses connections", v, n)
				return
			}
			if err == nil || conn != nil {
				h.fail("C18", "dead lent", "v%d: Open returned %v, %v while the server is gone", v, conn, err)
				return
			}
		}
		c.Must(h.s.Resume())
		atomicFault(h, -1)
		c.Distinct("v%d n%d outage with %d lent and %d waiting", v, n, lend, waiters)
		if !h.capacity("an outage of the server") {
			return
		}
	}
	h.shut(0, 0)
}

func atomicFault(h *poolHist, d int) {
	if d > 0 {
		h.faultStart()
	} else {
		h.faultEnd()
	}
}

// poolIdleKilled checks that dead idle connections are replaced unnoticed.
func poolIdleKilled(c *core.C, v, n int, mode string) {
	bad := 0
	for try := 0; try < 3; try++ {
		h := newPoolHist(c, "C18", v, n, "")
		for round := 0; round < n+3; round++ {
			var ls []*loan
			for i := 0; i < n; i++ {
				l, err := h.borrow("user")
				if err != nil {
					c.Fail("open error", "v%d: Open failed when idle connections had been closed by the server (%s): %s", v, mode, errText(err))
					return
				}
				if l.dead {
					bad++
				}
				ls = append(ls, l)
			}
			for _, l := range ls {
				h.release(l)
				h.reclaim(l.conn)
			}
			for _, fc := range h.s.Conns() {
				if c.R.Intn(3) > 0 || round == 0 {
					fc.Kill(mode)
				}
			}
			c.Distinct("v%d n%d idle killed %s round %d", v, n, mode, round)
			c.Event("idle connections killed", int64(n))
		}
		if bad >= 3 {
			c.Fail("dead lent", "v%d, pool of %d: %d connections the server had closed (%s) while they were idle were lent", v, n, bad, mode)
			return
		}
		if !h.capacity("the server closing idle connections") {
			return
		}
	}
}

// poolSettings checks that chunk size and timeout set by a borrower do not outlive the loan.
func poolSettings(c *core.C, v int) {
	h := newPoolHist(c, "C18", v, 1, "timeout=30&chunk_size=200")
	delay := time.Duration(0)
	var mu sync.Mutex
	h.s.Hook = func(fc *fake.Conn, m *fake.Msg, rep []interface{}) ([]interface{}, *fake.Act) {
		mu.Lock()
		d := delay
		mu.Unlock()
		if m.Name == "RUN" {
			time.Sleep(d)
		}
		return rep, nil
	}
	for round := 0; round < 6; round++ {
		l, err := h.borrow("a")
		if err != nil || l.dead {
			c.Fail("open error", "borrowing failed: %v", err)
			return
		}
		switch round % 3 {
		case 0:
			l.conn.SetChunkSize(7)
		case 1:
			l.conn.SetTimeout(20 * time.Millisecond)
		case 2:
			l.conn.SetChunkSize(40000)
			l.conn.SetTimeout(20 * time.Millisecond)
		}
		if round > 2 {
			l.conn.Begin()
		}
		h.release(l)
		h.reclaim(l.conn)
		mu.Lock()
		delay = 200 * time.Millisecond
		mu.Unlock()
		conn, err := h.p.Open(bolt_mode.WriteMode)
		if err != nil {
			c.Fail("open error", "borrowing failed: %s", errText(err))
			return
		}
		tok := "W " + strings.Repeat("x", 1000)
		_, err = who(conn, tok)
		if err != nil {
			c.Fail("settings kept", "v%d: a query answered after 200 ms failed on a connection whose earlier borrower had set a timeout of 20 ms: %s", v, errText(err))
			return
		}
		mu.Lock()
		delay = 0
		mu.Unlock()
		for _, m := range h.s.Conns()[l.id].Msgs() {
			if m.Query == tok {
				for i, k := range m.Chunks {
					if k > 200 || k < 200 && i < len(m.Chunks)-1 {
						c.Fail("settings kept", "v%d: a borrower's message was sent in chunks of %v although the configured chunk size is 200 (an earlier borrower had set another)", v, m.Chunks)
						return
					}
				}
			}
		}
		h.p.Reclaim(conn)
		c.Distinct("v%d settings %d", v, round)
	}
}

// poolCloseLoad closes a pool while borrowers come and go.
func poolCloseLoad(c *core.C, prop string, v int) {
	n := 1 + c.R.Intn(4)
	h := newPoolHist(c, prop, v, n, "")
	var wg sync.WaitGroup
	stop := make(chan struct{})
	for i := 0; i < n+2; i++ {
		r := c.R.Int63()
		guard(c, &wg, func() {
			rr := newRand(r)
			after := 0
			for after < 3 {
				select {
				case <-stop:
					after++
				default:
				}
				conn, err := h.p.Open(bolt_mode.WriteMode)
				if err != nil {
					if after > 1 && conn != nil {
						h.fail("C19", "late open", "Open after Close returned a connection and %v", err)
					}
					time.Sleep(time.Duration(rr.Intn(300)) * time.Microsecond)
					continue
				}
				if after > 0 {
					h.fail("C19", "late open", "Open after Close succeeded")
				}
				switch rr.Intn(4) {
				case 0:
					conn.Begin()
				case 1:
					conn.Close()
				case 2:
					who(conn, h.tok())
				}
				h.p.Reclaim(conn)
			}
		})
	}
	time.Sleep(time.Duration(c.R.Intn(12)) * time.Millisecond)
	var cw sync.WaitGroup
	var mu sync.Mutex
	ok, k := 0, 1+c.R.Intn(3)
	for i := 0; i < k; i++ {
		guard(c, &cw, func() {
			if h.p.Close() == nil {
				mu.Lock()
				ok++
				mu.Unlock()
			}
		})
	}
	if !within(slow, cw.Wait) {
		h.fail("C19", "close blocked", "v%d: Close of a pool in use did not return within %v", v, slow)
		return
	}
	close(stop)
	if !within(slow, wg.Wait) {
		h.fail("C19", "open blocked", "v%d: Open or Reclaim did not return within %v of the close of the pool", v, slow)
		return
	}
	if ok != 1 {
		h.fail("C19", "close result", "v%d: %d of %d calls of Close succeeded", v, ok, k)
	}
	if hd := h.s.WaitReleased(slow); len(hd) > 0 {
		h.fail("C19", "leak", "v%d: %d connections are still held by the driver after the pool was closed and everything returned", v, len(hd))
	}
	c.Event("pools closed under load", 1)
	c.Distinct("v%d n%d closed under load by %d", v, n, k)
}

// poolCloseSlow closes a pool whose connections are being opened by slow servers.
func poolCloseSlow(c *core.C, prop string, v int) {
	h := newPoolHist(c, prop, v, 2, "timeout=5")
	gate := make(chan struct{})
	h.s.Hook = func(fc *fake.Conn, m *fake.Msg, rep []interface{}) ([]interface{}, *fake.Act) {
		if m.Name == "INIT" || m.Name == "HELLO" {
			<-gate
		}
		return rep, nil
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	got := 0
	for i := 0; i < 4; i++ {
		guard(c, &wg, func() {
			conn, err := h.p.Open(bolt_mode.WriteMode)
			if err == nil {
				mu.Lock()
				got++
				mu.Unlock()
				h.p.Reclaim(conn)
			}
		})
	}
	time.Sleep(30 * time.Millisecond)
	if !within(slow, func() { h.p.Close() }) {
		h.fail("C19", "close blocked", "v%d: Close waits for callers that are opening connections", v)
	}
	time.Sleep(5 * time.Millisecond)
	close(gate)
	if !within(slow, wg.Wait) {
		h.fail("C19", "open blocked", "v%d: Open did not return within %v of the close of the pool", v, slow)
		return
	}
	if got > 0 {
		h.fail("C19", "waiter served", "v%d: %d calls of Open that were under way when the pool was closed returned connections afterwards", v, got)
	}
	if hd := h.s.WaitReleased(slow); len(hd) > 0 {
		h.fail("C19", "leak", "v%d: %d connections opened while the pool was being closed are still held", v, len(hd))
	}
	c.Distinct("v%d closed while opening", v)
}

// poolLeft counts sockets and goroutines after everything was closed.
func poolLeft(c *core.C, prop string) {
	base := sockets()
	for v := 1; v <= 4; v++ {
		for _, mode := range []string{"half", "full", "rst", ""} {
			s := &fake.Server{Version: v, Run: whoResult, NoLog: true}
			s.Start()
			client, err := goBolt.NewClient(goBolt.WithConnectionString(connURL(s, "")))
			c.Must(err)
			p, err := client.NewDriverPool(3)
			c.Must(err)
			var conns []connection.IConnection
			for i := 0; i < 3; i++ {
				conn, err := p.Open(bolt_mode.WriteMode)
				if err != nil {
					c.Fail("open error", "borrowing failed: %s", errText(err))
					return
				}
				conns = append(conns, conn)
			}
			if mode != "" {
				s.Conns()[0].Kill(mode)
				s.Conns()[1].Kill(mode)
			}
			p.Reclaim(conns[0])
			p.Reclaim(conns[2])
			p.Close()
			p.Reclaim(conns[1])
			s.Stop()
			if k := settles(base); k > base && (prop == "C19" || prop == "C17") {
				c.Fail("socket left", "v%d %s: %d sockets are open after a pool was closed and everything returned", v, mode, k-base)
				return
			}
			c.Distinct("sockets v%d %s", v, mode)
		}
	}
	end := time.Now().Add(slow)
	for {
		left := libraryGoroutines()
		if len(left) == 0 {
			break
		}
		if time.Now().After(end) {
			c.Fail("goroutine left", "%d goroutines of the library are left after all pools were closed:\n%s", len(left), trunc(left[0]))
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	c.Event("goroutine scans", 1)
}

// libraryGoroutines returns the stacks of goroutines that are in the library.
func libraryGoroutines() []string {
	buf := make([]byte, 1<<22)
	buf = buf[:runtime.Stack(buf, true)]
	var r []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if core.InLibrary(g) {
			r = append(r, g)
		}
	}
	return r
}
