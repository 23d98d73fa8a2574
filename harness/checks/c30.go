package checks

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"

	"verif/core"
	"verif/fake"
)

func init() {
	core.Register(&core.Check{ID: "C30", Keep: true, MinEvals: 20, CaseMax: 240 * time.Second,
		Rule: "Borrowers of a healthy server or cluster query, fail statements, finish and abandon transactions, change settings and return connections once, twice and again later, one after another and at once, with handshakes that take up to 0.4 s and rests of 1-12 s; the servers count connections: a driver pool may open no more than its size in its life, a routing pool whose cluster does not change exactly its size. Borrowers hold connections, some within a transaction, while others close or lose theirs, idle ones are killed, stale and foreign ones are returned, the cluster's roles change, overviews fail, and the pool is closed or stopped: after every step each held connection must answer, on the server connection it was, within its transaction, which must commit with all of its statements. Distinct and non-trivial: distinct (kind of pool, version, size, what happened).",
		Run: func(t *core.T) {
			jobs := marathons(t, "pool", "routed")
			for i := 0; i < t.Pick(8, 32); i++ {
				i := i
				d := []time.Duration{12500, time.Duration(t.Pick(2500, 20000)), 4000, time.Duration(t.Pick(2500, 50000))}[i/2%4] * time.Millisecond
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("idle/%d", i), Fn: func(c *core.C) { c30Idle(c, 1+i%4, 2*d) }})
				if i%2 == 0 {
					jobs = append(jobs, core.Job{Name: fmt.Sprintf("routed idle/%d", i), Fn: func(c *core.C) { c30RoutedReuse(c, 3+i/2%2, d) }})
				}
			}
			for i := 0; i < t.Pick(48, 500); i++ {
				i := i
				v := 1 + i%4
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("reuse/v%d/%d", v, i), Fn: func(c *core.C) { c30Reuse(c, v, i%3 == 0) }})
			}
			for i := 0; i < t.Pick(32, 400); i++ {
				v := 1 + i%4
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("lent/v%d/%d", v, i), Fn: func(c *core.C) { c30Lent(c, v) }})
			}
			for v := 3; v <= 4; v++ {
				v := v
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("longer timeout/v%d", v), Fn: func(c *core.C) { c30ShortRouted(c, v) }})
			}
			for i := 0; i < t.Pick(16, 200); i++ {
				v := 3 + i%2
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("routed reuse/v%d/%d", v, i), Fn: func(c *core.C) { c30RoutedReuse(c, v, 0) }})
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("routed lent/v%d/%d", v, i), Fn: func(c *core.C) { c30RoutedLent(c, v) }})
			}
			for i, n := range tideSizes(t) {
				n, v := n, 1+i%4
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("tide/v%d/n%d", v, n), Fn: func(c *core.C) { poolTide(c, "C30", v, n) }})
				if n > 1 {
					jobs = append(jobs, core.Job{Name: fmt.Sprintf("routed tide/v%d/n%d", v, n), Fn: func(c *core.C) { c30RoutedTide(c, v, n) }})
				}
			}
			for v := 1; v <= 4; v++ {
				v := v
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("endurance/v%d", v), Fn: func(c *core.C) { c30Endurance(c, v) }})
			}
			t.Parallel(18, jobs)
		}})
}

// kept is a connection somebody holds, with what must stay true of it.
type kept struct {
	conn connection.IConnection
	mode bolt_mode.AccessMode
	id   int
	tx   connection.ITransaction
	toks []string // statements of its transaction
}

type c30tok struct{ n int64 }

func (t *c30tok) next() string { return fmt.Sprintf("W %d", atomic.AddInt64(&t.n, 1)) }

// alive checks that k answers on the connection it was lent on.
func (k *kept) alive(tok string) error {
	var rows [][]interface{}
	var err error
	if k.tx != nil {
		rows, _, err = k.tx.Query(tok, nil)
		k.toks = append(k.toks, tok)
	} else {
		rows, _, err = k.conn.Query(tok, nil)
	}
	if err != nil {
		return fmt.Errorf("a query failed with %s", errText(err))
	}
	if len(rows) != 1 || len(rows[0]) != 2 || rows[0][1] != tok {
		return fmt.Errorf("%q returned %s", tok, short(rows))
	}
	if id, _ := rows[0][0].(int64); int(id) != k.id {
		return fmt.Errorf("it is connection %d now and was %d", id, k.id)
	}
	return nil
}

// begin opens a transaction with a first statement.
func (k *kept) begin(tok string) error {
	tx, err := k.conn.Begin()
	if err != nil {
		return fmt.Errorf("Begin failed with %s", errText(err))
	}
	k.tx = tx
	return k.alive(tok)
}

// end ends the transaction, and checks with the server's book that all of its statements were committed in it.
func (k *kept) end(r *rand.Rand, servers []*fake.Server) (string, error) {
	tx, toks := k.tx, k.toks
	k.tx, k.toks = nil, nil
	how, err := "commit", error(nil)
	if r.Intn(2) == 0 {
		how, err = "rollback", tx.Rollback()
	} else {
		err = tx.Commit()
	}
	if err != nil {
		return how, fmt.Errorf("%s failed with %s", how, errText(err))
	}
	in := map[string]bool{}
	for _, t := range toks {
		in[t] = true
	}
	seen, first := 0, -1
	for _, s := range servers {
		for _, st := range s.Stmts() {
			if !in[st.Query] {
				continue
			}
			if st.Tx == nil {
				return how, fmt.Errorf("statement %q ran outside of its transaction", st.Query)
			}
			if seen++; first < 0 {
				first = st.Tx.ID
			}
			if st.Tx.ID != first {
				return how, fmt.Errorf("the statements ran in different transactions")
			}
			if e := endOf(s, first); e != how {
				return how, fmt.Errorf("after %s the server's transaction ended as %q", how, e)
			}
		}
	}
	if seen != len(toks) {
		return how, fmt.Errorf("%d of %d statements reached the server", seen, len(toks))
	}
	return how, nil
}

// mild does something that leaves a connection in working order.
func mild(r *rand.Rand, k *kept, t *c30tok) (string, error) {
	switch r.Intn(10) {
	case 0:
		k.conn.Query("F "+t.next(), nil)
		return "fail", nil
	case 1:
		k.conn.Query("P "+t.next(), nil)
		return "fail late", nil
	case 2, 3:
		tx, err := k.conn.Begin()
		if err != nil {
			return "begin", err
		}
		if r.Intn(4) > 0 {
			if _, _, err = tx.Query(t.next(), nil); err != nil {
				return "tx query", err
			}
		}
		if r.Intn(2) == 0 {
			return "commit", tx.Commit()
		}
		return "rollback", tx.Rollback()
	case 4:
		tx, err := k.conn.Begin()
		if err != nil {
			return "begin", err
		}
		if r.Intn(2) == 0 {
			_, _, err = tx.Query(t.next(), nil)
		}
		return "abandon", err
	case 5:
		k.conn.SetTimeout(time.Duration(5+r.Intn(60)) * time.Second)
		k.conn.SetChunkSize(uint16(1 + r.Intn(2000)))
		return "settings", nil
	case 6:
		return "nothing", nil
	case 7:
		_, err := k.conn.Exec(t.next(), nil)
		return "exec", err
	}
	return "query", k.alive(t.next())
}

// slowHello makes handshakes of a server slow.
func slowHello(s *fake.Server, max time.Duration, seed int64) {
	r, mu := newRand(seed), sync.Mutex{}
	next := s.Hook
	s.Hook = func(fc *fake.Conn, m *fake.Msg, rep []interface{}) ([]interface{}, *fake.Act) {
		if m.Name == "INIT" || m.Name == "HELLO" {
			mu.Lock()
			d := time.Duration(r.Int63n(int64(max) + 1))
			mu.Unlock()
			time.Sleep(d)
		}
		if next != nil {
			return next(fc, m, rep)
		}
		return rep, nil
	}
}

// c30Reuse has healthy borrowers at a driver pool, which may open n connections.
func c30Reuse(c *core.C, v int, slowly bool) {
	n := poolSize(c.R)
	s := &fake.Server{Version: v, Run: whoResult, NoLog: true}
	delay := time.Duration(0)
	if slowly {
		delay = []time.Duration{20, 150, 400}[c.R.Intn(3)] * time.Millisecond
		slowHello(s, delay, c.R.Int63())
	}
	c.Serve(s)
	p := newPool(c, s, n, "timeout=20")
	t := &c30tok{}
	g := 1
	if c.R.Intn(3) > 0 {
		g = 1 + c.R.Intn(2*n)
	}
	label := fmt.Sprintf("v%d, pool of %d, %d borrowers, handshakes up to %v", v, n, g, delay)
	var wg sync.WaitGroup
	rounds := 6*n + c.R.Intn(20)
	for i := 0; i < g; i++ {
		r := newRand(c.R.Int63())
		most := n / g // so that borrowers with several connections do not wait for each other for ever
		if most < 1 {
			most = 1
		}
		guard(c, &wg, func() {
			var held []*kept
			var stale []connection.IConnection
			for k := 0; k < rounds/g+4 && !c.Failed(); k++ {
				for len(held) == 0 || len(held) < most && r.Intn(2) == 0 {
					conn, err := p.Open(bolt_mode.AccessMode(r.Intn(2)))
					if err != nil {
						c.Fail("open error", "%s: opening a connection failed: %s", label, errText(err))
						return
					}
					c.Event("borrows", 1)
					h := &kept{conn: conn}
					if h.id, err = who(conn, t.next()); err != nil {
						c.Fail("not working", "%s: a borrowed connection does not work: %s", label, errText(err))
						return
					}
					held = append(held, h)
				}
				i := r.Intn(len(held))
				what := "nothing"
				for j := r.Intn(3); j >= 0; j-- {
					var err error
					if what, err = mild(r, held[i], t); err != nil {
						c.Fail("disturbed", "%s: %s on a lent connection failed: %s", label, what, errText(err))
						return
					}
					if what == "abandon" {
						break
					}
				}
				if what != "abandon" && r.Intn(4) == 0 {
					continue
				}
				if err := p.Reclaim(held[i].conn); err != nil {
					c.Fail("reclaim error", "%s: returning a connection failed: %s", label, errText(err))
					return
				}
				if r.Intn(4) == 0 {
					p.Reclaim(held[i].conn)
					stale = append(stale, held[i].conn)
				}
				held = append(held[:i], held[i+1:]...)
				if len(stale) > 0 && r.Intn(4) == 0 {
					p.Reclaim(stale[r.Intn(len(stale))])
				}
				if k := s.NConns(); k > n {
					c.Fail("opened", "%s: %d connections were opened although none broke (last use: %s)", label, k, what)
					return
				}
				c.Distinct("reuse v%d n%d g%d %s", v, n, g, what)
			}
			for _, h := range held {
				if err := h.alive(t.next()); err != nil {
					c.Fail("disturbed", "%s: a lent connection: %v", label, err)
					return
				}
				p.Reclaim(h.conn)
			}
		})
	}
	if !within(60*time.Second, wg.Wait) {
		c.Fail("stuck", "%s: borrowers made no progress for a minute", label)
		c.Abort()
	}
	if k := s.NConns(); k > n {
		c.Fail("opened", "%s: %d connections were opened although none broke", label, k)
	}
	c.Event("connections opened", int64(s.NConns()))
	c.Must(p.Close())
}

// c30Lent holds connections of a driver pool while things happen around them, at last the close of the pool.
func c30Lent(c *core.C, v int) {
	n := 1 + c.R.Intn(6)
	s := &fake.Server{Version: v, Run: whoResult, NoLog: true}
	c.Serve(s)
	p := newPool(c, s, n, "timeout=20")
	o := newPool(c, s, 2, "timeout=20")
	t := &c30tok{}
	label := fmt.Sprintf("v%d, pool of %d", v, n)
	held := map[int]*kept{}
	var stale []connection.IConnection
	open := func() *kept {
		conn, err := p.Open(bolt_mode.WriteMode)
		if err != nil {
			c.Fail("open error", "%s: opening a connection failed: %s", label, errText(err))
			return nil
		}
		k := &kept{conn: conn}
		if k.id, err = who(conn, t.next()); err != nil {
			c.Fail("not working", "%s: a borrowed connection does not work: %s", label, errText(err))
			return nil
		}
		return k
	}
	all := func(after string) bool {
		for _, k := range held {
			if err := k.alive(t.next()); err != nil {
				c.Fail("disturbed", "%s: a lent connection after %s: %v", label, after, err)
				return false
			}
			c.Event("lent connections asked", 1)
		}
		c.Distinct("lent v%d n%d %s", v, n, after)
		return true
	}
	want := 1 + c.R.Intn(n)
	for len(held) < want {
		k := open()
		if k == nil {
			return
		}
		if c.R.Intn(2) == 0 {
			if err := k.begin(t.next()); err != nil {
				c.Fail("disturbed", "%s: a fresh loan: %v", label, err)
				return
			}
		}
		held[k.id] = k
	}
	for step := 0; step < 12 && !c.Failed(); step++ {
		what := []string{"others", "other closes", "other lost", "idle killed", "stale return", "foreign return", "wrong pool", "end", "renew", "stale return"}[c.R.Intn(10)]
		switch what {
		case "renew":
			for id, k := range held {
				if k.tx != nil {
					continue
				}
				delete(held, id)
				p.Reclaim(k.conn)
				stale = append(stale, k.conn)
				nk := open()
				if nk == nil {
					return
				}
				if c.R.Intn(3) > 0 {
					if err := nk.begin(t.next()); err != nil {
						c.Fail("disturbed", "%s: a fresh loan: %v", label, err)
						return
					}
				}
				held[nk.id] = nk
				break
			}
		case "others", "other closes", "other lost":
			if len(held) == n {
				continue
			}
			k := open()
			if k == nil {
				return
			}
			switch what {
			case "others":
				if w, err := mild(c.R, k, t); err != nil {
					c.Fail("disturbed", "%s: %s on a lent connection failed: %s", label, w, errText(err))
					return
				}
			case "other closes":
				k.conn.Close()
			case "other lost":
				s.Conns()[k.id].Kill([]string{"half", "full", "rst"}[c.R.Intn(3)])
			}
			p.Reclaim(k.conn)
			stale = append(stale, k.conn)
		case "idle killed":
			for _, fc := range s.Conns() {
				if held[fc.ID] == nil && !fc.IsPeerClosed() {
					fc.Kill([]string{"half", "full", "rst", "farewell"}[c.R.Intn(4)])
				}
			}
			o.Close()
			o = newPool(c, s, 2, "timeout=20")
		case "stale return":
			if len(stale) == 0 {
				continue
			}
			for _, x := range stale {
				p.Reclaim(x)
			}
		case "foreign return":
			f, err := connection.CreateBoltConn(connURL(s, "timeout=20"))
			c.Must(err)
			p.Reclaim(f)
			quietClose(f)
		case "wrong pool":
			for _, k := range held {
				o.Reclaim(k.conn)
				break
			}
		case "end":
			for _, k := range held {
				if k.tx == nil {
					continue
				}
				if how, err := k.end(c.R, []*fake.Server{s}); err != nil {
					c.Fail("disturbed transaction", "%s: the transaction of a lent connection at %s: %v", label, how, err)
					return
				}
				break
			}
		}
		if !all(what) {
			return
		}
	}
	for i := c.R.Intn(2); i >= 0; i-- {
		p.Close()
	}
	if c.R.Intn(2) == 0 {
		time.Sleep(time.Duration(c.R.Intn(20)) * time.Millisecond)
	}
	if !all("close") {
		return
	}
	for id, k := range held {
		if k.tx != nil {
			if how, err := k.end(c.R, []*fake.Server{s}); err != nil {
				c.Fail("disturbed transaction", "%s: the transaction of a lent connection at %s after the pool was closed: %v", label, how, err)
				return
			}
		}
		delete(held, id)
		p.Reclaim(k.conn)
		if !all("close and a return") {
			return
		}
	}
	o.Close()
}

// c30Endurance lends and takes back the few connections of a pool many times.
func c30Endurance(c *core.C, v int) {
	n := v % 3
	t := &c30tok{}
	var open func() (connection.IConnection, error)
	var back func(connection.IConnection) error
	var count func() int
	label := ""
	if n > 0 {
		s := &fake.Server{Version: v, Run: whoResult, NoLog: true}
		c.Serve(s)
		p := newPool(c, s, n, "timeout=20")
		open = func() (connection.IConnection, error) { return p.Open(bolt_mode.WriteMode) }
		back, count = p.Reclaim, s.NConns
		label = fmt.Sprintf("v%d, pool of %d", v, n)
	} else {
		n = 2
		cl := newCluster(c, v, 2, false, "LEADER", "FOLLOWER")
		h := newRouted(c, "C30", cl, n, time.Hour, "")
		c.Must(h.p.Start())
		open, back = h.p.BorrowRWConnection, h.p.Reclaim
		count = func() int {
			k := 0
			for _, s := range cl.members {
				for _, fc := range s.Conns() {
					if !isOverview(fc) {
						k++
					}
				}
			}
			return k
		}
		label = fmt.Sprintf("v%d, routing pool of %d", v, n)
	}
	for i := 0; i < c.T.Pick(1100, 20000); i++ {
		conn, err := open()
		if err != nil {
			c.Fail("open error", "%s: borrowing number %d failed: %s", label, i, errText(err))
			return
		}
		if _, err = who(conn, t.next()); err != nil {
			c.Fail("not working", "%s: connection does not work when lent for the %dth time: %s", label, i, errText(err))
			return
		}
		if err = back(conn); err != nil {
			c.Fail("reclaim error", "%s: return number %d failed: %s", label, i, errText(err))
			return
		}
		c.Event("borrows", 1)
	}
	if k := count(); k > n {
		c.Fail("opened", "%s: %d connections were opened although none broke", label, k)
	}
	c.Distinct("endurance %s", label)
}

// tideSizes are small sizes, and what may be somebody's limit with its neighbours.
func tideSizes(t *core.T) []int {
	sizes := []int{1, 2, 3, 5, 6, 9, 11, 17, 26, 33, 51, 65}
	if t.Thorough {
		sizes = append(sizes, 4, 7, 8, 10, 15, 16, 20, 21, 31, 32, 40, 50, 64, 99, 100, 101, 128, 129, 200, 257)
	}
	return append(sizes, 1+t.Rand("tide").Intn(70))
}

// poolTide lends all connections of a driver pool and takes them back, over and over; the server closes none.
func poolTide(c *core.C, prop string, v, n int) {
	s := &fake.Server{Version: v, Run: whoResult, NoLog: true}
	c.Serve(s)
	p := newPool(c, s, n, "timeout=20")
	t := &c30tok{}
	label := fmt.Sprintf("v%d, pool of %d", v, n)
	for round := 0; round < 4 && !c.Failed(); round++ {
		var held []connection.IConnection
		ids := map[int]bool{}
		for i := 0; i < n; i++ {
			conn, err := p.Open(bolt_mode.AccessMode(i % 2))
			if err != nil {
				c.Fail("open error", "%s, %d lent, round %d: Open failed with %s", label, i, round, errText(err))
				return
			}
			id, err := who(conn, t.next())
			if err != nil {
				c.Fail("not working", "%s, round %d: a borrowed connection does not work: %s", label, round, errText(err))
				return
			}
			if ids[id] && prop == "C17" {
				c.Fail("shared", "%s, round %d: a connection that is lent was lent again", label, round)
			}
			ids[id] = true
			held = append(held, conn)
			c.Event("borrows", 1)
		}
		if prop == "C17" {
			// one more has to wait until a connection is returned
			got := make(chan connection.IConnection, 1)
			go func() {
				conn, err := p.Open(bolt_mode.WriteMode)
				if err != nil {
					conn = nil
				}
				got <- conn
			}()
			select {
			case <-got:
				c.Fail("too many", "%s, round %d: a connection was lent while all were lent, or Open gave up", label, round)
				return
			case <-time.After(250 * time.Millisecond):
			}
			i := c.R.Intn(n)
			p.Reclaim(held[i])
			select {
			case conn := <-got:
				if conn == nil {
					c.Fail("waiting error", "%s, round %d: waiting for a connection ended with an error", label, round)
					return
				}
				held[i] = conn
			case <-time.After(20 * time.Second):
				c.Fail("not served", "%s, round %d: nobody waiting got the returned connection", label, round)
				return
			}
		}
		switch round {
		case 1:
			c.R.Shuffle(n, func(i, j int) { held[i], held[j] = held[j], held[i] })
		case 2:
			for i := 0; i < n/2; i++ {
				held[i], held[n-1-i] = held[n-1-i], held[i]
			}
		}
		var wg sync.WaitGroup
		for _, conn := range held {
			conn := conn
			back := func() {
				if err := p.Reclaim(conn); err != nil {
					c.Fail("reclaim error", "%s: returning a connection failed: %s", label, errText(err))
				}
			}
			if round == 3 {
				guard(c, &wg, back)
			} else {
				back()
			}
		}
		if !within(60*time.Second, wg.Wait) {
			c.Fail("stuck", "%s: connections could not be returned for a minute", label)
			c.Abort()
		}
		if k := s.NConns(); k > n {
			c.Fail("opened", "%s: %d connections were opened by round %d of lending all and taking them back although none broke", label, k, round)
			return
		}
		c.Distinct("tide v%d n%d round %d", v, n, round)
	}
	c.Must(p.Close())
}

// c30RoutedTide does the same with a routing pool.
func c30RoutedTide(c *core.C, v, n int) {
	m := 2 + c.R.Intn(3)
	roles := randRoles(c.R, m, 1)
	cl := newCluster(c, v, m, false, roles...)
	interval := []time.Duration{20 * time.Millisecond, time.Hour}[c.R.Intn(2)]
	h := newRouted(c, "C30", cl, n, interval, "")
	label := fmt.Sprintf("v%d, routing pool of %d, %d members, refresh every %v", v, n, m, interval)
	if err := h.p.Start(); err != nil {
		c.Fail("start", "%s: starting on healthy members failed: %s", label, errText(err))
		return
	}
	for round := 0; round < 3; round++ {
		var held []*kept
		for _, mode := range bothModes {
			for i := 0; i < h.share(mode); i++ {
				k, err := h.keepOpen(mode)
				if err != nil {
					c.Fail("borrow error", "%s: borrowing number %d for %s failed: %s", label, i, modeName(mode), errText(err))
					return
				}
				held = append(held, k)
			}
		}
		c.R.Shuffle(len(held), func(i, j int) { held[i], held[j] = held[j], held[i] })
		for _, k := range held {
			if err := h.p.Reclaim(k.conn); err != nil {
				c.Fail("reclaim error", "%s: returning a connection failed: %s", label, errText(err))
				return
			}
		}
		c.Distinct("routed tide v%d n%d round %d", v, n, round)
	}
	if interval < time.Hour && !cl.refreshed(2) {
		c.Fail("no refresh", "%s: the overview is not asked for any more", label)
		return
	}
	h.p.Stop()
	k := 0
	for _, s := range cl.members {
		s.WaitReleased(slow)
		for _, fc := range s.Conns() {
			if !isOverview(fc) {
				k++
			}
		}
	}
	if k != n {
		c.Fail("opened", "%s: %d connections were opened to members although none broke and nothing changed", label, k)
	}
}

// poolSize is mostly small.
func poolSize(r *rand.Rand) int {
	switch r.Intn(12) {
	case 0:
		return 33 + r.Intn(80)
	case 1, 2:
		return 9 + r.Intn(16)
	}
	return 1 + r.Intn(8)
}

// c30Idle leaves a pool with idle and lent connections alone for a while.
func c30Idle(c *core.C, v int, d time.Duration) {
	n := poolSize(c.R)
	s := &fake.Server{Version: v, Run: whoResult, NoLog: true}
	c.Serve(s)
	p := newPool(c, s, n, "timeout=20")
	t := &c30tok{}
	label := fmt.Sprintf("v%d, pool of %d left alone for %v", v, n, d)
	rest := 0
	for round := 0; round < 3 && !c.Failed(); round++ {
		var held []*kept
		for i := 0; i < n; i++ {
			conn, err := p.Open(bolt_mode.WriteMode)
			if err != nil {
				c.Fail("open error", "%s: opening a connection failed: %s", label, errText(err))
				return
			}
			k := &kept{conn: conn}
			if k.id, err = who(conn, t.next()); err != nil {
				c.Fail("not working", "%s: a borrowed connection does not work: %s", label, errText(err))
				return
			}
			if c.R.Intn(2) == 0 {
				if err = k.begin(t.next()); err != nil {
					c.Fail("disturbed", "%s: a fresh loan: %v", label, err)
					return
				}
			}
			held = append(held, k)
		}
		if k := s.NConns(); k > n {
			c.Fail("opened", "%s: %d connections were opened although none broke", label, k)
			return
		}
		rest = c.R.Intn(n + 1)
		for _, k := range held[rest:] {
			p.Reclaim(k.conn)
		}
		if round < 2 {
			time.Sleep(d / 2)
		}
		for _, k := range held[:rest] {
			if err := k.alive(t.next()); err != nil {
				c.Fail("disturbed", "%s: a lent connection: %v", label, err)
				return
			}
			if k.tx != nil {
				if how, err := k.end(c.R, []*fake.Server{s}); err != nil {
					c.Fail("disturbed transaction", "%s: the transaction of a lent connection at %s: %v", label, how, err)
					return
				}
			}
			p.Reclaim(k.conn)
		}
		c.Distinct("idle v%d n%d rest%d", v, n, rest)
	}
	p.Close()
}

// keepOpen borrows from a routing pool.
func (h *routed) keepOpen(mode bolt_mode.AccessMode) (*kept, error) {
	conn, err := h.open(mode)
	if err != nil {
		return nil, err
	}
	h.c.Event("borrows", 1)
	k := &kept{conn: conn, mode: mode}
	k.id, err = who(conn, h.tok())
	return k, err
}

// c30RoutedReuse has healthy borrowers at a routing pool whose cluster stays as it is.
func c30RoutedReuse(c *core.C, v int, rest time.Duration) {
	m := 2 + c.R.Intn(4)
	roles := randRoles(c.R, m, 1+c.R.Intn(2))
	cl := newCluster(c, v, m, c.R.Intn(2) == 0, roles...)
	n := 1 + poolSize(c.R)
	interval := []time.Duration{2 * time.Millisecond, 10 * time.Millisecond, time.Hour}[c.R.Intn(3)]
	h := newRouted(c, "C30", cl, n, interval, "")
	label := fmt.Sprintf("v%d, routing pool of %d, %d members, refresh every %v", v, n, m, interval)
	if err := h.p.Start(); err != nil {
		c.Fail("start", "%s: starting on healthy members failed: %s", label, errText(err))
		return
	}
	t := &c30tok{}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		r := newRand(c.R.Int63())
		mode := bolt_mode.WriteMode
		if i < n/2 {
			mode = bolt_mode.ReadMode
		}
		rounds := 5 + c.R.Intn(20)
		if rest > 0 {
			rounds = 3
		}
		guard(c, &wg, func() { // as many as there are connections, so that none has to wait
			var stale connection.IConnection
			for j := 0; j < rounds && !c.Failed(); j++ {
				k, err := h.keepOpen(mode)
				if err != nil {
					c.Fail("borrow error", "%s: borrowing for %s failed with at most its share lent: %s", label, modeName(mode), errText(err))
					return
				}
				what := ""
				for x := r.Intn(3); x >= 0 && what != "abandon"; x-- {
					if what, err = mild(r, k, t); err != nil {
						c.Fail("disturbed", "%s: %s on a lent connection failed: %s", label, what, errText(err))
						return
					}
				}
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(8)) * time.Millisecond)
				}
				if what != "abandon" {
					if err := k.alive(t.next()); err != nil {
						c.Fail("disturbed", "%s: a lent connection: %v", label, err)
						return
					}
				}
				if err := h.p.Reclaim(k.conn); err != nil {
					c.Fail("reclaim error", "%s: returning a connection failed: %s", label, errText(err))
					return
				}
				if stale != nil && r.Intn(3) == 0 {
					h.p.Reclaim(stale)
				}
				stale = k.conn
				if rest > 0 && j+1 < rounds {
					time.Sleep(rest)
				}
				c.Distinct("routed reuse v%d n%d refresh %v %s", v, n, interval, what)
			}
		})
	}
	if !within(60*time.Second+3*rest, wg.Wait) {
		c.Fail("stuck", "%s: borrowers made no progress for a minute", label)
		c.Abort()
	}
	if interval < time.Hour && !cl.refreshed(3) {
		c.Fail("no refresh", "%s: the overview is not asked for any more", label)
		return
	}
	h.p.Stop()
	for _, s := range cl.members {
		s.WaitReleased(slow)
	}
	k, per := 0, []int{}
	for _, s := range cl.members {
		x := 0
		for _, fc := range s.Conns() {
			if !isOverview(fc) {
				x++
			}
		}
		k += x
		per = append(per, x)
	}
	if k != n {
		c.Fail("opened", "%s: %d connections were opened to members although none broke and nothing changed: %v (roles %v)", label, k, per, roles)
	}
	c.Event("connections opened", int64(k))
}

// c30RoutedLent holds connections of a routing pool while the cluster changes around them, at last the pool is stopped.
func c30RoutedLent(c *core.C, v int) {
	m := 3 + c.R.Intn(3)
	roles := randRoles(c.R, m, 1)
	cl := newCluster(c, v, m, true, roles...)
	n := 2 + c.R.Intn(7)
	h := newRouted(c, "C30", cl, n, time.Duration(1+c.R.Intn(6))*time.Millisecond, "")
	label := fmt.Sprintf("v%d, routing pool of %d, %d members", v, n, m)
	if err := h.p.Start(); err != nil {
		c.Fail("start", "%s: starting on healthy members failed: %s", label, errText(err))
		return
	}
	held := map[int]*kept{}
	lent := map[bolt_mode.AccessMode]int{}
	for _, mode := range bothModes {
		for i := c.R.Intn(h.share(mode) + 1); i > 0; i-- {
			k, err := h.keepOpen(mode)
			if err != nil {
				c.Fail("borrow error", "%s: borrowing for %s from healthy members failed: %s", label, modeName(mode), errText(err))
				return
			}
			if c.R.Intn(2) == 0 {
				if err = k.begin(h.tok()); err != nil {
					c.Fail("disturbed", "%s: a fresh loan: %v", label, err)
					return
				}
			}
			held[k.id] = k
			lent[mode]++
		}
	}
	all := func(after string) bool {
		for _, k := range held {
			if err := k.alive(h.tok()); err != nil {
				c.Fail("disturbed", "%s: a lent connection for %s after %s: %v", label, modeName(k.mode), after, err)
				return false
			}
			c.Event("lent connections asked", 1)
		}
		c.Distinct("routed lent v%d n%d %s", v, n, after)
		return true
	}
	var stale []connection.IConnection
	for step := 0; step < 10 && !c.Failed(); step++ {
		what := []string{"roles", "roles", "gone", "all change", "bad overview", "idle killed", "others", "stale return", "foreign return", "end", "renew", "stale return"}[c.R.Intn(12)]
		switch what {
		case "renew":
			for id, k := range held {
				if k.tx != nil {
					continue
				}
				delete(held, id)
				h.p.Reclaim(k.conn)
				stale = append(stale, k.conn)
				nk, err := h.keepOpen(k.mode)
				if err != nil {
					break // the roles may leave no member
				}
				if c.R.Intn(3) > 0 {
					if err := nk.begin(h.tok()); err != nil {
						c.Fail("disturbed", "%s: a fresh loan: %v", label, err)
						return
					}
				}
				held[nk.id] = nk
				break
			}
		case "roles", "gone", "all change":
			roles = randRoles(c.R, m, 1+c.R.Intn(2))
			if what == "gone" {
				for i := range roles { // as few as there can be
					if roles[i] != "LEADER" && c.R.Intn(3) > 0 {
						roles[i] = ""
					}
				}
			}
			if what == "all change" {
				for i := range roles {
					roles[i] = []string{"LEADER", "FOLLOWER", ""}[c.R.Intn(3)]
				}
			}
			cl.set(roles)
		case "bad overview":
			cl.bad(func() (*fake.Result, *fake.Act) {
				return &fake.Result{Fail: &fake.Failure{Code: "Neo.TransientError.X", Message: "later"}}, nil
			})
			cl.refreshed(2)
			cl.bad(nil)
		case "idle killed":
			for i, s := range cl.members {
				for _, fc := range s.Conns() {
					if held[i*100000+fc.ID] == nil && c.R.Intn(2) == 0 {
						fc.Kill([]string{"half", "full", "rst", "farewell"}[c.R.Intn(4)])
					}
				}
			}
		case "others":
			mode := bothModes[c.R.Intn(2)]
			conn, err := h.open(mode)
			if err != nil {
				continue // the roles may leave no member
			}
			switch c.R.Intn(3) {
			case 0:
				conn.Close()
			case 1:
				conn.Begin()
			}
			h.p.Reclaim(conn)
			stale = append(stale, conn)
		case "stale return":
			for _, x := range stale {
				h.p.Reclaim(x)
			}
		case "foreign return":
			h.p.Reclaim(mustConn(c, cl.members[0]))
		case "end":
			for _, k := range held {
				if k.tx == nil {
					continue
				}
				if how, err := k.end(c.R, cl.members[k.id/100000:k.id/100000+1]); err != nil {
					c.Fail("disturbed transaction", "%s: the transaction of a lent connection at %s: %v", label, how, err)
					return
				}
				break
			}
		}
		if c.R.Intn(3) > 0 && !cl.refreshed(2) {
			c.Fail("no refresh", "%s: the overview is not asked for any more after %s", label, what)
			return
		}
		if !all(what) {
			return
		}
	}
	h.p.Stop()
	if !all("stop") {
		return
	}
	for id, k := range held {
		if k.tx != nil {
			if how, err := k.end(c.R, cl.members[id/100000:id/100000+1]); err != nil {
				c.Fail("disturbed transaction", "%s: the transaction of a lent connection at %s after the pool was stopped: %v", label, how, err)
				return
			}
		}
		delete(held, id)
		h.p.Reclaim(k.conn)
		if !all("stop and a return") {
			return
		}
	}
}

func mustConn(c *core.C, s *fake.Server) connection.IConnection {
	conn, err := connection.CreateBoltConn(connURL(s, "timeout=20"))
	c.Must(err)
	return conn
}

// shortTimeout lends a connection whose earlier borrowers had set longer timeouts than the configured second,
// and has the server stall.
func shortTimeout(c *core.C, what string, stalled *int32, open func() (connection.IConnection, error), reclaim func(connection.IConnection) error) {
	t := &c30tok{}
	for round, set := range []time.Duration{30 * time.Second, time.Hour, 1500 * time.Millisecond * 20} {
		conn, err := open()
		if err != nil {
			c.Fail("settings open", "%s: borrowing failed: %s", what, errText(err))
			return
		}
		conn.SetTimeout(set)
		conn.SetChunkSize(uint16(1 + c.R.Intn(65535)))
		if _, err := who(conn, t.next()); err != nil {
			c.Fail("settings open", "%s: a borrowed connection does not work: %s", what, errText(err))
			return
		}
		if round == 1 {
			conn.Begin()
		}
		if err := reclaim(conn); err != nil {
			c.Fail("settings open", "%s: returning failed: %s", what, errText(err))
			return
		}
		if conn, err = open(); err != nil {
			c.Fail("settings open", "%s: borrowing failed: %s", what, errText(err))
			return
		}
		atomic.StoreInt32(stalled, 1)
		t0 := time.Now()
		_, err = who(conn, t.next())
		took := time.Since(t0)
		atomic.StoreInt32(stalled, 0)
		if err == nil {
			c.Fail("settings kept", "%s: a query succeeded although the server stalled", what)
		} else if took > time.Second+slow {
			c.Fail("settings kept", "%s: with a timeout of 1 s configured, a query waited %v for a server that stalled; an earlier borrower had set a timeout of %v", what, took, set)
		}
		reclaim(conn)
		c.Event("stalls after longer timeouts", 1)
		c.Distinct("%s longer timeout %d", what, round)
		if c.Failed() {
			return
		}
	}
}

func stallHook(stalled *int32, next func(*fake.Conn, *fake.Msg, []interface{}) ([]interface{}, *fake.Act)) func(*fake.Conn, *fake.Msg, []interface{}) ([]interface{}, *fake.Act) {
	return func(fc *fake.Conn, m *fake.Msg, rep []interface{}) ([]interface{}, *fake.Act) {
		if m.Name == "RUN" && m.Query != overviewQuery && atomic.LoadInt32(stalled) == 1 {
			return nil, &fake.Act{Stall: true, Before: true}
		}
		if next != nil {
			return next(fc, m, rep)
		}
		return rep, nil
	}
}

func c30ShortRouted(c *core.C, v int) {
	var stalled int32
	cl := newClusterWith(c, v, 2, true, func(i int, s *fake.Server) { s.Hook = stallHook(&stalled, s.Hook) }, "LEADER", "FOLLOWER")
	h := newRouted(c, "C30", cl, 2, time.Hour, "timeout=1")
	if err := h.p.Start(); err != nil {
		c.Fail("start", "v%d: starting on healthy members failed: %s", v, errText(err))
		return
	}
	shortTimeout(c, fmt.Sprintf("v%d, routing pool", v), &stalled, h.p.BorrowRConnection, h.p.Reclaim)
	shortTimeout(c, fmt.Sprintf("v%d, routing pool", v), &stalled, h.p.BorrowRWConnection, h.p.Reclaim)
}

func c18ShortPool(c *core.C, v int) {
	var stalled int32
	s := &fake.Server{Version: v, Run: whoResult, NoLog: true}
	s.Hook = stallHook(&stalled, nil)
	c.Serve(s)
	client, err := goBolt.NewClient(goBolt.WithConnectionString(connURL(s, "timeout=1")))
	c.Must(err)
	p, err := client.NewDriverPool(1)
	c.Must(err)
	c.Defer(func() { p.Close() })
	shortTimeout(c, fmt.Sprintf("v%d, pool", v), &stalled, func() (connection.IConnection, error) { return p.Open(bolt_mode.ReadMode) }, p.Reclaim)
}
