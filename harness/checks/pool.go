package checks

import (
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"

	"verif/core"
	"verif/fake"
)

// lender is what the pools have in common.
type lender interface {
	Open(mode bolt_mode.AccessMode) (connection.IConnection, error)
	Reclaim(conn connection.IConnection) error
	Close() error
}

// whoResult answers "W token" with the connection's number and the token, "F" with a failure, "P" with a failure after rows.
func whoResult(fc *fake.Conn, m *fake.Msg) *fake.Result {
	q := m.Query
	switch {
	case strings.HasPrefix(q, "F "):
		return &fake.Result{Fail: &fake.Failure{Code: "Neo.ClientError.X", Message: q}}
	case strings.HasPrefix(q, "P "):
		return &fake.Result{Fields: []string{"c", "q"}, Rows: [][]interface{}{{int64(fc.ID), q}}, FailPull: &fake.Failure{Code: "Neo.ClientError.X", Message: q}}
	}
	return &fake.Result{Fields: []string{"c", "q"}, Rows: [][]interface{}{{int64(fc.ID), q}}, Summary: obj{"type": "r"}}
}

// guard runs fn on a goroutine of a case; panics of the library are recorded.
func guard(c *core.C, wg *sync.WaitGroup, fn func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer func() {
			if r := recover(); r != nil {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, false)]
				if !core.InLibrary(string(buf)) {
					panic(r)
				}
				c.Fail("panic", "panic: %v\n%s", r, buf)
			}
		}()
		fn()
	}()
}

// within tells whether fn returns in time; it goes on in the background otherwise.
func within(d time.Duration, fn func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); fn() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

func newPool(c *core.C, s *fake.Server, n int, query string) lender {
	client, err := goBolt.NewClient(goBolt.WithConnectionString(connURL(s, query)))
	c.Must(err)
	p, err := client.NewDriverPool(n)
	if err != nil {
		c.Fail("new pool", "a pool of %d connections was refused: %s", n, errText(err))
		c.Abort()
	}
	return p
}

// poolHist drives one pool and watches it.
type poolHist struct {
	c    *core.C
	prop string
	n    int
	v    int
	s    *fake.Server
	p    lender

	mu      sync.Mutex
	owner   map[int]string // server connection -> who holds it
	lent    int
	stale   []connection.IConnection
	opens   int64
	token   int64
	faultA  int64 // faults started
	faultB  int64 // faults ended
	suspect int   // dead connections lent although nothing happened meanwhile
	closing int32
	abandon map[string]bool // statements of transactions left open by a borrower
}

func newPoolHist(c *core.C, prop string, v, n int, query string) *poolHist {
	h := &poolHist{c: c, prop: prop, n: n, v: v, owner: map[int]string{}, abandon: map[string]bool{}}
	h.s = &fake.Server{Version: v, Run: whoResult, NoLog: true}
	c.Serve(h.s)
	h.p = newPool(c, h.s, n, query)
	return h
}

func (h *poolHist) fail(props, key, f string, a ...interface{}) {
	if strings.Contains(props, h.prop) {
		h.c.Fail(key, f, a...)
	}
}

func (h *poolHist) tok() string { return fmt.Sprintf("W %d", atomic.AddInt64(&h.token, 1)) }

// calm tells whether no fault was going on since a, the number of faults that were over, was read.
func (h *poolHist) calm(a int64) bool {
	return atomic.LoadInt64(&h.faultA) == a
}

// who asks the server over conn which connection this is.
func who(conn connection.IConnection, tok string) (int, error) {
	rows, _, err := conn.Query(tok, nil)
	if err != nil {
		return -1, err
	}
	if len(rows) != 1 || len(rows[0]) != 2 || rows[0][1] != tok {
		return -1, fmt.Errorf("wrong rows %s for %q", short(rows), tok)
	}
	id, _ := rows[0][0].(int64)
	return int(id), nil
}

type loan struct {
	conn connection.IConnection
	id   int
	who  string
	dead bool // broken by the borrower or the server while lent
}

// borrow opens a connection and runs the monitors of a fresh loan. It returns nil if there is none to be had.
func (h *poolHist) borrow(who_ string) (*loan, error) {
	a := atomic.LoadInt64(&h.faultB)
	start := time.Now()
	conn, err := h.p.Open(bolt_mode.WriteMode)
	if d := time.Since(start); d > 2*slow {
		h.fail("C17", "starved", "%s waited %v for a connection although borrowers keep them for milliseconds", who_, d)
	}
	atomic.AddInt64(&h.opens, 1)
	h.c.Event("borrows", 1)
	if err != nil {
		if h.calm(a) && atomic.LoadInt32(&h.closing) == 0 {
			h.fail("C17 C18", "open error", "opening a connection failed although nothing was wrong with the server: %s", errText(err))
		}
		if conn != nil {
			h.fail("C17 C18", "open both", "Open returned a connection and the error %s", errText(err))
		}
		return nil, err
	}
	if conn == nil {
		h.fail("C17 C18", "open nothing", "Open returned neither a connection nor an error")
		return nil, fmt.Errorf("nothing")
	}
	h.mu.Lock()
	h.lent++
	if h.lent > h.n {
		h.fail("C17", "too many lent", "%d connections of a pool of %d are lent at once", h.lent, h.n)
	}
	h.mu.Unlock()
	l := &loan{conn: conn, id: -1, who: who_}
	tok := h.tok()
	id, err := who(conn, tok)
	if err != nil {
		l.dead = true
		if strings.HasPrefix(err.Error(), "wrong rows") {
			h.fail("C17 C18", "mixed rows", "the first query on a borrowed connection returned %v", err)
		} else if h.calm(a) && atomic.LoadInt32(&h.closing) == 0 {
			h.mu.Lock()
			h.suspect++
			n := h.suspect
			h.mu.Unlock()
			h.c.Logf("first query on a borrowed connection failed: %s", errText(err))
			// the liveness check of a connection can miss what has just arrived when the machine is overloaded
			if n >= 3 {
				h.fail("C18", "dead lent", "%d borrowed connections did not work although nothing happened since they were opened, the last with %s", n, errText(err))
			}
		}
		return l, nil
	}
	l.id = id
	h.mu.Lock()
	if o, busy := h.owner[id]; busy {
		h.fail("C17", "shared", "connection %d is lent to %s while %s has it", id, who_, o)
	}
	h.owner[id] = who_
	h.mu.Unlock()
	h.checkFresh(id, tok)
	return l, nil
}

// checkFresh checks that the first statement of a loan ran outside of transactions.
func (h *poolHist) checkFresh(id int, tok string) {
	st := h.s.Stmts()
	for i := len(st) - 1; i >= 0; i-- {
		if st[i].Conn.ID == id && st[i].Query == tok {
			if st[i].Tx != nil {
				h.fail("C18", "inherited transaction", "the first query of a new borrower ran in transaction %d of an earlier one", st[i].Tx.ID)
			}
			return
		}
	}
}

func (h *poolHist) release(l *loan) {
	h.mu.Lock()
	h.lent--
	if l.id >= 0 && h.owner[l.id] == l.who {
		delete(h.owner, l.id)
	}
	h.mu.Unlock()
}

// use does something random with a borrowed connection and tells what.
func (h *poolHist) use(r *rand.Rand, l *loan) string {
	if l.dead {
		return "dead"
	}
	conn := l.conn
	check := func(what string, id int, err error) {
		if err != nil {
			if strings.HasPrefix(err.Error(), "wrong rows") {
				h.fail("C17", "mixed rows", "%s on a borrowed connection returned %v", what, err)
			}
			l.dead = true
			return
		}
		if id != l.id {
			h.fail("C17", "switched", "a borrowed connection is connection %d now and was %d", id, l.id)
		}
	}
	switch k := r.Intn(14); k {
	default:
		id, err := who(conn, h.tok())
		check("a query", id, err)
		return "query"
	case 4:
		if _, _, err := conn.Query("F "+h.tok(), nil); err == nil {
			h.fail("C18", "no failure", "a failing statement returned no error")
		}
		return "fail"
	case 5, 6, 7:
		tx, err := conn.Begin()
		if err != nil {
			l.dead = true
			return "begin failed"
		}
		tok := h.tok()
		if r.Intn(3) > 0 {
			rows, _, err := tx.Query(tok, nil)
			if err != nil || len(rows) != 1 {
				l.dead = true
				return "tx failed"
			}
		}
		switch k {
		case 5:
			tx.Commit()
			return "commit"
		case 6:
			tx.Rollback()
			return "rollback"
		}
		l.dead = true // statements outside of it are refused now
		h.mu.Lock()
		h.abandon[tok] = true
		h.mu.Unlock()
		return "abandon"
	case 8:
		tx, err := conn.Begin()
		if err != nil {
			l.dead = true
			return "begin failed"
		}
		tx.Query("F "+h.tok(), nil)
		return "abandon failed"
	case 9:
		conn.SetTimeout(time.Duration(1+r.Intn(60)) * time.Second)
		conn.SetChunkSize(uint16(1 + r.Intn(2000)))
		return "settings"
	case 10:
		if r.Intn(2) == 0 {
			conn.Close()
			l.dead = true
			return "closed"
		}
		return "nothing"
	case 11:
		if r.Intn(2) == 0 {
			mode := []string{"half", "full", "rst", "farewell"}[r.Intn(4)]
			h.s.Conns()[l.id].Kill(mode)
			l.dead = true
			return "killed " + mode
		}
		return "nothing"
	}
}

// giveBack returns a connection, perhaps more than once.
func (h *poolHist) giveBack(r *rand.Rand, l *loan) string {
	h.release(l)
	kind := "once"
	switch r.Intn(10) {
	case 0:
		kind = "twice"
		h.reclaim(l.conn)
		h.p.Reclaim(l.conn)
	case 1:
		kind = "twice at once"
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			guard(h.c, &wg, func() { h.p.Reclaim(l.conn) })
		}
		wg.Wait()
	case 2:
		kind = "later again"
		h.reclaim(l.conn)
		h.mu.Lock()
		h.stale = append(h.stale, l.conn)
		h.mu.Unlock()
	default:
		h.reclaim(l.conn)
	}
	h.mu.Lock()
	var again connection.IConnection
	if len(h.stale) > 0 && r.Intn(3) == 0 {
		i := r.Intn(len(h.stale))
		again = h.stale[i]
		h.stale = append(h.stale[:i], h.stale[i+1:]...)
	}
	h.mu.Unlock()
	if again != nil {
		kind += "+stale"
		h.p.Reclaim(again)
	}
	return kind
}

func (h *poolHist) reclaim(conn connection.IConnection) {
	if err := h.p.Reclaim(conn); err != nil {
		h.fail("C17", "reclaim error", "returning a borrowed connection failed: %s", errText(err))
	}
}

// chaos disturbs the server until stop is closed.
func (h *poolHist) chaos(r *rand.Rand, stop chan struct{}, outages bool) {
	for {
		select {
		case <-stop:
			return
		case <-time.After(time.Duration(1+r.Intn(25)) * time.Millisecond):
		}
		atomic.AddInt64(&h.faultA, 1)
		if outages && r.Intn(4) == 0 {
			h.s.StopListening()
			time.Sleep(time.Duration(1+r.Intn(30)) * time.Millisecond)
			h.c.Must(h.s.Resume())
			h.c.Event("server outages", 1)
		} else {
			mode := []string{"half", "full", "rst", "farewell"}[r.Intn(4)]
			for _, fc := range h.s.Conns() {
				h.mu.Lock()
				_, busy := h.owner[fc.ID]
				h.mu.Unlock()
				if !busy && !fc.IsPeerClosed() && !fc.Killed() && r.Intn(2) == 0 {
					fc.Kill(mode)
					h.c.Event("idle connections killed", 1)
				}
			}
		}
		atomic.AddInt64(&h.faultB, 1)
	}
}

// churn has g borrowers do rounds loans each.
func (h *poolHist) churn(g, rounds int, faults, outages bool) {
	c := h.c
	stop := make(chan struct{})
	var bg, wg sync.WaitGroup
	if faults {
		r := rand.New(rand.NewSource(c.R.Int63()))
		guard(c, &bg, func() { h.chaos(r, stop, outages) })
	}
	for i := 0; i < g; i++ {
		name := fmt.Sprintf("borrower %d", i)
		r := rand.New(rand.NewSource(c.R.Int63()))
		guard(c, &wg, func() {
			for k := 0; k < rounds && !c.Failed(); k++ {
				l, err := h.borrow(name)
				if err != nil || l == nil {
					time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
					continue
				}
				did := ""
				for j := r.Intn(4); j >= 0; j-- {
					did = h.use(r, l)
				}
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
				}
				kind := h.giveBack(r, l)
				c.Event("returns", 1)
				c.Distinct("v%d n%d %s, returned %s", h.v, h.n, did, kind)
			}
		})
	}
	if !within(60*time.Second, wg.Wait) {
		h.fail("C17 C18 C19", "stuck", "borrowers made no progress for a minute with %d of %d connections lent", h.lent, h.n)
		c.Abort()
	}
	close(stop)
	bg.Wait()
}

// capacity checks that exactly n connections can be borrowed, and that the next one waits for a return.
func (h *poolHist) capacity(after string) bool {
	c := h.c
	loans := make([]*loan, h.n)
	errs := make([]error, h.n)
	var wg sync.WaitGroup
	for i := range loans {
		i := i
		guard(c, &wg, func() { loans[i], errs[i] = h.borrow(fmt.Sprintf("probe %d", i)) })
	}
	if !within(slow, wg.Wait) {
		h.fail("C17", "capacity lost", "after %s, fewer than %d connections of the pool can be borrowed at once", after, h.n)
		return false
	}
	for i := range loans {
		if errs[i] != nil || loans[i] == nil || loans[i].dead {
			h.fail("C17 C18", "probe failed", "after %s, borrowing all connections of the pool failed: %v", after, errs[i])
			return false
		}
	}
	c.Event("capacity probes", 1)
	var extra *loan
	done := make(chan struct{})
	var ew sync.WaitGroup
	guard(c, &ew, func() { defer close(done); extra, _ = h.borrow("waiter") })
	select {
	case <-done:
	case <-time.After(5 * time.Millisecond):
	}
	if c.Failed() {
		return false
	}
	h.release(loans[0])
	h.reclaim(loans[0].conn)
	select {
	case <-done:
	case <-time.After(slow):
		h.fail("C17", "waiter forgotten", "after %s, a caller waiting for a connection did not get one within %v of its return", after, slow)
		return false
	}
	ew.Wait()
	if extra == nil {
		return false
	}
	h.release(extra)
	h.reclaim(extra.conn)
	for _, l := range loans[1:] {
		h.release(l)
		h.reclaim(l.conn)
	}
	if k := h.s.MaxEst(); k > h.n {
		h.fail("C17", "too many open", "%d connections were open at once in a pool of %d", k, h.n)
		return false
	}
	return true
}

// books checks the server's transaction book: whatever was abandoned was rolled back or lost with its connection.
func (h *poolHist) books() {
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, st := range h.s.Stmts() {
		if st.Tx == nil || !h.abandon[st.Query] {
			continue
		}
		h.c.Event("abandoned transactions", 1)
		if end := endOf(h.s, st.Tx.ID); end == "commit" || end == "" {
			h.fail("C18", "abandoned kept", "a transaction its borrower abandoned ended as %q on the server", end)
			return
		}
	}
}

func endOf(s *fake.Server, id int) string {
	for _, tx := range s.Txs() {
		if tx.ID == id {
			return tx.End
		}
	}
	return "?"
}

// shut closes the pool while holders keep connections and waiters wait for one, and checks what is left.
func (h *poolHist) shut(holders, waiters int) {
	c := h.c
	if holders > h.n {
		holders = h.n
	}
	if holders < h.n {
		waiters = 0
	}
	var held []*loan
	for i := 0; i < holders; i++ {
		l, err := h.borrow(fmt.Sprintf("holder %d", i))
		if err != nil || l == nil || l.dead {
			h.fail("C19 C18 C17", "probe failed", "borrowing %d of %d connections before closing the pool failed: %v", i+1, h.n, err)
			return
		}
		held = append(held, l)
	}
	var wg sync.WaitGroup
	got := make([]connection.IConnection, waiters)
	errs := make([]error, waiters)
	for i := 0; i < waiters; i++ {
		i := i
		guard(c, &wg, func() { got[i], errs[i] = h.p.Open(bolt_mode.ReadMode) })
	}
	if waiters > 0 {
		time.Sleep(time.Duration(c.R.Intn(8)) * time.Millisecond)
	}
	atomic.StoreInt32(&h.closing, 1)
	closers := 1 + c.R.Intn(3)
	cerr := make([]error, closers)
	var cw sync.WaitGroup
	for i := 0; i < closers; i++ {
		i := i
		guard(c, &cw, func() { cerr[i] = h.p.Close() })
	}
	label := fmt.Sprintf("v%d, pool of %d, %d lent, %d waiting, %d closers", h.v, h.n, holders, waiters, closers)
	if !within(slow, cw.Wait) {
		h.fail("C19", "close blocked", "%s: Close did not return within %v", label, slow)
		return
	}
	ok := 0
	for _, err := range cerr {
		if err == nil {
			ok++
		}
	}
	if ok != 1 {
		h.fail("C19", "close result", "%s: %d of %d calls of Close succeeded (%v)", label, ok, closers, cerr)
		return
	}
	if !within(slow, wg.Wait) {
		h.fail("C19", "waiter blocked", "%s: an Open that was waiting did not return within %v of the close", label, slow)
		return
	}
	for i := range got {
		if errs[i] == nil || got[i] != nil {
			h.fail("C19", "waiter served", "%s: an Open that was waiting when the pool was closed returned %v, %v", label, got[i], errs[i])
			return
		}
	}
	var late connection.IConnection
	var err error
	if !within(slow, func() { late, err = h.p.Open(bolt_mode.WriteMode) }) {
		h.fail("C19", "late open blocked", "%s: Open after Close did not return within %v", label, slow)
		return
	}
	if err == nil || late != nil {
		h.fail("C19", "late open", "%s: Open after Close returned %v, %v", label, late, err)
		return
	}
	if err = h.p.Close(); err == nil {
		h.fail("C19", "second close", "%s: closing the pool once more reported no error", label)
		return
	}
	// idle ones are closed now, lent ones when they come back
	if k := openAfter(h.s, len(held)); k > len(held) {
		h.fail("C19", "idle left", "%s: %d connections are open after Close", label, k)
		return
	}
	for i, l := range held {
		switch c.R.Intn(4) {
		case 0:
			l.conn.Begin()
		case 1:
			who(l.conn, h.tok())
		}
		h.release(l)
		if !within(slow, func() { h.p.Reclaim(l.conn) }) {
			h.fail("C19", "return blocked", "%s: returning a connection after Close did not return within %v", label, slow)
			return
		}
		if k := openAfter(h.s, len(held)-i-1); k > len(held)-i-1 {
			h.fail("C19", "returned left", "%s: %d connections are open after all but %d were returned", label, k, len(held)-i-1)
			return
		}
	}
	if hd := h.s.WaitReleased(slow); len(hd) > 0 {
		h.fail("C19 C17", "leak", "%s: %d connections are still held by the driver in the end", label, len(hd))
		return
	}
	if h.s.Open() != 0 {
		h.fail("C19", "leak", "%s: the server still has %d connections", label, h.s.Open())
	}
	for _, tx := range h.s.Txs() {
		if tx.End == "" {
			h.fail("C19 C18", "open transaction", "%s: transaction %d is still open in the end", label, tx.ID)
			return
		}
	}
	c.Event("pools closed", 1)
	c.Distinct("close %s", label)
}

// openAfter waits until at most n connections are held by the driver.
func openAfter(s *fake.Server, n int) int {
	end := time.Now().Add(slow)
	for {
		k := 0
		for _, fc := range s.Conns() {
			if !fc.IsPeerClosed() {
				k++
			}
		}
		if k <= n || time.Now().After(end) {
			return k
		}
		time.Sleep(time.Millisecond)
	}
}

func (h *poolHist) faultStart() { atomic.AddInt64(&h.faultA, 1) }
func (h *poolHist) faultEnd()   { atomic.AddInt64(&h.faultB, 1) }

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }
