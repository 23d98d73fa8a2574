package checks

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"

	"verif/core"
	"verif/fake"
)

func init() {
	core.Register(&core.Check{ID: "C22", Keep: true, MinEvals: 20, CaseMax: 240 * time.Second,
		Rule: "Under the race detector, routing pools (Bolt 3 and 4) are stopped by 1-3 callers at once with connections idle, lent, marked, dead and while a refresh is being answered or borrowers churn, and are started against clusters in which the seed, the overview, a role or a member's authentication fails. Observed: connections the driver still holds, overviews asked for afterwards, sockets and goroutines left, results of later calls, and whether it can be started again. Distinct and non-trivial: distinct (version, size, lent, state of the refresh) and (kind of failed start).",
		Run: func(t *core.T) {
			var jobs []core.Job
			for i := 0; i < t.Pick(48, 600); i++ {
				i := i
				v := 3 + i%2
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("stop/v%d/%d", v, i), Fn: func(c *core.C) { c22Stop(c, v, i%3) }})
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("loans/v%d/%d", v, i), Fn: func(c *core.C) { c22Loans(c, v) }})
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("stop under load/v%d/%d", v, i), Fn: func(c *core.C) { c22Load(c, v) }})
			}
			for v := 3; v <= 4; v++ {
				for _, kind := range badStarts {
					for i := 0; i < t.Pick(2, 10); i++ {
						v, kind := v, kind
						jobs = append(jobs, core.Job{Name: fmt.Sprintf("start/%s/v%d/%d", strings.ReplaceAll(kind, " ", "-"), v, i), Fn: func(c *core.C) { c22Start(c, v, kind) }})
					}
				}
			}
			t.Parallel(8, jobs)
			t.CaseT("what is left", 120*time.Second, c22Left)
		}})
}

// quietRefresh checks that no more overviews are asked for.
func (h *routed) quietRefresh(label string, interval time.Duration) bool {
	// one may be under way
	time.Sleep(2*interval + 2*time.Millisecond)
	for try := 0; ; try++ {
		a := atomic.LoadInt64(&h.cl.served)
		time.Sleep(8*interval + 5*time.Millisecond)
		b := atomic.LoadInt64(&h.cl.served)
		if a == b {
			return true
		}
		if try == 4 {
			h.fail("C22", "still refreshing", "%s: the overview is still asked for, %d more times within %v", label, b-a, 8*interval)
			return false
		}
	}
}

func c22Stop(c *core.C, v, level int) {
	k := 2 + c.R.Intn(3)
	roles := dualRoles(c.R, randRoles(c.R, k, 1))
	cl := newCluster(c, v, k, c.R.Intn(2) == 0, roles...)
	interval := time.Duration(1+c.R.Intn(5)) * time.Millisecond
	h := newRouted(c, "C22", cl, 2+c.R.Intn(6), interval, "")
	if err := h.p.Start(); err != nil {
		c.Fail("start", "v%d: starting on healthy members failed: %s", v, errText(err))
		return
	}
	if err := h.p.Start(); err == nil {
		c.Fail("started twice", "v%d: starting a running pool reported no error", v)
	}
	for again := 0; again < 2; again++ {
		var held []*rloan
		for _, m := range bothModes {
			for i := c.R.Intn(h.share(m) + 1); i > 0; i-- {
				l, err := h.borrow(m, fmt.Sprintf("holder %d", i))
				if err != nil || l.dead {
					c.Fail("borrow", "v%d: borrowing failed: %v", v, err)
					return
				}
				held = append(held, l)
			}
		}
		label := fmt.Sprintf("v%d, pool of %d, %d lent, level %d, run %d", v, h.n, len(held), level, again)
		if level == 1 { // some are marked, some are dead
			roles = dualRoles(c.R, randRoles(c.R, k, 1))
			cl.set(roles)
			cl.refreshed(2)
			for _, s := range cl.members {
				for _, fc := range s.Conns() {
					if c.R.Intn(4) == 0 {
						fc.Kill([]string{"half", "full", "rst"}[c.R.Intn(3)])
					}
				}
			}
		}
		if level == 2 { // a refresh is waiting for its answer
			cl.mu.Lock()
			cl.hold = true
			cl.mu.Unlock()
			at := atomic.LoadInt64(&cl.served)
			for i := 0; i < 500 && atomic.LoadInt64(&cl.served) == at; i++ {
				time.Sleep(time.Millisecond)
			}
		}
		var cw sync.WaitGroup
		k := 1 + c.R.Intn(3)
		cerr := make([]error, k)
		for i := range cerr {
			i := i
			guard(c, &cw, func() { cerr[i] = h.p.Stop() })
		}
		if !within(slow, cw.Wait) {
			h.fail("C22", "stop blocked", "%s: Stop did not return within %v", label, slow)
			return
		}
		ok := 0
		for _, err := range cerr {
			if err == nil {
				ok++
			}
		}
		if ok != 1 {
			h.fail("C22", "stop result", "%s: %d of %d calls of Stop succeeded: %v", label, ok, k, cerr)
			return
		}
		if err := h.p.Stop(); err == nil {
			h.fail("C22", "stopped twice", "%s: stopping once more reported no error", label)
		}
		for _, m := range bothModes {
			if conn, err := h.open(m); err == nil || conn != nil {
				h.fail("C22", "late borrow", "%s: borrowing for %s after Stop returned %v, %v", label, modeName(m), conn, err)
				return
			}
		}
		if level == 2 {
			cl.mu.Lock()
			cl.hold = false
			cl.mu.Unlock()
		}
		if !h.quietRefresh(label, interval) {
			return
		}
		if n := heldAtMost(cl, len(held)); n > len(held) {
			h.fail("C22", "idle left", "%s: the driver holds %d connections to members after Stop", label, n)
			return
		}
		for i, l := range held {
			if c.R.Intn(3) == 0 {
				l.conn.Begin()
			}
			h.release(l)
			if !within(slow, func() { h.p.Reclaim(l.conn) }) {
				h.fail("C22", "return blocked", "%s: returning a connection after Stop did not return", label)
				return
			}
			if n := heldAtMost(cl, len(held)-i-1); n > len(held)-i-1 {
				h.fail("C22", "returned left", "%s: the driver holds %d connections after all but %d lent ones were returned to the stopped pool", label, n, len(held)-i-1)
				return
			}
		}
		if hd := cl.seed.WaitReleased(slow); len(hd) > 0 {
			h.fail("C22", "leak", "%s: %d connections to the seed are still held after everything was returned", label, len(hd))
			return
		}
		c.Event("pools stopped", 1)
		c.Distinct("%s", label)
		if again == 0 {
			// a stopped pool starts again like a new one, and refreshes as often
			if err := h.p.Start(); err != nil {
				h.fail("C22", "restart", "%s: starting the stopped pool again failed: %s", label, errText(err))
				return
			}
			if !h.probe(roles, "starting again", false) {
				return
			}
			if n := cl.settleHeld(h.n); n != h.n {
				h.fail("C22", "restart", "%s: the driver holds %d connections after the restart", label, n)
				return
			}
		}
	}
}

// c22Loans has connections stay lent while the pool is stopped and started again.
func c22Loans(c *core.C, v int) {
	k := 2 + c.R.Intn(3)
	roles := randRoles(c.R, k, 1)
	cl := newCluster(c, v, k, c.R.Intn(2) == 0, roles...)
	interval := []time.Duration{3 * time.Millisecond, 20 * time.Millisecond}[c.R.Intn(2)]
	h := newRouted(c, "C22", cl, 2+c.R.Intn(6), interval, "")
	var lent []connection.IConnection
	for round := 0; round < 4 && !c.Failed(); round++ {
		label := fmt.Sprintf("v%d, pool of %d, refresh every %v, start %d, with %d connections still lent", v, h.n, interval, round, len(lent))
		if err := h.p.Start(); err != nil {
			h.fail("C22", "restart", "%s: starting failed: %s", label, errText(err))
			return
		}
		for x := c.R.Intn(3); x > 0; x-- {
			if conn, err := h.p.BorrowRConnection(); err == nil {
				lent = append(lent, conn)
			}
			if conn, err := h.p.BorrowRWConnection(); err == nil {
				lent = append(lent, conn)
			}
		}
		for i := 0; i < len(lent); i++ {
			if c.R.Intn(3) > 0 {
				continue
			}
			h.p.Reclaim(lent[i])
			lent = append(lent[:i], lent[i+1:]...)
			i--
		}
		if err := h.p.Stop(); err != nil {
			h.fail("C22", "stop result", "%s: stopping failed: %s", label, errText(err))
			return
		}
		c.Distinct("%s, %d left", label, len(lent))
		if !h.quietRefresh(label, interval) {
			return
		}
		if n := heldAtMost(cl, len(lent)); n > len(lent) {
			h.fail("C22", "returned left", "%s: the driver holds %d connections after Stop, %d are lent", label, n, len(lent))
			return
		}
	}
	for _, conn := range lent {
		h.p.Reclaim(conn)
	}
	if n := heldAtMost(cl, 0); n > 0 && !c.Failed() {
		h.fail("C22", "returned left", "v%d, pool of %d: the driver holds %d connections after everything was returned to a stopped pool", v, h.n, n)
	}
	c.Event("pools stopped", 1)
}

// heldAtMost waits until the driver holds at most n connections to members.
func heldAtMost(cl *cluster, n int) int {
	end := time.Now().Add(slow)
	for {
		k, _ := cl.held()
		if k <= n || time.Now().After(end) {
			return k
		}
		time.Sleep(time.Millisecond)
	}
}

// c22Load stops a pool while borrowers come and go.
func c22Load(c *core.C, v int) {
	k := 2 + c.R.Intn(3)
	roles := randRoles(c.R, k, 1)
	cl := newCluster(c, v, k, true, roles...)
	interval := time.Duration(1+c.R.Intn(3)) * time.Millisecond
	h := newRouted(c, "C22", cl, 2+c.R.Intn(6), interval, "")
	if err := h.p.Start(); err != nil {
		c.Fail("start", "v%d: starting on healthy members failed: %s", v, errText(err))
		return
	}
	var wg sync.WaitGroup
	stop := make(chan struct{})
	for i := 0; i < 5; i++ {
		r := newRand(c.R.Int63())
		mode := bothModes[i%2]
		guard(c, &wg, func() {
			after := 0
			for after < 3 {
				over := false
				select {
				case <-stop:
					over = true
					after++
				default:
				}
				conn, err := h.open(mode)
				if err == nil {
					if over {
						h.fail("C22", "late borrow", "v%d: borrowing after Stop succeeded", v)
					}
					switch r.Intn(4) {
					case 0:
						conn.Begin()
					case 1:
						conn.Close()
					case 2:
						who(conn, h.tok())
					}
					h.p.Reclaim(conn)
				}
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(800)) * time.Microsecond)
				}
			}
		})
	}
	time.Sleep(time.Duration(c.R.Intn(12)) * time.Millisecond)
	if c.R.Intn(2) == 0 {
		cl.set(randRoles(c.R, k, 1))
		time.Sleep(time.Duration(c.R.Intn(3)) * time.Millisecond)
	}
	var err error
	if !within(slow, func() { err = h.p.Stop() }) || err != nil {
		h.fail("C22", "stop blocked", "v%d: Stop of a pool in use did not succeed within %v: %v", v, slow, err)
		return
	}
	close(stop)
	if !within(slow, wg.Wait) {
		h.fail("C22", "stuck", "v%d: calls did not return within %v of Stop", v, slow)
		return
	}
	if !h.quietRefresh(fmt.Sprintf("v%d, stopped under load", v), interval) {
		return
	}
	for i, s := range append(append([]*fake.Server{}, cl.members...), cl.seed) {
		if hd := s.WaitReleased(slow); len(hd) > 0 {
			h.fail("C22", "leak", "v%d: %d connections to server %d are held after the pool was stopped and everything returned", v, len(hd), i)
			return
		}
	}
	c.Event("pools stopped under load", 1)
	c.Distinct("under load v%d n%d k%d", v, h.n, k)
}

var badStarts = []string{"seed down", "seed refuses", "overview fails", "overview lost", "overview empty", "overview malformed", "no leader", "no reader", "leader down", "readers down", "leader refuses", "readers refuse", "leader out of connections", "reader out of connections"}

// c22Start starts a pool that can not start.
func c22Start(c *core.C, v int, kind string) {
	roles := []string{"LEADER", "FOLLOWER", "READ_REPLICA", ""}
	cl := newCluster(c, v, 4, true, roles...)
	interval := 3 * time.Millisecond
	h := newRouted(c, "C22", cl, 2+c.R.Intn(6), interval, "timeout=5")
	var mu sync.Mutex
	refuse := map[*fake.Server]int{} // refuse authentication from that many connections on
	for _, s := range append(append([]*fake.Server{}, cl.members...), cl.seed) {
		s := s
		s.Fail = func(fc *fake.Conn, m *fake.Msg) *fake.Failure {
			mu.Lock()
			defer mu.Unlock()
			if at, ok := refuse[s]; ok && fc.ID >= at && (m.Name == "INIT" || m.Name == "HELLO") {
				return &fake.Failure{Code: "Neo.ClientError.Security.Unauthorized", Message: "no"}
			}
			return nil
		}
	}
	switch kind {
	case "seed down":
		cl.seed.StopListening()
	case "seed refuses":
		refuse[cl.seed] = 0
	case "overview fails":
		cl.bad(func() (*fake.Result, *fake.Act) {
			return &fake.Result{Fail: &fake.Failure{Code: "Neo.X", Message: "no procedure"}}, nil
		})
	case "overview lost":
		cl.bad(func() (*fake.Result, *fake.Act) { return nil, &fake.Act{Close: "half"} })
	case "overview empty":
		cl.set(nil)
	case "overview malformed":
		cl.bad(func() (*fake.Result, *fake.Act) {
			g := cl.good()
			g.Rows[1] = g.Rows[1][:2]
			return g, nil
		})
	case "no leader":
		cl.set([]string{"FOLLOWER", "FOLLOWER", "READ_REPLICA"})
	case "no reader":
		cl.set([]string{"LEADER"})
	case "leader down":
		cl.members[0].StopListening()
	case "readers down":
		cl.members[1].StopListening()
		cl.members[2].StopListening()
	case "leader refuses":
		refuse[cl.members[0]] = 0
	case "readers refuse":
		refuse[cl.members[1]] = 0
		refuse[cl.members[2]] = 0
	case "leader out of connections":
		refuse[cl.members[0]] = h.share(bolt_mode.WriteMode) - 1
	case "reader out of connections":
		refuse[cl.members[1]] = 0
		refuse[cl.members[2]] = h.share(bolt_mode.ReadMode) - 1
	}
	var err error
	if !within(2*slow, func() { err = h.p.Start() }) {
		h.fail("C22", "start blocked", "v%d, %s: Start did not return within %v", v, kind, 2*slow)
		return
	}
	label := fmt.Sprintf("v%d, pool of %d, %s", v, h.n, kind)
	if err == nil {
		h.fail("C22", "start hidden", "%s: Start reported no error", label)
		return
	}
	if !h.quietRefresh(label, interval) {
		return
	}
	for i, s := range append(append([]*fake.Server{}, cl.members...), cl.seed) {
		if hd := s.WaitReleased(slow); len(hd) > 0 {
			h.fail("C22", "failed start leak", "%s: %d connections to server %d are held after Start failed with %s", label, len(hd), i, errText(err))
			return
		}
	}
	for _, m := range bothModes {
		if conn, err := h.open(m); err == nil || conn != nil {
			h.fail("C22", "late borrow", "%s: borrowing for %s after a failed Start returned %v, %v", label, modeName(m), conn, err)
			return
		}
	}
	if err := h.p.Stop(); err == nil {
		h.fail("C22", "running state", "%s: Stop after a failed Start reported no error: the pool believes it is running", label)
		return
	}
	// the pool starts once the cluster is well
	mu.Lock()
	refuse = map[*fake.Server]int{}
	mu.Unlock()
	for i, s := range append(append([]*fake.Server{}, cl.members...), cl.seed) {
		down := kind == "seed down" && i == 4 || kind == "leader down" && i == 0 || kind == "readers down" && (i == 1 || i == 2)
		if down {
			c.Must(s.Resume())
		}
	}
	cl.bad(nil)
	cl.set(roles)
	if err := h.p.Start(); err != nil {
		h.fail("C22", "restart", "%s: Start failed again although everything is well now: %s", label, errText(err))
		return
	}
	if h.probe(roles, "a failed start and a good one", false) {
		if n := cl.settleHeld(h.n); n != h.n {
			h.fail("C22", "restart", "%s: the driver holds %d connections after a good start", label, n)
		}
	}
	c.Event("failed starts", 1)
	c.Distinct("%s", label)
}

// c22Left counts sockets and goroutines.
func c22Left(c *core.C) {
	base := sockets()
	for v := 3; v <= 4; v++ {
		for _, how := range []string{"fine", "killed", "client", "client fails", "start fails"} {
			cc := &core.C{T: c.T, Name: c.Name, R: c.R}
			cl := newCluster(cc, v, 3, true, "LEADER", "FOLLOWER", "READ_REPLICA")
			stop := func() {
				for _, s := range append(append([]*fake.Server{}, cl.members...), cl.seed) {
					s.Stop()
				}
			}
			switch how {
			case "fine", "killed", "start fails":
				h := newRouted(cc, "C22", cl, 5, 2*time.Millisecond, "")
				if how == "start fails" {
					cl.members[2].StopListening()
					cl.members[1].StopListening()
					if h.p.Start() == nil {
						c.Fail("start hidden", "Start reported no error without readers")
						return
					}
					break
				}
				if err := h.p.Start(); err != nil {
					c.Fail("start", "v%d: %s", v, errText(err))
					return
				}
				a, err1 := h.p.BorrowRWConnection()
				b, err2 := h.p.BorrowRConnection()
				if err1 != nil || err2 != nil {
					c.Fail("borrow", "v%d: %v %v", v, err1, err2)
					return
				}
				h.p.Reclaim(a)
				cl.refreshed(2)
				if how == "killed" {
					for _, s := range cl.members {
						for _, fc := range s.Conns() {
							fc.Kill("full")
						}
					}
				}
				h.p.Stop()
				h.p.Reclaim(b)
			default:
				client, err := goBolt.NewClient(goBolt.WithConnectionString(strings.Replace(cl.url("timeout=20"), "bolt://", "bolt+routing://", 1)))
				c.Must(err)
				if how == "client fails" {
					cl.members[0].StopListening()
				}
				p, err := client.NewDriverPool(4)
				if how == "client fails" {
					if err == nil {
						c.Fail("start hidden", "a routed pool without leader was created")
						return
					}
					break
				}
				if err != nil {
					c.Fail("start", "v%d: %s", v, errText(err))
					return
				}
				var conns []connection.IConnection
				for _, m := range bothModes {
					conn, err := p.Open(m)
					if err != nil {
						c.Fail("borrow", "v%d: %s", v, errText(err))
						return
					}
					conns = append(conns, conn)
				}
				p.Reclaim(conns[0])
				p.Close()
				p.Reclaim(conns[1])
			}
			stop()
			if k := settles(base); k > base {
				c.Fail("socket left", "v%d %s: %d sockets are open after a routed pool was stopped and everything returned", v, how, k-base)
				return
			}
			end := time.Now().Add(slow)
			for {
				left := libraryGoroutines()
				if len(left) == 0 {
					break
				}
				if time.Now().After(end) {
					c.Fail("goroutine left", "v%d %s: %d goroutines of the library are left:\n%s", v, how, len(left), trunc(left[0]))
					return
				}
				time.Sleep(2 * time.Millisecond)
			}
			c.Distinct("left v%d %s", v, how)
		}
	}
	c.Event("goroutine scans", 10)
}
