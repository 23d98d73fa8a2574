package checks

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"

	"verif/core"
	"verif/fake"
)

func init() {
	core.Register(&core.Check{ID: "C21", Keep: true, MinEvals: 20, CaseMax: 240 * time.Second,
		Rule: "Under the race detector, 2-12 borrowers per cluster use routing pools (Bolt 3 and 4) that refresh every few milliseconds: they query, fail, leave transactions open, close or lose connections and return them once, twice, twice at once, again later, to the wrong pool or not at all known, while members are killed, go away, come back, change roles and are listed for both. The servers tell which connection a borrower has: exclusivity and the shares per mode are checked at every step, borrowing may only fail when the share is in use or a fault is on, and afterwards exactly the shares must be borrowable. Members that drop every connection up to 4 ms after authenticating it must not make borrowing or stopping go on for ever. Several pools run at once. Pools also live through the absence of every member of one mode, during which the other must keep its share and not exceed it. Distinct and non-trivial: distinct (version, size, last use, kind of return, faults).",
		Run: func(t *core.T) {
			var jobs []core.Job
			for i := 0; i < t.Pick(40, 500); i++ {
				i := i
				v := 3 + i%2
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("churn/v%d/%d", v, i), Fn: func(c *core.C) { c21Churn(c, v, i%5, i%20 == 7) }})
			}
			for i := 0; i < t.Pick(16, 200); i++ {
				v := 3 + i%2
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("lost/v%d/%d", v, i), Fn: func(c *core.C) { c21Lost(c, v) }})
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("returns/v%d/%d", v, i), Fn: func(c *core.C) { c21Returns(c, v) }})
			}
			for i := 0; i < t.Pick(8, 80); i++ {
				v := 3 + i%2
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("brief/v%d/%d", v, i), Fn: func(c *core.C) { c21Brief(c, v) }})
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("without/v%d/%d", v, i), Fn: func(c *core.C) { c21Without(c, v) }})
			}
			t.Parallel(8, jobs)
		}})
}

var bothModes = []bolt_mode.AccessMode{bolt_mode.WriteMode, bolt_mode.ReadMode}

// c21Churn: 0 quiet, 1 kills, 2 kills and roles, 3 everything, 4 everything, members go away
func c21Churn(c *core.C, v, level int, large bool) {
	k := 2 + c.R.Intn(4)
	roles := dualRoles(c.R, randRoles(c.R, k, 1))
	cl := newCluster(c, v, k, level == 4 || c.R.Intn(2) == 0, roles...)
	n := 1 + poolSize(c.R)
	if large {
		n = 33 + c.R.Intn(80)
	}
	h := newRouted(c, "C21", cl, n, time.Duration(1+c.R.Intn(6))*time.Millisecond, "")
	if err := h.p.Start(); err != nil {
		c.Fail("start", "v%d: starting on healthy members failed: %s", v, errText(err))
		return
	}
	var wg, bg sync.WaitGroup
	stop := make(chan struct{})
	if level > 0 {
		r := newRand(c.R.Int63())
		guard(c, &bg, func() {
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(1+r.Intn(15)) * time.Millisecond):
				}
				what := r.Intn(level)
				switch {
				case what == 0:
					atomic.AddInt64(&h.faultA, 1)
					mode := []string{"half", "full", "rst", "farewell"}[r.Intn(4)]
					for _, s := range cl.members {
						for _, fc := range s.Conns() {
							if r.Intn(3) == 0 && !fc.IsPeerClosed() && !fc.Killed() && !isOverview(fc) {
								fc.Kill(mode)
								c.Event("connections killed", 1)
							}
						}
					}
					atomic.AddInt64(&h.faultB, 1)
				case what == 3:
					s := cl.members[r.Intn(k)]
					if s == cl.seed {
						continue
					}
					atomic.AddInt64(&h.faultA, 1)
					s.StopListening()
					time.Sleep(time.Duration(r.Intn(10)) * time.Millisecond)
					c.Must(s.Resume())
					atomic.AddInt64(&h.faultB, 1)
					c.Event("members down", 1)
				default:
					cl.set(dualRoles(r, randRoles(r, k, 1)))
					c.Event("role changes", 1)
				}
			}
		})
	}
	// modes with fewer borrowers than connections must always be served
	g := map[bolt_mode.AccessMode]int{}
	for _, mode := range bothModes {
		g[mode] = 1 + c.R.Intn(h.share(mode)+2)
	}
	rounds := c.T.Pick(25, 80)
	for _, mode := range bothModes {
		for i := 0; i < g[mode]; i++ {
			mode := mode
			name := fmt.Sprintf("%s borrower %d", modeName(mode), i)
			r := newRand(c.R.Int63())
			guard(c, &wg, func() {
				for k := 0; k < rounds && !c.Failed(); k++ {
					a := atomic.LoadInt64(&h.faultB)
					l, err := h.borrow(mode, name)
					if err != nil {
						if h.calm(a) && g[mode] <= h.share(mode) {
							h.fail("C21", "capacity lost", "v%d: borrowing for %s failed although at most %d of %d connections are in use: %s", v, modeName(mode), g[mode], h.share(mode), errText(err))
						}
						time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
						continue
					}
					did := h.use(r, l)
					if r.Intn(3) == 0 {
						time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
					}
					kind := h.returnSomehow(r, l)
					c.Event("returns", 1)
					c.Distinct("v%d n%d level %d %s returned %s", v, h.n, level, did, kind)
				}
			})
		}
	}
	if !within(60*time.Second, wg.Wait) {
		h.fail("C21", "stuck", "v%d: borrowers made no progress for a minute", v)
		c.Abort()
	}
	close(stop)
	bg.Wait()
	if c.Failed() {
		return
	}
	roles = dualRoles(c.R, randRoles(c.R, k, 1))
	cl.set(roles)
	if !cl.refreshed(3) {
		c.Fail("no refresh", "v%d: the overview was not asked for again within %v", v, 2*slow)
		return
	}
	if !h.probe(roles, "a random history", false) {
		return
	}
	if n := cl.settleHeld(h.n); n != h.n {
		_, per := cl.held()
		h.fail("C21", "connection count", "v%d: the driver holds %d connections to members after a random history, the pool is of %d: %v", v, n, h.n, per)
	}
}

func (h *routed) use(r *rand.Rand, l *rloan) string {
	if l.dead {
		return "dead"
	}
	conn := l.conn
	switch k := r.Intn(12); k {
	case 0, 1:
		conn.Query("F "+h.tok(), nil)
		return "fail"
	case 2:
		if tx, err := conn.Begin(); err == nil {
			tx.Query(h.tok(), nil)
		}
		return "abandon"
	case 3:
		if tx, err := conn.Begin(); err == nil {
			tx.Query(h.tok(), nil)
			tx.Commit()
		}
		return "commit"
	case 4:
		conn.Close()
		return "closed"
	case 5:
		conn.SetConnectionId("mine")
		return "renamed"
	case 6, 7:
		return "nothing"
	}
	id, err := who(conn, h.tok())
	if err == nil && id != l.id {
		h.fail("C21", "switched", "a borrowed connection is connection %d now and was %d", id, l.id)
	}
	return "query"
}

func (h *routed) returnSomehow(r *rand.Rand, l *rloan) string {
	h.release(l)
	kind := "once"
	first := func() {
		if err := h.p.Reclaim(l.conn); err != nil {
			h.fail("C21", "reclaim error", "returning a borrowed connection failed: %s", errText(err))
		}
	}
	switch r.Intn(9) {
	case 0:
		kind = "twice"
		first()
		h.p.Reclaim(l.conn)
	case 1:
		kind = "twice at once"
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			guard(h.c, &wg, func() { h.p.Reclaim(l.conn) })
		}
		wg.Wait()
	case 2:
		kind = "later again"
		first()
		h.mu.Lock()
		h.stale = append(h.stale, l.conn)
		h.mu.Unlock()
	default:
		first()
	}
	h.mu.Lock()
	var again connection.IConnection
	if len(h.stale) > 0 && r.Intn(3) == 0 {
		i := r.Intn(len(h.stale))
		again = h.stale[i]
		h.stale = append(h.stale[:i], h.stale[i+1:]...)
	}
	h.mu.Unlock()
	if again != nil {
		kind += "+stale"
		h.p.Reclaim(again)
	}
	return kind
}

// c21Lost has members drop idle and lent connections: every borrow that follows must be served.
func c21Lost(c *core.C, v int) {
	k := 2 + c.R.Intn(3)
	roles := dualRoles(c.R, randRoles(c.R, k, 1))
	cl := newCluster(c, v, k, true, roles...)
	interval := time.Hour // nothing but borrowing and returning replaces them
	if c.R.Intn(3) == 0 {
		interval = 5 * time.Millisecond
	}
	h := newRouted(c, "C21", cl, 2+c.R.Intn(6), interval, "")
	if err := h.p.Start(); err != nil {
		c.Fail("start", "v%d: starting on healthy members failed: %s", v, errText(err))
		return
	}
	for round := 0; round < h.n+3 && !c.Failed(); round++ {
		mode := []string{"half", "full", "rst", "farewell"}[c.R.Intn(4)]
		var held []*rloan
		for _, m := range bothModes {
			for i := c.R.Intn(h.share(m) + 1); i > 0; i-- {
				l, err := h.borrow(m, "holder")
				if err != nil || l.dead {
					h.fail("C21", "not replaced", "v%d, pool of %d, refresh every %v, round %d: borrowing for %s failed after idle connections were dropped: %v", v, h.n, interval, round, modeName(m), err)
					return
				}
				held = append(held, l)
			}
		}
		kill := c.R.Intn(3)
		for _, s := range cl.members {
			for _, fc := range s.Conns() {
				if c.R.Intn(3) <= kill {
					fc.Kill(mode)
				}
			}
		}
		if c.R.Intn(2) == 0 { // while others are still lent
			for _, m := range bothModes {
				busy := 0
				for _, l := range held {
					if l.mode == m {
						busy++
					}
				}
				if busy < h.share(m) {
					l, err := h.borrow(m, "next")
					if err != nil {
						h.fail("C21", "not replaced", "v%d, pool of %d, refresh every %v, round %d: borrowing for %s with %d of %d lent failed after connections were dropped (%s): %s", v, h.n, interval, round, modeName(m), busy, h.share(m), mode, errText(err))
						return
					}
					h.giveBack(l)
				}
			}
		}
		for _, l := range held {
			if c.R.Intn(5) == 0 {
				who(l.conn, h.tok())
			}
			h.giveBack(l)
		}
		if !h.probe(roles, fmt.Sprintf("members dropped connections (v%d, pool of %d, refresh every %v, %s, round %d)", v, h.n, interval, mode, round), false) {
			return
		}
		if n := cl.settleHeld(h.n); n != h.n {
			h.fail("C21", "connection count", "v%d, pool of %d, round %d: the driver holds %d connections", v, h.n, round, n)
			return
		}
		c.Distinct("lost v%d n%d %s kill%d refresh %v", v, h.n, mode, kill, interval < time.Second)
	}
}

// c21Returns returns connections in ways that are wrong.
func c21Returns(c *core.C, v int) {
	roles := []string{"LEADER", "FOLLOWER", "READ_REPLICA"}
	cl := newCluster(c, v, 3, true, roles...)
	h := newRouted(c, "C21", cl, 2+c.R.Intn(4), time.Hour, "")
	o := newRouted(c, "C21", cl, 2, time.Hour, "")
	if err := h.p.Start(); err != nil {
		c.Fail("start", "v%d: starting on healthy members failed: %s", v, errText(err))
		return
	}
	if err := o.p.Start(); err != nil {
		c.Fail("start", "v%d: starting on healthy members failed: %s", v, errText(err))
		return
	}
	s2 := &fake.Server{Version: v, Run: whoResult, NoLog: true}
	c.Serve(s2)
	for round := 0; round < 8 && !c.Failed(); round++ {
		mode := bothModes[c.R.Intn(2)]
		l, err := h.borrow(mode, "a")
		if err != nil || l.dead {
			h.fail("C21", "capacity lost", "v%d: borrowing failed: %v", v, err)
			return
		}
		kind := []string{"nil", "foreign", "foreign closed", "other pool's", "to the other pool", "stale, lent again", "stale, idle"}[c.R.Intn(7)]
		switch kind {
		case "nil":
			h.p.Reclaim(nil)
		case "foreign", "foreign closed":
			f, err := connection.CreateBoltConn(connURL(s2, ""))
			c.Must(err)
			if kind == "foreign closed" {
				f.Close()
			}
			h.p.Reclaim(f)
			quietClose(f)
		case "other pool's":
			f, err := o.p.BorrowRConnection()
			if err != nil {
				h.fail("C21", "capacity lost", "v%d: the other pool fails with %s", v, errText(err))
				return
			}
			h.p.Reclaim(f)
			o.p.Reclaim(f)
		case "to the other pool":
			o.p.Reclaim(l.conn)
		case "stale, lent again":
			h.giveBack(l)
			old := l
			var ls []*rloan
			for i := 0; i < h.share(mode); i++ {
				l, err := h.borrow(mode, fmt.Sprintf("b%d", i))
				if err != nil {
					h.fail("C21", "capacity lost", "v%d: borrowing failed: %v", v, err)
					return
				}
				ls = append(ls, l)
			}
			h.p.Reclaim(old.conn)
			for _, l := range ls {
				if id, err := who(l.conn, h.tok()); err != nil || id != l.id {
					h.fail("C21", "taken away", "v%d: a connection stopped working when its earlier borrower returned it once more: %v", v, err)
					return
				}
			}
			if x, err := h.borrow(mode, "c"); err == nil {
				h.fail("C21", "too many lent", "v%d: a stale return made room for one more connection", v)
				h.giveBack(x)
			}
			for _, l := range ls[1:] {
				h.giveBack(l)
			}
			l = ls[0]
		case "stale, idle":
			h.giveBack(l)
			h.p.Reclaim(l.conn)
			if l, err = h.borrow(mode, "a"); err != nil || l.dead {
				h.fail("C21", "capacity lost", "v%d: borrowing failed after a stale return: %v", v, err)
				return
			}
		}
		if id, err := who(l.conn, h.tok()); err != nil || id != l.id {
			h.fail("C21", "taken away", "v%d: a lent connection stopped working after a return (%s): %v", v, kind, err)
			return
		}
		h.giveBack(l)
		if !h.probe(roles, "a return of "+kind, false) || !o.probe(roles, "a return of "+kind+" to the other", false) {
			return
		}
		if n := cl.settleHeld(h.n + o.n); n != h.n+o.n {
			h.fail("C21", "connection count", "v%d: after a return of %s the driver holds %d connections for pools of %d and %d", v, kind, n, h.n, o.n)
			return
		}
		c.Distinct("returns v%d n%d %s", v, h.n, kind)
	}
}

// c21Without has all members for one mode go away for a while: the other mode keeps its share, no more and no less,
// and when they are back so does this one.
func c21Without(c *core.C, v int) {
	k := 2 + c.R.Intn(4)
	roles := randRoles(c.R, k, 1)
	cl := newCluster(c, v, k, true, roles...)
	interval := time.Hour
	if c.R.Intn(2) == 0 {
		interval = 5 * time.Millisecond
	}
	h := newRouted(c, "C21", cl, 2+c.R.Intn(8), interval, "")
	if err := h.p.Start(); err != nil {
		c.Fail("start", "v%d: starting on healthy members failed: %s", v, errText(err))
		return
	}
	for round := 0; round < 3 && !c.Failed(); round++ {
		gone := bothModes[c.R.Intn(2)]
		other := 1 - gone
		away := cl.eligible(roles, gone)
		label := fmt.Sprintf("v%d, pool of %d, refresh every %v, roles %v, members for %s away", v, h.n, interval, roles, modeName(gone))
		var held []*rloan
		for _, m := range bothModes {
			for i := c.R.Intn(h.share(m) + 1); i > 0; i-- {
				l, err := h.borrow(m, "holder")
				if err != nil || l.dead {
					h.fail("C21", "not replaced", "%s: before, borrowing for %s failed: %v", label, modeName(m), err)
					return
				}
				held = append(held, l)
			}
		}
		atomic.AddInt64(&h.faultA, 1)
		for i := range away {
			cl.members[i].StopListening()
			for _, fc := range cl.members[i].Conns() {
				fc.Kill([]string{"half", "full", "rst", "farewell"}[c.R.Intn(4)])
			}
		}
		if interval < time.Hour && c.R.Intn(2) == 0 {
			cl.refreshed(2)
		}
		for _, l := range held {
			if c.R.Intn(3) == 0 {
				who(l.conn, h.tok())
			}
			h.giveBack(l)
		}
		for try := c.R.Intn(3); try > 0; try-- { // a new one can not be had
			if conn, err := h.open(gone); err == nil {
				if _, err := who(conn, h.tok()); err == nil {
					h.fail("C21", "wrong member", "%s: a connection for %s works all the same", label, modeName(gone))
				}
				h.p.Reclaim(conn)
			}
		}
		var all []*rloan
		for i := 0; i < h.share(other); i++ {
			l, err := h.borrow(other, "rest")
			if err != nil || l.dead {
				h.fail("C21", "capacity lost", "%s: %d of the %d connections for %s can be borrowed: %v", label, i, h.share(other), modeName(other), err)
				break
			}
			all = append(all, l)
		}
		if conn, err := h.open(other); err == nil {
			h.fail("C21", "too many lent", "%s: %d connections for %s could be borrowed at once", label, h.share(other)+1, modeName(other))
			h.p.Reclaim(conn)
		}
		for _, l := range all {
			h.giveBack(l)
		}
		rest := func() (n int) { // those that are away may still have dead ones
			_, per := cl.held()
			for i, k := range per {
				if !away[i] {
					n += k
				}
			}
			return
		}
		for end := time.Now().Add(slow); rest() != h.share(other) && time.Now().Before(end); {
			time.Sleep(time.Millisecond)
		}
		if n := rest(); n != h.share(other) && !c.Failed() {
			h.fail("C21", "connection count", "%s: the driver holds %d connections to the others, the share of %s is %d", label, n, modeName(other), h.share(other))
		}
		for i := range away {
			c.Must(cl.members[i].Resume())
		}
		atomic.AddInt64(&h.faultB, 1)
		if c.Failed() {
			return
		}
		if interval < time.Hour && !cl.refreshed(3) {
			c.Fail("no refresh", "%s: the overview is not asked for any more", label)
			return
		}
		if !h.probe(roles, label+" and back", false) {
			return
		}
		if n := cl.settleHeld(h.n); n != h.n {
			_, per := cl.held()
			h.fail("C21", "connection count", "%s and back: the driver holds %d connections: %v", label, n, per)
			return
		}
		c.Event("modes without members", 1)
		c.Distinct("without v%d n%d %s refresh %v", v, h.n, modeName(gone), interval < time.Second)
	}
}
