package checks

import (
	"fmt"
	"math/rand"
	"strings"
	"sync/atomic"
	"time"

	"verif/core"
	"verif/fake"
)

func init() {
	core.Register(&core.Check{ID: "C23", Keep: true, MinEvals: 20, CaseMax: 240 * time.Second,
		Rule: "Overviews in both formats list each member's Bolt address among decoys (other schemes, hosts and paths that contain \"bolt\", other members' addresses), roles in any case and, on version 4, roles of other databases; a pool's connections must be exactly where the rows say. Then refreshes go wrong - failure, loss, cut after any byte, stall, no rows, wrong number of columns, every column of every type, unknown roles, missing system database, broken addresses - for several intervals: the known members must stay in service for new and old connections, borrowing must not wait, and the next good overview must be followed. Distinct and non-trivial: distinct (version, kind of bad overview, column, type).",
		Run: func(t *core.T) {
			var jobs []core.Job
			for i := 0; i < t.Pick(60, 600); i++ {
				v := 3 + i%2
				if i%10 == 9 {
					v = 1 + i/10%2
				}
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("table/v%d/%d", v, i), Fn: func(c *core.C) { c23Table(c, v) }})
			}
			for v := 3; v <= 4; v++ {
				for _, k := range badOverviews {
					for i := 0; i < t.Pick(2, 12); i++ {
						v, k := v, k
						jobs = append(jobs, core.Job{Name: fmt.Sprintf("bad/%s/v%d/%d", strings.ReplaceAll(k, " ", "-"), v, i), Fn: func(c *core.C) { c23Bad(c, v, k) }})
					}
				}
				for i := 0; i < t.Pick(12, 150); i++ {
					v := v
					jobs = append(jobs, core.Job{Name: fmt.Sprintf("bad/mix/v%d/%d", v, i), Fn: func(c *core.C) { c23Bad(c, v, "mix") }})
				}
			}
			t.Parallel(8, jobs)
		}})
}

// c23Table checks the table of one overview.
func c23Table(c *core.C, v int) {
	k := 2 + c.R.Intn(6)
	if c.R.Intn(8) == 0 {
		k = 9 + c.R.Intn(32)
	}
	roles := randRoles(c.R, k, 1+c.R.Intn(2))
	cl := newCluster(c, v, k, true, roles...)
	n := 2 * k
	h := newRouted(c, "C23", cl, n, 3*time.Millisecond, "")
	label := fmt.Sprintf("v%d, roles %v", v, roles)
	if err := h.p.Start(); err != nil {
		c.Fail("start", "%s: Start failed: %s", label, errText(err))
		return
	}
	for round := 0; round < 3; round++ {
		for _, m := range bothModes {
			used := map[int]bool{}
			el := cl.eligible(roles, m)
			var ls []*rloan
			for i := 0; i < h.share(m); i++ {
				l, err := h.borrow(m, "a")
				if err != nil || l.dead {
					c.Fail("capacity lost", "%s: borrowing for %s failed: %v", label, modeName(m), err)
					return
				}
				used[l.member] = true
				ls = append(ls, l)
				if !el[l.member] {
					c.Fail("wrong member", "%s: a connection for %s is to member %d", label, modeName(m), l.member)
					return
				}
			}
			if len(used) < len(el) && h.share(m) >= len(el) {
				c.Fail("member missing", "%s: of the %d members for %s only %v have connections", label, len(el), modeName(m), used)
				return
			}
			for _, l := range ls {
				h.giveBack(l)
			}
		}
		c.Event("tables", 1)
		c.Distinct("v%d table %s", v, roleSig(roles))
		roles = randRoles(c.R, k, 1+c.R.Intn(2))
		cl.set(roles)
		if !cl.refreshed(4) {
			c.Fail("no refresh", "%s: the overview was not asked for again within %v", label, 2*slow)
			return
		}
	}
}

var badOverviews = []string{"failure", "failure late", "lost", "lost full", "reset", "undecodable", "unexpected", "stall", "stall early", "no rows", "row short", "row long", "row empty", "column", "role unknown", "role empty", "role type", "no system", "address type", "no bolt address of a new member", "cut", "seed down", "held back", "address unreachable"}

// wrongs are values no column accepts in place of a string, list or map.
func wrongValue(r *rand.Rand, v, col int) interface{} {
	all := []interface{}{nil, int64(7), 1.5, true, arr{}, arr{int64(1)}, arr{nil}, obj{}, obj{"system": int64(3)}, obj{"system": nil}, obj{"System": "LEADER"}, "LEADER_", "x"}
	for {
		w := all[r.Intn(len(all))]
		_, str := w.(string)
		a, list := w.(arr)
		switch {
		case col == 0 && str:
		case col == 1 && list && len(a) == 0: // a member without addresses is skipped, not malformed
		case v != 4 && col == 2 && str && w == "LEADER":
		case v != 4 && col == 3 && list && len(a) == 0:
		case v != 4 && col == 4 && str:
		case v == 4 && col == 3: // groups are not used
			return nil
		default:
			return w
		}
	}
}

func (cl *cluster) badOverview(r *rand.Rand, kind string) (func() (*fake.Result, *fake.Act), string) {
	sig := kind
	mk := func(f func(g *fake.Result)) func() (*fake.Result, *fake.Act) {
		return func() (*fake.Result, *fake.Act) {
			g := cl.good()
			f(g)
			return g, nil
		}
	}
	act := func(a fake.Act) func() (*fake.Result, *fake.Act) {
		return func() (*fake.Result, *fake.Act) { b := a; return nil, &b }
	}
	i := r.Intn(1 << 20)
	pick := func(g *fake.Result) int { return i % len(g.Rows) }
	switch kind {
	case "failure":
		return func() (*fake.Result, *fake.Act) {
			return &fake.Result{Fail: &fake.Failure{Code: "Neo.X", Message: "no %s procedure"}}, nil
		}, sig
	case "failure late":
		return mk(func(g *fake.Result) { g.FailPull = &fake.Failure{Code: "Neo.X", Message: "late"} }), sig
	case "lost":
		return act(fake.Act{Close: "half", Before: true}), sig
	case "lost full":
		return act(fake.Act{Close: "full", Before: true}), sig
	case "reset":
		return act(fake.Act{Close: "rst"}), sig
	case "undecodable":
		return act(fake.Act{Raw: []byte{0, 3, 0xb1, 0x71, 0xc7, 0, 0}}), sig
	case "unexpected":
		return func() (*fake.Result, *fake.Act) {
			return &fake.Result{Fields: []string{"x"}, Rows: [][]interface{}{{"bolt://127.0.0.1:1"}}}, nil
		}, sig
	case "stall":
		return act(fake.Act{Stall: true}), sig
	case "stall early":
		return act(fake.Act{Stall: true, Before: true}), sig
	case "no rows":
		return mk(func(g *fake.Result) { g.Rows = nil }), sig
	case "row short":
		return mk(func(g *fake.Result) { j := pick(g); g.Rows[j] = g.Rows[j][:len(g.Rows[j])-1-i%2] }), sig
	case "row long":
		return mk(func(g *fake.Result) { j := pick(g); g.Rows[j] = append(g.Rows[j], "x") }), sig
	case "row empty":
		return mk(func(g *fake.Result) { g.Rows[pick(g)] = []interface{}{} }), sig
	case "column":
		col := r.Intn(3)
		if cl.v != 4 {
			col = r.Intn(5)
		}
		w := wrongValue(r, cl.v, col)
		return mk(func(g *fake.Result) { g.Rows[pick(g)][col] = w }), fmt.Sprintf("column %d %T", col, w)
	case "role unknown", "role empty":
		role := map[string]string{"role unknown": []string{"UNKNOWN", "ARBITER", "CANDIDATE", "LEADERLESS", "READ_WRITE", "FOLLOWER_OF_NONE"}[r.Intn(6)], "role empty": ""}[kind]
		return mk(func(g *fake.Result) {
			if cl.v == 4 {
				g.Rows[pick(g)][2] = obj{"system": role}
			} else {
				g.Rows[pick(g)][2] = role
			}
		}), sig
	case "role type":
		w := []interface{}{int64(3), nil, arr{"LEADER"}, 1.5, true, obj{"role": "LEADER"}}[r.Intn(6)]
		return mk(func(g *fake.Result) {
			if cl.v == 4 {
				g.Rows[pick(g)][2] = obj{"system": w, "neo4j": "LEADER"}
			} else {
				g.Rows[pick(g)][2] = w
			}
		}), sig
	case "no system":
		return mk(func(g *fake.Result) {
			if cl.v == 4 {
				g.Rows[pick(g)][2] = obj{"neo4j": "LEADER"}
			} else {
				g.Rows[pick(g)][2] = nil
			}
		}), sig
	case "address type":
		return mk(func(g *fake.Result) { g.Rows[pick(g)][1] = arr{"bolt://127.0.0.1:9", int64(3)} }), sig
	}
	return nil, sig
}

// refreshedConns waits until the seed was connected to k more times.
func (cl *cluster) refreshedConns(k int) bool {
	at := cl.seed.NConns()
	end := time.Now().Add(2 * slow)
	for cl.seed.NConns() < at+k {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(time.Millisecond)
	}
	return true
}

// c23Bad checks that bad overviews change nothing.
func c23Bad(c *core.C, v int, kind string) {
	k := 3 + c.R.Intn(3)
	roles := randRoles(c.R, k, 1)
	cl := newCluster(c, v, k, true, roles...)
	// everything else in a bad overview is about these
	false_ := randRoles(c.R, k, 1)
	timeout := "1"
	if strings.HasPrefix(kind, "stall") {
		timeout = "1"
	}
	h := newRouted(c, "C23", cl, 2+c.R.Intn(6), 3*time.Millisecond, "timeout="+timeout)
	if err := h.p.Start(); err != nil {
		c.Fail("start", "v%d: Start failed: %s", v, errText(err))
		return
	}
	rounds := 1
	if kind == "mix" {
		rounds = 4
	}
	for round := 0; round < rounds; round++ {
		name := kind
		if kind == "mix" {
			name = badOverviews[c.R.Intn(len(badOverviews))]
		}
		sig := name
		conns := cl.seed.NConns()
		served := atomic.LoadInt64(&cl.served)
		want := int64(3)
		switch name {
		case "seed down":
			cl.seed.StopListening()
			for _, fc := range cl.seed.Conns() {
				fc.Kill("rst")
			}
		case "held back":
			cl.mu.Lock()
			cl.hold = true
			cl.mu.Unlock()
			for _, fc := range cl.seed.Conns() {
				fc.Kill("half")
			}
		case "cut":
			// overviews of the true and the false roles have the same length,
			// so that no cut leaves a whole one
			false_ = append([]string{}, roles...)
			for fmt.Sprint(false_) == fmt.Sprint(roles) {
				c.R.Shuffle(k, func(x, y int) { false_[x], false_[y] = false_[y], false_[x] })
			}
			cl.mu.Lock()
			cl.plain = true
			cl.mu.Unlock()
			if !cl.refreshedConns(3) {
				c.Fail("no refresh", "v%d: the overview was not asked for again within %v", v, 2*slow)
				return
			}
			first := cl.seed.NConns()
			if !cl.refreshedConns(4) {
				c.Fail("no refresh", "v%d: the overview was not asked for again within %v", v, 2*slow)
				return
			}
			whole := int64(0)
			for _, fc := range cl.seed.Conns()[first:] {
				if fc.IsPeerClosed() && fc.Sent() > whole {
					whole = fc.Sent()
				}
			}
			if whole == 0 {
				return // not one was seen to the end
			}
			r := newRand(c.R.Int63())
			mode := []string{"half", "full", "rst"}[r.Intn(3)]
			cl.seed.StopListening()
			time.Sleep(2 * time.Millisecond)
			cl.seed.OnConn = func(fc *fake.Conn) {
				fc.Wire.KillTx = r.Int63n(whole)
				fc.Wire.Mode = mode
			}
			c.Must(cl.seed.Resume())
			// one that was under way may have been answered with the false roles
			cl.set(roles)
			cl.refreshedConns(2)
			cl.set(false_)
			want = 0
		case "no bolt address of a new member":
			cl.bad(func() (*fake.Result, *fake.Act) {
				g := cl.good()
				row := cl.row(0, "FOLLOWER")
				row[0] = "new"
				row[1] = arr{"http://bolt.example:7474", "https://127.0.0.1:1/bolt://"}
				g.Rows = append(g.Rows, row)
				return g, nil
			})
		case "address unreachable":
			cl.bad(func() (*fake.Result, *fake.Act) {
				g := cl.good()
				row := cl.row(0, "READ_REPLICA")
				row[0] = "new"
				row[1] = arr{"bolt://127.0.0.1:1"}
				g.Rows = append(g.Rows, row)
				return g, nil
			})
		default:
			f, s := cl.badOverview(c.R, name)
			sig = s
			if f == nil {
				panic("harness: no bad overview " + name)
			}
			cl.set(false_)
			cl.bad(f)
		}
		label := fmt.Sprintf("v%d, pool of %d, overview with %s", v, h.n, sig)
		// until the bad overview was tried
		end := time.Now().Add(2 * slow)
		if strings.HasPrefix(name, "stall") {
			want = 2
		}
		for name != "seed down" && name != "held back" && atomic.LoadInt64(&cl.served) < served+want || name == "held back" && atomic.LoadInt64(&cl.served) < served+1 {
			if time.Now().After(end) {
				c.Fail("no refresh", "%s: the overview was not asked for again within %v (%d connections to the seed before, %d now)", label, 2*slow, conns, cl.seed.NConns())
				return
			}
			time.Sleep(time.Millisecond)
		}
		if name == "seed down" {
			time.Sleep(20 * time.Millisecond)
		}
		if name == "cut" && !cl.refreshedConns(12) {
			c.Fail("no refresh", "%s: the overview was not asked for again within %v", label, 2*slow)
			return
		}
		c.Event("bad overviews", atomic.LoadInt64(&cl.served)-served)
		start := time.Now()
		if !h.probe(roles, label, false) {
			return
		}
		if d := time.Since(start); d > slow {
			c.Fail("borrowing waits", "%s: borrowing and returning took %v", label, d)
			return
		}
		// and for new connections: members drop the old ones
		for _, s := range cl.members {
			for _, fc := range s.Conns() {
				fc.Kill("half")
			}
		}
		if !h.probe(roles, label+", after the members dropped the connections", false) {
			return
		}
		// back to good ones
		roles = randRoles(c.R, k, 1)
		cl.set(roles)
		cl.bad(nil)
		cl.mu.Lock()
		cl.hold = false
		cl.plain = false
		cl.mu.Unlock()
		if name == "seed down" || name == "cut" {
			cl.seed.StopListening()
			time.Sleep(2 * time.Millisecond)
			cl.seed.OnConn = nil
			c.Must(cl.seed.Resume())
		}
		for _, fc := range cl.seed.Conns() {
			if fc.Stalled() {
				fc.Kill("half")
			}
		}
		if !cl.refreshed(4) {
			c.Fail("refresh ended", "%s: the overview is not asked for any more", label)
			return
		}
		if !h.probe(roles, label+" and good ones again", true) {
			return
		}
		c.Distinct("v%d %s", v, sig)
		false_ = randRoles(c.R, k, 1)
	}
}
