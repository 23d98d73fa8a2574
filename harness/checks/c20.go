package checks

import (
	"fmt"
	"strings"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"

	"verif/core"
	"verif/fake"
)

func init() {
	core.Register(&core.Check{ID: "C20", Keep: true, MinEvals: 20, CaseMax: 240 * time.Second,
		Rule: "Fake clusters of 2-7 members (Bolt 3 and 4 overview formats) change roles, gain and lose members, while connections are idle, lent or being refreshed; after the overview was asked for three more times everything the pool has is borrowed: the server of each connection must have the role for it in the last overview, every eligible member must be used as far as the share goes, and the share must be complete. Distinct and non-trivial: distinct (version, size, roles before, roles after, lent over the change).",
		Run: func(t *core.T) {
			var jobs []core.Job
			for i := 0; i < t.Pick(48, 600); i++ {
				v := 3 + i%2
				if i%8 == 7 {
					v = 1 + i/8%2
				}
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("topology/v%d/%d", v, i), Fn: func(c *core.C) { c20Topology(c, v) }})
			}
			for i := 0; i < t.Pick(16, 100); i++ {
				v := 3 + i%2
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("client/v%d/%d", v, i), Fn: func(c *core.C) { c20Client(c, v) }})
			}
			for i := 0; i < t.Pick(12, 100); i++ {
				v := 3 + i%2
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("member down/v%d/%d", v, i), Fn: func(c *core.C) { c20Down(c, v) }})
			}
			for i := 0; i < t.Pick(16, 150); i++ {
				v := 3 + i%2
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("nobody for a mode/v%d/%d", v, i), Fn: func(c *core.C) { c20Gap(c, v) }})
			}
			t.Parallel(8, jobs)
		}})
}

// c20Gap: for a while the overview knows no leader, or nobody for reading; nobody else takes their place, the other
// mode keeps working, and what was lost comes back with them.
func c20Gap(c *core.C, v int) {
	k := 2 + c.R.Intn(5)
	roles := randRoles(c.R, k, 1)
	cl := newCluster(c, v, k, true, roles...)
	h := newRouted(c, "C20", cl, 2+c.R.Intn(9), 4*time.Millisecond, "")
	if err := h.p.Start(); err != nil {
		c.Fail("start", "v%d: starting a pool of %d on healthy members %v failed: %s", v, h.n, roles, errText(err))
		return
	}
	for round := 0; round < 3 && !c.Failed(); round++ {
		before := roles
		roles = append([]string{}, before...)
		missing := bolt_mode.AccessMode(c.R.Intn(2))
		how := c.R.Intn(3)
		for i, r := range roles {
			switch {
			case missing == bolt_mode.WriteMode && r == "LEADER":
				roles[i] = []string{"FOLLOWER", "", "READ_REPLICA"}[how]
			case missing == bolt_mode.ReadMode && r != "LEADER":
				roles[i] = ""
			}
		}
		if missing == bolt_mode.ReadMode && c.R.Intn(2) == 0 { // and another leads
			a, b := indexOf(roles, "LEADER"), c.R.Intn(k)
			roles[a], roles[b] = roles[b], roles[a]
		}
		var held []*rloan
		for i := c.R.Intn(h.n); i > 0; i-- {
			mode := bolt_mode.AccessMode(c.R.Intn(2))
			if l, err := h.borrow(mode, fmt.Sprintf("holder %d", i)); err == nil {
				held = append(held, l)
			}
		}
		label := fmt.Sprintf("v%d, pool of %d: roles changed from %v to %v with %d lent", v, h.n, before, roles, len(held))
		cl.set(roles)
		if !cl.refreshed(3) {
			c.Fail("no refresh", "v%d: the overview was not asked for again within %v", v, 2*slow)
			return
		}
		look := func(when string) {
			for try := 0; try < 3; try++ {
				for _, mode := range []bolt_mode.AccessMode{bolt_mode.WriteMode, bolt_mode.ReadMode} {
					l, err := h.borrow(mode, "in the gap")
					switch {
					case err == nil && !l.dead && !cl.eligible(roles, mode)[l.member]:
						h.fail("C20", "wrong member", "%s: %s, a connection for %s is to member %d", label, when, modeName(mode), l.member)
					case err != nil && mode != missing && len(held) == 0 && when != "at first":
						h.fail("C20", "capacity lost", "%s: %s, no connection for %s can be borrowed: %s", label, when, modeName(mode), errText(err))
					}
					if err == nil {
						h.giveBack(l)
					}
				}
			}
		}
		look("at first")
		// overviews are not answered meanwhile, so what is known now has to do
		cl.answering(c.R.Intn(2) == 0)
		for _, l := range held {
			h.giveBack(l)
		}
		held = nil
		look("after all returns")
		var all []*rloan
		for _, mode := range bothModes {
			for i := 0; i < h.share(mode); i++ {
				l, err := h.borrow(mode, "taking all in the gap")
				if err != nil {
					break
				}
				all = append(all, l)
				if !l.dead && !cl.eligible(roles, mode)[l.member] {
					h.fail("C20", "wrong member", "%s: when all were returned, a connection for %s is to member %d", label, modeName(mode), l.member)
				}
			}
		}
		for _, l := range all {
			h.giveBack(l)
		}
		cl.answering(true)
		if !cl.refreshed(3) {
			c.Fail("no refresh", "v%d: the overview was not asked for again within %v", v, 2*slow)
			return
		}
		look("after another refresh")
		roles = randRoles(c.R, k, 1)
		if c.R.Intn(2) == 0 {
			roles = before
		}
		cl.set(roles)
		if !cl.refreshed(4) {
			c.Fail("no refresh", "v%d: the overview was not asked for again within %v", v, 2*slow)
			return
		}
		if !h.probe(roles, label+fmt.Sprintf(" and then to %v", roles), true) {
			return
		}
		c.Event("gaps", 1)
		c.Distinct("gap v%d n%d %s missing %s", v, h.n, roleSig(before), modeName(missing))
	}
}

func c20Topology(c *core.C, v int) {
	k := 2 + c.R.Intn(6)
	if c.R.Intn(8) == 0 { // a large cluster
		if k = 9 + c.R.Intn(8); c.R.Intn(3) == 0 {
			k = 17 + c.R.Intn(16)
		}
	}
	leaders := 1
	if c.R.Intn(4) == 0 {
		leaders = 2
	}
	roles := randRoles(c.R, k, leaders)
	cl := newCluster(c, v, k, c.R.Intn(2) == 0, roles...)
	n := 2 + c.R.Intn(11)
	if k > 7 && (k < 20 || c.R.Intn(2) == 0) {
		n = 2*k + c.R.Intn(8)
	}
	h := newRouted(c, "C20", cl, n, 4*time.Millisecond, "")
	if err := h.p.Start(); err != nil {
		c.Fail("start", "v%d: starting a pool of %d on healthy members %v failed: %s", v, h.n, roles, errText(err))
		return
	}
	if !h.probe(roles, fmt.Sprintf("the start (v%d, pool of %d, roles %v)", v, h.n, roles), true) {
		return
	}
	for round := 0; round < 5 && !c.Failed(); round++ {
		before := roles
		roles = dualRoles(c.R, randRoles(c.R, k, leaders))
		switch c.R.Intn(4) {
		case 0: // only the leader changes
			roles = append([]string{}, before...)
			a, b := indexOf(roles, "LEADER"), c.R.Intn(k)
			if a < 0 {
				a = indexOf(roles, both)
			}
			roles[a], roles[b] = roles[b], roles[a]
			if len(cl.eligible(roles, bolt_mode.ReadMode)) == 0 {
				roles = before
			}
		case 1: // a member joins
			roles = append([]string{}, before...)
			for i, r := range roles {
				if r == "" {
					roles[i] = "FOLLOWER"
					break
				}
			}
		}
		if c.R.Intn(4) == 0 { // a pool that was stopped and started again goes on like a new one
			h.p.Stop()
			if err := h.p.Start(); err != nil {
				c.Fail("start", "v%d: starting a stopped pool of %d again on healthy members %v failed: %s", v, h.n, before, errText(err))
				return
			}
			c.Event("restarts", 1)
		}
		// some connections are lent over the change
		var held []*rloan
		for i := c.R.Intn(h.n); i > 0; i-- {
			mode := bolt_mode.AccessMode(c.R.Intn(2))
			if l, err := h.borrow(mode, fmt.Sprintf("holder %d", i)); err == nil {
				held = append(held, l)
			}
		}
		cl.set(roles)
		if !cl.refreshed(3) {
			c.Fail("no refresh", "v%d: the overview was not asked for again within %v", v, 2*slow)
			return
		}
		label := fmt.Sprintf("v%d, pool of %d: roles changed from %v to %v with %d lent", v, h.n, before, roles, len(held))
		// what is handed out now is eligible
		for _, mode := range []bolt_mode.AccessMode{bolt_mode.WriteMode, bolt_mode.ReadMode} {
			if l, err := h.borrow(mode, "new"); err == nil {
				if !l.dead && !cl.eligible(roles, mode)[l.member] {
					h.fail("C20", "wrong member", "%s: a connection for %s is to member %d afterwards", label, modeName(mode), l.member)
				}
				h.giveBack(l)
			}
		}
		cl.answering(c.R.Intn(2) == 0)
		for i, l := range held {
			switch i % 4 {
			case 1:
				l.conn.Begin()
			case 2:
				if c.R.Intn(3) == 0 {
					l.conn.Close()
				}
			}
			h.giveBack(l)
		}
		if c.R.Intn(2) == 0 { // right after the return
			if !h.probe(roles, label, false) {
				cl.answering(true)
				return
			}
		}
		cl.answering(true)
		if !cl.refreshed(3) {
			c.Fail("no refresh", "v%d: the overview was not asked for again within %v", v, 2*slow)
			return
		}
		if !h.probe(roles, label, true) {
			return
		}
		if n := cl.settleHeld(h.n); n != h.n {
			_, per := cl.held()
			h.fail("C20", "connection count", "%s: the driver holds %d connections to members: %v", label, n, per)
			return
		}
		for i, r := range roles {
			if _, per := cl.held(); r == "" && per[i] > 0 {
				h.fail("C20", "member kept", "%s: there are still %d connections to member %d, which left", label, per[i], i)
				return
			}
		}
		c.Event("topology changes", 1)
		c.Distinct("v%d n%d %s>%s held%d", v, h.n, roleSig(before), roleSig(roles), len(held))
	}
}

func indexOf(s []string, x string) int {
	for i, y := range s {
		if x == y {
			return i
		}
	}
	return -1
}

// c20Client goes through the client.
func c20Client(c *core.C, v int) {
	k := 2 + c.R.Intn(4)
	roles := randRoles(c.R, k, 1)
	cl := newCluster(c, v, k, c.R.Intn(2) == 0, roles...)
	client, err := goBolt.NewClient(goBolt.WithConnectionString(strings.Replace(cl.url("timeout=20"), "bolt://", "bolt+routing://", 1)))
	c.Must(err)
	n := 2 + c.R.Intn(6)
	p, err := client.NewDriverPool(n)
	if err != nil {
		c.Fail("start", "v%d: a routed pool of %d on healthy members %v was refused: %s", v, n, roles, errText(err))
		return
	}
	defer p.Close()
	for round := 0; round < 3; round++ {
		var conns []connection.IConnection
		seen := map[int]bool{}
		for i := 0; i < n; i++ {
			mode := bolt_mode.WriteMode
			if i >= n-n/2 {
				mode = bolt_mode.ReadMode
			}
			conn, err := p.Open(mode)
			if err != nil {
				c.Fail("capacity lost", "v%d: opening connection %d of %d for %s failed: %s", v, i, n, modeName(mode), errText(err))
				return
			}
			conns = append(conns, conn)
			id, err := who(conn, fmt.Sprintf("W %d", i))
			if err != nil {
				c.Fail("dead", "v%d: a routed connection does not work: %s", v, errText(err))
				return
			}
			if seen[id] {
				c.Fail("shared", "v%d: connection %d was lent twice", v, id)
				return
			}
			seen[id] = true
			if !cl.eligible(roles, mode)[id/100000] {
				c.Fail("wrong member", "v%d: a connection opened for %s is to member %d, the roles are %v", v, modeName(mode), id/100000, roles)
				return
			}
		}
		for _, conn := range conns {
			if err := p.Reclaim(conn); err != nil {
				c.Fail("reclaim error", "v%d: %s", v, errText(err))
				return
			}
		}
	}
	c.Distinct("client v%d n%d %s", v, n, roleSig(roles))
}

// c20Down has eligible members that can not be reached: the others are used, and they are once they are back.
func c20Down(c *core.C, v int) {
	k := 3 + c.R.Intn(3)
	roles := make([]string, k)
	for i := range roles {
		roles[i] = "FOLLOWER"
	}
	roles[0] = "LEADER"
	cl := newCluster(c, v, k, true, roles...)
	h := newRouted(c, "C20", cl, 4+c.R.Intn(8), 4*time.Millisecond, "")
	down := 1 + c.R.Intn(k-1)
	late := c.R.Intn(2) == 0
	take := func() {
		cl.members[down].StopListening()
		for _, fc := range cl.members[down].Conns() {
			fc.Kill([]string{"half", "full", "rst", "farewell"}[c.R.Intn(4)])
		}
	}
	if !late {
		take()
	}
	if err := h.p.Start(); err != nil {
		if !late {
			c.Distinct("v%d start refused with a member down", v)
			return
		}
		c.Fail("start", "v%d: starting on healthy members failed: %s", v, errText(err))
		return
	}
	if late {
		take()
	}
	if !cl.refreshed(3) {
		c.Fail("no refresh", "v%d: the overview was not asked for again within %v", v, 2*slow)
		return
	}
	label := fmt.Sprintf("v%d, pool of %d: follower %d of %d being down", v, h.n, down, k)
	if !h.probe(roles, label, false) {
		return
	}
	c.Must(cl.members[down].Resume())
	if !cl.refreshed(4) {
		c.Fail("no refresh", "v%d: the overview was not asked for again within %v", v, 2*slow)
		return
	}
	if !h.probe(roles, label+" and back again", true) {
		return
	}
	c.Distinct("%s late %v", label, late)
}

var _ = fake.Ready
