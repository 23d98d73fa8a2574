package checks

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"

	"verif/core"
	"verif/fake"
)

// brief makes a server drop connections a while after it authenticated them.
type brief struct {
	on    int32
	delay int64 // of the drop
	pause int64 // before the answer
	how   string
	got   int64
}

func (b *brief) hook(s *fake.Server) {
	old := s.Hook
	s.Hook = func(fc *fake.Conn, m *fake.Msg, rep []interface{}) ([]interface{}, *fake.Act) {
		if (m.Name == "INIT" || m.Name == "HELLO") && atomic.LoadInt32(&b.on) != 0 {
			atomic.AddInt64(&b.got, 1)
			time.Sleep(time.Duration(atomic.LoadInt64(&b.pause)))
			d := time.Duration(atomic.LoadInt64(&b.delay))
			if d == 0 {
				return rep, &fake.Act{Close: b.how}
			}
			go func() { time.Sleep(d); fc.Kill(b.how) }()
		}
		if old != nil {
			return old(fc, m, rep)
		}
		return rep, nil
	}
}

// c21Brief has members drop connections as soon as they were opened: borrowing and stopping end all the same.
func c21Brief(c *core.C, v int) {
	b := &brief{how: []string{"half", "full", "rst"}[c.R.Intn(3)]}
	k := 2 + c.R.Intn(3)
	roles := randRoles(c.R, k, 1)
	all := c.R.Intn(3) > 0
	bad := map[int]bool{}
	cl := newClusterWith(c, v, k, true, func(i int, s *fake.Server) {
		if i < k && (all || c.R.Intn(2) == 0) {
			bad[i] = true
			b.hook(s)
		}
	}, roles...)
	interval := time.Hour
	if c.R.Intn(3) == 0 {
		interval = time.Duration(5+c.R.Intn(50)) * time.Millisecond
	}
	h := newRouted(c, "C21", cl, 2+c.R.Intn(6), interval, "")
	if err := h.p.Start(); err != nil {
		c.Fail("start", "v%d: starting on healthy members failed: %s", v, errText(err))
		return
	}
	for round := 0; round < 4 && !c.Failed(); round++ {
		atomic.StoreInt64(&b.delay, []int64{0, 0, 3e5, 1e6, 15e5, 2e6, 25e5, 4e6}[c.R.Intn(8)])
		atomic.StoreInt32(&b.on, 1)
		for _, s := range cl.members {
			for _, fc := range s.Conns() {
				fc.Kill(b.how)
			}
		}
		for _, mode := range bothModes {
			healthy := 0
			for m := range cl.eligible(roles, mode) {
				if !bad[m] {
					healthy++
				}
			}
			label := fmt.Sprintf("v%d, pool of %d, refresh every %v, %d of %d members for %s drop connections %v after they are opened (%s)", v, h.n, interval, len(cl.eligible(roles, mode))-healthy, len(cl.eligible(roles, mode)), modeName(mode), time.Duration(b.delay), b.how)
			for i := 0; i < 3; i++ {
				var conn connection.IConnection
				var err error
				if !within(2*slow, func() { conn, err = h.open(mode) }) {
					n := atomic.LoadInt64(&b.got)
					h.fail("C21", "endless", "%s: borrowing did not return in %v, %d connections were opened meanwhile", label, 2*slow, n)
					atomic.StoreInt32(&b.on, 0)
					c.Abort()
				}
				if (err == nil) == (conn == nil) {
					h.fail("C21", "borrow both", "%s: borrowing returned the connection %v and the error %v", label, conn != nil, err)
					return
				}
				c.Distinct("brief v%d %v %v healthy%v err=%v", v, time.Duration(b.delay), b.how, healthy > 0, err != nil)
				if err == nil {
					who(conn, h.tok())
					h.p.Reclaim(conn)
				}
			}
		}
		atomic.StoreInt32(&b.on, 0)
		time.Sleep(10 * time.Millisecond)
		if round == 3 {
			break
		}
		if !h.probe(roles, "members dropped connections as soon as they were opened", false) {
			return
		}
	}
	atomic.StoreInt32(&b.on, 1)
	if !within(2*slow, func() { h.p.Stop() }) {
		h.fail("C21", "endless", "v%d: stopping did not return while members drop connections", v)
	}
	atomic.StoreInt32(&b.on, 0)
}

// c14Brief has a server drop connections as soon as it authenticated them: opening from a pool ends all the same.
func c14Brief(c *core.C, v int) {
	b := &brief{how: []string{"half", "full", "rst"}[c.R.Intn(3)]}
	s := &fake.Server{Version: v, Run: whoResult, NoLog: true}
	b.hook(s)
	c.Serve(s)
	for _, pause := range []time.Duration{0, 130 * time.Millisecond} {
		for _, d := range []time.Duration{0, 500 * time.Microsecond, 1500 * time.Microsecond, 3 * time.Millisecond} {
			n := 1 + c.R.Intn(3)
			p := newPool(c, s, n, "timeout=20")
			atomic.StoreInt64(&b.pause, int64(pause))
			atomic.StoreInt64(&b.delay, int64(d))
			atomic.StoreInt32(&b.on, 1)
			label := fmt.Sprintf("v%d: the server authenticates after %v and drops the connection %v later (%s); pool of %d", v, pause, d, b.how, n)
			var wg sync.WaitGroup
			for g := 0; g < n; g++ {
				guard(c, &wg, func() {
					conn, err := p.Open(bolt_mode.WriteMode)
					if (err == nil) == (conn == nil) {
						c.Fail("both", "%s: Open returned the connection %v and the error %v", label, conn != nil, err)
					}
					if err == nil {
						who(conn, "W 1")
						p.Reclaim(conn)
					}
					c.Distinct("brief v%d %v %v err=%v", v, pause, d, err != nil)
				})
			}
			if !within(2*slow, wg.Wait) {
				c.Fail("endless", "%s: Open did not return in %v, %d connections were opened meanwhile", label, 2*slow, atomic.LoadInt64(&b.got))
				atomic.StoreInt32(&b.on, 0)
				p.Close()
				return
			}
			atomic.StoreInt32(&b.on, 0)
			time.Sleep(5 * time.Millisecond)
			conn, err := p.Open(bolt_mode.WriteMode)
			if err != nil {
				c.Fail("not again", "%s: when the server is well again, Open fails with %s", label, errText(err))
				return
			}
			if _, err := who(conn, "W 2"); err != nil {
				c.Fail("not again", "%s: when the server is well again, a query fails with %s", label, errText(err))
				return
			}
			p.Reclaim(conn)
			p.Close()
			c.Event("brief", 1)
		}
	}
}
