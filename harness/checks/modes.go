package checks

import (
	"fmt"
	"strings"
	"sync"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"

	"verif/core"
	"verif/fake"
)

// modeBook notes the access mode each statement arrived with.
type modeBook struct {
	mu   sync.Mutex
	tx   map[*fake.Conn]string
	with map[string]string
}

func (b *modeBook) hook(s *fake.Server) {
	old := s.Hook
	s.Hook = func(fc *fake.Conn, m *fake.Msg, rep []interface{}) ([]interface{}, *fake.Act) {
		mode, _ := m.Extra["mode"].(string)
		b.mu.Lock()
		switch {
		case m.Name == "BEGIN":
			b.tx[fc] = mode
		case m.Name == "COMMIT", m.Name == "ROLLBACK", m.Name == "RESET":
			delete(b.tx, fc)
		case m.Name == "RUN" && strings.HasPrefix(m.Query, "W "):
			if t, in := b.tx[fc]; in {
				mode = t + mode
			}
			b.with[m.Query] = mode
		}
		b.mu.Unlock()
		if old != nil {
			return old(fc, m, rep)
		}
		return rep, nil
	}
}

// c12Modes has connections opened for reading and for writing in turn: what is opened for writing is never marked
// as reading, whoever had the connection before.
func c12Modes(c *core.C, v int, how string) {
	b := &modeBook{tx: map[*fake.Conn]string{}, with: map[string]string{}}
	var open func(bolt_mode.AccessMode) (connection.IConnection, error)
	back := func(conn connection.IConnection) { quietClose(conn) }
	n := 1 + c.R.Intn(3)
	if how == "routed" {
		cl := newClusterWith(c, v, 3, c.R.Intn(2) == 0, func(i int, s *fake.Server) { b.hook(s) }, "LEADER", "FOLLOWER", "READ_REPLICA")
		client, err := goBolt.NewClient(goBolt.WithConnectionString(strings.Replace(cl.url("timeout=20"), "bolt://", "bolt+routing://", 1)))
		c.Must(err)
		p, err := client.NewDriverPool(2 * n)
		if err != nil {
			c.Fail("start", "v%d: a routed pool of %d was refused: %s", v, 2*n, errText(err))
			return
		}
		c.Defer(func() { p.Close() })
		open, back = p.Open, func(conn connection.IConnection) { p.Reclaim(conn) }
	} else {
		s := &fake.Server{Version: v, Run: whoResult, NoLog: true}
		b.hook(s)
		c.Serve(s)
		if how == "pool" {
			p := newPool(c, s, n, "timeout=20")
			c.Defer(func() { p.Close() })
			open, back = p.Open, func(conn connection.IConnection) { p.Reclaim(conn) }
		} else {
			client, err := goBolt.NewClient(goBolt.WithConnectionString(connURL(s, "timeout=20")))
			c.Must(err)
			d, err := client.NewDriver()
			c.Must(err)
			open = d.Open
		}
	}
	wants := map[string]bolt_mode.AccessMode{}
	var held []connection.IConnection
	var modes []bolt_mode.AccessMode
	count := map[bolt_mode.AccessMode]int{}
	tok := 0
	history := ""
	for step := 0; step < c.T.Pick(60, 400) && !c.Failed(); step++ {
		mode := bolt_mode.AccessMode(c.R.Intn(2))
		room := len(held) < n
		if how == "routed" {
			room = count[mode] < n
		}
		if len(held) > 0 && (c.R.Intn(2) == 0 || !room) {
			i := c.R.Intn(len(held))
			back(held[i])
			count[modes[i]]--
			held, modes = append(held[:i:i], held[i+1:]...), append(modes[:i:i], modes[i+1:]...)
			continue
		}
		if !room {
			continue
		}
		conn, err := open(mode)
		if err != nil {
			c.Fail("open", "v%d, %s: opening for %s failed: %s", v, how, modeName(mode), errText(err))
			return
		}
		held, modes = append(held, conn), append(modes, mode)
		count[mode]++
		history += fmt.Sprintf(" %s", modeName(mode))
		c.Event("openings", 1)
		use := c.R.Intn(4)
		q := func() string {
			tok++
			t := fmt.Sprintf("W %d", tok)
			wants[t] = mode
			return t
		}
		switch use {
		case 0:
			conn.Query(q(), nil)
		case 1:
			conn.Exec(q(), nil)
		case 2, 3:
			tx, err := conn.Begin()
			if err != nil {
				c.Fail("begin", "v%d, %s: Begin failed: %s", v, how, errText(err))
				return
			}
			tx.Query(q(), nil)
			if use == 3 {
				tx.Exec(q(), nil)
			} else if c.R.Intn(2) == 0 {
				tx.Commit()
				conn.Query(q(), nil)
			}
		}
		b.mu.Lock()
		for t, want := range wants {
			got, ran := b.with[t]
			if !ran {
				c.Fail("not run", "v%d, %s: %q on a connection opened for %s did not reach the server", v, how, t, modeName(want))
			} else if want == bolt_mode.WriteMode && strings.Contains(got, "r") {
				c.Fail("write marked", "v%d, %s: after opening for%s, work on the one opened for writing was marked as reading (use %d)", v, how, history, use)
			}
			delete(wants, t)
			c.Event("statements", 1)
		}
		b.mu.Unlock()
		c.Distinct("modes v%d %s %s use%d", v, how, modeName(mode), use)
	}
	for _, conn := range held {
		back(conn)
	}
}
