package checks

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/mindstand/go-bolt/connection"

	"verif/core"
	"verif/fake"
)

func init() {
	core.Register(&core.Check{ID: "C11", MinEvals: 10,
		Rule: "The server answers the handshake with every legal version (in one or several segments, at random with other bytes behind it) and with every value of each byte, random values, other protocols' greetings, short answers and refusals. Everything the driver then sends is recorded: with a supported version only legal messages of exactly that version (a full session of queries and transactions is run), otherwise nothing at all after the 20 bytes of the offer, in particular no credential. Distinct and non-trivial: distinct (answer, segmentation, outcome).",
		Run: func(t *core.T) {
			var jobs []core.Job
			add := func(name string, f func(c *core.C)) { jobs = append(jobs, core.Job{Name: name, Fn: f}) }
			for v := 1; v <= 4; v++ {
				for i := 0; i < t.Pick(10, 100); i++ {
					v := v
					add(fmt.Sprintf("session/v%d/%d", v, i), func(c *core.C) { c11Session(c, v) })
				}
			}
			for i := 0; i < 4; i++ {
				for base := 0; base <= 4; base++ {
					i, base := i, base
					add(fmt.Sprintf("byte%d/base%d", i, base), func(c *core.C) {
						for x := 0; x < 256; x++ {
							rep := []byte{0, 0, 0, byte(base)}
							rep[i] = byte(x)
							if !c11Reply(c, rep) {
								return
							}
						}
					})
				}
			}
			add("greetings", func(c *core.C) {
				for _, g := range [][]byte{[]byte("HTTP"), []byte("HTTP/1.1 400 Bad Request\r\n\r\n"), {0x15, 3, 1, 0, 2, 2, 0x28}, {0}, {0, 0}, {0, 0, 0}, {4}, {0, 0, 4}, {0x60, 0x60, 0xb0, 0x17}, {0, 0, 0, 0, 0, 0, 0, 4}, {0, 0, 1, 4}, {0, 0, 2, 4}, {0, 4, 4, 4}, {4, 0, 0, 0}, {0, 0, 0, 0xff}, {0xff, 0xff, 0xff, 0xff}, {}} {
					if !c11Reply(c, g) {
						return
					}
				}
			})
			for j := 0; j < t.Pick(10, 100); j++ {
				add(fmt.Sprintf("random/%d", j), func(c *core.C) {
					for i := 0; i < 40; i++ {
						rep := make([]byte, 4)
						c.R.Read(rep)
						if !c11Reply(c, rep) {
							return
						}
					}
				})
			}
			t.Parallel(8, jobs)
		}})
}

func c11Session(c *core.C, v int) {
	other := 1 + c.R.Intn(4)
	ver := v
	s := &fake.Server{Version: v, CheckAuth: true, User: "neo4j", Pass: "secret"}
	// what servers say about themselves differs, and nothing of it is needed
	s.InitMeta = []obj{nil, {}, {"server": "Neo4j/9.9.9", "hints": obj{"x": int64(1)}, "routing": nil, "patch_bolt": arr{"utc"}}, {"server": nil}, {"connection_id": "bolt-1", "server": "Memgraph"}}[c.R.Intn(5)]
	s.OnConn = wire(c, true)
	c.Serve(s)
	s2 := c.Serve(&fake.Server{Version: other})
	conn := dial(c, s)
	conn2 := dial(c, s2) // another connection of another version must not matter
	c.Event("sessions", 1)
	c.Distinct("session v%d next to v%d", v, other)
	if conn.GetProtocolVersionNumber() != ver || !bytes.Equal(conn.GetProtocolVersionBytes(), []byte{0, 0, 0, byte(v)}) {
		c.Fail("version", "the server selected version %d, the connection reports %d %v", v, conn.GetProtocolVersionNumber(), conn.GetProtocolVersionBytes())
	}
	if conn2.GetProtocolVersionNumber() != other {
		c.Fail("version", "the server selected version %d, the connection reports %d", other, conn2.GetProtocolVersionNumber())
	}
	for i := 0; i < 2; i++ {
		for _, q := range []connection.IConnection{conn, conn2} {
			if _, _, err := q.Query("RETURN 1", connection.QueryParams{"a": int64(1)}); err != nil {
				c.Fail("query", "v%d: %s", v, errText(err))
			}
			tx, err := q.Begin()
			if err != nil {
				c.Fail("begin", "v%d: %s", v, errText(err))
				return
			}
			if _, err := tx.Exec("RETURN 2", nil); err != nil {
				c.Fail("exec", "v%d: %s", v, errText(err))
			}
			if i == 0 {
				err = tx.Commit()
			} else {
				err = tx.Rollback()
			}
			if err != nil {
				c.Fail("end", "v%d: %s", v, errText(err))
			}
		}
	}
	if conn.GetProtocolVersionNumber() != v || conn2.GetProtocolVersionNumber() != other {
		c.Fail("version", "the reported version changed")
	}
	conn.Close()
	conn2.Close()
	s.WaitReleased(slow)
	s2.WaitReleased(slow)
	for _, x := range []*fake.Server{s, s2} {
		for _, vi := range x.Violations() {
			c.Fail("message set "+vi.Kind, "v%d: %s", x.Version, vi.Detail)
			return
		}
		n := 0
		for _, fc := range x.Conns() {
			n += len(fc.Msgs())
		}
		c.Event("messages of the agreed version", int64(n))
	}
}

// c11Reply opens a connection to a server that answers the offer with these bytes.
func c11Reply(c *core.C, rep []byte) bool {
	v := 0
	if len(rep) >= 4 && rep[0] == 0 && rep[1] == 0 && rep[2] == 0 && rep[3] >= 1 && rep[3] <= 4 {
		v = int(rep[3])
	}
	s := &fake.Server{Version: v, Handshake: rep}
	one := c.R.Intn(4) == 0
	s.OnConn = func(fc *fake.Conn) {
		if one {
			fc.Wire.Seg = func() int { return 1 }
		}
		if len(rep) < 4 { // nothing more comes
			fc.Wire.KillTx = int64(len(rep))
			if len(rep) == 0 {
				fc.Wire.KillRx = 20
			}
		}
	}
	s.Start()
	defer s.Stop()
	start := time.Now()
	conn, err := connection.CreateBoltConn(connURL(s, "timeout=20"))
	c.Event("handshake answers", 1)
	c.Distinct("% x one=%v err=%v", rep[:min(len(rep), 4)], one, err != nil)
	if v > 0 && len(rep) == 4 {
		if err != nil || conn.GetProtocolVersionNumber() != v {
			c.Fail("supported", "the answer % x was not accepted: %s", rep, errText(err))
			return false
		}
		quietClose(conn)
		return true
	}
	if isNilErr(err) || conn != nil {
		if conn != nil {
			quietClose(conn)
		}
		c.Fail("accepted", "the answer % x to the version offer was accepted (connection %v, error %s)", rep, conn != nil, errText(err))
		return false
	}
	if d := time.Since(start); d > slow {
		c.Fail("slow", "the answer % x was refused only after %v", rep, d)
		return false
	}
	fc := s.Conns()[0]
	if !waitClosed(fc) {
		c.Fail("leak", "after the answer % x was refused the socket was not closed", rep)
		return false
	}
	if fc.Received() != 20 {
		c.Fail("sent", "after the answer % x the driver sent %d bytes beyond its offer", rep, fc.Received()-20)
		return false
	}
	for _, vi := range s.Violations() {
		c.Fail("offer", "%s", vi.Detail)
		return false
	}
	if strings.Contains(errText(err), "secret") {
		c.Fail("leak", "the error text contains the password: %s", errText(err))
		return false
	}
	return true
}
