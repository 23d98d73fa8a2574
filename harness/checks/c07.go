package checks

import (
	"fmt"
	"strings"
	"time"

	"github.com/mindstand/go-bolt/connection"

	"verif/core"
	"verif/fake"
)

func init() {
	core.Register(&core.Check{ID: "C07", Keep: true, MinEvals: 20,
		Rule: "A case is a random history of API calls (versions 1-4) in which a quarter of the requests - RUN, PULL after some rows, BEGIN, COMMIT, ROLLBACK, RESET, INIT/HELLO - are answered by generated failures (empty, huge, formatting characters, nested metadata); the innermost error is compared with what the server sent, no rows may come with it, and the next valid call must succeed with its own result. Distinct and non-trivial: distinct (version, call, fault, place, outcome).",
		Run: func(t *core.T) {
			jobs := append(longHist(t, "C07"), runHist(t, "C07", map[string]profile{
				"fail":  {fail: 300, reset: 0, len: 90, badDb: 30},
				"reset": {fail: 150, reset: 60, len: 60, badParam: 40},
			}, t.Pick(25, 400))...)
			for v := 1; v <= 4; v++ {
				for i := 0; i < t.Pick(8, 60); i++ {
					v := v
					jobs = append(jobs, core.Job{Name: fmt.Sprintf("auth/v%d/%d", v, i), Fn: func(c *core.C) { c07Auth(c, v) }})
				}
			}
			for _, j := range c06Faults(t) {
				if strings.HasSuffix(j.Name, "/fail") || strings.HasSuffix(j.Name, "/failpull") || strings.HasSuffix(j.Name, "/resetfail") {
					jobs = append(jobs, j)
				}
			}
			t.Parallel(8, jobs)
		}})
}

func c07Auth(c *core.C, v int) {
	f := randFailure(c)
	fails := 1
	s := &fake.Server{Version: v}
	s.Fail = func(fc *fake.Conn, m *fake.Msg) *fake.Failure {
		if (m.Name == "INIT" || m.Name == "HELLO") && fails > 0 {
			fails--
			return f
		}
		return nil
	}
	s.OnConn = wire(c, false)
	c.Serve(s)
	conn, err := connection.CreateBoltConn(connURL(s, ""))
	c.Event("failures reported", 1)
	c.Distinct("v%d auth %s", v, trunc(f.Code))
	if isNilErr(err) || conn != nil {
		c.Fail("auth hidden", "v%d: the server refused the authentication and the open returned %v, %v", v, conn, err)
		return
	}
	g, ok := failureOf(err)
	if !ok {
		c.Fail("auth failure", "v%d: authentication failed with %q but the innermost error is %T %s", v, trunc(f.Message), innermost(err), errText(innermost(err)))
		return
	}
	if d := same(obj(g.Metadata), liftMap(f.Map())); d != "" {
		c.Fail("auth failure", "v%d: the failure differs from the server's at %s", v, d)
	}
	if held := s.WaitReleased(slow); len(held) > 0 {
		c.Fail("auth leak", "v%d: the connection of a refused authentication is still held after %v", v, slow)
	}
	time.Sleep(0)
	conn2, err := connection.CreateBoltConn(connURL(s, ""))
	if err != nil {
		c.Fail("auth recovery", "v%d: a connection after a refused one failed: %s", v, errText(err))
		return
	}
	conn2.Close()
}
