package checks

import (
	"fmt"

	"verif/core"
)

func init() {
	core.Register(&core.Check{ID: "C09", MinEvals: 20,
		Rule: "A case is a history of API calls (versions 1-4) with several transaction handles, live and ended in every way (commit, rollback, failed statement, failed or unanswered commit, refused reset, idle, close, loss of the connection), through which statements keep being issued; each statement carries a unique text and the server's execution book says in which transaction, if any, it ran. Random histories, and the systematic product of every way to end a transaction with every later use of its handle. Distinct and non-trivial: distinct (version, call, state of the handle, fault, outcome).",
		Run: func(t *core.T) {
			jobs := append(append(marathons(t, "connection", "pool"), longHist(t, "C09")...), runHist(t, "C09", map[string]profile{
				"calm":  {fail: 30, len: 120, badDb: 60, badParam: 40, closeOp: 10},
				"fail":  {fail: 200, reset: 10, odd: 20, kill: 10, stall: 3, len: 80, badDb: 60},
				"chaos": {fail: 100, reset: 40, odd: 80, kill: 60, stall: 5, len: 60, closeOp: 60},
			}, t.Pick(20, 300))...)
			jobs = append(jobs, endings(t)...)
			t.Parallel(8, append(jobs, c06Faults(t)...))
		}})
}

// endings is the product of every way a transaction ends with every later use of its handle.
func endings(t *core.T) []core.Job {
	var jobs []core.Job
	ends := []string{"commit", "rollback", "failed statement", "failed pull", "failed commit", "failed rollback", "refused reset", "idle", "close", "kill", "conn failure", "odd", "commit killed"}
	for v := 1; v <= 4; v++ {
		for _, e := range ends {
			v, e := v, e
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("endings/v%d/%s", v, e), Fn: func(c *core.C) {
				for next := 0; next < 4; next++ {
					for use := 0; use < 5; use++ {
						h := newHist(c, c.T.Prop, v, profile{})
						db := ""
						if v >= 4 && use%2 == 1 {
							db = "movies"
						}
						h.begin(db)
						x := h.tx
						if x == nil {
							return
						}
						h.query(x, "", false)
						if h.stop {
							return
						}
						plan1 := func(k, at string) {
							h.force = &plan{kind: k, at: at, f: randFailure(c), mode: []string{"half", "full", "rst"}[use%3], cut: c.R.Intn(500)}
						}
						switch e {
						case "commit":
							h.finish(x, true)
						case "rollback":
							h.finish(x, false)
						case "failed statement":
							plan1("fail", "RUN")
							h.query(x, "", false)
						case "failed pull":
							plan1("failpull", "PULL")
							h.query(x, "", false)
						case "conn failure":
							plan1("fail", "RUN")
							h.query(nil, "", false)
						case "failed commit":
							plan1("fail", "COMMIT")
							h.finish(x, true)
						case "failed rollback":
							plan1("fail", "ROLLBACK")
							h.finish(x, false)
						case "refused reset":
							plan1("resetfail", "RUN")
							h.query(x, "", false)
						case "idle":
							h.did("idle")
							if err := h.conn.MakeIdle(); err != nil {
								h.fail("C10", "idle", "making a healthy connection idle failed: %s", errText(err))
							}
							h.endTx("idle")
							h.account()
						case "close":
							h.closeConn()
						case "kill":
							plan1("kill", "RUN")
							h.query(x, "", false)
						case "commit killed":
							plan1("killpart", "COMMIT")
							h.finish(x, true)
						case "odd":
							plan1("ignored", "RUN")
							h.query(x, "", false)
						}
						h.force = nil
						if !h.stop {
							h.truth()
						}
						// what happens in between
						var y *htx
						if !h.stop {
							switch next {
							case 1:
								h.query(nil, "", false)
							case 2:
								h.begin("")
								y = h.tx
							case 3:
								h.begin("")
								if h.tx != nil && !h.stop {
									h.finish(h.tx, true)
								}
							}
						}
						// and the ended handle is used again
						for i := 0; i < 2 && !h.stop; i++ {
							switch use {
							case 0, 3:
								h.query(x, "", false)
							case 1:
								h.query(x, db, false)
							case 2:
								h.finish(x, true)
							case 4:
								h.finish(x, false)
							}
						}
						if y != nil && !h.stop {
							h.query(y, "", false)
							if !h.stop {
								h.finish(y, true)
							}
						}
						if !h.stop {
							h.truth()
						}
						if !h.stop && !h.closed {
							h.closeConn()
						}
						if !h.stop {
							h.query(x, "", false)
						}
						if !h.stop {
							h.truth()
						}
						if h.stop {
							return
						}
					}
				}
			}})
		}
	}
	return jobs
}
