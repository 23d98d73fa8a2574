package checks

import (
	"fmt"
	"strings"

	"verif/core"
)

// c06Faults enumerates every fault at every request of every kind of operation, followed by further use.
func c06Faults(t *core.T) []core.Job {
	var jobs []core.Job
	kinds := []string{"fail", "failpull", "resetfail", "ignored", "record", "unknown", "notstruct", "badvalue", "latepair", "kill", "killpart", "stall", "late"}
	for v := 1; v <= 4; v++ {
		for _, k := range kinds {
			v, k := v, k
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("faults/v%d/%s", v, k), Fn: func(c *core.C) {
				for _, op := range []string{"query", "txquery", "begin", "commit", "rollback"} {
					for _, at := range []string{"RUN", "PULL", "BEGIN", "COMMIT", "ROLLBACK"} {
						own := strings.ToUpper(strings.TrimPrefix(op, "tx")) == at
						isQ := strings.HasSuffix(op, "query")
						if isQ && at != "RUN" && at != "PULL" || !isQ && !own && !(at == "PULL" && v < 3) {
							continue
						}
						if !isQ && (k == "failpull" || k == "badvalue" || k == "latepair" || (at == "PULL" && (k == "fail" || k == "resetfail"))) {
							continue
						}
						if k == "record" && isQ && at == "PULL" || k == "latepair" && at != "RUN" {
							continue
						}
						for n := 0; n < c.T.Pick(2, 8); n++ {
							h := newHist(c, c.T.Prop, v, profile{})
							if n%2 == 1 {
								h.query(nil, "", false)
							}
							if op == "txquery" || op == "commit" || op == "rollback" {
								h.begin("")
								h.query(h.tx, "", false)
							}
							h.force = &plan{kind: k, at: at, f: randFailure(c), n2: map[string]int{"failpull": n * 2, "badvalue": n, "late": 120}[k], mode: []string{"half", "full", "rst"}[n%3], cut: c.R.Intn(2000)}
							if k == "resetfail" {
								h.force.mode = []string{"", "ignored", "record", "notstruct", "hangup"}[c.R.Intn(5)]
							}
							if h.stop {
								return
							}
							var x *htx
							switch op {
							case "query":
								h.query(nil, "", false)
							case "txquery":
								x = h.tx
								h.query(x, "", false)
							case "begin":
								h.begin("")
							case "commit":
								x = h.tx
								h.finish(x, true)
							case "rollback":
								x = h.tx
								h.finish(x, false)
							}
							h.force = nil
							if !h.stop {
								h.truth()
							}
							for i := 0; i < 3 && !h.stop; i++ {
								if x != nil && !h.stop {
									h.query(x, "", false)
								}
								if x != nil && !h.stop {
									h.finish(x, i%2 == 0)
								}
								if !h.stop {
									h.query(nil, "", false)
								}
								if !h.stop {
									h.begin("")
								}
								if h.tx != nil && !h.stop {
									h.query(h.tx, "", false)
									if h.tx != nil && !h.stop {
										h.finish(h.tx, true)
									}
								}
								if !h.stop {
									h.truth()
								}
							}
							if !h.stop {
								h.closeConn()
							}
							if !h.stop {
								h.truth()
							}
							if h.stop {
								return
							}
						}
					}
				}
			}})
		}
	}
	return jobs
}
