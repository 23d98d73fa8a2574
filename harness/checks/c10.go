package checks

import (
	"fmt"

	"verif/core"
)

func init() {
	core.Register(&core.Check{ID: "C10", MinEvals: 20,
		Rule: "A case is a history of API calls (versions 1-4) that begins, commits, rolls back, abandons and loses transactions under injected failures, refused resets, out-of-protocol answers and cut connections; every answer the caller gets is compared with the server's transaction book. In addition the connection is cut at every byte of the COMMIT and ROLLBACK exchange, in both directions. Distinct and non-trivial: distinct (version, call, state, fault, outcome).",
		Run: func(t *core.T) {
			jobs := append(longHist(t, "C10"), runHist(t, "C10", map[string]profile{
				"calm":  {fail: 30, len: 120, badDb: 30, closeOp: 20},
				"fail":  {fail: 250, reset: 20, odd: 30, kill: 20, stall: 4, len: 80},
				"chaos": {fail: 100, reset: 40, odd: 80, kill: 80, stall: 5, len: 60, closeOp: 60},
			}, t.Pick(20, 300))...)
			jobs = append(jobs, endings(t)...)
			jobs = append(jobs, c06Faults(t)...)
			for v := 1; v <= 4; v++ {
				for _, commit := range []bool{true, false} {
					for _, mode := range []string{"half", "full", "rst"} {
						v, commit, mode := v, commit, mode
						jobs = append(jobs, core.Job{Name: fmt.Sprintf("cut/v%d/commit=%v/%s", v, commit, mode), Fn: func(c *core.C) { c10Cut(c, v, commit, mode) }})
					}
				}
			}
			t.Parallel(8, jobs)
		}})
}

// c10Cut cuts the connection at every byte of a commit or rollback.
func c10Cut(c *core.C, v int, commit bool, mode string) {
	for dir := 0; dir < 2; dir++ {
		for cut := int64(0); cut < 60; cut++ {
			h := newHist(c, "C10", v, profile{})
			h.begin("")
			if h.tx == nil {
				return
			}
			x := h.tx
			h.query(x, "", false)
			if h.stop {
				return
			}
			fc := h.sc()
			// nothing is in flight: the server waits for the next request
			fc.Wire.Mode = mode
			sent, rcvd := fc.Sent(), fc.Received()
			if dir == 0 {
				fc.ArmTx(sent + cut)
			} else {
				fc.ArmRx(rcvd + cut)
			}
			h.did("tx%d commit=%v cut dir=%d byte %d", x.id, commit, dir, cut)
			var err error
			if commit {
				x.commit = true
				err = x.t.Commit()
			} else {
				err = x.t.Rollback()
			}
			killed := fc.Killed()
			st := h.s.Txs()[x.id-1]
			want := map[bool]string{true: "commit", false: "rollback"}[commit]
			c.Event("cut exchanges", 1)
			c.Distinct("v%d %s dir%d byte %d %s err=%v", v, want, dir, cut, mode, err != nil)
			if isNilErr(err) {
				if st.End != want {
					c.Fail("lie", "v%d: %s reported success but the transaction ended by %q (connection cut %s at byte %d, direction %d)", v, want, st.End, mode, cut, dir)
					return
				}
				if !fc.Replied() {
					c.Fail("lie", "v%d: %s reported success before the server's answer was complete (connection cut %s at byte %d, direction %d)", v, want, mode, cut, dir)
					return
				}
			} else if !killed {
				c.Fail("spurious", "v%d: %s failed on a connection that was not cut: %s", v, want, errText(err))
				return
			}
			if !x.t.IsClosed() {
				c.Fail("not closed", "v%d: after %s (error %v) with the connection cut at byte %d the handle reports the transaction open", v, want, err != nil, cut)
				return
			}
			if x.t.Commit() == nil || x.t.Rollback() == nil {
				c.Fail("ended twice", "v%d: a second commit or rollback succeeded after a cut", v)
				return
			}
			quietClose(h.conn)
			if !killed && cut > 3 {
				break
			}
		}
	}
}
