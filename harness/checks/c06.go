package checks

import (
	"verif/core"
)

func init() {
	core.Register(&core.Check{ID: "C06", MinEvals: 20,
		Rule:   "A case is one random history of API calls on a connection (auto-commit and transactional statements, begin, commit, rollback, idle, close; versions 1-4) during which the scripted server fails requests, refuses resets, ignores, answers out of protocol, with undecodable values, late, or not at all. Every statement carries a unique text and the server's rows and summary are derived from it, so each result is matched to the request that caused it; statements are also matched to the server's execution book. Distinct and non-trivial: distinct (version, call, expectation, fault, place, outcome).",
		Assume: []string{"a server that sends messages nobody asked for after completely answering a request is out of scope: no driver can tell them from the answer to the next request"},
		Run: func(t *core.T) {
			t.Parallel(8, append(append(append(marathons(t, "connection"), longHist(t, "C06")...), runHist(t, "C06", map[string]profile{
				"odd":   {fail: 80, reset: 30, odd: 250, kill: 40, stall: 8, badParam: 60, badDb: 80, closeOp: 30, len: 60},
				"mixed": {fail: 150, reset: 20, odd: 60, kill: 20, stall: 4, badParam: 100, badDb: 100, closeOp: 30, len: 80},
			}, t.Pick(25, 400))...), c06Faults(t)...))
		}})
}
