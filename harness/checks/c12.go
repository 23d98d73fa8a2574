package checks

import (
	"bytes"
	"fmt"
	"time"

	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/protocol"
	"github.com/mindstand/go-bolt/structures"
	"github.com/mindstand/go-bolt/structures/messages"

	"verif/core"
	"verif/pack"
)

func init() {
	core.Register(&core.Check{ID: "C12", MinEvals: 20,
		Rule: "A case is a random history of API calls (versions 1-4, with database names, failures, refused resets and every kind of misuse) against a server that decodes every message and runs the server state machine of the negotiated Bolt version; any message not allowed in its state, with wrong fields or unknown settings, is reported, as is a database name or access mode that is not the one asked for. Distinct and non-trivial: distinct (version, call, expectation, fault, place, outcome).",
		Run: func(t *core.T) {
			jobs := append(longHist(t, "C12"), runHist(t, "C12", map[string]profile{
				"calm": {fail: 20, len: 120, badDb: 250, badParam: 80, closeOp: 20},
				"fail": {fail: 250, reset: 30, odd: 30, kill: 20, stall: 3, len: 80, badDb: 150, badParam: 50, closeOp: 30},
			}, t.Pick(30, 400))...)
			jobs = append(jobs, endings(t)...)
			jobs = append(jobs, c06Faults(t)...)
			for v := 1; v <= 4; v++ {
				for _, how := range []string{"driver", "pool", "routed"} {
					for i := 0; i < t.Pick(3, 20); i++ {
						v, how := v, how
						jobs = append(jobs, core.Job{Name: fmt.Sprintf("modes/v%d/%s/%d", v, how, i), Fn: func(c *core.C) { c12Modes(c, v, how) }})
					}
				}
			}
			t.Parallel(8, append(jobs, c12Builders(t)...))
		}})
}

// c12Builders encodes every message the protocols can build and compares the bytes with the specification of
// the version: signature, number of fields and their contents.
func c12Builders(t *core.T) []core.Job {
	var jobs []core.Job
	for v := 1; v <= 4; v++ {
		v := v
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("builders/v%d", v), Fn: func(c *core.C) {
			p, n, err := protocol.GetProtocol([]byte{0, 0, 0, byte(v)})
			c.Must(err)
			if n != v {
				c.Fail("version", "GetProtocol of version %d says %d", v, n)
			}
			is := func(what string, msg structures.Structure, sig byte, fields ...interface{}) {
				c.Event("built messages compared", 1)
				c.Distinct("v%d %s", v, what)
				var b bytes.Buffer
				if msg == nil {
					c.Fail("built", "v%d %s: no message", v, what)
					return
				}
				if err := p.NewEncoder(&b, uint16(1+c.R.Intn(70))).Encode(msg); err != nil {
					c.Fail("built", "v%d %s can not be encoded: %s", v, what, errText(err))
					return
				}
				var raw []byte
				for d := b.Bytes(); len(d) >= 2; {
					k := int(d[0])<<8 | int(d[1])
					if len(d) < 2+k {
						c.Fail("built", "v%d %s: bad framing % x", v, what, b.Bytes())
						return
					}
					raw = append(raw, d[2:2+k]...)
					d = d[2+k:]
				}
				got, err := pack.Unmarshal(raw)
				if err != nil {
					c.Fail("built", "v%d %s is not well-formed: %v", v, what, err)
					return
				}
				st, ok := got.(pack.Struct)
				if !ok || st.Sig != sig || !pack.Equal(append(arr{}, st.Fields...), append(arr{}, fields...)) {
					c.Fail("built "+what, "v%d %s: built %s, the specification says %02x %s", v, what, short(got), sig, short(fields))
				}
			}
			// extra is the metadata map of work in a mode on a database; write work may leave the mode out
			modes := map[bolt_mode.AccessMode]obj{bolt_mode.ReadMode: {"mode": "r"}, bolt_mode.WriteMode: {}}
			dbs := []string{""}
			if v >= 4 {
				dbs = []string{"", "system", "Neo4j", "ünï %s", strOf(c.R, 300)}
			}
			for mode, base := range modes {
				for _, db := range dbs {
					ex := obj{}
					for k, x := range base {
						ex[k] = x
					}
					if db != "" {
						ex["db"] = db
					}
					for i := 0; i < 6; i++ {
						params := map[string]interface{}{}
						for k := 0; k < i; k++ {
							params[randStr(c.R)] = []interface{}{c.R.Int63(), randStr(c.R), nil, true, arr{int64(k)}, obj{"k": 1.5}}[c.R.Intn(6)]
						}
						wire := interface{}(params)
						if i == 0 {
							params, wire = nil, obj{}
						}
						q := randStr(c.R)
						name := fmt.Sprintf("RUN mode=%d db=%v", mode, db != "")
						if v < 3 {
							is(name, p.GetRunMessage(q, params, db, mode, true), 0x10, q, wire)
							is(name+" tx", p.GetRunMessage(q, params, db, mode, false), 0x10, q, wire)
						} else {
							is(name, p.GetRunMessage(q, params, db, mode, true), 0x10, q, wire, ex)
							is(name+" tx", p.GetRunMessage(q, params, db, mode, false), 0x10, q, wire, obj{})
						}
					}
					if v < 3 {
						is("BEGIN", p.GetTxBeginMessage(db, mode), 0x10, "BEGIN", obj{})
					} else {
						is(fmt.Sprintf("BEGIN mode=%d db=%v", mode, db != ""), p.GetTxBeginMessage(db, mode), 0x11, ex)
					}
					for _, to := range []time.Duration{0, time.Millisecond, 1500 * time.Millisecond, time.Hour} {
						for _, meta := range []obj{nil, {"who": "me", "n": int64(3)}} {
							want := obj{}
							for k, x := range ex {
								want[k] = x
							}
							if to != 0 {
								want["tx_timeout"] = to.Milliseconds()
							}
							if meta != nil {
								want["tx_metadata"] = meta
							}
							if v >= 3 {
								to := to
								is("BEGIN timeout/metadata", messages.NewBeginMessage(messages.BuildTxMetadataWithDatabase(&to, meta, db, mode, nil)), 0x11, want)
								is("RUN timeout/metadata", messages.NewAutoCommitTxRunMessage("q", obj{"a": int64(1)}, to, meta, db, mode), 0x10, "q", obj{"a": int64(1)}, want)
								if db == "" {
									is("BEGIN timeout/metadata", messages.NewBeginMessage(messages.BuildTxMetadata(&to, meta, mode, nil)), 0x11, want)
								}
							}
						}
					}
				}
			}
			if v < 3 {
				is("COMMIT", p.GetTxCommitMessage(), 0x10, "COMMIT", obj{})
				is("ROLLBACK", p.GetTxRollbackMessage(), 0x10, "ROLLBACK", obj{})
				is("INIT", p.GetInitMessage("agent/1", messages.BuildAuthTokenBasic("u", "p")), 0x01, "agent/1", obj{"scheme": "basic", "principal": "u", "credentials": "p"})
			} else {
				is("COMMIT", p.GetTxCommitMessage(), 0x12)
				is("ROLLBACK", p.GetTxRollbackMessage(), 0x13)
				is("HELLO", p.GetInitMessage("agent/1", messages.BuildAuthTokenBasic("u", "p")), 0x01, obj{"user_agent": "agent/1", "scheme": "basic", "principal": "u", "credentials": "p"})
			}
			if m, ok := p.GetCloseMessage(); ok != (v >= 3) {
				c.Fail("built", "v%d has a GOODBYE: %v", v, ok)
			} else if ok {
				is("GOODBYE", m, 0x02)
			}
			is("RESET", messages.NewResetMessage(), 0x0f)
			for _, qid := range []int64{0, 1, 7, 1 << 40} {
				if v < 4 {
					is("DISCARD_ALL", p.GetDiscardMessage(qid), 0x2f)
				} else {
					is("DISCARD qid", p.GetDiscardMessage(qid), 0x2f, obj{"n": int64(-1), "qid": qid})
					is("PULL qid", messages.NewPullMessage(25, qid), 0x3f, obj{"n": int64(25), "qid": qid})
				}
			}
			if v < 4 {
				is("PULL_ALL", p.GetPullAllMessage(), 0x3f)
				is("DISCARD_ALL", p.GetDiscardAllMessage(), 0x2f)
			} else {
				is("PULL", p.GetPullAllMessage(), 0x3f, obj{"n": int64(-1)})
				is("DISCARD", p.GetDiscardAllMessage(), 0x2f, obj{"n": int64(-1)})
				is("DISCARD absent", p.GetDiscardMessage(-1), 0x2f, obj{"n": int64(-1)})
			}
			if p.SupportsMultiDatabase() != (v >= 4) {
				c.Fail("built", "v%d SupportsMultiDatabase %v", v, p.SupportsMultiDatabase())
			}
		}})
	}
	return jobs
}
