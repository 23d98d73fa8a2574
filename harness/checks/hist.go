package checks

import (
	"fmt"
	"hash/fnv"
	"strings"
	"sync"
	"time"

	"github.com/mindstand/go-bolt/connection"

	"verif/core"
	"verif/fake"
	"verif/pack"
)

// hist drives one connection through a random history of API calls against a scripted server, and after
// every call compares what the caller saw with what the server did. Each oracle names the properties it
// belongs to; a check only reports the oracles of its own property.
type hist struct {
	c    *core.C
	prop string
	v    int
	s    *fake.Server
	conn connection.IConnection
	prof profile

	mu    sync.Mutex
	plan  *plan
	force *plan // the fault of the next operation, if not left to chance

	n       int
	tx      *htx // the transaction that must be open now
	txs     []*htx
	closed  bool
	fatal   string // why the connection cannot be expected to work any more
	seq     int    // messages of the current server connection accounted for
	stop    bool
	trace   []string
	refused map[string]string // statements that were refused
}

type htx struct {
	t      connection.ITransaction
	id     int // on the server
	db     string
	ended  string // "" while it must be open
	commit bool   // the caller asked to commit
	unsure bool   // a fault hit while it was being committed
}

// profile says how often things happen, out of 1000 operations.
type profile struct {
	fail, reset, odd, kill, stall int
	badParam, badDb, closeOp      int
	len                           int
}

// plan is the fault of the next operation.
type plan struct {
	kind string // fail, failpull, resetfail, ignored, record, unknown, badvalue, latepair, kill, stall, late
	at   string
	f    *fake.Failure
	mode string
	hit  bool
	n2   int
	cut  int
}

func hname(m *fake.Msg, v int) string {
	if v < 3 && m.Name == "RUN" && (m.Query == "BEGIN" || m.Query == "COMMIT" || m.Query == "ROLLBACK") {
		return m.Query
	}
	return m.Name
}

func rowsFor(text string) [][]interface{} {
	h := fnv.New32a()
	h.Write([]byte(text))
	n := int(h.Sum32() % 6)
	rows := [][]interface{}{}
	for i := 0; i < n; i++ {
		rows = append(rows, []interface{}{text, int64(i), []interface{}{text, obj{"k": text}}})
	}
	return rows
}

func metaFor(text string) obj {
	return obj{"id": text, "type": "rw", "stats": obj{"nodes-created": int64(len(text))}, "t_last": int64(1)}
}

func (h *hist) runFn(fc *fake.Conn, m *fake.Msg) *fake.Result {
	r := &fake.Result{Fields: []string{"a", "b", "c"}, Rows: rowsFor(m.Query), Summary: metaFor(m.Query), RunMeta: obj{"t_first": int64(2), "qid": int64(0)}}
	h.mu.Lock()
	defer h.mu.Unlock()
	if p := h.plan; p != nil && !p.hit {
		switch p.kind {
		case "failpull":
			p.hit = true
			r.FailPull = p.f
			if p.n2 < len(r.Rows) {
				r.Rows = r.Rows[:p.n2]
			}
			if len(m.Query)%3 == 0 { // rows without any values
				for i := range r.Rows {
					r.Rows[i] = []interface{}{}
				}
			}
		case "badvalue":
			p.hit = true
			bad := undecodable(p.n2)
			r.Rows = append(r.Rows, []interface{}{m.Query, bad, m.Query}, []interface{}{m.Query, int64(99), nil})
		}
	}
	return r
}

// oddReset are the ways a server does not reset without refusing to.
var oddReset = map[string]bool{"ignored": true, "record": true, "notstruct": true, "hangup": true}

func (h *hist) failFn(fc *fake.Conn, m *fake.Msg) *fake.Failure {
	h.mu.Lock()
	defer h.mu.Unlock()
	p := h.plan
	if p == nil {
		return nil
	}
	name := hname(m, h.v)
	switch {
	case p.kind == "fail" && !p.hit && name == p.at:
		p.hit = true
		return p.f
	case p.kind == "resetfail" && !p.hit && name == p.at:
		p.hit = true
		return p.f
	case p.kind == "resetfail" && p.hit && !oddReset[p.mode] && name == "RESET":
		return &fake.Failure{Code: "Neo.DatabaseError.General.UnknownError", Message: "no reset for you"}
	}
	return nil
}

func (h *hist) hookFn(fc *fake.Conn, m *fake.Msg, replies []interface{}) ([]interface{}, *fake.Act) {
	h.mu.Lock()
	defer h.mu.Unlock()
	p := h.plan
	if p == nil {
		return replies, nil
	}
	name := hname(m, h.v)
	if p.kind == "latepair" {
		// the server reports a failure, but answers the request after it as if nothing had happened
		if name == p.at && !p.hit {
			p.hit = true
			return []interface{}{p.f.Msg()}, nil
		}
		if p.hit && name == "PULL" && p.n2 == 0 {
			p.n2 = 1
			return []interface{}{fake.Success(obj{"latepair": true})}, nil
		}
		return replies, nil
	}
	if p.kind == "resetfail" && p.hit && name == "RESET" {
		// it does not refuse the reset outright, but nor does it say that it was done
		switch p.mode {
		case "ignored":
			return []interface{}{fake.Ignored()}, nil
		case "record":
			return []interface{}{fake.Record([]interface{}{int64(1), "x"})}, nil
		case "notstruct":
			return []interface{}{"reset"}, nil
		case "hangup":
			return nil, &fake.Act{Close: "half", Before: true}
		}
	}
	if name != p.at || p.hit {
		return replies, nil
	}
	switch p.kind {
	case "ignored":
		p.hit = true
		return []interface{}{fake.Ignored()}, nil
	case "record":
		p.hit = true
		return []interface{}{fake.Record(arr{"out of turn"})}, nil
	case "unknown":
		p.hit = true
		return []interface{}{pack.Struct{Sig: 0x66, Fields: arr{obj{}}}}, nil
	case "notstruct":
		p.hit = true
		return []interface{}{"SUCCESS"}, nil
	case "kill":
		p.hit = true
		return nil, &fake.Act{Close: p.mode, Before: true}
	case "killpart":
		p.hit = true
		var out []byte
		for _, r := range replies {
			out = append(out, fc.Frame(pack.Marshal(r))...)
		}
		if len(out) == 0 {
			return nil, &fake.Act{Close: p.mode, Before: true}
		}
		return nil, &fake.Act{Raw: out[:p.cut%len(out)], Close: p.mode}
	case "stall":
		p.hit = true
		return nil, &fake.Act{Stall: true, Before: true}
	case "late":
		p.hit = true
		var out []byte
		for _, r := range replies {
			out = append(out, fc.Frame(pack.Marshal(r))...)
		}
		d := time.Duration(p.n2) * time.Millisecond
		go func() { time.Sleep(d); fc.SendRaw(out) }()
		return nil, nil
	}
	return replies, nil
}

// fail reports an oracle of the given properties.
func (h *hist) fail(props, key, f string, a ...interface{}) {
	h.stop = true
	if !strings.Contains(props, h.prop) {
		h.c.Event("ended early by an oracle of "+props, 1)
		h.c.T.Note(h.c.Name + ": " + key + ": " + fmt.Sprintf(f, a...) + " after " + strings.Join(lastN(h.trace, 6), "; "))
		return
	}
	h.c.Fail(key, "v%d after [%s]: %s", h.v, strings.Join(lastN(h.trace, 12), "; "), fmt.Sprintf(f, a...))
}

// soft is fail for what does not keep the history from going on: the oracles of
// other properties are then asked what comes of it.
func (h *hist) soft(props, key, f string, a ...interface{}) bool {
	if strings.Contains(props, h.prop) {
		h.fail(props, key, f, a...)
		return true
	}
	h.c.Event("went on after an oracle of "+props, 1)
	return false
}

func lastN(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (h *hist) did(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	h.trace = append(h.trace, s)
	h.c.Logf("%s", s)
	h.c.Event("calls", 1)
}

func newHist(c *core.C, prop string, v int, prof profile) *hist {
	h := &hist{c: c, prop: prop, v: v, prof: prof, refused: map[string]string{}}
	h.s = &fake.Server{Version: v, Run: h.runFn, Fail: h.failFn, Hook: h.hookFn}
	h.s.OnConn = wire(c, false)
	c.Serve(h.s)
	h.open()
	return h
}

func (h *hist) open() {
	conn, err := connection.CreateBoltConn(connURL(h.s, "timeout=20"))
	if err != nil || conn == nil {
		h.c.Fail("open", "opening a connection to a healthy v%d server failed: %s", h.v, errText(err))
		h.c.Abort()
	}
	h.c.Defer(func() { quietClose(conn) })
	h.conn, h.closed, h.fatal, h.tx = conn, false, "", nil
	h.seq = 1
	if h.c.R.Intn(3) == 0 {
		conn.SetChunkSize(uint16(1 + h.c.R.Intn(300)))
	}
}

func (h *hist) sc() *fake.Conn { cs := h.s.Conns(); return cs[len(cs)-1] }

func (h *hist) text() string {
	h.n++
	return fmt.Sprintf("MATCH (n) RETURN n /* %s %d %d */", h.prop, h.n, h.c.R.Intn(1<<30))
}

func (h *hist) setPlan(p *plan) { h.mu.Lock(); h.plan = p; h.mu.Unlock() }

func randFailure(c *core.C) *fake.Failure {
	codes := []string{"Neo.ClientError.Statement.SyntaxError", "Neo.TransientError.Transaction.DeadlockDetected", "Neo.ClientError.Schema.ConstraintValidationFailed", "Neo.DatabaseError.General.UnknownError", "", "%s%d%!", "ümläut",
		"Neo.ClientError.Security.Unauthorized", "Neo.ClientError.Security.CredentialsExpired", "Neo.ClientError.Security.AuthenticationRateLimit", "Neo.ClientError.Security.Forbidden", "Neo.ClientError.Security.TokenExpired",
		"Neo.ClientError.Cluster.NotALeader", "Neo.ClientError.General.ForbiddenOnReadOnlyDatabase", "Neo.ClientError.Request.Invalid", "Neo.ClientError.Request.InvalidFormat", "Neo.ClientError.Database.DatabaseNotFound",
		"Neo.ClientError.Transaction.TransactionNotFound", "Neo.ClientError.Transaction.TransactionTimedOut", "Neo.TransientError.Transaction.Terminated", "Neo.TransientError.Transaction.LockClientStopped", "Neo.TransientError.General.DatabaseUnavailable", "Neo.TransientError.Network.CommunicationError", "Neo.DatabaseError.Transaction.TransactionCommitFailed", "Neo.ClientNotification.Statement.CartesianProduct"}
	f := &fake.Failure{Code: codes[c.R.Intn(len(codes))], Message: randStr(c.R)}
	if c.R.Intn(3) == 0 {
		f.Message = "Invalid input '%': expected %s 100% (%!d(string=x)) \n\t$p"
	}
	if c.R.Intn(10) == 0 {
		f.Message = strOf(c.R, bigLens[c.R.Intn(4)])
	}
	if c.R.Intn(3) == 0 {
		b := 20
		f.Extra = randMap(c.R, 2, &b)
		delete(f.Extra, "code")
		delete(f.Extra, "message")
	}
	return f
}

// pickPlan chooses the fault of an operation that sends the given requests.
func (h *hist) pickPlan(reqs ...string) *plan {
	if h.force != nil {
		return h.force
	}
	r := h.c.R
	at := reqs[r.Intn(len(reqs))]
	x := r.Intn(1000)
	p := h.prof
	query := reqs[0] == "RUN"
	switch {
	case x < p.fail:
		if query && r.Intn(2) == 0 {
			return &plan{kind: "failpull", f: randFailure(h.c), n2: r.Intn(6)}
		}
		return &plan{kind: "fail", at: at, f: randFailure(h.c)}
	case x < p.fail+p.reset:
		return &plan{kind: "resetfail", at: at, f: randFailure(h.c), mode: []string{"", "", "ignored", "record", "notstruct", "hangup"}[r.Intn(6)]}
	case x < p.fail+p.reset+p.odd:
		k := []string{"ignored", "record", "unknown", "notstruct", "badvalue", "latepair", "ignored", "latepair"}[r.Intn(8)]
		if k == "badvalue" && !query {
			k = "ignored"
		}
		if k == "latepair" {
			if !query {
				k = "record"
			} else {
				at = "RUN"
			}
		}
		if k == "record" && query && at == "PULL" {
			k = "unknown"
		}
		return &plan{kind: k, at: at, f: randFailure(h.c), n2: map[bool]int{true: r.Intn(7)}[k == "badvalue"]}
	case x < p.fail+p.reset+p.odd+p.kill:
		return &plan{kind: []string{"kill", "killpart", "killpart"}[r.Intn(3)], at: at, mode: []string{"half", "full", "rst"}[r.Intn(3)], cut: r.Intn(2000)}
	case x < p.fail+p.reset+p.odd+p.kill+p.stall:
		return &plan{kind: []string{"stall", "late"}[r.Intn(2)], at: at, n2: 100 + r.Intn(200)}
	}
	return nil
}

// within runs one call with the conn's timeout adapted to the fault.
func (h *hist) within(p *plan, f func()) {
	h.setPlan(p)
	short := p != nil && (p.kind == "stall" || p.kind == "late")
	if short {
		h.conn.SetTimeout(80 * time.Millisecond)
	}
	f()
	if short {
		h.conn.SetTimeout(20 * time.Second)
		if p.kind == "late" {
			time.Sleep(time.Duration(p.n2) * time.Millisecond) // let the late answer arrive
		}
	}
	h.setPlan(nil)
}

// newMsgs returns the messages of the current connection not accounted for yet.
func (h *hist) newMsgs() []*fake.Msg {
	ms := h.sc().Msgs()
	if h.seq > len(ms) {
		return nil
	}
	return ms[h.seq:]
}

func (h *hist) account() { h.seq = len(h.sc().Msgs()) }

// silent checks that a refused call sent nothing: the next request is then the first one the server sees.
// It is called with the name or text the next request must have.
func (h *hist) first(props string, want string) {
	ms := h.newMsgs()
	if len(ms) == 0 {
		return
	}
	got := hname(ms[0], h.v)
	if got == "RUN" {
		got = ms[0].Query
	}
	if got != want {
		h.fail(props, "sent", "the first message the server received for %q was %s %q", trunc(want), ms[0].Name, trunc(ms[0].Query))
	}
}

func (h *hist) stmts(text string) []*fake.Stmt {
	var r []*fake.Stmt
	for _, s := range h.s.Stmts() {
		if s.Query == text {
			r = append(r, s)
		}
	}
	return r
}

const allProps = "C06 C07 C09 C10 C12 C13"

// endTx records that the open transaction is over.
func (h *hist) endTx(how string) {
	if h.tx != nil {
		h.tx.ended = how
		h.tx = nil
	}
}

// query issues a statement on the connection (q == nil) or through a transaction handle.
func (h *hist) query(x *htx, db string, badParam bool) {
	text := h.text()
	var q connection.IQuery = h.conn
	where := "conn"
	if x != nil {
		q = x.t
		where = fmt.Sprintf("tx%d", x.id)
		if x.ended != "" {
			where += "(" + x.ended + ")"
		}
	}
	params := map[string]interface{}{"text": text, "n": h.n}
	if badParam {
		params["bad"] = []interface{}{make(chan int), func() {}, struct{ X int }{1}, map[int]int{1: 2}, obj{"deep": arr{complex(1, 2)}}}[h.c.R.Intn(5)]
	}
	// what must happen
	exp := "ok"
	switch {
	case h.closed:
		exp = "closed"
	case h.fatal != "":
		exp = "any"
	case x != nil && x.ended != "":
		exp = "refused"
	case db != "" && h.v < 4:
		exp = "refused"
	case h.tx != nil && db != "" && db != h.tx.db:
		exp = "refused"
	case badParam:
		exp = "refused"
	}
	var p *plan
	if exp == "ok" {
		p = h.pickPlan("RUN", "PULL")
	}
	openTx := h.tx
	var rows [][]interface{}
	var res connection.IResult
	var err error
	exec := h.c.R.Intn(3) == 0
	pk := ""
	if p != nil {
		pk = " !" + p.kind + "@" + p.at
	}
	h.did("%s.query#%d db=%q bad=%v exec=%v%s", where, h.n, db, badParam, exec, pk)
	start := time.Now()
	h.within(p, func() {
		if exec {
			if db == "" && h.c.R.Intn(2) == 0 {
				res, err = q.Exec(text, params)
			} else {
				res, err = q.ExecWithDb(text, params, db)
			}
		} else {
			if db == "" && h.c.R.Intn(2) == 0 {
				rows, res, err = q.Query(text, params)
			} else {
				rows, res, err = q.QueryWithDb(text, params, db)
			}
		}
	})
	_ = start
	isErr := !isNilErr(err)
	if isErr {
		h.trace[len(h.trace)-1] += " -> error"
	}
	h.c.Distinct("v%d %s tx=%v %s%s db=%v bad=%v exec=%v err=%v", h.v, strings.TrimRight(where, "0123456789"), openTx != nil, exp, pk, db != "", badParam, exec, isErr)
	st := h.stmts(text)
	// where it ran, whatever came of it
	for _, s := range st {
		h.c.Event("statements placed", 1)
		if x != nil && (s.Tx == nil || s.Tx.ID != x.id) {
			h.fail("C09", "outside", "a statement issued through transaction %d (%s) was executed %s", x.id, orOpen(x.ended), place(s))
			return
		}
		if x != nil && x.ended != "" {
			h.fail("C09", "after end", "a statement issued through transaction %d, which has ended (%s), was executed %s", x.id, x.ended, place(s))
			return
		}
		if x == nil && h.fatal == "" {
			if openTx == nil && s.Tx != nil {
				h.fail("C09 C10", "stray", "a statement issued on the connection with no transaction open was executed %s", place(s))
				return
			}
			if openTx != nil && (s.Tx == nil || s.Tx.ID != openTx.id) {
				h.fail("C09 C12", "stray", "a statement issued on the connection while transaction %d is open was executed %s", openTx.id, place(s))
				return
			}
		}
		if h.v >= 4 && s.Tx == nil {
			got, has := s.Extra["db"]
			if (db == "" && has) || (db != "" && got != db) {
				if h.soft("C12", "db", "a statement for database %q was sent with database %v", db, got) {
					return
				}
			}
		}
		if m, ok := s.Extra["mode"]; ok && m != "w" {
			if h.soft("C12", "mode", "a statement on a connection opened for writing was marked with access mode %v", m) {
				return
			}
		}
	}
	if len(st) > 1 {
		h.fail("C06 C09 C12", "twice", "one statement was executed %d times", len(st))
		return
	}
	if isErr && (rows != nil || !isNilResult(res)) {
		h.fail("C07 C06", "rows with error", "an error came together with rows %s or a result", short(rows))
		return
	}
	good := func() bool {
		if !exec {
			if d := same(rows, liftRows(rowsFor(text))); d != "" {
				h.fail("C06", "pairing", "the rows returned are not those the server sent for this statement: %s", d)
				return false
			}
		}
		if isNilResult(res) {
			h.fail("C06", "no result", "success without a result")
			return false
		}
		if d := same(res.Metadata(), liftMap(metaFor(text))); d != "" {
			h.fail("C06", "pairing", "the summary returned is not the one the server sent for this statement: %s", d)
			return false
		}
		if len(st) != 1 {
			h.fail("C06 C09", "not executed", "a statement that the server never executed was reported as successful")
			return false
		}
		return true
	}
	switch exp {
	case "closed", "refused":
		if !isErr {
			pr := "C09"
			if exp == "closed" {
				pr = "C13"
			} else if db != "" {
				pr = "C12 C09"
			} else if badParam {
				pr = "C12"
			}
			h.fail(pr, "not refused", "a call that must be refused (%s) succeeded", exp)
			return
		}
		if len(st) != 0 {
			pr := "C09 C12"
			if exp == "closed" {
				pr = "C13"
			}
			h.fail(pr, "executed", "the server executed a statement that was refused with %s", errText(err))
			return
		}
		h.refused[text] = errText(err)
	case "any":
		if !isErr {
			good()
		}
	case "ok":
		h.first("C09 C12 C13", text)
		h.outcome(p, err, good)
	}
	if exp == "ok" {
		h.account()
	}
}

func isNilResult(r connection.IResult) bool {
	if r == nil {
		return true
	}
	return fmt.Sprint(r) == "<nil>"
}

func orOpen(s string) string {
	if s == "" {
		return "open"
	}
	return "ended: " + s
}

func place(s *fake.Stmt) string {
	if s.Tx == nil {
		return "as an auto-commit statement"
	}
	return fmt.Sprintf("in transaction %d", s.Tx.ID)
}

// outcome judges a call that had to reach the server, given the fault planned for it.
func (h *hist) outcome(p *plan, err error, good func() bool) {
	isErr := !isNilErr(err)
	if p == nil || !p.hit {
		if p != nil {
			h.c.Event("planned fault did not arise", 1)
		}
		if isErr {
			h.fail(allProps, "spurious", "a valid call on a healthy connection failed: %s", errText(err))
			return
		}
		good()
		return
	}
	h.c.Event("faults injected", 1)
	switch p.kind {
	case "fail", "failpull":
		h.endTx("failed")
		h.failure(p, err)
	case "resetfail":
		h.endTx("failed")
		h.fatal = "reset refused"
		if !isErr {
			h.fail("C07 C06", "failure hidden", "the server failed the request and refused the reset, and the call reported success")
			return
		}
		h.c.Event("refused resets", 1)
		if f, ok := failureOf(err); oddReset[p.mode] {
			// which of the two errors is reported is not specified
		} else if !ok || (same(obj(f.Metadata), liftMap(p.f.Map())) != "" && f.Metadata["message"] != "no reset for you") {
			if h.soft("C07", "failure", "the innermost error of a failure followed by a refused reset is %s", errText(innermost(err))) {
				return
			}
		}
		if h.conn.ValidateOpen() {
			h.soft("C07", "refused reset", "a session the server refused to reset still reports itself open")
		}
	case "kill", "killpart":
		h.endTx("lost")
		h.fatal = "killed"
		if !isErr {
			h.fail("C06 C10", "kill", "the connection was cut before the answer was complete and the call reported success")
		}
	case "stall", "late":
		h.endTx("lost")
		h.fatal = p.kind
		if !isErr {
			h.fail("C06 C10", "stall", "the server did not answer in time and the call reported success")
		}
	default:
		h.endTx("odd")
		h.fatal = p.kind
		if !isErr {
			h.fail("C06 C10", "odd", "the server answered out of protocol (%s in place of the answer to %s) and the call reported success", p.kind, p.at)
		}
	}
}

func (h *hist) failure(p *plan, err error) {
	h.c.Event("failures reported", 1)
	if isNilErr(err) {
		h.fail("C07 C06 C10", "failure hidden", "the server answered with a failure and the call reported success")
		return
	}
	f, ok := failureOf(err)
	if !ok {
		if h.soft("C07", "failure", "the server failed with %q but the innermost error is %T %s", trunc(p.f.Message), innermost(err), errText(innermost(err))) {
			return
		}
	}
	if d := same(obj(f.Metadata), liftMap(p.f.Map())); d != "" {
		if h.soft("C07", "failure", "the failure differs from the server's at %s", d) {
			return
		}
	}
	if !strings.Contains(err.Error(), fmt.Sprint(f.Metadata)) && !strings.Contains(err.Error(), p.f.Message) {
		h.soft("C07", "failure text", "the text of the error does not contain the server's message %q: %s", trunc(p.f.Message), errText(err))
	}
}

func (h *hist) begin(db string) {
	exp := "ok"
	switch {
	case h.closed:
		exp = "closed"
	case h.fatal != "":
		exp = "any"
	case h.tx != nil, db != "" && h.v < 4:
		exp = "refused"
	}
	var p *plan
	if exp == "ok" {
		if h.v >= 3 {
			p = h.pickPlan("BEGIN")
		} else {
			p = h.pickPlan("BEGIN", "PULL")
		}
	}
	pk := ""
	if p != nil {
		pk = " !" + p.kind + "@" + p.at
	}
	h.did("begin db=%q%s", db, pk)
	before := len(h.s.Txs())
	var t connection.ITransaction
	var err error
	h.within(p, func() {
		if db == "" && h.c.R.Intn(2) == 0 {
			t, err = h.conn.Begin()
		} else {
			t, err = h.conn.BeginWithDatabase(db)
		}
	})
	isErr := !isNilErr(err)
	h.c.Distinct("v%d begin %s%s open=%v db=%v err=%v", h.v, exp, pk, h.tx != nil, db != "", isErr)
	txs := h.s.Txs()
	switch exp {
	case "closed", "refused":
		if !isErr {
			pr := "C10"
			if exp == "closed" {
				pr = "C13"
			} else if db != "" && h.v < 4 {
				pr = "C12"
			}
			h.fail(pr, "begin not refused", "begin succeeded although it must be refused (%s, open transaction: %v)", exp, h.tx != nil)
			return
		}
		if len(txs) != before {
			h.fail("C10 C12 C13", "begin sent", "a refused begin was executed by the server")
		}
		return
	case "any":
		if !isErr && len(txs) != before+1 {
			h.fail("C06 C10", "begin", "begin reported success but the server began nothing")
		}
		return
	}
	h.first("C09 C12 C13", "BEGIN")
	h.account()
	h.outcome(p, err, func() bool {
		if t == nil || len(txs) != before+1 {
			h.fail("C10", "begin", "begin reported success but the server began %d transactions", len(txs)-before)
			return false
		}
		x := &htx{t: t, id: txs[len(txs)-1].ID, db: db}
		ex := txs[len(txs)-1].Extra
		if h.v >= 4 {
			got, has := ex["db"]
			if (db == "" && has) || (db != "" && got != db) {
				if h.soft("C12", "db", "a transaction on database %q was begun with database %v", db, got) {
					return false
				}
			}
		}
		if m, ok := ex["mode"]; ok && m != "w" {
			if h.soft("C12", "mode", "a transaction on a connection opened for writing was marked with access mode %v", m) {
				return false
			}
		}
		h.tx = x
		h.txs = append(h.txs, x)
		if x.t.IsClosed() {
			h.soft("C10", "closed", "a transaction that was just begun reports itself closed")
		}
		return true
	})
	if isErr && t != nil && fmt.Sprint(t) != "<nil>" {
		h.soft("C10", "begin", "a failed begin returned a transaction")
	}
}

func (h *hist) finish(x *htx, commit bool) {
	name := "ROLLBACK"
	if commit {
		name = "COMMIT"
	}
	exp := "ok"
	switch {
	case x.ended != "":
		exp = "refused"
	case h.closed:
		exp = "closed"
	case h.fatal != "":
		exp = "any"
	}
	var p *plan
	if exp == "ok" {
		if h.v >= 3 {
			p = h.pickPlan(name)
		} else {
			p = h.pickPlan(name, "PULL")
		}
	}
	pk := ""
	if p != nil {
		pk = " !" + p.kind + "@" + p.at
	}
	h.did("tx%d(%s).%s%s", x.id, orOpen(x.ended), name, pk)
	n := h.ends()
	asked := x.commit
	if commit {
		x.commit = true
	}
	var err error
	h.within(p, func() {
		if commit {
			err = x.t.Commit()
		} else {
			err = x.t.Rollback()
		}
	})
	isErr := !isNilErr(err)
	h.c.Distinct("v%d %s %s was=%s%s err=%v", h.v, name, exp, x.ended, pk, isErr)
	if exp == "refused" {
		x.commit = asked
		if !isErr {
			h.soft("C10", "ended twice", "%s of a transaction that has ended (%s) succeeded", name, x.ended)
		}
		if k := h.ends(); k != n {
			h.soft("C10", "sent", "%s of a transaction that has ended (%s) reached the server", name, x.ended)
		}
		return
	}
	st := h.s.Txs()[x.id-1]
	want := map[bool]string{true: "commit", false: "rollback"}[commit]
	if !isErr && st.End != want {
		pr := "C10"
		if p != nil && p.hit && p.kind == "fail" {
			pr = "C10 C07"
		}
		h.fail(pr, "lie", "%s of transaction %d reported success, but on the server it ended by %q", name, x.id, st.End)
		return
	}
	if exp == "ok" {
		if commit {
			x.commit = true
		}
		h.first("C09 C12 C13", name)
		h.account()
		h.outcome(p, err, func() bool { h.endTx(want); return true })
	}
}

// ends counts the commits and rollbacks the server received, after everything that is still on its way
// on a connection given up has arrived.
func (h *hist) ends() int {
	if h.fatal != "" && !h.closed {
		select {
		case <-h.sc().PeerClosed:
		case <-time.After(slow / 5):
		}
	}
	n := 0
	for _, sc := range h.s.Conns() {
		for _, m := range sc.Msgs() {
			if k := hname(m, h.v); k == "COMMIT" || k == "ROLLBACK" {
				n++
			}
		}
	}
	return n
}

// truth compares the handles with the server's book.
func (h *hist) truth() {
	txs := h.s.Txs()
	for _, x := range h.txs {
		h.c.Event("transaction books compared", 1)
		if txs[x.id-1].End == "commit" && !x.commit {
			if h.soft("C10", "committed", "transaction %d was committed although the caller never asked for it (%s)", x.id, orOpen(x.ended)) {
				return
			}
		}
		if x.ended != "" && !x.t.IsClosed() {
			if h.soft("C10", "not closed", "transaction %d has ended (%s) but its handle reports it open", x.id, x.ended) {
				return
			}
		}
		if x.ended == "" && h.tx == x && x.t.IsClosed() {
			if h.soft("C10", "closed", "transaction %d is open but its handle reports it closed", x.id) {
				return
			}
		}
	}
	for _, v := range h.s.Violations("illegal", "handshake", "framing") {
		if h.soft("C12", "illegal", "%s: %s", v.Kind, v.Detail) {
			return
		}
	}
}

func (h *hist) closeConn() {
	var open *htx = h.tx
	sc := h.sc()
	h.did("close")
	err := h.conn.Close()
	isErr := !isNilErr(err)
	if h.closed {
		if !isErr {
			h.soft("C13", "second close", "closing a closed connection reported success")
		}
		return
	}
	h.c.Distinct("v%d close tx=%v fatal=%s err=%v", h.v, open != nil, h.fatal, isErr)
	if h.fatal == "" && isErr {
		h.fail("C13 C10", "close", "closing a healthy connection failed: %s", errText(err))
		return
	}
	wasFatal := h.fatal
	h.closed = true
	h.endTx("close")
	select {
	case <-sc.PeerClosed:
	case <-time.After(slow):
		h.fail("C13", "leak", "after Close (%s) the socket was not closed within %v", wasFatal, slow)
		return
	}
	h.c.Event("closes observed by the server", 1)
	if h.conn.ValidateOpen() {
		h.soft("C13", "open", "after Close the connection reports itself open")
	}
	for _, t := range h.s.Txs() {
		if t.End == "" {
			h.fail("C13", "open tx", "after Close transaction %d is still open on the server", t.ID)
		}
		if open != nil && t.ID == open.id && t.End == "commit" {
			h.soft("C10", "committed", "Close committed transaction %d", t.ID)
		}
	}
	h.account()
}

// step does one random operation.
func (h *hist) step() {
	r := h.c.R
	db := ""
	if r.Intn(1000) < h.prof.badDb {
		db = []string{"neo4j", "system", "Mixed.Case-1", "ünï", "%s", " ", strings.Repeat("d", 300)}[r.Intn(7)]
		if h.tx != nil && h.tx.db != "" && r.Intn(2) == 0 {
			db = h.tx.db
		}
	}
	bad := r.Intn(1000) < h.prof.badParam
	any := func() *htx {
		if h.tx != nil && r.Intn(3) != 0 {
			return h.tx
		}
		if len(h.txs) == 0 {
			return nil
		}
		return h.txs[r.Intn(len(h.txs))]
	}
	switch k := r.Intn(100); {
	case k < 25:
		h.query(nil, db, bad)
	case k < 50:
		if x := any(); x != nil {
			h.query(x, db, bad)
		} else {
			h.begin(db)
		}
	case k < 68:
		h.begin(db)
	case k < 80:
		if x := any(); x != nil {
			h.finish(x, true)
		}
	case k < 90:
		if x := any(); x != nil {
			h.finish(x, false)
		}
	case k < 93:
		h.did("validate")
		ok := h.conn.ValidateOpen()
		if h.closed && ok {
			h.fail("C13", "open", "a closed connection reports itself open")
		}
		if !h.closed && h.fatal == "" && !ok {
			h.fail("C07 C10", "not open", "a healthy connection reports itself not open")
		}
		if h.fatal == "killed" && ok {
			h.fail("C13", "open", "a connection the server cut reports itself open")
		}
	case k < 96:
		if h.fatal == "" && !h.closed {
			open := h.tx
			h.did("idle")
			err := h.conn.MakeIdle()
			if err != nil {
				h.fail("C10", "idle", "making a healthy connection idle failed: %s", errText(err))
				return
			}
			h.endTx("idle")
			if open != nil {
				if e := h.s.Txs()[open.id-1].End; e != "rollback" && e != "reset" {
					h.fail("C10 C13", "idle", "making the connection idle ended its transaction by %q", e)
				}
			}
			h.account()
		} else {
			h.did("idle")
			h.conn.MakeIdle()
		}
	default:
		if r.Intn(100) < h.prof.closeOp {
			h.closeConn()
		} else {
			h.conn.SetChunkSize(uint16([]int{1, 2, 7, 64, 1000, 65535}[r.Intn(6)]))
		}
	}
}

// run drives the history to its end.
func (h *hist) run() {
	after := 0
	for i := 0; i < h.prof.len && !h.stop; i++ {
		h.step()
		if h.stop {
			break
		}
		h.truth()
		if h.closed || h.fatal != "" {
			after++
			if after > 5 {
				if !h.closed {
					h.closeConn()
				} else {
					h.closeConn()
					if err := h.conn.Close(); isNilErr(err) {
						h.soft("C13", "second close", "closing a closed connection reported success")
					}
				}
				if h.stop {
					break
				}
				after = 0
				h.open()
			}
		}
	}
	if h.stop {
		return
	}
	if !h.closed {
		h.closeConn()
	}
	if h.stop {
		return
	}
	// nothing is sent after Close
	n := h.s.NMsgs()
	h.query(nil, "", false)
	if !h.stop && len(h.txs) > 0 {
		h.query(h.txs[len(h.txs)-1], "", false)
	}
	if !h.stop {
		h.begin("")
	}
	if h.s.NMsgs() != n {
		h.fail("C13", "sent", "messages were sent after Close")
	}
	// every connection is closed now, so what was on its way has arrived
	for _, st := range h.s.Stmts() {
		if e, ok := h.refused[st.Query]; ok {
			h.fail("C09 C12 C13", "executed", "the server executed, later, a statement that was refused with %s", e)
			return
		}
	}
	h.truth()
}

// longHist registers a few long histories, for what wears out or overflows.
func longHist(t *core.T, prop string) []core.Job {
	return runHist(t, prop, map[string]profile{
		"long":  {fail: 40, badDb: 10, len: t.Pick(1500, 6000)},
		"plain": {len: t.Pick(800, 6000)},
	}, 1)
}

// runHist registers random histories for a property.
func runHist(t *core.T, prop string, profs map[string]profile, per int) []core.Job {
	var jobs []core.Job
	for v := 1; v <= 4; v++ {
		for name, p := range profs {
			for i := 0; i < per; i++ {
				v, name, p, i := v, name, p, i
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("history/v%d/%s/%d", v, name, i), Fn: func(c *core.C) {
					h := newHist(c, prop, v, p)
					h.run()
					if i == 0 {
						c.Sample("%s", strings.Join(lastN(h.trace, 20), "; "))
					}
				}})
			}
		}
	}
	return jobs
}
