package checks

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/connection"

	"verif/core"
	"verif/fake"
	"verif/pack"
)

func init() {
	core.Register(&core.Check{ID: "C32", MinEvals: 4, CaseMax: 240 * time.Second,
		Rule: "In one process, under the race detector, ten to sixteen users work at the same time, each with a server or cluster of its own, its own protocol version, credentials, certificate authority (own, shared or none), chunk size and timeout, through connections, drivers, pools and routing pools that are opened and closed again and again. Each server checks credentials, chunk sizes and the order of messages and takes only statements of its own user; each user compares rows (graph, temporal and nested values made from the statement's text), summaries and the parameters that arrived with what it is owed. Among them are users with wrong credentials, with another's authority, and with servers that never answer, who must be refused or time out in their own time, and users whose servers are slow but in time, who must not. Distinct and non-trivial: distinct (kind, version, TLS, chunk size, timeout) combinations that worked side by side.",
		Run: func(t *core.T) {
			var jobs []core.Job
			for i := 0; i < t.Pick(10, 120); i++ {
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("side by side/%d", i), Fn: c32Case})
			}
			t.Parallel(3, jobs)
		}})
}

// user is one of those who work side by side.
type user struct {
	c       *core.C
	r       *rand.Rand
	no      int
	kind    string // conn, driver, pool, routed
	fate    string // fine, slow, stalled, refused, untrusted
	v       int
	name    string
	pass    string
	tls     string // "", verify, noverify
	ca      string
	chunk   uint16
	timeout time.Duration
	opts    []goBolt.Opt
	url     string
	n       int
	gone    chan struct{}
	mu      sync.Mutex
	params  map[string]obj
	modes   map[string]string
}

func (u *user) String() string {
	return fmt.Sprintf("user %d (%s, %s, v%d, tls %q, chunks of %d, timeout %v)", u.no, u.kind, u.fate, u.v, u.tls, u.chunk, u.timeout)
}

var c32Temporal = []string{"date", "time", "localtime", "datetime", "zoned", "zoned", "point2d", "point3d"}

// owed gives the answer of a user's server to a statement; it follows from the text alone.
func (u *user) owed(q string) ([]interface{}, []pack.Struct, obj) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %s", u.no, q)
	r := rand.New(rand.NewSource(int64(h.Sum64())))
	b := 30
	row := arr{int64(u.no), q, randVal(r, 3, &b), randNode(r, 2, &b)}
	var temporal []pack.Struct
	if u.v > 1 {
		for i := 0; i < 3; i++ {
			temporal = append(temporal, c03Wire(r, c32Temporal[r.Intn(len(c32Temporal))], nil))
		}
	}
	return row, temporal, obj{"for": q, "type": "rw", "user": int64(u.no)}
}

func (u *user) answer(fc *fake.Conn, m *fake.Msg) *fake.Result {
	if !strings.HasPrefix(m.Query, fmt.Sprintf("U%d ", u.no)) {
		u.c.Fail("foreign statement", "%s: its server was sent %q", u, trunc(m.Query))
		return &fake.Result{Fail: &fake.Failure{Code: "Neo.ClientError.X", Message: "not mine"}}
	}
	u.mu.Lock()
	u.params[m.Query] = m.Params
	u.mu.Unlock()
	if strings.Contains(m.Query, " FAIL") {
		return &fake.Result{Fail: &fake.Failure{Code: fmt.Sprintf("Neo.ClientError.U%d", u.no), Message: m.Query}}
	}
	if strings.Contains(m.Query, " SLOW") {
		select {
		case <-time.After(1300 * time.Millisecond):
		case <-u.gone:
		}
	}
	if u.fate == "stalled" {
		<-u.gone
	}
	row, temporal, summary := u.owed(m.Query)
	for _, x := range temporal {
		row = append(row, x)
	}
	return &fake.Result{Fields: []string{"a"}, Rows: [][]interface{}{row, {"last"}}, Summary: summary}
}

// checkRows compares an answer with what is owed.
func (u *user) checkRows(q string, rows [][]interface{}, r connection.IResult) bool {
	row, temporal, summary := u.owed(q)
	if len(rows) != 2 || len(rows[0]) != len(row)+len(temporal) {
		u.c.Fail("rows", "%s: %q brought %s", u, q, short(rows))
		return false
	}
	if d := same(rows[0][:len(row)], lift(arr(row))); d != "" {
		u.c.Fail("rows", "%s: what %q brought differs from what its server sent at %s", u, q, d)
		return false
	}
	for i, x := range temporal {
		want, err := ofWire(x)
		u.c.Must(err)
		val := rows[0][len(row)+i]
		have, err := ofGo(val)
		if t, is := val.(time.Time); is && err == nil && have.off != want.off && len(x.Fields) == 3 {
			if id, is := x.Fields[2].(string); is { // either offset is right in the repeated hour
				loc, err := time.LoadLocation(id)
				u.c.Must(err)
				if t.In(loc).Format(time.RFC3339Nano) == t.Format(time.RFC3339Nano) {
					want.off = have.off
				}
			}
		}
		if err != nil || have != want {
			u.c.Fail("temporal", "%s: its server sent %s, which is %s, and %q brought %s", u, short(x), want, q, short(val))
			return false
		}
	}
	if d := same(r.Metadata(), liftMap(summary)); d != "" {
		u.c.Fail("summary", "%s: the summary of %q differs at %s", u, q, d)
		return false
	}
	return true
}

// ask runs a statement and checks all there is to check.
func (u *user) ask(conn connection.IQuery) bool {
	u.n++
	q := fmt.Sprintf("U%d %d", u.no, u.n)
	fails := u.r.Intn(12) == 0
	if fails {
		q += " FAIL"
	} else if u.fate == "slow" && u.n%6 == 1 {
		q += " SLOW"
	}
	b := 25
	give, want := genParamMap(u.r, 3, &b)
	p, isMap := give.(map[string]interface{})
	if !isMap {
		p, want = map[string]interface{}{"p": give}, obj{"p": want}
	}
	rows, res, err := conn.Query(q, p)
	u.c.Event("statements", 1)
	if fails {
		f, is := failureOf(err)
		if !is || f.Metadata["message"] != q || f.Metadata["code"] != fmt.Sprintf("Neo.ClientError.U%d", u.no) {
			u.c.Fail("failure", "%s: the server failed %q and the error is %s", u, q, errText(err))
			return false
		}
		return true
	}
	if !isNilErr(err) {
		u.c.Fail("error", "%s: %q failed although its server answered in time: %s", u, q, errText(err))
		return false
	}
	u.mu.Lock()
	got := u.params[q]
	u.mu.Unlock()
	if !pack.Equal(interface{}(got), want) {
		u.c.Fail("parameters", "%s: the parameters of %q are %s and arrived as %s", u, q, short(want), short(got))
		return false
	}
	return u.checkRows(q, rows, res)
}

// session is what a user does with a connection.
func (u *user) session(conn connection.IConnection) bool {
	for i := u.r.Intn(4); i >= 0; i-- {
		if u.v >= 3 && u.r.Intn(3) == 0 {
			tx, err := conn.Begin()
			if !isNilErr(err) {
				u.c.Fail("error", "%s: Begin failed: %s", u, errText(err))
				return false
			}
			q := fmt.Sprintf("U%d tx %d", u.no, u.n)
			rows, res, err := tx.Query(q, nil)
			if !isNilErr(err) {
				u.c.Fail("error", "%s: %q in a transaction failed: %s", u, q, errText(err))
				return false
			}
			if !u.checkRows(q, rows, res) {
				return false
			}
			end := tx.Commit
			if u.r.Intn(2) == 0 {
				end = tx.Rollback
			}
			if err := end(); !isNilErr(err) {
				u.c.Fail("error", "%s: ending a transaction failed: %s", u, errText(err))
				return false
			}
			continue
		}
		if !u.ask(conn) {
			return false
		}
	}
	if !conn.ValidateOpen() {
		u.c.Fail("not open", "%s: a working connection reports that it is not open", u)
		return false
	}
	return true
}

// opener makes a client of its own and says how to open and give back connections.
func (u *user) opener() (open func() (connection.IConnection, error), back func(connection.IConnection) error, end func(), err error) {
	end = func() {}
	if u.kind == "conn" {
		return func() (connection.IConnection, error) { return connection.CreateBoltConn(u.url) }, func(x connection.IConnection) error { return x.Close() }, end, nil
	}
	k, err := goBolt.NewClient(u.opts...)
	if err != nil {
		u.c.Fail("client", "%s: the client was refused: %s", u, errText(err))
		return nil, nil, end, err
	}
	if u.kind == "driver" {
		d, err := k.NewDriver()
		if err != nil {
			return nil, nil, end, err
		}
		return func() (connection.IConnection, error) { return d.Open(bothModes[u.r.Intn(2)]) }, func(x connection.IConnection) error { return x.Close() }, end, nil
	}
	p, err := k.NewDriverPool(2)
	if err != nil {
		return nil, nil, end, err
	}
	return func() (connection.IConnection, error) { return p.Open(bothModes[u.r.Intn(2)]) }, p.Reclaim, func() { p.Close() }, nil
}

func (u *user) work(rounds int) {
	for i := 0; i < rounds && !u.c.Failed(); i++ {
		open, back, end, err := u.opener()
		if u.fate == "refused" || u.fate == "untrusted" {
			var conn connection.IConnection
			if isNilErr(err) {
				if conn, err = open(); isNilErr(err) {
					u.c.Fail("let in", "%s: opening a connection succeeded: %v", u, conn)
				}
			}
			end()
			u.c.Event("refused", 1)
			continue
		}
		if !isNilErr(err) {
			u.c.Fail("open", "%s: opening a pool failed: %s", u, errText(err))
			return
		}
		for j := 1 + u.r.Intn(4); j > 0; j-- {
			conn, err := open()
			if !isNilErr(err) {
				u.c.Fail("open", "%s: opening a connection failed: %s", u, errText(err))
				end()
				return
			}
			if u.fate == "stalled" {
				start := time.Now()
				_, _, err := conn.Query(fmt.Sprintf("U%d stalled %d", u.no, i), nil)
				took := time.Since(start)
				u.c.Event("timeouts", 1)
				if isNilErr(err) {
					u.c.Fail("stall success", "%s: a query succeeded without an answer", u)
				} else if took < u.timeout*8/10 || took > u.timeout+12*time.Second {
					u.c.Fail("timeout", "%s: a query whose server does not answer failed after %v: %s", u, took, errText(err))
				}
				back(conn)
				break
			}
			ok := u.session(conn)
			if err := back(conn); ok && !isNilErr(err) {
				u.c.Fail("give back", "%s: giving a working connection back failed: %s", u, errText(err))
				ok = false
			}
			if !ok {
				end()
				return
			}
		}
		end()
	}
}

// setUp starts the servers of a user.
func (u *user) setUp(ca, other *authority) {
	c := u.c
	u.params = map[string]obj{}
	prep := func(i int, s *fake.Server) {
		s.CheckAuth, s.User, s.Pass = true, u.name, u.pass
		if u.fate == "refused" {
			s.Pass = u.pass + "!"
		}
		if u.tls != "" {
			by := ca
			if u.fate == "untrusted" {
				by = other
			}
			s.TLS = serverTLS(by.good())
		}
		if u.chunk > 0 {
			s.ChunkLimit = int(u.chunk)
		}
		overviews := s.Run
		s.Run = func(fc *fake.Conn, m *fake.Msg) *fake.Result {
			if overviews != nil && m.Query == overviewQuery {
				return overviews(fc, m)
			}
			return u.answer(fc, m)
		}
	}
	var s *fake.Server
	if u.kind == "routed" {
		s = newClusterWith(c, u.v, 2, c.R.Intn(2) == 0, prep, "LEADER", "FOLLOWER").seed
	} else {
		s = &fake.Server{Version: u.v, NoLog: true}
		prep(0, s)
		seeds, mu := newRand(c.R.Int63()), sync.Mutex{}
		s.OnConn = func(fc *fake.Conn) {
			mu.Lock()
			a, b := seeds.Int63(), seeds.Int63()
			mu.Unlock()
			fc.Wire.Rng = newRand(a)
			fc.Wire.Width = a%3 != 0
			fc.Wire.Chunk = randChunk(newRand(b))
		}
		c.Serve(s)
	}
	u.opts = []goBolt.Opt{goBolt.WithBasicAuth(u.name, u.pass), goBolt.WithHostPort(s.Host, s.Port)}
	u.url = fmt.Sprintf("bolt://%s:%s@%s?timeout=%d", u.name, u.pass, s.Addr, u.timeout/time.Second)
	if u.kind == "routed" {
		u.opts = append(u.opts, goBolt.WithRouting())
	}
	if u.tls != "" {
		u.opts = append(u.opts, goBolt.WithTLS(u.ca, "", "", u.tls == "noverify"))
		u.url += "&tls=true"
		if u.ca != "" {
			u.url += "&tls_ca_cert_file=" + u.ca
		}
		if u.tls == "noverify" {
			u.url += "&tls_no_verify=true"
		}
	}
	if u.chunk > 0 && u.kind != "conn" {
		u.opts = append(u.opts, goBolt.WithChunkSize(u.chunk))
	}
	u.opts = append(u.opts, goBolt.WithTimeout(u.timeout))
}

func c32Case(c *core.C) {
	dir := scratchDir()
	gone := make(chan struct{})
	defer close(gone)
	var users []*user
	n := 10 + c.R.Intn(7)
	// authorities of one name, each in a file of its own, or in one that others use too
	var shared []*authority
	for i := 0; i < 3; i++ {
		shared = append(shared, newCA(dir, fmt.Sprintf("shared%d", i)))
	}
	for i := 0; i < n; i++ {
		ca, other := shared[c.R.Intn(2)], shared[2]
		if c.R.Intn(2) == 0 {
			ca, other = newCA(dir, fmt.Sprintf("ca%d", i)), newCA(dir, fmt.Sprintf("other%d", i))
		}
		u := &user{c: c, r: newRand(c.R.Int63()), no: i, v: 1 + c.R.Intn(4), gone: gone, fate: "fine", timeout: time.Duration(15+c.R.Intn(10)) * time.Second}
		u.name = fmt.Sprintf("user%d", c.R.Intn(3)) // the same names with other passwords
		u.pass = fmt.Sprintf("pass%d", i)
		u.kind = []string{"conn", "driver", "pool", "routed"}[c.R.Intn(4)]
		if u.kind == "routed" && u.v < 3 {
			u.v += 2
		}
		switch c.R.Intn(3) {
		case 0:
			u.tls = "verify"
		case 1:
			if c.R.Intn(3) == 0 {
				u.tls = "noverify"
			}
		}
		u.ca = ca.File
		if u.kind != "conn" && c.R.Intn(2) == 0 {
			u.chunk = []uint16{16, 100, 1000, 8192, 65535}[c.R.Intn(5)]
		}
		switch i % 8 {
		case 2:
			u.fate = "slow"
		case 3:
			u.fate = "refused"
		case 4:
			u.fate, u.tls = "untrusted", "verify"
		case 5:
			u.fate, u.kind = "stalled", []string{"driver", "pool"}[c.R.Intn(2)]
			u.timeout = time.Duration(700+c.R.Intn(900)) * time.Millisecond
		}
		if (u.tls == "noverify" || u.fate == "untrusted") && c.R.Intn(2) == 0 {
			u.ca = "" // the authorities of the system
		}
		if u.tls == "noverify" && c.R.Intn(2) == 0 {
			ca = other
		}
		u.setUp(ca, other)
		users = append(users, u)
	}
	var wg sync.WaitGroup
	var busy int64
	for _, u := range users {
		u := u
		rounds := 6 + c.R.Intn(6)
		if u.fate == "stalled" || u.fate == "slow" {
			rounds = 2
		}
		guard(c, &wg, func() {
			atomic.AddInt64(&busy, 1)
			u.work(rounds)
			atomic.AddInt64(&busy, -1)
			c.Distinct("%s %s v%d %q %d %v", u.kind, u.fate, u.v, u.tls, u.chunk, u.timeout)
		})
	}
	if !within(120*time.Second, wg.Wait) {
		c.Fail("stuck", "%d of %d users made no progress for two minutes", atomic.LoadInt64(&busy), n)
		c.Abort()
	}
	c.Event("users", int64(n))
}
