package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	stdlog "log"
	"math/rand"
	"net"
	"net/url"
	"os"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"
	blog "github.com/mindstand/go-bolt/log"
	"github.com/mindstand/go-bolt/routing"

	"verif/core"
	"verif/fake"
	"verif/pack"
)

func init() {
	core.Register(&core.Check{ID: "C28", MinEvals: 20, CaseMax: 400 * time.Second,
		Rule:   "A workload of every exchange, value type, failure, cut, refused and hostile opening, pool and routed history on versions 1-4 runs in processes whose standard output and error are captured: with logging never touched, switched off in every way and switched off after having been on nothing may be written; so do the workers of the other checks, whose workloads are much broader. With each level and the library's own loggers, only lines of that level and below may appear, in the right stream; with replaced loggers, every level must yield exactly the messages of its own and lower levels that byte-trace yields, step by step, to the replaced logger and nowhere else. A password with a recognisable core is used everywhere and must not occur - raw, encoded, in hex, as byte lists - in anything but byte traces. The logging functions themselves are enumerated over all levels. Distinct and non-trivial: distinct (level, step, messages per logger).",
		Assume: []string{"which level a message belongs to is taken from the logger it is written to at byte-trace level", "messages of steps with faults or of background refreshes are judged for their level and contents, not for their number", "errors returned to the caller are not output"},
		Run:    runC28})
}

const (
	c28Core = "XyzzyGeheim42"
	c28Pass = "p@:/% " + c28Core + "?#ä"
)

var c28Quiet = []string{"untouched", "set-none", "set-empty", "set-unknown", "off-again"}
var c28Levels = []string{"none", "error", "info", "trace", "trace-bytes"}

func runC28(t *core.T) {
	arg := core.SubArg()
	switch {
	case strings.HasPrefix(arg, "quiet-"):
		t.Case("quiet", func(c *core.C) {
			switch strings.TrimPrefix(arg, "quiet-") {
			case "set-none":
				blog.SetLevel("none")
			case "set-empty":
				blog.SetLevel("")
			case "set-unknown":
				blog.SetLevel([]string{"debug", "traces", "off", "warn", "inf", "trace bytes", "0", "4"}[c.R.Intn(8)])
			case "off-again":
				blog.SetLevel("trace-bytes")
				blog.SetLevel("off")
			}
			if blog.GetLevel() != blog.NoneLevel {
				c.Fail("level", "%s: the level is %v", arg, blog.GetLevel())
			}
			c28Work(c, c.T.Pick(1, 6), func(name string, plain bool, fn func()) {
				fn()
				c.Event("steps", 1)
				c.Distinct("silent %s", name)
			})
		})
		return
	case strings.HasPrefix(arg, "real-"):
		t.Case("real", func(c *core.C) {
			blog.SetLevel(strings.TrimPrefix(arg, "real-"))
			c28Work(c, 1, func(name string, plain bool, fn func()) {
				fn()
				c.Event("steps", 1)
			})
			time.Sleep(50 * time.Millisecond)
		})
		return
	case arg == "own", arg == "late-own":
		if arg == "own" {
			t.Case("api", c28API)
		}
		t.Case("own", func(c *core.C) { c28Own(c, arg) })
		return
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 4)
	run := func(fn func()) {
		wg.Add(1)
		go func() { defer wg.Done(); sem <- struct{}{}; defer func() { <-sem }(); fn() }()
	}
	for _, q := range c28Quiet {
		q := q
		run(func() {
			so, se := t.Sub("quiet-"+q, nil, 300*time.Second)
			c28Silent(t, "quiet-"+q, so, se)
		})
	}
	for _, l := range c28Levels {
		l := l
		run(func() {
			so, se := t.Sub("real-"+l, nil, 300*time.Second)
			c28Real(t, l, so, se)
		})
	}
	run(func() {
		refs := map[string]map[string][4][]string{}
		for _, arg := range []string{"own", "late-own"} {
			so, se := t.Sub(arg, nil, 300*time.Second)
			c28Silent(t, arg, so, se)
			if b, err := os.ReadFile(arg + ".ref"); err == nil {
				m := map[string][4][]string{}
				json.Unmarshal(b, &m)
				refs[arg] = m
				os.Remove(arg + ".ref")
			}
		}
		late := refs["late-own"]
		for name, heads := range refs["own"] {
			if _, ok := late[name]; !ok || len(refs) < 2 {
				continue
			}
			for j := 0; j < 3; j++ { // the bytes of maps differ
				if fmt.Sprint(heads[j]) != fmt.Sprint(late[name][j]) {
					t.Violate("switched", "late-own", nil, "%s: at byte-trace level the %s logger got %s, and %s when the level was off at first", name, c28Names[j], trunc(fmt.Sprint(heads[j])), trunc(fmt.Sprint(late[name][j])))
					return
				}
			}
			t.Event("steps compared with one where the level was off at first", 1)
		}
	})
	if t.Filter == "" || strings.Contains(t.Filter, "other") {
		for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C29"} {
			id := id
			for k := 0; k < t.Pick(1, 3); k++ {
				k := k
				run(func() {
					max := time.Duration(t.Pick(30, 90)) * time.Second
					so, se, n, crashed := t.Other(id, t.Seed+int64(k)*1000, max)
					if crashed {
						t.Event("workload ended by a crash", 1)
						return
					}
					t.Event("cases of other checks", n)
					c28Silent(t, "other "+id, so, se)
					t.Case("other "+id, func(c *core.C) { c.Distinct("silent workload of %s", id) })
				})
			}
		}
	}
	wg.Wait()
}

func c28Silent(t *core.T, what, so, se string) {
	if so != "" {
		t.Violate("stdout", what, nil, "%s: %d bytes were written to the standard output: %q", what, len(so), trunc(so))
	}
	if se != "" && !strings.Contains(se, "INCONCLUSIVE") {
		t.Violate("stderr", what, nil, "%s: %d bytes were written to the standard error: %q", what, len(se), trunc(se))
	}
}

var c28Prefix = regexp.MustCompile(`(?m)^\[BOLT\]\[([A-Z]+)\]`)

// c28Real looks at what the library's own loggers wrote at a level.
func c28Real(t *core.T, level, so, se string) {
	if so == "" && se == "" && level == "none" || t.Filter != "" && so == "" && se == "" {
		return
	}
	if level == "none" {
		c28Silent(t, "real-none", so, se)
		return
	}
	rank := map[string]int{"ERROR": 1, "INFO": 2, "TRACE": 3, "BYTES": 4}
	limit := map[string]int{"error": 1, "info": 2, "trace": 3, "trace-bytes": 4}[level]
	for name, s := range map[string]string{"output": so, "error": se} {
		seen := map[string]int{}
		for _, m := range c28Prefix.FindAllStringSubmatch(s, -1) {
			k := rank[m[1]]
			seen[m[1]]++
			if k == 0 || k > limit {
				t.Violate("level", "real-"+level, nil, "level %s: standard %s has lines of %s", level, name, m[1])
				break
			}
			if (k == 4) != (name == "output") {
				t.Violate("stream", "real-"+level, nil, "level %s: standard %s has lines of %s", level, name, m[1])
				break
			}
		}
		t.Event("lines at level "+level, int64(len(c28Prefix.FindAllString(s, -1))))
		if len(s) > 0 && !strings.HasPrefix(s, "[BOLT][") {
			t.Violate("stray", "real-"+level, nil, "level %s: standard %s begins with %q", level, name, trunc(s))
		}
	}
	for name, s := range map[string]string{"output": so, "error": se} {
		if name == "error" {
			if w := c28Leak(s); w != "" {
				t.Violate("password", "real-"+level, nil, "level %s: the password is on standard %s %s", level, name, w)
			}
		}
	}
	// every level that is on has something to say in this workload
	for k, v := range rank {
		s := se
		if k == "BYTES" {
			s = so
		}
		if v <= limit && !strings.Contains(s, "[BOLT]["+k+"]") {
			t.Violate("missing", "real-"+level, nil, "level %s: nothing of %s was written", level, k)
		}
	}
}

var c28Forms = func() []string {
	out := []string{c28Core, strings.ToLower(c28Core), hex.EncodeToString([]byte(c28Core)), strings.ToUpper(hex.EncodeToString([]byte(c28Core))),
		strings.Trim(fmt.Sprint([]byte(c28Core)), "[]"), strings.TrimSuffix(strings.TrimPrefix(fmt.Sprintf("%#v", []byte(c28Core)), "[]byte{"), "}"), fmt.Sprintf("% x", c28Core)}
	// wherever it starts among the bytes that are encoded
	for i := 0; i < 3; i++ {
		e := base64.StdEncoding.EncodeToString([]byte(strings.Repeat("x", i) + c28Core))
		out = append(out, e[i+i/2+1:len(e)-4])
	}
	return out
}()

// c28Leak tells in which form the password occurs.
func c28Leak(s string) string {
	for _, f := range c28Forms {
		if i := strings.Index(s, f); i >= 0 {
			b := i - 60
			if b < 0 {
				b = 0
			}
			return fmt.Sprintf("as %q after %q", f, s[b:i])
		}
	}
	return ""
}

// ---- replaced loggers ----

type c28Sink struct {
	mu   sync.Mutex
	msgs []string
}

func (s *c28Sink) Write(p []byte) (int, error) {
	s.mu.Lock()
	s.msgs = append(s.msgs, string(p))
	s.mu.Unlock()
	return len(p), nil
}

func (s *c28Sink) take() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := s.msgs
	s.msgs = nil
	return m
}

var c28Names = []string{"error", "info", "trace", "trace-bytes"}

func c28Replace() [4]*c28Sink {
	var s [4]*c28Sink
	for i := range s {
		s[i] = &c28Sink{}
	}
	blog.ErrorLog = stdlog.New(s[0], "E|", 0)
	blog.InfoLog = stdlog.New(s[1], "I|", 0)
	blog.TraceLog = stdlog.New(s[2], "T|", 0)
	blog.TraceBytesLog = stdlog.New(s[3], "B|", 0)
	return s
}

// c28API enumerates the logging functions over the levels.
func c28API(c *core.C) {
	sinks := c28Replace()
	texts := []string{"plain", "100%", "%s %d %!", "two\nlines", "", "ünï"}
	names := []string{"error", "info", "trace", "trace-bytes", "none", "", "ERROR", "Info", "TRACE", "Trace-Bytes", "debug", "warn", "tracebytes", " trace"}
	want := []int{1, 2, 3, 4, 0, 0, 1, 2, 3, 4, 0, 0, 0, 0}
	for i, n := range names {
		blog.SetLevel(n)
		if int(blog.GetLevel()) != want[i] {
			c.Fail("level", "SetLevel(%q) sets level %d", n, blog.GetLevel())
			continue
		}
		for _, x := range texts {
			type call struct {
				name string
				at   int
				fn   func()
				text string
			}
			calls := []call{
				{"Error", 0, func() { blog.Error(x, 7) }, "E|" + fmt.Sprintln(x, 7)},
				{"Errorf", 0, func() { blog.Errorf("%d:%s|", 7, x) }, "E|7:" + x + "|\n"},
				{"Info", 1, func() { blog.Info(x, 7) }, "I|" + fmt.Sprintln(x, 7)},
				{"Infof", 1, func() { blog.Infof("%d:%s|", 7, x) }, "I|7:" + x + "|\n"},
				{"Trace", 2, func() { blog.Trace(x, 7) }, "T|" + fmt.Sprintln(x, 7)},
				{"Tracef", 2, func() { blog.Tracef("%d:%s|", 7, x) }, "T|7:" + x + "|\n"},
				{"TraceBytes", 3, func() { blog.TraceBytes([]byte(x)) }, x},
				{"TraceBytesFromBuf", 3, func() { blog.TraceBytesFromBuf(bytes.NewBufferString(x)); blog.TraceBytesFromBuf(nil) }, x},
			}
			for _, k := range calls {
				k.fn()
				c.Event("log calls", 1)
				for j, s := range sinks {
					got := s.take()
					on := j == k.at && want[i] > k.at
					switch {
					case !on && len(got) > 0:
						c.Fail("api", "level %q: %s(%q) wrote %q to the %s logger", n, k.name, x, got, c28Names[j])
					case on && len(got) == 0:
						c.Fail("api", "level %q: %s(%q) wrote nothing", n, k.name, x)
					case on && j < 3 && (len(got) != 1 || got[0] != k.text):
						c.Fail("api", "level %q: %s(%q) wrote %q, not %q", n, k.name, x, got, k.text)
					case on && j == 3 && !strings.Contains(strings.Join(got, ""), k.text):
						c.Fail("api", "level %q: %s(%q) wrote %q", n, k.name, x, got)
					}
				}
				c.Distinct("%s at %q", k.name, n)
			}
		}
	}
	blog.SetLevel("none")
}

var c28Vary = regexp.MustCompile(`0x[0-9a-f]+|[0-9]+`)

// c28Head is the constant beginning of a message.
func c28Head(m string) string {
	m = c28Vary.ReplaceAllString(m, "#")
	if len(m) > 26 {
		m = m[:26]
	}
	return m
}

func c28Own(c *core.C, arg string) {
	sinks := c28Replace()
	ref := map[string][4][]string{}
	seed := c.T.Seed*7919 + 28
	// byte-trace is what the others are compared with; in another process the level is off first, so that what is
	// looked up once and kept shows
	var order []int
	if arg != "own" {
		order = append(order, 0)
	}
	for li := len(c28Levels) - 1; li >= 0; li-- {
		order = append(order, li)
	}
	order = append(order, 1+c.R.Intn(3))
	for _, li := range order {
		level := c28Levels[li]
		blog.SetLevel(level)
		c.R = newRand(seed)
		c28Work(c, 1, func(name string, plain bool, fn func()) {
			if c.Failed() {
				return
			}
			for _, s := range sinks {
				s.take()
			}
			fn()
			var heads [4][]string
			for j, s := range sinks {
				for _, m := range s.take() {
					heads[j] = append(heads[j], c28Head(m))
					c.Event("messages of "+c28Names[j], 1)
					if j < 3 {
						if w := c28Leak(m); w != "" {
							c.Fail("password", "level %s, %s: the password is in a message of the %s logger %s", level, name, c28Names[j], w)
							return
						}
					} else if c28Leak(m) != "" {
						c.Event("passwords in byte traces", 1)
					}
				}
				if j >= li && len(heads[j]) > 0 {
					c.Fail("level", "level %s, %s: the %s logger got %q", level, name, c28Names[j], trunc(fmt.Sprint(heads[j])))
					return
				}
			}
			if !plain || len(ref) == 0 && li != len(c28Levels)-1 {
				return
			}
			if li == len(c28Levels)-1 {
				ref[name] = heads
				b, _ := json.Marshal(ref)
				os.WriteFile(arg+".ref", b, 0600)
				return
			}
			for j := 0; j < li; j++ {
				if fmt.Sprint(heads[j]) != fmt.Sprint(ref[name][j]) {
					c.Fail("messages", "level %s, %s: the %s logger got %s, and at byte-trace level %s", level, name, c28Names[j], trunc(fmt.Sprint(heads[j])), trunc(fmt.Sprint(ref[name][j])))
					return
				}
			}
			c.Distinct("%s %s: %d %d %d %d messages", level, name, len(heads[0]), len(heads[1]), len(heads[2]), len(heads[3]))
		})
	}
	blog.SetLevel("none")
}

// ---- the workload ----

func c28URL(addr, query string) string {
	if query == "" {
		query = "timeout=20"
	}
	u := url.URL{Scheme: "bolt", User: url.UserPassword("neo4j", c28Pass), Host: addr, RawQuery: query}
	return u.String()
}

// c28Work does a bit of everything; plain steps do the same every time.
func c28Work(c *core.C, rounds int, step func(name string, plain bool, fn func())) {
	for round := 0; round < rounds; round++ {
		for v := 1; v <= 4; v++ {
			seed := c.R.Int63()
			r := newRand(seed)
			n := func(s string) string { return fmt.Sprintf("v%d/%d %s", v, round, s) }
			s := &fake.Server{Version: v, NoLog: true, Run: c28Run, CheckAuth: true, User: "neo4j", Pass: c28Pass}
			var arm func(fc *fake.Conn)
			s.OnConn = func(fc *fake.Conn) {
				if arm != nil {
					arm(fc)
				}
			}
			c.Serve(s)
			url_ := c28URL(s.Addr, "")
			open := func() *xrun {
				conn, err := connection.CreateBoltConn(url_)
				if err != nil {
					// for other checks to report
					c.Event("openings that failed", 1)
					c.Abort()
				}
				return &xrun{c: c, s: s, fc: s.Conns()[s.NConns()-1], conn: conn}
			}
			do := func(x *xrun, e exch) {
				if e.prep != nil {
					e.prep(x)
				}
				if e.do != nil {
					e.do(x)
				}
			}
			for _, e := range exchanges() {
				e := e
				step(n(e.name), true, func() {
					x := open()
					do(x, e)
					quietClose(x.conn)
				})
				for k := 0; k < 6; k++ {
					mode := []string{"full", "rst", "half"}[r.Intn(3)]
					at, tx := int64(r.Intn(120)), r.Intn(2) == 0
					step(n(e.name+" cut"), false, func() {
						if e.open {
							arm = func(fc *fake.Conn) {
								fc.Wire.Mode = mode
								if tx {
									fc.Wire.KillTx = at
								} else {
									fc.Wire.KillRx = at
								}
							}
							conn, err := connection.CreateBoltConn(url_)
							arm = nil
							if err == nil {
								quietClose(conn)
							}
							return
						}
						x := open()
						defer quietClose(x.conn)
						if e.prep != nil {
							e.prep(x)
						}
						x.fc.Wire.Mode = mode
						if tx {
							x.fc.ArmTx(x.fc.Sent() + at)
						} else {
							x.fc.ArmRx(x.fc.Received() + at)
						}
						e.do(x)
					})
				}
			}
			step(n("values"), true, func() {
				x := open()
				defer quietClose(x.conn)
				for k := 0; k < 60; k++ {
					budget := 200
					val := randVal(r, 3, &budget)
					x.conn.Query("VALUE", connection.QueryParams{"v": lift(val)})
				}
				for _, val := range c28Values(v) {
					rows, _, err := x.conn.Query("VALUE", connection.QueryParams{"v": val})
					c.Event("values", 1)
					_, _ = rows, err
				}
				x.conn.Query("VALUE", connection.QueryParams{"v": struct{}{}})
				x.conn.Query("VALUE", connection.QueryParams{"v": make(chan int)})
			})
			step(n("wire values"), true, func() {
				x := open()
				defer quietClose(x.conn)
				for k := 0; k < len(c28Wire(v)); k++ {
					x.conn.Query(fmt.Sprintf("WIRE %d", k), nil)
					c.Event("values", 1)
				}
			})
			step(n("misuse"), true, func() {
				x := open()
				tx, _ := x.conn.Begin()
				x.conn.Begin()
				x.conn.QueryWithDb("W 1", nil, "otherdb")
				if tx != nil {
					tx.Commit()
					tx.Commit()
					tx.Query("W 1", nil)
				}
				x.conn.QueryWithDb("W 1", nil, "otherdb")
				quietClose(x.conn)
				quietClose(x.conn)
				x.conn.Query("W 1", nil)
				x.conn.Begin()
			})
			for _, q := range []string{"", "timeout=abc", "chunk_size=0", "tls=true&tls_ca_cert_file=/none/ca.pem&timeout=1", "timeout=200ms&tls=1"} {
				q := q
				step(n("open "+q), true, func() {
					if q == "" {
						q = "timeout=20&x=%zz"
					}
					conn, err := connection.CreateBoltConn(c28URL(s.Addr, q))
					if err == nil {
						quietClose(conn)
					}
					goBolt.NewClient(goBolt.WithConnectionString(c28URL(s.Addr, q)))
				})
			}
			step(n("bad strings"), true, func() {
				for _, x := range []string{"bolt://neo4j:" + c28Core + "@ho st:7687", "bolt://neo4j:" + c28Core + "@h:port", "bolt://neo4j:%zz" + c28Core + "@h:1", "http://neo4j:" + c28Core + "@h:1", "bolt://neo4j:" + c28Core + "@h", "bolt://neo4j:" + c28Core + "@[::1:1", "\x01" + c28Core} {
					connection.CreateBoltConn(x)
					goBolt.NewClient(goBolt.WithConnectionString(x))
					goBolt.NewClient(goBolt.WithConnectionString("bolt://h:1"), goBolt.WithBasicAuth("", c28Pass))
				}
			})
			step(n("wrong password"), true, func() {
				u := strings.Replace(url_, "geheim", "geheim", 1)
				u = strings.Replace(u, "neo4j:", "neo5j:", 1)
				connection.CreateBoltConn(u)
			})
			step(n("nobody there"), false, func() {
				ln, err := net.Listen("tcp", fake.FreshIP()+":0")
				c.Must(err)
				a := ln.Addr().String()
				ln.Close()
				connection.CreateBoltConn(c28URL(a, ""))
				connection.CreateBoltConn(c28URL("no.such.host.invalid:7687", "timeout=1"))
			})
			for k, h := range [][]byte{{0, 0, 0, 0}, {0, 0, 0, 9}, {'H', 'T', 'T', 'P'}, {1, 2, 3, 4, 5}} {
				h := h
				step(n(fmt.Sprintf("handshake %d", k)), false, func() {
					y := &fake.Server{Version: v, NoLog: true, Handshake: h}
					c.Serve(y)
					connection.CreateBoltConn(c28URL(y.Addr, "timeout=1"))
					y.Stop()
				})
			}
			for k := 0; k < 40; k++ {
				raw := frame(hostile(r))
				step(n("hostile"), false, func() {
					x := open()
					defer quietClose(x.conn)
					x.conn.SetTimeout(200 * time.Millisecond)
					s.Hook = func(fc *fake.Conn, m *fake.Msg, rep []interface{}) ([]interface{}, *fake.Act) {
						if m.Query == "W 9" {
							return nil, &fake.Act{Raw: raw, Close: "half"}
						}
						return rep, nil
					}
					x.conn.Query("W 9", nil)
				})
				s.Hook = nil
			}
			c28Pools(c, v, s, r, n, step)
			if v >= 3 {
				c28Routed(c, v, r, n, step)
			}
			s.Stop()
		}
	}
}

// c28Run returns parameters and values given by number.
func c28Run(fc *fake.Conn, m *fake.Msg) *fake.Result {
	var k int
	switch {
	case m.Query == "VALUE":
		return &fake.Result{Fields: []string{"v"}, Rows: [][]interface{}{{m.Params["v"]}}, Summary: obj{"type": "r"}}
	case strings.HasPrefix(m.Query, "WIRE "):
		fmt.Sscanf(m.Query, "WIRE %d", &k)
		return &fake.Result{Fields: []string{"v"}, Rows: [][]interface{}{{c28Wire(fc.S.Version)[k]}}, Summary: obj{"type": "r"}}
	case strings.HasPrefix(m.Query, "W "):
		return whoResult(fc, m)
	}
	return cutResult(fc, m)
}

// c28Values are parameters of all kinds.
func c28Values(v int) []interface{} {
	out := []interface{}{nil, true, 1, int64(-1) << 40, 1.5, "text", []interface{}{1, "a"}, obj{"k": nil}, []byte("b"), uint8(7), []string{"a"}, []int{1}, map[string]interface{}{}}
	if v > 1 {
		r := rand.New(rand.NewSource(28))
		for _, k := range c03Kinds {
			for i := 0; i < 5; i++ {
				out = append(out, c03Go(r, k, nil))
			}
		}
	}
	return out
}

// c28Wire are results of all kinds.
func c28Wire(v int) []interface{} {
	r := rand.New(rand.NewSource(282))
	budget := 400
	out := []interface{}{nil, int64(1), 2.5, "x", arr{}, obj{}}
	for i := 0; i < 4; i++ {
		out = append(out, randNode(r, 2, &budget), randPath(r, 2, &budget))
	}
	if v > 1 {
		for _, k := range c03Kinds {
			for i := 0; i < 5; i++ {
				out = append(out, c03Wire(r, k, nil))
			}
		}
	}
	out = append(out, pack.Struct{Sig: 0x7e, Fields: arr{int64(1)}})
	return out
}

func c28Pools(c *core.C, v int, s *fake.Server, r *rand.Rand, n func(string) string, step func(string, bool, func())) {
	client, err := goBolt.NewClient(goBolt.WithHostPort(s.Host, s.Port), goBolt.WithBasicAuth("neo4j", c28Pass), goBolt.WithTimeout(20*time.Second))
	c.Must(err)
	step(n("driver"), true, func() {
		conns, done, _ := openVia(client, "driver")
		for _, x := range conns {
			x.Query("W 1", nil)
		}
		done()
	})
	step(n("pool"), true, func() {
		conns, done, _ := openVia(client, "pool")
		for _, x := range conns {
			x.Query("W 1", nil)
			x.Query("FAIL", nil)
			x.Begin()
		}
		done()
	})
	step(n("pool faults"), false, func() {
		p, err := client.NewDriverPool(2)
		if err != nil {
			return
		}
		for k := 0; k < 6; k++ {
			x, err := p.Open(bolt_mode.WriteMode)
			if err != nil {
				continue
			}
			x.Begin()
			if r.Intn(2) == 0 {
				for _, fc := range s.Conns() {
					fc.Kill("rst")
				}
			}
			x.Query("W 1", nil)
			p.Reclaim(x)
			p.Reclaim(x)
		}
		p.Reclaim(nil)
		p.Close()
		p.Close()
		p.Open(bolt_mode.ReadMode)
	})
}

func c28Routed(c *core.C, v int, r *rand.Rand, n func(string) string, step func(string, bool, func())) {
	step(n("routed"), false, func() {
		cl := newCluster(c, v, 2, r.Intn(2) == 0, "LEADER", "FOLLOWER")
		defer c28Stop(cl)
		client, err := goBolt.NewClient(goBolt.WithRouting(), goBolt.WithHostPort(cl.seed.Host, cl.seed.Port), goBolt.WithBasicAuth("neo4j", c28Pass), goBolt.WithTimeout(20*time.Second))
		c.Must(err)
		conns, done, err := openVia(client, "routed")
		if err != nil {
			c.Event("openings that failed", 1)
		}
		for _, x := range conns {
			x.Query("W 1", nil)
		}
		done()
		client.NewDriver()
	})
	auth := url.UserPassword("neo4j", c28Pass).String()
	for _, what := range []string{"seed down", "seed refuses", "overview fails", "overview malformed", "overview cut", "overview empty", "no leader", "member down", "member refuses"} {
		what := what
		step(n("routed start "+what), false, func() {
			cl := newCluster(c, v, 3, true, "LEADER", "FOLLOWER", "FOLLOWER")
			defer c28Stop(cl)
			refuse := func(s *fake.Server) {
				s.Fail = func(fc *fake.Conn, m *fake.Msg) *fake.Failure {
					if m.Name == "INIT" || m.Name == "HELLO" {
						return &fake.Failure{Code: "Neo.ClientError.Security.Unauthorized", Message: "no"}
					}
					return nil
				}
			}
			switch what {
			case "seed down":
				cl.seed.StopListening()
			case "seed refuses":
				refuse(cl.seed)
			case "overview fails":
				cl.bad(func() (*fake.Result, *fake.Act) {
					return &fake.Result{Fail: &fake.Failure{Code: "Neo.X", Message: "100% not"}}, nil
				})
			case "overview malformed":
				cl.bad(func() (*fake.Result, *fake.Act) {
					return &fake.Result{Fields: cl.fields(), Rows: [][]interface{}{{int64(1), "x", nil, 2.5}}}, nil
				})
			case "overview cut":
				cl.bad(func() (*fake.Result, *fake.Act) { return nil, &fake.Act{Close: "full", Before: true} })
			case "overview empty":
				cl.set(nil)
			case "no leader":
				cl.set([]string{"FOLLOWER", "FOLLOWER", "FOLLOWER"})
			case "member down":
				cl.members[r.Intn(2)].StopListening()
			case "member refuses":
				refuse(cl.members[r.Intn(2)])
			}
			if r.Intn(2) == 0 {
				p, err := routing.NewRoutingPool(c28URL(cl.seed.Addr, "timeout=20"), 4, 20*time.Millisecond, auth, "?timeout=20")
				c.Must(err)
				if err := p.Start(); err != nil {
					c.Event("openings that failed", 1)
					return
				}
				p.Stop()
				return
			}
			client, err := goBolt.NewClient(goBolt.WithRouting(), goBolt.WithHostPort(cl.seed.Host, cl.seed.Port), goBolt.WithBasicAuth("neo4j", c28Pass), goBolt.WithTimeout(20*time.Second))
			c.Must(err)
			_, done, err := openVia(client, "routed")
			if err != nil {
				c.Event("openings that failed", 1)
			}
			done()
		})
	}
	for _, what := range []string{"failing", "malformed", "bad address", "dead member", "kills", "cut", "wrong credentials"} {
		what := what
		step(n("routed "+what), false, func() {
			cl := newCluster(c, v, 3, true, "LEADER", "FOLLOWER", "FOLLOWER")
			defer c28Stop(cl)
			p, err := routing.NewRoutingPool(c28URL(cl.seed.Addr, "timeout=20"), 4, 20*time.Millisecond, auth, "?timeout=20")
			c.Must(err)
			if what != "bad address" || r.Intn(2) == 0 {
				if err := p.Start(); err != nil {
					c.Event("openings that failed", 1)
					return
				}
				defer p.Stop()
			}
			switch what {
			case "failing":
				cl.bad(func() (*fake.Result, *fake.Act) {
					return &fake.Result{Fail: &fake.Failure{Code: "Neo.X", Message: "100% not"}}, nil
				})
			case "malformed":
				cl.bad(func() (*fake.Result, *fake.Act) {
					return &fake.Result{Fields: cl.fields(), Rows: [][]interface{}{{int64(1), "x", nil, 2.5}}}, nil
				})
			case "bad address":
				cl.mu.Lock()
				cl.plain = true
				cl.via = map[int]string{0: "ho st:7687", 1: "127.0.0.1:%zz", 2: "[::1:9"}
				cl.mu.Unlock()
				p.Start()
				defer p.Stop()
			case "dead member":
				cl.members[1].Stop()
				cl.set([]string{"FOLLOWER", "LEADER", "LEADER"})
			case "kills":
				for _, s := range cl.members {
					for _, fc := range s.Conns() {
						fc.Kill("rst")
					}
				}
			case "cut":
				cl.bad(func() (*fake.Result, *fake.Act) { return nil, &fake.Act{Close: "full", Before: true} })
			case "wrong credentials":
				for _, s := range cl.members {
					s.Fail = func(fc *fake.Conn, m *fake.Msg) *fake.Failure {
						if m.Name == "INIT" || m.Name == "HELLO" {
							return &fake.Failure{Code: "Neo.ClientError.Security.Unauthorized", Message: "no"}
						}
						return nil
					}
					for _, fc := range s.Conns() {
						fc.Kill("full")
					}
				}
			}
			at := atomic.LoadInt64(&cl.served)
			for k := 0; k < 400 && atomic.LoadInt64(&cl.served) < at+3; k++ {
				time.Sleep(2 * time.Millisecond)
			}
			for k := 0; k < 4; k++ {
				var x connection.IConnection
				var err error
				within(time.Second, func() {
					if k%2 == 0 {
						x, err = p.BorrowRConnection()
					} else {
						x, err = p.BorrowRWConnection()
					}
					if err == nil && x != nil {
						x.Query("W 1", nil)
						p.Reclaim(x)
					}
				})
			}
		})
	}
}

func c28Stop(cl *cluster) {
	for _, s := range append(append([]*fake.Server{}, cl.members...), cl.seed) {
		s.Stop()
	}
}
