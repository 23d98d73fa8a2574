package checks

import (
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"
	"github.com/mindstand/go-bolt/routing"

	"verif/core"
	"verif/fake"
)

func init() {
	core.Register(&core.Check{ID: "C15", MinEvals: 20, CaseMax: 300 * time.Second,
		Rule:   "The server holds back its answer before every byte of every kind of exchange (opening, query, exec, transaction control, close, failure and reset; versions 1-4, TCP, and TLS through a proxy that stops forwarding at every byte of the TLS handshake and conversation), stops reading in the middle of long requests, or does not even accept. The call must return an error, not before the configured timeout and long before the server goes on; then the held-back answer is released and every later call must fail or return its own result. The timeout is given in the connection string, by client option or on the connection, singly and overriding each other, for plain, pooled and routed connections; answers that are late but in time, and calls after idling longer than the timeout, must succeed. Distinct and non-trivial: distinct (version, exchange, byte, outcome) and (way of configuring, place).",
		Assume: []string{"promptness is judged with seconds of slack and re-measured twice before it is reported", "an implementation may bound one wait for the server or the whole call; both are accepted"},
		Run:    runC15})
}

// lag is how much later than the timeout a call may return.
const lag = 8 * time.Second

func ownResult(c *fake.Conn, m *fake.Msg) *fake.Result {
	switch m.Query {
	case "FAIL", "FAILPULL", "RETURN none":
		return cutResult(c, m)
	}
	return &fake.Result{Fields: []string{"q"}, Rows: [][]interface{}{{m.Query}, {m.Query}, {m.Query}}, Summary: obj{"type": "r"}}
}

// isOwn tells whether rows are those of a query.
func isOwn(rows [][]interface{}, query string) bool {
	if len(rows) != 3 {
		return false
	}
	for _, r := range rows {
		if len(r) != 1 || r[0] != query {
			return false
		}
	}
	return true
}

// stallProxy forwards to a server and stops forwarding its answers after so many bytes.
type stallProxy struct {
	addr string
	ln   net.Listener
	mu   sync.Mutex
	at   int64 // for the next connections, -1: never
	sent int64 // of the last connection
	free chan struct{}
	cs   []net.Conn
}

func newStallProxy(c *core.C, to string) *stallProxy {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	c.Must(err)
	p := &stallProxy{addr: ln.Addr().String(), ln: ln, at: -1, free: make(chan struct{})}
	c.Defer(func() {
		ln.Close()
		p.release()
		p.mu.Lock()
		for _, x := range p.cs {
			x.Close()
		}
		p.mu.Unlock()
	})
	go func() {
		for {
			in, err := ln.Accept()
			if err != nil {
				return
			}
			out, err := net.Dial("tcp", to)
			if err != nil {
				in.Close()
				continue
			}
			p.mu.Lock()
			p.cs = append(p.cs, in, out)
			p.sent = 0
			p.mu.Unlock()
			go func() { io.Copy(out, in); out.(*net.TCPConn).CloseWrite() }()
			go p.back(in, out)
		}
	}()
	return p
}

func (p *stallProxy) back(in, out net.Conn) {
	buf := make([]byte, 16384)
	for {
		n, err := out.Read(buf)
		b := buf[:n]
		for len(b) > 0 {
			p.mu.Lock()
			k := int64(len(b))
			stall := false
			if p.at >= 0 && p.sent+k > p.at {
				k = p.at - p.sent
				if k < 0 {
					k = 0
				}
				stall = true
			}
			p.sent += k
			free := p.free
			p.mu.Unlock()
			if _, err := in.Write(b[:k]); err != nil {
				return
			}
			b = b[k:]
			if stall {
				<-free
				p.mu.Lock()
				p.sent += int64(len(b))
				p.mu.Unlock()
				if _, err := in.Write(b); err != nil {
					return
				}
				b = nil
			}
		}
		if err != nil {
			in.(*net.TCPConn).CloseWrite()
			return
		}
	}
}

// arm stalls connections after so many bytes of the server.
func (p *stallProxy) arm(at int64) { p.mu.Lock(); p.at = at; p.mu.Unlock() }
func (p *stallProxy) count() int64 { p.mu.Lock(); defer p.mu.Unlock(); return p.sent }

// release lets everything through again.
func (p *stallProxy) release() {
	p.mu.Lock()
	p.at = -1
	close(p.free)
	p.free = make(chan struct{})
	p.mu.Unlock()
}

// stalled measures a call that meets a stalled server: it must fail, not before the timeout and soon after it.
// retry repeats all of it.
//
// Once a few calls were late, the rest is not waited for.
func stalled(c *core.C, key, label string, timeout time.Duration, lower bool, call func() (time.Duration, error)) bool {
	var took time.Duration
	if atomic.LoadInt32(&c15Late) >= 4 {
		return false
	}
	for try := 0; try < 3; try++ {
		var err error
		took, err = call()
		if err == errInTime && took <= timeout+lag {
			return true
		}
		if c.Failed() {
			return false
		}
		if isNilErr(err) {
			c.Fail(key+" success", "%s: the call succeeded although the server did not answer", label)
			return false
		}
		if lower && took < timeout {
			c.Fail(key+" early", "%s: the call gave up after %v although the timeout is %v: %s", label, took, timeout, errText(err))
			return false
		}
		if took <= timeout+lag {
			return true
		}
		c.Event("measured again", 1)
	}
	atomic.AddInt32(&c15Late, 1)
	c.Fail(key+" late", "%s: the call returned after %v although the timeout is %v", label, took, timeout)
	return false
}

// bounded runs a call that may hang; it is measured to its end unless that takes for ever.
func bounded(f func() error, unstick func()) (took time.Duration, err error) {
	start := time.Now()
	done := make(chan error, 1)
	go func() { done <- f() }()
	select {
	case err = <-done:
		return time.Since(start), err
	case <-time.After(2*lag + lag/2):
	}
	took = time.Since(start)
	unstick()
	select {
	case err = <-done:
	case <-time.After(2 * slow):
	}
	return took, fmt.Errorf("did not return (%v)", err)
}

func runC15(t *core.T) {
	ca := newCA(scratchDir(), "c15")
	var jobs []core.Job
	ways := append([]way{}, c15Ways()...)
	for _, w := range ways {
		for i := 0; i < t.Pick(1, 3); i++ {
			w := w
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("way/%s/%d", strings.ReplaceAll(w.name, " ", "-"), i), Fn: func(c *core.C) { c15Way(c, w, 1+c.R.Intn(4), i%2 == 1, ca) }})
		}
	}
	for v := 1; v <= 4; v++ {
		v := v
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("precise/v%d", v), Fn: func(c *core.C) { c15Precise(c, v) }})
	}
	for i := 0; i < t.Pick(3, 9); i++ {
		i := i
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("dial/%d", i), Fn: func(c *core.C) { c15Dial(c, i%3, ca) }})
	}
	for v := 1; v <= 4; v++ {
		v := v
		for i := 0; i < t.Pick(3, 12); i++ {
			i := i
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("write/v%d/%d", v, i), Fn: func(c *core.C) { c15Write(c, v, i%3 == 2, ca) }})
		}
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("intime/v%d", v), Fn: func(c *core.C) { c15InTime(c, v) }})
		for i := 0; i < t.Pick(2, 8); i++ {
			i := i
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("big/v%d/%d", v, i), Fn: func(c *core.C) { c15Big(c, v, i%2 == 1, ca) }})
		}
		for i := 0; i < t.Pick(4, 30); i++ {
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("race/v%d/%d", v, i), Fn: func(c *core.C) { c15Race(c, v) }})
		}
	}
	for v := 1; v <= 4; v++ {
		for _, e := range exchanges() {
			v, e := v, e
			parts := 4
			for part := 0; part < parts; part++ {
				part := part
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("stall/v%d/%s/%d", v, e.name, part), Fn: func(c *core.C) { c15Bytes(c, v, e, part, parts, nil) }})
			}
			if v == 1 || v == 4 || t.Thorough {
				for part := 0; part < parts; part++ {
					part := part
					jobs = append(jobs, core.Job{Name: fmt.Sprintf("stalltls/v%d/%s/%d", v, e.name, part), Fn: func(c *core.C) { c15Bytes(c, v, e, part, parts, ca) }})
				}
			}
		}
	}
	// what has short timeouts and must work all the same comes first, the machine is idle then
	calm, heavy, rest := []core.Job{}, []core.Job{}, []core.Job{}
	for _, j := range jobs {
		switch {
		case strings.HasPrefix(j.Name, "way/"), strings.HasPrefix(j.Name, "precise/"), strings.HasPrefix(j.Name, "dial/"), strings.HasPrefix(j.Name, "intime/"):
			calm = append(calm, j)
		case strings.HasPrefix(j.Name, "write/"):
			heavy = append(heavy, j)
		default:
			rest = append(rest, j)
		}
	}
	t.Parallel(64, calm)
	t.Parallel(4, heavy)
	t.Parallel(48, rest)
}

// healthy reports a call that failed although the server answers, unless it took so long that the timeout may have ended it.
func healthy(c *core.C, start time.Time, timeout time.Duration, what string, err error) {
	if time.Since(start) >= timeout {
		c.Event("too slow to tell", 1)
		return
	}
	c.Fail("healthy", "%s failed after %v although the timeout is %v: %s", what, time.Since(start), timeout, errText(err))
}

var c15Late int32

const short_ = 40 * time.Millisecond

// c15Bytes stalls one exchange before every byte of the server's answer.
func c15Bytes(c *core.C, v int, e exch, part, parts int, ca *authority) {
	s := &fake.Server{Version: v, Run: ownResult, NoLog: true}
	query := "timeout=20"
	if ca != nil {
		s.TLS = serverTLS(ca.good())
		query += "&tls=true&tls_ca_cert_file=" + ca.File
	}
	openAt := int64(-1)
	s.OnConn = func(fc *fake.Conn) {
		fc.Wire.Hold = true
		fc.Wire.StallTx = openAt
	}
	c.Serve(s)
	url := connURL(s, query)
	var p *stallProxy
	if ca != nil {
		p = newStallProxy(c, s.Addr)
		url = strings.Replace(url, s.Addr, p.addr, 1)
		url = strings.Replace(url, "localhost", "127.0.0.1", 1)
	}
	sent := func(x *xrun) int64 {
		if p != nil {
			return p.count()
		}
		return x.fc.Sent()
	}
	open := func() *xrun {
		conn, err := connection.CreateBoltConn(url)
		if err != nil {
			c.Fail("open", "v%d: opening a healthy connection failed: %s", v, errText(err))
			c.Abort()
		}
		x := &xrun{c: c, s: s, fc: s.Conns()[s.NConns()-1], conn: conn}
		if e.prep != nil {
			e.prep(x)
		}
		return x
	}
	quick, err := clientFor(url, short_)
	if err != nil {
		c.Fail("client", "creating a client for a valid connection string failed: %s", errText(err))
		return
	}
	// how long is the answer?
	var total int64
	{
		x := open()
		n := sent(x)
		if e.open {
			total = n
		} else {
			_, _, err := e.do(x)
			if !e.fail && !isNilErr(err) {
				c.Fail("healthy", "v%d: %s on a healthy connection failed: %s", v, e.name, errText(err))
				return
			}
			if e.name == "close" {
				waitClosed(x.fc)
			}
			total = sent(x) - n
			if e.name == "close" && p != nil {
				total = 1 // the answer, and the end of TLS, which nobody waits for
			}
		}
		quietClose(x.conn)
	}
	for at := int64(part); at < total; at += int64(parts) {
		label := fmt.Sprintf("v%d %s stalled at byte %d of %d, TLS %v", v, e.name, at, total, ca != nil)
		ok := stalled(c, e.name, label, short_, !e.fail, func() (time.Duration, error) {
			c.Event("stalls", 1)
			if e.open {
				if p != nil {
					p.arm(at)
				} else {
					openAt = at
				}
				n := s.NConns()
				var conn connection.IConnection
				unstick := func() {
					if p != nil {
						p.release()
					}
					for _, fc := range s.Conns()[n:] {
						fc.Free()
					}
				}
				took, err := bounded(func() error {
					var err error
					conn, err = quick()
					return err
				}, unstick)
				openAt = -1
				unstick()
				if !isNilErr(err) && conn != nil {
					c.Fail("half", "%s: a connection came with error %s", label, errText(err))
				}
				c.Distinct("%s err=%v", label, !isNilErr(err))
				return took, err
			}
			x := open()
			defer quietClose(x.conn)
			x.conn.SetTimeout(short_)
			if p != nil {
				p.arm(sent(x) + at)
			} else {
				x.fc.ArmStall(x.fc.Sent()+at, -1)
			}
			unstick := func() {
				if p != nil {
					p.release()
				}
				x.fc.Free()
			}
			var rows [][]interface{}
			var res connection.IResult
			took, err := bounded(func() error {
				var err error
				rows, res, err = e.do(x)
				return err
			}, unstick)
			if isNilErr(err) {
				unstick()
				return took, err
			}
			if rows != nil || !isNilResult(res) {
				c.Fail(e.name+" partial", "%s: error %s came with rows %s", label, errText(err), short(rows))
				return took, err
			}
			c.Distinct("%s err=true", label)
			later(c, x, label, unstick)
			return took, err
		})
		if !ok {
			return
		}
	}
	c.Sample("v%d %s TLS %v: %d bytes, stalled before every one", v, e.name, ca != nil, total)
}

// later lets the held-back answer through and checks that it does not become the result of anything.
func later(c *core.C, x *xrun, label string, unstick func()) {
	x.conn.SetTimeout(20 * time.Second)
	unstick()
	end := time.Now().Add(time.Second)
	for !x.fc.Replied() && !x.fc.IsPeerClosed() && time.Now().Before(end) {
		time.Sleep(200 * time.Microsecond)
	}
	for i := 0; i < 2; i++ {
		q := fmt.Sprintf("RETURN later%d", i)
		start := time.Now()
		rows, _, err := x.conn.Query(q, nil)
		if isNilErr(err) && !isOwn(rows, q) {
			c.Fail("late result", "%s: a later query returned %s, which is not its own result", label, short(rows))
			return
		}
		if x.tx != nil {
			rows, _, err = x.tx.Query(q+"tx", nil)
			if isNilErr(err) && !isOwn(rows, q+"tx") {
				c.Fail("late result", "%s: a later query in the transaction returned %s, which is not its own result", label, short(rows))
				return
			}
		}
		if d := time.Since(start); d > slow {
			c.Fail("blocks", "%s: later calls took %v", label, d)
			return
		}
		c.Event("later calls", 1)
	}
}

// clientFor makes a function opening connections through a client with a timeout option; the connection
// string has another one that is taken out first.
func clientFor(url string, timeout time.Duration) (func() (connection.IConnection, error), error) {
	url = strings.Replace(url, "timeout=20", "", 1)
	cl, err := goBolt.NewClient(goBolt.WithConnectionString(url), goBolt.WithTimeout(timeout))
	if err != nil {
		return nil, err
	}
	d, err := cl.NewDriver()
	if err != nil {
		return nil, err
	}
	return func() (connection.IConnection, error) { return d.Open(bolt_mode.WriteMode) }, nil
}

// c15Precise checks that a timeout is the one that was set, not a coarser one: the quickest of several tries
// must not take much longer, however busy the machine is.
func c15Precise(c *core.C, v int) {
	s := &fake.Server{Version: v, Run: ownResult, NoLog: true}
	s.OnConn = func(fc *fake.Conn) { fc.Wire.Hold = true }
	c.Serve(s)
	for _, T := range []time.Duration{30 * time.Millisecond, 120 * time.Millisecond, 350 * time.Millisecond, 1300 * time.Millisecond} {
		for _, by := range []string{"set", "option", "setlonger"} {
			var best time.Duration
			for try := 0; try < 12; try++ {
				var conn connection.IConnection
				var err error
				if by == "option" {
					open, e := clientFor(connURL(s, "timeout=20"), T)
					c.Must(e)
					conn, err = open()
				} else {
					conn, err = connection.CreateBoltConn(connURL(s, "timeout=20"))
				}
				if err != nil {
					c.Event("too slow to tell", 1)
					continue
				}
				fc := s.Conns()[s.NConns()-1]
				if by == "setlonger" {
					conn.SetTimeout(T / 3)
					conn.ValidateOpen()
				}
				if by != "option" {
					conn.SetTimeout(T)
				}
				fc.ArmStall(fc.Sent()+int64(c.R.Intn(60)), -1)
				took, err := bounded(func() error { _, _, err := conn.Query("RETURN held", nil); return err }, fc.Free)
				fc.Free()
				quietClose(conn)
				c.Event("stalls", 1)
				if isNilErr(err) {
					c.Fail("precise success", "v%d: a query succeeded although the server did not answer", v)
					return
				}
				if try == 0 || took < best {
					best = took
				}
				if best < T+500*time.Millisecond {
					break
				}
			}
			c.Distinct("precise v%d %v %s", v, T, by)
			if best >= T+500*time.Millisecond {
				c.Fail("coarse", "v%d: with a timeout of %v (%s) the quickest of 12 stalled queries took %v", v, T, by, best)
				return
			}
		}
	}
}

// c15Race releases the answer at about the time the timeout ends.
func c15Race(c *core.C, v int) {
	s := &fake.Server{Version: v, Run: ownResult, NoLog: true}
	s.OnConn = func(fc *fake.Conn) { fc.Wire.Hold = true }
	c.Serve(s)
	T := 20 * time.Millisecond
	for i := 0; i < c.T.Pick(25, 100); i++ {
		conn := dial(c, s)
		fc := s.Conns()[s.NConns()-1]
		x := &xrun{c: c, s: s, fc: fc, conn: conn}
		conn.SetTimeout(T)
		fc.ArmStall(fc.Sent()+c.R.Int63n(90), -1)
		delay := T - 3*time.Millisecond + time.Duration(c.R.Int63n(int64(5*time.Millisecond)))
		go func() { time.Sleep(delay); fc.Free() }()
		rows, res, err := conn.Query("RETURN race", nil)
		c.Distinct("race v%d err=%v", v, !isNilErr(err))
		c.Event("races", 1)
		if isNilErr(err) {
			if !isOwn(rows, "RETURN race") {
				c.Fail("race", "v%d: a query answered about when it times out returned %s", v, short(rows))
				return
			}
		} else if rows != nil || !isNilResult(res) {
			c.Fail("race partial", "v%d: error %s came with rows %s", v, errText(err), short(rows))
			return
		}
		later(c, x, fmt.Sprintf("v%d, answered about when it times out (error %v)", v, !isNilErr(err)), fc.Free)
		quietClose(conn)
		if c.Failed() {
			return
		}
	}
}

// c15Dial checks opening towards a server that accepts nothing, accepts and says nothing.
func c15Dial(c *core.C, how int, ca *authority) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	c.Must(err)
	c.Must(syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}))
	backlog := 0
	if how > 0 {
		backlog = 100
	}
	c.Must(syscall.Listen(fd, backlog))
	c.Defer(func() { syscall.Close(fd) })
	sa, err := syscall.Getsockname(fd)
	c.Must(err)
	addr := fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	if how == 0 { // fill it up
		var fill []net.Conn
		for i := 0; i < 8; i++ {
			x, err := net.DialTimeout("tcp", addr, 300*time.Millisecond)
			if err != nil {
				break
			}
			fill = append(fill, x)
		}
		defer func() {
			for _, x := range fill {
				x.Close()
			}
		}()
		if len(fill) == 8 {
			c.T.Note("a full backlog accepts connections here; dialling into it is not checked")
			return
		}
	}
	for _, tlsOn := range []bool{false, true} {
		q := ""
		if tlsOn {
			q = "&tls=true&tls_ca_cert_file=" + ca.File
		}
		label := fmt.Sprintf("%s, TLS %v", []string{"full backlog", "silent server", "silent server, pool"}[how], tlsOn)
		for _, T := range []time.Duration{1 * time.Second, 150 * time.Millisecond} {
			var open func() (connection.IConnection, error)
			url := "bolt://u:p@" + addr + "?"
			how_ := "connection string"
			if T == time.Second {
				open = func() (connection.IConnection, error) { return connection.CreateBoltConn(url + "timeout=1" + q) }
			} else {
				how_ = "client option"
				cl, err := goBolt.NewClient(goBolt.WithTimeout(T), goBolt.WithConnectionString(url+q[min(1, len(q)):]))
				if err != nil {
					c.Fail("client", "creating a client for a valid connection string failed: %s", errText(err))
					return
				}
				if how == 2 {
					p, err := cl.NewDriverPool(2)
					c.Must(err)
					open = func() (connection.IConnection, error) { return p.Open(bolt_mode.WriteMode) }
				} else {
					d, err := cl.NewDriver()
					c.Must(err)
					open = func() (connection.IConnection, error) { return d.Open(bolt_mode.WriteMode) }
				}
			}
			c.Distinct("dial %s %s", label, how_)
			c.Event("stalls", 1)
			if !stalled(c, "dial", label+", timeout by "+how_, T, how == 1, func() (time.Duration, error) {
				return bounded(func() error { _, err := open(); return err }, func() {})
			}) {
				return
			}
		}
	}
}

// c15Write checks requests the server does not read.
func c15Write(c *core.C, v int, tlsOn bool, ca *authority) {
	s := &fake.Server{Version: v, Run: ownResult, NoLog: true}
	q := "timeout=20"
	if tlsOn {
		s.TLS = serverTLS(ca.good())
		q += "&tls=true&tls_ca_cert_file=" + ca.File
	}
	s.OnConn = func(fc *fake.Conn) { fc.Wire.Hold = true }
	c.Serve(s)
	big := connection.QueryParams{"big": strings.Repeat("x", 24<<20)}
	for _, after := range []int64{0, 3 << 20} {
		for _, inTx := range []bool{false, true} {
			label := fmt.Sprintf("v%d, server stops reading after %d bytes of a long request, TLS %v, in a transaction %v", v, after, tlsOn, inTx)
			c.Distinct("%s", label)
			if !stalled(c, "write", label, 200*time.Millisecond, true, func() (time.Duration, error) {
				c.Event("stalls", 1)
				conn, err := connection.CreateBoltConn(connURL(s, q))
				if err != nil {
					c.Fail("open", "opening a healthy connection failed: %s", errText(err))
					c.Abort()
				}
				defer quietClose(conn)
				x := &xrun{c: c, s: s, fc: s.Conns()[s.NConns()-1], conn: conn}
				var query connection.IQuery = conn
				if inTx {
					x.tx, err = conn.Begin()
					if err != nil {
						c.Fail("begin", "Begin on a healthy connection: %s", errText(err))
						c.Abort()
					}
					query = x.tx
				}
				x.fc.ArmStall(-1, x.fc.Received()+after)
				conn.SetTimeout(200 * time.Millisecond)
				var rows [][]interface{}
				took, err := bounded(func() error {
					var err error
					rows, _, err = query.Query("RETURN long", big)
					return err
				}, x.fc.Free)
				if isNilErr(err) {
					return took, err
				}
				if rows != nil {
					c.Fail("write partial", "%s: rows with error %s", label, errText(err))
					return took, err
				}
				later(c, x, label, x.fc.Free)
				return took, err
			}) {
				return
			}
		}
	}
	// one that goes on reading a little too late: what it then gets may break off, but not continue somewhere else
	zeros := connection.QueryParams{"big": strings.Repeat("\x00", 24<<20)}
	for _, late := range []time.Duration{300 * time.Millisecond, 350 * time.Millisecond} {
		label := fmt.Sprintf("v%d, TLS %v: a long request the server began to read after %v, timeout 0.2 s", v, tlsOn, late)
		conn, err := connection.CreateBoltConn(connURL(s, q))
		if err != nil {
			c.Fail("open", "opening a healthy connection failed: %s", errText(err))
			return
		}
		defer quietClose(conn)
		fc := s.Conns()[s.NConns()-1]
		fc.ArmStall(-1, fc.Received()+int64(c.R.Intn(1<<20)))
		conn.SetTimeout(200 * time.Millisecond)
		timer := time.AfterFunc(late, fc.Free)
		rows, _, err := conn.Query("RETURN late", zeros)
		if timer.Stop() {
			fc.Free()
		}
		if isNilErr(err) && !isOwn(rows, "RETURN late") { // it may not have been that late on a busy machine
			c.Fail("late rows", "%s, returned %s", label, short(rows))
			return
		}
		conn.SetTimeout(20 * time.Second)
		rows, _, err2 := conn.Query("RETURN after", nil)
		if isNilErr(err2) && !isOwn(rows, "RETURN after") {
			c.Fail("late rows", "%s; the next one returned %s", label, short(rows))
			return
		}
		conn.Close()
		waitClosed(fc)
		if vi := s.Violations(); len(vi) > 0 {
			c.Fail("late bytes", "%s, with the error %s, left the server with %s: %s", label, errText(err), vi[0].Kind, vi[0].Detail)
			return
		}
		c.Event("requests read too late", 1)
	}
	// one that goes on reading in time
	conn, err := connection.CreateBoltConn(connURL(s, q))
	if err != nil {
		c.Fail("open", "opening a healthy connection failed: %s", errText(err))
		return
	}
	defer quietClose(conn)
	fc := s.Conns()[s.NConns()-1]
	fc.ArmStall(-1, fc.Received()+1000)
	go func() { time.Sleep(400 * time.Millisecond); fc.Free() }()
	rows, _, err := conn.Query("RETURN patient", big)
	if !isNilErr(err) || !isOwn(rows, "RETURN patient") {
		c.Fail("impatient", "v%d, TLS %v: a long request the server began to read after 0.4s, timeout 20s, returned %s, error %s", v, tlsOn, short(rows), errText(err))
	}
}

// c15Big stalls the server in the middle of large chunks of large answers.
func c15Big(c *core.C, v int, tlsOn bool, ca *authority) {
	long := strings.Repeat("long", 60000)
	s := &fake.Server{Version: v, NoLog: true, Run: func(fc *fake.Conn, m *fake.Msg) *fake.Result {
		return &fake.Result{Fields: []string{"q"}, Rows: [][]interface{}{{long}, {int64(1)}, {long}}, Summary: obj{"type": "r", "long": long}}
	}}
	q := "timeout=20"
	if tlsOn {
		s.TLS = serverTLS(ca.good())
		q += "&tls=true&tls_ca_cert_file=" + ca.File
	}
	size := []int{65535, 40000, 9000}[c.R.Intn(3)]
	s.OnConn = func(fc *fake.Conn) {
		fc.Wire.Hold = true
		fc.Wire.Chunk = func(n int) []int {
			var cs []int
			for ; n > size; n -= size {
				cs = append(cs, size)
			}
			return append(cs, n)
		}
	}
	c.Serve(s)
	const timeout = 500 * time.Millisecond
	for i := 0; i < c.T.Pick(4, 20); i++ {
		at := int64(c.R.Intn(3 * len(long)))
		if i%2 == 0 {
			at = int64(30 + c.R.Intn(size/2)) // early in the first chunk
		}
		label := fmt.Sprintf("v%d, TLS %v, an answer of 720 kB in chunks of %d, stalled after %d bytes", v, tlsOn, size, at)
		if !stalled(c, "big", label, timeout, true, func() (time.Duration, error) {
			c.Event("stalls", 1)
			conn, err := connection.CreateBoltConn(connURL(s, q))
			if err != nil {
				c.Fail("open", "opening a healthy connection failed: %s", errText(err))
				c.Abort()
			}
			defer quietClose(conn)
			fc := s.Conns()[s.NConns()-1]
			fc.ArmStall(fc.Sent()+at, -1)
			conn.SetTimeout(timeout)
			c.Distinct("%s", label)
			var rows [][]interface{}
			took, err := bounded(func() error {
				var err error
				if i%4 < 2 {
					rows, _, err = conn.Query("RETURN big", nil)
				} else {
					_, err = conn.Exec("RETURN big", nil)
				}
				return err
			}, fc.Free)
			fc.Free()
			if !isNilErr(err) && rows != nil && took <= timeout+lag {
				c.Fail("big partial", "%s: rows came with error %s", label, errText(err))
			}
			return took, err
		}) {
			return
		}
	}
}

// c15InTime checks that what is answered in time succeeds, however long calls and idling take altogether.
func c15InTime(c *core.C, v int) {
	s := &fake.Server{Version: v, Run: ownResult, NoLog: true}
	var mu sync.Mutex
	var pause time.Duration
	s.Hook = func(fc *fake.Conn, m *fake.Msg, rep []interface{}) ([]interface{}, *fake.Act) {
		mu.Lock()
		d := pause
		mu.Unlock()
		time.Sleep(d)
		return rep, nil
	}
	c.Serve(s)
	set := func(d time.Duration) { mu.Lock(); pause = d; mu.Unlock() }
	check := func(label string, timeout time.Duration, conn connection.IConnection, steps ...time.Duration) bool {
		for _, d := range steps {
			start := time.Now()
			set(d)
			rows, _, err := conn.Query("RETURN slow", nil)
			set(0)
			c.Event("answers in time", 1)
			if !isNilErr(err) && time.Since(start) >= timeout {
				c.Event("too slow to tell", 1)
				return false
			}
			if !isNilErr(err) || !isOwn(rows, "RETURN slow") {
				c.Fail("impatient", "v%d, %s: a query whose answers take %v each returned %s, error %s", v, label, d, short(rows), errText(err))
				return false
			}
		}
		c.Distinct("in time v%d %s", v, label)
		return true
	}
	// the timeout of the connection string, and the default one
	for _, q := range []string{"timeout=10", ""} {
		conn, err := connection.CreateBoltConn("bolt://neo4j:secret@" + s.Addr + "?" + q)
		if err != nil {
			c.Fail("open", "opening a healthy connection failed: %s", errText(err))
			return
		}
		defer quietClose(conn)
		if !check("connection string "+q, 10*time.Second, conn, time.Millisecond, 600*time.Millisecond, 0, 1200*time.Millisecond) {
			return
		}
		conn.ValidateOpen()
		if !check("connection string "+q+", after a liveness check", 10*time.Second, conn, 300*time.Millisecond) {
			return
		}
		// a shorter one, and a longer one again
		conn.SetTimeout(500 * time.Millisecond)
		if !check("short timeout set", 500*time.Millisecond, conn, 0) {
			return
		}
		time.Sleep(1500 * time.Millisecond)
		if !check("short timeout set, idle for longer than that", 500*time.Millisecond, conn, 0) {
			return
		}
		conn.SetTimeout(15 * time.Second)
		if !check("long timeout set", 15*time.Second, conn, 1500*time.Millisecond) {
			return
		}
	}
	// a transaction that is idle for longer than the timeout
	begun := time.Now()
	conn, err := connection.CreateBoltConn("bolt://neo4j:secret@" + s.Addr + "?timeout=1")
	if err != nil {
		healthy(c, begun, time.Second, "opening a connection", err)
		return
	}
	defer quietClose(conn)
	begun = time.Now()
	tx, err := conn.Begin()
	if err == nil {
		time.Sleep(1700 * time.Millisecond)
		begun = time.Now()
		_, _, err = tx.Query("RETURN x", nil)
	}
	if err == nil {
		time.Sleep(1700 * time.Millisecond)
		begun = time.Now()
		err = tx.Commit()
	}
	if !isNilErr(err) {
		healthy(c, begun, time.Second, fmt.Sprintf("v%d: a transaction that is idle for longer than the timeout", v), err)
	}
}

// way is a way to configure the timeout and open a connection.
type way struct {
	name string
	T    time.Duration
	// open opens a connection at the server through query parameters of the URL
	open func(c *core.C, s *fake.Server, cl *cluster, q string) (func() (connection.IConnection, error), func(connection.IConnection) error, error)
	set  time.Duration // then set on the connection
	rtd  bool          // routed
}

func viaClient(pool bool, routed bool, form string, opts ...goBolt.Opt) func(c *core.C, s *fake.Server, cl *cluster, q string) (func() (connection.IConnection, error), func(connection.IConnection) error, error) {
	return func(c *core.C, s *fake.Server, cl *cluster, q string) (func() (connection.IConnection, error), func(connection.IConnection) error, error) {
		scheme := "bolt"
		if routed {
			s = cl.seed
			scheme = "bolt+routing"
		}
		var o []goBolt.Opt
		o = append(o, opts...)
		switch form {
		case "options":
			o = append(o, goBolt.WithHostPort(s.Host, s.Port), goBolt.WithBasicAuth("neo4j", "secret"))
			if routed {
				o = append(o, goBolt.WithRouting())
			}
		default:
			o = append(o, goBolt.WithConnectionString(fmt.Sprintf("%s://neo4j:secret@%s?%s", scheme, s.Addr, strings.Trim(form+"&"+q, "&"))))
		}
		c.R.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
		k, err := goBolt.NewClient(o...)
		if err != nil {
			return nil, nil, fmt.Errorf("creating the client: %w", err)
		}
		if !pool && !routed {
			d, err := k.NewDriver()
			if err != nil {
				return nil, nil, err
			}
			return func() (connection.IConnection, error) { return d.Open(bolt_mode.WriteMode) }, func(x connection.IConnection) error { return x.Close() }, nil
		}
		p, err := k.NewDriverPool(2)
		if err != nil {
			return nil, nil, err
		}
		c.Defer(func() { p.Close() })
		return func() (connection.IConnection, error) { return p.Open(bolt_mode.WriteMode) }, p.Reclaim, nil
	}
}

func c15Ways() []way {
	ms := time.Millisecond
	direct := func(q string) func(c *core.C, s *fake.Server, cl *cluster, x string) (func() (connection.IConnection, error), func(connection.IConnection) error, error) {
		return func(c *core.C, s *fake.Server, cl *cluster, x string) (func() (connection.IConnection, error), func(connection.IConnection) error, error) {
			u := fmt.Sprintf("bolt://neo4j:secret@%s?%s", s.Addr, strings.Trim(q+"&"+x, "&"))
			return func() (connection.IConnection, error) { return connection.CreateBoltConn(u) }, func(x connection.IConnection) error { return x.Close() }, nil
		}
	}
	return []way{
		{name: "string 1", T: time.Second, open: direct("timeout=1")},
		{name: "string 2", T: 2 * time.Second, open: direct("timeout=2")},
		{name: "string 20 then set", T: 300 * ms, set: 300 * ms, open: direct("timeout=20")},
		{name: "string 1 then set longer", T: 2500 * ms, set: 2500 * ms, open: direct("timeout=1")},
		{name: "client string 1", T: time.Second, open: viaClient(false, false, "timeout=1")},
		{name: "client option", T: 700 * ms, open: viaClient(false, false, "", goBolt.WithTimeout(700*ms))},
		{name: "client option 3s", T: 3 * time.Second, open: viaClient(false, false, "", goBolt.WithTimeout(3*time.Second))},
		{name: "client option 1.9s", T: 1900 * ms, open: viaClient(false, false, "", goBolt.WithTimeout(1900*ms))},
		{name: "routed options 1.6s", T: 1600*ms + 123456*time.Nanosecond, rtd: true, open: viaClient(true, true, "options", goBolt.WithTimeout(1600*ms+123456*time.Nanosecond))},
		{name: "pool option 1.4s", T: 1400*ms - 1, open: viaClient(true, false, "", goBolt.WithTimeout(1400*ms-1))},
		{name: "client options", T: 600 * ms, open: viaClient(false, false, "options", goBolt.WithTimeout(600*ms))},
		{name: "client options then set", T: 900 * ms, set: 900 * ms, open: viaClient(false, false, "options", goBolt.WithTimeout(25*time.Second))},
		{name: "pool string 1", T: time.Second, open: viaClient(true, false, "timeout=1")},
		{name: "pool option", T: 500 * ms, open: viaClient(true, false, "", goBolt.WithTimeout(500*ms))},
		{name: "pool options", T: 650 * ms, open: viaClient(true, false, "options", goBolt.WithTimeout(650*ms))},
		{name: "routed string 1", T: time.Second, rtd: true, open: viaClient(true, true, "timeout=1")},
		{name: "routed option", T: 550 * ms, rtd: true, open: viaClient(true, true, "", goBolt.WithTimeout(550*ms))},
		{name: "routed options", T: 450 * ms, rtd: true, open: viaClient(true, true, "options", goBolt.WithTimeout(450*ms))},
		{name: "routed pool string 1", T: time.Second, rtd: true, open: func(c *core.C, s *fake.Server, cl *cluster, x string) (func() (connection.IConnection, error), func(connection.IConnection) error, error) {
			p, err := routing.NewRoutingPool("bolt://neo4j:secret@"+cl.seed.Addr+"?timeout=1", 2, time.Hour, "neo4j:secret", "?timeout=1")
			if err != nil {
				return nil, nil, err
			}
			if err := p.Start(); err != nil {
				return nil, nil, err
			}
			c.Defer(func() { p.Stop() })
			return p.BorrowRWConnection, p.Reclaim, nil
		}},
	}
}

// c15Way checks that a timeout configured in some way is the one that is applied.
func c15Way(c *core.C, w way, v int, tlsOn bool, ca *authority) {
	if w.rtd && v < 3 {
		v += 2
	}
	label := fmt.Sprintf("v%d, %s", v, w.name)
	where := []string{"query", "slow query", "tx", "giveback", "validate", "open"}
	for _, place := range where {
		if place == "open" && w.set != 0 {
			continue
		}
		var s *fake.Server
		var cl *cluster
		servers := func() []*fake.Server {
			if cl != nil {
				return append(append([]*fake.Server{}, cl.members...), cl.seed)
			}
			return []*fake.Server{s}
		}
		what := label + ", " + place
		once := func() (time.Duration, error) {
			if w.rtd {
				cl = newCluster(c, v, 2, true, "LEADER", "FOLLOWER")
				for _, m := range cl.members {
					m.OnConn = func(fc *fake.Conn) { fc.Wire.Hold = true }
				}
				s = cl.members[0]
			} else {
				s = &fake.Server{Version: v, Run: ownResult, NoLog: true}
				s.OnConn = func(fc *fake.Conn) { fc.Wire.Hold = true }
				c.Serve(s)
			}
			free := func() {
				for _, x := range servers() {
					for _, fc := range x.Conns() {
						fc.Free()
					}
				}
			}
			defer free()
			if place == "open" {
				// the server says nothing, or stops in the middle
				at := []int64{0, 2, 4, 9}[c.R.Intn(4)]
				list := servers()
				st := list[c.R.Intn(len(list))]
				if cl != nil && c.R.Intn(2) == 0 {
					st = cl.seed
				}
				for _, x := range list {
					if x == st || x != cl0(cl) {
						x.OnConn = func(fc *fake.Conn) { fc.Wire.Hold = true; fc.Wire.StallTx = at }
					}
				}
				return bounded(func() error {
					open, _, err := w.open(c, s, cl, "")
					if err != nil {
						return err
					}
					_, err = open()
					return err
				}, free)
			}
			begun := time.Now()
			open, back, err := w.open(c, s, cl, "")
			if err != nil {
				healthy(c, begun, w.T, what+", opening a pool of healthy connections", err)
				return 0, errInTime
			}
			conn, err := open()
			if err != nil {
				healthy(c, begun, w.T, what+", opening a healthy connection", err)
				return 0, errInTime
			}
			begun = time.Now()
			if w.set != 0 {
				conn.SetTimeout(w.set)
			}
			var fc *fake.Conn
			var tx connection.ITransaction
			stall := func(at int64) {
				for _, x := range servers() {
					for _, o := range x.Conns() {
						if !o.IsPeerClosed() {
							o.ArmStall(o.Sent()+at, -1)
							fc = o
						}
					}
				}
			}
			_ = fc
			switch place {
			case "query":
				if _, _, err := conn.Query("RETURN ok", nil); err != nil {
					healthy(c, begun, w.T, what+", a query", err)
					return 0, errInTime
				}
				stall(c.R.Int63n(40)) // the shortest answer has 50 bytes
				return bounded(func() error { _, _, err := conn.Query("RETURN x", nil); return err }, free)
			case "slow query": // within the timeout
				d := w.T / 3
				stall(c.R.Int63n(40))
				go func() { time.Sleep(d); free() }()
				took, err := bounded(func() error { _, _, err := conn.Query("RETURN x", nil); return err }, free)
				if !isNilErr(err) && took < w.T {
					c.Fail("early", "%s: an answer after %v was not waited for, the timeout is %v: %s (after %v)", what, d, w.T, errText(err), took)
				}
				return 0, errInTime
			case "tx":
				tx, err = conn.Begin()
				if err != nil {
					healthy(c, begun, w.T, what+", Begin", err)
					return 0, errInTime
				}
				stall(c.R.Int63n(6))
				return bounded(func() error { return tx.Commit() }, free)
			case "validate":
				conn.ValidateOpen()
				stall(c.R.Int63n(40))
				return bounded(func() error { _, err := conn.Exec("RETURN x", nil); return err }, free)
			default: // giveback: an open transaction that has to be rolled back
				if _, err = conn.Begin(); err != nil {
					healthy(c, begun, w.T, what+", Begin", err)
					return 0, errInTime
				}
				stall(c.R.Int63n(6))
				took, _ := bounded(func() error { return back(conn) }, free)
				return took, errInTime // it need not fail, a pool may replace the connection
			}
		}
		c.Event("stalls", 1)
		c.Distinct("way %s %s v%d", w.name, place, v)
		T := w.T
		lower := place == "query" || place == "tx" || place == "validate" || place == "open" && !strings.Contains(w.name, "pool") && !w.rtd
		if place == "open" && w.rtd || place == "giveback" {
			T *= 4 // several connections
		}
		if !stalled(c, "way "+place, what, T, lower, once) {
			return
		}
	}
}

var errInTime = fmt.Errorf("in time")

func cl0(cl *cluster) *fake.Server {
	if cl == nil {
		return nil
	}
	return cl.seed
}
