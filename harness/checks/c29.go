package checks

import (
	"database/sql/driver"
	stderrors "errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"
	berrors "github.com/mindstand/go-bolt/errors"
	"github.com/mindstand/go-bolt/structures/messages"

	"verif/core"
	"verif/fake"
	"verif/pack"
)

func init() {
	core.Register(&core.Check{ID: "C29", MinEvals: 20, CaseMax: 240 * time.Second,
		Rule:   "Chains of up to 60 layers are built with errors.New and errors.Wrap over library, standard, operating-system, server and typed causes, with formats, arguments and texts full of percent signs, newlines and markers of the rendering itself; Inner must give back every layer, InnerMost the very cause, and Error the text of every layer in order. Through the API, servers fail every request of every version (opening, run, pull, transaction control, reset, overview) with hostile codes and messages, send ill-typed values with formatting characters, hang up; dials, TLS files, options and parameters fail with texts that contain formatting characters. The error of each call must have the original cause at its bottom, keep each layer's text in the rendering of the one above, and contain the hostile text verbatim. Distinct and non-trivial: distinct (kind of cause, depth) and (version, request, kind of text).",
		Assume: []string{"stack traces and indentation in the rendered text are not judged"},
		Run:    runC29})
}

var c29Texts = []string{"%", "%%", "%s", "100%", "%!d(string=x)", "%!(EXTRA int=1)", "%!(NOVERB)", "Invalid input '%': expected %s 100% (%!d(string=x)) \n\t$p", "two\nlines", "\n", "\t", "tab\tand\rreturn", "",
	"Internal Error(*x):y", "\n\n Stack Trace:\n\ngoroutine 1", "ünïcödé 日本 🙂", "%[1]d %[2]*.[1]*f", "%v %+v %#v %T %q %x", "%w", "\\n \\% $1", "a%zzb%41c", "\x00\x01", "code: [x]; message: [y]"}

// c29Text is a hostile text that is unique enough to be looked for.
func c29Text(r *rand.Rand) string {
	t := fmt.Sprintf("<%d|%s%s|", r.Intn(1e9), c29Texts[r.Intn(len(c29Texts))], c29Texts[r.Intn(len(c29Texts))])
	if r.Intn(8) == 0 {
		t += randStr(r)
	}
	if r.Intn(40) == 0 {
		t += strOf(r, 70000)
	}
	return t + ">"
}

func runC29(t *core.T) {
	var jobs []core.Job
	for i := 0; i < t.Pick(3000, 60000); i++ {
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("chain/%d", i), Fn: c29Chain})
	}
	for i := 0; i < t.Pick(6, 40); i++ {
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("shared/%d", i), Fn: c29Shared})
	}
	for v := 1; v <= 4; v++ {
		for _, at := range c29Requests {
			for i := 0; i < t.Pick(12, 120); i++ {
				v, at := v, at
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("server/v%d/%s/%d", v, at, i), Fn: func(c *core.C) { c29Server(c, v, at) }})
			}
		}
		for i := 0; i < t.Pick(20, 150); i++ {
			v := v
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("values/v%d/%d", v, i), Fn: func(c *core.C) { c29Values(c, v) }})
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("lost/v%d/%d", v, i), Fn: func(c *core.C) { c29Lost(c, v) }})
		}
	}
	for i := 0; i < t.Pick(60, 400); i++ {
		i := i
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("config/%d", i), Fn: func(c *core.C) { c29Config(c) }})
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("os/%d", i), Fn: func(c *core.C) { c29OS(c, i) }})
	}
	for i := 0; i < t.Pick(30, 200); i++ {
		i := i
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("overview/%d", i), Fn: func(c *core.C) { c29Overview(c, 3+i%2) }})
	}
	t.Parallel(12, jobs)
}

// c29cause is a cause of some type.
type c29typed struct{ text string }

func (e *c29typed) Error() string { return e.text }

type c29valued struct{ text string }

func (e c29valued) Error() string { return e.text }

// sameErr tells whether two errors are the same object.
func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if reflect.TypeOf(a).Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

func c29Cause(r *rand.Rand) (err error, kind string, texts []string) {
	x := c29Text(r)
	switch r.Intn(11) {
	case 0:
		return berrors.New("%s", x), "library", []string{x}
	case 1:
		y := strings.ReplaceAll(x, "%", "%%")
		return berrors.New(y), "library without arguments", []string{fmt.Sprintf(y)}
	case 2:
		return stderrors.New(x), "standard", []string{x}
	case 3:
		return driver.ErrBadConn, "bad connection", []string{driver.ErrBadConn.Error()}
	case 4:
		return io.ErrUnexpectedEOF, "EOF", []string{io.ErrUnexpectedEOF.Error()}
	case 5:
		f := messages.FailureMessage{Metadata: obj{"code": "Neo." + x, "message": x}}
		return f, "server failure", []string{x, x}
	case 6:
		return &c29typed{x}, "pointer type", []string{x}
	case 7:
		return c29valued{x}, "value type", []string{x}
	case 8:
		return &os.PathError{Op: "open", Path: x, Err: syscall.ENOENT}, "path", []string{x, syscall.ENOENT.Error()}
	case 9:
		return &net.OpError{Op: "dial", Net: "tcp", Err: stderrors.New(x)}, "network", []string{x}
	}
	s := []*berrors.Error{berrors.ErrConfiguration, berrors.ErrInvalidVersion, berrors.ErrInternal, berrors.ErrClosed, berrors.ErrPool, berrors.ErrConnection}
	e := s[r.Intn(len(s))]
	return e, "sentinel", nil
}

// inOrder finds the texts one behind the other.
func inOrder(s string, texts []string) (missing string, ok bool) {
	for _, t := range texts {
		i := strings.Index(s, t)
		if i < 0 {
			return t, false
		}
		s = s[i+len(t):]
	}
	return "", true
}

func c29Chain(c *core.C) {
	r := c.R
	cause, kind, causeTexts := c29Cause(r)
	depth := r.Intn(6)
	if r.Intn(20) == 0 {
		depth = r.Intn(60)
	}
	layers := []error{cause}
	texts := append([]string{}, causeTexts...)
	err := cause
	for i := 0; i < depth; i++ {
		x := c29Text(r)
		how := r.Intn(4)
		if r.Intn(12) == 0 {
			how = 4 + r.Intn(2)
		}
		if len(texts) > 0 && r.Intn(5) == 0 { // says the same as the layer below
			x, how = texts[0], r.Intn(2)
		}
		var text string
		var e *berrors.Error
		switch how {
		case 0:
			e, text = berrors.Wrap(err, "%s", x), x
		case 1:
			y := strings.ReplaceAll(x, "%", "%%")
			e, text = berrors.Wrap(err, y), fmt.Sprintf(y)
		case 2:
			e, text = berrors.Wrap(err, "layer %d of %q: %s, %v", i, x, x, layers[0] == nil), fmt.Sprintf("layer %d of %q: %s, %v", i, x, x, false)
		case 4: // nothing to say
			e, text = berrors.Wrap(err, ""), ""
		case 5:
			e, text = berrors.Wrap(err, "%s", ""), ""
		default:
			e, text = berrors.Wrap(err, "read %5d%% of %x%s", i, x, x), fmt.Sprintf("read %5d%% of %x%s", i, x, x)
		}
		if e == nil {
			c.Fail("nil", "Wrap returned nil")
			return
		}
		err = e
		layers = append(layers, err)
		texts = append([]string{text}, texts...)
	}
	c.Event("chains", 1)
	c.Event("layers", int64(depth))
	label := fmt.Sprintf("%d layers over a %s cause", depth, kind)
	rendered := err.Error()
	if m, ok := inOrder(rendered, texts); !ok {
		c.Fail("text", "%s: the text %q is not where it belongs in %q", label, trunc(m), trunc(rendered))
		return
	}
	for i := len(layers) - 1; i > 0; i-- {
		e, ok := layers[i].(*berrors.Error)
		if !ok {
			c.Fail("harness", "layer %d is %T", i, layers[i])
			return
		}
		if in := e.Inner(); !sameErr(in, layers[i-1]) {
			c.Fail("inner", "%s: Inner of layer %d is %T %s, not the wrapped %T", label, i, in, errText(in), layers[i-1])
			return
		}
		if in := e.InnerMost(); !sameErr(in, cause) {
			c.Fail("innermost", "%s: InnerMost of layer %d is %T %s, not the cause", label, i, in, errText(in))
			return
		}
		if m, ok := inOrder(e.Error(), texts[len(layers)-1-i:]); !ok {
			c.Fail("text", "%s: seen from layer %d, the text %q is not where it belongs", label, i, trunc(m))
			return
		}
	}
	if e, ok := cause.(*berrors.Error); ok {
		if in := e.InnerMost(); in != error(e) {
			c.Fail("innermost", "%s: InnerMost of an error that wraps nothing is %T %s", label, in, errText(in))
		}
		if in := e.Inner(); !isNilErr(in) {
			c.Fail("inner", "%s: Inner of an error that wraps nothing is %T", label, in)
		}
	}
	if again := err.Error(); again != rendered {
		c.Fail("text", "%s: the second rendering differs from the first", label)
	}
	c.Distinct("%s depth %d", kind, depth)
}

// c29Shared wraps one error from several goroutines.
func c29Shared(c *core.C) {
	base := berrors.New("base %s", "100%")
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		guard(c, &wg, func() {
			for i := 0; i < 200; i++ {
				x := fmt.Sprintf("<%d %% %d>", g, i)
				e := berrors.Wrap(berrors.Wrap(base, "%s", x), "outer")
				if e.InnerMost() != error(base) {
					c.Fail("innermost", "of a shared cause: %s", errText(e.InnerMost()))
					return
				}
				if m, ok := inOrder(e.Error(), []string{"outer", x, "base 100%"}); !ok {
					c.Fail("text", "of a shared cause: %q is missing", m)
					return
				}
			}
		})
	}
	wg.Wait()
	if base.Inner() != nil || !strings.Contains(base.Error(), "base 100%") {
		c.Fail("text", "wrapping changed the wrapped error")
	}
	c.Event("chains", 1600)
	c.Distinct("shared")
}

// c29Whole judges an error the library returned: every layer is in the rendering of the one above.
func c29Whole(c *core.C, label string, err error) bool {
	if isNilErr(err) {
		c.Fail("missing", "%s: no error", label)
		return false
	}
	n := 0
	for e := err; e != nil && n < 100; n++ {
		var in error
		if b, ok := e.(*berrors.Error); ok {
			in = b.Inner()
		} else {
			in = stderrors.Unwrap(e)
		}
		if isNilErr(in) {
			break
		}
		// the stack and the layers below follow the text of a layer, each on its own lines
		own := in.Error()
		if _, ok := in.(*berrors.Error); ok {
			own = strings.SplitN(own, "\n", 2)[0]
		}
		if !strings.Contains(err.Error(), own) {
			c.Fail("text", "%s: the text %q of a wrapped error is missing from %q", label, trunc(own), trunc(err.Error()))
			return false
		}
		e = in
	}
	c.Event("errors of the library", 1)
	return true
}

var c29Requests = []string{"INIT", "RUN", "PULL", "BEGIN", "COMMIT", "ROLLBACK", "TXRUN", "EXEC", "RESET", "PREPARED"}

// c29Server fails one request with a hostile text.
func c29Server(c *core.C, v int, at string) {
	x, y := c29Text(c.R), c29Text(c.R)
	f := &fake.Failure{Code: "Neo." + x, Message: y}
	if c.R.Intn(3) == 0 {
		f.Extra = obj{"more": arr{"%d", int64(1)}}
	}
	z := c29Text(c.R)
	armed := false
	var mu sync.Mutex
	s := &fake.Server{Version: v, NoLog: true}
	s.Run = func(fc *fake.Conn, m *fake.Msg) *fake.Result {
		mu.Lock()
		defer mu.Unlock()
		r := &fake.Result{Fields: []string{"a"}, Rows: [][]interface{}{{int64(1)}, {int64(2)}}, Summary: obj{"type": "r"}}
		if armed && at == "PULL" {
			r.FailPull = f
		}
		return r
	}
	s.Fail = func(fc *fake.Conn, m *fake.Msg) *fake.Failure {
		mu.Lock()
		defer mu.Unlock()
		name := hname(m, v)
		switch {
		case !armed:
		case at == "INIT" && (name == "INIT" || name == "HELLO"), name == at && at != "PULL" && at != "RESET":
			armed = false
			return f
		case (at == "TXRUN" || at == "EXEC" || at == "PREPARED") && name == "RUN":
			armed = false
			return f
		case at == "RESET" && name == "RUN":
			return f
		case at == "RESET" && name == "RESET":
			return &fake.Failure{Code: "Neo.Reset", Message: z}
		}
		return nil
	}
	c.Serve(s)
	defer s.Stop()
	label := fmt.Sprintf("v%d, %s fails with %q", v, at, trunc(f.Message))
	var err error
	if at == "INIT" {
		armed = true
		_, err = connection.CreateBoltConn(connURL(s, ""))
	} else {
		conn := dial(c, s)
		arm := func() { mu.Lock(); armed = true; mu.Unlock() }
		switch at {
		case "RUN", "PULL", "RESET":
			arm()
			_, _, err = conn.Query("Q", nil)
		case "EXEC":
			arm()
			_, err = conn.Exec("Q", nil)
		case "PREPARED":
			arm()
			_, _, err = conn.Query("Q $x", connection.QueryParams{"x": c29Text(c.R)})
		case "BEGIN":
			arm()
			_, err = conn.Begin()
		default:
			tx, e := conn.Begin()
			if e != nil {
				c.Event("could not begin", 1)
				return
			}
			arm()
			switch at {
			case "COMMIT":
				err = tx.Commit()
			case "ROLLBACK":
				err = tx.Rollback()
			default:
				_, _, err = tx.Query("Q", nil)
			}
		}
	}
	if !c29Whole(c, label, err) {
		return
	}
	text := err.Error()
	want := []string{f.Code, f.Message}
	if at == "RESET" {
		want = append(want, z)
	}
	for _, w := range want {
		if !strings.Contains(text, w) {
			c.Fail("text", "%s: %q is missing from %q", label, trunc(w), trunc(text))
			return
		}
	}
	g, ok := failureOf(err)
	if !ok {
		c.Fail("innermost", "%s: the innermost error is %T %s", label, innermost(err), errText(innermost(err)))
		return
	}
	if d := same(obj(g.Metadata), liftMap(f.Map())); d != "" {
		c.Fail("innermost", "%s: the innermost error differs from the server's at %s", label, d)
		return
	}
	c.Distinct("v%d %s", v, at)
}

// c29Values fails on values with formatting characters, in both directions.
func c29Values(c *core.C, v int) {
	x := c29Text(c.R)
	if len(x) > 2000 {
		x = x[:100]
	}
	bad := []pack.Struct{
		{Sig: 'N', Fields: arr{x, arr{}, obj{}}},
		{Sig: 'N', Fields: arr{int64(1), x, obj{}}},
		{Sig: 'N', Fields: arr{int64(1), arr{}, x}},
		{Sig: 'R', Fields: arr{int64(1), int64(1), x, "T", obj{}}},
		{Sig: 'R', Fields: arr{int64(1), int64(1), int64(1), "T", x}},
		{Sig: 'r', Fields: arr{int64(1), "T", x}},
		{Sig: 'P', Fields: arr{x, arr{}, arr{}}},
		{Sig: 'P', Fields: arr{arr{x}, arr{}, arr{}}},
	}
	k := c.R.Intn(len(bad))
	s := &fake.Server{Version: v, NoLog: true, Run: func(fc *fake.Conn, m *fake.Msg) *fake.Result {
		return &fake.Result{Fields: []string{"a"}, Rows: [][]interface{}{{bad[k]}}, Summary: obj{"type": "r"}}
	}}
	c.Serve(s)
	defer s.Stop()
	label := fmt.Sprintf("v%d, ill-typed value %d with %q", v, k, trunc(x))
	conn := dial(c, s)
	_, _, err := conn.Query("Q", nil)
	if isNilErr(err) {
		c.Event("accepted ill-typed values", 1) // for C05 to judge
	} else if !c29Whole(c, label, err) {
		return
	} else if t := err.Error(); strings.Contains(t, "%!") && !strings.Contains(x, "%!") {
		c.Fail("text", "%s: the text is garbled: %q", label, trunc(t))
		return
	} else if strings.Contains(t, "but got string") && !strings.Contains(t, x) {
		c.Fail("text", "%s: the value is garbled in %q", label, trunc(t))
		return
	}
	// parameters that can not be sent
	conn2 := dial(c, s)
	type odd struct{ Text string }
	var p interface{} = odd{x}
	if c.R.Intn(2) == 0 {
		p = arr{obj{"k": &odd{x}}}
	}
	_, _, err = conn2.Query("Q", connection.QueryParams{"p": p})
	label = fmt.Sprintf("v%d, parameter %T with %q", v, p, trunc(x))
	if !c29Whole(c, label, err) {
		return
	}
	if t := err.Error(); strings.Contains(t, "%!") && !strings.Contains(x, "%!") {
		c.Fail("text", "%s: the text is garbled: %q", label, trunc(t))
		return
	} else if strings.Contains(t, "<") && strings.Contains(t, "{Text:") && !strings.Contains(t, x) {
		c.Fail("text", "%s: the value is garbled in %q", label, trunc(t))
		return
	}
	c.Distinct("v%d value %d %T", v, k, p)
}

// c29Lost cuts the connection somewhere.
func c29Lost(c *core.C, v int) {
	s := &fake.Server{Version: v, NoLog: true, Run: cutResult}
	c.Serve(s)
	defer s.Stop()
	es := exchanges()
	e := es[c.R.Intn(len(es))]
	at := int64(c.R.Intn(30))
	label := fmt.Sprintf("v%d, %s cut after %d bytes", v, e.name, at)
	var err error
	if e.open {
		s.OnConn = func(fc *fake.Conn) { fc.Wire.KillTx, fc.Wire.Mode = at%20, "full" }
		var conn connection.IConnection
		conn, err = connection.CreateBoltConn(connURL(s, ""))
		if err == nil {
			quietClose(conn)
			return
		}
	} else {
		conn := dial(c, s)
		x := &xrun{c: c, s: s, fc: s.Conns()[0], conn: conn}
		if e.prep != nil {
			e.prep(x)
		}
		x.fc.Wire.Mode = "full"
		x.fc.ArmTx(x.fc.Sent() + at)
		_, _, err = e.do(x)
		if isNilErr(err) || e.name == "close" {
			return // all of it came before the cut
		}
		if f, ok := failureOf(err); ok {
			if f.GetCode() != "Neo.ClientError.X" {
				c.Fail("innermost", "%s: the innermost error is %s", label, errText(f))
			}
			c29Whole(c, label, err)
			return
		}
	}
	if !c29Whole(c, label, err) {
		return
	}
	if !isBadConn(err) {
		c.Fail("innermost", "%s: the innermost error is %T %s", label, innermost(err), errText(innermost(err)))
		return
	}
	if !strings.Contains(err.Error(), driver.ErrBadConn.Error()) {
		c.Fail("text", "%s: the text of the cause is missing from %q", label, trunc(err.Error()))
		return
	}
	c.Distinct("v%d %s lost", v, e.name)
}

// c29Config looks at the errors of options and connection strings.
func c29Config(c *core.C) {
	r := c.R
	x := strings.Trim(c29Text(r), "<>")
	if len(x) > 2000 {
		x = x[:100]
	}
	check := func(name string, err error, sentinel error, texts ...string) {
		if !c29Whole(c, name, err) {
			return
		}
		if sentinel != nil && innermost(err) != sentinel {
			c.Fail("innermost", "%s: the innermost error is %T %s, not %s", name, innermost(err), errText(innermost(err)), errText(sentinel))
		}
		for _, t := range texts {
			if !strings.Contains(err.Error(), t) {
				c.Fail("text", "%s: %q is missing from %q", name, trunc(t), trunc(errText(err)))
			}
		}
		c.Distinct("%s", name)
	}
	host := goBolt.WithHostPort("h", 1)
	str := goBolt.WithConnectionString("bolt://h:1")
	cl := func(o ...goBolt.Opt) error { _, err := goBolt.NewClient(o...); return err }
	cfg := error(berrors.ErrConfiguration)
	n := 70000 + r.Intn(1000)
	check("no options", cl(), cfg)
	check("nil option", cl(nil), cfg)
	check("contradiction", cl(str, host), cfg)
	check("routing contradiction", cl(goBolt.WithRouting(), str), cfg)
	check("port", cl(goBolt.WithHostPort("h", n), goBolt.WithBasicAuth("u", "p")), cfg, fmt.Sprint(n))
	check("no host", cl(goBolt.WithBasicAuth("u", "p")), cfg)
	check("strict", cl(host, goBolt.WithStrictProtocolVersion(9)), cfg)
	mine := &c29typed{x}
	err := cl(func(*goBolt.Client) error { return mine })
	check("own option", err, nil, x)
	for _, direct := range []bool{true, false} {
		open := func(s string) error {
			if direct {
				_, err := connection.CreateBoltConn(s)
				return err
			}
			return cl(goBolt.WithConnectionString(s))
		}
		check(fmt.Sprintf("timeout direct=%v", direct), open("bolt://h:1?timeout="+url.QueryEscape(x)), nil, x)
		if direct {
			check("chunk size", open("bolt://h:1?chunk_size="+url.QueryEscape(x)), nil, x)
		}
		check(fmt.Sprintf("scheme direct=%v", direct), open("http://h:1"), nil, "http")
	}
	client, err := goBolt.NewClient(goBolt.WithConnectionString("bolt://u:p@127.0.0.1:1"))
	c.Must(err)
	_, err = client.NewDriverPool(-5)
	check("pool size", err, cfg, "-5")
	pool, err := client.NewDriverPool(1)
	c.Must(err)
	c.Must(pool.Close())
	check("closed pool", pool.Close(), error(berrors.ErrClosed))
}

// c29OS provokes errors of the operating system and of TLS.
func c29OS(c *core.C, i int) {
	r := c.R
	x := c29Texts[r.Intn(len(c29Texts))]
	name := strings.NewReplacer("/", "_", "\x00", "_").Replace(fmt.Sprintf("<%d|%s>", r.Intn(1000), x))
	dir := scratchDir()
	missing := filepath.Join(dir, name)
	opens := []struct {
		kind string
		open func(str string) error
	}{
		{"direct", func(s string) error { _, err := connection.CreateBoltConn(s); return err }},
		{"driver", func(s string) error {
			cl, err := goBolt.NewClient(goBolt.WithConnectionString(s))
			if err != nil {
				return err
			}
			d, err := cl.NewDriver()
			if err != nil {
				return err
			}
			_, err = d.Open(bolt_mode.WriteMode)
			return err
		}},
		{"pool", func(s string) error {
			cl, err := goBolt.NewClient(goBolt.WithConnectionString(s))
			if err != nil {
				return err
			}
			p, err := cl.NewDriverPool(1)
			if err != nil {
				return err
			}
			defer p.Close()
			_, err = p.Open(bolt_mode.WriteMode)
			return err
		}},
		{"routed", func(s string) error {
			cl, err := goBolt.NewClient(goBolt.WithConnectionString(strings.Replace(s, "bolt:", "bolt+routing:", 1)))
			if err != nil {
				return err
			}
			_, err = cl.NewDriverPool(2)
			return err
		}},
	}
	o := opens[i%len(opens)]
	ln, err := net.Listen("tcp", fake.FreshIP()+":0")
	c.Must(err)
	addr := ln.Addr().String()
	ln.Close()
	base := fmt.Sprintf("bolt://u:p@%s?timeout=5", addr)
	switch (i / len(opens)) % 3 {
	case 0:
		err = o.open(base)
		label := fmt.Sprintf("%s: nobody listens at %s", o.kind, addr)
		if !c29Whole(c, label, err) {
			return
		}
		if in := innermost(err); in != syscall.ECONNREFUSED {
			c.Fail("innermost", "%s: the innermost error is %T %s", label, in, errText(in))
		}
		for _, w := range []string{syscall.ECONNREFUSED.Error(), addr} {
			if !strings.Contains(err.Error(), w) {
				c.Fail("text", "%s: %q is missing from %q", label, w, trunc(errText(err)))
			}
		}
		c.Distinct("%s refused", o.kind)
	case 1:
		err = o.open(base + "&tls=true&tls_ca_cert_file=" + url.QueryEscape(missing))
		label := fmt.Sprintf("%s: authority file %q", o.kind, missing)
		if !c29Whole(c, label, err) {
			return
		}
		if in := innermost(err); in != syscall.ENOENT {
			c.Fail("innermost", "%s: the innermost error is %T %s", label, in, errText(in))
		}
		for _, w := range []string{syscall.ENOENT.Error(), missing} {
			if !strings.Contains(err.Error(), w) {
				c.Fail("text", "%s: %q is missing from %q", label, w, trunc(errText(err)))
			}
		}
		c.Distinct("%s missing file", o.kind)
	case 2:
		c.Must(os.WriteFile(missing, []byte("100% garbage"), 0o600))
		err = o.open(base + "&tls=true&tls_ca_cert_file=" + url.QueryEscape(missing))
		label := fmt.Sprintf("%s: garbage in authority file %q", o.kind, missing)
		if !c29Whole(c, label, err) {
			return
		}
		if t := errText(err); strings.Contains(t, "%!") && !strings.Contains(missing, "%!") {
			c.Fail("text", "%s: the text is garbled: %q", label, trunc(t))
		}
		c.Distinct("%s garbage file", o.kind)
	}
}

// c29Overview lets the first overview of a cluster fail.
func c29Overview(c *core.C, v int) {
	f := &fake.Failure{Code: "Neo." + c29Text(c.R), Message: c29Text(c.R)}
	cl := newCluster(c, v, 2, false, "LEADER", "FOLLOWER")
	defer c28Stop(cl)
	cl.bad(func() (*fake.Result, *fake.Act) { return &fake.Result{Fail: f}, nil })
	client, err := goBolt.NewClient(goBolt.WithConnectionString(strings.Replace(cl.url("timeout=20"), "bolt:", "bolt+routing:", 1)))
	c.Must(err)
	_, err = client.NewDriverPool(2)
	label := fmt.Sprintf("v%d: the overview fails with %q", v, trunc(f.Message))
	if !c29Whole(c, label, err) {
		return
	}
	for _, w := range []string{f.Code, f.Message} {
		if !strings.Contains(err.Error(), w) {
			c.Fail("text", "%s: %q is missing from %q", label, trunc(w), trunc(err.Error()))
			return
		}
	}
	if g, ok := failureOf(err); !ok {
		c.Fail("innermost", "%s: the innermost error is %T %s", label, innermost(err), errText(innermost(err)))
	} else if d := same(obj(g.Metadata), liftMap(f.Map())); d != "" {
		c.Fail("innermost", "%s: the innermost error differs from the server's at %s", label, d)
	}
	c.Distinct("v%d overview", v)
}
