package checks

import (
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"io"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/connection"

	"verif/core"
	"verif/fake"
)

func init() {
	core.Register(&core.Check{ID: "C25", MinEvals: 20, CaseMax: 240 * time.Second,
		Rule:   "Every way to ask for TLS (option, connection string in several spellings, both) crossed with plain, pooled and routed drivers and direct opening, server certificates (trusted, unknown authority, self-signed, other host, common name only, expired, not yet valid, not for servers), certificate files (missing, garbage, empty, key and certificate swapped or unrelated, only one of them), client certificates demanded by the server, verification switched off, system authorities, and servers that speak no TLS or break off. Behind every connection a tap records the raw bytes the driver sends: each must begin with a TLS record and never contain Bolt's magic, the user name, the password or a query; opening must succeed exactly when the certificate is acceptable, and the client certificate seen by the server be the configured one. Clients with different trust, host names and changing files meet one server in turn that resumes sessions; each is judged on its own. Distinct and non-trivial: distinct (driver, way, certificate situation, outcome).",
		Assume: []string{"which TLS versions are offered is not judged", "certificate-file problems may be reported when the client is created or when it opens a connection"},
		Run:    runC25})
}

// tap forwards to a server and keeps what the driver sent. It listens on the address certificates name, by which
// the driver calls it, wherever the server is.
type tap struct {
	addr string
	mu   sync.Mutex
	got  []*bytes.Buffer
}

func newTap(c *core.C, to string) *tap {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	c.Must(err)
	t := &tap{addr: ln.Addr().String()}
	var cs []net.Conn
	c.Defer(func() {
		ln.Close()
		t.mu.Lock()
		for _, x := range cs {
			x.Close()
		}
		t.mu.Unlock()
	})
	go func() {
		for {
			in, err := ln.Accept()
			if err != nil {
				return
			}
			b := &bytes.Buffer{}
			t.mu.Lock()
			t.got = append(t.got, b)
			t.mu.Unlock()
			out, err := net.Dial("tcp", to)
			if err != nil {
				in.Close()
				continue
			}
			t.mu.Lock()
			cs = append(cs, in, out)
			t.mu.Unlock()
			go func() { io.Copy(in, out); in.(*net.TCPConn).CloseWrite() }()
			go func() {
				buf := make([]byte, 16384)
				for {
					n, err := in.Read(buf)
					t.mu.Lock()
					if b.Len() < 1<<18 {
						b.Write(buf[:n])
					}
					t.mu.Unlock()
					if n > 0 {
						if _, err := out.Write(buf[:n]); err != nil {
							io.Copy(io.Discard, in)
							return
						}
					}
					if err != nil {
						out.(*net.TCPConn).CloseWrite()
						return
					}
				}
			}()
		}
	}()
	return t
}

func (t *tap) streams() [][]byte {
	t.mu.Lock()
	defer t.mu.Unlock()
	var out [][]byte
	for _, b := range t.got {
		out = append(out, append([]byte{}, b.Bytes()...))
	}
	return out
}

// situation is a server certificate with the client's side of it.
type situation struct {
	name string
	cert func(e *c25env) tls.Certificate
	// whether a verifying client accepts it
	good bool
	// the server's further demands
	change func(e *c25env, cfg *tls.Config)
	host   string // how the client calls the server: 127.0.0.1
	ca     func(e *c25env) string
	// the client's certificate and key
	client func(e *c25env) (string, string)
	cn     string
	// even without verification it can not work
	hopeless bool
	plain    string // no TLS at all: what the server does
	file     bool   // a problem with files, whatever the server is
}

type c25env struct {
	dir                string
	ca, other          *authority
	crt, key, key2     string // a client certificate, its key, another key
	untrusted          string // files of a client certificate of the other authority
	untrustedKey       string
	garbage, empty     string
	missing, keyAsCA   string
	swapCrt            string
	badInside, manyCAs string
}

func newC25env() *c25env {
	e := &c25env{dir: scratchDir()}
	e.ca, e.other = newCA(e.dir, "ca"), newCA(e.dir, "other")
	_, e.crt, e.key = e.ca.leaf("the-client", nil, -time.Hour, 100*time.Hour)
	_, _, e.key2 = e.ca.leaf("another-client", nil, -time.Hour, 100*time.Hour)
	_, e.untrusted, e.untrustedKey = e.other.leaf("stranger", nil, -time.Hour, 100*time.Hour)
	write := func(name, text string) string {
		p := filepath.Join(e.dir, name)
		must(os.WriteFile(p, []byte(text), 0o600))
		return p
	}
	e.garbage = write("garbage.pem", "this is no certificate\n")
	e.empty = write("empty.pem", "")
	e.missing = filepath.Join(e.dir, "does not exist.pem")
	e.keyAsCA = e.key
	b, err := os.ReadFile(e.ca.File)
	must(err)
	e.badInside = write("bad inside.pem", strings.Replace(string(b), "\n", "\n!", 2))
	o, err := os.ReadFile(e.other.File)
	must(err)
	e.manyCAs = write("many & more=%41.pem", string(o)+string(b))
	return e
}

func situations() []situation {
	leaf := func(hosts []string, from, to time.Duration) func(e *c25env) tls.Certificate {
		return func(e *c25env) tls.Certificate { c, _, _ := e.ca.leaf("server", hosts, from, to); return c }
	}
	lo := []string{"127.0.0.1", "::1", "localhost"}
	h := time.Hour
	good := leaf(lo, -h, 100*h)
	file := func(name string, ca func(e *c25env) string, client func(e *c25env) (string, string)) situation {
		return situation{name: name, cert: good, ca: ca, client: client, hopeless: true, file: true}
	}
	demand := func(e *c25env, cfg *tls.Config) {
		cfg.ClientAuth = tls.RequireAndVerifyClientCert
		cfg.ClientCAs = e.ca.pool
	}
	return []situation{
		{name: "good", cert: good, good: true},
		{name: "good by name", cert: leaf([]string{"localhost"}, -h, 100*h), good: true, host: "localhost"},
		{name: "good among authorities", cert: good, good: true, ca: func(e *c25env) string { return e.manyCAs }},
		{name: "good newest", cert: good, good: true, change: func(e *c25env, cfg *tls.Config) { cfg.MinVersion = tls.VersionTLS12 }},
		{name: "wrong host", cert: leaf([]string{"db.example"}, -h, 100*h)},
		{name: "other address", cert: leaf([]string{"127.0.0.2"}, -h, 100*h)},
		{name: "name only", cert: leaf([]string{"localhost"}, -h, 100*h)},
		{name: "address only", cert: leaf([]string{"127.0.0.1"}, -h, 100*h), host: "localhost"},
		{name: "common name only", cert: leaf(nil, -h, 100*h)},
		{name: "expired", cert: leaf(lo, -50*h, -h)},
		{name: "not yet valid", cert: leaf(lo, h, 100*h)},
		{name: "unknown authority", cert: func(e *c25env) tls.Certificate { return e.other.good() }},
		{name: "other authority configured", cert: good, ca: func(e *c25env) string { return e.other.File }},
		{name: "system authorities", cert: good, ca: func(e *c25env) string { return "" }},
		{name: "self signed", cert: func(e *c25env) tls.Certificate {
			a := newCA(e.dir, fmt.Sprintf("self%d", time.Now().UnixNano()))
			return tls.Certificate{Certificate: [][]byte{a.cert.Raw}, PrivateKey: a.key}
		}},
		{name: "client's purpose", cert: func(e *c25env) tls.Certificate {
			return e.ca.special(func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} })
		}},
		{name: "by an intermediate authority", good: true, cert: func(e *c25env) tls.Certificate {
			m := e.ca.under("between", func(*x509.Certificate) {})
			return m.special(func(*x509.Certificate) {}, m.cert.Raw)
		}},
		{name: "intermediate authority missing", cert: func(e *c25env) tls.Certificate {
			return e.ca.under("between", func(*x509.Certificate) {}).special(func(*x509.Certificate) {})
		}},
		{name: "intermediate is no authority", cert: func(e *c25env) tls.Certificate {
			m := e.ca.under("between", func(t *x509.Certificate) { t.IsCA = false; t.KeyUsage = x509.KeyUsageDigitalSignature })
			return m.special(func(*x509.Certificate) {}, m.cert.Raw)
		}},
		{name: "intermediate authority expired", cert: func(e *c25env) tls.Certificate {
			m := e.ca.under("between", func(t *x509.Certificate) { t.NotAfter = time.Now().Add(-time.Hour) })
			return m.special(func(*x509.Certificate) {}, m.cert.Raw)
		}},
		{name: "authority of the same name", cert: func(e *c25env) tls.Certificate {
			return newCA(e.dir, "ca"+fmt.Sprint(time.Now().UnixNano())).named("ca").good()
		}},
		{name: "client certificate, system authorities", cert: good, ca: func(e *c25env) string { return "" }, change: demand, cn: "the-client", client: func(e *c25env) (string, string) { return e.crt, e.key }},
		{name: "client certificate", cert: good, good: true, change: demand, cn: "the-client", client: func(e *c25env) (string, string) { return e.crt, e.key }},
		{name: "client certificate asked for", cert: good, good: true, change: func(e *c25env, cfg *tls.Config) { cfg.ClientAuth = tls.RequestClientCert }, cn: "the-client", client: func(e *c25env) (string, string) { return e.crt, e.key }},
		{name: "client certificate missing", cert: good, hopeless: true, change: demand},
		{name: "client certificate refused", cert: good, hopeless: true, change: demand, client: func(e *c25env) (string, string) { return e.untrusted, e.untrustedKey }},
		file("no such authority file", func(e *c25env) string { return e.missing }, nil),
		file("garbage authority file", func(e *c25env) string { return e.garbage }, nil),
		file("empty authority file", func(e *c25env) string { return e.empty }, nil),
		file("key as authority file", func(e *c25env) string { return e.keyAsCA }, nil),
		file("directory as authority file", func(e *c25env) string { return e.dir }, nil),
		file("damaged authority file", func(e *c25env) string { return e.badInside }, nil),
		file("certificate without key", nil, func(e *c25env) (string, string) { return e.crt, "" }),
		file("key without certificate", nil, func(e *c25env) (string, string) { return "", e.key }),
		file("unrelated key", nil, func(e *c25env) (string, string) { return e.crt, e.key2 }),
		file("certificate and key swapped", nil, func(e *c25env) (string, string) { return e.key, e.crt }),
		file("garbage certificate", nil, func(e *c25env) (string, string) { return e.garbage, e.key }),
		file("no such key", nil, func(e *c25env) (string, string) { return e.crt, e.missing }),
		{name: "speaks no TLS", cert: good, hopeless: true, plain: "bolt"},
		{name: "answers in clear", cert: good, hopeless: true, plain: "answer"},
		{name: "answers an alert", cert: good, hopeless: true, plain: "alert"},
		{name: "hangs up", cert: good, hopeless: true, plain: "close"},
		{name: "answers garbage", cert: good, hopeless: true, plain: "garbage"},
	}
}

var c25Ways = []string{"option", "option and string", "tls=true", "tls=1", "tls=True", "tls=t", "tls=TRUE"}

func runC25(t *core.T) {
	switch core.SubArg() {
	case "system":
		// the system's authorities are taken from where SSL_CERT_FILE says
		t.Case("system", func(c *core.C) { c25System(c) })
		return
	}
	e := newC25env()
	var jobs []core.Job
	n := 0
	for _, s := range situations() {
		for _, kind := range c24Kinds {
			for _, verify := range []bool{true, false} {
				for i := 0; i < t.Pick(3, 14); i++ {
					s, kind, verify := s, kind, verify
					n++
					way := c25Ways[(n*5+i)%len(c25Ways)]
					if kind == "direct" && strings.Contains(way, "option") {
						way = "tls=true"
					}
					jobs = append(jobs, core.Job{Name: fmt.Sprintf("%s/%s/verify=%v/%s/%d", strings.ReplaceAll(s.name, " ", "-"), kind, verify, strings.ReplaceAll(way, " ", "-"), i), Fn: func(c *core.C) { c25One(c, e, s, kind, way, verify) }})
				}
			}
		}
	}
	for i := 0; i < t.Pick(24, 200); i++ {
		i := i
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("members/%d", i), Fn: func(c *core.C) { c25Members(c, e, i) }})
	}
	for i := 0; i < t.Pick(16, 160); i++ {
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("in turn/%d", i), Fn: func(c *core.C) { c25InTurn(c, e) }})
	}
	t.Parallel(16, jobs)
	sys := scratchDir()
	t.Sub("system", []string{"SSL_CERT_FILE=" + filepath.Join(sys, "sys-ca.pem"), "VERIF_CA_DIR=" + sys, "SSL_CERT_DIR=" + filepath.Join(sys, "none")}, 200*time.Second)
}

// c25InTurn has clients of different trust meet one server that offers to resume sessions: what one was satisfied
// with says nothing for the next, and files are read anew by new clients.
func c25InTurn(c *core.C, e *c25env) {
	v := 1 + c.R.Intn(4)
	file := filepath.Join(e.dir, fmt.Sprintf("turning-%d.pem", c.R.Int63()))
	cas := []*authority{e.ca, e.other}
	hosts := []string{"127.0.0.1", "localhost"}
	issuer, named := c.R.Intn(2), c.R.Intn(3)
	names := hosts
	if named < 2 {
		names = hosts[named : named+1]
	}
	cert, _, _ := cas[issuer].leaf("server", names, -time.Hour, 100*time.Hour)
	cfg := serverTLS(cert)
	cfg.SessionTicketsDisabled = false
	s := &fake.Server{Version: v, NoLog: true, Run: whoResult, TLS: cfg}
	c.Serve(s)
	told := fmt.Sprintf("v%d, certificate of authority %d for %v", v, issuer, names)
	for i := 0; i < 12 && !c.Failed(); i++ {
		trust := c.R.Intn(2)
		verify := c.R.Intn(3) > 0
		host := c.R.Intn(2)
		if s.Host != "" && s.Host != "127.0.0.1" {
			host = 0
		}
		ca := cas[trust].File
		if c.R.Intn(2) == 0 {
			b, err := os.ReadFile(ca)
			c.Must(err)
			c.Must(os.WriteFile(file, b, 0o600))
			ca = file
		}
		kind := c24Kinds[c.R.Intn(len(c24Kinds))]
		if kind == "routed" {
			continue
		}
		way := c25Ways[c.R.Intn(len(c25Ways))]
		if kind == "direct" && strings.Contains(way, "option") {
			way = "tls=true"
		}
		open, str := c25Client(c, kind, way, hosts[host], fmt.Sprint(s.Port), ca, "", "", verify, 20)
		conns, done, err := open()
		good := !verify || trust == issuer && (named == 2 || named == host)
		told += fmt.Sprintf("; %s by %s trusting authority %d, host %s, verification %v", kind, way, trust, hosts[host], verify)
		if good && err != nil {
			c.Fail("refused", "%s: opening failed: %s (%s)", told, errText(err), str)
		}
		if !good && err == nil {
			c.Fail("accepted", "%s: opening succeeded (%s)", told, str)
		}
		for _, x := range conns {
			if _, _, qerr := x.Query(c25Query, nil); qerr != nil {
				c.Fail("query", "%s: a query over TLS failed: %s", told, errText(qerr))
			}
		}
		done()
		c.Event("openings in turn", 1)
		c.Distinct("in turn %s issuer%d trust%d names%d host%d verify=%v", kind, issuer, trust, named, host, verify)
	}
}

const c25Query = "RETURN geheim"

// c25Spied fails if a recorded stream is not TLS all the way.
func c25Spied(c *core.C, label string, streams [][]byte) bool {
	for _, b := range streams {
		if len(b) == 0 {
			continue
		}
		if b[0] != 0x16 {
			c.Fail("clear", "%s: the first bytes the driver sent are % x, which is not TLS", label, b[:min(20, len(b))])
			return false
		}
		for _, x := range []string{"\x60\x60\xb0\x17", "userName", "passWord", "geheim", "principal", "credentials"} {
			if bytes.Contains(b, []byte(x)) {
				c.Fail("clear", "%s: %q went over the network in clear", label, x)
				return false
			}
		}
		// it consists of TLS records
		for rest := b; len(rest) >= 5; {
			if rest[0] < 0x14 || rest[0] > 0x17 || rest[1] != 3 {
				c.Fail("clear", "%s: after the beginning the driver sent % x, which is not TLS", label, rest[:min(20, len(rest))])
				return false
			}
			n := int(rest[3])<<8 | int(rest[4])
			if len(rest) < 5+n {
				break
			}
			rest = rest[5+n:]
		}
		c.Event("streams", 1)
	}
	return true
}

// c25Client makes a client asking for TLS in some way.
func c25Client(c *core.C, kind, way, host, port, ca, crt, key string, verify bool, timeout int) (func() ([]connection.IConnection, func(), error), string) {
	scheme := "bolt"
	if kind == "routed" {
		scheme = "bolt+routing"
	}
	q := url.Values{}
	var opts []goBolt.Opt
	byOption := strings.Contains(way, "option")
	if byOption {
		opts = append(opts, goBolt.WithTLS(ca, crt, key, !verify))
	} else {
		q.Set("tls", strings.TrimPrefix(way, "tls="))
		for k, x := range map[string]string{"tls_ca_cert_file": ca, "tls_cert_file": crt, "tls_key_file": key} {
			if x != "" || c.R.Intn(2) == 0 {
				q.Set(k, x)
			}
		}
		if !verify {
			q.Set("tls_no_verify", []string{"true", "1", "t", "True"}[c.R.Intn(4)])
		} else if c.R.Intn(2) == 0 {
			q.Set("tls_no_verify", []string{"false", "0", "f", "no"}[c.R.Intn(4)])
		}
	}
	str := ""
	if way == "option" {
		pn := 0
		fmt.Sscan(port, &pn)
		opts = append(opts, goBolt.WithHostPort(host, pn), goBolt.WithBasicAuth("userName", "passWord"), goBolt.WithTimeout(time.Duration(timeout)*time.Second))
		if kind == "routed" {
			opts = append(opts, goBolt.WithRouting())
		}
	} else {
		q.Set("timeout", fmt.Sprint(timeout))
		str = fmt.Sprintf("%s://userName:passWord@%s?%s", scheme, net.JoinHostPort(host, port), q.Encode())
		opts = append(opts, goBolt.WithConnectionString(str))
	}
	c.R.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	return func() ([]connection.IConnection, func(), error) {
		if kind == "direct" {
			x, err := connection.CreateBoltConn(str)
			if err != nil {
				return nil, func() {}, err
			}
			return []connection.IConnection{x}, func() { quietClose(x) }, nil
		}
		k, err := goBolt.NewClient(opts...)
		if err != nil {
			return nil, func() {}, err
		}
		return openVia(k, kind)
	}, str
}

func c25One(c *core.C, e *c25env, s situation, kind, way string, verify bool) {
	v := 1 + c.R.Intn(4)
	if kind == "routed" && v < 3 {
		v += 2
	}
	cfg := serverTLS(s.cert(e))
	if s.change != nil {
		s.change(e, cfg)
	}
	host := s.host
	if host == "" {
		host = "127.0.0.1"
	}
	var servers []*fake.Server
	var taps []*tap
	entry := ""
	if kind == "routed" {
		cl := newClusterWith(c, v, 2, true, func(i int, x *fake.Server) { x.TLS = cfg }, "LEADER", "FOLLOWER")
		cl.plain = true
		servers = append(append([]*fake.Server{}, cl.members...), cl.seed)
		cl.mu.Lock()
		cl.via = map[int]string{}
		for i, m := range cl.members {
			tp := newTap(c, m.Addr)
			taps = append(taps, tp)
			_, p, _ := net.SplitHostPort(tp.addr)
			cl.via[i] = net.JoinHostPort(host, p)
		}
		cl.mu.Unlock()
		tp := newTap(c, cl.seed.Addr)
		taps = append(taps, tp)
		entry = tp.addr
	} else {
		x := &fake.Server{Version: v, NoLog: true, Run: whoResult, TLS: cfg}
		if s.plain == "bolt" {
			x.TLS = nil
		}
		c.Serve(x)
		servers = []*fake.Server{x}
		tp := newTap(c, x.Addr)
		taps = append(taps, tp)
		entry = tp.addr
	}
	if s.plain != "" && s.plain != "bolt" {
		tp := newTap(c, c25Liar(c, s.plain))
		taps = append(taps, tp)
		entry = tp.addr
	} else if s.plain == "bolt" && kind == "routed" {
		x := &fake.Server{Version: v, NoLog: true, Run: whoResult}
		c.Serve(x)
		tp := newTap(c, x.Addr)
		taps = append(taps, tp)
		entry = tp.addr
	}
	ca := e.ca.File
	if s.ca != nil {
		ca = s.ca(e)
	}
	crt, key := "", ""
	if s.client != nil {
		crt, key = s.client(e)
	}
	_, port, _ := net.SplitHostPort(entry)
	label := fmt.Sprintf("v%d %s, %s, verification %v, server: %s", v, kind, way, verify, s.name)
	timeout := 20
	if s.plain != "" {
		timeout = 1
	}
	open, str := c25Client(c, kind, way, host, port, ca, crt, key, verify, timeout)
	conns, done, err := open()
	c.Event("openings", 1)
	want := !s.hopeless && (s.good || !verify)
	if want && err != nil {
		c.Fail("refused", "%s: opening failed: %s (%s)", label, errText(err), str)
	}
	if !want && err == nil {
		c.Fail("accepted", "%s: opening succeeded (%s)", label, str)
	}
	if err == nil {
		for _, x := range conns {
			if _, _, qerr := x.Query(c25Query, nil); qerr != nil {
				c.Fail("query", "%s: a query over TLS failed: %s", label, errText(qerr))
			}
		}
	}
	done()
	seen := 0
	for i, x := range servers {
		for _, fc := range x.Conns() {
			if fc.AuthSeen() != nil {
				if !want {
					c.Fail("sent to stranger", "%s: server %d received the credentials", label, i)
				}
				if s.cn != "" && fmt.Sprint(fc.CN) != fmt.Sprint([]string{s.cn}) {
					c.Fail("client certificate", "%s: server %d saw the client certificates %v", label, i, fc.CN)
				}
				seen++
			}
		}
	}
	if want && err == nil && seen == 0 {
		c.Fail("harness", "%s: no server saw the connection", label)
	}
	var all [][]byte
	for _, tp := range taps {
		all = append(all, tp.streams()...)
	}
	if c25Spied(c, label, all) && !c.Failed() {
		c.Distinct("%s %s %s verify=%v opened=%v", kind, way, s.name, verify, err == nil)
	}
}

// c25Liar is a server that does not do its part of TLS.
func c25Liar(c *core.C, how string) string {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	c.Must(err)
	c.Defer(func() { ln.Close() })
	go func() {
		for {
			x, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				defer x.Close()
				buf := make([]byte, 4096)
				if n, _ := x.Read(buf); n == 0 {
					return
				}
				switch how {
				case "close":
					return
				case "alert":
					x.Write([]byte{0x15, 3, 1, 0, 2, 2, 70})
				case "answer": // as a Bolt server would, if it were asked in clear
					x.Write([]byte{0, 0, 0, 4})
				default:
					x.Write(bytes.Repeat([]byte{0x42}, 300))
				}
				for {
					if _, err := x.Read(buf); err != nil {
						return
					}
				}
			}()
		}
	}()
	return ln.Addr().String()
}

// c25Members: the seed is fine, a member is not.
func c25Members(c *core.C, e *c25env, i int) {
	v := 3 + i%2
	way := c25Ways[i/2%len(c25Ways)]
	verify := c.R.Intn(3) > 0
	bads := []string{"clear", "unknown authority", "wrong host", "expired", "demands certificate"}
	bad := bads[c.R.Intn(len(bads))]
	which := c.R.Intn(2)
	cl := newClusterWith(c, v, 2, true, func(j int, x *fake.Server) {
		x.TLS = serverTLS(e.ca.good())
		if j != which {
			return
		}
		switch bad {
		case "clear":
			x.TLS = nil
		case "unknown authority":
			x.TLS = serverTLS(e.other.good())
		case "wrong host":
			k, _, _ := e.ca.leaf("server", []string{"x.example"}, -time.Hour, time.Hour)
			x.TLS = serverTLS(k)
		case "expired":
			k, _, _ := e.ca.leaf("server", []string{"127.0.0.1"}, -3*time.Hour, -time.Hour)
			x.TLS = serverTLS(k)
		case "demands certificate":
			x.TLS.ClientAuth = tls.RequireAndVerifyClientCert
			x.TLS.ClientCAs = e.ca.pool
		}
	}, "LEADER", "FOLLOWER")
	cl.plain = true
	cl.via = map[int]string{}
	var taps []*tap
	for j, m := range cl.members {
		tp := newTap(c, m.Addr)
		taps = append(taps, tp)
		cl.via[j] = tp.addr
	}
	_, port, _ := net.SplitHostPort(cl.seed.Addr)
	crt, key := "", ""
	if c.R.Intn(2) == 0 {
		crt, key = e.crt, e.key
	}
	open, str := c25Client(c, "routed", way, "127.0.0.1", port, e.ca.File, crt, key, verify, 3)
	conns, done, err := open()
	ok := bad == "demands certificate" && crt != "" || !verify && bad != "clear" && bad != "demands certificate"
	label := fmt.Sprintf("v%d routed, %s, verification %v, client certificate %v, member %d: %s", v, way, verify, crt != "", which, bad)
	c.Event("openings", 1)
	if ok && err != nil {
		c.Fail("refused", "%s: opening failed: %s (%s)", label, errText(err), str)
	}
	for _, x := range conns {
		x.Query(c25Query, nil)
	}
	done()
	for _, fc := range cl.members[which].Conns() {
		if fc.AuthSeen() != nil && !ok {
			c.Fail("sent to stranger", "%s: the member received the credentials", label)
		}
		if fc.AuthSeen() != nil && crt != "" && bad == "demands certificate" && fmt.Sprint(fc.CN) != "[the-client]" {
			c.Fail("client certificate", "%s: the member saw the client certificates %v", label, fc.CN)
		}
	}
	var all [][]byte
	for _, tp := range taps {
		all = append(all, tp.streams()...)
	}
	if c25Spied(c, label, all) && !c.Failed() {
		c.Distinct("member %s %s verify=%v cert=%v opened=%v", way, bad, verify, crt != "", err == nil)
	}
}

// c25System: without an authority file the system's authorities decide.
func c25System(c *core.C) {
	// Go reads the file when it first needs the authorities
	e := newC25env()
	e.ca = newCA(os.Getenv("VERIF_CA_DIR"), "sys")
	_, e.crt, e.key = e.ca.leaf("the-client", nil, -time.Hour, 100*time.Hour)
	none := func(e *c25env) string { return "" }
	for _, kind := range c24Kinds {
		for _, way := range c25Ways {
			if kind == "direct" && strings.Contains(way, "option") {
				continue
			}
			for _, s := range situations() {
				switch s.name {
				case "good", "unknown authority", "wrong host", "expired", "self signed", "by an intermediate authority", "client certificate", "client certificate missing":
					s.ca = none
					s.name += " by the system's authorities"
					c25One(c, e, s, kind, way, true)
				case "other authority configured":
					// an authority file takes the place of the system's authorities
					s.name += ", the system's signed"
					c25One(c, e, s, kind, way, true)
				}
			}
		}
	}
}
