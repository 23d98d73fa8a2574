package checks

import (
	"fmt"
	"math/rand"
	"net"
	"net/url"
	"strings"
	"time"
	"unicode/utf8"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"
	"github.com/mindstand/go-bolt/routing"

	"verif/core"
	"verif/fake"
)

func init() {
	core.Register(&core.Check{ID: "C24", MinEvals: 20,
		Rule:   "User names and passwords (every ASCII character singly and in pairs of URL metacharacters, percent signs and escapes, unicode, control characters, empty and long passwords, text that looks like addresses, parameters or options) are given as options, in connection strings under several legal percent-encodings, or as options next to a connection string, for plain, pooled and routed drivers, and directly; servers listen on IPv4, IPv6 and by name, next to decoys. Every connection any server receives must carry exactly that scheme, user and password, reach a configured address, be in clear, and use the configured chunk size. Distinct and non-trivial: distinct (kind of driver, form, class of characters, kind of host).",
		Assume: []string{"user names are not empty and texts are valid UTF-8, as PackStream strings have to be"},
		Run: func(t *core.T) {
			var jobs []core.Job
			for i := 0; i < t.Pick(8000, 80000); i++ {
				i := i
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("random/%d", i), Fn: func(c *core.C) { c24One(c, c24Kinds[i%len(c24Kinds)], randCred(c.R, false), randCred(c.R, true)) }})
			}
			// every character there is below 128, alone and around others, in both places
			for ch := 0; ch < 128; ch++ {
				ch := string(rune(ch))
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("char/%02x", ch[0]), Fn: func(c *core.C) {
					for _, k := range c24Kinds {
						c24One(c, k, "u"+ch, "p"+ch+"q")
						c24One(c, k, ch, ch)
						c24One(c, k, ch+ch+"u", ch+"1"+ch)
					}
				}})
			}
			meta := ":@/?#[]%&=+;, \\\"'"
			for i := range meta {
				for j := range meta {
					a, b := meta[i:i+1], meta[j:j+1]
					jobs = append(jobs, core.Job{Name: fmt.Sprintf("pair/%02x%02x", a, b), Fn: func(c *core.C) {
						c24One(c, c24Kinds[c.R.Intn(len(c24Kinds))], "u"+a+b+"v", a+"x"+b)
						c24One(c, c24Kinds[c.R.Intn(len(c24Kinds))], a+b, b+a)
					}})
				}
			}
			t.Parallel(16, jobs)
		}})
}

var c24Kinds = []string{"driver", "pool", "routed", "direct", "members"}

var credPieces = []string{":", "@", "/", "?", "#", "[", "]", "%", "%%", "%20", "%41", "%2", "%zz", "%00", "+", " ", "&", "=", ";", ",", "\\", "\"", "'", "`", "<", ">", "|", "^", "{", "}", "~", "*", "(", ")", "!", "$", "\n", "\r", "\t", "\x00", "\x7f",
	"ä", "ß", "€", "日本語", "🙂", "\u2028", "\ufeff", "é", "neo4j", "Password1", "bolt://", "bolt+routing://", "@127.0.0.1:7687", "?tls=true", "&tls=1", "?chunk_size=7", "&timeout=1", "#fragment", "//", "..", "a:b", "user@host", "@", "x@[::1]:1/"}

// randCred is a random user name or password.
func randCred(r *rand.Rand, password bool) string {
	switch r.Intn(12) {
	case 0:
		if password {
			return ""
		}
	case 1:
		n := []int{255, 256, 4000, 65530, 70000}[r.Intn(5)]
		if !password {
			n = n%5000 + 1
		}
		return strOf(r, n-1) + credPieces[r.Intn(len(credPieces))]
	case 2:
		var sb strings.Builder
		for i := 1 + r.Intn(8); i > 0; i-- {
			ch := rune(r.Intn(0x3000))
			if r.Intn(4) == 0 {
				ch = rune(0x10000 + r.Intn(0x1000))
			}
			if !utf8.ValidRune(ch) {
				ch = 'x'
			}
			sb.WriteRune(ch)
		}
		return sb.String()
	}
	var sb strings.Builder
	for i := 1 + r.Intn(5); i > 0; i-- {
		sb.WriteString(credPieces[r.Intn(len(credPieces))])
		if r.Intn(2) == 0 {
			sb.WriteString(strOf(r, r.Intn(6)))
		}
	}
	return sb.String()
}

// encodeUser percent-encodes part of the user information of a URL in some legal way.
func encodeUser(r *rand.Rand, s string, how int) string {
	const plain = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"
	const sub = "!$&'()*+,;="
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		ch := s[i]
		free := strings.IndexByte(plain, ch) >= 0 || how != 0 && strings.IndexByte(sub, ch) >= 0
		switch {
		case how == 1: // everything
			free = false
		case how == 2 && r.Intn(3) == 0:
			free = false
		}
		if free {
			sb.WriteByte(ch)
		} else if how == 2 && r.Intn(2) == 0 {
			fmt.Fprintf(&sb, "%%%02x", ch)
		} else {
			fmt.Fprintf(&sb, "%%%02X", ch)
		}
	}
	return sb.String()
}

type c24host struct {
	listen string // IP
	host   string // as configured
	v6     bool
}

func randHost(r *rand.Rand) c24host {
	switch r.Intn(8) {
	case 0, 1:
		ip := fmt.Sprintf("127.%d.%d.%d", r.Intn(256), r.Intn(256), 2+r.Intn(250))
		return c24host{listen: ip, host: ip}
	case 2, 3:
		return c24host{listen: "::1", host: "::1", v6: true}
	case 4:
		return c24host{listen: "127.0.0.1", host: "localhost"}
	case 5:
		return c24host{listen: "::1", host: "0:0:0:0:0:0:0:1", v6: true}
	default:
		return c24host{listen: "127.0.0.1", host: "127.0.0.1"}
	}
}

func (h c24host) url(port int) string { return net.JoinHostPort(h.host, fmt.Sprint(port)) }

// c24One opens connections with credentials and looks at what the servers got.
func c24One(c *core.C, kind, user, pass string) {
	if user == "" {
		user = "x"
	}
	v := 1 + c.R.Intn(4)
	routed := kind == "routed" || kind == "members"
	if routed && v < 3 {
		v += 2
	}
	h := randHost(c.R)
	var servers []*fake.Server
	var seed *fake.Server
	if routed {
		apart := c.R.Intn(2) == 0
		cl := newClusterWith(c, v, 2, apart, func(i int, s *fake.Server) {
			s.Host = randHost(c.R).listen
			if apart && i == 2 {
				s.Host = h.listen
			}
		}, "LEADER", "FOLLOWER")
		cl.plain = true
		servers, seed = cl.members, cl.seed
		if apart {
			servers = append(append([]*fake.Server{}, servers...), seed)
		} else {
			h = c24host{listen: seed.Host, host: seed.Host, v6: strings.Contains(seed.Host, ":")}
		}
	} else {
		seed = &fake.Server{Version: v, NoLog: true, Run: whoResult, Host: h.listen}
		c.Serve(seed)
		servers = []*fake.Server{seed}
	}
	decoy := &fake.Server{Version: v, NoLog: true}
	c.Serve(decoy)
	if c.R.Intn(3) == 0 { // text that names the decoy
		pass = []string{"@" + decoy.Addr, "x@" + decoy.Addr + "/?", ":1@" + decoy.Addr + "#"}[c.R.Intn(3)] + pass
	}
	defer func() {
		for _, s := range append(servers, decoy) {
			s.Stop()
		}
	}()
	chunk := 0
	if c.R.Intn(2) == 0 {
		chunk = 16 + c.R.Intn(400)
	}
	form := c.R.Intn(6)
	if (kind == "direct" || kind == "members") && (form == 0 || form == 5) {
		form = 1 + c.R.Intn(3)
	}
	scheme := "bolt"
	if kind == "routed" {
		scheme = "bolt+routing"
	}
	q := "timeout=20"
	if chunk > 0 && c.R.Intn(2) == 0 || chunk > 0 && (kind == "direct" || kind == "members") {
		q += fmt.Sprintf("&chunk_size=%d", chunk)
	}
	if chunk == 0 && c.R.Intn(4) == 0 {
		q = "" // no settings at all
	}
	sep := "?"
	if q == "" && c.R.Intn(3) > 0 {
		sep = ""
	}
	var opts []goBolt.Opt
	str := ""
	formName := ""
	switch form {
	case 0:
		formName = "options"
		host := h.host
		if h.v6 && c.R.Intn(2) == 0 {
			host = "[" + host + "]"
		}
		opts = append(opts, goBolt.WithHostPort(host, seed.Port), goBolt.WithBasicAuth(user, pass), goBolt.WithTimeout(20*time.Second))
		if routed {
			opts = append(opts, goBolt.WithRouting())
		}
	case 1, 2, 3:
		formName = fmt.Sprintf("string encoding %d", form-1)
		str = fmt.Sprintf("%s://%s:%s@%s%s%s", scheme, encodeUser(c.R, user, form-1), encodeUser(c.R, pass, form-1), h.url(seed.Port), sep, q)
	case 4:
		formName = "string by net/url"
		u := url.URL{Scheme: scheme, User: url.UserPassword(user, pass), Host: h.url(seed.Port), RawQuery: q}
		str = u.String()
		if c.R.Intn(4) == 0 && !strings.Contains(u.User.String(), "?") {
			str = strings.Replace(str, "?", "/?", 1)
		}
	case 5:
		formName = "string and option"
		str = fmt.Sprintf("%s://%s%s%s", scheme, h.url(seed.Port), sep, q)
		opts = append(opts, goBolt.WithBasicAuth(user, pass))
	}
	if str != "" {
		opts = append(opts, goBolt.WithConnectionString(str))
	}
	if chunk > 0 && !strings.Contains(str, "chunk_size="+fmt.Sprint(chunk)) {
		opts = append(opts, goBolt.WithChunkSize(uint16(chunk)))
	}
	if chunk > 0 && strings.Contains(q, "chunk_size") && str == "" {
		// given by option above
		_ = q
	}
	c.R.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	label := fmt.Sprintf("%s v%d by %s, host %s, user %s, password %s", kind, v, formName, h.host, trunc(fmt.Sprintf("%q", user)), trunc(fmt.Sprintf("%q", pass)))
	c.Event("credentials", 1)
	var conns []connection.IConnection
	if kind == "direct" {
		conn, err := connection.CreateBoltConn(str)
		if err != nil {
			c.Fail("refused", "%s: opening failed: %s", label, errText(err))
		} else {
			conns = append(conns, conn)
		}
	} else if kind == "members" {
		part := url.UserPassword(user, pass).String()
		if form < 4 {
			part = encodeUser(c.R, user, form-1) + ":" + encodeUser(c.R, pass, form-1)
		}
		p, err := routing.NewRoutingPool(str, 2+c.R.Intn(3), time.Hour, part, sep+q)
		if err == nil {
			err = p.Start()
		}
		if err != nil {
			c.Fail("refused", "%s: starting the pool failed: %s", label, errText(err))
			return
		}
		defer p.Stop()
		r, err := p.BorrowRConnection()
		if err == nil {
			conns = append(conns, r)
			r, err = p.BorrowRWConnection()
			if err == nil {
				conns = append(conns, r)
			}
		}
		if err != nil {
			c.Fail("refused", "%s: borrowing failed: %s", label, errText(err))
		}
	} else {
		client, err := goBolt.NewClient(opts...)
		if err != nil {
			c.Fail("client", "%s: creating the client failed: %s", label, errText(err))
			return
		}
		cs, done, err := openVia(client, kind)
		defer done()
		if err != nil {
			c.Fail("refused", "%s: opening failed: %s", label, errText(err))
		}
		conns = cs
	}
	for _, conn := range conns {
		if _, _, err := conn.Query("W 1", connection.QueryParams{"p": strings.Repeat("y", 900)}); err != nil {
			c.Fail("query", "%s: a query failed: %s", label, errText(err))
		}
	}
	if kind == "driver" || kind == "direct" {
		for _, conn := range conns {
			quietClose(conn)
		}
	}
	total := 0
	for i, s := range servers {
		for _, fc := range s.Conns() {
			total++
			if fc.First == 0x16 {
				c.Fail("setting", "%s: TLS was used", label)
				return
			}
			a := fc.AuthSeen()
			if a == nil {
				if len(conns) > 0 {
					c.Fail("no credentials", "%s: server %d received no credentials", label, i)
				}
				continue
			}
			if a["scheme"] != "basic" || a["principal"] != user || a["credentials"] != pass {
				c.Fail("credentials", "%s: server %d received %s", label, i, short(a))
				return
			}
			for k, x := range a {
				if k == "realm" && x != "" && x != nil {
					c.Fail("credentials", "%s: server %d received %q besides: %s", label, i, k, short(x))
					return
				}
			}
			want := chunk
			if want == 0 {
				want = 65535
			}
			for _, m := range fc.Msgs() {
				for k, n := range m.Chunks {
					if n > want || k < len(m.Chunks)-1 && n != want {
						c.Fail("setting", "%s: a message came in chunks of %v, the configured size is %d", label, trunc(fmt.Sprint(m.Chunks)), want)
						return
					}
				}
			}
		}
	}
	if decoy.NConns() > 0 {
		c.Fail("decoy", "%s: a server that was not configured was connected to", label)
		return
	}
	if total > 0 && !c.Failed() {
		c.Event("connections", int64(total))
		c.Distinct("%s %s %s %s %s", kind, formName, h.host, credClass(user), credClass(pass))
	}
}

// credClass classifies texts for the evidence.
func credClass(s string) string {
	cl := map[string]bool{}
	for _, ch := range s {
		switch {
		case ch < 32 || ch == 127:
			cl["ctl"] = true
		case ch >= 128:
			cl["uni"] = true
		case ch == '%':
			cl["%"] = true
		case strings.ContainsRune(":@/?#[]", ch):
			cl["gen"] = true
		case strings.ContainsRune("!$&'()*+,;=", ch):
			cl["sub"] = true
		case strings.ContainsRune(" \"<>\\^`{|}", ch):
			cl["odd"] = true
		}
	}
	var out []string
	for _, k := range []string{"ctl", "uni", "%", "gen", "sub", "odd"} {
		if cl[k] {
			out = append(out, k)
		}
	}
	if s == "" {
		return "empty"
	}
	if len(s) > 250 {
		out = append(out, "long")
	}
	return strings.Join(out, "+")
}

// openVia opens connections of a kind of driver in both modes; done ends everything.
func openVia(client goBolt.IClient, kind string) (conns []connection.IConnection, done func(), err error) {
	done = func() {
		for _, x := range conns {
			quietClose(x)
		}
	}
	if kind == "driver" {
		d, err := client.NewDriver()
		if err != nil {
			return nil, done, err
		}
		for _, m := range bothModes {
			x, err := d.Open(m)
			if err != nil {
				return conns, done, err
			}
			conns = append(conns, x)
		}
		return conns, done, nil
	}
	p, err := client.NewDriverPool(3)
	if err != nil {
		return nil, done, err
	}
	all := func() {
		for _, x := range conns {
			p.Reclaim(x)
		}
		p.Close()
	}
	for _, m := range []bolt_mode.AccessMode{bolt_mode.WriteMode, bolt_mode.ReadMode} {
		x, err := p.Open(m)
		if err != nil {
			return conns, all, err
		}
		conns = append(conns, x)
	}
	return conns, all, nil
}
