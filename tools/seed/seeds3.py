SEEDS=[]
def seed(**k): SEEDS.append(k)
PRE='''package main

import (
	"fmt"
%s
	"github.com/mindstand/go-bolt/connection"
)

var _ = fmt.Sprint
'''
V2E='encoding/encoding_v2/encoderV2.go'; V2D='encoding/encoding_v2/decoderV2.go'
CONN='connection/connection.go'; TX='connection/transaction.go'

seed(id='rows-reuse', property='C02', ops=[(CONN,'''	output := [][]interface{}{}
''','''	output := c.rows[:0]
'''),(CONN,'''			log.Tracef("Got success message: %#v", resp)
			return output, resp.Metadata, nil''','''			log.Tracef("Got success message: %#v", resp)
			if len(output) > 32 {
				// the next large result does not have to grow again
				c.rows = output
			}
			return output, resp.Metadata, nil'''),(CONN,'''	// for pool tracking
	id string
''','''	// for pool tracking
	id string

	// where rows are collected
	rows [][]interface{}
''')],
 demo=PRE%''+'''
func main() {
	s := Listen(&Server{Version: 4, Rows: func(q string) (rows []L) {
		for i := 0; i < 40; i++ {
			rows = append(rows, L{q, i})
		}
		return rows
	}})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	first, _, err := conn.Query("FIRST", nil)
	Check(err)
	_, _, err = conn.Query("SECOND", nil)
	Check(err)
	for i, r := range first {
		if r[0] != "FIRST" || r[1] != int64(i) {
			Fail("row %d of the first result is now %v", i, r)
		}
	}
}
''', needs='a result of more than 32 rows that is still used after the next query', breaks='rows already returned are overwritten')

seed(id='rollback-swallow', property='C10', ops=[(TX,'''	// send rollback
	err := t.conn.sendMessage(msg)
	if err != nil {
		return err
	}

	if !isRollbackType {
		err = t.conn.sendMessage(t.conn.boltProtocol.GetPullAllMessage())
		if err != nil {
			return err
		}
	}

	runSucc, err := t.conn.consume()
	if err != nil {
		return err
	}
''','''	// send rollback
	err := t.conn.sendMessage(msg)
	if err != nil {
		return err
	}

	if !isRollbackType {
		err = t.conn.sendMessage(t.conn.boltProtocol.GetPullAllMessage())
		if err != nil {
			return err
		}
	}

	runSucc, err := t.conn.consume()
	if err != nil && t.closed && !t.conn.closed {
		// acknowledging the failure ended the transaction just as well
		return nil
	} else if err != nil {
		return err
	}
''')],
 demo=PRE%''+'''
func main() {
	s := Listen(&Server{Version: 4})
	s.On = func(c *Conn, m Struct) bool {
		if m.Sig == ROLLBACK {
			c.Failure("Neo.TransientError.Transaction", "could not roll back")
			return true
		}
		return false
	}
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	tx, err := conn.Begin()
	Check(err)
	if tx.Rollback() == nil {
		Fail("the rollback is reported to have succeeded")
	}
}
''', needs='a server that answers ROLLBACK with a failure', breaks='rollback reports success although the server did not acknowledge it')

seed(id='reset-cause', property='C07', ops=[(CONN,'''		err := c.reset()
		if err != nil {
			return nil, errors.Wrap(failure, "%s", err.Error())
		}
''','''		err := c.reset()
		if err != nil {
			return nil, errors.Wrap(err, "Resetting after [%s] failed", failure.Error())
		}
''')],
 demo='''package main

import (
	"strings"

	"github.com/mindstand/go-bolt/connection"
	"github.com/mindstand/go-bolt/errors"
	"github.com/mindstand/go-bolt/structures/messages"
)

func main() {
	s := Listen(&Server{Version: 3})
	s.On = func(c *Conn, m Struct) bool {
		if m.Sig == RUN {
			c.Failure("Neo.ClientError.Statement.SyntaxError", "the cause")
			return true
		}
		if m.Sig == RESET {
			c.Failure("Neo.ClientError.Request.Invalid", "no reset")
			return true
		}
		return false
	}
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	_, _, err = conn.Query("BAD", nil)
	if err == nil {
		Fail("no error")
	}
	f, ok := err.(*errors.Error).InnerMost().(messages.FailureMessage)
	if !ok || !strings.Contains(f.GetMessage(), "the cause") {
		Fail("the innermost cause is %v", err.(*errors.Error).InnerMost())
	}
}
''', needs='a failure whose reset the server refuses', breaks='the cause of the error is the refused reset instead of the failure')

seed(id='dequeue-last', property='C20', ops=[('routing/queue.go','''// Dequeue removes an Item from the start of the queue''','''// Dequeue removes the Item that was used last from the queue, which is the least likely to have timed out'''),
 ('routing/queue.go','''	item := s.items[0]
	s.items = s.items[1:len(s.items)]
	return item''','''	last := len(s.items) - 1
	item := s.items[last]
	s.items = s.items[:last]
	return item''')],
 demo='''package main

import (
	"time"

	"github.com/mindstand/go-bolt/routing"
)

func main() {
	var all []*Server
	roles := []string{"LEADER", "FOLLOWER", "FOLLOWER", "FOLLOWER"}
	rows := func(q string) []L {
		if q == "WHO" {
			return nil
		}
		var r []L
		for i, s := range all {
			r = append(r, L{roles[i], L{"bolt://" + s.Addr()}, roles[i], L{}, "default"})
		}
		return r
	}
	for range roles {
		all = append(all, Listen(&Server{Version: 3, Rows: rows}))
	}
	pool, err := routing.NewRoutingPool(all[0].URL(""), 6, time.Hour, "u:p", "")
	Check(err)
	Check(pool.Start())
	for i := 0; i < 30; i++ {
		conn, err := pool.BorrowRConnection()
		Check(err)
		_, _, err = conn.Query("WHO", nil)
		Check(err)
		Check(pool.Reclaim(conn))
	}
	for i, s := range all[1:] {
		used := false
		for _, c := range s.Conns() {
			for _, m := range c.Requests() {
				used = used || m.Sig == RUN
			}
		}
		if !used {
			Fail("follower %d got none of 30 queries", i+1)
		}
	}
}
''', needs='connections that are borrowed and returned one at a time from several eligible members', breaks='all the work goes to one member')

seed(id='member-host', property='C20', ops=[('routing/util.go','''		if a == e {
			return true
		}
	}
	return false
}''','''		// a member may be advertised with more than one port
		if hostOf(a) == hostOf(e) {
			return true
		}
	}
	return false
}

func hostOf(connStr string) string {
	u, err := url.Parse(connStr)
	if err != nil {
		return connStr
	}
	return u.Hostname()
}'''),('routing/util.go','''	"math/rand"
''','''	"math/rand"
	"net/url"
''')],
 demo='''package main

import (
	"time"

	"github.com/mindstand/go-bolt/routing"
)

func main() {
	var all []*Server
	roles := []string{"LEADER", "FOLLOWER", "READ_REPLICA"}
	rows := func(q string) []L {
		var r []L
		for i, s := range all {
			r = append(r, L{roles[i], L{"bolt://" + s.Addr()}, roles[i], L{}, "default"})
		}
		return r
	}
	for range roles {
		all = append(all, Listen(&Server{Version: 3, Rows: rows}))
	}
	pool, err := routing.NewRoutingPool(all[0].URL(""), 8, time.Hour, "u:p", "")
	Check(err)
	Check(pool.Start())
	for i, s := range all {
		if s.Open() == 0 {
			Fail("member %d is not used", i)
		}
	}
}
''', needs='members that share a host and differ in their ports', breaks='only one member of each host is used')

seed(id='ca-noverify', property='C25', ops=[(CONN,'''	if c.caCertFile != "" {
		// Load CA cert''','''	if c.caCertFile != "" && !c.tlsNoVerify {
		// Load CA cert''')],
 demo=PRE%'\n\t"strings"\n'+'''
func main() {
	s := Listen(&Server{Version: 3})
	_, err := connection.CreateBoltConn("bolt://u:p@" + s.Addr() + "?timeout=5&tls=true&tls_no_verify=true&tls_ca_cert_file=/nonexistent/ca.pem")
	if err == nil || !strings.Contains(err.Error(), "/nonexistent/ca.pem") {
		Fail("the missing file is not reported: %v", err)
	}
	for _, c := range s.Conns() {
		_ = c
		Fail("the server was contacted")
	}
}
''', needs='an unusable authority file together with disabled verification', breaks='a problem with the certificate file goes unnoticed')

seed(id='enc-local-offset', property='C03', ops=[(V2E,'''	_, offset := t.Zone()

	t = t.Add(time.Duration(offset) * time.Second) // add offset before converting to unix local
	epochSeconds := t.Unix()''','''	t = withoutLocal(t)
	_, offset := t.Zone()
	t = t.Add(time.Duration(offset) * time.Second) // add offset before converting to unix local
	epochSeconds := t.Unix()'''),(V2E,'''// encodeTime encodes''','''// withoutLocal replaces the zone of this process, which means nothing to the server
func withoutLocal(t time.Time) time.Time {
	if t.Location() == time.Local {
		return t.UTC()
	}
	return t
}

// encodeTime encodes''')],
 demo='''package main

import (
	"time"

	"github.com/mindstand/go-bolt/connection"
)

func main() {
	time.Local = time.FixedZone("here", 7200)
	s := Listen(&Server{Version: 4})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	_, _, err = conn.Query("Q", connection.QueryParams{"t": time.Date(2020, 1, 2, 3, 4, 5, 6, time.Local)})
	Check(err)
	for _, m := range s.Conns()[0].Requests() {
		if m.Sig == RUN {
			if f := m.Fields[1].(M)["t"].(Struct).Fields; f[2] != int64(7200) {
				Fail("the offset is %v", f[2])
			}
		}
	}
}
''', needs='a time in the local zone of a process that does not run in UTC', breaks='the offset of the time is lost')

seed(id='auth-token-cache', property='C24', ops=[('structures/messages/init.go','''func BuildAuthTokenBasic(username, password string) map[string]interface{} {
	return BuildAuthTokenBasicWithRealm(username, password, "")
}''','''// tokens are built once per user
var (
	tokens     = map[string]map[string]interface{}{}
	tokensLock sync.Mutex
)

func BuildAuthTokenBasic(username, password string) map[string]interface{} {
	tokensLock.Lock()
	defer tokensLock.Unlock()

	token, ok := tokens[username]
	if !ok {
		token = BuildAuthTokenBasicWithRealm(username, password, "")
		tokens[username] = token
	}

	// the protocol adds to it
	copied := map[string]interface{}{}
	for k, v := range token {
		copied[k] = v
	}
	return copied
}'''),('structures/messages/init.go','''package messages
''','''package messages

import "sync"
''')],
 demo=PRE%''+'''
func main() {
	s := Listen(&Server{Version: 4})
	for i, p := range []string{"one", "two"} {
		_, err := connection.CreateBoltConn("bolt://neo4j:" + p + "@" + s.Addr() + "?timeout=20")
		Check(err)
		if got := s.Conns()[i].Requests()[0].Fields[0].(M)["credentials"]; got != p {
			Fail("authenticated with %q instead of %q", got, p)
		}
	}
}
''', needs='two connections of one user with different passwords in one process', breaks='the second authenticates with the password of the first')

seed(id='run-db-in-tx', property='C12', ops=[('protocol/protocol_v4/bolt.go','''	if autoCommit {
		return''','''	if autoCommit || dbName != "" {
		return''')],
 demo=PRE%''+'''
func main() {
	s := Listen(&Server{Version: 4})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	tx, err := conn.BeginWithDatabase("movies")
	Check(err)
	_, err = tx.ExecWithDb("Q", nil, "movies")
	Check(err)
	for _, m := range s.Conns()[0].Requests() {
		if m.Sig == RUN && len(m.Fields[2].(M)) != 0 {
			Fail("RUN in a transaction has %v", m.Fields[2])
		}
	}
}
''', needs='a statement of a transaction that names the database of the transaction', breaks='RUN has metadata that is only allowed outside a transaction')

seed(id='wrap-dedupe', property='C29', ops=[('errors/errors.go','''	if e, ok := err.(*Error); ok {
		return &Error{''','''	if e, ok := err.(*Error); ok && e.msg == fmt.Sprintf(msg, args...) {
		// saying it twice does not help
		return e
	} else if ok {
		return &Error{''')],
 demo='''package main

import "github.com/mindstand/go-bolt/errors"

func main() {
	inner := errors.New("cause")
	mid := errors.Wrap(inner, "retry failed")
	out := errors.Wrap(mid, "retry failed")
	if out.Inner() != error(mid) {
		Fail("a layer is missing")
	}
}
''', needs='two successive layers with the same text', breaks='one of the wrapping steps is lost')

seed(id='label-text', property='C05', ops=[('encoding/util.go','''		toItem, ok := item.(string)
		if !ok {
			return nil, errors.New("Expected string value. Got %T %+v", item, item)
		}
		to[idx] = toItem''','''		if item == nil {
			return nil, errors.New("Expected string value. Got %T %+v", item, item)
		}
		to[idx] = fmt.Sprint(item)'''),('encoding/util.go','''import (
''','''import (
	"fmt"
''')],
 demo=PRE%''+'''
func main() {
	s := Listen(&Server{Version: 4, Rows: func(string) []L { return []L{{Struct{'N', L{1, L{"A", true}, M{}}}}} }})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	if rows, _, err := conn.Query("Q", nil); err == nil {
		Fail("returned %v", rows)
	}
}
''', needs='a node whose labels are not all strings', breaks='a value the bytes do not encode is returned')

seed(id='small-write-deadline', property='C15', ops=[(CONN,'''	if err := r.connection.conn.SetWriteDeadline(time.Now().Add(r.connection.timeout)); err != nil {''','''	deadline := time.Time{}
	if len(p) > 64 {
		// less than that always fits the socket's buffer
		deadline = time.Now().Add(r.connection.timeout)
	}
	if err := r.connection.conn.SetWriteDeadline(deadline); err != nil {''')],
 demo=PRE%'\n\t"strings"\n\t"time"\n'+'''
func main() {
	s := Listen(&Server{Version: 3})
	s.On = func(c *Conn, m Struct) bool {
		if m.Sig == INIT {
			c.Default(m)
			select {}
		}
		return false
	}
	conn, err := connection.CreateBoltConn("bolt://u:p@" + s.Addr() + "?timeout=1&chunk_size=50")
	Check(err)
	big := strings.Repeat("x", 30000000)
	if !Within(60*time.Second, func() { conn.Query("Q", connection.QueryParams{"x": big}) }) {
		Fail("still blocked after 60 seconds")
	}
}
''', needs='a server that stops reading while a long request is written in small chunks', breaks='the operation blocks for ever')

seed(id='reclaim-closed', property='C19', ops=[('driver_pool.go','''	if conn == nil {
		return errors.New("cannot reclaim nil connection")
	}
''','''	if conn == nil || d.isClosed() {
		return errors.New("cannot reclaim connection")
	}
''')],
 demo='''package main

import (
	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
)

func main() {
	s := Listen(&Server{Version: 4})
	client, err := goBolt.NewClient(goBolt.WithConnectionString(s.URL("")))
	Check(err)
	pool, err := client.NewDriverPool(3)
	Check(err)
	conn, err := pool.Open(bolt_mode.ReadMode)
	Check(err)
	Check(pool.Close())
	pool.Reclaim(conn)
	if !Eventually(func() bool { return s.Open() == 0 }) {
		Fail("the connection is still open")
	}
}
''', needs='a connection that is returned after its pool was closed', breaks='the connection is never closed')

seed(id='skip-bad-row', property='C23', ops=[('routing/routing_handler.go','''			id, addresses, role, _, _, err = c.parseRowV3(row)
		}
		if err != nil {
			return err
		}
''','''			id, addresses, role, _, _, err = c.parseRowV3(row)
		}
		if err != nil {
			log.Errorf("skipping member [%v]: %v", id, err)
			continue
		}
''')],
 demo='''package main

import (
	"sync/atomic"
	"time"

	"github.com/mindstand/go-bolt/routing"
)

func main() {
	var all []*Server
	var bad, asked int64
	roles := []string{"LEADER", "FOLLOWER", "FOLLOWER"}
	rows := func(q string) []L {
		atomic.AddInt64(&asked, 1)
		var r []L
		for i, s := range all {
			r = append(r, L{roles[i], L{"bolt://" + s.Addr()}, roles[i], L{}, "default"})
		}
		if atomic.LoadInt64(&bad) == 1 {
			r[2][3] = 7
		}
		return r
	}
	for range roles {
		all = append(all, Listen(&Server{Version: 3, Rows: rows}))
	}
	pool, err := routing.NewRoutingPool(all[0].URL(""), 8, 20*time.Millisecond, "u:p", "")
	Check(err)
	Check(pool.Start())
	atomic.StoreInt64(&bad, 1)
	at := atomic.LoadInt64(&asked)
	Eventually(func() bool { return atomic.LoadInt64(&asked) > at+5 })
	if all[2].Open() == 0 {
		Fail("the member with the malformed row is out of service")
	}
}
''', needs='an overview with one malformed row among good ones', breaks='the member of that row is taken out of service')
