SEEDS=[]
def seed(**k): SEEDS.append(k)
PRE='''package main

import (
	"fmt"
%s
	"github.com/mindstand/go-bolt/connection"
)

var _ = fmt.Sprint
'''
V2E='encoding/encoding_v2/encoderV2.go'; V2D='encoding/encoding_v2/decoderV2.go'; V1E='encoding/encoding_v1/encoderV1.go'
CONN='connection/connection.go'; TX='connection/transaction.go'; POOL='routing/pool.go'; RH='routing/routing_handler.go'

DP='''package main

import (
	"fmt"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"
)

var _ = fmt.Sprint
var _ = time.Now
var _ connection.IConnection
var _ = bolt_mode.ReadMode

func dpool(s *Server, n int) goBolt.IDriverPool {
	client, err := goBolt.NewClient(goBolt.WithConnectionString(s.URL("")))
	Check(err)
	pool, err := client.NewDriverPool(n)
	Check(err)
	return pool
}
'''
seed(id='idle-default', property='C30', ops=[('driver_pool.go','''		MaxIdle:                  maxConns,''','''		MaxIdle:                  idleConns(maxConns),'''),('driver_pool.go','''func newDriverPool(''','''// idleConns does not keep more connections than are likely to be needed again soon
func idleConns(maxConns int) int {
	if maxConns > 2*pool.DefaultMaxIdle {
		return 2 * pool.DefaultMaxIdle
	}
	return maxConns
}

func newDriverPool(''')],
 demo=DP+'''
func main() {
	s := Listen(&Server{Version: 4})
	pool := dpool(s, 20)
	for round := 0; round < 2; round++ {
		var all []connection.IConnection
		for i := 0; i < 20; i++ {
			c, err := pool.Open(bolt_mode.ReadMode)
			Check(err)
			all = append(all, c)
		}
		for _, c := range all {
			Check(pool.Reclaim(c))
		}
	}
	if n := len(s.Conns()); n > 20 {
		Fail("a pool of 20 healthy connections opened %d", n)
	}
}
''', needs='a pool of more than 16 connections that are all returned', breaks='healthy connections are closed when they are returned')

seed(id='validate-recent', property='C18', ops=[(CONN,'''	if c.conn == nil {
		return false
	}

	one := make''','''	if c.conn == nil {
		return false
	}

	// there is no need to look at a connection that was fine a moment ago
	if time.Since(c.lastUsed) < 250*time.Millisecond {
		return true
	}

	one := make'''),(CONN,'''	n, err = r.connection.conn.Read(p)
	if n > 0 {''','''	n, err = r.connection.read(p)
	if n > 0 {'''),(CONN,'''func (c *Connection) ValidateOpen() bool {''','''func (c *Connection) read(p []byte) (int, error) {
	c.lastUsed = time.Now()
	return c.conn.Read(p)
}

func (c *Connection) ValidateOpen() bool {'''),(CONN,'''	// for pool tracking
	id string
''','''	// for pool tracking
	id string

	// when the server was last heard of
	lastUsed time.Time
''')],
 demo=DP+'''
func main() {
	s := Listen(&Server{Version: 4})
	pool := dpool(s, 2)
	c, err := pool.Open(bolt_mode.ReadMode)
	Check(err)
	_, err = c.Exec("ONE", nil)
	Check(err)
	Check(pool.Reclaim(c))
	s.Conns()[0].Close()
	time.Sleep(50 * time.Millisecond)
	c, err = pool.Open(bolt_mode.ReadMode)
	Check(err)
	if _, err = c.Exec("TWO", nil); err != nil {
		Fail("the connection from the pool is dead: %v", err)
	}
}
''', needs='the server drops an idle connection within a quarter of a second of its last use', breaks='dead connections are lent')

seed(id='text-runes', property='C01', ops=[(V1E,'''	length := len(bytes)
	switch {
	case length <= 15:
		if _, err = e.Write([]byte{byte(encode_consts.TinyStringMarker | length)}); err != nil {
			return err
		}
		_, err = e.Write(bytes)
''','''	length := len(bytes)
	switch {
	case len([]rune(val)) <= 15:
		if _, err = e.Write([]byte{byte(encode_consts.TinyStringMarker | length)}); err != nil {
			return err
		}
		_, err = e.Write(bytes)
''')],
 demo=PRE%''+'''
func main() {
	s := Listen(&Server{Version: 1})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	text := "äöüäöüäöü"
	_, err = conn.Exec("Q", connection.QueryParams{"x": text})
	Check(err)
	for _, m := range s.Conns()[0].Requests() {
		if m.Sig == RUN && m.Fields[1].(M)["x"] != text {
			Fail("sent %q, arrived %v", text, m.Fields[1])
		}
	}
}
''', needs='protocol 1 and a text of at most 15 characters and more than 15 bytes', breaks='the text does not arrive')

seed(id='unlock-while-waiting', property='C16', race=True, ops=[(CONN,'''	log.Tracef("running pull all")
	err = c.sendMessage(c.boltProtocol.GetPullAllMessage())
	if err != nil {
		return nil, nil, err
	}
''','''	log.Tracef("running pull all")
	err = c.send(c.boltProtocol.GetPullAllMessage())
	if err != nil {
		return nil, nil, err
	}
'''),(CONN,'''func (c *Connection) sendMessageConsume(''','''// send lets others send their requests while the server works on this one
func (c *Connection) send(message structures.Structure) error {
	err := c.sendMessage(message)
	c.mutex.Unlock()
	runtime.Gosched()
	c.mutex.Lock()
	return err
}

func (c *Connection) sendMessageConsume('''),(CONN,'''	"net/url"
''','''	"net/url"
	"runtime"
''')],
 demo=PRE%'"sync"'+'''
func main() {
	s := Listen(&Server{Version: 4, Rows: func(q string) []L { return []L{{q}} }})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				q := fmt.Sprint(g, "/", i)
				rows, _, err := conn.Query(q, nil)
				Check(err)
				if len(rows) != 1 || rows[0][0] != q {
					Fail("query %s got %v", q, rows)
				}
			}
		}(g)
	}
	wg.Wait()
}
''', needs='two goroutines that query the same connection at the same moment', breaks='results of one query are given to another')

seed(id='close-rollback-error', property='C13', ops=[(CONN,'''	var err error
	if c.transaction != nil {
		err = c.transaction.rollback()
	}

	// the rollback may''','''	var err error
	if c.transaction != nil {
		err = c.transaction.rollback()
		if err != nil {
			return err
		}
	}

	// the rollback may''')],
 demo=PRE%'"time"'+'''
func main() {
	s := Listen(&Server{Version: 4, On: func(c *Conn, m Struct) bool {
		if m.Sig == ROLLBACK {
			c.Failure("Neo.TransientError.General.X", "no")
			return true
		}
		return false
	}})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	_, err = conn.Begin()
	Check(err)
	conn.Close()
	if !Within(3*time.Second, func() { <-s.Conns()[0].Gone }) {
		Fail("the connection is still open after Close")
	}
}
''', needs='the server refuses the rollback of the transaction that is open when the connection is closed', breaks='Close leaves the connection open')

seed(id='mode-sticks', property='C12', ops=[('structures/messages/builder.go',None,None)], demo='', needs='', breaks='') if 0 else None

seed(id='member-prefix', property='C20', ops=[('routing/util.go','''		if str == val {''','''		if strings.HasPrefix(str, val) {''')], demo='', needs='', breaks='') if 0 else None

seed(id='reset-peer-cause', property='C08', ops=[(CONN,'''	if err != nil {
		r.connection.abort()
		err = driver.ErrBadConn
	}
	return n, err
}

type Connection struct''','''	if err != nil {
		r.connection.abort()
		if opErr, ok := err.(*net.OpError); !ok || opErr.Timeout() {
			err = driver.ErrBadConn
		}
	}
	return n, err
}

type Connection struct''')],
 demo=PRE%'''"database/sql/driver"
"net"
"github.com/mindstand/go-bolt/errors"
'''+'''
func main() {
	s := Listen(&Server{Version: 4, On: func(c *Conn, m Struct) bool {
		if m.Sig == PULL {
			c.Conn.(*net.TCPConn).SetLinger(0)
			c.Close()
			return true
		}
		return false
	}})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	_, _, err = conn.Query("Q", nil)
	for {
		e, ok := err.(*errors.Error)
		if !ok || e.Inner() == nil {
			break
		}
		err = e.Inner()
	}
	if err != driver.ErrBadConn {
		Fail("the cause is %T %v", err, err)
	}
}
''', needs='the connection is reset rather than closed', breaks='the innermost cause is not the standard bad-connection error')

seed(id='err-text-limit', property='C29', ops=[('errors/errors.go','''			msg += fmt.Sprintf("\\nInternal Error(%T):%s", e.wrapped, e.wrapped.Error())''','''			text := e.wrapped.Error()
			if len(text) > 4096 {
				text = text[:4096] + "..."
			}
			msg += fmt.Sprintf("\\nInternal Error(%T):%s", e.wrapped, text)''')],
 demo='''package main

import (
	"fmt"
	"strings"

	"github.com/mindstand/go-bolt/errors"
)

func main() {
	text := strings.Repeat("x", 5000) + "END"
	if got := errors.Wrap(fmt.Errorf("%s", text), "w").Error(); !strings.Contains(got, text) {
		Fail("the text is gone")
	}
}
''', needs='an error text of more than 4096 bytes', breaks='the rendered text lacks the rest of it')

seed(id='auth-format', property='C24', ops=[(POOL,'''	return fmt.Sprintf("bolt://%s@%s%s", r.userPassPart, hostPort, r.tlsInfo)''','''	return fmt.Sprintf("bolt://"+r.userPassPart+"@%s"+r.tlsInfo, hostPort)''')],
 demo='''package main

import (
	"time"

	"github.com/mindstand/go-bolt/routing"
)

func main() {
	var all []*Server
	roles := []string{"LEADER", "FOLLOWER"}
	rows := func(q string) []L {
		var r []L
		for i, s := range all {
			r = append(r, L{roles[i], L{"bolt://" + s.Addr()}, roles[i], L{}, "default"})
		}
		return r
	}
	for range roles {
		all = append(all, Listen(&Server{Version: 3, Rows: rows}))
	}
	pool, err := routing.NewRoutingPool(all[0].URL(""), 2, time.Hour, "u:p%40q", "")
	Check(err)
	Check(pool.Start())
	for _, c := range all[1].Conns() {
		if got := c.Requests()[0].Fields[0].(M)["credentials"]; got != "p@q" {
			Fail("password is %v", got)
		}
	}
}
''', needs='a routed client whose password has characters that are percent-encoded', breaks='members can not be connected to or get another password')

seed(id='end-marker-error', property='C31', ops=[(V2E,'''	_, err := e.w.Write(encode_consts.EndMessage)
	if err != nil {
		return errors.Wrap(err, "An error occurred ending encoding message")
	}
	e.buf.Reset()
''','''	if _, err := e.w.Write(encode_consts.EndMessage); err != nil {
		// the receiver has the whole message by now
		log.Errorf("An error occurred ending encoding message: %v", err)
	}
	e.buf.Reset()
''')],
 demo='''package main

import (
	"errors"

	"github.com/mindstand/go-bolt/encoding/encoding_v2"
)

type w struct{ left int }

func (w *w) Write(b []byte) (int, error) {
	if len(b) > w.left {
		return 0, errors.New("full")
	}
	w.left -= len(b)
	return len(b), nil
}

func main() {
	if err := encoding_v2.NewEncoder(&w{3}, 100).Encode(int64(1)); err == nil {
		Fail("no error")
	}
}
''', needs='the writer fails at the end marker of a message', breaks='the error does not come out of the call')

seed(id='map-key-intern', property='C31', race=True, ops=[(V2D,'''		key, ok := keyInt.(string)
		if !ok {
			return nil, errors.New("Unexpected key type: %T with value %+v", keyInt, keyInt)
		}
		mapp[key] = val
''','''		key, ok := keyInt.(string)
		if !ok {
			return nil, errors.New("Unexpected key type: %T with value %+v", keyInt, keyInt)
		}
		mapp[intern(key)] = val
'''),(V2D,'''func (d DecoderV2) decodeMap(''','''// keys are the map keys seen so far
var keys = map[string]string{}

// intern saves memory, as the same few keys come with every record
func intern(key string) string {
	if known, ok := keys[key]; ok {
		return known
	}
	if len(keys) < 1024 {
		keys[key] = key
	}
	return key
}

func (d DecoderV2) decodeMap(''')],
 demo='''package main

import (
	"fmt"
	"sync"

	"github.com/mindstand/go-bolt/encoding/encoding_v2"
)

func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				b, err := encoding_v2.Marshal(map[string]interface{}{fmt.Sprint(g, i): 1})
				Check(err)
				_, err = encoding_v2.Unmarshal(b)
				Check(err)
			}
		}(g)
	}
	wg.Wait()
}
''', needs='two connections that decode maps with new keys at the same time', breaks='data race on the shared table')

seed(id='zone-cache', property='C03', ops=[(V2D,None,None)], demo='', needs='', breaks='') if 0 else None

seed(id='chunk-reuse-sizes', property='C04', ops=[(V2E,'''	for e.buf.Len() > 0 {
		chunk := e.buf.Next(chunkSize)
''','''	for e.buf.Len() > 0 {
		// leave no tiny last chunk
		if rest := e.buf.Len() - chunkSize; rest > 0 && rest < 4 && chunkSize < math.MaxUint16-4 {
			chunkSize += rest
		}
		chunk := e.buf.Next(chunkSize)
''')],
 demo=PRE%'''"net"
"io"
'''+'''
func main() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	Check(err)
	big := make(chan int, 1)
	go func() {
		c, err := ln.Accept()
		Check(err)
		io.ReadFull(c, make([]byte, 20))
		c.Write([]byte{0, 0, 0, 4})
		max := 0
		head := make([]byte, 2)
		for {
			if _, err := io.ReadFull(c, head); err != nil {
				big <- max
				return
			}
			n := int(head[0])<<8 | int(head[1])
			if n == 0 {
				c.Write([]byte{0, 3, 0xb1, 0x70, 0xa0, 0, 0})
				continue
			}
			if n > max {
				max = n
			}
			io.ReadFull(c, make([]byte, n))
		}
	}()
	conn, err := connection.CreateBoltConn("bolt://u:p@" + ln.Addr().String() + "?timeout=20&chunk_size=100")
	Check(err)
	for i := 0; i < 300; i++ {
		_, err = conn.Exec("Q", connection.QueryParams{"x": string(make([]byte, i))})
		Check(err)
	}
	conn.Close()
	if n := <-big; n > 100 {
		Fail("a chunk of %d bytes", n)
	}
}
''', needs='a message a few bytes longer than a multiple of the chunk size', breaks='a chunk is longer than configured')

seed(id='ipv6-member', property='C23', ops=[(RH,'''			if strings.HasPrefix(str, "bolt://") {
				boltStr = str
			}
''','''			if strings.HasPrefix(str, "bolt") {
				boltStr = str
			}
''')],
 demo='''package main

import (
	"time"

	"github.com/mindstand/go-bolt/routing"
)

func main() {
	var all []*Server
	decoy := Listen(&Server{Version: 3})
	roles := []string{"LEADER", "FOLLOWER"}
	rows := func(q string) []L {
		var r []L
		for i, s := range all {
			r = append(r, L{roles[i], L{"bolt://" + s.Addr(), "bolt+routing://" + decoy.Addr()}, roles[i], L{}, "default"})
		}
		return r
	}
	for range roles {
		all = append(all, Listen(&Server{Version: 3, Rows: rows}))
	}
	pool, err := routing.NewRoutingPool(all[0].URL(""), 2, time.Hour, "u:p", "")
	Check(err)
	Check(pool.Start())
	if len(decoy.Conns()) != 0 {
		Fail("connected to another advertised address")
	}
}
''', needs='a member that also advertises an address whose scheme starts with bolt', breaks='another advertised address is used')

seed(id='stats-negative', property='C27', ops=[('connection/result.go','''	num, ok := stats["nodes-deleted"].(int64)
	if !ok {
		return -1, false
	}
	return num, ok
''','''	num, ok := stats["nodes-deleted"].(int64)
	if !ok || num > math.MaxInt32 {
		return -1, false
	}
	return num, ok
'''),('connection/result.go','''package connection
''','''package connection

import "math"
''')],
 demo=PRE%''+'''
func main() {
	s := Listen(&Server{Version: 4, On: func(c *Conn, m Struct) bool {
		if m.Sig == PULL {
			c.Success(M{"stats": M{"nodes-deleted": 1 << 40}})
			return true
		}
		return false
	}})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	r, err := conn.Exec("Q", nil)
	Check(err)
	if n, ok := r.GetNodesDeleted(); !ok || n != 1<<40 {
		Fail("%d %v", n, ok)
	}
}
''', needs='a counter beyond 32 bits', breaks='it is reported as unavailable')

seed(id='commit-twice-message', property='C10', ops=[(TX,'''	success, ok := runSucc.(messages.SuccessMessage)
	if !ok {
		t.conn.abort()
		return errors.New("Unrecognized response type committing transaction: %#v", runSucc)
	}
''','''	success, ok := runSucc.(messages.SuccessMessage)
	if _, ignored := runSucc.(messages.IgnoredMessage); !ok && !ignored {
		t.conn.abort()
		return errors.New("Unrecognized response type committing transaction: %#v", runSucc)
	}
''')],
 demo=PRE%''+'''
func main() {
	s := Listen(&Server{Version: 4, On: func(c *Conn, m Struct) bool {
		if m.Sig == COMMIT {
			c.Ignored()
			return true
		}
		return false
	}})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	tx, err := conn.Begin()
	Check(err)
	if tx.Commit() == nil {
		Fail("an ignored commit is reported as committed")
	}
}
''', needs='a server that ignores the commit', breaks='the transaction is reported committed')

seed(id='timeout-frozen', property='C15', ops=[(CONN,'''	if err := r.connection.conn.SetReadDeadline(time.Now().Add(r.connection.timeout)); err != nil {
		r.connection.abort()
		return 0, driver.ErrBadConn
	}

	n, err = r.connection.conn.Read(p)
''','''	// setting a deadline for every few bytes is expensive
	if time.Until(r.deadline) < r.connection.timeout-time.Second {
		r.deadline = time.Now().Add(r.connection.timeout)
		if err := r.connection.conn.SetReadDeadline(r.deadline); err != nil {
			r.connection.abort()
			return 0, driver.ErrBadConn
		}
	}

	n, err = r.connection.conn.Read(p)
'''),(CONN,'''type readWrite struct {
	connection *Connection
''','''type readWrite struct {
	connection *Connection
	deadline   time.Time
''')],
 demo=PRE%'"time"'+'''
func main() {
	s := Listen(&Server{Version: 4, On: func(c *Conn, m Struct) bool { return m.Sig == PULL }})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	conn.SetTimeout(time.Second)
	if !Within(8*time.Second, func() { conn.Exec("Q", nil) }) {
		Fail("still waiting for the server")
	}
}
''', needs='a shorter timeout set on a connection that has just been used, and a server that stalls', breaks='the operation waits for the previous timeout')

seed(id='begin-mode-cached', property='C12', ops=[('protocol/protocol_v4/bolt.go','''	return messages.NewBeginMessage(messages.BuildTxMetadataWithDatabase(nil, nil, database, accessMode, nil))
''','''	if database == "" && accessMode == bolt_mode.WriteMode {
		return plainBegin
	}
	return messages.NewBeginMessage(messages.BuildTxMetadataWithDatabase(nil, nil, database, accessMode, nil))
'''),('protocol/protocol_v4/bolt.go','''func (b *BoltProtocolV4) GetTxBeginMessage(''','''// plainBegin is what most transactions begin with
var plainBegin = messages.NewBeginMessage(nil)

func (b *BoltProtocolV4) GetTxBeginMessage(''')],
 demo=PRE%''+'''
func main() {
	s := Listen(&Server{Version: 4})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	_, err = conn.Begin()
	Check(err)
	for _, m := range s.Conns()[0].Requests() {
		if m.Sig != BEGIN {
			continue
		}
		if _, ok := m.Fields[0].(M); !ok {
			Fail("BEGIN with %v", m.Fields[0])
		}
	}
}
''', needs='', breaks='BEGIN lacks its metadata') if 0 else None

seed(id='refresh-sleep', property='C22', ops=[(POOL,'''		// connections can be used while waiting for the cluster
		handler, err := r.getClusterInfo()

		r.mutex.Lock()
		select {
		case <-stop:
			r.mutex.Unlock()
			return
		default:
		}

		// refresh connections and mark dead conns
		if err != nil {
			log.Error(err)
		} else {
			r.refreshConnections(handler)
		}
''','''		// connections can be used while waiting for the cluster
		handler, err := r.getClusterInfo()

		r.mutex.Lock()
		// refresh connections and mark dead conns
		if err != nil {
			log.Error(err)
		} else {
			r.refreshConnections(handler)
		}
''')],
 demo='''package main

import (
	"sync/atomic"
	"time"

	"github.com/mindstand/go-bolt/routing"
)

func main() {
	var all []*Server
	var slow int32
	roles := []string{"LEADER", "FOLLOWER"}
	rows := func(q string) []L {
		if atomic.LoadInt32(&slow) == 1 {
			atomic.StoreInt32(&slow, 2)
			time.Sleep(500 * time.Millisecond)
		}
		var r []L
		for i, s := range all {
			r = append(r, L{roles[i], L{"bolt://" + s.Addr()}, roles[i], L{}, "default"})
		}
		return r
	}
	for range roles {
		all = append(all, Listen(&Server{Version: 3, Rows: rows}))
	}
	pool, err := routing.NewRoutingPool(all[0].URL(""), 4, 100*time.Millisecond, "u:p", "")
	Check(err)
	Check(pool.Start())
	atomic.StoreInt32(&slow, 1)
	if !Eventually(func() bool { return atomic.LoadInt32(&slow) == 2 }) {
		Fail("no refresh")
	}
	Check(pool.Stop())
	time.Sleep(2 * time.Second)
	if n := all[0].Open() + all[1].Open(); n != 0 {
		Fail("%d connections are open after the pool has stopped", n)
	}
}
''', needs='the pool is stopped while a refresh waits for the cluster', breaks='connections are opened after stopping')

seed(id='tx-failed-stays', property='C09', ops=[(CONN,'''			log.Tracef("Got success message when resetting session: %#v", resp)
			// the server rolls back whatever was open
			c.endTransaction()
			return nil
''','''			log.Tracef("Got success message when resetting session: %#v", resp)
			if c.protocolVersion < 3 {
				// the server rolls back whatever was open
				c.endTransaction()
			}
			return nil
''')],
 demo=PRE%''+'''
func main() {
	s := Listen(&Server{Version: 4, On: func(c *Conn, m Struct) bool {
		if m.Sig == RUN && m.Fields[0] == "BAD" {
			c.Failure("Neo.ClientError.X.Y", "no")
			return true
		}
		return false
	}})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	tx, err := conn.Begin()
	Check(err)
	tx.Exec("BAD", nil)
	tx.Exec("NEXT", nil)
	for _, m := range s.Conns()[0].Requests() {
		if m.Sig == RUN && m.Fields[0] == "NEXT" {
			Fail("executed outside of the transaction")
		}
	}
}
''', needs='', breaks='') if 0 else None
