CONN='connection/connection.go'; POOL='routing/pool.go'; DP='driver_pool.go'
V2E='encoding/encoding_v2/encoderV2.go'; V1E='encoding/encoding_v1/encoderV1.go'
SEEDS=[]
def seed(**k): SEEDS.append(k)
PRE='''package main

import (
%s
	"github.com/mindstand/go-bolt/connection"
)

'''

seed(id='fd-duplicate', property='C13', ops=[(CONN,'''		conn, err = net.DialTimeout("tcp", c.hostPort, c.timeout)
''','''		conn, err = c.dial()
'''),(CONN,'''func (c *Connection) tlsConfig() (''','''// dial opens the network connection. A server that is gone is noticed late
// with a long timeout, so those connections are kept alive more eagerly.
func (c *Connection) dial() (net.Conn, error) {
	conn, err := net.DialTimeout("tcp", c.hostPort, c.timeout)
	if err != nil || c.timeout <= time.Minute {
		return conn, err
	}

	if tcp, ok := conn.(*net.TCPConn); ok {
		file, err := tcp.File()
		if err != nil {
			return nil, err
		}
		c.socket = file

		err = tcp.SetKeepAlivePeriod(10 * time.Second)
		if err != nil {
			return nil, err
		}
	}

	return conn, nil
}

func (c *Connection) tlsConfig() ('''),(CONN,'''	timeout   time.Duration
	chunkSize uint16
''','''	timeout   time.Duration
	chunkSize uint16
	socket    interface{ Fd() uintptr }
''')],
 demo=PRE%'	"time"\n'+'''
func main() {
	s := Listen(&Server{Version: 3})
	for _, timeout := range []string{"10", "30", "61", "90"} {
		conn, err := connection.CreateBoltConn("bolt://u:p@" + s.Addr() + "?timeout=" + timeout)
		Check(err)
		Check(conn.Close())
		time.Sleep(300 * time.Millisecond)
		if s.Open() != 0 {
			Fail("still connected after Close, timeout %s", timeout)
		}
		if conn.ValidateOpen() {
			Fail("open")
		}
	}
}
''', needs='a timeout of more than a minute', breaks='a second descriptor keeps the socket open after Close, until the garbage collector finds it')

seed(id='tx-handle-reused', property='C09', ops=[(CONN,'''		db:     db,
		closed: false,
	}
''','''		db:     db,
		closed: c.closed,
	}

	// a connection has one transaction at a time
	c.lastTransaction = *tx
	tx = &c.lastTransaction
'''),(CONN,'''	timeout   time.Duration
	chunkSize uint16
''','''	timeout   time.Duration
	chunkSize uint16

	lastTransaction boltTransaction
''')],
 demo=PRE%''+'''
func main() {
	s := Listen(&Server{Version: 4})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	first, err := conn.Begin()
	Check(err)
	Check(first.Commit())
	second, err := conn.Begin()
	Check(err)
	_, err = first.Exec("LATE", nil)
	if err == nil {
		Fail("a statement of a finished transaction ran in another one")
	}
	Check(second.Rollback())
}
''', needs='a handle kept after its transaction ended, used while a later transaction is open', breaks='its statements run in the later transaction')

seed(id='handshake-buffer', property='C32', ops=[(CONN,'''	version := make([]byte, 4, 4)
''','''	version := versionBuffer[:]
'''),(CONN,'''func (c *Connection) handshake() (''','''// versionBuffer receives the version the server chose
var versionBuffer [4]byte

func (c *Connection) handshake() (''')],
 demo=PRE%'	"bytes"\n'+'''
func main() {
	a, b := Listen(&Server{Version: 4}), Listen(&Server{Version: 1})
	first, err := connection.CreateBoltConn(a.URL(""))
	Check(err)
	before := append([]byte{}, first.GetProtocolVersionBytes()...)
	_, err = connection.CreateBoltConn(b.URL(""))
	Check(err)
	if !bytes.Equal(before, first.GetProtocolVersionBytes()) {
		Fail("version bytes were %x and are %x", before, first.GetProtocolVersionBytes())
	}
}
''', needs='two connections, to servers that speak different versions', breaks='the version a connection reports becomes that of another connection')

seed(id='tls-shared', property='C32', ops=[(CONN,'''		config, err := c.tlsConfig()
''','''		config, err := c.sharedTLSConfig()
'''),(CONN,'''func (c *Connection) tlsConfig() (''','''var (
	tlsConfigs     = map[string]*tls.Config{}
	tlsConfigsLock sync.Mutex
)

// sharedTLSConfig reads the files only once for all connections that use them
func (c *Connection) sharedTLSConfig() (*tls.Config, error) {
	tlsConfigsLock.Lock()
	defer tlsConfigsLock.Unlock()

	key := c.certFile + "|" + c.keyFile + "|" + c.caCertFile
	if config, ok := tlsConfigs[key]; ok {
		return config, nil
	}

	config, err := c.tlsConfig()
	if err != nil {
		return nil, err
	}

	tlsConfigs[key] = config
	return config, nil
}

func (c *Connection) tlsConfig() (''')],
 demo='''package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"io"
	"math/big"
	"net"
	"time"

	"github.com/mindstand/go-bolt/connection"
)

func main() {
	s := Listen(&Server{Version: 3})
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	Check(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	Check(err)
	ln, err := tls.Listen("tcp", "127.0.0.1:0", &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}})
	Check(err)
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			back, err := net.Dial("tcp", s.Addr())
			Check(err)
			go func() { io.Copy(back, c); back.Close() }()
			go func() { io.Copy(c, back); c.Close() }()
		}
	}()
	trusting, err := connection.CreateBoltConn("bolt://u:p@" + ln.Addr().String() + "?timeout=20&tls=true&tls_no_verify=true")
	Check(err)
	defer trusting.Close()
	if _, err := connection.CreateBoltConn("bolt://u:p@" + ln.Addr().String() + "?timeout=20&tls=true"); err == nil {
		Fail("accepted a certificate that no authority has signed")
	}
}
''', needs='a connection that verifies, opened after one that does not', breaks='it accepts any certificate')

for f,i in ((V2E,'enc-buf-twice'),):
    seed(id=i, property='C32', ops=[(f,'''		buf:       &bytes.Buffer{},
''','''		buf:       buffers.Get().(*bytes.Buffer),
'''),(f,'''	e.buf.Reset()

	return nil
}

// Encode''','''	e.release()

	return nil
}

// buffers are used again, by any connection
var buffers = sync.Pool{New: func() interface{} { return &bytes.Buffer{} }}

func (e EncoderV2) release() {
	e.buf.Reset()
	buffers.Put(e.buf)
}

// Encode'''),(f,'''	err := e.encode(iVal)
	if err != nil {
		return err
	}

	// the''','''	err := e.encode(iVal)
	if err != nil {
		e.release()
		return err
	}

	defer e.release()

	// the'''),(f,'''	"reflect"
''','''	"reflect"
	"sync"
''')],
 demo=PRE%'	"fmt"\n	"sync"\n'+'''
func main() {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		s := Listen(&Server{Version: 4})
		conn, err := connection.CreateBoltConn(s.URL(""))
		Check(err)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 1500; n++ {
				want := fmt.Sprintf("%d-%d", i, n)
				_, err := conn.Exec("X", connection.QueryParams{"p": want})
				Check(err)
			}
			conn.Close()
			n := 0
			for _, m := range s.Conns()[0].Requests() {
				if m.Sig == 0x10 {
					if want := fmt.Sprintf("%d-%d", i, n); m.Fields[1].(M)["p"] != want {
						Fail("server got %v instead of %s", m.Fields[1], want)
					}
					n++
				}
			}
			if n != 1500 {
				Fail("server got %d requests", n)
			}
		}()
	}
	wg.Wait()
}
''', needs='two connections that send at the same time', breaks='a buffer is released twice, so two connections write into the same one')

seed(id='queue-by-member', property='C21', ops=[(POOL,'''	if connWrap.ConnType == bolt_mode.WriteMode {
		r.writeQueue.Enqueue(connWrap)
''','''	if stringSliceContains(r.rwStrings, connWrap.ConnStr) {
		r.writeQueue.Enqueue(connWrap)
''')],
 demo='''package main

import (
	"time"

	"github.com/mindstand/go-bolt/connection"
	"github.com/mindstand/go-bolt/routing"
)

func main() {
	var s *Server
	s = Listen(&Server{Version: 3, Rows: func(string) []L {
		return []L{{"1", L{"bolt://" + s.Addr()}, "LEADER", L{}, "default"}, {"2", L{"bolt://" + s.Addr()}, "FOLLOWER", L{}, "default"}}
	}})
	pool, err := routing.NewRoutingPool(s.URL(""), 4, time.Hour, "u:p", "")
	Check(err)
	Check(pool.Start())
	conn, err := pool.BorrowRConnection()
	Check(err)
	Check(pool.Reclaim(conn))
	var lent []connection.IConnection
	for {
		conn, err := pool.BorrowRWConnection()
		if err != nil {
			break
		}
		lent = append(lent, conn)
	}
	if len(lent) != 2 {
		Fail("%d connections for writing, 2 are configured", len(lent))
	}
}
''', needs='a member that is listed as leader and as reader, as after a change of roles', breaks='a connection for reading comes back as one for writing')

seed(id='mode-sticks', property='C12', ops=[(DP,'''	return d.internalPool.open()
''','''	conn, err := d.internalPool.open()
	if err != nil {
		return nil, err
	}

	// the server can refuse writes of those who only want to read
	if m, ok := conn.(*lentConnection).IConnection.(interface{ UseMode(bolt_mode.AccessMode) }); ok && mode == bolt_mode.ReadMode {
		m.UseMode(mode)
	}

	return conn, nil
'''),(CONN,'''func (c *Connection) Begin() (''','''// UseMode sets the mode that is sent with the next statements
func (c *Connection) UseMode(mode bolt_mode.AccessMode) {
	c.mutex.Lock()
	defer c.mutex.Unlock()

	c.accessMode = mode
}

func (c *Connection) Begin() (''')],
 demo='''package main

import (
	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
)

func main() {
	s := Listen(&Server{Version: 4})
	client, err := goBolt.NewClient(goBolt.WithConnectionString(s.URL("")))
	Check(err)
	pool, err := client.NewDriverPool(2)
	Check(err)
	for _, mode := range []bolt_mode.AccessMode{bolt_mode.WriteMode, bolt_mode.ReadMode, bolt_mode.WriteMode} {
		conn, err := pool.Open(mode)
		Check(err)
		_, err = conn.Exec("X", nil)
		Check(err)
		Check(pool.Reclaim(conn))
	}
	first := ""
	for _, m := range s.Conns()[0].Requests() {
		if m.Sig == 0x10 {
			got := fmt.Sprint(m.Fields[2])
			if first == "" {
				first = got
			}
			if got != first {
				Fail("sent with %s and then with %s", first, got)
			}
		}
	}
}
'''.replace('import (','import (\n	"fmt"\n'), needs='a pooled connection that was lent for reading and is lent for writing later', breaks='its statements carry the read mode')

seed(id='level-once', property='C28', ops=[('log/log.go','''func GetLevel() Level {
	return level
''','''func GetLevel() Level {
	readLevel.Do(func() { lastLevel = level })
	return lastLevel
'''),('log/log.go','''// GetLevel gets the logging level
''','''var (
	readLevel sync.Once
	lastLevel Level
)

// GetLevel gets the logging level
'''),('log/log.go','''	"strings"
''','''	"strings"
	"sync"
''')],
 demo=PRE%'	"bytes"\n	stdlog "log"\n\n	"github.com/mindstand/go-bolt/log"\n'+'''
func main() {
	var out bytes.Buffer
	log.TraceLog = stdlog.New(&out, "", 0)
	s := Listen(&Server{Version: 4})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	log.SetLevel("trace")
	if log.GetLevel() != log.TraceLevel {
		Fail("the level is %v", log.GetLevel())
	}
	_, err = conn.Exec("X", nil)
	Check(err)
	if !bytes.Contains(out.Bytes(), []byte("Consumed Response")) {
		Fail("not traced:\\n%s", out.String())
	}
}
''', needs='a level that is set after the first connection has worked', breaks='the level is the one of the beginning')

seed(id='long-slice', property='C01', ops=[(V2E,'''			newSlice := make([]interface{}, s.Len())
			for i := 0; i < s.Len(); i++ {
				newSlice[i] = s.Index(i).Interface()
			}
''','''			newSlice := make([]interface{}, s.Len())
			for i := range newSlice[:uint16(s.Len())] {
				newSlice[i] = s.Index(i).Interface()
			}
''')],
 demo=PRE%''+'''
func main() {
	s := Listen(&Server{Version: 4})
	conn, err := connection.CreateBoltConn(s.URL(""))
	Check(err)
	list := make([]int, 70000)
	for i := range list {
		list[i] = 1
	}
	_, err = conn.Exec("X", connection.QueryParams{"p": list})
	Check(err)
	for _, m := range s.Conns()[0].Requests() {
		if m.Sig == 0x10 {
			for i, v := range m.Fields[1].(M)["p"].(L) {
				if v != int64(1) {
					Fail("element %d is %v", i, v)
				}
			}
		}
	}
}
''', needs='a typed slice of more than 65535 elements', breaks='elements arrive as null')

seed(id='no-verify-false', property='C25', ops=[(CONN,'''		noVerify := _url.Query().Get("tls_no_verify")
		connection.tlsNoVerify = strings.HasPrefix(strings.ToLower(noVerify), "t") || noVerify == "1"
''','''		_, connection.tlsNoVerify = _url.Query()["tls_no_verify"]
''')],
 demo=[x for x in SEEDS if x and x['id']=='tls-shared'][0]['demo'].replace('''	trusting, err := connection.CreateBoltConn("bolt://u:p@" + ln.Addr().String() + "?timeout=20&tls=true&tls_no_verify=true")
	Check(err)
	defer trusting.Close()
''','').replace('&tls=true"','&tls=true&tls_no_verify=false"'), needs='tls_no_verify=false in the connection string', breaks='any certificate is accepted')
SEEDS=[s for s in SEEDS if s]
