// Package fake is a strict Bolt server (versions 1 to 4) used as the monitor of the driver: it decodes
// every byte the driver sends, runs the server state machine of the negotiated version, records every
// message, statement and transaction with a global logical clock, and can be scripted to fail, ignore,
// kill, stall or corrupt at any point.
package fake

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"verif/pack"
)

var clock int64

// Tick advances and returns the global logical clock.
func Tick() int64 { return atomic.AddInt64(&clock, 1) }

// Now returns the global logical clock.
func Now() int64 { return atomic.LoadInt64(&clock) }

// State of a server session.
type State string

// States.
const (
	Connected   State = "CONNECTED"
	Ready       State = "READY"
	Streaming   State = "STREAMING"
	TxReady     State = "TX_READY"
	TxStreaming State = "TX_STREAMING"
	Failed      State = "FAILED"
	Defunct     State = "DEFUNCT"
)

// Response message signatures.
const (
	SigSuccess = 0x70
	SigRecord  = 0x71
	SigIgnored = 0x7E
	SigFailure = 0x7F
)

// Success builds a SUCCESS message.
func Success(m map[string]interface{}) pack.Struct {
	if m == nil {
		m = map[string]interface{}{}
	}
	return pack.Struct{Sig: SigSuccess, Fields: []interface{}{m}}
}

// said is what a server says about requests that have no result: it is free to say anything.
func (c *Conn) said(name string) map[string]interface{} {
	c.mu.Lock()
	n := len(c.msgs)
	c.mu.Unlock()
	switch n * 7 / 3 % 8 {
	case 1:
		return map[string]interface{}{"bookmark": fmt.Sprintf("neo4j:bookmark:v1:tx%d", n)}
	case 2:
		return map[string]interface{}{"t_first": int64(n)}
	case 3:
		return map[string]interface{}{"fields": []interface{}{}, "t_first": int64(0)}
	case 4:
		return map[string]interface{}{"server": "Neo4j/fake", "bookmark": nil}
	case 5:
		return map[string]interface{}{"bookmark": "", "has_more": false, "type": "w"}
	}
	return nil
}

// Record builds a RECORD message.
func Record(row []interface{}) pack.Struct {
	return pack.Struct{Sig: SigRecord, Fields: []interface{}{row}}
}

// Ignored builds an IGNORED message.
func Ignored() pack.Struct { return pack.Struct{Sig: SigIgnored, Fields: []interface{}{}} }

// Failure is what the server reports.
type Failure struct {
	Code, Message string
	Extra         map[string]interface{}
}

// Map is the metadata of the failure.
func (f *Failure) Map() map[string]interface{} {
	m := map[string]interface{}{"code": f.Code, "message": f.Message}
	for k, v := range f.Extra {
		m[k] = v
	}
	return m
}

// Msg builds the FAILURE message.
func (f *Failure) Msg() pack.Struct {
	return pack.Struct{Sig: SigFailure, Fields: []interface{}{f.Map()}}
}

// Msg is one message received from the driver.
type Msg struct {
	T       int64 // logical time of receipt
	Seq     int   // number on this connection, from 0
	Name    string
	Raw     pack.Struct
	Chunks  []int // chunk sizes it arrived in
	Bytes   []byte
	Before  State
	After   State
	Query   string
	Params  map[string]interface{}
	Extra   map[string]interface{}
	TxID    int
	Stmt    *Stmt
	Reply   string // names of the replies, for the log
	TxStart int64  // server bytes sent when the reply started
	TxEnd   int64  // server bytes sent when the reply is complete (intended)
	RxEnd   int64  // driver bytes received after this message
}

// Stmt is one statement the server accepted for execution.
type Stmt struct {
	ID     int
	T      int64
	Conn   *Conn
	Query  string
	Params map[string]interface{}
	Extra  map[string]interface{}
	Tx     *Tx // nil: auto-commit
	Failed bool
}

// Tx is one explicit transaction on the server.
type Tx struct {
	ID    int
	Conn  *Conn
	Begin int64
	Extra map[string]interface{}
	Stmts []*Stmt
	End   string // "", commit, rollback, failed (by a failure), lost (connection gone), reset
	EndT  int64
}

// Result is the scripted answer to a RUN.
type Result struct {
	Fail     *Failure // fail the RUN
	Fields   []string
	Rows     [][]interface{}
	RunMeta  map[string]interface{}
	Summary  map[string]interface{}
	FailPull *Failure // fail while streaming, after the rows
}

// Act is an out-of-band action after a reply (or instead of it).
type Act struct {
	Raw    []byte // bytes sent verbatim after the reply messages
	Close  string // half, full, rst
	Stall  bool   // stop sending for ever (reading goes on)
	Before bool   // perform Close/Stall before sending anything
}

// Violation is something the driver did that the monitor forbids.
type Violation struct {
	Kind   string // framing, malformed, illegal, handshake
	Detail string
	Conn   int
}

// Server is the fake server.
type Server struct {
	Version   int
	Handshake []byte // reply to the handshake (default: the version)
	User      string
	Pass      string
	CheckAuth bool
	TLS       *tls.Config
	InitMeta  map[string]interface{} // of the answer to INIT and HELLO, if not the usual
	Host      string                 // IP address to listen on
	WantPort  int                    // port to listen on, if it is free

	ChunkLimit int // largest chunk the driver may send (0: 65535)

	// scripting; all may be nil. Called from connection goroutines.
	OnConn func(c *Conn)
	Run    func(c *Conn, m *Msg) *Result
	Fail   func(c *Conn, m *Msg) *Failure // fail any message legal in the state
	Hook   func(c *Conn, m *Msg, replies []interface{}) ([]interface{}, *Act)
	// NoLog drops message bodies from the log (for long runs).
	NoLog bool

	ln    net.Listener
	Addr  string
	Port  int
	mu    sync.Mutex
	conns []*Conn
	viol  []Violation
	stmts []*Stmt
	txs   []*Tx
	nmsg  int64
	maxOp int
	open  int
	maxEs int
	done  bool
	refus bool
	wg    sync.WaitGroup
}

// Wire controls faults and shape of the bytes of one connection.
type Wire struct {
	KillTx  int64 // -1: never; otherwise kill after sending this many bytes
	KillRx  int64
	StallTx int64
	StallRx int64
	Mode    string // how to kill: half, full, rst
	Hold    bool   // a stall ends with Free, after which everything held back follows
	Rng     *rand.Rand
	Chunk   func(n int) []int // sizes of the chunks for an n byte message
	Seg     func() int        // size of the next TCP write
	Pause   time.Duration     // between segments
	Width   bool              // random legal PackStream widths
}

// Conn is one accepted connection.
type Conn struct {
	S     *Server
	ID    int
	Wire  Wire
	Opens int64 // logical time of accept

	raw    *net.TCPConn
	nc     net.Conn
	br     *bufio.Reader
	mu     sync.Mutex
	state  State
	tx     *Tx
	ending *Tx // versions 1 and 2: a COMMIT or ROLLBACK was accepted, its result not yet fetched
	res    *Result
	msgs   []*Msg
	nmsgs  int
	Hand   []byte
	First  byte
	Auth   map[string]interface{}
	Agent  string
	TLSOK  bool
	CN     []string // client certificate names

	tx8, rx8    int64
	stepping    bool // a request is being handled
	killed      bool
	stalled     bool
	release     chan struct{}
	PeerClosed  chan struct{} // the driver closed its side (EOF or reset seen)
	Goodbye     bool
	ended       chan struct{}
	serverClose bool
	User        interface{} // for scripts
}

var nextIP = rand.New(rand.NewSource(time.Now().UnixNano() ^ int64(os.Getpid())<<32)).Uint32()

// FreshIP returns a loopback address that nothing else uses, so that nobody who still dials a port that was
// given up, in this process or another, reaches someone else's server there.
func FreshIP() string {
	n := atomic.AddUint32(&nextIP, 1)
	return fmt.Sprintf("127.%d.%d.%d", 1+n/64000%250, n/250%256, 1+n%250)
}

// Start listens on a free port of Host (default: a fresh address, or 127.0.0.1 for TLS, which certificates name).
func (s *Server) Start() *Server {
	if s.Host == "" {
		if s.Host = "127.0.0.1"; s.TLS == nil {
			s.Host = FreshIP()
		}
	}
	if s.WantPort != 0 && s.StartOn(net.JoinHostPort(s.Host, strconv.Itoa(s.WantPort))) == nil {
		return s
	}
	if err := s.StartOn(net.JoinHostPort(s.Host, "0")); err != nil {
		panic(err)
	}
	return s
}

// StartOn listens on the given address.
func (s *Server) StartOn(addr string) error {
	ln, err := net.Listen("tcp", addr)
	if err != nil {
		return err
	}
	s.ln = ln
	s.Addr = ln.Addr().String()
	s.Port = ln.Addr().(*net.TCPAddr).Port
	s.wg.Add(1)
	go s.accept(ln)
	return nil
}

func (s *Server) accept(ln net.Listener) {
	defer s.wg.Done()
	for {
		nc, err := ln.Accept()
		if err != nil {
			return
		}
		c := &Conn{S: s, raw: nc.(*net.TCPConn), nc: nc, state: Connected, Opens: Tick(),
			Wire:    Wire{KillTx: -1, KillRx: -1, StallTx: -1, StallRx: -1, Mode: "half"},
			release: make(chan struct{}), PeerClosed: make(chan struct{}), ended: make(chan struct{})}
		s.mu.Lock()
		if s.done {
			s.mu.Unlock()
			nc.Close()
			return
		}
		c.ID = len(s.conns)
		s.conns = append(s.conns, c)
		s.open++
		if s.open > s.maxOp {
			s.maxOp = s.open
		}
		es := 0
		for _, o := range s.conns {
			if !o.serverClose && o.established() {
				es++
			}
		}
		if es > s.maxEs {
			s.maxEs = es
		}
		s.mu.Unlock()
		if s.OnConn != nil {
			s.OnConn(c)
		}
		s.wg.Add(1)
		go c.serve()
	}
}

// Stop closes the listener and every connection and waits for the goroutines.
func (s *Server) Stop() {
	s.mu.Lock()
	s.done = true
	cs := append([]*Conn{}, s.conns...)
	s.mu.Unlock()
	s.ln.Close()
	for _, c := range cs {
		c.Free()
		c.raw.Close()
	}
	s.wg.Wait()
}

// StopListening refuses further connections (existing ones go on).
func (s *Server) StopListening() { s.ln.Close() }

// Resume listens again on the same port.
func (s *Server) Resume() error {
	var err error
	for i := 0; i < 200; i++ {
		var ln net.Listener
		ln, err = net.Listen("tcp", s.Addr)
		if err == nil {
			s.ln = ln
			s.wg.Add(1)
			go s.accept(ln)
			return nil
		}
		time.Sleep(10 * time.Millisecond)
	}
	return err
}

// Conns returns the accepted connections.
func (s *Server) Conns() []*Conn {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Conn{}, s.conns...)
}

// NConns counts accepted connections.
func (s *Server) NConns() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.conns) }

// Open counts connections not yet closed by either side; MaxOpen is the high-water mark.
func (s *Server) Open() int { s.mu.Lock(); defer s.mu.Unlock(); return s.open }

// MaxOpen is the largest number of simultaneously open connections seen.
func (s *Server) MaxOpen() int { s.mu.Lock(); defer s.mu.Unlock(); return s.maxOp }

// MaxEst is the largest number of connections that neither side had closed when one was accepted. It is read
// from the kernel, so unlike MaxOpen it does not depend on when this process looks at them.
func (s *Server) MaxEst() int { s.mu.Lock(); defer s.mu.Unlock(); return s.maxEs }

// established asks the kernel whether the connection is open in both directions.
func (c *Conn) established() bool {
	rc, err := c.raw.SyscallConn()
	if err != nil {
		return false
	}
	open := false
	rc.Control(func(fd uintptr) {
		var info [256]byte
		n := uint32(len(info))
		_, _, e := syscall.Syscall6(syscall.SYS_GETSOCKOPT, fd, syscall.IPPROTO_TCP, syscall.TCP_INFO, uintptr(unsafe.Pointer(&info[0])), uintptr(unsafe.Pointer(&n)), 0)
		open = e == 0 && info[0] == 1
	})
	return open
}

// ResetMaxOpen restarts the high-water mark.
func (s *Server) ResetMaxOpen() { s.mu.Lock(); s.maxOp = s.open; s.mu.Unlock() }

// Violations returns what the monitor saw, optionally only some kinds.
func (s *Server) Violations(kinds ...string) []Violation {
	s.mu.Lock()
	defer s.mu.Unlock()
	var r []Violation
	for _, v := range s.viol {
		if len(kinds) == 0 {
			r = append(r, v)
		}
		for _, k := range kinds {
			if k == v.Kind {
				r = append(r, v)
			}
		}
	}
	return r
}

// Stmts returns every statement accepted, in order.
func (s *Server) Stmts() []*Stmt {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Stmt{}, s.stmts...)
}

// Txs returns copies of every transaction, in order.
func (s *Server) Txs() []Tx {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := make([]Tx, len(s.txs))
	for i, t := range s.txs {
		r[i] = *t
	}
	return r
}

// NMsgs counts messages received on all connections.
func (s *Server) NMsgs() int64 { return atomic.LoadInt64(&s.nmsg) }

func (s *Server) violate(c *Conn, kind, f string, a ...interface{}) {
	s.mu.Lock()
	s.viol = append(s.viol, Violation{kind, fmt.Sprintf(f, a...), c.ID})
	s.mu.Unlock()
}

// WaitReleased waits until the driver has closed its side of every accepted connection (bounded); it
// returns the connections still held.
func (s *Server) WaitReleased(limit time.Duration) []*Conn {
	dl := time.Now().Add(limit)
	for {
		var held []*Conn
		for _, c := range s.Conns() {
			select {
			case <-c.PeerClosed:
			default:
				held = append(held, c)
			}
		}
		if len(held) == 0 || time.Now().After(dl) {
			return held
		}
		time.Sleep(time.Millisecond)
	}
}

// ---- connection ----

// State returns the session state.
func (c *Conn) State() State { c.mu.Lock(); defer c.mu.Unlock(); return c.state }

// InTx tells whether a transaction is open on the session.
func (c *Conn) InTx() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.tx != nil }

// Msgs returns the messages received so far.
func (c *Conn) Msgs() []*Msg { c.mu.Lock(); defer c.mu.Unlock(); return append([]*Msg{}, c.msgs...) }

// Asked tells whether the connection ran a query.
func (c *Conn) Asked(query string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, m := range c.msgs {
		if m.Query == query {
			return true
		}
	}
	return false
}

// Sent and Received count bytes.
func (c *Conn) Sent() int64     { return atomic.LoadInt64(&c.tx8) }
func (c *Conn) Received() int64 { return atomic.LoadInt64(&c.rx8) }

// IsPeerClosed tells whether the driver closed its side.
func (c *Conn) IsPeerClosed() bool {
	select {
	case <-c.PeerClosed:
		return true
	default:
		return false
	}
}

// Killed tells whether the server ended or killed the connection.
func (c *Conn) Killed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.killed }

// Farewell is what a server says in mode "farewell" before it closes.
var Farewell = &Failure{Code: "Neo.TransientError.General.DatabaseUnavailable", Message: "the connection was idle for too long"}

// Kill closes the connection from the server side now.
func (c *Conn) Kill(mode string) { c.kill(mode) }

// Free releases a stalled connection.
func (c *Conn) Free() {
	c.mu.Lock()
	defer c.mu.Unlock()
	select {
	case <-c.release:
	default:
		close(c.release)
	}
}

func (c *Conn) kill(mode string) {
	c.mu.Lock()
	if c.killed {
		c.mu.Unlock()
		return
	}
	c.killed = true
	if !c.stepping { // a request under way sees the transaction it began in
		c.endTx("lost")
	}
	nc, idle := c.nc, !c.stepping
	c.mu.Unlock()
	c.S.markClosed(c)
	switch mode {
	case "farewell":
		if idle && nc != nil {
			nc.SetWriteDeadline(time.Now().Add(time.Second))
			b := pack.Marshal(Farewell.Msg())
			nc.Write(append(append([]byte{0, byte(len(b))}, b...), 0, 0))
		}
		c.raw.Close()
	case "rst":
		c.raw.SetLinger(0)
		c.raw.Close()
	case "full":
		c.raw.Close()
	default:
		if t, ok := nc.(*tls.Conn); ok {
			t.CloseWrite()
		}
		c.raw.CloseWrite()
	}
}

func (s *Server) markClosed(c *Conn) {
	s.mu.Lock()
	if !c.serverClose {
		c.serverClose = true
		s.open--
	}
	s.mu.Unlock()
}

// caller holds c.mu
func (c *Conn) endTx(how string) {
	if c.tx != nil {
		c.S.mu.Lock()
		c.tx.End = how
		c.tx.EndT = Tick()
		c.S.mu.Unlock()
		c.tx = nil
	}
}

// ArmTx and ArmRx cut a quiet connection once that many bytes in all were sent or received.
func (c *Conn) ArmTx(at int64) { atomic.StoreInt64(&c.Wire.KillTx, at) }
func (c *Conn) ArmRx(at int64) {
	atomic.StoreInt64(&c.Wire.KillRx, at)
	if at <= atomic.LoadInt64(&c.rx8) {
		c.kill(c.Wire.Mode)
	}
}

// ArmStall stalls a quiet connection once that many bytes in all were sent or received.
func (c *Conn) ArmStall(tx, rx int64) {
	if tx >= 0 {
		atomic.StoreInt64(&c.Wire.StallTx, tx)
	}
	if rx >= 0 {
		atomic.StoreInt64(&c.Wire.StallRx, rx)
	}
}

// Replied tells whether every reply produced so far was sent completely.
func (c *Conn) Replied() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, m := range c.msgs {
		if m.TxEnd > c.Sent() {
			return false
		}
	}
	return true
}

type rdr struct{ c *Conn }

func (r rdr) Read(p []byte) (int, error) {
	c := r.c
	w := &c.Wire
	rx := atomic.LoadInt64(&c.rx8)
	stallRx := atomic.LoadInt64(&w.StallRx)
	if stallRx >= 0 && rx >= stallRx {
		c.stall()
		<-c.release
		if !w.Hold {
			return 0, io.EOF
		}
		c.unstall()
		stallRx = -1
	}
	if killRx := atomic.LoadInt64(&w.KillRx); killRx >= 0 {
		if rx >= killRx {
			c.kill(w.Mode)
			// keep draining below to see the driver close (half), otherwise the read fails
		} else if int64(len(p)) > killRx-rx {
			p = p[:killRx-rx]
		}
	}
	if stallRx >= 0 && rx < stallRx && int64(len(p)) > stallRx-rx {
		p = p[:stallRx-rx]
	}
	n, err := c.nc.Read(p)
	atomic.AddInt64(&c.rx8, int64(n))
	if killRx := atomic.LoadInt64(&w.KillRx); killRx >= 0 && rx+int64(n) >= killRx {
		c.kill(w.Mode)
	}
	return n, err
}

func (c *Conn) serve() {
	defer c.S.wg.Done()
	defer close(c.ended)
	defer func() {
		c.mu.Lock()
		c.endTx("lost") // before anyone waiting for the end of the connection looks
		c.S.markClosed(c)
		select {
		case <-c.PeerClosed:
		default:
			close(c.PeerClosed)
		}
		c.mu.Unlock()
		c.raw.Close()
	}()
	c.raw.SetNoDelay(true)
	peek := bufio.NewReaderSize(c.raw, 1)
	b, err := peek.Peek(1)
	if err != nil {
		return
	}
	c.mu.Lock()
	c.First = b[0]
	c.mu.Unlock()
	pc := &peekConn{c.raw, b, peek}
	if c.S.TLS != nil {
		if b[0] != 0x16 {
			c.S.violate(c, "handshake", "first byte %#x sent to a TLS port: the conversation is in clear", b[0])
		}
		t := tls.Server(pc, c.S.TLS)
		c.mu.Lock()
		c.nc = t
		c.mu.Unlock()
		if err := t.Handshake(); err != nil {
			return
		}
		c.mu.Lock()
		c.TLSOK = true
		for _, pcert := range t.ConnectionState().PeerCertificates {
			c.CN = append(c.CN, pcert.Subject.CommonName)
		}
		c.mu.Unlock()
	} else {
		c.mu.Lock()
		c.nc = pc
		c.mu.Unlock()
	}
	c.br = bufio.NewReaderSize(rdr{c}, 1<<16)
	hand := make([]byte, 20)
	n, err := io.ReadFull(c.br, hand)
	c.mu.Lock()
	c.Hand = hand[:n]
	c.mu.Unlock()
	if err != nil {
		c.drain()
		return
	}
	if want := "6060b01700000004000000030000000200000001"; hex.EncodeToString(hand) != want {
		c.S.violate(c, "handshake", "handshake %x, want %s", hand, want)
	}
	rep := c.S.Handshake
	if rep == nil {
		rep = []byte{0, 0, 0, byte(c.S.Version)}
	}
	if !c.send(rep) || c.S.Version == 0 {
		c.drain()
		return
	}
	for {
		m, err := c.read()
		if err != nil {
			if err != errGone {
				c.S.violate(c, "framing", "%v", err)
				c.kill("half")
				c.drain()
			}
			return
		}
		atomic.AddInt64(&c.S.nmsg, 1)
		c.mu.Lock()
		dead := c.killed
		c.mu.Unlock()
		if dead {
			c.drain()
			return
		}
		if !c.handle(m) {
			c.drain()
			return
		}
	}
}

// drain reads until the driver closes.
func (c *Conn) drain() {
	buf := make([]byte, 4096)
	for {
		if _, err := c.nc.Read(buf); err != nil {
			return
		}
	}
}

type peekConn struct {
	*net.TCPConn
	b  []byte
	br *bufio.Reader
}

func (p *peekConn) Read(b []byte) (int, error) {
	if p.br.Buffered() > 0 {
		return p.br.Read(b)
	}
	return p.TCPConn.Read(b)
}

var errGone = fmt.Errorf("gone")

func (c *Conn) read() (*Msg, error) {
	m := &Msg{}
	var data []byte
	for {
		var h [2]byte
		n, err := io.ReadFull(c.br, h[:])
		if err != nil {
			if n == 0 && len(data) == 0 {
				return nil, errGone
			}
			return nil, errGone // cut mid-message: the driver closed or the wire was cut
		}
		size := int(h[0])<<8 | int(h[1])
		if size == 0 {
			if len(m.Chunks) == 0 {
				return nil, fmt.Errorf("end marker without a chunk before it")
			}
			break
		}
		lim := c.S.ChunkLimit
		if lim > 0 && size > lim {
			c.S.violate(c, "framing", "chunk of %d bytes, limit %d", size, lim)
		}
		m.Chunks = append(m.Chunks, size)
		off := len(data)
		data = append(data, make([]byte, size)...)
		if _, err := io.ReadFull(c.br, data[off:]); err != nil {
			return nil, errGone
		}
	}
	m.Bytes = data
	m.T = Tick()
	m.RxEnd = atomic.LoadInt64(&c.rx8) - int64(c.br.Buffered())
	v, err := pack.Unmarshal(data)
	if err != nil {
		return nil, fmt.Errorf("message is not one PackStream value: %v (%s)", err, head(data))
	}
	st, ok := v.(pack.Struct)
	if !ok {
		return nil, fmt.Errorf("message is a %T, not a structure", v)
	}
	m.Raw = st
	return m, nil
}

func head(b []byte) string {
	if len(b) > 64 {
		return fmt.Sprintf("%x... (%d bytes)", b[:64], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// send writes bytes subject to the wire faults; false if the connection is no longer usable for sending.
func (c *Conn) send(b []byte) bool {
	w := &c.Wire
	for len(b) > 0 {
		c.mu.Lock()
		dead := c.killed || c.stalled
		c.mu.Unlock()
		if dead {
			return false
		}
		sent := atomic.LoadInt64(&c.tx8)
		n := len(b)
		if w.Seg != nil {
			if k := w.Seg(); k > 0 && k < n {
				n = k
			}
		}
		kill, stall := false, false
		stallTx := atomic.LoadInt64(&w.StallTx)
		if killTx := atomic.LoadInt64(&w.KillTx); killTx >= 0 {
			if sent >= killTx {
				c.kill(w.Mode)
				return false
			}
			if int64(n) >= killTx-sent {
				n = int(killTx - sent)
				kill = true
			}
		}
		if stallTx >= 0 {
			if sent >= stallTx {
				c.stall()
				if w.Hold {
					<-c.release
					c.unstall()
					continue
				}
				return false
			}
			if int64(n) >= stallTx-sent {
				n = int(stallTx - sent)
				stall = true
				kill = false
			}
		}
		// counted before they can be seen, so that whoever saw them finds them counted
		atomic.AddInt64(&c.tx8, int64(n))
		k, err := c.nc.Write(b[:n])
		if k < n {
			atomic.AddInt64(&c.tx8, int64(k-n))
		}
		if err != nil {
			return false
		}
		b = b[n:]
		if kill {
			c.kill(w.Mode)
			return false
		}
		if stall && !w.Hold {
			c.stall()
			return false
		}
		if len(b) > 0 && w.Pause > 0 {
			time.Sleep(w.Pause)
		}
	}
	return true
}

func (c *Conn) stall() {
	c.mu.Lock()
	c.stalled = true
	c.mu.Unlock()
}

// unstall ends a stall for good.
func (c *Conn) unstall() {
	atomic.StoreInt64(&c.Wire.StallTx, -1)
	atomic.StoreInt64(&c.Wire.StallRx, -1)
	c.mu.Lock()
	c.stalled = false
	c.mu.Unlock()
}

// Stalled tells whether the server stopped sending on this connection.
func (c *Conn) Stalled() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.stalled }

// SendRaw sends bytes out of turn (from a script).
func (c *Conn) SendRaw(b []byte) bool { return c.send(b) }

// Frame frames one message payload with the connection's chunk policy.
func (c *Conn) Frame(p []byte) []byte {
	var sizes []int
	if c.Wire.Chunk != nil {
		sizes = c.Wire.Chunk(len(p))
	} else {
		for n := len(p); n > 0; n -= 65535 {
			k := n
			if k > 65535 {
				k = 65535
			}
			sizes = append(sizes, k)
		}
	}
	var b bytes.Buffer
	for _, k := range sizes {
		b.WriteByte(byte(k >> 8))
		b.WriteByte(byte(k))
		b.Write(p[:k])
		p = p[k:]
	}
	b.Write([]byte{0, 0})
	return b.Bytes()
}

func (c *Conn) encode(v interface{}) []byte {
	if r, ok := v.(pack.Raw); ok {
		return r
	}
	if c.Wire.Width && c.Wire.Rng != nil {
		return pack.MarshalW(v, c.Wire.Rng)
	}
	return pack.Marshal(v)
}

func (c *Conn) illegal(m *Msg, f string, a ...interface{}) {
	c.S.violate(c, "illegal", "conn %d v%d message %d %s in %s: %s", c.ID, c.S.Version, m.Seq, m.Name, m.Before, fmt.Sprintf(f, a...))
}

func isMap(v interface{}) (map[string]interface{}, bool) {
	m, ok := v.(map[string]interface{})
	return m, ok
}

// classify names the message and checks its fields for the version.
func (c *Conn) classify(m *Msg) bool {
	v := c.S.Version
	f := m.Raw.Fields
	want := -1
	switch m.Raw.Sig {
	case 0x01:
		m.Name, want = "INIT", 2
		if v >= 3 {
			m.Name, want = "HELLO", 1
		}
	case 0x02:
		m.Name, want = "GOODBYE", 0
		if v < 3 {
			want = -1
		}
	case 0x0E:
		m.Name, want = "ACK_FAILURE", 0
		if v >= 3 {
			want = -1
		}
	case 0x0F:
		m.Name, want = "RESET", 0
	case 0x10:
		m.Name, want = "RUN", 2
		if v >= 3 {
			want = 3
		}
	case 0x11:
		m.Name, want = "BEGIN", 1
		if v < 3 {
			want = -1
		}
	case 0x12:
		m.Name, want = "COMMIT", 0
		if v < 3 {
			want = -1
		}
	case 0x13:
		m.Name, want = "ROLLBACK", 0
		if v < 3 {
			want = -1
		}
	case 0x2F:
		m.Name, want = "DISCARD", 0
		if v >= 4 {
			want = 1
		}
	case 0x3F:
		m.Name, want = "PULL", 0
		if v >= 4 {
			want = 1
		}
	default:
		m.Name = fmt.Sprintf("SIG_%#x", m.Raw.Sig)
	}
	if want < 0 {
		c.illegal(m, "no such message in this version")
		return false
	}
	if len(f) != want {
		c.illegal(m, "%d fields, want %d", len(f), want)
		return false
	}
	bad := func(x string) bool { c.illegal(m, "%s: %v", x, trunc(f)); return false }
	switch m.Name {
	case "INIT":
		a, ok := f[0].(string)
		t, ok2 := isMap(f[1])
		if !ok || !ok2 || a == "" {
			return bad("bad INIT fields")
		}
		c.setAuth(a, t)
		return c.authLegal(m, t)
	case "HELLO":
		t, ok := isMap(f[0])
		if !ok {
			return bad("bad HELLO field")
		}
		a, ok := t["user_agent"].(string)
		if !ok || a == "" {
			return bad("HELLO without user_agent")
		}
		c.setAuth(a, t)
		return c.authLegal(m, t)
	case "RUN":
		q, ok := f[0].(string)
		p, ok2 := isMap(f[1])
		if !ok || !ok2 {
			return bad("bad RUN fields")
		}
		c.mu.Lock() // monitors may be looking at the messages
		m.Query, m.Params = q, p
		c.mu.Unlock()
		if v >= 3 {
			e, ok := isMap(f[2])
			if !ok {
				return bad("bad RUN extra")
			}
			m.Extra = e
			return c.extraLegal(m, e)
		}
	case "BEGIN":
		e, ok := isMap(f[0])
		if !ok {
			return bad("bad BEGIN extra")
		}
		m.Extra = e
		return c.extraLegal(m, e)
	case "PULL", "DISCARD":
		if v >= 4 {
			e, ok := isMap(f[0])
			if !ok {
				return bad("bad extra")
			}
			m.Extra = e
			n, ok := e["n"].(int64)
			if !ok || n == 0 || n < -1 {
				return bad("bad n")
			}
			if q, has := e["qid"]; has {
				if _, ok := q.(int64); !ok {
					return bad("bad qid")
				}
			}
			for k := range e {
				if k != "n" && k != "qid" {
					return bad("unknown key " + k)
				}
			}
		}
	}
	return true
}

func trunc(v interface{}) string {
	s := fmt.Sprintf("%v", v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func (c *Conn) setAuth(agent string, t map[string]interface{}) {
	c.mu.Lock()
	c.Agent, c.Auth = agent, t
	c.mu.Unlock()
}

// AuthSeen returns the authentication token received (nil: none).
func (c *Conn) AuthSeen() map[string]interface{} { c.mu.Lock(); defer c.mu.Unlock(); return c.Auth }

func (c *Conn) authLegal(m *Msg, t map[string]interface{}) bool {
	s, ok := t["scheme"].(string)
	if !ok {
		c.illegal(m, "authentication token without scheme: %v", keys(t))
		return false
	}
	if s == "basic" {
		_, a := t["principal"].(string)
		_, b := t["credentials"].(string)
		if !a || !b {
			c.illegal(m, "basic token without principal and credentials: %v", keys(t))
			return false
		}
	}
	return true
}

func keys(m map[string]interface{}) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	return r
}

func (c *Conn) extraLegal(m *Msg, e map[string]interface{}) bool {
	for k, v := range e {
		ok := false
		switch k {
		case "bookmarks":
			_, ok = v.([]interface{})
		case "tx_timeout":
			_, ok = v.(int64)
		case "tx_metadata":
			_, ok = isMap(v)
		case "mode":
			s, is := v.(string)
			ok = is && (s == "r" || s == "w")
		case "db":
			_, ok = v.(string)
			ok = ok && c.S.Version >= 4
		}
		if !ok {
			c.illegal(m, "extra %q = %v not allowed in version %d", k, v, c.S.Version)
			return false
		}
	}
	return true
}

// handle runs the state machine for one message; false ends the conversation.
func (c *Conn) handle(m *Msg) bool {
	c.mu.Lock()
	m.Seq = c.nmsgs
	c.nmsgs++
	if c.S.NoLog {
		m.Bytes = nil
	}
	c.msgs = append(c.msgs, m)
	if c.S.NoLog && len(c.msgs) > 64 {
		c.msgs = append([]*Msg{}, c.msgs[len(c.msgs)-32:]...)
	}
	m.Before = c.state
	if c.killed {
		c.mu.Unlock()
		return false
	}
	c.stepping = true
	c.mu.Unlock()

	var replies []interface{}
	act := &Act{}
	if !c.classify(m) {
		replies = []interface{}{(&Failure{Code: "Neo.ClientError.Request.Invalid", Message: "bad message " + m.Name}).Msg()}
		c.setState(Defunct)
		act.Close = "half"
	} else {
		replies, act = c.step(m)
	}
	c.mu.Lock()
	c.stepping = false
	if c.killed {
		c.endTx("lost")
	}
	c.mu.Unlock()
	if c.S.Hook != nil {
		r2, a2 := c.S.Hook(c, m, replies)
		replies = r2
		if a2 != nil {
			act = a2
		}
	}
	c.mu.Lock()
	m.After = c.state
	c.mu.Unlock()
	if act.Before {
		return c.finish(act)
	}
	var out []byte
	for _, r := range replies {
		out = append(out, c.Frame(c.encode(r))...)
	}
	out = append(out, act.Raw...)
	c.mu.Lock()
	m.TxStart = c.Sent()
	m.TxEnd = m.TxStart + int64(len(out))
	m.Reply = names(replies)
	c.mu.Unlock()
	if len(out) > 0 {
		c.send(out)
	}
	return c.finish(act)
}

func names(r []interface{}) string {
	s := ""
	rec := 0
	for _, x := range r {
		if st, ok := x.(pack.Struct); ok {
			switch st.Sig {
			case SigRecord:
				rec++
			case SigSuccess:
				s += " SUCCESS"
			case SigIgnored:
				s += " IGNORED"
			case SigFailure:
				s += " FAILURE"
			default:
				s += fmt.Sprintf(" %#x", st.Sig)
			}
		} else {
			s += " raw"
		}
	}
	if rec > 0 {
		s = fmt.Sprintf(" %d RECORD", rec) + s
	}
	return s
}

func (c *Conn) finish(a *Act) bool {
	if a.Close != "" {
		c.kill(a.Close)
		return false
	}
	if a.Stall {
		c.stall()
	}
	return true
}

func (c *Conn) setState(s State) { c.mu.Lock(); c.state = s; c.mu.Unlock() }

func (c *Conn) fail(m *Msg, f *Failure) []interface{} {
	c.mu.Lock()
	c.state = Failed
	c.res = nil
	c.endTx("failed")
	if t := c.ending; t != nil && m.Name == "PULL" { // the COMMIT or ROLLBACK of version 1 or 2 failed after all
		c.S.mu.Lock()
		t.End = "failed"
		c.S.mu.Unlock()
	}
	c.ending = nil
	c.mu.Unlock()
	if m.Stmt != nil {
		m.Stmt.Failed = true
	}
	return []interface{}{f.Msg()}
}

func (c *Conn) step(m *Msg) ([]interface{}, *Act) {
	v := c.S.Version
	none := &Act{}
	st := m.Before
	protoErr := func(f string, a ...interface{}) ([]interface{}, *Act) {
		c.illegal(m, f, a...)
		c.setState(Defunct)
		c.mu.Lock()
		c.endTx("failed")
		c.mu.Unlock()
		return []interface{}{(&Failure{Code: "Neo.ClientError.Request.Invalid", Message: fmt.Sprintf("message %s in state %s", m.Name, st)}).Msg()}, &Act{Close: "half"}
	}
	if st == Defunct {
		// after a failed authentication or reset: a RESET is tolerated, nothing else is
		if m.Name == "RESET" || m.Name == "GOODBYE" || m.Name == "ACK_FAILURE" {
			return nil, &Act{Close: "half"}
		}
		return protoErr("session is defunct")
	}
	if m.Name == "INIT" || m.Name == "HELLO" {
		if st != Connected {
			return protoErr("already initialised")
		}
		if c.S.Fail != nil {
			if f := c.S.Fail(c, m); f != nil {
				c.setState(Defunct)
				return []interface{}{f.Msg()}, none
			}
		}
		if c.S.CheckAuth {
			t := c.AuthSeen()
			if t["principal"] != c.S.User || t["credentials"] != c.S.Pass || t["scheme"] != "basic" {
				c.setState(Defunct)
				return []interface{}{(&Failure{Code: "Neo.ClientError.Security.Unauthorized", Message: "The client is unauthorized due to authentication failure."}).Msg()}, none
			}
		}
		c.setState(Ready)
		if c.S.InitMeta != nil {
			return []interface{}{Success(c.S.InitMeta)}, none
		}
		return []interface{}{Success(map[string]interface{}{"server": fmt.Sprintf("Neo4j/fake-%d", v), "connection_id": fmt.Sprintf("bolt-%d", c.ID)})}, none
	}
	if m.Name == "GOODBYE" {
		c.mu.Lock()
		c.Goodbye = true
		c.state = Defunct
		c.endTx("lost")
		c.mu.Unlock()
		return nil, &Act{Close: "half"}
	}
	if st == Connected {
		return protoErr("not initialised")
	}
	if m.Name == "RESET" {
		if c.S.Fail != nil {
			if f := c.S.Fail(c, m); f != nil {
				c.setState(Defunct)
				c.mu.Lock()
				c.endTx("failed")
				c.mu.Unlock()
				return []interface{}{f.Msg()}, none
			}
		}
		c.mu.Lock()
		c.state = Ready
		c.res, c.ending = nil, nil
		c.endTx("reset")
		c.mu.Unlock()
		return []interface{}{Success(c.said("RESET"))}, none
	}
	if m.Name == "ACK_FAILURE" {
		if st != Failed {
			return protoErr("nothing to acknowledge")
		}
		c.setState(Ready)
		return []interface{}{Success(nil)}, none
	}
	if st == Failed {
		return []interface{}{Ignored()}, none
	}
	// ordinary requests
	inTx := c.InTx()
	name := m.Name
	if v < 3 && name == "RUN" {
		switch m.Query {
		case "BEGIN", "COMMIT", "ROLLBACK":
			name = m.Query
		}
	}
	switch name {
	case "BEGIN":
		if st != Ready && !(v < 3 && st == Ready) {
			return protoErr("a transaction or result is open")
		}
		if v < 3 && inTx {
			return protoErr("a transaction is already open")
		}
		if c.S.Fail != nil {
			if f := c.S.Fail(c, m); f != nil {
				return c.fail(m, f), none
			}
		}
		c.mu.Lock()
		c.S.mu.Lock()
		c.tx = &Tx{ID: len(c.S.txs) + 1, Conn: c, Begin: Tick(), Extra: m.Extra}
		c.S.txs = append(c.S.txs, c.tx)
		c.S.mu.Unlock()
		m.TxID = c.tx.ID
		if v >= 3 {
			c.state = TxReady
		} else {
			c.state = Streaming
			c.res = &Result{}
		}
		c.mu.Unlock()
		return []interface{}{Success(c.said(name))}, none
	case "COMMIT", "ROLLBACK":
		okState := st == TxReady || (v < 3 && st == Ready && inTx)
		if !okState {
			return protoErr("no open transaction, or a result is open")
		}
		c.mu.Lock()
		m.TxID = c.tx.ID
		c.mu.Unlock()
		if c.S.Fail != nil {
			if f := c.S.Fail(c, m); f != nil {
				return c.fail(m, f), none
			}
		}
		c.mu.Lock()
		ended := c.tx
		if name == "COMMIT" {
			c.endTx("commit")
		} else {
			c.endTx("rollback")
		}
		if v >= 3 {
			c.state = Ready
		} else {
			c.state = Streaming
			c.res = &Result{}
			c.ending = ended
		}
		c.mu.Unlock()
		return []interface{}{Success(c.said(name))}, none
	case "RUN":
		if st != Ready && st != TxReady {
			return protoErr("a result is open")
		}
		if inTx && v >= 3 {
			for k := range m.Extra {
				return protoErr("transaction-level setting %q on a statement inside a transaction", k)
			}
		}
		c.mu.Lock()
		tx := c.tx
		c.mu.Unlock()
		c.S.mu.Lock()
		s := &Stmt{ID: len(c.S.stmts) + 1, T: m.T, Conn: c, Query: m.Query, Params: m.Params, Extra: m.Extra, Tx: tx}
		c.S.stmts = append(c.S.stmts, s)
		if tx != nil {
			tx.Stmts = append(tx.Stmts, s)
			m.TxID = tx.ID
		}
		c.S.mu.Unlock()
		m.Stmt = s
		if c.S.Fail != nil {
			if f := c.S.Fail(c, m); f != nil {
				return c.fail(m, f), none
			}
		}
		res := &Result{Fields: []string{"q"}, Rows: [][]interface{}{{m.Query}}}
		if c.S.Run != nil {
			if r := c.S.Run(c, m); r != nil {
				res = r
			}
		}
		if res.Fail != nil {
			return c.fail(m, res.Fail), none
		}
		c.mu.Lock()
		c.res = res
		if st == Ready {
			c.state = Streaming
		} else {
			c.state = TxStreaming
		}
		c.mu.Unlock()
		meta := map[string]interface{}{"fields": res.Fields}
		if res.Fields == nil {
			meta["fields"] = []string{}
		}
		for k, x := range res.RunMeta {
			meta[k] = x
		}
		return []interface{}{Success(meta)}, none
	case "PULL", "DISCARD":
		if st != Streaming && st != TxStreaming {
			return protoErr("no result is open")
		}
		if c.S.Fail != nil {
			if f := c.S.Fail(c, m); f != nil {
				return c.fail(m, f), none
			}
		}
		c.mu.Lock()
		res := c.res
		c.res = nil
		if res.FailPull == nil {
			c.ending = nil
		}
		if st == Streaming {
			c.state = Ready
		} else {
			c.state = TxReady
		}
		c.mu.Unlock()
		var out []interface{}
		if name == "PULL" {
			for _, r := range res.Rows {
				out = append(out, Record(r))
			}
		}
		if res.FailPull != nil {
			return append(out, c.fail(m, res.FailPull)...), none
		}
		return append(out, Success(res.Summary)), none
	}
	return protoErr("unexpected")
}

// Log renders the conversation of a connection for a replay file.
func (c *Conn) Log() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	r := []string{fmt.Sprintf("conn %d v%d opened at t=%d, %d bytes in, %d out, killed=%v stalled=%v state=%s", c.ID, c.S.Version, c.Opens, c.rx8, c.tx8, c.killed, c.stalled, c.state)}
	ms := c.msgs
	if len(ms) > 60 {
		ms = ms[len(ms)-60:]
	}
	for _, m := range ms {
		r = append(r, fmt.Sprintf("  t=%d #%d %s %s -> %s :%s  chunks=%v %s", m.T, m.Seq, m.Name, m.Before, m.After, m.Reply, short(m.Chunks), trunc(m.Raw.Fields)))
	}
	return r
}

func short(c []int) interface{} {
	if len(c) > 6 {
		return fmt.Sprintf("%v.. (%d)", c[:6], len(c))
	}
	return c
}

// Log renders all conversations.
func (s *Server) Log() []string {
	var r []string
	for _, c := range s.Conns() {
		r = append(r, c.Log()...)
		if len(r) > 400 {
			break
		}
	}
	for _, v := range s.Violations() {
		r = append(r, "monitor: "+v.Kind+": "+v.Detail)
	}
	return r
}
