package main

// A small scripted Bolt server for the demonstrations.

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"sync"
	"time"
)

type Struct struct {
	Sig    byte
	Fields []interface{}
}

type (
	M = map[string]interface{}
	L = []interface{}
)

func size(tiny, s8, s16, s32 byte, n int) []byte {
	switch {
	case n < 16 && tiny != 0:
		return []byte{tiny | byte(n)}
	case n < 1<<8:
		return []byte{s8, byte(n)}
	case n < 1<<16:
		return []byte{s16, byte(n >> 8), byte(n)}
	}
	return []byte{s32, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

// Pack encodes a value as PackStream.
func Pack(v interface{}) []byte {
	switch x := v.(type) {
	case nil:
		return []byte{0xc0}
	case bool:
		if x {
			return []byte{0xc3}
		}
		return []byte{0xc2}
	case int:
		return Pack(int64(x))
	case int64:
		if x >= -16 && x < 128 {
			return []byte{byte(x)}
		}
		b := make([]byte, 9)
		b[0] = 0xcb
		binary.BigEndian.PutUint64(b[1:], uint64(x))
		return b
	case float64:
		b := make([]byte, 9)
		b[0] = 0xc1
		binary.BigEndian.PutUint64(b[1:], math.Float64bits(x))
		return b
	case string:
		return append(size(0x80, 0xd0, 0xd1, 0xd2, len(x)), x...)
	case []interface{}:
		b := size(0x90, 0xd4, 0xd5, 0xd6, len(x))
		for _, e := range x {
			b = append(b, Pack(e)...)
		}
		return b
	case map[string]interface{}:
		b := size(0xa0, 0xd8, 0xd9, 0xda, len(x))
		for k, e := range x {
			b = append(append(b, Pack(k)...), Pack(e)...)
		}
		return b
	case Struct:
		b := []byte{0xb0 | byte(len(x.Fields)), x.Sig}
		for _, e := range x.Fields {
			b = append(b, Pack(e)...)
		}
		return b
	}
	panic(fmt.Sprintf("can not pack %T", v))
}

type unpacker struct{ b []byte }

func (u *unpacker) take(n int) []byte {
	if n > len(u.b) {
		panic("request ends early")
	}
	r := u.b[:n]
	u.b = u.b[n:]
	return r
}

func (u *unpacker) num(n int) int {
	r := 0
	for _, b := range u.take(n) {
		r = r<<8 | int(b)
	}
	return r
}

func (u *unpacker) str(n int) string { return string(u.take(n)) }

func (u *unpacker) list(n int) L {
	r := L{}
	for ; n > 0; n-- {
		r = append(r, u.value())
	}
	return r
}

func (u *unpacker) dict(n int) M {
	r := M{}
	for ; n > 0; n-- {
		k := u.value().(string)
		r[k] = u.value()
	}
	return r
}

func (u *unpacker) value() interface{} {
	m := u.take(1)[0]
	switch {
	case m < 0x80 || m >= 0xf0:
		return int64(int8(m))
	case m < 0x90:
		return u.str(int(m & 15))
	case m < 0xa0:
		return u.list(int(m & 15))
	case m < 0xb0:
		return u.dict(int(m & 15))
	case m < 0xc0:
		s := Struct{Sig: u.take(1)[0]}
		s.Fields = u.list(int(m & 15))
		return s
	}
	switch m {
	case 0xc0:
		return nil
	case 0xc1:
		return math.Float64frombits(binary.BigEndian.Uint64(u.take(8)))
	case 0xc2, 0xc3:
		return m == 0xc3
	case 0xc8:
		return int64(int8(u.num(1)))
	case 0xc9:
		return int64(int16(u.num(2)))
	case 0xca:
		return int64(int32(u.num(4)))
	case 0xcb:
		return int64(binary.BigEndian.Uint64(u.take(8)))
	case 0xd0, 0xd1, 0xd2:
		return u.str(u.num(1 << (m - 0xd0)))
	case 0xd4, 0xd5, 0xd6:
		return u.list(u.num(1 << (m - 0xd4)))
	case 0xd8, 0xd9, 0xda:
		return u.dict(u.num(1 << (m - 0xd8)))
	}
	panic(fmt.Sprintf("marker %#x", m))
}

const (
	INIT     = 0x01
	GOODBYE  = 0x02
	RESET    = 0x0f
	RUN      = 0x10
	BEGIN    = 0x11
	COMMIT   = 0x12
	ROLLBACK = 0x13
	PULL     = 0x3f
)

// Server answers every request with success unless On does something else.
type Server struct {
	Version int
	Hand    []byte // the answer to the handshake, if not the version
	// On answers a request itself if it returns true.
	On     func(c *Conn, m Struct) bool
	OnOpen func(c *Conn)
	Rows   func(query string) []L

	ln    net.Listener
	mu    sync.Mutex
	conns []*Conn
}

type Conn struct {
	net.Conn
	S        *Server
	N        int
	Query    string
	Log      []Struct
	InTx     bool
	Failed   bool
	Chunk    int // how long the chunks of answers are
	Split    int // how many bytes go into a packet
	Gone     chan struct{}
	results  []string
	loglock  sync.Mutex
	Messages int
}

func Listen(s *Server) *Server {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	Check(err)
	s.ln = ln
	go func() {
		for {
			nc, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			c := &Conn{Conn: nc, S: s, N: len(s.conns), Chunk: 65535, Gone: make(chan struct{})}
			s.conns = append(s.conns, c)
			s.mu.Unlock()
			go c.serve()
		}
	}()
	return s
}

func (s *Server) Addr() string { return s.ln.Addr().String() }

func (s *Server) URL(more string) string { return "bolt://u:p@" + s.Addr() + "?timeout=20" + more }

func (s *Server) Conns() []*Conn {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Conn{}, s.conns...)
}

// Open counts the connections that the driver has not closed.
func (s *Server) Open() int {
	n := 0
	for _, c := range s.Conns() {
		select {
		case <-c.Gone:
		default:
			n++
		}
	}
	return n
}

func (c *Conn) serve() {
	defer close(c.Gone)
	defer c.Close()
	if c.S.OnOpen != nil {
		c.S.OnOpen(c)
	}
	hand := make([]byte, 20)
	if _, err := io.ReadFull(c, hand); err != nil {
		return
	}
	answer := c.S.Hand
	if answer == nil {
		answer = []byte{0, 0, 0, byte(c.S.Version)}
	}
	c.Raw(answer)
	for {
		var msg []byte
		for {
			head := make([]byte, 2)
			if _, err := io.ReadFull(c, head); err != nil {
				return
			}
			n := int(binary.BigEndian.Uint16(head))
			if n == 0 {
				break
			}
			chunk := make([]byte, n)
			if _, err := io.ReadFull(c, chunk); err != nil {
				return
			}
			msg = append(msg, chunk...)
		}
		m := (&unpacker{msg}).value().(Struct)
		c.loglock.Lock()
		c.Log = append(c.Log, m)
		c.loglock.Unlock()
		if c.S.On != nil && c.S.On(c, m) {
			continue
		}
		c.Default(m)
	}
}

// Requests returns the requests so far.
func (c *Conn) Requests() []Struct {
	c.loglock.Lock()
	defer c.loglock.Unlock()
	return append([]Struct{}, c.Log...)
}

// Default answers a request the way a healthy server does.
func (c *Conn) Default(m Struct) {
	if c.Failed && m.Sig != RESET {
		c.Ignored()
		return
	}
	switch m.Sig {
	case RESET:
		c.Failed, c.InTx, c.results = false, false, nil
	case RUN:
		c.Query = m.Fields[0].(string)
		switch c.Query {
		case "BEGIN":
			c.InTx = true
		case "COMMIT", "ROLLBACK":
			c.InTx = false
		}
		c.results = append(c.results, c.Query)
	case BEGIN:
		c.InTx = true
	case COMMIT, ROLLBACK:
		c.InTx = false
	case PULL:
		if len(c.results) > 0 {
			q := c.results[0]
			c.results = c.results[1:]
			if c.S.Rows != nil {
				for _, r := range c.S.Rows(q) {
					c.Record(r...)
				}
			}
		}
	case GOODBYE:
		return
	}
	c.Success(M{})
}

func (c *Conn) Success(m M)                  { c.Send(Struct{0x70, L{m}}) }
func (c *Conn) Ignored()                     { c.Send(Struct{0x7e, L{}}) }
func (c *Conn) Record(fields ...interface{}) { c.Send(Struct{0x71, L{L(fields)}}) }
func (c *Conn) Failure(code, msg string) {
	c.Failed = true
	c.Send(Struct{0x7f, L{M{"code": code, "message": msg}}})
}

func (c *Conn) Send(v interface{}) { c.Raw(c.Frame(Pack(v))) }

func (c *Conn) Frame(b []byte) []byte {
	var out []byte
	for len(b) > 0 {
		n := c.Chunk
		if n > len(b) {
			n = len(b)
		}
		out = append(append(out, byte(n>>8), byte(n)), b[:n]...)
		b = b[n:]
	}
	return append(out, 0, 0)
}

func (c *Conn) Raw(b []byte) {
	for c.Split > 0 && len(b) > c.Split {
		c.Write(b[:c.Split])
		b = b[c.Split:]
		time.Sleep(3 * time.Millisecond)
	}
	c.Write(b)
}

// Check ends the demonstration if something it needs does not work.
func Check(err error) {
	if err != nil {
		Fail("unexpected error: %v", err)
	}
}

// Fail ends the demonstration with what went wrong.
func Fail(f string, a ...interface{}) {
	fmt.Printf("FAIL: "+f+"\n", a...)
	os.Exit(1)
}

// Eventually waits up to ten seconds for something.
func Eventually(f func() bool) bool {
	for i := 0; i < 1000; i++ {
		if f() {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return f()
}

// Within runs f and tells whether it came back in time.
func Within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}
