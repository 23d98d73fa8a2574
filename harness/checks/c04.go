package checks

import (
	"fmt"
	"math/rand"
	"time"

	"github.com/mindstand/go-bolt/connection"

	"verif/core"
	"verif/fake"
)

func init() {
	core.Register(&core.Check{ID: "C04", MinEvals: 40,
		Rule: "A case is one connection with one configured chunk size whose requests have payload lengths around every multiple of that size (and refused requests in between), or one set of responses replayed under many chunkings and TCP segmentations. The server's framing monitor sees every chunk header. Distinct: distinct (version, chunk size, payload length relative to the chunk size, number of chunks) for requests; (version, chunking, segmentation) for responses.",
		Run:  runC04})
}

func runC04(t *core.T) {
	var jobs []core.Job
	add := func(name string, fn func(c *core.C)) { jobs = append(jobs, core.Job{Name: name, Fn: fn}) }
	sizes := []int{0, 1, 2, 3, 5, 16, 64, 127, 128, 255, 256, 257, 1000, 4096, 32767, 32768, 65534, 65535}
	for v := 1; v <= 4; v++ {
		v := v
		for _, k := range sizes {
			k := k
			add(fmt.Sprintf("request/v%d/chunk%d", v, k), func(c *core.C) { c04Request(c, v, k) })
		}
		for i := 0; i < t.Pick(16, 120); i++ {
			i := i
			add(fmt.Sprintf("response/v%d/%d", v, i), func(c *core.C) { c04Response(c, v, i) })
		}
	}
	t.Parallel(8, jobs)
}

func c04Request(c *core.C, v, chunk int) {
	s := &fake.Server{Version: v}
	s.Fail = func(fc *fake.Conn, m *fake.Msg) *fake.Failure {
		if m.Query == "FAIL" {
			return &fake.Failure{Code: "Neo.ClientError.Statement.SyntaxError", Message: "no"}
		}
		return nil
	}
	c.Serve(s)
	conn := dial(c, s)
	conn.SetChunkSize(uint16(chunk))
	lim := chunk
	if chunk > 0 {
		s.ChunkLimit = chunk
	} else {
		lim = 65535
	}
	// the overhead of a RUN message around its text is constant for a length class; probe it
	base := func(n int) int {
		if _, err := conn.Exec(strOf(c.R, n), nil); err != nil {
			c.Fail("error", "request with a %d byte text, chunk size %d failed: %s; monitor: %v", n, chunk, errText(err), s.Violations("framing"))
			c.Abort()
		}
		ms := s.Conns()[0].Msgs()
		for i := len(ms) - 1; i >= 0; i-- {
			if ms[i].Name == "RUN" {
				return len(ms[i].Bytes) - n
			}
		}
		panic("no RUN")
	}
	mults := []int{1, 2, 3, 4, 7}
	if c.T.Thorough {
		mults = append(mults, 5, 6, 8, 16, 33)
	}
	seen := map[int]bool{}
	try := func(n int) {
		if n < 0 || n > 300000 || seen[n] {
			return
		}
		seen[n] = true
		text := strOf(c.R, n)
		before := len(s.Conns()[0].Msgs())
		if n%3 == 0 { // a refused request in between must not leave anything behind
			if _, err := conn.Exec(text, connection.QueryParams{"a": 1, "bad": make(chan int)}); err == nil {
				c.Fail("accepted", "a channel was accepted as parameter")
				c.Abort()
			}
		}
		_, err := conn.Exec(text, nil)
		if err != nil {
			c.Fail("error", "request with a %d byte text, chunk size %d failed: %s; monitor: %v", n, chunk, errText(err), s.Violations("framing"))
			c.Abort()
		}
		ms := s.Conns()[0].Msgs()[before:]
		if len(ms) != 2 || ms[0].Name != "RUN" || ms[1].Name != "PULL" || ms[0].Query != text {
			c.Fail("messages", "one query with a %d byte text, chunk size %d arrived as %d messages", n, chunk, len(ms))
			c.Abort()
		}
		for _, m := range ms {
			for _, k := range m.Chunks {
				if k > lim {
					c.Fail("chunk too long", "chunk of %d bytes with chunk size %d", k, chunk)
				}
			}
			c.Event("messages", 1)
			c.Event("chunks", int64(len(m.Chunks)))
		}
		c.Distinct("v%d chunk=%d len mod=%d chunks=%d", v, chunk, len(ms[0].Bytes)%lim, len(ms[0].Chunks))
		if n%11 == 0 {
			c.Sample("chunk size %d, payload %d bytes, chunks %v", chunk, len(ms[0].Bytes), ms[0].Chunks[:min(len(ms[0].Chunks), 8)])
		}
	}
	for _, n := range []int{0, 1, 10, 15, 16, 255, 256} {
		try(n)
	}
	for _, mlt := range mults {
		target := mlt * lim
		if target > 280000 {
			break
		}
		over := base(max(0, target-10))
		for d := -3; d <= 3; d++ {
			try(target - over + d)
		}
	}
	if chunk > 256 {
		try(70000)
		try(200000)
	}
	// transactions and other requests are framed too
	tx, err := conn.Begin()
	if err == nil {
		_, err = tx.Exec("RETURN 1", connection.QueryParams{"x": strOf(c.R, 3*min(lim, 1000)+1)})
	}
	if err == nil {
		err = tx.Commit()
	}
	if err == nil {
		tx, err = conn.Begin()
	}
	if err == nil {
		err = tx.Rollback()
	}
	// and so is what follows a failure
	if err == nil {
		if _, ferr := conn.Exec("FAIL", nil); ferr == nil {
			c.Fail("error", "a failing statement returned no error")
		}
		_, err = conn.Exec("RETURN 1", nil)
	}
	if err != nil {
		c.Fail("error", "transaction with chunk size %d failed: %s; monitor %v", chunk, errText(err), s.Violations("framing"))
	}
	conn.Close()
	if held := s.WaitReleased(slow); len(held) > 0 {
		c.Fail("release", "the connection was not closed")
	}
	kinds := map[string]bool{}
	for _, m := range s.Conns()[0].Msgs()[1:] { // the first one was sent before the size was set
		kinds[m.Name] = true
		for _, k := range m.Chunks {
			if k > lim {
				c.Fail("chunk too long", "%s has a chunk of %d bytes with chunk size %d", m.Name, k, chunk)
			}
		}
	}
	c.Distinct("v%d chunk=%d kinds of messages: %d", v, chunk, len(kinds))
	for _, f := range s.Violations("framing", "malformed") {
		c.Fail("framing", "chunk size %d: %v", chunk, f.Detail)
	}
}

func c04Response(c *core.C, v, i int) {
	sc := &script{}
	s := &fake.Server{Version: v, Run: sc.run}
	var mk func(n int) []int
	name := ""
	switch i % 8 {
	case 0:
		name, mk = "1-byte chunks", func(n int) []int {
			r := make([]int, n)
			for i := range r {
				r[i] = 1
			}
			return r
		}
	case 1:
		name, mk = "maximal chunks", nil
	case 2:
		name = "first byte apart"
		mk = func(n int) []int {
			r := []int{1}
			for n--; n > 0; n -= 65535 {
				r = append(r, min(n, 65535))
			}
			return r
		}
	case 3:
		name = "last byte apart"
		mk = func(n int) []int {
			var r []int
			for n--; n > 0; n -= 32768 {
				r = append(r, min(n, 32768))
			}
			return append(r, 1)
		}
	case 4:
		name = "256-byte chunks"
		mk = func(n int) []int {
			var r []int
			for ; n > 0; n -= 256 {
				r = append(r, min(n, 256))
			}
			return r
		}
	default:
		name, mk = "random chunks", randChunk(c.R)
	}
	seg := []string{"whole", "1 byte", "small", "random"}[(i/8)%4]
	if i >= 16 || i%5 == 0 {
		seg = []string{"1 byte", "small", "random"}[i%3]
	}
	rr := rand.New(rand.NewSource(c.R.Int63()))
	s.OnConn = func(fc *fake.Conn) {
		fc.Wire.Chunk = mk
		k := 0
		switch seg {
		case "1 byte":
			fc.Wire.Seg = func() int {
				k++
				if k < 400 {
					return 1
				}
				return 0
			}
		case "small":
			fc.Wire.Seg = func() int {
				k++
				if k < 400 {
					return 1 + rr.Intn(6)
				}
				return 0
			}
		case "random":
			fc.Wire.Seg = func() int {
				k++
				if k < 200 {
					return 1 + rr.Intn(2000)
				}
				return 0
			}
		}
		fc.Wire.Pause = 60 * time.Microsecond
	}
	c.Serve(s)
	conn := dial(c, s)
	c.Distinct("v%d %s, %s segments", v, name, seg)
	for k, n := range []int{0, 1, 100, 253, 254, 255, 256, 257, 3000, 65530, 65535, 65536, 140000} {
		if name == "1-byte chunks" && n > 70000 {
			continue
		}
		res := &fake.Result{Fields: []string{"s"}, Summary: obj{"k": int64(k)}}
		for j := 0; j <= k%3; j++ {
			res.Rows = append(res.Rows, arr{strOf(c.R, n), int64(j)})
		}
		sc.push(res)
		expectResult(c, conn, "RETURN", res, fmt.Sprintf("%s, %s segments, %d byte string", name, seg, n))
		c.Event("responses", 1)
	}
}
