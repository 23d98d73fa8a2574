package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"
	"github.com/mindstand/go-bolt/protocol"
	"github.com/mindstand/go-bolt/structures"
	"github.com/mindstand/go-bolt/structures/messages"

	"verif/core"
	"verif/pack"
)

func init() {
	core.Register(&core.Check{ID: "C31", MinEvals: 20, CaseMax: 240 * time.Second,
		Rule: "Random values, some that cannot be represented among them, are encoded one after another by the codec of each protocol version with chunk sizes of 0-65535: the bytes written are cut into chunks and decoded by an independent implementation, and by the codec itself, and compared. Writers fail after any number of bytes, and recover: the error must come out, what was written must be the beginning of the message, and the next message must be whole. Streams of values framed in random chunks are decoded through readers that return single bytes, nothing, the last bytes together with the end, or fail at any position: the values must be those of the stream, no byte after a message may be taken, and the reader's error must come out. Request messages of every version are built with random arguments and compared with the protocol's definition; encoders and decoders run at once. Distinct and non-trivial: distinct (kind, version, value shape or position).",
		Run: func(t *core.T) {
			var jobs []core.Job
			add := func(name string, n int, fn func(c *core.C, v int)) {
				for v := 1; v <= 4; v++ {
					for i := 0; i < n; i++ {
						v := v
						jobs = append(jobs, core.Job{Name: fmt.Sprintf("%s/v%d/%d", name, v, i), Fn: func(c *core.C) { fn(c, v) }})
					}
				}
			}
			add("encode", t.Pick(30, 1200), c31Encode)
			add("writers", t.Pick(15, 600), c31Writers)
			add("decode", t.Pick(30, 1200), c31Decode)
			add("cut", t.Pick(15, 600), c31Cut)
			add("messages", t.Pick(3, 60), c31Messages)
			add("structures", t.Pick(4, 100), c31Structures)
			add("at once", t.Pick(3, 60), c31AtOnce)
			t.Parallel(8, jobs)
		}})
}

func codec(c *core.C, v int) protocol.IBoltProtocol {
	p, n, err := protocol.GetProtocol([]byte{0, 0, 0, byte(v)})
	c.Must(err)
	if n != v {
		c.Fail("version", "the codec of version %d calls itself version %d", v, n)
	}
	return p
}

// splitFrame takes a message off a stream of chunks.
func splitFrame(b []byte, most int) (payload, rest []byte, err error) {
	for {
		if len(b) < 2 {
			return nil, nil, fmt.Errorf("the stream ends in a message")
		}
		n := int(binary.BigEndian.Uint16(b))
		b = b[2:]
		if n == 0 {
			if payload == nil {
				return nil, nil, fmt.Errorf("an empty message")
			}
			return payload, b, nil
		}
		if n > most {
			return nil, nil, fmt.Errorf("a chunk of %d bytes with a chunk size of %d", n, most)
		}
		if len(b) < n {
			return nil, nil, fmt.Errorf("a chunk of %d bytes in a stream of %d", n, len(b))
		}
		payload = append(payload, b[:n]...)
		b = b[n:]
	}
}

// c31Value returns a value to encode and what must be decoded.
func c31Value(r *rand.Rand, big bool) (interface{}, interface{}) {
	if big && r.Intn(8) == 0 {
		s := strOf(r, []int{255, 256, 65534, 65535, 65536, 131070, 200000}[r.Intn(7)])
		return s, s
	}
	budget := 1 + r.Intn(60)
	if r.Intn(3) == 0 {
		return genParamMap(r, 4, &budget)
	}
	return genParam(r, 4, &budget)
}

func c31Chunk(r *rand.Rand) (give uint16, most int) {
	switch r.Intn(5) {
	case 0:
		return 0, 65535
	case 1:
		return 65535, 65535
	case 2:
		return 1, 1
	case 3:
		n := 1 + r.Intn(40)
		return uint16(n), n
	}
	n := 1 + r.Intn(65535)
	return uint16(n), n
}

var unrep = func() (l []interface{}) {
	for _, x := range unrepresentable() {
		l = append(l, x)
	}
	return
}()

func c31Encode(c *core.C, v int) {
	p := codec(c, v)
	give, most := c31Chunk(c.R)
	var w bytes.Buffer
	e := p.NewEncoder(&w, give)
	var vals, wants []interface{}
	for i := 1 + c.R.Intn(6); i > 0; i-- {
		if c.R.Intn(4) == 0 {
			bad := unrep[c.R.Intn(len(unrep))]
			if c.R.Intn(2) == 0 {
				bad = arr{"before", bad, "after"}
			}
			before := w.Len()
			if err := e.Encode(bad); isNilErr(err) {
				c.Fail("not refused", "v%d: a value that can not be represented was encoded: %T", v, bad)
				return
			}
			if w.Len() != before {
				c.Fail("partly written", "v%d: %d bytes were written of a value that can not be represented: %T", v, w.Len()-before, bad)
				return
			}
			c.Event("refused", 1)
			continue
		}
		x, want := c31Value(c.R, true)
		if err := e.Encode(x); !isNilErr(err) {
			c.Fail("encode", "v%d: encoding %s failed: %s", v, short(x), errText(err))
			return
		}
		vals, wants = append(vals, x), append(wants, want)
	}
	rest := w.Bytes()
	for i, want := range wants {
		var payload []byte
		var err error
		all := rest
		if payload, rest, err = splitFrame(rest, most); err != nil {
			c.Fail("framing", "v%d, chunk size %d, message %d of %d: %v", v, give, i+1, len(wants), err)
			return
		}
		got, err := pack.Unmarshal(payload)
		if err != nil || !pack.Equal(got, want) {
			c.Fail("encoded", "v%d: %s was encoded as %s: %s %v", v, short(vals[i]), hexHead(payload), short(got), err)
			return
		}
		back, err := p.Unmarshal(all[:len(all)-len(rest)])
		if !isNilErr(err) {
			c.Fail("round trip", "v%d: what was encoded for %s can not be decoded: %s", v, short(vals[i]), errText(err))
			return
		}
		if d := same(back, lift(want)); d != "" {
			c.Fail("round trip", "v%d: encoding and decoding %s changed it at %s", v, short(vals[i]), d)
			return
		}
		m, err := p.Marshal(vals[i])
		if !isNilErr(err) {
			c.Fail("marshal", "v%d: marshalling %s failed: %s", v, short(vals[i]), errText(err))
			return
		}
		mp, mrest, err := splitFrame(m, 65535)
		if err != nil || len(mrest) > 0 {
			c.Fail("marshal", "v%d: marshalling %s gave %s: %v", v, short(vals[i]), hexHead(m), err)
			return
		}
		mg, err := pack.Unmarshal(mp)
		if err != nil || !pack.Equal(mg, want) {
			c.Fail("marshal", "v%d: marshalling %s gave %s: %s %v", v, short(vals[i]), hexHead(m), short(mg), err)
			return
		}
		c.Event("values encoded", 1)
		c.Distinct("encode v%d %s", v, shapeOf(lift(want)))
	}
	if len(rest) > 0 {
		c.Fail("framing", "v%d: %d bytes were written after the last message", v, len(rest))
	}
}

// flakyWriter takes a number of bytes and fails then; without a limit it takes all.
type flakyWriter struct {
	bytes.Buffer
	left int
	err  error
	hard bool // fails without taking the part that would fit
}

func (w *flakyWriter) Write(b []byte) (int, error) {
	if w.left < 0 || len(b) <= w.left {
		if w.left >= 0 {
			w.left -= len(b)
		}
		return w.Buffer.Write(b)
	}
	n := w.left
	if w.hard {
		n = 0
	}
	w.Buffer.Write(b[:n])
	w.left = 0
	return n, w.err
}

func c31Writers(c *core.C, v int) {
	p := codec(c, v)
	give, most := c31Chunk(c.R)
	x, want := c31Value(c.R, false)
	var ok bytes.Buffer
	if err := p.NewEncoder(&ok, give).Encode(x); !isNilErr(err) {
		c.Fail("encode", "v%d: encoding %s failed: %s", v, short(x), errText(err))
		return
	}
	step := ok.Len()/60 + 1
	for at := c.R.Intn(step); at < ok.Len() && !c.Failed(); at += step {
		w := &flakyWriter{left: at, err: errors.New("disk full %s"), hard: c.R.Intn(2) == 0}
		e := p.NewEncoder(w, give)
		err := e.Encode(x)
		if isNilErr(err) {
			c.Fail("writer's error lost", "v%d, chunk size %d: the writer failed after %d of %d bytes and Encode returned no error", v, give, at, ok.Len())
			return
		}
		if innermost(err) != w.err {
			c.Fail("writer's error lost", "v%d: the writer failed with %q and Encode with %s", v, w.err, errText(err))
			return
		}
		if _, isMap := x.(map[string]interface{}); !isMap && !bytes.HasPrefix(ok.Bytes(), w.Bytes()) && pack.Equal(want, want) && !hasMap(want) {
			c.Fail("written", "v%d: what was written until the writer failed is not the beginning of the message", v)
			return
		}
		// the writer works again
		w.Reset()
		w.left = -1
		y, wanty := c31Value(c.R, false)
		if err := e.Encode(y); !isNilErr(err) {
			c.Fail("encode", "v%d: encoding %s failed after the writer recovered: %s", v, short(y), errText(err))
			return
		}
		payload, rest, ferr := splitFrame(w.Bytes(), most)
		if ferr != nil || len(rest) > 0 {
			c.Fail("left over", "v%d, chunk size %d: after a failed write (at %d of %d) the next message is %s: %v, %d bytes follow", v, give, at, ok.Len(), hexHead(w.Bytes()), ferr, len(rest))
			return
		}
		got, derr := pack.Unmarshal(payload)
		if derr != nil || !pack.Equal(got, wanty) {
			c.Fail("left over", "v%d: after a failed write %s was encoded as %s: %v", v, short(y), short(got), derr)
			return
		}
		c.Event("writer failures", 1)
		c.Distinct("writer v%d chunk%d at %d", v, give, at)
	}
}

// hasMap: maps are not encoded in a fixed order.
func hasMap(v interface{}) bool {
	switch x := v.(type) {
	case obj:
		return len(x) > 0
	case arr:
		for _, y := range x {
			if hasMap(y) {
				return true
			}
		}
	}
	return false
}

// oddReader hands out a stream in a way that readers may.
type oddReader struct {
	b    []byte
	r    *rand.Rand
	kind string
	err  error // at the end
}

func (o *oddReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(o.b) == 0 {
		return 0, o.err
	}
	n := len(p)
	switch o.kind {
	case "single bytes":
		n = 1
	case "pieces":
		n = 1 + o.r.Intn(len(p))
	case "nothing at times":
		if o.r.Intn(3) == 0 {
			return 0, nil
		}
		n = 1 + o.r.Intn(len(p))
	}
	n = copy(p[:min(n, len(p))], o.b)
	o.b = o.b[n:]
	if o.kind == "end with data" && len(o.b) == 0 {
		return n, o.err
	}
	return n, nil
}

var readerKinds = []string{"all", "single bytes", "pieces", "nothing at times", "end with data"}

// c31Stream frames values in random chunks.
func c31Stream(r *rand.Rand, n int, big bool) (stream []byte, vals []interface{}, ends []int) {
	for i := 0; i < n; i++ {
		budget := 1 + r.Intn(50)
		var x interface{} = randVal(r, 4, &budget)
		if big && r.Intn(10) == 0 {
			x = strOf(r, []int{65534, 65535, 65536, 131070, 200000}[r.Intn(5)])
		}
		p := pack.MarshalW(x, r)
		cut := randChunk(r)
		for _, k := range cut(len(p)) {
			for k > 0 && len(p) > 0 {
				m := min(k, 65535, len(p))
				stream = binary.BigEndian.AppendUint16(stream, uint16(m))
				stream = append(stream, p[:m]...)
				p, k = p[m:], k-m
			}
		}
		for len(p) > 0 {
			m := min(65535, len(p))
			stream = binary.BigEndian.AppendUint16(stream, uint16(m))
			stream = append(stream, p[:m]...)
			p = p[m:]
		}
		stream = append(stream, 0, 0)
		vals = append(vals, x)
		ends = append(ends, len(stream))
	}
	return
}

func c31Decode(c *core.C, v int) {
	p := codec(c, v)
	stream, vals, ends := c31Stream(c.R, 1+c.R.Intn(6), true)
	kind := readerKinds[c.R.Intn(len(readerKinds))]
	src := &oddReader{b: stream, r: c.R, kind: kind, err: io.EOF}
	d := p.NewDecoder(src)
	fresh := c.R.Intn(2) == 0
	for i, want := range vals {
		if fresh {
			d = p.NewDecoder(src)
		}
		got, err := d.Decode()
		if !isNilErr(err) {
			c.Fail("decode", "v%d, a reader that returns %s, message %d of %d: %s", v, kind, i+1, len(vals), errText(err))
			return
		}
		if diff := same(got, lift(want)); diff != "" {
			c.Fail("decoded", "v%d, a reader that returns %s, message %d of %d: wrong at %s", v, kind, i+1, len(vals), diff)
			return
		}
		if used := len(stream) - len(src.b); used != ends[i] {
			c.Fail("taken", "v%d, a reader that returns %s: decoding message %d took the reader to byte %d, its end is %d", v, kind, i+1, used, ends[i])
			return
		}
		c.Event("values decoded", 1)
		c.Distinct("decode v%d %s %s", v, kind, shapeOf(lift(want)))
	}
	if got, err := d.Decode(); isNilErr(err) {
		c.Fail("beyond the end", "v%d: decoding at the end of the stream returned %s", v, short(got))
	}
	if got, err := p.Unmarshal(stream[:ends[0]]); !isNilErr(err) {
		c.Fail("unmarshal", "v%d: %s", v, errText(err))
	} else if diff := same(got, lift(vals[0])); diff != "" {
		c.Fail("unmarshal", "v%d: wrong at %s", v, diff)
	}
}

func c31Cut(c *core.C, v int) {
	p := codec(c, v)
	stream, vals, _ := c31Stream(c.R, 1, false)
	step := len(stream)/60 + 1
	for at := c.R.Intn(step); at < len(stream) && !c.Failed(); at += step {
		kind := readerKinds[c.R.Intn(len(readerKinds))]
		end := []error{io.EOF, errors.New("cable cut 100%")}[c.R.Intn(2)]
		src := &oddReader{b: stream[:at], r: c.R, kind: kind, err: end}
		got, err := p.NewDecoder(src).Decode()
		if isNilErr(err) {
			c.Fail("cut accepted", "v%d: %d of the %d bytes of %s were decoded as %s", v, at, len(stream), short(vals[0]), short(got))
			return
		}
		if end != io.EOF && innermost(err) != end {
			c.Fail("reader's error lost", "v%d: the reader (%s) failed with %q after %d of %d bytes, and Decode with %s", v, kind, end, at, len(stream), errText(err))
			return
		}
		c.Event("streams cut", 1)
		c.Distinct("cut v%d %s at %d of %d", v, kind, at, len(stream))
	}
}

// c31Messages compares the messages of a version with the definition of the protocol.
func c31Messages(c *core.C, v int) {
	p := codec(c, v)
	st := func(sig byte, f ...interface{}) pack.Struct {
		if f == nil {
			f = []interface{}{}
		}
		return pack.Struct{Sig: sig, Fields: f}
	}
	check := func(what string, m structures.Structure, want pack.Struct) {
		if m == nil {
			c.Fail("message", "v%d: there is no %s", v, what)
			return
		}
		b, err := p.Marshal(m)
		if !isNilErr(err) {
			c.Fail("message", "v%d: encoding %s failed: %s", v, what, errText(err))
			return
		}
		payload, rest, err := splitFrame(b, 65535)
		var got interface{}
		if err == nil {
			got, err = pack.Unmarshal(payload)
		}
		if err != nil || len(rest) > 0 || !pack.Equal(got, want) {
			c.Fail("message", "v%d: %s is %s, want %s (%v)", v, what, short(got), short(want), err)
		}
		c.Event("messages", 1)
		c.Distinct("message v%d %s", v, what)
	}
	for i := 0; i < 30 && !c.Failed(); i++ {
		budget := 1 + c.R.Intn(30)
		params, wantParams := genParamMap(c.R, 3, &budget)
		pm, ok := params.(map[string]interface{})
		if !ok {
			continue
		}
		q, db, user, pw, realm := randStr(c.R), []string{"", "neo4j", randStr(c.R)}[c.R.Intn(3)], randStr(c.R), randStr(c.R), []string{"", randStr(c.R)}[c.R.Intn(2)]
		mode := bolt_mode.AccessMode(c.R.Intn(2))
		auto := c.R.Intn(2) == 0
		extra := obj{}
		if mode == bolt_mode.ReadMode {
			extra["mode"] = "r"
		}
		if db != "" {
			extra["db"] = db
		}
		run := st(0x10, q, wantParams)
		if v >= 3 {
			if auto {
				run = st(0x10, q, wantParams, extra)
			} else {
				run = st(0x10, q, wantParams, obj{})
			}
		}
		if v == 4 || db == "" {
			check("RUN", p.GetRunMessage(q, pm, db, mode, auto), run)
		}
		tok := obj{"scheme": "basic", "principal": user, "credentials": pw}
		gotTok := messages.BuildAuthTokenBasic(user, pw)
		switch c.R.Intn(3) {
		case 0:
			gotTok = messages.BuildAuthTokenBasicWithRealm(user, pw, realm)
			if realm != "" {
				tok["realm"] = realm
			}
		case 1:
			gotTok = messages.BuildAuthTokenKerberos(pw)
			tok = obj{"scheme": "kerberos", "principal": "", "credentials": pw}
		}
		if v < 3 {
			check("INIT", p.GetInitMessage("agent/1 "+q, gotTok), st(0x01, "agent/1 "+q, tok))
			check("BEGIN", p.GetTxBeginMessage("", mode), st(0x10, "BEGIN", obj{}))
			check("COMMIT", p.GetTxCommitMessage(), st(0x10, "COMMIT", obj{}))
			check("ROLLBACK", p.GetTxRollbackMessage(), st(0x10, "ROLLBACK", obj{}))
			if m, ok := p.GetCloseMessage(); ok || m != nil {
				c.Fail("message", "v%d has a message for closing: %T", v, m)
			}
		} else {
			tok["user_agent"] = "agent/1 " + q
			check("HELLO", p.GetInitMessage("agent/1 "+q, gotTok), st(0x01, tok))
			if v == 4 || db == "" {
				check("BEGIN", p.GetTxBeginMessage(db, mode), st(0x11, extra))
			}
			check("COMMIT", p.GetTxCommitMessage(), st(0x12))
			check("ROLLBACK", p.GetTxRollbackMessage(), st(0x13))
			m, ok := p.GetCloseMessage()
			if !ok {
				c.Fail("message", "v%d has no message for closing", v)
				return
			}
			check("GOODBYE", m, st(0x02))
			ms := c.R.Int63n(1 << 40)
			d := time.Duration(ms) * time.Millisecond
			meta := obj{}
			for k := c.R.Intn(3); k > 0; k-- {
				meta[randStr(c.R)] = randInt(c.R)
			}
			want := clone(extra).(obj)
			if ms > 0 {
				want["tx_timeout"] = ms
			}
			if len(meta) > 0 {
				want["tx_metadata"] = meta
			}
			check("BEGIN with settings", messages.NewBeginMessage(messages.BuildTxMetadataWithDatabase(&d, meta, db, mode, nil)), st(0x11, want))
			check("RUN with settings", messages.NewAutoCommitTxRunMessage(q, pm, d, meta, db, mode), st(0x10, q, wantParams, want))
		}
		check("RESET", messages.NewResetMessage(), st(0x0F))
		if v < 4 {
			check("PULL_ALL", p.GetPullAllMessage(), st(0x3F))
			check("DISCARD_ALL", p.GetDiscardAllMessage(), st(0x2F))
		} else {
			check("PULL", p.GetPullAllMessage(), st(0x3F, obj{"n": int64(-1)}))
			check("DISCARD of all", p.GetDiscardAllMessage(), st(0x2F, obj{"n": int64(-1)}))
			n, qid := randInt(c.R), randInt(c.R)
			want := obj{"n": n}
			if qid != -1 {
				want["qid"] = qid
			}
			check("PULL with numbers", messages.NewPullMessage(n, qid), st(0x3F, want))
			check("DISCARD with numbers", messages.NewDiscardMessage(n, qid), st(0x2F, want))
			want = obj{"n": int64(-1)}
			if qid != -1 {
				want["qid"] = qid
			}
			check("DISCARD of a query", p.GetDiscardMessage(qid), st(0x2F, want))
		}
		// responses, both ways
		meta := randMap(c.R, 2, &budget)
		for sig, m := range map[byte]structures.Structure{0x70: messages.NewSuccessMessage(pm), 0x7f: messages.NewFailureMessage(pm)} {
			check(fmt.Sprintf("response %x", sig), m, st(sig, wantParams))
			back, err := p.Unmarshal(frame(pack.Marshal(st(sig, meta))))
			if !isNilErr(err) {
				c.Fail("response", "v%d: response %x can not be decoded: %s", v, sig, errText(err))
				return
			}
			var in obj
			switch x := back.(type) {
			case messages.SuccessMessage:
				in = x.Metadata
			case messages.FailureMessage:
				in = x.Metadata
			}
			if d := same(in, liftMap(meta)); d != "" || back.(structures.Structure).Signature() != int(sig) {
				c.Fail("response", "v%d: response %x decoded as %T, wrong at %s", v, sig, back, d)
				return
			}
		}
	}
}

// c31Structures: what queries return can be encoded again, and is what it was; the accessors of responses say what
// they hold, whatever that is.
func c31Structures(c *core.C, v int) {
	p := codec(c, v)
	r := c.R
	for i := 0; i < 60 && !c.Failed(); i++ {
		b := 1 + r.Intn(40)
		var want interface{}
		switch r.Intn(5) {
		case 0:
			want = randNode(r, 2, &b)
		case 1:
			want = pack.Struct{Sig: 'R', Fields: arr{randInt(r), randInt(r), randInt(r), randStr(r), randMap(r, 2, &b)}}
		case 2:
			want = pack.Struct{Sig: 'r', Fields: arr{randInt(r), randStr(r), randMap(r, 2, &b)}}
		case 3:
			want = randPath(r, 1, &b)
		case 4:
			want = arr{randNode(r, 1, &b), obj{"p": randPath(r, 1, &b)}}
		}
		v0 := lift(want)
		data, err := p.Marshal(v0)
		if !isNilErr(err) {
			c.Fail("structure", "v%d: %s can not be encoded: %s", v, short(v0), errText(err))
			return
		}
		payload, rest, err := splitFrame(data, 65535)
		var got interface{}
		if err == nil {
			got, err = pack.Unmarshal(payload)
		}
		if err != nil || len(rest) > 0 || !pack.Equal(got, want) {
			c.Fail("structure", "v%d: %s was encoded as %s, want %s (%v)", v, short(v0), short(got), short(want), err)
			return
		}
		back, err := p.Unmarshal(data)
		if !isNilErr(err) {
			c.Fail("structure", "v%d: %s can not be decoded again: %s", v, short(v0), errText(err))
			return
		}
		if d := same(back, v0); d != "" {
			c.Fail("structure", "v%d: what was encoded and decoded is wrong at %s", v, d)
			return
		}
		if d := same(v0, lift(want)); d != "" {
			c.Fail("structure", "v%d: encoding changed the value at %s", v, d)
			return
		}
		c.Event("structures", 1)
		c.Distinct("v%d structure %T", v, v0)

		// accessors
		odd := func() interface{} {
			b := 8
			if r.Intn(2) == 0 {
				return randStr(r)
			}
			return lift(randVal(r, 1, &b))
		}
		meta := obj{}
		if r.Intn(4) > 0 {
			meta["code"] = odd()
		}
		if r.Intn(4) > 0 {
			meta["message"] = odd()
		}
		if r.Intn(8) == 0 {
			meta = nil
		}
		f := messages.NewFailureMessage(meta)
		for _, x := range []struct{ what, got string }{{"code", f.GetCode()}, {"message", f.GetMessage()}} {
			if s, ok := meta[x.what].(string); ok && (x.got != s || !strings.Contains(f.Error(), s)) {
				c.Fail("accessor", "the %s of a failure %s is %q, its text %q", x.what, short(meta), x.got, f.Error())
				return
			}
		}
		sm := obj{}
		if r.Intn(4) > 0 {
			sm["result_available_after"] = odd()
			if r.Intn(2) == 0 {
				sm["result_available_after"] = randInt(r)
			}
		}
		wantAfter := int64(-1)
		if n, ok := sm["result_available_after"].(int64); ok {
			wantAfter = n
		}
		if n := messages.NewSuccessMessage(sm).GetAvailableAfter(); n != wantAfter {
			c.Fail("accessor", "a result available %s is reported as available after %d", short(sm), n)
			return
		}
	}
	first, last := "result_available_after", "result_consumed_after"
	if v >= 3 {
		first, last = "t_first", "t_last"
	}
	if a, b := p.GetResultAvailableAfterKey(), p.GetResultConsumedAfterKey(); a != first || b != last {
		c.Fail("keys", "v%d: a server reports times as %q and %q, not as %q and %q", v, first, last, a, b)
	}
	params := connection.QueryParams{}
	for i := r.Intn(6); i > 0; i-- {
		params[randStr(r)] = i
	}
	keys := params.GetKeys()
	sort.Strings(keys)
	var wantKeys []string
	for k := range params {
		wantKeys = append(wantKeys, k)
	}
	sort.Strings(wantKeys)
	if fmt.Sprintf("%q", keys) != fmt.Sprintf("%q", wantKeys) || same(params.GetMap(), map[string]interface{}(params)) != "" {
		c.Fail("accessor", "the parameters %v have the keys %q and the values %v", params, keys, params.GetMap())
	}
	rows := connection.NeoRows{{int64(1), "x"}, {nil}}
	if fmt.Sprint(rows.Get2DSlice()) != fmt.Sprint([][]interface{}(rows)) {
		c.Fail("accessor", "the rows %v are returned as %v", rows, rows.Get2DSlice())
	}
}

// c31AtOnce has encoders and decoders work at the same time.
func c31AtOnce(c *core.C, v int) {
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		r := newRand(c.R.Int63())
		p := codec(c, 1+(v+g)%4)
		guard(c, &wg, func() {
			for i := 0; i < 60 && !c.Failed(); i++ {
				x, want := c31Value(r, false)
				b, err := p.Marshal(x)
				if !isNilErr(err) {
					c.Fail("marshal", "while others do as well: %s", errText(err))
					return
				}
				payload, _, err := splitFrame(b, 65535)
				if err != nil {
					c.Fail("framing", "while others encode as well: %v", err)
					return
				}
				if got, err := pack.Unmarshal(payload); err != nil || !pack.Equal(got, want) {
					c.Fail("encoded", "while others encode as well, %s became %s: %v", short(x), short(got), err)
					return
				}
				stream, vals, _ := c31Stream(r, 1, false)
				got, err := p.NewDecoder(&oddReader{b: stream, r: r, kind: readerKinds[r.Intn(len(readerKinds))], err: io.EOF}).Decode()
				if !isNilErr(err) {
					c.Fail("decode", "while others decode as well: %s", errText(err))
					return
				}
				if d := same(got, lift(vals[0])); d != "" {
					c.Fail("decoded", "while others decode as well: wrong at %s", d)
					return
				}
				c.Event("at once", 1)
			}
		})
	}
	wg.Wait()
	c.Distinct("at once %d", c.R.Int63())
}
