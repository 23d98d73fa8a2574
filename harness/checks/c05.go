package checks

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"runtime"

	"github.com/mindstand/go-bolt/connection"
	"github.com/mindstand/go-bolt/protocol"
	"github.com/mindstand/go-bolt/structures/messages"

	"verif/core"
	"verif/fake"
	"verif/pack"
)

func init() {
	core.Register(&core.Check{ID: "C05", MinEvals: 30, Mem: 12 << 30,
		Rule: "Hostile server bytes: valid messages mutated (bit flips, truncation, splices, size fields, types), grammar-generated messages with impossible sizes, wrong arity and wrongly typed fields, deep nesting, random bytes and broken framing, fed to the public decoders (allocation measured per input) and delivered at every stage of real connections. Oracle: error, or a value an independent decoder also obtains; no panic, no crash, allocation linear in the input. Distinct: distinct inputs by (stage, version, bytes).",
		Run:  runC05})
}

func runC05(t *core.T) {
	// serial: allocation is measured
	for v := 1; v <= 4; v++ {
		v := v
		for i := 0; i < t.Pick(6, 60); i++ {
			i := i
			t.Case(fmt.Sprintf("decode/v%d/%d", v, i), func(c *core.C) { c05Decode(c, v, i) })
		}
		t.Case(fmt.Sprintf("sizes/v%d", v), func(c *core.C) { c05Sizes(c, v) })
		t.Case(fmt.Sprintf("types/v%d", v), func(c *core.C) { c05Types(c, v) })
		t.Case(fmt.Sprintf("nested/v%d", v), func(c *core.C) { c05Nested(c, v) })
		t.Case(fmt.Sprintf("deep/v%d", v), func(c *core.C) { c05Deep(c, v) })
		t.Case(fmt.Sprintf("quadratic/v%d", v), func(c *core.C) { c05Quadratic(c, v) })
	}
	var jobs []core.Job
	for v := 1; v <= 4; v++ {
		v := v
		for _, stage := range []string{"handshake", "init", "run", "pull", "begin", "commit", "rollback", "reset"} {
			stage := stage
			for i := 0; i < t.Pick(2, 12); i++ {
				i := i
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("wire/v%d/%s/%d", v, stage, i), Fn: func(c *core.C) { c05Wire(c, v, stage) }})
			}
		}
	}
	t.Parallel(8, jobs)
}

func frame(p []byte) []byte {
	var b []byte
	for len(p) > 0 {
		n := min(len(p), 65535)
		b = binary.BigEndian.AppendUint16(b, uint16(n))
		b = append(b, p[:n]...)
		p = p[n:]
	}
	return append(b, 0, 0)
}

// looseDecode decodes the first value of a payload; judged=false where the property does not say what the
// value has to be (duplicate keys, structures only meaningful as messages, temporal and spatial values).
func looseDecode(p []byte, v int) (val interface{}, ok, judged bool) {
	val, rest, dup, err := pack.Prefix(p)
	if err != nil {
		return nil, false, true
	}
	_ = rest
	if dup {
		return val, true, false
	}
	return val, true, true
}

// wellTyped tells whether a value is one the driver must be able to return, and whether it is judged.
func wellTyped(x interface{}, v int) (ok, judged bool) {
	switch y := x.(type) {
	case arr:
		for _, e := range y {
			if o, j := wellTyped(e, v); !o || !j {
				return o, j
			}
		}
	case obj:
		for _, e := range y {
			if o, j := wellTyped(e, v); !o || !j {
				return o, j
			}
		}
	case pack.Bytes:
		return false, false // byte arrays are not among the supported types; refusing or returning them is fine
	case pack.Struct:
		f := y.Fields
		types := map[byte]string{'N': "ilm", 'R': "iiitm", 'r': "itm", 'P': "nrs", 'X': "iff", 'Y': "ifff", 'D': "i", 'T': "ii", 't': "i", 'd': "ii", 'F': "iii", 'f': "iit", 'E': "iiii"}
		want, known := types[y.Sig]
		if !known || (v == 1 && y.Sig != 'N' && y.Sig != 'R' && y.Sig != 'r' && y.Sig != 'P') {
			switch y.Sig {
			case 0x70, 0x71, 0x7E, 0x7F, 0x0F, 0x2F, 0x3F: // message signatures inside values: not judged
				return true, false
			}
			return false, true
		}
		if len(f) != len(want) {
			return false, true
		}
		for i, k := range want {
			good := false
			switch k {
			case 'i':
				_, good = f[i].(int64)
			case 'f':
				_, good = f[i].(float64)
			case 't':
				_, good = f[i].(string)
			case 'm':
				_, good = f[i].(obj)
			case 'l':
				var l arr
				if l, good = f[i].(arr); good {
					for _, e := range l {
						if _, s := e.(string); !s {
							good = false
						}
					}
				}
			case 'n', 'r', 's':
				var l arr
				if l, good = f[i].(arr); good {
					for _, e := range l {
						st, isS := e.(pack.Struct)
						_, isI := e.(int64)
						switch k {
						case 'n':
							good = good && isS && st.Sig == 'N'
						case 'r':
							good = good && isS && st.Sig == 'r'
						case 's':
							good = good && isI
						}
					}
				}
			}
			if !good {
				return false, true
			}
			if o, j := wellTyped(f[i], v); !o || !j {
				return o, j
			}
		}
		if y.Sig != 'N' && y.Sig != 'R' && y.Sig != 'r' && y.Sig != 'P' {
			return true, false // temporal and spatial: C03 judges the value
		}
	}
	return true, true
}

// judge compares what the decoder made of a payload with the independent decoder.
func judge(c *core.C, v int, payload []byte, got interface{}, err error, what string) {
	val, ok, judged := looseDecode(payload, v)
	if !isNilErr(err) {
		return
	}
	if !ok {
		c.Fail("accepted", "%s: bytes %s do not encode a value but were accepted as %s", what, hexHead(payload), short(got))
		return
	}
	if !judged {
		return
	}
	// messages at top level
	if st, is := val.(pack.Struct); is {
		switch st.Sig {
		case fake.SigSuccess, fake.SigFailure, fake.SigRecord:
			if len(st.Fields) != 1 {
				c.Fail("arity", "%s: a message with %d fields was accepted as %s", what, len(st.Fields), short(got))
				return
			}
			var inner interface{}
			switch m := got.(type) {
			case messages.SuccessMessage:
				inner = m.Metadata
			case messages.FailureMessage:
				inner = m.Metadata
			case messages.RecordMessage:
				inner = arr(m.Fields)
			default:
				c.Fail("type", "%s: signature %#x decoded as %T", what, st.Sig, got)
				return
			}
			o, j := wellTyped(st.Fields[0], v)
			if !o && j {
				c.Fail("accepted", "%s: an ill-typed message %s was accepted as %s", what, short(st), short(got))
			} else if o && j {
				if d := same(inner, lift(st.Fields[0])); d != "" {
					c.Fail("value", "%s: message decoded wrongly at %s", what, d)
				}
			}
			return
		case fake.SigIgnored, 0x0F, 0x2F, 0x3F:
			return
		}
	}
	o, j := wellTyped(val, v)
	if !j {
		return
	}
	if !o {
		c.Fail("accepted", "%s: ill-typed value %s was accepted as %s", what, short(val), short(got))
		return
	}
	if d := same(got, lift(val)); d != "" {
		c.Fail("value", "%s: %s decoded wrongly at %s", what, hexHead(payload), d)
	}
}

func hexHead(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%x...(%d bytes)", b[:48], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// decodeMeasured runs the public decoder on a payload and bounds its allocation.
func decodeMeasured(c *core.C, v int, payload []byte, what string) {
	p, _, err := protocol.GetProtocol([]byte{0, 0, 0, byte(v)})
	c.Must(err)
	in := frame(payload)
	lim := uint64(1<<20 + 1500*len(in))
	var val interface{}
	var used uint64
	for try := 0; try < 4; try++ { // other goroutines of the harness allocate, too
		var m1, m2 runtime.MemStats
		runtime.ReadMemStats(&m1)
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Fail("panic", "%s: decoding %s panicked: %v", what, hexHead(payload), r)
					err = fmt.Errorf("panic")
				}
			}()
			val, err = p.Unmarshal(in)
		}()
		runtime.ReadMemStats(&m2)
		if used = m2.TotalAlloc - m1.TotalAlloc; used <= lim {
			break
		}
	}
	c.Event("decodes", 1)
	if isNilErr(err) {
		c.Event("accepted", 1)
	}
	if used > lim {
		c.Fail("memory", "%s: decoding %d bytes %s allocated %d bytes (limit %d)", what, len(in), hexHead(payload), used, lim)
	}
	judge(c, v, payload, val, err, what)
	if len(payload) > 1 {
		c.Distinct("v%d %x", v, hash(payload))
	}
}

func hash(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

// hostile makes one hostile payload.
func hostile(r *rand.Rand) []byte {
	b := 60
	var base interface{}
	switch r.Intn(5) {
	case 0:
		base = fake.Success(randMap(r, 3, &b))
	case 1, 2:
		base = fake.Record(arr{randVal(r, 4, &b), randVal(r, 3, &b)})
	case 3:
		base = (&fake.Failure{Code: "Neo.X", Message: "m"}).Msg()
	default:
		base = randVal(r, 4, &b)
	}
	p := pack.MarshalW(base, r)
	switch r.Intn(9) {
	case 0: // bit flips
		for i := 0; i <= r.Intn(4); i++ {
			p[r.Intn(len(p))] ^= 1 << uint(r.Intn(8))
		}
	case 1: // byte replacement by markers
		ms := []byte{0xC0, 0xC1, 0xC3, 0xC8, 0xC9, 0xCA, 0xCB, 0xCC, 0xCD, 0xCE, 0xD0, 0xD1, 0xD2, 0xD4, 0xD5, 0xD6, 0xD8, 0xD9, 0xDA, 0xDC, 0xDD, 0xB0, 0xB1, 0xB3, 0xBF, 0x8F, 0x9F, 0xAF, 0xFF, 0x7F, 0x80}
		for i := 0; i <= r.Intn(3); i++ {
			p[r.Intn(len(p))] = ms[r.Intn(len(ms))]
		}
	case 2: // truncation
		p = p[:r.Intn(len(p))+0]
	case 3: // splice
		q := pack.MarshalW(randVal(r, 3, &b), r)
		k := r.Intn(len(p) + 1)
		p = append(append(append([]byte{}, p[:k]...), q...), p[k:]...)
	case 4: // deletion
		k := r.Intn(len(p))
		n := r.Intn(len(p)-k) + 1
		p = append(append([]byte{}, p[:k]...), p[k+n:]...)
	case 5: // impossible size
		ms := [][]byte{{0xD0, 0xFF}, {0xD1, 0xFF, 0xFF}, {0xD1, 0x80, 0}, {0xD2, 0xFF, 0xFF, 0xFF, 0xFF}, {0xD2, 0x7F, 0xFF, 0xFF, 0xFF}, {0xD4, 0xFF}, {0xD5, 0xFF, 0xFF}, {0xD6, 0x7F, 0xFF, 0xFF, 0xFF}, {0xD6, 0xFF, 0xFF, 0xFF, 0xFF}, {0xD6, 0x80, 0, 0, 0}, {0xD8, 0xFE}, {0xD9, 0xFF, 0xFF}, {0xDA, 0x7F, 0xFF, 0xFF, 0xFF}, {0xDA, 0xFF, 0xFF, 0xFF, 0xF0}, {0xDC, 0xFF, 'N'}, {0xDD, 0xFF, 0xFF, 'N'}, {0xDD, 0x80, 0x01, 0x70}}
		k := r.Intn(len(p) + 1)
		p = append(append(append([]byte{}, p[:k]...), ms[r.Intn(len(ms))]...), p[k:]...)
	case 6: // random bytes
		p = make([]byte, r.Intn(60))
		r.Read(p)
	case 7: // random marker soup
		p = make([]byte, 1+r.Intn(60))
		for i := range p {
			p[i] = byte(0x80 + r.Intn(0x60))
		}
	}
	return p
}

func c05Decode(c *core.C, v, i int) {
	for k := 0; k < c.T.Pick(2500, 12000); k++ {
		p := hostile(c.R)
		decodeMeasured(c, v, p, "mutated message")
		if k < 1 && i < 3 {
			c.Sample("v%d payload %s", v, hexHead(p))
		}
	}
}

// c05Nested: a message where a value belongs may be refused or returned as whatever it is, but the values around it
// are not read out of it.
func c05Nested(c *core.C, v int) {
	p, _, err := protocol.GetProtocol([]byte{0, 0, 0, byte(v)})
	c.Must(err)
	r := c.R
	for k := 0; k < c.T.Pick(3000, 20000); k++ {
		var row arr
		odd := map[int]bool{}
		for i := 1 + r.Intn(6); i > 0; i-- {
			b := 10
			if r.Intn(3) > 0 {
				row = append(row, plainVal(r, 2, &b))
				continue
			}
			st := pack.Struct{Sig: []byte{0x7E, 0x7E, 0x7E, 0x0F, 0x2F, 0x3F, 0x70, 0x71, 0x7F}[r.Intn(9)], Fields: arr{}}
			for j := r.Intn(4); j > 0; j-- {
				if r.Intn(8) == 0 {
					st.Fields = append(st.Fields, pack.Struct{Sig: 0x7E, Fields: arr{int64(r.Intn(9))}})
				} else {
					st.Fields = append(st.Fields, plainVal(r, 1, &b))
				}
			}
			odd[len(row)] = true
			row = append(row, st)
		}
		m := fake.Record(row)
		val, err := p.Unmarshal(frame(pack.MarshalW(m, r)))
		c.Event("decodes", 1)
		if !isNilErr(err) {
			continue
		}
		c.Event("accepted", 1)
		rec, ok := val.(messages.RecordMessage)
		if !ok || len(rec.Fields) != len(row) {
			c.Fail("nested", "the record %s was decoded as %s", short(m), short(val))
			return
		}
		for i, x := range row {
			if !odd[i] {
				if d := same(rec.Fields[i], lift(x)); d != "" {
					c.Fail("nested", "value %d of the record %s was decoded wrongly at %s", i, short(m), d)
					return
				}
			}
		}
		c.Distinct("v%d nested %d of %d", v, len(odd), len(row))
	}
}

// plainVal is a value without structures.
func plainVal(r *rand.Rand, depth int, b *int) interface{} {
	switch r.Intn(6) {
	case 0:
		return randStr(r)
	case 1:
		return r.Intn(2) == 0
	case 2:
		return nil
	case 3:
		if depth > 0 {
			l := arr{}
			for i := r.Intn(4); i > 0; i-- {
				l = append(l, plainVal(r, depth-1, b))
			}
			return l
		}
	case 4:
		if depth > 0 {
			l := obj{}
			for i := r.Intn(4); i > 0; i-- {
				l[fmt.Sprint("k", i)] = plainVal(r, depth-1, b)
			}
			return l
		}
	}
	return int64(r.Intn(1<<20) - 1<<19)
}

func c05Sizes(c *core.C, v int) {
	be := func(n, w int) []byte {
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, uint64(n))
		return b[8-w:]
	}
	for _, mk := range []struct {
		m byte
		w int
	}{{0xD0, 1}, {0xD1, 2}, {0xD2, 4}, {0xD4, 1}, {0xD5, 2}, {0xD6, 4}, {0xD8, 1}, {0xD9, 2}, {0xDA, 4}, {0xDC, 1}, {0xDD, 2}, {0xCC, 1}, {0xCD, 2}, {0xCE, 4}} {
		for _, n := range []int{0, 1, 2, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
			if n >= 1<<(8*mk.w) {
				continue
			}
			for _, body := range []int{0, 1, 5, 200} {
				p := append([]byte{mk.m}, be(n, mk.w)...)
				for i := 0; i < body; i++ {
					p = append(p, byte(i%3))
				}
				decodeMeasured(c, v, p, fmt.Sprintf("marker %#x size %d body %d", mk.m, n, body))
				decodeMeasured(c, v, append([]byte{0xB1, 0x71, 0x92, 0x01}, p...), fmt.Sprintf("record with marker %#x size %d body %d", mk.m, n, body))
				decodeMeasured(c, v, append([]byte{0xB1, 0x70, 0xA1, 0x81, 'k'}, p...), fmt.Sprintf("success with marker %#x size %d body %d", mk.m, n, body))
			}
		}
	}
	for m := 0; m < 256; m++ {
		for _, tail := range [][]byte{{}, {0}, {1, 2, 3}, {0xB1, 0x70, 0xA0}, {0x81, 'a', 1, 2, 3, 4, 5, 6, 7, 8, 9}} {
			decodeMeasured(c, v, append([]byte{byte(m)}, tail...), fmt.Sprintf("marker %#x", m))
		}
	}
}

// c05Types: every structure with every field replaced by every type, and with every arity.
func c05Types(c *core.C, v int) {
	node := pack.Struct{Sig: 'N', Fields: arr{int64(1), arr{"L"}, obj{"p": int64(1)}}}
	rel := pack.Struct{Sig: 'r', Fields: arr{int64(1), "T", obj{}}}
	good := []pack.Struct{node, rel,
		{Sig: 'R', Fields: arr{int64(1), int64(2), int64(3), "T", obj{"a": "b"}}},
		{Sig: 'P', Fields: arr{arr{node, node}, arr{rel}, arr{int64(1), int64(1)}}},
		{Sig: 'X', Fields: arr{int64(7203), 1.0, 2.0}}, {Sig: 'Y', Fields: arr{int64(9157), 1.0, 2.0, 3.0}},
		{Sig: 'D', Fields: arr{int64(100)}}, {Sig: 'T', Fields: arr{int64(100), int64(3600)}}, {Sig: 't', Fields: arr{int64(100)}},
		{Sig: 'd', Fields: arr{int64(100), int64(5)}}, {Sig: 'F', Fields: arr{int64(100), int64(5), int64(3600)}}, {Sig: 'f', Fields: arr{int64(100), int64(5), "Europe/Paris"}},
		{Sig: 'E', Fields: arr{int64(0), int64(1), int64(2), int64(3)}},
		fake.Success(obj{"a": int64(1)}), (&fake.Failure{Code: "a", Message: "b"}).Msg(), fake.Record(arr{int64(1)}), fake.Ignored(),
	}
	reps := []interface{}{nil, true, int64(5), int64(-1), int64(1) << 40, int64(math.MaxInt64), int64(math.MinInt64), 2.5, "str", "", arr{}, arr{int64(1)}, arr{"x"}, arr{nil}, arr{node}, arr{rel}, obj{}, obj{"k": int64(1)}, node, rel, pack.Struct{Sig: 'Q', Fields: arr{}}, pack.Bytes{1, 2}}
	for _, g := range good {
		for n := 0; n <= len(g.Fields)+3; n++ { // arity
			f := append(arr{}, g.Fields...)
			for len(f) < n {
				f = append(f, int64(1))
			}
			st := pack.Struct{Sig: g.Sig, Fields: f[:n]}
			decodeMeasured(c, v, pack.Marshal(st), fmt.Sprintf("structure %c with %d fields", g.Sig, n))
			decodeMeasured(c, v, pack.Marshal(fake.Record(arr{"a", st, "z", int64(1)})), fmt.Sprintf("structure %c with %d fields in a record", g.Sig, n))
			decodeMeasured(c, v, pack.Marshal(fake.Success(obj{"k": st})), fmt.Sprintf("structure %c with %d fields in metadata", g.Sig, n))
		}
		for i := range g.Fields {
			for _, x := range reps {
				f := append(arr{}, g.Fields...)
				f[i] = x
				st := pack.Struct{Sig: g.Sig, Fields: f}
				decodeMeasured(c, v, pack.Marshal(st), fmt.Sprintf("structure %c with field %d = %T", g.Sig, i, x))
				decodeMeasured(c, v, pack.Marshal(fake.Record(arr{st})), fmt.Sprintf("structure %c with field %d = %T in a record", g.Sig, i, x))
			}
		}
	}
	for _, zone := range []string{"", "Nowhere/Atlantis", "../../etc/passwd", "UTC", "Local", "\x00", strOf(c.R, 5000)} {
		decodeMeasured(c, v, pack.Marshal(pack.Struct{Sig: 'f', Fields: arr{int64(1), int64(2), zone}}), "zone id "+trunc(zone))
	}
	// map keys of the wrong type
	for _, k := range []interface{}{nil, int64(1), arr{}, true, 1.5} {
		p := append([]byte{0xA1}, pack.Marshal(k)...)
		decodeMeasured(c, v, append(p, 1), fmt.Sprintf("map key %T", k))
	}
	if v >= 2 { // huge temporal values must not crash
		for _, x := range []int64{1<<63 - 1, -1 << 63, 1 << 40, -1 << 40, 1 << 55} {
			for _, st := range []pack.Struct{{Sig: 'D', Fields: arr{x}}, {Sig: 'T', Fields: arr{x, x}}, {Sig: 't', Fields: arr{x}}, {Sig: 'd', Fields: arr{x, x}}, {Sig: 'F', Fields: arr{x, x, x}}, {Sig: 'f', Fields: arr{x, x, "Europe/Paris"}}, {Sig: 'E', Fields: arr{x, x, x, x}}, {Sig: 'X', Fields: arr{x, 1.0, 1.0}}} {
				decodeMeasured(c, v, pack.Marshal(st), fmt.Sprintf("structure %c of %d", st.Sig, x))
			}
		}
	}
}

func c05Deep(c *core.C, v int) {
	kinds := map[string][]byte{"lists": {0x91}, "maps": {0xA1, 0x81, 'a'}, "wide lists": {0xD4, 1}, "wide maps": {0xD8, 1, 0x80}, "records": {0xB1, 0x71}, "successes": {0xB1, 0x70}, "nodes": {0xB3, 'N'}, "map keys": {0xA1}, "paths": {0xB3, 'P', 0x91}, "lists of 2": {0x92, 1}}
	for _, name := range []string{"lists", "maps", "wide lists", "wide maps", "records", "successes", "nodes", "map keys", "paths", "lists of 2"} {
		for _, n := range []int{1000, 50000, 2000000, 9000000} {
			if n > 2000000 && (name != "lists" && name != "map keys") {
				continue
			}
			var p []byte
			for len(p) < n {
				p = append(p, kinds[name]...)
			}
			pr, _, _ := protocol.GetProtocol([]byte{0, 0, 0, byte(v)})
			_, err := pr.Unmarshal(frame(p)) // truncated on purpose: must be an error, and must not exhaust the stack
			if isNilErr(err) {
				c.Fail("accepted", "%d bytes of endless %s were accepted", n, name)
			}
			c.Event("decodes", 1)
			c.Distinct("v%d deep %s %d", v, name, n)
			runtime.GC()
		}
	}
}

// c05Quadratic: nested containers that each claim to be as large as what is left.
func c05Quadratic(c *core.C, v int) {
	for _, n := range []int{3000, 30000, 60000} {
		for _, m := range []byte{0xD5, 0xD9} {
			var p []byte
			for len(p) < n {
				left := (n - len(p)) / 3
				p = append(p, m, byte(left>>8), byte(left))
				if m == 0xD9 {
					p = append(p, 0x80)
				}
			}
			decodeMeasured(c, v, p, fmt.Sprintf("nested containers %#x each claiming the rest of %d bytes", m, n))
		}
	}
}

// c05Wire delivers hostile bytes at one stage of a real connection.
func c05Wire(c *core.C, v int, stage string) {
	for k := 0; k < c.T.Pick(60, 250); k++ {
		var raw []byte
		var payloads [][]byte
		mode := c.R.Intn(8)
		p := hostile(c.R)
		switch mode {
		case 0, 1, 2:
			raw = frame(p)
			payloads = [][]byte{p}
			if len(p) == 0 {
				payloads = nil
			}
		case 3: // broken framing
			raw = frame(p)
			raw[c.R.Intn(len(raw))] ^= byte(1 + c.R.Intn(255))
			payloads = nil
		case 4:
			raw = make([]byte, c.R.Intn(40))
			c.R.Read(raw)
			payloads = nil
		case 6, 7: // something hostile amid a good answer
			add := func(x interface{}) { raw = append(raw, frame(pack.Marshal(x))...) }
			if stage == "run" && c.R.Intn(3) > 0 {
				add(fake.Success(obj{"fields": []string{"a"}}))
			}
			good := func() {
				for i := c.R.Intn(4); i > 0; i-- {
					if stage == "run" || stage == "pull" {
						add(fake.Record(arr{int64(i), "good"}))
					} else {
						add(fake.Success(nil))
					}
				}
			}
			good()
			switch c.R.Intn(3) {
			case 0:
				raw = append(raw, frame(p)...)
			case 1:
				add(fake.Record(arr{"x", undecodable(c.R.Intn(7)), "y"}))
			default:
				add(fake.Success(obj{"x": undecodable(c.R.Intn(7))}))
			}
			good()
			add(fake.Success(obj{"type": "r"}))
		default: // well-formed messages of the wrong kind
			ms := []interface{}{fake.Success(obj{"fields": []string{"a"}}), fake.Record(arr{int64(1)}), fake.Ignored(), pack.Struct{Sig: 0x0F, Fields: arr{}}, pack.Struct{Sig: 0x3F, Fields: arr{}}, pack.Struct{Sig: 0x2F, Fields: arr{}}, pack.Struct{Sig: 'N', Fields: arr{int64(1), arr{}, obj{}}}, int64(1), "s", nil, arr{int64(1)}, obj{"a": int64(1)}, fake.Success(nil)}
			for i := 0; i <= c.R.Intn(3); i++ {
				raw = append(raw, frame(pack.Marshal(ms[c.R.Intn(len(ms))]))...)
			}
		}
		_ = payloads
		n := 0
		s := &fake.Server{Version: v}
		if stage == "handshake" {
			s.Handshake = raw
			if len(raw) == 0 || (len(raw) >= 4 && raw[0] == 0 && raw[1] == 0 && raw[2] == 0 && raw[3] < 5) {
				continue
			}
		}
		s.Hook = func(fc *fake.Conn, m *fake.Msg, rep []interface{}) ([]interface{}, *fake.Act) {
			hit := false
			switch stage {
			case "init":
				hit = m.Name == "INIT" || m.Name == "HELLO"
			case "run":
				hit = m.Name == "RUN" && m.Query == "HIT"
			case "pull":
				hit = m.Name == "PULL" && n > 0
			case "begin", "commit", "rollback":
				hit = (m.Name == "BEGIN" && stage == "begin") || (m.Name == "COMMIT" && stage == "commit") || (m.Name == "ROLLBACK" && stage == "rollback") || (m.Query == "BEGIN" && stage == "begin") || (m.Query == "COMMIT" && stage == "commit") || (m.Query == "ROLLBACK" && stage == "rollback")
			case "reset":
				hit = m.Name == "RESET"
			}
			if m.Query == "HIT" {
				n++
			}
			if hit {
				return nil, &fake.Act{Raw: raw, Close: "half"}
			}
			return rep, nil
		}
		s.Fail = func(fc *fake.Conn, m *fake.Msg) *fake.Failure {
			if stage == "reset" && m.Query == "HIT" {
				return &fake.Failure{Code: "Neo.ClientError.Statement.SyntaxError", Message: "no"}
			}
			return nil
		}
		s.Start()
		c05Drive(c, s, stage, raw)
		s.Stop()
		c.Event("hostile exchanges", 1)
		c.Distinct("v%d %s %x", v, stage, hash(raw))
		if k == 0 {
			c.Sample("v%d at %s: %s", v, stage, hexHead(raw))
		}
	}
}

func c05Drive(c *core.C, s *fake.Server, stage string, raw []byte) {
	defer func() {
		if r := recover(); r != nil {
			c.Fail("panic", "hostile bytes %s at %s: panic: %v\n%s", hexHead(raw), stage, r, stack())
		}
	}()
	// what do the raw bytes really contain?
	msgs, _ := readFrames(raw)
	conn, err := connection.CreateBoltConn(connURL(s, "timeout=3"))
	if stage == "handshake" || stage == "init" {
		if err == nil {
			ok := false
			if stage == "init" && len(msgs) > 0 {
				if val, good, _ := looseDecode(msgs[0], s.Version); good {
					st, is := val.(pack.Struct)
					ok = is && st.Sig == fake.SigSuccess
				}
			}
			if !ok {
				c.Fail("accepted", "hostile bytes %s at %s: opening succeeded", hexHead(raw), stage)
			}
		}
	}
	if err != nil {
		if stage != "handshake" && stage != "init" {
			c.Fail("open", "opening failed before anything hostile was sent: %s", errText(err))
		}
		return
	}
	defer conn.Close()
	isSucc := func(i int) bool {
		if i >= len(msgs) {
			return false
		}
		val, good, _ := looseDecode(msgs[i], s.Version)
		st, is := val.(pack.Struct)
		return good && is && st.Sig == fake.SigSuccess
	}
	switch stage {
	case "handshake", "init":
	case "run", "pull", "reset":
		rows, _, err := conn.Query("HIT", nil)
		if err == nil {
			// the bytes must really be a complete answer
			first := 0
			okAnswer := true
			if stage == "run" {
				okAnswer = isSucc(0)
				first = 1
			}
			if stage == "reset" {
				okAnswer = false
			}
			i := first
			var want [][]interface{}
			judged := true
			for okAnswer {
				if i >= len(msgs) {
					okAnswer = false
					break
				}
				val, good, j := looseDecode(msgs[i], s.Version)
				st, is := val.(pack.Struct)
				if !good || !is {
					okAnswer = false
					break
				}
				judged = judged && j
				if st.Sig == fake.SigSuccess {
					break
				}
				if st.Sig != fake.SigRecord || len(st.Fields) != 1 {
					okAnswer = false
					break
				}
				row, is := st.Fields[0].(arr)
				if !is {
					okAnswer = false
					break
				}
				o, jj := wellTyped(row, s.Version)
				if o && jj {
					want = append(want, lift(row).(arr))
				} else {
					judged = false
					if jj {
						okAnswer = false
						break
					}
				}
				i++
			}
			if !okAnswer {
				c.Fail("accepted", "hostile bytes %s at %s: the query succeeded with %s", hexHead(raw), stage, short(rows))
			} else if judged {
				if want == nil {
					want = [][]interface{}{}
				}
				if d := same(rows, want); d != "" {
					c.Fail("value", "hostile bytes %s at %s: rows differ at %s", hexHead(raw), stage, d)
				}
			}
		}
	default:
		tx, err := conn.Begin()
		if stage == "begin" {
			if err == nil && (tx == nil || !isSucc(0)) {
				c.Fail("accepted", "hostile bytes %s at begin: begin succeeded", hexHead(raw))
			}
			return
		}
		if err != nil {
			c.Fail("begin", "begin failed before anything hostile was sent: %s", errText(err))
			return
		}
		if stage == "commit" {
			err = tx.Commit()
		} else {
			err = tx.Rollback()
		}
		if err == nil && !isSucc(0) {
			c.Fail("accepted", "hostile bytes %s at %s: it succeeded", hexHead(raw), stage)
		}
	}
}

func stack() string {
	b := make([]byte, 1<<14)
	return string(b[:runtime.Stack(b, false)])
}

// readFrames splits raw bytes into the messages they frame; an incomplete rest is dropped.
func readFrames(b []byte) (msgs [][]byte, rest []byte) {
	var cur []byte
	for len(b) >= 2 {
		n := int(b[0])<<8 | int(b[1])
		b = b[2:]
		if n == 0 {
			msgs = append(msgs, cur)
			cur = nil
			continue
		}
		if n > len(b) {
			return msgs, b
		}
		cur = append(cur, b[:n]...)
		b = b[n:]
	}
	return msgs, b
}
