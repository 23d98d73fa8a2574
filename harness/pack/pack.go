// Package pack is an independent PackStream codec used by the fake server: a strict decoder (what the
// driver sends must be exactly one well-formed value) and an encoder that can produce every legal
// width. It shares no code with the library under test.
package pack

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"sort"
)

// Struct is a PackStream structure.
type Struct struct {
	Sig    byte
	Fields []interface{}
}

// KV is an ordered map (used where the encoding order matters).
type KV []Pair

// Pair is one entry of a KV.
type Pair struct {
	K string
	V interface{}
}

// Raw is spliced into the encoding verbatim.
type Raw []byte

// Bytes is a PackStream byte array.
type Bytes []byte

// Enc encodes values. With Rng == nil the minimal width is used everywhere; otherwise a random legal width.
type Enc struct {
	Rng *rand.Rand
	B   []byte
}

// Marshal encodes with minimal widths.
func Marshal(v interface{}) []byte { e := Enc{}; e.Put(v); return e.B }

// MarshalW encodes with random legal widths.
func MarshalW(v interface{}, r *rand.Rand) []byte { e := Enc{Rng: r}; e.Put(v); return e.B }

func (e *Enc) widen(w int, max int) int {
	if e.Rng == nil || e.Rng.Intn(3) != 0 {
		return w
	}
	return w + e.Rng.Intn(max-w+1)
}

func (e *Enc) size(n int, tiny byte, m8, m16, m32 byte) {
	w := 0
	switch {
	case n < 16 && tiny != 0:
	case n <= 0xff:
		w = 1
	case n <= 0xffff:
		w = 2
	default:
		w = 3
	}
	max := 3
	if m32 == 0 {
		max = 2
	}
	switch e.widen(w, max) {
	case 0:
		e.B = append(e.B, tiny|byte(n))
	case 1:
		e.B = append(e.B, m8, byte(n))
	case 2:
		e.B = append(e.B, m16, byte(n>>8), byte(n))
	default:
		e.B = append(e.B, m32)
		e.B = binary.BigEndian.AppendUint32(e.B, uint32(n))
	}
}

// Put appends the encoding of v.
func (e *Enc) Put(v interface{}) {
	switch x := v.(type) {
	case nil:
		e.B = append(e.B, 0xC0)
	case bool:
		if x {
			e.B = append(e.B, 0xC3)
		} else {
			e.B = append(e.B, 0xC2)
		}
	case int:
		e.Put(int64(x))
	case int64:
		w := 4
		switch {
		case x >= -16 && x <= 127:
			w = 0
		case x >= -128 && x <= 127:
			w = 1
		case x >= math.MinInt16 && x <= math.MaxInt16:
			w = 2
		case x >= math.MinInt32 && x <= math.MaxInt32:
			w = 3
		}
		switch e.widen(w, 4) {
		case 0:
			e.B = append(e.B, byte(int8(x)))
		case 1:
			e.B = append(e.B, 0xC8, byte(int8(x)))
		case 2:
			e.B = append(e.B, 0xC9)
			e.B = binary.BigEndian.AppendUint16(e.B, uint16(int16(x)))
		case 3:
			e.B = append(e.B, 0xCA)
			e.B = binary.BigEndian.AppendUint32(e.B, uint32(int32(x)))
		default:
			e.B = append(e.B, 0xCB)
			e.B = binary.BigEndian.AppendUint64(e.B, uint64(x))
		}
	case float64:
		e.B = append(e.B, 0xC1)
		e.B = binary.BigEndian.AppendUint64(e.B, math.Float64bits(x))
	case string:
		e.size(len(x), 0x80, 0xD0, 0xD1, 0xD2)
		e.B = append(e.B, x...)
	case Bytes:
		e.size(len(x), 0, 0xCC, 0xCD, 0xCE)
		e.B = append(e.B, x...)
	case []string:
		e.size(len(x), 0x90, 0xD4, 0xD5, 0xD6)
		for _, i := range x {
			e.Put(i)
		}
	case []interface{}:
		e.size(len(x), 0x90, 0xD4, 0xD5, 0xD6)
		for _, i := range x {
			e.Put(i)
		}
	case map[string]interface{}:
		e.size(len(x), 0xA0, 0xD8, 0xD9, 0xDA)
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			e.Put(k)
			e.Put(x[k])
		}
	case KV:
		e.size(len(x), 0xA0, 0xD8, 0xD9, 0xDA)
		for _, p := range x {
			e.Put(p.K)
			e.Put(p.V)
		}
	case Struct:
		e.size(len(x.Fields), 0xB0, 0xDC, 0xDD, 0)
		e.B = append(e.B, x.Sig)
		for _, f := range x.Fields {
			e.Put(f)
		}
	case *Struct:
		e.Put(*x)
	case Raw:
		e.B = append(e.B, x...)
	default:
		panic(fmt.Sprintf("pack: cannot encode %T", v))
	}
}

// Dec is a strict decoder.
type Dec struct {
	b     []byte
	depth int
	loose bool
	dup   bool
}

// Unmarshal decodes exactly one value and demands that no byte is left.
func Unmarshal(b []byte) (interface{}, error) {
	d := Dec{b: b}
	v, err := d.val()
	if err != nil {
		return nil, err
	}
	if len(d.b) != 0 {
		return nil, fmt.Errorf("%d bytes left after the value", len(d.b))
	}
	return v, nil
}

func (d *Dec) take(n int) ([]byte, error) {
	if n < 0 || n > len(d.b) {
		return nil, fmt.Errorf("need %d bytes, have %d", n, len(d.b))
	}
	r := d.b[:n]
	d.b = d.b[n:]
	return r, nil
}

func (d *Dec) num(n int) (int, error) {
	b, err := d.take(n)
	if err != nil {
		return 0, err
	}
	r := 0
	for _, c := range b {
		r = r<<8 | int(c)
	}
	return r, nil
}

func (d *Dec) val() (interface{}, error) {
	d.depth++
	defer func() { d.depth-- }()
	if d.depth > 100000 {
		return nil, fmt.Errorf("too deep")
	}
	mb, err := d.take(1)
	if err != nil {
		return nil, err
	}
	m := mb[0]
	switch {
	case m == 0xC0:
		return nil, nil
	case m == 0xC2:
		return false, nil
	case m == 0xC3:
		return true, nil
	case m < 0x80 || m >= 0xF0:
		return int64(int8(m)), nil
	case m == 0xC1:
		b, err := d.take(8)
		if err != nil {
			return nil, err
		}
		return math.Float64frombits(binary.BigEndian.Uint64(b)), nil
	case m >= 0xC8 && m <= 0xCB:
		b, err := d.take(1 << (m - 0xC8))
		if err != nil {
			return nil, err
		}
		switch len(b) {
		case 1:
			return int64(int8(b[0])), nil
		case 2:
			return int64(int16(binary.BigEndian.Uint16(b))), nil
		case 4:
			return int64(int32(binary.BigEndian.Uint32(b))), nil
		}
		return int64(binary.BigEndian.Uint64(b)), nil
	case m>>4 == 8:
		return d.str(int(m & 15))
	case m >= 0xD0 && m <= 0xD2:
		n, err := d.num(1 << (m - 0xD0))
		if err != nil {
			return nil, err
		}
		return d.str(n)
	case m >= 0xCC && m <= 0xCE:
		n, err := d.num(1 << (m - 0xCC))
		if err != nil {
			return nil, err
		}
		b, err := d.take(n)
		return Bytes(append([]byte{}, b...)), err
	case m>>4 == 9:
		return d.list(int(m & 15))
	case m >= 0xD4 && m <= 0xD6:
		n, err := d.num(1 << (m - 0xD4))
		if err != nil {
			return nil, err
		}
		return d.list(n)
	case m>>4 == 0xA:
		return d.mapp(int(m & 15))
	case m >= 0xD8 && m <= 0xDA:
		n, err := d.num(1 << (m - 0xD8))
		if err != nil {
			return nil, err
		}
		return d.mapp(n)
	case m>>4 == 0xB:
		return d.strct(int(m & 15))
	case m == 0xDC || m == 0xDD:
		n, err := d.num(1 << (m - 0xDC))
		if err != nil {
			return nil, err
		}
		return d.strct(n)
	}
	return nil, fmt.Errorf("unknown marker %#x", m)
}

func (d *Dec) str(n int) (interface{}, error) {
	b, err := d.take(n)
	return string(b), err
}

func (d *Dec) list(n int) (interface{}, error) {
	if n > len(d.b) {
		return nil, fmt.Errorf("list of %d in %d bytes", n, len(d.b))
	}
	r := []interface{}{}
	for i := 0; i < n; i++ {
		v, err := d.val()
		if err != nil {
			return nil, err
		}
		r = append(r, v)
	}
	return r, nil
}

func (d *Dec) mapp(n int) (interface{}, error) {
	if 2*n > len(d.b) {
		return nil, fmt.Errorf("map of %d in %d bytes", n, len(d.b))
	}
	r := map[string]interface{}{}
	for i := 0; i < n; i++ {
		k, err := d.val()
		if err != nil {
			return nil, err
		}
		ks, ok := k.(string)
		if !ok {
			return nil, fmt.Errorf("map key of type %T", k)
		}
		if _, dup := r[ks]; dup {
			if !d.loose {
				return nil, fmt.Errorf("duplicate map key %q", ks)
			}
			d.dup = true
		}
		if r[ks], err = d.val(); err != nil {
			return nil, err
		}
	}
	return r, nil
}

func (d *Dec) strct(n int) (interface{}, error) {
	s, err := d.take(1)
	if err != nil {
		return nil, err
	}
	if n > len(d.b) {
		return nil, fmt.Errorf("struct of %d in %d bytes", n, len(d.b))
	}
	st := Struct{Sig: s[0], Fields: []interface{}{}}
	for i := 0; i < n; i++ {
		v, err := d.val()
		if err != nil {
			return nil, err
		}
		st.Fields = append(st.Fields, v)
	}
	return st, nil
}

// Equal compares two decoded values bit for bit (NaNs by payload).
func Equal(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			w, ok := y[k]
			if !ok || !Equal(x[k], w) {
				return false
			}
		}
		return true
	case Struct:
		y, ok := b.(Struct)
		return ok && x.Sig == y.Sig && Equal(x.Fields, y.Fields)
	case Bytes:
		y, ok := b.(Bytes)
		return ok && string(x) == string(y)
	default:
		return a == b
	}
}

// Prefix decodes the first value of b leniently: bytes may be left over and keys repeated (dup).
func Prefix(b []byte) (v interface{}, rest []byte, dup bool, err error) {
	d := Dec{b: b, loose: true}
	v, err = d.val()
	return v, d.b, d.dup, err
}
