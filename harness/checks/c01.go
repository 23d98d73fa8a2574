package checks

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"

	"github.com/mindstand/go-bolt/connection"

	"verif/core"
	"verif/fake"
	"verif/pack"
)

type (
	myInts    []int
	myStrings []string
	myMaps    []map[string]interface{}
)

// genParam returns a Go parameter value and the value the server must decode.
func genParam(r *rand.Rand, depth int, budget *int) (interface{}, interface{}) {
	*budget--
	k := r.Intn(22)
	if depth <= 0 && k >= 14 {
		k = r.Intn(14)
	}
	switch k {
	case 0:
		return nil, nil
	case 1:
		b := r.Intn(2) == 0
		return b, b
	case 2:
		i := randInt(r)
		return int(i), i
	case 3:
		i := int8(randInt(r))
		return i, int64(i)
	case 4:
		i := int16(randInt(r))
		return i, int64(i)
	case 5:
		i := int32(randInt(r))
		return i, int64(i)
	case 6:
		i := randInt(r)
		return i, i
	case 7:
		switch r.Intn(5) {
		case 0:
			i := uint(randInt(r) & math.MaxInt64)
			return i, int64(i)
		case 1:
			i := uint8(randInt(r))
			return i, int64(i)
		case 2:
			i := uint16(randInt(r))
			return i, int64(i)
		case 3:
			i := uint32(randInt(r))
			return i, int64(i)
		}
		i := uint64(randInt(r) & math.MaxInt64)
		return i, int64(i)
	case 8:
		f := float32(randFloat(r))
		if f != f {
			f = 1.25
		}
		return f, float64(f)
	case 9, 10:
		f := randFloat(r)
		return f, f
	case 11, 12, 13:
		s := randStr(r)
		return s, s
	case 14, 15:
		n := randSize(r, budget)
		g, w := make(arr, n), make(arr, n)
		for i := range g {
			g[i], w[i] = genParam(r, depth-1, budget)
		}
		return g, w
	case 16, 17:
		return genParamMap(r, depth-1, budget)
	case 18:
		n := randSize(r, budget)
		w := make(arr, n)
		switch r.Intn(7) {
		case 0:
			g := make([]string, n)
			for i := range g {
				g[i] = randStr(r)
				w[i] = g[i]
			}
			return g, w
		case 1:
			g := make([]int64, n)
			for i := range g {
				g[i] = randInt(r)
				w[i] = g[i]
			}
			return g, w
		case 2:
			g := make([]float64, n)
			for i := range g {
				g[i] = randFloat(r)
				w[i] = g[i]
			}
			return g, w
		case 3:
			g := make([]bool, n)
			for i := range g {
				g[i] = r.Intn(2) == 0
				w[i] = g[i]
			}
			return g, w
		case 4:
			g := make([]byte, n)
			for i := range g {
				g[i] = byte(r.Intn(256))
				w[i] = int64(g[i])
			}
			return g, w
		case 5:
			g := make(myStrings, n)
			for i := range g {
				g[i] = randStr(r)
				w[i] = g[i]
			}
			return g, w
		}
		g := make([]int, n)
		for i := range g {
			g[i] = int(randInt(r))
			w[i] = int64(g[i])
		}
		return g, w
	case 19:
		n := r.Intn(6)
		switch r.Intn(4) {
		case 0: // elements that are nil keep their places
			g, w := make([][]string, n), make(arr, n)
			for i := range g {
				if w[i] = (arr{}); r.Intn(3) > 0 {
					g[i], w[i] = []string{fmt.Sprint(i)}, arr{fmt.Sprint(i)}
				}
			}
			return g, w
		case 1:
			g, w := make([]map[string]interface{}, n), make(arr, n)
			for i := range g {
				if w[i] = (obj{}); r.Intn(3) > 0 {
					g[i], w[i] = obj{"i": i}, obj{"i": int64(i)}
				}
			}
			return g, w
		case 2:
			g, w := make([][][]interface{}, n), make(arr, n)
			for i := range g {
				if w[i] = (arr{}); r.Intn(3) > 0 {
					g[i], w[i] = [][]interface{}{{i}, nil, {nil}, {}}, arr{arr{int64(i)}, arr{}, arr{nil}, arr{}}
				}
			}
			return g, w
		}
		g, w := make([][]int, n), make(arr, n)
		for i := range g {
			m := r.Intn(4)
			g[i] = make([]int, m)
			l := make(arr, m)
			for j := range g[i] {
				g[i][j] = int(randInt(r))
				l[j] = int64(g[i][j])
			}
			w[i] = l
		}
		return g, w
	case 20:
		n := r.Intn(4)
		g, w := make(myMaps, n), make(arr, n)
		for i := range g {
			a, b := genParamMap(r, depth-1, budget)
			g[i], w[i] = a.(obj), b
		}
		return g, w
	}
	switch r.Intn(7) {
	case 4:
		return [][]string(nil), arr{}
	case 5:
		return myMaps(nil), arr{}
	case 6:
		return []int(nil), arr{}
	case 0:
		return []string(nil), arr{}
	case 1:
		return arr(nil), arr{}
	case 2:
		return obj(nil), obj{}
	}
	return myInts{1, -2}, arr{int64(1), int64(-2)}
}

func genParamMap(r *rand.Rand, depth int, budget *int) (interface{}, interface{}) {
	n := randSize(r, budget)
	g, w := make(obj, n), make(obj, n)
	for i := 0; i < n; i++ {
		k := randStr(r)
		if i > 3 {
			k = fmt.Sprintf("key%d", i)
		}
		g[k], w[k] = genParam(r, depth, budget)
	}
	return g, w
}

// identical compares two values of arbitrary types bit for bit.
func identical(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !identical(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !b.MapIndex(k).IsValid() || !identical(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
		return true
	case reflect.Interface:
		return identical(a.Elem(), b.Elem())
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// queryVia issues one statement through a randomly chosen API entry point.
func queryVia(r *rand.Rand, q connection.IQuery, text string, p connection.QueryParams) (string, error) {
	var err error
	switch r.Intn(4) {
	case 0:
		_, err = q.Exec(text, p)
		return "Exec", err
	case 1:
		_, _, err = q.Query(text, p)
		return "Query", err
	case 2:
		_, err = q.ExecWithDb(text, p, "")
		return "ExecWithDb", err
	}
	_, _, err = q.QueryWithDb(text, p, "")
	return "QueryWithDb", err
}

// sendParams issues a statement and compares what the server decoded.
func sendParams(c *core.C, s *fake.Server, conn connection.IConnection, q connection.IQuery, text string, p connection.QueryParams, again connection.QueryParams, want obj, what string) {
	before := len(s.Stmts())
	api, err := queryVia(c.R, q, text, p)
	st := s.Stmts()
	c.Event("statements", 1)
	if err != nil {
		if len(s.Violations("framing", "malformed")) > 0 {
			c.Fail("undecodable", "%s: the server could not decode the request: %v", what, s.Violations("framing", "malformed")[0])
		} else {
			c.Fail("refused", "%s via %s: a representable request was refused: %s", what, api, errText(err))
		}
		c.Abort()
	}
	if len(st) != before+1 {
		c.Fail("count", "%s: the server saw %d statements instead of 1", what, len(st)-before)
		c.Abort()
	}
	got := st[before]
	if got.Query != text {
		c.Fail("text", "%s: the server decoded query text %s, sent %s", what, short(got.Query), short(text))
	}
	if !pack.Equal(got.Params, want) {
		c.Fail("value", "%s: the server decoded other parameters: %s", what, same(got.Params, interface{}(want)))
	}
	if again != nil && !identical(reflect.ValueOf(p), reflect.ValueOf(again)) {
		c.Fail("modified", "%s: the caller's parameters were modified: %s, were %s", what, short(p), short(again))
	}
}

func init() {
	core.Register(&core.Check{ID: "C01", MinEvals: 40,
		Rule: "A case is one connection (versions 1-4, random chunk sizes, autocommit and transactions, all four query methods) sending random and boundary-sized parameter trees, or values that cannot be represented. The fake server's own PackStream decoder gives the value received; it is compared bit for bit with the value passed. Distinct and non-trivial: distinct (version, shape of the parameter tree) pairs, refusals by (version, type, position).",
		Run:  runC01})
}

func runC01(t *core.T) {
	var jobs []core.Job
	add := func(name string, fn func(c *core.C)) { jobs = append(jobs, core.Job{Name: name, Fn: fn}) }
	for v := 1; v <= 4; v++ {
		v := v
		for i := 0; i < t.Pick(12, 150); i++ {
			i := i
			add(fmt.Sprintf("random/v%d/%d", v, i), func(c *core.C) { c01Random(c, v, i) })
		}
		for _, kind := range []string{"string", "key", "list", "typedlist", "map", "query", "ints", "floats", "nested", "bytes"} {
			kind := kind
			for part := 0; part < 2; part++ {
				part := part
				add(fmt.Sprintf("sizes/v%d/%s/%d", v, kind, part), func(c *core.C) { c01Sizes(c, v, kind, part) })
			}
		}
		add(fmt.Sprintf("refuse/v%d", v), func(c *core.C) { c01Refuse(c, v) })
		add(fmt.Sprintf("uint/v%d", v), func(c *core.C) { c01Uint(c, v) })
		add(fmt.Sprintf("init/v%d", v), func(c *core.C) { c01Nil(c, v) })
	}
	t.Parallel(8, jobs)
}

func c01Random(c *core.C, v, i int) {
	s := c.Serve(&fake.Server{Version: v})
	conn := dial(c, s)
	chunk := []uint16{65535, 1, 2, 7, 100, 4096, 0, 65534}[c.R.Intn(8)]
	if chunk != 65535 && chunk != 0 {
		conn.SetChunkSize(chunk)
	}
	c.Logf("chunk size %d", chunk)
	for n := 0; n < c.T.Pick(25, 60); n++ {
		seed := c.R.Int63()
		gen := func() (interface{}, interface{}) {
			r := rand.New(rand.NewSource(seed))
			b := 120
			if r.Intn(10) == 0 {
				b = 3000
			}
			return genParamMap(r, 1+r.Intn(6), &b)
		}
		g, w := gen()
		g2, _ := gen()
		text := randStr(c.R) + fmt.Sprintf(" // %d", n)
		if c.R.Intn(2) == 0 {
			text = fmt.Sprintf("/* %d */", n) + randStr(c.R)
		}
		var q connection.IQuery = conn
		if n%7 == 3 {
			tx, err := conn.Begin()
			if err != nil {
				c.Fail("begin", "begin failed: %s", errText(err))
				return
			}
			sendParams(c, s, conn, tx, text, g.(obj), g2.(obj), w.(obj), "in a transaction")
			if err := tx.Rollback(); err != nil {
				c.Fail("rollback", "rollback failed: %s", errText(err))
				return
			}
		} else {
			sendParams(c, s, conn, q, text, g.(obj), g2.(obj), w.(obj), "random parameters")
		}
		c.Distinct("v%d %s", v, shapeOf(w))
		if n == 0 && i < 2 {
			c.Sample("v%d %q %s", v, text, short(g))
		}
	}
	if f := s.Violations("framing", "malformed"); len(f) > 0 {
		c.Fail("undecodable", "%v", f[0])
	}
}

// everyInt is an integer as each type of Go that can hold it, by itself and in a list.
func everyInt(x int64) (give connection.QueryParams, want obj) {
	give, want = connection.QueryParams{}, obj{}
	add := func(name string, v, l interface{}) {
		give[name], give[name+"s"] = v, l
		want[name], want[name+"s"] = x, arr{x}
	}
	add("int", int(x), []int{int(x)})
	add("int64", x, []int64{x})
	if int64(int8(x)) == x {
		add("int8", int8(x), []int8{int8(x)})
	}
	if int64(int16(x)) == x {
		add("int16", int16(x), []int16{int16(x)})
	}
	if int64(int32(x)) == x {
		add("int32", int32(x), []int32{int32(x)})
	}
	if x < 0 {
		return
	}
	add("uint", uint(x), []uint{uint(x)})
	add("uint64", uint64(x), []uint64{uint64(x)})
	if int64(uint8(x)) == x {
		add("uint8", uint8(x), []uint8{uint8(x)})
	}
	if int64(uint16(x)) == x {
		add("uint16", uint16(x), []uint16{uint16(x)})
	}
	if int64(uint32(x)) == x {
		add("uint32", uint32(x), []uint32{uint32(x)})
	}
	return
}

func c01Sizes(c *core.C, v int, kind string, part int) {
	s := c.Serve(&fake.Server{Version: v})
	conn := dial(c, s)
	lens := append([]int{}, edgeLens...)
	for _, n := range bigLens {
		if (kind == "typedlist" || kind == "list" || kind == "map") && n > 66000 && !c.T.Thorough {
			continue
		}
		lens = append(lens, n)
	}
	if (c.T.Thorough || part == v%2) && (kind == "string" || kind == "query") {
		lens = append(lens, 1<<20, 1<<24+3)
	}
	if kind == "ints" {
		var l arr
		for _, x := range edgeInts {
			l = append(l, x)
		}
		for k, x := range edgeInts {
			give, want := everyInt(x)
			sendParams(c, s, conn, conn, "RETURN $x", give, nil, want, fmt.Sprintf("integer %d as each type", x))
			c.Distinct("v%d int %d", v, k)
		}
		sendParams(c, s, conn, conn, "RETURN $x", connection.QueryParams{"x": l}, nil, obj{"x": l}, "edge integers")
		return
	}
	if kind == "floats" {
		for k, f := range edgeFloats {
			sendParams(c, s, conn, conn, "RETURN $x", connection.QueryParams{"x": f}, nil, obj{"x": f}, fmt.Sprintf("float %v", f))
			if f == f {
				sendParams(c, s, conn, conn, "RETURN $x", connection.QueryParams{"x": float32(f)}, nil, obj{"x": float64(float32(f))}, fmt.Sprintf("float32 %v", f))
			}
			c.Distinct("v%d float %d", v, k)
		}
		return
	}
	if kind == "nested" {
		for _, d := range []int{1, 2, 15, 16, 100, 500, 1000} {
			var g, w interface{} = "leaf", "leaf"
			for i := 0; i < d; i++ {
				if i%2 == part {
					g, w = arr{g}, arr{w}
				} else {
					g, w = obj{"n": g}, obj{"n": w}
				}
			}
			sendParams(c, s, conn, conn, "RETURN $x", connection.QueryParams{"x": g}, nil, obj{"x": w}, fmt.Sprintf("nesting depth %d", d))
			c.Distinct("v%d depth %d", v, d)
		}
		return
	}
	for k, n := range lens {
		if k%2 != part {
			continue
		}
		what := fmt.Sprintf("%s of length %d", kind, n)
		var g, w interface{}
		text := "RETURN $x"
		switch kind {
		case "string":
			x := strOf(c.R, n)
			g, w = x, x
		case "query":
			text = strOf(c.R, n)
			g, w = 1, int64(1)
		case "key":
			x := strOf(c.R, n)
			g, w = obj{x: "v", "o": 1}, obj{x: "v", "o": int64(1)}
		case "list":
			a, b := make(arr, n), make(arr, n)
			for i := range a {
				a[i], b[i] = i%100, int64(i%100)
			}
			g, w = a, b
		case "typedlist":
			a, b := make([]int, n), make(arr, n)
			for i := range a {
				a[i], b[i] = i, int64(i)
			}
			g, w = a, b
		case "bytes":
			if n > 66000 {
				continue
			}
			a, b := make([]byte, n), make(arr, n)
			for i := range a {
				a[i], b[i] = byte(i), int64(byte(i))
			}
			g, w = a, b
		case "map":
			a, b := make(obj, n), make(obj, n)
			for i := 0; i < n; i++ {
				a[fmt.Sprint("k", i)], b[fmt.Sprint("k", i)] = i, int64(i)
			}
			g, w = a, b
		}
		sendParams(c, s, conn, conn, text, connection.QueryParams{"x": g, "after": "sentinel"}, nil, obj{"x": w, "after": "sentinel"}, what)
		c.Distinct("v%d %s %d", v, kind, n)
		if kind == "map" { // the parameter map itself
			p := g.(obj)
			sendParams(c, s, conn, conn, text, connection.QueryParams(p), nil, w.(obj), what+" (the parameter map itself)")
		}
	}
	if f := s.Violations("framing", "malformed"); len(f) > 0 {
		c.Fail("undecodable", "%v", f[0])
	}
}

type weird struct{ A int }

func unrepresentable() map[string]interface{} {
	x := 7
	str := "s"
	cyc := obj{}
	cyc["self"] = cyc
	cycl := make(arr, 1)
	cycl[0] = cycl
	return map[string]interface{}{
		"struct": weird{1}, "ptr": &x, "strptr": &str, "chan": make(chan int), "func": func() {}, "complex": complex(1, 2),
		"map[string]string": map[string]string{"a": "b"}, "map[int]any": map[int]interface{}{1: 2}, "array": [3]int{1, 2, 3},
		"uint64 too big": uint64(math.MaxInt64) + 1, "uint64 max": uint64(math.MaxUint64), "structptr": &weird{2},
		"slice of structs": []weird{{1}, {2}}, "slice of uint64": []uint64{1, math.MaxUint64}, "slice of maps": []map[string]string{{"a": "b"}},
		"cyclic map": cyc, "cyclic list": cycl, "nilptr": (*int)(nil), "error": fmt.Errorf("x"),
	}
}

func c01Refuse(c *core.C, v int) {
	vals := unrepresentable()
	pos := map[string]func(x interface{}) obj{
		"top":    func(x interface{}) obj { return obj{"a": strings.Repeat("z", 50), "x": x} },
		"list":   func(x interface{}) obj { return obj{"x": arr{1, strings.Repeat("y", 300), x, "after"}} },
		"map":    func(x interface{}) obj { return obj{"x": obj{"deep": obj{"er": x, "ok": 1}}} },
		"inlist": func(x interface{}) obj { return obj{"x": arr{arr{arr{obj{"q": arr{x}}}}}} },
	}
	for _, chunk := range []uint16{65535, 3, 40} {
		s := c.Serve(&fake.Server{Version: v})
		conn := dial(c, s)
		conn.SetChunkSize(chunk)
		for name, x := range vals {
			for pn, mk := range pos {
				msgs := len(s.Conns()[0].Msgs())
				p := mk(x)
				api, err := queryVia(c.R, conn, "CREATE (n) // refuse "+name, p)
				c.Event("refusals", 1)
				c.Distinct("v%d refuse %s at %s chunk %d", v, name, pn, chunk)
				if err == nil {
					c.Fail("accepted:"+name, "%s of %s at %s succeeded, but the value cannot be represented", api, name, pn)
					return
				}
				// the connection must stay usable, and nothing of the refused request may have reached the server
				rows, _, err2 := conn.Query("RETURN 'next'", connection.QueryParams{"k": name})
				if err2 != nil || len(rows) != 1 || len(rows[0]) != 1 || rows[0][0] != "RETURN 'next'" {
					c.Fail("unusable", "after refusing %s at %s (chunk %d) the connection is unusable: %v %s", name, pn, chunk, rows, errText(err2))
					return
				}
				if got := len(s.Conns()[0].Msgs()) - msgs; got != 2 {
					c.Fail("leaked", "after refusing %s at %s (chunk %d) the server saw %d messages for one query", name, pn, chunk, got)
					return
				}
			}
		}
		// a transaction survives a refusal too
		tx, err := conn.Begin()
		if err != nil {
			c.Fail("begin", "begin failed: %s", errText(err))
			return
		}
		if _, err := tx.Exec("CREATE", connection.QueryParams{"a": 1, "x": weird{3}}); err == nil {
			c.Fail("accepted:tx", "a struct parameter was accepted inside a transaction")
		}
		if _, err := tx.Exec("RETURN 1", nil); err != nil {
			c.Fail("unusable", "after a refusal inside a transaction the transaction is unusable: %s", errText(err))
		}
		if err := tx.Commit(); err != nil {
			c.Fail("unusable", "after a refusal inside a transaction it cannot be committed: %s", errText(err))
		}
		if f := s.Violations("framing", "malformed"); len(f) > 0 {
			c.Fail("leaked", "%v", f[0])
		}
	}
}

// c01Uint: values of type uint above the largest signed integer.
func c01Uint(c *core.C, v int) {
	s := c.Serve(&fake.Server{Version: v})
	conn := dial(c, s)
	for _, u := range []uint{math.MaxInt64 + 1, math.MaxUint64, math.MaxUint64 - 5} {
		n := len(s.Stmts())
		_, err := conn.Exec("RETURN $u", connection.QueryParams{"u": u})
		c.Distinct("v%d uint %d", v, u)
		if err == nil && len(s.Stmts()) == n+1 {
			c.Fail("uint-wrap", "uint %d was sent as %v instead of being refused", u, s.Stmts()[n].Params["u"])
		}
	}
}

// c01Nil: nil and empty parameter maps, and the order of the entry points.
func c01Nil(c *core.C, v int) {
	s := c.Serve(&fake.Server{Version: v})
	conn := dial(c, s)
	for i := 0; i < 12; i++ {
		sendParams(c, s, conn, conn, "RETURN 1", nil, nil, obj{}, "nil parameters")
		sendParams(c, s, conn, conn, "", connection.QueryParams{}, connection.QueryParams{}, obj{}, "no parameters, empty text")
	}
	shared := arr{1, obj{"s": "t"}}
	p := connection.QueryParams{"a": shared, "b": shared, "c": arr{shared, shared}}
	w := arr{int64(1), obj{"s": "t"}}
	sendParams(c, s, conn, conn, "RETURN 1", p, nil, obj{"a": w, "b": w, "c": arr{w, w}}, "shared values")
	c.Distinct("v%d nil", v)
}
