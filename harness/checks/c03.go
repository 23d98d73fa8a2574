package checks

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"strings"
	"time"

	"github.com/mindstand/go-bolt/structures/graph"
	"github.com/mindstand/go-bolt/structures/types"
	"github.com/mindstand/gotime"

	"verif/core"
	"verif/fake"
	"verif/pack"
)

func init() {
	core.Register(&core.Check{ID: "C03", MinEvals: 20,
		Rule: "A case is one temporal or spatial value: as a parameter, what arrives at the server is decoded by the monitor's own codec to calendar fields, instant, offset, duration or coordinates and compared with what the caller's value says of itself; as a result, what the API returns is compared with what was streamed, and then sent back as a parameter and compared again. Values are random, at every field boundary and around daylight-saving changes, bare and nested in lists, maps and graph properties, on protocol versions 2-4, with the process in several time zones. Distinct and non-trivial: distinct (zone, version, kind, direction, magnitude class).",
		Assume: []string{"durations with a months part have no exact length, so only durations without one are compared exactly",
			"a date-time with a zone id that falls into the repeated hour of a daylight-saving change may be read as either of its two instants"},
		Run: runC03})
}

var c03Zones = []string{"America/New_York", "UTC", "Asia/Kolkata", "Australia/Lord_Howe", "Europe/Dublin", "Pacific/Apia", "Africa/Monrovia", "America/St_Johns"}

func runC03(t *core.T) {
	if z := core.SubArg(); z != "" {
		c03Zone(t, z)
		return
	}
	zones := c03Zones[:t.Pick(3, len(c03Zones))]
	for _, z := range zones {
		so, se := t.Sub(z, []string{"TZ=" + z}, 5*time.Minute)
		if so != "" {
			t.Note("output of the part in zone " + z + ": " + so + se)
		}
	}
}

// ---- what a value denotes ----

// fields of a wall clock
type wall struct {
	y       int64
	mo, d   int
	h, m, s int
	ns      int
}

type denote struct {
	kind  string
	wall  wall
	off   int
	hasOf bool
	dur   [2]int64 // seconds, nanos in [0,1e9)
	fl    [3]uint64
	srid  int64
}

// civil turns days since 1970-01-01 into a date (proleptic Gregorian).
func civil(z int64) (y int64, m, d int) {
	z += 719468
	era := z / 146097
	if z < 0 {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = int(doy - (153*mp+2)/5 + 1)
	if mp < 10 {
		m = int(mp + 3)
	} else {
		m = int(mp - 9)
	}
	if m <= 2 {
		y++
	}
	return
}

func floorDiv(a, b int64) (q, r int64) {
	q, r = a/b, a%b
	if r < 0 {
		q--
		r += b
	}
	return
}

func wallOf(sec, ns int64) wall {
	q, n := floorDiv(ns, 1e9)
	sec += q
	days, sod := floorDiv(sec, 86400)
	y, m, d := civil(days)
	return wall{y, m, d, int(sod / 3600), int(sod / 60 % 60), int(sod % 60), int(n)}
}

// ofWire tells what a structure on the wire denotes; ok is false if it is not of the kind's proper form.
func ofWire(v interface{}) (denote, error) {
	s, ok := v.(pack.Struct)
	if !ok {
		return denote{}, fmt.Errorf("not a structure: %s", short(v))
	}
	ints := func(n int) ([]int64, error) {
		if len(s.Fields) != n {
			return nil, fmt.Errorf("structure %c with %d fields", s.Sig, len(s.Fields))
		}
		var r []int64
		for _, f := range s.Fields {
			x, ok := f.(int64)
			if !ok {
				return nil, fmt.Errorf("structure %c with a %T", s.Sig, f)
			}
			r = append(r, x)
		}
		return r, nil
	}
	const day = int64(86400) * 1e9
	switch s.Sig {
	case 'D':
		f, err := ints(1)
		if err != nil {
			return denote{}, err
		}
		y, m, d := civil(f[0])
		return denote{kind: "date", wall: wall{y: y, mo: m, d: d}}, nil
	case 'T':
		f, err := ints(2)
		if err != nil {
			return denote{}, err
		}
		if f[0] < 0 || f[0] >= day {
			return denote{}, fmt.Errorf("time of day %d ns is not within a day", f[0])
		}
		w := wallOf(0, f[0])
		return denote{kind: "time", wall: wall{h: w.h, m: w.m, s: w.s, ns: w.ns}, off: int(f[1]), hasOf: true}, nil
	case 't':
		f, err := ints(1)
		if err != nil {
			return denote{}, err
		}
		if f[0] < 0 || f[0] >= day {
			return denote{}, fmt.Errorf("time of day %d ns is not within a day", f[0])
		}
		w := wallOf(0, f[0])
		return denote{kind: "localtime", wall: wall{h: w.h, m: w.m, s: w.s, ns: w.ns}}, nil
	case 'd':
		f, err := ints(2)
		if err != nil {
			return denote{}, err
		}
		if f[1] < 0 || f[1] > 999999999 {
			return denote{}, fmt.Errorf("nanoseconds %d out of range", f[1])
		}
		return denote{kind: "localdatetime", wall: wallOf(f[0], f[1])}, nil
	case 'F':
		f, err := ints(3)
		if err != nil {
			return denote{}, err
		}
		if f[1] < 0 || f[1] > 999999999 {
			return denote{}, fmt.Errorf("nanoseconds %d out of range", f[1])
		}
		return denote{kind: "datetime", wall: wallOf(f[0], f[1]), off: int(f[2]), hasOf: true}, nil
	case 'f':
		if len(s.Fields) != 3 {
			return denote{}, fmt.Errorf("structure f with %d fields", len(s.Fields))
		}
		sec, ok1 := s.Fields[0].(int64)
		ns, ok2 := s.Fields[1].(int64)
		z, ok3 := s.Fields[2].(string)
		if !ok1 || !ok2 || !ok3 || ns < 0 || ns > 999999999 {
			return denote{}, fmt.Errorf("bad zoned date-time %s", short(s))
		}
		loc, err := time.LoadLocation(z)
		if err != nil {
			return denote{}, err
		}
		w := wallOf(sec, ns)
		_, off := time.Date(int(w.y), time.Month(w.mo), w.d, w.h, w.m, w.s, w.ns, loc).Zone()
		return denote{kind: "datetime", wall: w, off: off, hasOf: true}, nil
	case 'E':
		f, err := ints(4)
		if err != nil {
			return denote{}, err
		}
		if f[0] != 0 {
			return denote{kind: "duration", srid: f[0]}, nil
		}
		q, n := floorDiv(f[3], 1e9)
		return denote{kind: "duration", dur: [2]int64{f[1]*86400 + f[2] + q, n}}, nil
	case 'X', 'Y':
		n := 3
		if s.Sig == 'Y' {
			n = 4
		}
		if len(s.Fields) != n {
			return denote{}, fmt.Errorf("structure %c with %d fields", s.Sig, len(s.Fields))
		}
		id, ok := s.Fields[0].(int64)
		if !ok {
			return denote{}, fmt.Errorf("point with SRID %s", short(s.Fields[0]))
		}
		d := denote{kind: fmt.Sprintf("point%dd", n-1), srid: id}
		for i, f := range s.Fields[1:] {
			x, ok := f.(float64)
			if !ok {
				return denote{}, fmt.Errorf("point with coordinate %s", short(f))
			}
			d.fl[i] = math.Float64bits(x)
		}
		return d, nil
	}
	return denote{}, fmt.Errorf("structure of unexpected kind %c", s.Sig)
}

// ofGo tells what a Go value denotes.
func ofGo(v interface{}) (denote, error) {
	tod := func(h, m, s, ns int) wall { return wall{h: h, m: m, s: s, ns: ns} }
	switch x := v.(type) {
	case gotime.Date:
		return denote{kind: "date", wall: wall{y: int64(x.Year()), mo: int(x.Month()), d: x.Day()}}, nil
	case gotime.Clock:
		_, off := x.GetTime().Zone()
		return denote{kind: "time", wall: tod(x.Hour(), x.Minute(), x.Second(), x.Nanosecond()), off: off, hasOf: true}, nil
	case gotime.LocalClock:
		return denote{kind: "localtime", wall: tod(x.Hour(), x.Minute(), x.Second(), x.Nanosecond())}, nil
	case gotime.LocalTime:
		return denote{kind: "localdatetime", wall: wall{int64(x.Year()), int(x.Month()), x.Day(), x.Hour(), x.Minute(), x.Second(), x.Nanosecond()}}, nil
	case time.Time:
		_, off := x.Zone()
		y, mo, d := x.Date()
		return denote{kind: "datetime", wall: wall{int64(y), int(mo), d, x.Hour(), x.Minute(), x.Second(), x.Nanosecond()}, off: off, hasOf: true}, nil
	case time.Duration:
		s, n := floorDiv(int64(x), 1e9)
		return denote{kind: "duration", dur: [2]int64{s, n}}, nil
	case types.Point2D:
		return denote{kind: "point2d", srid: int64(x.SRID), fl: [3]uint64{math.Float64bits(x.X), math.Float64bits(x.Y)}}, nil
	case types.Point3D:
		return denote{kind: "point3d", srid: int64(x.SRID), fl: [3]uint64{math.Float64bits(x.X), math.Float64bits(x.Y), math.Float64bits(x.Z)}}, nil
	}
	return denote{}, fmt.Errorf("a %T", v)
}

func (d denote) String() string {
	switch {
	case d.kind == "duration":
		return fmt.Sprintf("duration %d s + %d ns", d.dur[0], d.dur[1])
	case strings.HasPrefix(d.kind, "point"):
		return fmt.Sprintf("%s srid %d (%v %v %v)", d.kind, d.srid, math.Float64frombits(d.fl[0]), math.Float64frombits(d.fl[1]), math.Float64frombits(d.fl[2]))
	}
	return fmt.Sprintf("%s %d-%d-%d %d:%d:%d.%09d offset %ds", d.kind, d.wall.y, d.wall.mo, d.wall.d, d.wall.h, d.wall.m, d.wall.s, d.wall.ns, d.off)
}

// ---- generating ----

var (
	c03Secs  = []int64{0, 1, -1, 59, 60, 86399, 86400, -86400, -86401, 951782400 /* 2000-02-29 */, 1582934400, 1583020800 /* 2020-02-29 */, 68169600, -62135596800 /* 0001-01-01 */, -62135596801, -62167219200 /* 0000-01-01 */, -2208988800, 253402300799 /* 9999-12-31 */, 253402300800, 4102444800, 2147483647, 2147483648, -2147483648, -2147483649, 9223372036, 9223372037, -9223372036, -9223372037, -9223372038, 18446744073, -30610224000, 31556889864403199 /* max Neo4j */, -31557014167219200 /* min Neo4j */}
	c03Nanos = []int64{0, 1, 999, 1000, 999999, 1000000, 500000000, 999999999, 123456789}
	c03Offs  = []int{0, 3600, -3600, 19800, -12600, 45900, 64800, -64800, 1, -1, 59, -59, 3601, -3599, -1800, 1800, 50400, -43200}
	c03Ids   = []string{"Europe/Berlin", "America/New_York", "America/St_Johns", "Asia/Kolkata", "Asia/Kathmandu", "Australia/Lord_Howe", "Pacific/Apia", "Pacific/Chatham", "Africa/Monrovia", "UTC", "Etc/GMT+12", "Europe/Dublin", "America/Sao_Paulo", "Asia/Tehran", "Antarctica/Troll", "Europe/London", "Africa/Casablanca"}
)

// transitions of a location between 1940 and 2037, found by bisection.
func transitions(loc *time.Location) []int64 {
	var r []int64
	off := func(s int64) int { _, o := time.Unix(s, 0).In(loc).Zone(); return o }
	step := int64(86400 * 12)
	for s := int64(-946771200); s < 2145916800; s += step {
		if off(s) != off(s+step) {
			lo, hi := s, s+step
			for hi-lo > 1 {
				mid := (lo + hi) / 2
				if off(mid) == off(lo) {
					lo = mid
				} else {
					hi = mid
				}
			}
			r = append(r, hi)
		}
	}
	return r
}

func c03Sec(r *rand.Rand, loc *time.Location, trans []int64) int64 {
	switch k := r.Intn(10); {
	case k < 3 && len(trans) > 0:
		return trans[r.Intn(len(trans))] + int64(r.Intn(6*3600)) - 3*3600
	case k < 5:
		return c03Secs[r.Intn(len(c03Secs))] + int64(r.Intn(5)-2)
	case k < 8:
		return int64(r.Intn(4102444800)) - 1e9
	case k < 9:
		return r.Int63n(500000000000) - 250000000000
	}
	return r.Int63n(63113904031622398) - 31557014167219199
}

func c03Ns(r *rand.Rand) int64 {
	if r.Intn(2) == 0 {
		return c03Nanos[r.Intn(len(c03Nanos))]
	}
	return r.Int63n(1e9)
}

func c03Off(r *rand.Rand) int {
	if r.Intn(2) == 0 {
		return c03Offs[r.Intn(len(c03Offs))]
	}
	return r.Intn(2*64800+1) - 64800
}

func c03Coord(r *rand.Rand) float64 {
	switch r.Intn(3) {
	case 0:
		return edgeFloats[r.Intn(len(edgeFloats))]
	case 1:
		return float64(r.Intn(361) - 180)
	}
	return r.NormFloat64() * 100
}

var c03Srid = []int64{4326, 4979, 7203, 9157, 0, -1, math.MaxInt32, math.MinInt32, 127, 128}

var c03Kinds = []string{"date", "time", "localtime", "localdatetime", "datetime", "zoned", "duration", "point2d", "point3d"}

// c03Go makes a Go value of a kind.
func c03Go(r *rand.Rand, kind string, trans []int64) interface{} {
	tod := func() (int, int, int, int) { return r.Intn(24), r.Intn(60), r.Intn(60), int(c03Ns(r)) }
	switch kind {
	case "date":
		w := wallOf(c03Sec(r, time.UTC, trans), 0)
		if r.Intn(4) == 0 {
			return gotime.NewDateFromTime(time.Unix(c03Sec(r, time.UTC, trans)%1e11, c03Ns(r)).In(time.FixedZone("x", c03Off(r))))
		}
		return gotime.NewDate(int(w.y), time.Month(w.mo), w.d)
	case "time":
		h, m, s, ns := tod()
		if r.Intn(4) == 0 {
			return gotime.NewClockFromTime(time.Unix(c03Sec(r, time.UTC, trans)%1e11, c03Ns(r)))
		}
		loc := time.FixedZone("x", c03Off(r))
		if r.Intn(3) == 0 {
			loc, _ = time.LoadLocation(c03Ids[r.Intn(len(c03Ids))])
		}
		return gotime.NewClock(h, m, s, ns, loc)
	case "localtime":
		h, m, s, ns := tod()
		if r.Intn(4) == 0 {
			return gotime.NewLocalClockFromTime(time.Unix(c03Sec(r, time.UTC, trans)%1e11, c03Ns(r)))
		}
		return gotime.NewLocalClock(h, m, s, ns)
	case "localdatetime":
		sec, ns := c03Sec(r, time.Local, trans), c03Ns(r)
		if r.Intn(2) == 0 {
			return gotime.NewLocalTimeFromUnix(sec, ns)
		}
		return gotime.NewLocalTimeFromTime(time.Unix(sec, ns))
	case "datetime":
		t := time.Unix(c03Sec(r, time.UTC, trans), c03Ns(r))
		switch r.Intn(4) {
		case 0:
			return t.UTC()
		case 1:
			return t
		}
		return t.In(time.FixedZone("x", c03Off(r)))
	case "zoned":
		loc, err := time.LoadLocation(c03Ids[r.Intn(len(c03Ids))])
		if err != nil {
			panic(err)
		}
		return time.Unix(c03Sec(r, loc, transitions(loc)), c03Ns(r)).In(loc)
	case "duration":
		switch r.Intn(3) {
		case 0:
			return time.Duration(edgeInts[r.Intn(len(edgeInts))])
		case 1:
			return time.Duration(r.Int63n(200)-100)*time.Hour + time.Duration(c03Ns(r))
		}
		return time.Duration(int64(r.Uint64()) >> uint(r.Intn(62)))
	case "point2d":
		return types.Point2D{SRID: int(c03Srid[r.Intn(len(c03Srid))]), X: c03Coord(r), Y: c03Coord(r)}
	default:
		return types.Point3D{SRID: int(c03Srid[r.Intn(len(c03Srid))]), X: c03Coord(r), Y: c03Coord(r), Z: c03Coord(r)}
	}
}

// c03Wire makes a server value of a kind.
func c03Wire(r *rand.Rand, kind string, trans []int64) pack.Struct {
	const day = int64(86400) * 1e9
	nod := func() int64 {
		switch r.Intn(3) {
		case 0:
			return []int64{0, 1, day - 1, day / 2, 3600e9, 7199999999999, 7200e9}[r.Intn(7)]
		}
		return r.Int63n(day)
	}
	st := func(sig byte, f ...interface{}) pack.Struct { return pack.Struct{Sig: sig, Fields: f} }
	switch kind {
	case "date":
		d, _ := floorDiv(c03Sec(r, time.UTC, trans), 86400)
		return st('D', d)
	case "time":
		return st('T', nod(), int64(c03Off(r)))
	case "localtime":
		return st('t', nod())
	case "localdatetime":
		s := c03Sec(r, time.Local, trans)
		if r.Intn(2) == 0 && len(trans) > 0 {
			_, off := time.Unix(s, 0).Zone()
			s += int64(off)
		}
		return st('d', s, c03Ns(r))
	case "datetime":
		return st('F', c03Sec(r, time.UTC, trans), c03Ns(r), int64(c03Off(r)))
	case "zoned":
		id := c03Ids[r.Intn(len(c03Ids))]
		loc, err := time.LoadLocation(id)
		if err != nil {
			panic(err)
		}
		s := c03Sec(r, loc, transitions(loc))
		_, off := time.Unix(s, 0).In(loc).Zone()
		return st('f', s+int64(off), c03Ns(r), id)
	case "duration":
		switch r.Intn(3) {
		case 0: // a duration as the server normalises it, that fits
			return st('E', int64(0), r.Int63n(200000)-100000, r.Int63n(2000000000)-1000000000, c03Ns(r))
		case 1:
			return st('E', int64(0), int64(0), r.Int63n(18446744073)-9223372036, c03Ns(r))
		}
		return st('E', int64(0), int64(r.Intn(5)-2), int64(r.Intn(200000)-100000), c03Ns(r)*int64(r.Intn(3)-1))
	case "point2d":
		return st('X', c03Srid[r.Intn(len(c03Srid))], c03Coord(r), c03Coord(r))
	default:
		return st('Y', c03Srid[r.Intn(len(c03Srid))], c03Coord(r), c03Coord(r), c03Coord(r))
	}
}

// gap tells whether the fields do not exist in the zone of this process.
func gap(w wall) bool {
	t := time.Date(int(w.y), time.Month(w.mo), w.d, w.h, w.m, w.s, w.ns, time.Local)
	return t.Hour() != w.h || t.Minute() != w.m || t.Second() != w.s || t.Day() != w.d
}

func c03Zone(t *core.T, zone string) {
	if got := time.Local.String(); zone != got && !(got == "Local" && os.Getenv("TZ") == zone) {
		panic("harness: zone is " + got)
	}
	trans := transitions(time.Local)
	var jobs []core.Job
	for v := 2; v <= 4; v++ {
		for _, k := range c03Kinds {
			v, k := v, k
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("/param/v%d/%s", v, k), Fn: func(c *core.C) { c03Param(c, v, k, zone, trans) }})
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("/result/v%d/%s", v, k), Fn: func(c *core.C) { c03Result(c, v, k, zone, trans) }})
		}
		v := v
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("/result/v%d/months", v), Fn: func(c *core.C) { c03Months(c, v, zone) }})
	}
	t.Parallel(8, jobs)
}

func magnitude(d denote) string {
	switch {
	case d.kind == "duration":
		return fmt.Sprintf("%s neg=%v big=%v", d.kind, d.dur[0] < 0, d.dur[0] > 1e6 || d.dur[0] < -1e6)
	case strings.HasPrefix(d.kind, "point"):
		return fmt.Sprintf("%s %d", d.kind, d.srid)
	}
	e := "modern"
	switch y := d.wall.y; {
	case y == 0:
		e = "none"
	case y < 0:
		e = "bc"
	case y < 1678:
		e = "early"
	case y < 1970:
		e = "before 1970"
	case y > 9999:
		e = "far"
	case y > 2262:
		e = "late"
	}
	o := "0"
	switch {
	case d.off%3600 != 0:
		o = "odd"
	case d.off < 0:
		o = "west"
	case d.off > 0:
		o = "east"
	}
	return fmt.Sprintf("%s %s %s ns=%v", d.kind, e, o, d.wall.ns != 0)
}

// nest wraps a value the way queries do.
func nest(r *rand.Rand, x interface{}) (v interface{}, get func(interface{}) interface{}) {
	switch r.Intn(5) {
	case 0:
		return arr{"a", x, int64(1)}, func(v interface{}) interface{} { return v.(arr)[1] }
	case 1:
		return obj{"k": x, "l": nil}, func(v interface{}) interface{} { return v.(obj)["k"] }
	case 2:
		return arr{obj{"k": arr{x, x}}}, func(v interface{}) interface{} { return v.(arr)[0].(obj)["k"].(arr)[1] }
	}
	return x, func(v interface{}) interface{} { return v }
}

func c03Param(c *core.C, v int, kind, zone string, trans []int64) {
	var got obj
	s := &fake.Server{Version: v}
	s.Run = func(fc *fake.Conn, m *fake.Msg) *fake.Result { got = m.Params; return nil }
	c.Serve(s)
	conn := dial(c, s)
	n := c.T.Pick(400, 1500)
	for i := 0; i < n; i++ {
		x := c03Go(c.R, kind, trans)
		want, err := ofGo(x)
		c.Must(err)
		p, get := nest(c.R, x)
		if c.R.Intn(12) == 0 { // typed slices are sent like any other list
			switch y := x.(type) {
			case gotime.Date:
				p, get = []gotime.Date{y, y}, func(v interface{}) interface{} { return v.(arr)[1] }
			case time.Time:
				p, get = []time.Time{y, y}, func(v interface{}) interface{} { return v.(arr)[1] }
			case time.Duration:
				p, get = []time.Duration{y}, func(v interface{}) interface{} { return v.(arr)[0] }
			case types.Point2D:
				p, get = []types.Point2D{y}, func(v interface{}) interface{} { return v.(arr)[0] }
			}
		}
		got = nil
		if _, _, err := conn.Query("RETURN $p", map[string]interface{}{"p": p, "q": 1}); err != nil {
			c.Fail("param error", "zone %s v%d: sending %v (%s) failed: %s", zone, v, x, want, errText(err))
			return
		}
		c.Event("parameters compared", 1)
		var w interface{}
		func() {
			defer func() {
				if recover() != nil {
					c.Fail("param shape", "zone %s v%d: %v (%s) arrived in another shape: %s", zone, v, x, want, short(got))
				}
			}()
			w = get(got["p"])
		}()
		if c.Failed() {
			return
		}
		have, err := ofWire(w)
		if err != nil {
			c.Fail("param", "zone %s v%d: %v (%s) was sent as %s: %v", zone, v, x, want, short(w), err)
			return
		}
		if have != want {
			c.Fail("param", "zone %s v%d: sending %v, which is %s, the server received %s, which is %s", zone, v, x, want, short(w), have)
			return
		}
		c.Distinct("v%d param %s", v, magnitude(want))
		if i == 0 {
			c.Sample("zone %s v%d: parameter %v is %s on the wire", zone, v, x, short(w))
		}
	}
}

func c03Result(c *core.C, v int, kind, zone string, trans []int64) {
	sc := &script{}
	var got obj
	s := &fake.Server{Version: v}
	s.Run = func(fc *fake.Conn, m *fake.Msg) *fake.Result { got = m.Params; return sc.run(fc, m) }
	s.OnConn = wire(c, false)
	c.Serve(s)
	conn := dial(c, s)
	n := c.T.Pick(400, 1500)
	for i := 0; i < n; i++ {
		x := c03Wire(c.R, kind, trans)
		if kind == "localdatetime" && i == 0 && zone == "America/New_York" {
			x = pack.Struct{Sig: 'd', Fields: arr{int64(1583634600), int64(0)}} // 2020-03-08T02:30, skipped there
		}
		want, err := ofWire(x)
		c.Must(err)
		big := false
		if kind == "duration" {
			s := want.dur[0]
			if s > 9223372036 || s < -9223372036 {
				big = true
			}
		}
		if kind == "zoned" && c.R.Intn(40) == 0 {
			// nobody knows the offset of such a zone, so there is no value to return
			id := []string{"Mars/Olympus_Mons", "Europe/Atlantis", "No Zone", "Zulu/Time/", "\x00", "a"}[c.R.Intn(6)]
			w, _ := nest(c.R, pack.Struct{Sig: 'f', Fields: arr{x.Fields[0], x.Fields[1], id}})
			sc.push(&fake.Result{Rows: [][]interface{}{{"first"}, {w}}})
			rows, _, err := conn.Query("RETURN 1", nil)
			if err == nil {
				c.Fail("unknown zone", "v%d: a time in the zone %q, which does not exist, was returned as %s", v, id, short(rows[len(rows)-1]))
				return
			}
			c.Event("unknown zones refused", 1)
			conn = dial(c, s)
			continue
		}
		row := arr{}
		var get func(row arr) interface{}
		switch c.R.Intn(5) {
		case 0:
			row = arr{pack.Struct{Sig: 'N', Fields: arr{int64(1), arr{"L"}, obj{"at": x}}}, x}
			get = func(r arr) interface{} {
				if same(r[0].(graph.Node).Labels, []string{"L"}) != "" {
					return nil
				}
				return r[0].(graph.Node).Properties["at"]
			}
		default:
			w, g := nest(c.R, x)
			row = arr{int64(5), w}
			get = func(r arr) interface{} { return g(r[1]) }
		}
		sc.push(&fake.Result{Rows: [][]interface{}{{"first"}, row, {"last"}}})
		rows, _, err := conn.Query("RETURN 1", nil)
		if err != nil {
			if big {
				// it does not fit; being told so is right, though the connection is gone then
				conn = dial(c, s)
				c.Event("unrepresentable values refused", 1)
				continue
			}
			c.Fail("result error", "zone %s v%d: receiving %s, which is %s, failed: %s", zone, v, short(x), want, errText(err))
			return
		}
		if big {
			c.Fail("duration overflow", "zone %s v%d: %s does not fit a time.Duration but was returned as %v", zone, v, short(x), rows)
			return
		}
		c.Event("results compared", 1)
		var val interface{}
		func() {
			defer func() {
				if recover() != nil {
					c.Fail("result shape", "zone %s v%d: %s came back in another shape: %s", zone, v, short(row), short(rows))
				}
			}()
			if len(rows) != 3 || len(rows[1]) != len(row) {
				panic("x")
			}
			val = get(rows[1])
		}()
		if c.Failed() {
			return
		}
		have, err := ofGo(val)
		if err != nil {
			c.Fail("result", "zone %s v%d: %s, which is %s, was returned as %s", zone, v, short(x), want, short(val))
			return
		}
		if kind == "localdatetime" && have != want && gap(want.wall) {
			c.Fail("local-gap", "zone %s v%d: the server sent %s and the API returned %s", zone, v, want, have)
			continue
		}
		if kind == "zoned" && have.off != want.off {
			// in the repeated hour both offsets are right, as long as they are offsets of that zone
			tm := val.(time.Time)
			loc, _ := time.LoadLocation(x.Fields[2].(string))
			_, o := tm.In(loc).Zone()
			alt := want
			alt.off = o
			if tm.In(loc).Format(time.RFC3339Nano) == tm.Format(time.RFC3339Nano) {
				want = alt
			}
		}
		if have != want {
			c.Fail("result", "zone %s v%d: the server sent %s, which is %s, and the API returned %v, which is %s", zone, v, short(x), want, val, have)
			return
		}
		// and back again
		got = nil
		sc.push(nil)
		p, gp := nest(c.R, val)
		if _, err := conn.Exec("CREATE $p", map[string]interface{}{"p": p}); err != nil {
			c.Fail("roundtrip error", "zone %s v%d: sending back %v failed: %s", zone, v, val, errText(err))
			return
		}
		back, err := ofWire(gp(got["p"]))
		if err != nil || back != want {
			c.Fail("roundtrip", "zone %s v%d: %s, returned as %v, was sent back as %s (%s) %v", zone, v, want, val, short(gp(got["p"])), back, err)
			return
		}
		c.Event("round trips compared", 1)
		c.Distinct("v%d result %s", v, magnitude(want))
		if i == 1 {
			c.Sample("zone %s v%d: %s on the wire is %v for the caller", zone, v, short(x), val)
		}
	}
}

// c03Months: a month is between 28 and 31 days, whatever else.
func c03Months(c *core.C, v int, zone string) {
	sc := &script{}
	s := &fake.Server{Version: v, Run: sc.run}
	c.Serve(s)
	conn := dial(c, s)
	for i := 0; i < c.T.Pick(150, 500); i++ {
		m, d, sec, ns := c.R.Int63n(2400)-1200, c.R.Int63n(1000)-500, c.R.Int63n(200000)-100000, c03Ns(c.R)
		x := pack.Struct{Sig: 'E', Fields: arr{m, d, sec, ns}}
		sc.push(&fake.Result{Rows: [][]interface{}{{x}}})
		rows, _, err := conn.Query("RETURN 1", nil)
		if err != nil || len(rows) != 1 || len(rows[0]) != 1 {
			c.Fail("result error", "zone %s v%d: receiving %s failed: %s", zone, v, short(x), errText(err))
			return
		}
		got, ok := rows[0][0].(time.Duration)
		rest := time.Duration(d)*24*time.Hour + time.Duration(sec)*time.Second + time.Duration(ns)
		a, b := time.Duration(m)*28*24*time.Hour, time.Duration(m)*31*24*time.Hour
		if a > b {
			a, b = b, a
		}
		if !ok || got-rest < a || got-rest > b {
			c.Fail("months", "zone %s v%d: a duration of %d months, %d days, %d s and %d ns was returned as %v", zone, v, m, d, sec, ns, rows[0][0])
			return
		}
		c.Event("durations with months bounded", 1)
		c.Distinct("v%d months %d", v, m/100)
	}
}
