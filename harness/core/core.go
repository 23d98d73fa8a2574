// Package core runs the checks: a supervisor starts a worker process per check, watches it for crashes,
// sanitizer reports and hangs, and turns what the monitors recorded into a verdict and evidence.
package core

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/fake"
)

// Check is one registered property check.
type Check struct {
	ID       string
	Rule     string // how cases are made, what makes one non-trivial
	Level    string
	Assume   []string
	Mem      uint64 // address-space limit of the worker (0: none)
	Env      []string
	Keep     bool          // garbage collection is off (up to a limit), so that finalizers do not close leaked sockets
	CaseMax  time.Duration // watchdog per case
	MinEvals int64
	Run      func(t *T)
}

var registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { registry[c.ID] = c }

// Viol is one recorded violation.
type Viol struct {
	Key    string
	Case   string
	Detail string
	Log    []string
}

// T collects what one check run observed.
type T struct {
	Prop     string
	Tier     string
	Seed     int64
	Thorough bool
	Filter   string

	mu       sync.Mutex
	evals    int64
	distinct map[string]int64
	samples  []interface{}
	events   map[string]int64
	viols    []Viol
	perKey   map[string]int
	running  map[string]runInfo
	caseMax  time.Duration
	out      string
	notes    []string
	begun    time.Time
	finished bool
	skipped  int64 // cases left out because a violation had been found and time was running out
}

type runInfo struct {
	start time.Time
	max   time.Duration
}

// C is one case.
type C struct {
	T    *T
	Name string
	R    *rand.Rand

	mu      sync.Mutex
	servers []*fake.Server
	logs    []string
	cleanup []func()
	failed  bool
	long    time.Duration
}

// Pick returns q in the quick tier and th in the thorough one.
func (t *T) Pick(q, th int) int {
	if t.Thorough {
		return th
	}
	return q
}

// Event counts monitor events of a kind.
func (t *T) Event(kind string, n int64) {
	t.mu.Lock()
	t.events[kind] += n
	t.mu.Unlock()
}

// Distinct records a distinct, non-trivial case signature.
func (t *T) Distinct(sig string) {
	t.mu.Lock()
	t.distinct[sig]++
	t.mu.Unlock()
}

// Sample keeps some actual cases for the evidence.
func (t *T) Sample(s string) {
	t.mu.Lock()
	if len(t.samples) < 24 {
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		t.samples = append(t.samples, s)
	}
	t.mu.Unlock()
}

// Note adds a remark to the evidence.
func (t *T) Note(s string) { t.mu.Lock(); t.notes = append(t.notes, s); t.mu.Unlock() }

// Violate records a violation.
func (t *T) Violate(key, cs string, log []string, f string, a ...interface{}) {
	t.mu.Lock()
	t.perKey[key]++
	n := t.perKey[key]
	if n <= 3 {
		d := fmt.Sprintf(f, a...)
		if len(d) > 4000 {
			d = d[:4000] + "..."
		}
		t.viols = append(t.viols, Viol{key, cs, d, log})
	}
	t.mu.Unlock()
	if n <= 3 {
		t.flush(false)
	}
}

func (t *T) Rand(name string) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%s", t.Seed, t.Prop, name)))
	return rand.New(rand.NewSource(int64(binary.BigEndian.Uint64(h[:]))))
}

// Case runs one case.
func (t *T) Case(name string, fn func(c *C)) { t.CaseT(name, t.caseMax, fn) }

// CaseT runs one case with its own watchdog limit.
func (t *T) CaseT(name string, max time.Duration, fn func(c *C)) {
	if t.Filter != "" && !strings.Contains(name, t.Filter) {
		return
	}
	c := &C{T: t, Name: name, R: t.Rand(name)}
	t.mu.Lock()
	// a run that found something and takes long (because calls hang, usually) has done its job
	if len(t.perKey) > 0 && time.Since(t.begun) > time.Duration(t.Pick(200, 600))*time.Second {
		t.skipped++
		t.mu.Unlock()
		return
	}
	t.running[name] = runInfo{time.Now(), max}
	t.mu.Unlock()
	atomic.AddInt64(&t.evals, 1)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if r == abort {
					return
				}
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, false)]
				if InLibrary(string(buf)) {
					c.Fail("panic", "panic: %v\n%s", r, buf)
				} else {
					panic(r)
				}
			}
		}()
		fn(c)
	}()
	c.done()
	t.mu.Lock()
	delete(t.running, name)
	t.mu.Unlock()
}

// InLibrary tells whether a stack contains frames of the library under test.
func InLibrary(stack string) bool {
	return strings.Contains(stack, "github.com/mindstand/go-bolt") || strings.Contains(stack, "jolestar/go-commons-pool")
}

var abort = new(int)

// Abort ends the case without a verdict of its own (something was recorded already).
func (c *C) Abort() { panic(abort) }

// Must is for conditions of the harness itself.
func (c *C) Must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: case %s: %v", c.Name, err))
	}
}

func (c *C) done() {
	c.mu.Lock()
	cl := c.cleanup
	c.cleanup = nil
	c.mu.Unlock()
	for i := len(cl) - 1; i >= 0; i-- {
		cl[i]()
	}
}

// Defer registers cleanup.
func (c *C) Defer(f func()) { c.mu.Lock(); c.cleanup = append(c.cleanup, f); c.mu.Unlock() }

// Serve starts a fake server for the case.
func (c *C) Serve(s *fake.Server) *fake.Server {
	s.Start()
	c.Attach(s)
	return s
}

// Attach makes a server's log part of the replay, and stops it at the end.
func (c *C) Attach(s *fake.Server) {
	c.mu.Lock()
	c.servers = append(c.servers, s)
	c.mu.Unlock()
	c.Defer(s.Stop)
}

// Logf adds a line to the case's history.
func (c *C) Logf(f string, a ...interface{}) {
	c.mu.Lock()
	if len(c.logs) < 400 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 1000 {
			s = s[:1000] + "..."
		}
		c.logs = append(c.logs, fmt.Sprintf("t=%d %s", fake.Tick(), s))
	}
	c.mu.Unlock()
}

// Fail records a violation.
func (c *C) Fail(key, f string, a ...interface{}) {
	c.mu.Lock()
	c.failed = true
	log := append([]string{}, c.logs...)
	ss := c.servers
	c.mu.Unlock()
	for i, s := range ss {
		log = append(log, fmt.Sprintf("--- server %d (%s)", i, s.Addr))
		log = append(log, s.Log()...)
	}
	if len(log) > 600 {
		log = log[:600]
	}
	c.T.Violate(key, c.Name, log, f, a...)
}

// Failed tells whether this case recorded a violation.
func (c *C) Failed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.failed }

// Event, Distinct and Sample forward.
func (c *C) Event(k string, n int64) { c.T.Event(k, n) }
func (c *C) Distinct(f string, a ...interface{}) {
	c.T.Distinct(fmt.Sprintf(f, a...))
}
func (c *C) Sample(f string, a ...interface{}) { c.T.Sample(c.Name + ": " + fmt.Sprintf(f, a...)) }

// Job is a named case for Parallel.
type Job struct {
	Name string
	Fn   func(c *C)
}

// Parallel runs cases on n goroutines.
func (t *T) Parallel(n int, jobs []Job) {
	ch := make(chan Job)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				t.Case(j.Name, j.Fn)
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

// Result is what the worker leaves for the supervisor.
type Result struct {
	Done     bool
	Evals    int64
	Distinct int64
	Classes  map[string]int64
	Samples  []interface{}
	Events   map[string]int64
	Viols    []Viol
	PerKey   map[string]int
	Notes    []string
	Running  []string
}

func (t *T) flush(done bool) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.finished { // the watchdog goes on while the process ends
		return
	}
	t.finished = done
	if t.skipped > 0 {
		t.events["cases left out after a violation"] = t.skipped
	}
	r := Result{Done: done, Evals: atomic.LoadInt64(&t.evals), Distinct: int64(len(t.distinct)), Samples: t.samples, Events: t.events, Viols: t.viols, PerKey: t.perKey, Notes: t.notes}
	r.Classes = map[string]int64{}
	ks := make([]string, 0, len(t.distinct))
	for k := range t.distinct {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	step := len(ks)/30 + 1
	if SubArg() != "" {
		step = 1
	}
	for i := 0; i < len(ks); i += step {
		r.Classes[ks[i]] = t.distinct[ks[i]]
	}
	for k := range t.running {
		r.Running = append(r.Running, k)
	}
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(t.out+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	os.Rename(t.out+".tmp", t.out)
}

func (t *T) watchdog() {
	last := time.Now()
	for {
		time.Sleep(200 * time.Millisecond)
		if time.Since(last) > 2*time.Second {
			last = time.Now()
			t.flush(false)
		}
		t.mu.Lock()
		var stuck string
		for k, r := range t.running {
			if time.Since(r.start) > r.max {
				stuck = k
			}
		}
		t.mu.Unlock()
		if stuck != "" {
			buf := make([]byte, 4<<20)
			buf = buf[:runtime.Stack(buf, true)]
			var lib []string
			for _, g := range strings.Split(string(buf), "\n\n") {
				if InLibrary(g) {
					lib = append(lib, g)
				}
			}
			if len(lib) == 0 {
				fmt.Fprintf(os.Stderr, "INCONCLUSIVE: case %s did not finish and no library call is pending\n%s\n", stuck, buf)
				t.flush(false)
				os.Exit(3)
			}
			t.Violate("hang", stuck, lib, "case %s made no progress for %v with library calls pending:\n%s", stuck, t.running[stuck].max, lib[0])
			t.flush(true)
			os.Exit(0)
		}
	}
}

// Worker runs one check in this process.
func Worker(id, tier string, seed int64, out, filter string) {
	ck := registry[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check", id)
		os.Exit(3)
	}
	t := &T{begun: time.Now(), Prop: id, Tier: tier, Seed: seed, Thorough: tier == "thorough", Filter: filter, distinct: map[string]int64{}, events: map[string]int64{}, perKey: map[string]int{}, running: map[string]runInfo{}, out: out, caseMax: ck.CaseMax}
	if t.caseMax == 0 {
		t.caseMax = 90 * time.Second
	}
	if ck.Mem > 0 {
		limitMem(ck.Mem)
	}
	if ck.Keep {
		debug.SetMemoryLimit(6 << 30)
		debug.SetGCPercent(-1)
	}
	go t.watchdog()
	ck.Run(t)
	t.flush(true)
}
