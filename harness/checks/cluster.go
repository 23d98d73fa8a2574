package checks

import (
	"fmt"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"
	"github.com/mindstand/go-bolt/routing"

	"verif/core"
	"verif/fake"
)

const overviewQuery = "call dbms.cluster.overview()"

// cluster is a set of fake servers that tell the same overview.
type cluster struct {
	c       *core.C
	v       int
	members []*fake.Server
	seed    *fake.Server

	mu       sync.Mutex
	roles    []string // per member; "" is not in the overview
	override func() (*fake.Result, *fake.Act)
	shuffle  *rand.Rand
	hold     bool           // overviews are answered only when it is off
	named    bool           // members advertise the name localhost
	plain    bool           // no decoys
	via      map[int]string // advertised instead of the real addresses

	served int64 // overviews asked for
	done   int64 // overviews answered
}

// newCluster starts k members and a server to ask, which is one of the members unless apart.
func newCluster(c *core.C, v, k int, apart bool, roles ...string) *cluster {
	return newClusterWith(c, v, k, apart, nil, roles...)
}

// newClusterWith lets prep change the servers before they start; the last one is the seed, if apart.
func newClusterWith(c *core.C, v, k int, apart bool, prep func(i int, s *fake.Server), roles ...string) *cluster {
	cl := &cluster{c: c, v: v, shuffle: newRand(c.R.Int63()), roles: make([]string, k)}
	copy(cl.roles, roles)
	n := k
	if apart {
		n++
	}
	shape := memberShape(c.R)
	if c.R.Intn(5) == 0 && localhost() {
		shape, cl.named = func(i int, s *fake.Server) { s.Host = "127.0.0.1" }, true
	}
	for i := 0; i < n; i++ {
		i := i
		s := &fake.Server{Version: v, NoLog: true}
		s.Run = func(fc *fake.Conn, m *fake.Msg) *fake.Result {
			if m.Query == overviewQuery {
				// the cluster is known to the system database, others may not be there
				if db, _ := m.Extra["db"].(string); v == 4 && db != "system" {
					return &fake.Result{Fail: &fake.Failure{Code: "Neo.ClientError.Database.DatabaseNotFound", Message: "no database " + db}}
				}
				return cl.overview()
			}
			r := whoResult(fc, m)
			for _, row := range r.Rows {
				row[0] = int64(i)*100000 + int64(fc.ID)
			}
			return r
		}
		s.Hook = func(fc *fake.Conn, m *fake.Msg, rep []interface{}) ([]interface{}, *fake.Act) {
			if m.Query != overviewQuery {
				return rep, nil
			}
			for {
				cl.mu.Lock()
				h := cl.hold
				cl.mu.Unlock()
				if !h || fc.IsPeerClosed() {
					break
				}
				time.Sleep(time.Millisecond)
			}
			cl.mu.Lock()
			defer cl.mu.Unlock()
			if cl.override != nil {
				if _, act := cl.override(); act != nil {
					return rep, act
				}
			}
			return rep, nil
		}
		if prep != nil {
			prep(i, s)
		}
		if s.Host == "" && s.TLS == nil {
			shape(i, s)
		}
		c.Serve(s)
		if i < k {
			cl.members = append(cl.members, s)
		}
		cl.seed = s
	}
	if !apart {
		cl.seed = cl.members[c.R.Intn(k)]
	}
	return cl
}

// localhost tells whether that name can be used for servers.
func localhost() bool {
	ips, err := net.LookupHost("localhost")
	for _, ip := range ips {
		if err == nil && ip == "127.0.0.1" {
			return true
		}
	}
	return false
}

// memberShape chooses how the addresses of the members relate: each its own host and port, one host for all,
// the same port on all hosts, or hosts and ports that begin with those of other members.
func memberShape(r *rand.Rand) func(i int, s *fake.Server) {
	host, port := fake.FreshIP(), 2000+r.Intn(1200)
	switch r.Intn(4) {
	case 0:
		return func(i int, s *fake.Server) { s.Host = host }
	case 1:
		return func(i int, s *fake.Server) { s.WantPort = 7687 }
	case 2:
		return func(i int, s *fake.Server) {
			s.Host = host
			if s.WantPort = port; i > 0 {
				s.WantPort = port*10 + i
			}
		}
	}
	return func(int, *fake.Server) {}
}

// addresses are what a member advertises: its Bolt address among others.
func (cl *cluster) addresses(i int) arr {
	s := cl.members[i]
	other := cl.members[(i+1)%len(cl.members)]
	addr := s.Addr
	if cl.named && s.Host == "127.0.0.1" {
		addr = strings.Replace(addr, "127.0.0.1", "localhost", 1)
	}
	a := arr{"bolt://" + addr,
		"http://" + s.Addr, "https://" + s.Addr,
		"http://bolt-" + fmt.Sprint(i) + ".example:7474", "https://neo4j.example:7473/bolt", "http://" + other.Addr + "/bolt",
		// what drivers of other kinds are told to use
		"bolt+routing://decoy.example:7687", "bolts://127.0.0.1:7473", "neo4j://" + other.Addr, "bolt+s://" + s.Addr, "boltx:7687"}
	if cl.plain {
		if x, ok := cl.via[i]; ok {
			return arr{"bolt://" + x}
		}
		return a[:1]
	}
	a = a[:1+cl.shuffle.Intn(len(a))]
	cl.shuffle.Shuffle(len(a), func(x, y int) { a[x], a[y] = a[y], a[x] })
	return a
}

func (cl *cluster) row(i int, role string) []interface{} {
	if !cl.plain && cl.shuffle.Intn(4) == 0 {
		role = strings.ToLower(role)
	}
	id := fmt.Sprintf("00000000-%04d", i)
	if cl.v == 4 {
		dbs := obj{"system": role}
		if !cl.plain && cl.shuffle.Intn(2) == 0 {
			dbs["neo4j"] = []string{"LEADER", "FOLLOWER", "READ_REPLICA"}[cl.shuffle.Intn(3)]
		}
		return []interface{}{id, cl.addresses(i), dbs, arr{}}
	}
	return []interface{}{id, cl.addresses(i), role, arr{"g"}, "default"}
}

func (cl *cluster) overview() *fake.Result {
	atomic.AddInt64(&cl.served, 1)
	cl.mu.Lock()
	defer cl.mu.Unlock()
	if cl.override != nil {
		if r, _ := cl.override(); r != nil {
			return r
		}
	}
	return cl.good()
}

// good is the overview of the current roles.
func (cl *cluster) good() *fake.Result {
	var rows [][]interface{}
	for i, role := range cl.roles {
		switch role {
		case "":
		case both: // as when one address stands for several members
			rows = append(rows, cl.row(i, "LEADER"), cl.row(i, []string{"FOLLOWER", "READ_REPLICA"}[cl.shuffle.Intn(2)]))
			rows[len(rows)-1][0] = rows[len(rows)-1][0].(string) + "-b"
		default:
			rows = append(rows, cl.row(i, role))
		}
	}
	cl.shuffle.Shuffle(len(rows), func(x, y int) { rows[x], rows[y] = rows[y], rows[x] })
	return &fake.Result{Fields: cl.fields(), Rows: rows, Summary: obj{"type": "r"}}
}

func (cl *cluster) fields() []string {
	if cl.v == 4 {
		return []string{"id", "addresses", "databases", "groups"}
	}
	return []string{"id", "addresses", "role", "groups", "database"}
}

func (cl *cluster) set(roles []string) {
	cl.mu.Lock()
	cl.roles = append([]string{}, roles...)
	cl.mu.Unlock()
}

func (cl *cluster) bad(f func() (*fake.Result, *fake.Act)) {
	cl.mu.Lock()
	cl.override = f
	cl.mu.Unlock()
}

// eligible returns the members for an access mode.
func (cl *cluster) eligible(roles []string, mode bolt_mode.AccessMode) map[int]bool {
	m := map[int]bool{}
	for i, r := range roles {
		if (r == "LEADER") == (mode == bolt_mode.WriteMode) && r != "" || r == both {
			m[i] = true
		}
	}
	return m
}

// refreshed waits until the overview was asked for k more times; what came before the last one has been applied then.
// answering tells whether overviews are answered.
func (cl *cluster) answering(yes bool) { cl.mu.Lock(); cl.hold = !yes; cl.mu.Unlock() }

func (cl *cluster) refreshed(k int64) bool {
	at := atomic.LoadInt64(&cl.served)
	end := time.Now().Add(2 * slow)
	for atomic.LoadInt64(&cl.served) < at+k {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(time.Millisecond)
	}
	return true
}

// held counts connections of the driver to members, without those that ask for the overview.
func (cl *cluster) held() (n int, per []int) {
	for _, s := range cl.members {
		k := 0
		for _, fc := range s.Conns() {
			if !fc.IsPeerClosed() && !isOverview(fc) {
				k++
			}
		}
		per = append(per, k)
		n += k
	}
	return
}

func isOverview(fc *fake.Conn) bool { return fc.Asked(overviewQuery) }

// settleHeld waits until the driver holds want connections to members.
func (cl *cluster) settleHeld(want int) int {
	end := time.Now().Add(slow)
	for {
		n, _ := cl.held()
		if n == want || time.Now().After(end) {
			return n
		}
		time.Sleep(time.Millisecond)
	}
}

// routed drives a routing pool and watches it.
type routed struct {
	c    *core.C
	prop string
	cl   *cluster
	p    routing.IRoutingPool
	n    int

	mu      sync.Mutex
	lent    map[bolt_mode.AccessMode]int
	owner   map[int]string
	token   int64
	faultA  int64
	faultB  int64
	suspect int
	stale   []connection.IConnection
}

func (cl *cluster) url(query string) string { return connURL(cl.seed, query) }

// authPart and tlsPart are what the client passes for the members.
func newRouted(c *core.C, prop string, cl *cluster, n int, interval time.Duration, query string) *routed {
	h := &routed{c: c, prop: prop, cl: cl, n: n, lent: map[bolt_mode.AccessMode]int{}, owner: map[int]string{}}
	if query == "" {
		query = "timeout=20"
	}
	auth, info := "neo4j:secret", "?"+query
	if c.R.Intn(6) == 0 { // these servers take anyone
		auth = ""
		if query == "timeout=20" && c.R.Intn(2) == 0 {
			info = ""
		}
	}
	p, err := routing.NewRoutingPool(cl.url(query), n, interval, auth, info)
	c.Must(err)
	h.p = p
	c.Defer(func() { p.Stop() })
	return h
}

func (h *routed) fail(props, key, f string, a ...interface{}) {
	if strings.Contains(props, h.prop) {
		h.c.Fail(key, f, a...)
	}
}

func (h *routed) tok() string { return fmt.Sprintf("W %d", atomic.AddInt64(&h.token, 1)) }

func (h *routed) share(mode bolt_mode.AccessMode) int {
	if mode == bolt_mode.WriteMode {
		return h.n - h.n/2
	}
	return h.n / 2
}

func modeName(m bolt_mode.AccessMode) string {
	if m == bolt_mode.WriteMode {
		return "write"
	}
	return "read"
}

func (h *routed) open(mode bolt_mode.AccessMode) (connection.IConnection, error) {
	if mode == bolt_mode.WriteMode {
		return h.p.BorrowRWConnection()
	}
	return h.p.BorrowRConnection()
}

func (h *routed) calm(a int64) bool { return atomic.LoadInt64(&h.faultA) == a }

type rloan struct {
	loan
	mode   bolt_mode.AccessMode
	member int
}

func (h *routed) borrow(mode bolt_mode.AccessMode, who_ string) (*rloan, error) {
	a := atomic.LoadInt64(&h.faultB)
	conn, err := h.open(mode)
	h.c.Event("borrows", 1)
	if err != nil {
		if conn != nil {
			h.fail("C21", "borrow both", "borrowing returned a connection and the error %s", errText(err))
		}
		return nil, err
	}
	if conn == nil {
		h.fail("C21", "borrow nothing", "borrowing returned neither a connection nor an error")
		return nil, fmt.Errorf("nothing")
	}
	h.mu.Lock()
	h.lent[mode]++
	if h.lent[mode] > h.share(mode) {
		h.fail("C21", "too many lent", "%d connections for %s are lent at once, the share of a pool of %d is %d", h.lent[mode], modeName(mode), h.n, h.share(mode))
	}
	h.mu.Unlock()
	l := &rloan{loan: loan{conn: conn, id: -1, who: who_}, mode: mode, member: -1}
	id, err := who(conn, h.tok())
	if err != nil {
		l.dead = true
		if strings.HasPrefix(err.Error(), "wrong rows") {
			h.fail("C21", "mixed rows", "the first query on a borrowed connection returned %v", err)
		} else if h.calm(a) {
			h.mu.Lock()
			h.suspect++
			n := h.suspect
			h.mu.Unlock()
			h.c.Logf("first query on a borrowed connection failed: %s", errText(err))
			if n >= 3 {
				h.fail("C21", "dead lent", "%d borrowed connections did not work although nothing happened since they were borrowed, the last with %s", n, errText(err))
			}
		}
		return l, nil
	}
	l.id, l.member = id, id/100000
	h.mu.Lock()
	if o, busy := h.owner[id]; busy {
		h.fail("C21", "shared", "connection %d is lent to %s while %s has it", id, who_, o)
	}
	h.owner[id] = who_
	h.mu.Unlock()
	return l, nil
}

func (h *routed) release(l *rloan) {
	h.mu.Lock()
	h.lent[l.mode]--
	if l.id >= 0 && h.owner[l.id] == l.who {
		delete(h.owner, l.id)
	}
	h.mu.Unlock()
}

func (h *routed) giveBack(l *rloan) {
	h.release(l)
	if err := h.p.Reclaim(l.conn); err != nil {
		h.fail("C21", "reclaim error", "returning a borrowed connection failed: %s", errText(err))
	}
}

// probe borrows everything there is and checks how much it is and which members it is on.
func (h *routed) probe(roles []string, after string, spread bool) bool {
	ok := true
	var all []*rloan
	for _, mode := range []bolt_mode.AccessMode{bolt_mode.WriteMode, bolt_mode.ReadMode} {
		el := h.cl.eligible(roles, mode)
		used := map[int]int{}
		for i := 0; i < h.share(mode); i++ {
			l, err := h.borrow(mode, fmt.Sprintf("probe %d", i))
			if err != nil || l.dead {
				h.fail("C20 C21 C23", "capacity lost", "after %s, %d of the %d connections for %s can be borrowed: %v", after, i, h.share(mode), modeName(mode), err)
				ok = false
				break
			}
			all = append(all, l)
			used[l.member]++
			if !el[l.member] {
				h.fail("C20 C23", "wrong member", "after %s, a connection for %s is to member %d; the roles are %v", after, modeName(mode), l.member, roles)
				ok = false
			}
		}
		if !ok {
			break
		}
		if l, err := h.borrow(mode, "one more"); err == nil {
			h.fail("C21", "too many lent", "after %s, %d connections for %s could be borrowed at once", after, h.share(mode)+1, modeName(mode))
			all = append(all, l)
			ok = false
		}
		want := len(el)
		if h.share(mode) < want {
			want = h.share(mode)
		}
		if spread && len(used) < want {
			h.fail("C20", "not spread", "after %s, the %d connections for %s use %d of the %d eligible members: %v (roles %v)", after, h.share(mode), modeName(mode), len(used), len(el), used, roles)
			ok = false
		}
		if spread {
			for m, k := range used {
				if k > (h.share(mode)+len(el)-1)/len(el)+1 {
					h.fail("C20", "not spread", "after %s, %d of the %d connections for %s are to member %d of %d eligible ones: %v", after, k, h.share(mode), modeName(mode), m, len(el), used)
					ok = false
				}
			}
		}
	}
	for _, l := range all {
		h.giveBack(l)
	}
	if ok && spread && !h.c.Failed() {
		ok = h.rotate(roles, after)
	}
	h.c.Event("placement probes", 1)
	return ok && !h.c.Failed()
}

// rotate borrows and returns one at a time: that work is spread over the members as well.
func (h *routed) rotate(roles []string, after string) bool {
	for _, mode := range []bolt_mode.AccessMode{bolt_mode.WriteMode, bolt_mode.ReadMode} {
		el := h.cl.eligible(roles, mode)
		want := len(el)
		if h.share(mode) < want {
			want = h.share(mode)
		}
		used := map[int]int{}
		for i := 0; i < 4*h.share(mode) && len(used) < want; i++ {
			l, err := h.borrow(mode, fmt.Sprintf("turn %d", i))
			if err != nil || l.dead {
				h.fail("C20 C21 C23", "capacity lost", "after %s, borrowing for %s one at a time failed: %v", after, modeName(mode), err)
				return false
			}
			used[l.member]++
			h.giveBack(l)
		}
		if len(used) < want {
			h.fail("C20", "turns not spread", "after %s, borrowing and returning for %s %d times uses %d of the %d eligible members: %v", after, modeName(mode), 4*h.share(mode), len(used), len(el), used)
			return false
		}
	}
	return true
}

// randRoles returns random roles with at least one leader and one reader.
func randRoles(r *rand.Rand, k int, leaders int) []string {
	roles := make([]string, k)
	for i := range roles {
		roles[i] = []string{"FOLLOWER", "READ_REPLICA", "FOLLOWER", ""}[r.Intn(4)]
	}
	perm := r.Perm(k)
	for i := 0; i < leaders && i < k-1; i++ {
		roles[perm[i]] = "LEADER"
	}
	roles[perm[k-1]] = []string{"FOLLOWER", "READ_REPLICA"}[r.Intn(2)]
	return roles
}

// both is the role of members that are listed once as leader and once as reader.
const both = "BOTH"

// dualRoles makes a member of each access mode one of both, sometimes.
func dualRoles(r *rand.Rand, roles []string) []string {
	if r.Intn(3) == 0 {
		roles[r.Intn(len(roles))] = both
	}
	return roles
}

func roleSig(roles []string) string {
	var s []string
	for _, r := range roles {
		if r == "" {
			r = "-"
		}
		s = append(s, r[:1])
	}
	sort.Strings(s)
	return strings.Join(s, "")
}
