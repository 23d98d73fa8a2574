CONN='connection/connection.go'; POOL='routing/pool.go'; DP='driver_pool.go'; CL='client.go'; RH='routing/routing_handler.go'
SEEDS=[]
def seed(**k): SEEDS.append(k)
PRE='''package main

import (
%s
	"github.com/mindstand/go-bolt/connection"
)

'''

seed(id='timeout-longest', property='C18', ops=[(CONN,'''	c.timeout = timeout
}
''','''	c.timeout, c.initialTimeout = timeout, longer(timeout, c.initialTimeout)
}

// longer returns the longer of two timeouts, so that a server that is known to be slow is given time from then on
func longer(a, b time.Duration) time.Duration {
	if a > b {
		return a
	}
	return b
}
''')],
 demo='''package main

import (
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
)

func main() {
	s := Listen(&Server{Version: 4, On: func(c *Conn, m Struct) bool { return m.Sig == RUN }})
	client, err := goBolt.NewClient(goBolt.WithConnectionString("bolt://u:p@" + s.Addr() + "?timeout=1"))
	Check(err)
	pool, err := client.NewDriverPool(1)
	Check(err)
	conn, err := pool.Open(bolt_mode.WriteMode)
	Check(err)
	conn.SetTimeout(time.Minute)
	Check(pool.Reclaim(conn))
	conn, err = pool.Open(bolt_mode.WriteMode)
	Check(err)
	if !Within(15*time.Second, func() { conn.Query("RETURN 1", nil) }) {
		Fail("a query waits longer than the configured second because an earlier borrower had set a minute")
	}
}
''', needs='a borrower that sets a longer timeout than configured, and a stall while the next one has the connection', breaks='the timeout of a borrower stays with the connection')

seed(id='reclaim-after-close', property='C19', ops=[(DP,'''	if conn == nil {
		return errors.New("cannot reclaim nil connection")
	}

	lent''','''	if conn == nil || d.isClosed() {
		return errors.Wrap(errors.ErrPool, "there is nothing to take back")
	}

	lent''')],
 demo='''package main

import (
	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
)

func main() {
	s := Listen(&Server{Version: 4})
	client, err := goBolt.NewClient(goBolt.WithConnectionString(s.URL("")))
	Check(err)
	pool, err := client.NewDriverPool(2)
	Check(err)
	conn, err := pool.Open(bolt_mode.WriteMode)
	Check(err)
	Check(pool.Close())
	pool.Reclaim(conn)
	if !Eventually(func() bool { return s.Open() == 0 }) {
		Fail("a connection returned after the pool was closed stays open")
	}
}
''', needs='a connection that is returned after its pool was closed', breaks='it is never closed')


seed(id='host-letters', property='C20', ops=[(POOL,'''	hostPort := strings.Replace(connStr, "bolt://", "", -1)
''','''	hostPort := strings.TrimLeft(connStr, "bolt:/")
''')],
 demo='''package main

import (
	"strings"
	"time"

	"github.com/mindstand/go-bolt/routing"
)

func main() {
	var s *Server
	s = Listen(&Server{Version: 3, Rows: func(string) []L {
		a := L{"bolt://" + strings.Replace(s.Addr(), "127.0.0.1", "localhost", 1)}
		return []L{{"1", a, "LEADER", L{}, "default"}, {"2", a, "FOLLOWER", L{}, "default"}}
	}})
	pool, err := routing.NewRoutingPool(s.URL(""), 4, time.Hour, "u:p", "")
	Check(err)
	if err := pool.Start(); err != nil {
		Fail("a pool with members named localhost can not be started: %v", err)
	}
}
''', needs='a member whose host name begins with one of the letters of the scheme', breaks='the beginning of its name is cut off, so it is never used')
