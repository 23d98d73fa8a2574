package checks

import (
	"fmt"
	"strings"

	"github.com/mindstand/go-bolt/connection"

	"verif/core"
	"verif/fake"
)

func init() {
	core.Register(&core.Check{ID: "C27", MinEvals: 4,
		Rule: "A case is one connection whose server ends queries with summaries in which each counter, the whole statistics entry, or the summary itself is present, absent, null or of another type; every accessor is called and compared with the summary sent. Distinct: distinct summaries by (which counters are present or absent or ill-typed).",
		Run:  runC27})
}

func runC27(t *core.T) {
	var jobs []core.Job
	for v := 1; v <= 4; v++ {
		v := v
		for i := 0; i < t.Pick(4, 40); i++ {
			i := i
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("stats/v%d/%d", v, i), Fn: func(c *core.C) { c27(c, v, i) }})
		}
	}
	t.Parallel(8, jobs)
}

func c27(c *core.C, v, part int) {
	sc := &script{}
	s := c.Serve(&fake.Server{Version: v, Run: sc.run})
	conn := dial(c, s)
	names := []string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted"}
	absent := new(int)
	vals := []interface{}{absent, absent, int64(0), int64(1), int64(5), int64(1) << 40, int64(-3), nil, "5", 2.5, true, arr{int64(1)}, obj{"a": int64(1)}}
	for k := 0; k < c.T.Pick(80, 300); k++ {
		var summary obj
		sig := ""
		stats := obj{}
		switch mode := c.R.Intn(12); {
		case mode == 0:
			summary = obj{"type": "r"}
			sig = "no stats"
		case mode == 1:
			bad := []interface{}{nil, int64(4), "x", arr{}, true, 1.5}[c.R.Intn(6)]
			summary = obj{"stats": bad}
			sig = fmt.Sprintf("stats %T", bad)
		case mode == 2:
			summary = obj{}
			sig = "empty"
		default:
			for i, n := range names {
				x := vals[c.R.Intn(len(vals))]
				if part == 0 && k < 4*len(vals) { // one counter at a time, the others absent or present
					if i == k%4 {
						x = vals[k/4]
					} else if k%2 == 0 {
						x = absent
					} else {
						x = int64(100 + i)
					}
				}
				if x != interface{}(absent) {
					stats[n] = x
					sig += fmt.Sprintf("%d=%T;", i, x)
				}
			}
			if c.R.Intn(2) == 0 {
				stats["labels-added"] = int64(3)
				stats["contains-updates"] = true
			}
			summary = obj{"stats": stats, "type": "w"}
		}
		// entries that only look like the counters
		decoys := obj{}
		for _, n := range names {
			for _, alike := range []string{strings.ReplaceAll(n, "-", "_"), strings.ToUpper(n), strings.ReplaceAll(n, "-", ""), strings.ReplaceAll(n, "relationships", "rels"), strings.TrimSuffix(n, "d"), n + " ", "total-" + n} {
				if alike != n && c.R.Intn(6) == 0 {
					decoys[alike] = int64(900 + c.R.Intn(99))
				}
			}
		}
		if part > 0 && len(stats) > 0 && c.R.Intn(2) == 0 {
			for k, x := range decoys {
				stats[k] = x
			}
			sig += "+alike"
		}
		if part > 0 && c.R.Intn(3) == 0 {
			for k, x := range decoys {
				summary[k] = x
			}
			for _, n := range names {
				if c.R.Intn(2) == 0 {
					summary[n] = int64(700)
				}
			}
			sig += "+outside"
		}
		res := &fake.Result{Summary: summary}
		if part > 0 && c.R.Intn(3) == 0 {
			res.RunMeta = obj{"t_first": int64(1)}
			if c.R.Intn(2) == 0 {
				res.RunMeta = obj{"stats": obj{"nodes-created": int64(801), "relationships-deleted": int64(802)}}
			}
			sig += "+run"
		}
		if c.R.Intn(3) == 0 {
			res.Fields = []string{"nodes-created"}
			for i := c.R.Intn(3); i > 0; i-- {
				res.Rows = append(res.Rows, []interface{}{int64(600)})
			}
		}
		sc.push(res)
		var r connection.IResult
		var err error
		switch way := c.R.Intn(4); way {
		case 0:
			r, err = conn.Exec("CREATE (n)", nil)
		case 1:
			_, r, err = conn.Query("CREATE (n)", nil)
		default:
			var tx connection.ITransaction
			if tx, err = conn.Begin(); err == nil {
				if way == 2 {
					r, err = tx.Exec("CREATE (n)", nil)
				} else {
					_, r, err = tx.Query("CREATE (n)", nil)
				}
				if err == nil {
					err = tx.Commit()
				}
			}
		}
		if err != nil {
			c.Fail("error", "query failed: %s", errText(err))
			return
		}
		c.Event("summaries", 1)
		c.Distinct("v%d %s", v, sig)
		if k == 5 {
			c.Sample("summary %s", short(summary))
		}
		before := clone(r.Metadata())
		want, isMap := summary["stats"].(obj)
		gs, ok := r.GetStats()
		if ok != isMap {
			c.Fail("stats", "GetStats reports %v for summary %s", ok, short(summary))
		} else if ok {
			if d := same(gs, want); d != "" {
				c.Fail("stats", "GetStats differs at %s for summary %s", d, short(summary))
			}
		}
		for i, f := range []func() (int64, bool){r.GetNodesCreated, r.GetRelationshipsCreated, r.GetNodesDeleted, r.GetRelationshipsDeleted} {
			wantN, has := int64(0), false
			if isMap {
				wantN, has = want[names[i]].(int64)
			}
			n, ok := f()
			if ok != has || (ok && n != wantN) {
				c.Fail("counter", "accessor for %s gives %d,%v for summary %s", names[i], n, ok, short(summary))
			}
			c.Event("accessor calls", 1)
		}
		if d := same(r.Metadata(), before); d != "" {
			c.Fail("modified", "metadata changed by the accessors at %s", d)
		}
		if d := same(r.Metadata(), interface{}(liftMap(summary))); d != "" {
			c.Fail("metadata", "metadata differs at %s", d)
		}
	}
}
