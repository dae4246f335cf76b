package main

import (
	"encoding/json"
	"fmt"
	"time"

	bdb "github.com/boltdb/bolt"
	goredis "github.com/go-redis/redis/v8"

	"mcverif/vs"
)

// C09: closing.

// cutOff: an operation on redis that was cut off by the close may or may not
// have reached the server.
func cutOff(ev []event) []event {
	out := append([]event{}, ev...)
	for i := range out {
		e := &out[i]
		if e.res.Err != eClosed || e.op.K == OpClose {
			continue
		}
		for _, c := range ev {
			if c.op.K == OpClose && c.op.P == e.op.P && c.call < e.ret && e.call < c.ret {
				e.noResult, e.optional = true, true
			}
		}
	}
	return out
}

func writes(k Kind) bool {
	return kindIn(k, []Kind{OpCreate, OpPut, OpDelete, OpRefresh, OpDestroyToken, OpDestroyID, OpClear})
}

// checkClosed: provider 0 has been closed.
func checkClosed(a *ConcArgs, x *Exec, w *World, h *history) {
	closedOnce := 0
	for _, e := range h.ev {
		if e.op.K == OpClose && e.op.P == 0 && e.res.Err == "" {
			closedOnce++
		}
	}
	if closedOnce != 1 {
		x.fail("%d of the closes succeeded", closedOnce)
		return
	}
	quiet := true
	for _, t := range a.Threads {
		for _, o := range t {
			quiet = quiet && !writes(o.K)
		}
	}
	afterClose(x, w, len(w.p) == 1, quiet, h.dump)
}

// afterClose checks what a closed provider may leave behind. before is the
// dump of the database at the close, compared when quiet is set.
func afterClose(x *Exec, w *World, background, quiet bool, before string) {
	vs.Quiesce()
	if n := vs.LiveBackground(); background && n != 0 {
		x.fail("%d background goroutines are left after the close", n)
	}
	dump := func() string {
		if w.db != nil {
			return fmt.Sprint(dumpBolt(w.db))
		}
		return ""
	}
	d := dump()
	if quiet && before != "" && len(w.p) == 1 && d != before {
		x.fail("the shared database was changed after the close")
	}
	if len(w.p) == 1 && w.c.Backend == "bolt" && w.c.Clear > 0 {
		// ticks of the sweep go nowhere
		n := vs.NowNS()
		vs.Advance(w.c.Clear)
		vs.Quiesce()
		vs.Advance(-time.Duration(vs.NowNS() - n))
		if dump() != d {
			x.fail("the shared database is changed by a sweep after the close")
		}
	}
	switch {
	case w.c.Backend == "bolt" && w.c.Own:
		db, err := bdb.Open(w.path, 0o600, &bdb.Options{Timeout: 50 * time.Millisecond})
		if err != nil {
			x.fail("the provider closed its own file but it cannot be opened: %v", err)
			return
		}
		db.Close()
	case w.c.Backend == "bolt":
		// the database was handed in: it has to be as good as before
		err := w.db.Update(func(t *bdb.Tx) error {
			_, e := t.CreateBucketIfNotExists([]byte("foreign"))
			return e
		})
		if err == nil {
			err = w.db.View(func(t *bdb.Tx) error { return nil })
		}
		if err != nil {
			x.fail("the database handed to the provider is unusable after the close: %v", err)
		}
	case w.c.Backend == "redis" && w.c.Own:
		if len(w.p) == 1 {
			if n := w.srv.OpenConns(); n != 0 {
				x.fail("%d connections of the provider's own client are left open after the close", n)
			}
		}
	case w.c.Backend == "redis":
		for _, cl := range w.cl {
			if err := cl.Ping(w.ctx).Err(); err == goredis.ErrClosed {
				x.fail("the client handed to the provider is unusable after the close: %v", err)
			}
		}
	}
}

// released: what the provider itself opened is free the moment the close has
// returned.
func released(x *Exec, w *World) bool {
	if !w.c.Own || len(w.p) != 1 {
		return true
	}
	switch w.c.Backend {
	case "bolt":
		db, err := bdb.Open(w.path, 0o600, &bdb.Options{Timeout: time.Millisecond})
		if err != nil {
			x.fail("the close has returned, but the provider's file cannot be opened: %v", err)
			return false
		}
		db.Close()
	case "redis":
		if n := w.srv.OpenConns(); n != 0 {
			x.fail("the close has returned, but %d connections of the provider's own client are open", n)
			return false
		}
	}
	return true
}

func init() {
	suites["close"] = func(raw json.RawMessage) func(*Exec) {
		var a SeqArgs
		decode(raw, &a)
		return func(x *Exec) { closeBody(&a, x) }
	}
	register(&Prop{ID: "C09",
		Bounds: "every sequence up to the depth with a close at every position followed by every operation, on own and on shared files, databases and clients, then reopened and compared; every schedule (preemption bound 2, thorough 3) of a close against every operation, another close, the sweep and pending reclamation",
		Assume: []string{"an operation on redis that is cut off by the close may have been carried out by the server"},
		Jobs:   closeJobs})
}

// closeBody: Depth operations, a close, Depth more operations; at the end what
// is left behind is inspected and the store is looked at again.
func closeBody(a *SeqArgs, x *Exec) {
	w := newWorld(a.Cfg)
	defer w.Done()
	r := &run{x: x, w: w, m: newModel(a.Cfg), lazy: a.Lazy}
	for _, o := range a.Setup {
		if !r.step(o) {
			return
		}
	}
	k := x.choose(a.Depth + 1)
	var before string
	for i := 0; i < a.Depth+1; i++ {
		var o Op
		if i == k {
			o = Op{K: OpClose}
		} else {
			o = a.Ops[x.choose(len(a.Ops))]
		}
		if !r.step(o) {
			return
		}
		if i == k && !released(x, w) {
			return
		}
		if i == k && w.db != nil {
			before = fmt.Sprint(dumpBolt(w.db))
		}
		x.state(a.Cfg.String() + r.m.canon())
	}
	if !r.probe(a.Toks, a.Keys) || !r.step(Op{K: OpClose}) || !r.step(Op{K: OpClose}) {
		return
	}
	afterClose(x, w, len(w.p) == 1, true, before)
	if x.failed() {
		return
	}
	switch a.Cfg.Backend {
	case "bolt":
		if !r.step(Op{K: OpReopen}) {
			return
		}
	case "redis":
		// somebody else comes to the same server
		p, err := w.open(0)
		if err != nil {
			x.fail("open: %v", err)
			return
		}
		w.p[0] = p
		r.m.closed[0] = false
	default:
		return
	}
	if r.probe(a.Toks, a.Keys) {
		r.life(a.Toks, a.Cfg, false)
	}
}

func closeJobs(th bool) []Job {
	var out []Job
	tk := append(tokList("a", 3), tok("b", 1))
	base := setup(create("a", 1, kv("k", "v1")), create("a", 2, kv("k", "v2"), kv("k2", big)), create("b", 1))
	var cfgs []Config
	for _, c := range backends(2*u, 3*u) {
		c.Clear = 4 * u
		cfgs = append(cfgs, c)
		switch c.Backend {
		case "bolt":
			c.Own = true
			cfgs = append(cfgs, c)
		case "redis":
			o := c
			o.Own = true
			c.N, c.Shared = 2, true
			cfgs = append(cfgs, o, c)
		}
	}
	for _, c := range cfgs {
		ops := []Op{create("a", 1, kv("k", "n")), create("a", 3), put("a", 1, kv("k", "w")), get("a", 1, "k"), keysOf("a", 1), del("a", 1, "k"), check("a", 1), refresh("a", 1, 3),
			killTok("a", 1), killID("a"), tick(u), tick(2 * u), jump(3 * u)}
		if c.Backend == "bolt" {
			ops = append(ops, Op{K: OpClear})
		}
		if c.N == 2 {
			ops = append(ops, on(1, check("a", 1)), on(1, put("a", 1, kv("k", "p1"))), on(1, refresh("a", 1, 3)))
		}
		for d := 0; d <= pick(th, 2, 3); d++ {
			for _, lazy := range []bool{false, true} {
				a := SeqArgs{Cfg: c, Setup: base, Ops: ops, Depth: d, Toks: tk, Keys: []string{"k", "k2"}, Lazy: lazy}
				out = append(out, job("close", fmt.Sprintf("close [%s] depth=%d lazy=%v", c, d, lazy), 0, a))
			}
		}
		// schedules
		if c.N == 2 {
			continue
		}
		for _, batch := range []int{128, 0} {
			cc := c
			cc.Batch = batch
			for _, name := range []string{"fresh", "dead"} {
				sp := concSpec{name: "close " + name, bound: pick(th, 2, 3), args: ConcArgs{Cfg: cc, Setup: base, Toks: tk, Keys: []string{"k"}, Closing: true, Clock: half}}
				if name == "dead" {
					sp.args.Setup = append(append([]Op{}, base...), jump(3*u))
				} else if batch == 0 {
					continue
				}
				cl := Op{K: OpClose}
				cops := []Op{create("a", 1, kv("k", "n")), create("a", 3), put("a", 1, kv("k", "w")), get("a", 1, "k"), keysOf("a", 1), del("a", 1, "k"), check("a", 1), refresh("a", 1, 3), killTok("a", 1), killID("a"), {K: OpClose}, jump(u)}
				if c.Backend == "bolt" {
					cops = append(cops, Op{K: OpClear})
				}
				sp.args.Split = c.Backend == "redis"
				for _, o := range cops {
					out = append(out, concJob(sp, [][]Op{{o}, {cl}}))
					if c.Own && !th {
						continue
					}
					if o.K != OpClose {
						out = append(out, concJob(sp, [][]Op{{o}, {cl, check("a", 2)}}))
					}
					if name == "dead" && o.K != OpClose {
						out = append(out, concJob(sp, [][]Op{{check("a", 2), o}, {cl}}))
						s1 := sp
						s1.bound--
						out = append(out, concJob(s1, [][]Op{{get("a", 2, "k")}, {o}, {cl}}))
					}
					if c.Clear > 0 && c.Backend != "redis" {
						// the sweep's tick arrives around the close
						s2 := sp
						s2.args.Setup = append(append([]Op{}, base...), jump(3*u))
						s2.name += " sweep"
						if name == "dead" {
							continue
						}
						if c.Backend == "bolt" && !th {
							s2.bound--
						}
						out = append(out, concJob(s2, [][]Op{{jump(u), o}, {cl}}))
						if o.K == OpCheck || o.K == OpPut {
							s2.bound = pick(th, 1, 2)
							out = append(out, concJob(s2, [][]Op{{jump(u)}, {o}, {cl}}))
						}
					}
				}
			}
		}
	}
	out = append(out, mgrJobs("C09", th)...)
	return out
}
