package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	bdb "github.com/boltdb/bolt"

	"mcverif/vs"
)

// Property C18: several providers on one database or server, each against a
// model of its own (those of one name share one), beside foreign data.

// IsoArgs: every sequence of Depth operations on the providers.
type IsoArgs struct {
	Cfg   Config
	Setup []Op
	Ops   []Op
	Depth int
	First int
	Toks  []string
	Keys  []string
	// instead of sequences: these run at the same time, each on providers of a
	// name of its own
	Threads [][]Op
}

func init() {
	suites["iso"] = func(raw json.RawMessage) func(*Exec) {
		var a IsoArgs
		decode(raw, &a)
		return func(x *Exec) { isoBody(&a, x) }
	}
}

// iso is several runs on one world.
type iso struct {
	x  *Exec
	w  *World
	ms map[string]*Model // by name
	n  int
}

func (q *iso) step(o Op) bool {
	q.n++
	got := q.w.Do(o)
	vs.Quiesce()
	var want Res
	if o.K == OpTick || o.K == OpJump {
		for _, m := range q.ms {
			m.Do(o)
		}
	} else {
		want = q.ms[q.w.name(o.P)].Do(o)
	}
	q.x.trans++
	q.x.logf("%s -> %s", o, got)
	q.x.outcome(kindNames[o.K] + " " + outcomeOf(got))
	if !sameRes(got, want) {
		q.x.fail("step %d: %s returned [%s], the reference says [%s]", q.n, o, got, want)
		return false
	}
	return true
}

func (q *iso) probe(toks, keys []string) bool {
	for p := range q.w.p {
		for _, t := range toks {
			if !q.step(Op{K: OpCheck, P: p, T: t}) || !q.step(Op{K: OpKeys, P: p, T: t}) || !q.step(Op{K: OpGet, P: p, T: t, Keys: keys}) {
				return false
			}
		}
	}
	return true
}

func (q *iso) canon() string {
	var s []string
	for n, m := range q.ms {
		s = append(s, n+":"+m.canon())
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

// plant writes foreign data of every shape beside the providers' own.
func (q *iso) plant(toks []string) {
	w := q.w
	switch w.c.Backend {
	case "bolt":
		err := w.db.Update(func(t *bdb.Tx) error {
			for _, top := range []string{"foreign", "metadata", "data", "ids", "lru", "count", "a", tok("a", 1), "sessionid "} {
				if t.Bucket([]byte(top)) != nil {
					continue
				}
				b, err := t.CreateBucket([]byte(top))
				if err != nil {
					return err
				}
				for _, k := range append([]string{"count", "k", "a", "\x00\x00\x00\x00\x00\x00\x00\x01"}, toks...) {
					b.Put([]byte(k), []byte("foreign "+k))
				}
				for _, n := range []string{"sub", "metadata2", "data2"} {
					s, err := b.CreateBucket([]byte(n))
					if err != nil {
						return err
					}
					s.Put([]byte(tok("a", 1)), []byte("foreign"))
				}
			}
			return nil
		})
		if err != nil {
			panic(err)
		}
	case "redis":
		s := w.srv
		for _, t := range toks {
			s.Set(t, "foreign string")
			s.SetHash("foreign."+t, "k", "foreign", "__private_provider_redis", "foreign")
			s.SetHash("foreign:x"+t+".a", "k", "foreign")
		}
		s.Set("foreign", "foreign")
		s.Set("a", "foreign")
		s.Set("a.", "foreign")
		s.SetHash("__private_provider_redis", "k", "foreign")
	}
}

// foreign renders everything that belongs to none of the providers.
func (q *iso) foreign() string {
	w := q.w
	var rows []string
	if w.c.Backend == "bolt" {
		for k, v := range dumpBolt(w.db) {
			mine := false
			for _, n := range w.c.Names {
				mine = mine || strings.HasPrefix(k, "/"+n+"/")
			}
			if !mine {
				rows = append(rows, k+"="+v)
			}
		}
	} else {
		for _, l := range strings.Split(w.srv.Dump(), "\n") {
			mine := l == ""
			for _, n := range w.c.Names {
				q := fmt.Sprintf("%q", n)
				mine = mine || strings.HasPrefix(l, q[:len(q)-1])
			}
			if !mine {
				rows = append(rows, l)
			}
		}
	}
	sort.Strings(rows)
	return strings.Join(rows, "\n")
}

func isoBody(a *IsoArgs, x *Exec) {
	w := newWorld(a.Cfg)
	q := &iso{x: x, w: w, ms: map[string]*Model{}}
	defer w.Done()
	for i := range w.p {
		c := a.Cfg
		if i < len(c.Each) {
			e := c.Each[i]
			c.Access, c.Refresh, c.Max, c.MetaKey = e.Access, e.Refresh, e.Max, e.MetaKey
		}
		if q.ms[w.name(i)] == nil {
			q.ms[w.name(i)] = newModel(c)
		}
	}
	q.plant(a.Toks)
	was := q.foreign()
	same := func() bool {
		if now := q.foreign(); now != was {
			x.fail("after step %d: data that is not the providers' own changed\nfrom %s\nto %s", q.n, was, now)
			return false
		}
		return true
	}
	for _, o := range a.Setup {
		if !q.step(o) {
			return
		}
	}
	if len(a.Threads) > 0 && !q.together(a.Threads) {
		return
	}
	for i := 0; i < a.Depth; i++ {
		k := a.First
		if i > 0 || k < 0 {
			k = x.choose(len(a.Ops))
		}
		if !q.step(a.Ops[k]) {
			return
		}
		x.state(a.Cfg.String() + q.canon())
	}
	if !same() || !q.probe(a.Toks, a.Keys) || !same() {
		return
	}
	// one dies while the other goes on: whoever is closed is opened again
	for i := 0; i < 2; i++ {
		p := i % len(w.p)
		if !q.step(Op{K: OpReopen, P: p}) || !q.step(Op{K: OpCreate, P: p, T: tok("last", 1), R: rtok("last", 1)}) || !q.step(Op{K: OpDestroyID, P: p, ID: "last"}) {
			return
		}
	}
	if !q.probe(a.Toks, nil) {
		return
	}
	longest := a.Cfg.Refresh
	for _, e := range a.Cfg.Each {
		if e.Refresh > longest {
			longest = e.Refresh
		}
	}
	for k := 0; k < 2; k++ {
		if !q.step(Op{K: OpTick, D: int64(longest+longest%2) / 2}) || !q.probe(a.Toks, nil) {
			return
		}
	}
	if !same() {
		return
	}
	for p := range w.p {
		if !q.step(Op{K: OpClose, P: p}) {
			return
		}
	}
	if !same() {
		return
	}
	// what was handed to the providers is still open
	if w.db != nil {
		if err := w.db.View(func(*bdb.Tx) error { return nil }); err != nil {
			x.fail("the database handed to the providers cannot be used after their close: %v", err)
		}
	}
	for _, c := range w.cl {
		if err := c.Ping(w.ctx).Err(); err != nil {
			x.fail("the client handed to the providers cannot be used after their close: %v", err)
		}
	}
}

// together runs the threads at the same time: none notices the others.
func (q *iso) together(threads [][]Op) bool {
	res := make([][]Res, len(threads))
	vs.Explore(true)
	var hs []*vs.Handle
	for i, ops := range threads {
		i, ops := i, ops
		hs = append(hs, vs.Spawn(fmt.Sprintf("t%d", i), func() {
			for _, o := range ops {
				res[i] = append(res[i], q.w.Do(o))
			}
		}))
	}
	vs.Join(hs...)
	vs.Explore(false)
	vs.Quiesce()
	for i, ops := range threads {
		for k, o := range ops {
			q.x.trans++
			q.x.logf("t%d %s -> %s", i, o, res[i][k])
			if want := q.ms[q.w.name(o.P)].Do(o); !sameRes(res[i][k], want) {
				q.x.fail("%s returned [%s] beside operations on a store of another name, the reference says [%s]", o, res[i][k], want)
				return false
			}
		}
	}
	q.x.state(q.w.c.String() + q.canon())
	return true
}

func isoJobs(name string, a IsoArgs, depth int) []Job {
	var out []Job
	for d := 1; d <= depth; d++ {
		for f := range a.Ops {
			b := a
			b.Depth, b.First = d, f
			out = append(out, job("iso", fmt.Sprintf("%s [%s] depth=%d first=%s", name, a.Cfg, d, a.Ops[f]), 0, b))
		}
	}
	return out
}

func init() {
	register(&Prop{ID: "C18",
		Bounds: "every sequence of operations up to the depth over two or three providers on one database or server, with the same tokens used in all of them, different and equal names (among them names that are the beginning of one another, hold characters that mean something in patterns or paths, or become equal under harmless-looking conversions), equal and different lifetimes and limits, one client or several; each provider is compared with a model of its own, providers of one name with a shared one, also when both are used at the same time, sweep or evict; foreign data of every shape lies beside",
		Assume: []string{"no key prefix is the beginning of another one (their keys could then be equal)", "bucket names are not empty"},
		Jobs: func(th bool) []Job {
			var out []Job
			mk := func(c Config) IsoArgs {
				var ops []Op
				for p := 0; p < c.N; p++ {
					for _, o := range []Op{
						create("a", 1, kv("k", fmt.Sprintf("p%d", p))), create("b", 2, kv("k2", fmt.Sprintf("q%d", p))), put("a", 1, kv("k", fmt.Sprintf("w%d", p))), del("a", 1, "k"), refresh("a", 1, 3), refresh("a", 3, 1),
						killTok("a", 1), killID("a"), {K: OpClose}, {K: OpReopen},
					} {
						ops = append(ops, on(p, o))
					}
					if c.Backend == "bolt" {
						ops = append(ops, on(p, Op{K: OpClear}))
					}
				}
				ops = append(ops, tick(2*u), tick(5*u))
				var base []Op
				for p := 0; p < c.N; p++ {
					if p > 0 && c.Names[p] == c.Names[0] {
						continue
					}
					base = append(base, on(p, create("a", 1, kv("k", fmt.Sprintf("a%d", p)))), on(p, create("b", 1, kv("k", fmt.Sprintf("b%d", p)))))
				}
				return IsoArgs{Cfg: c, Setup: base, Ops: ops, Toks: append(tokList("a", 3), tok("b", 1), tok("b", 2)), Keys: []string{"k", "k2"}}
			}
			type nm struct {
				a, b string
				deep int
			}
			for _, n := range []nm{{"one", "two", 1}, {"one", "one", 1}, {"sessionid", "sessionid2", 0}, {"data", "metadata3", 0}, {"ids2", "lru2", 0}, {"x/", "x", 0}, {"\x00", "\x00\x00", 0}, {"A", "\xff", 0}} {
				c := bol(3*u, 5*u)
				c.N, c.Names = 2, []string{n.a, n.b}
				out = append(out, isoJobs("names", mk(c), pick(th, 2+n.deep, 2+2*n.deep))...)
				if n.a == n.b {
					c.Max = 2
					c.Clear = 2 * u
					out = append(out, isoJobs("same name", mk(c), pick(th, 2, 3))...)
					continue
				}
				// different lifetimes and limits
				one, two := bol(3*u, 5*u), bol(2*u, 9*u)
				one.Max, two.Max = 2, 3
				one.Clear, two.Clear = 2*u, 3*u
				c.Each = []Config{one, two}
				out = append(out, isoJobs("names, options", mk(c), pick(th, 2, 2+n.deep))...)
				if n.deep > 0 {
					c.N, c.Names, c.Each = 3, []string{n.a, n.b, n.a}, []Config{one, two, one}
					out = append(out, isoJobs("three", mk(c), pick(th, 2, 3))...)
				}
			}
			for _, n := range []nm{{"one.", "two.", 1}, {"one.", "one.", 1}, {"a*", "ab", 0}, {"a?", "ab", 0}, {"[ab]", "a", 0}, {`a\`, "a-", 0}, {`\*`, "*", 0}, {"[^a]", "b", 0}, {"*", "x", 0}, {"?", "x", 0}, {"x[a-z]", "xy", 0}, {"A.", "a.", 0}, {"x\x00", "x\xff", 0}} {
				for _, sh := range []bool{true, false} {
					c := red(3*u, 5*u)
					c.N, c.Names, c.Shared = 2, []string{n.a, n.b}, sh
					deep := n.deep
					if sh {
						deep *= 2
					}
					out = append(out, isoJobs("prefixes", mk(c), pick(th, 2+n.deep, 2+deep))...)
					if n.a == n.b || n.deep == 0 && !sh {
						continue
					}
					one, two := red(3*u, 5*u), red(2*u, 9*u)
					two.MetaKey = "k2"
					one.Batch = 0
					two.MetaKey = "another"
					c.Each = []Config{one, two}
					out = append(out, isoJobs("prefixes, options", mk(c), pick(th, 2, 2+n.deep))...)
					if n.deep > 0 {
						c.N, c.Names, c.Each = 3, []string{n.a, n.b, n.a}, []Config{one, two, one}
						out = append(out, isoJobs("three", mk(c), pick(th, 2, 3))...)
					}
				}
			}
			for _, f := range twins() {
				for i := 1; i < len(f); i++ {
					if len(f[0]) > 4000 {
						continue // longer than a bucket's name may be together with a value
					}
					c := bol(3*u, 5*u)
					c.N, c.Names = 2, []string{f[0], f[i]}
					out = append(out, isoJobs(fmt.Sprintf("twins %.60q", c.Names), mk(c), 1)...)
					if strings.HasPrefix(f[0], f[i]) || strings.HasPrefix(f[i], f[0]) {
						continue
					}
					c = red(3*u, 5*u)
					c.N, c.Shared, c.Names = 2, true, []string{f[0], f[i]}
					out = append(out, isoJobs(fmt.Sprintf("twins %.60q", c.Names), mk(c), 1)...)
				}
			}
			// two providers with one bucket at the same time are one store
			for _, sn := range setupOrder {
				c := bol(2*u, 3*u)
				c.N = 2
				s := concSpec{name: "one bucket " + sn, bound: pick(th, 2, 4), args: ConcArgs{Cfg: c, Setup: concSetups()[sn], Residue: true, Clock: half,
					Toks: toks(tok("a", 1), tok("a", 2), tok("a", 3), tok("b", 1), tok("c", 1)), Keys: []string{"k", "k2"}}}
				ops := concOps(th)
				for i := range ops {
					for j := i; j < len(ops); j++ {
						out = append(out, concJob(s, [][]Op{{ops[i]}, onAll(1, ops[j:j+1])}))
					}
				}
				// both sweep it
				if sn == "fresh" || sn == "aging" || sn == "expired" {
					s.name, s.args.Cfg.Clear, s.bound = "one swept bucket "+sn, u, pick(th, 1, 2)
					for _, o := range []Op{check("a", 1), put("a", 1, kv("k", "p")), refresh("a", 1, 3), create("a", 1, kv("k2", "n")), killID("a")} {
						out = append(out, concJob(s, [][]Op{{o}, {jump(u), on(1, get("a", 1, "k"))}}))
						out = append(out, concJob(s, [][]Op{{jump(u), o}, {on(1, create("a", 1, kv("k", "m")))}}))
					}
				}
				s.args.Cfg.Clear, s.bound = 0, pick(th, 2, 4)
				// full stores
				s.name, s.args.Cfg.Max = "one full bucket "+sn, 2
				for _, o := range []Op{create("a", 1, kv("k2", "n")), create("a", 2), create("c", 1), refresh("a", 1, 3)} {
					for _, p := range []Op{create("a", 2, kv("k", "c2")), create("a", 3), refresh("a", 1, 2), killID("a"), put("a", 1, kv("k", "p"))} {
						out = append(out, concJob(s, [][]Op{{o}, onAll(1, []Op{p})}))
					}
				}
			}
			// at the same time
			for _, c := range []Config{bol(3*u, 5*u), red(3*u, 5*u)} {
				for _, names := range [][]string{{"one.", "two."}, {"a*", "ab"}} {
					c.N, c.Names = 2, names
					c.Clear, c.Max = 0, 0
					if c.Backend == "bolt" {
						c.Max = 3
					}
					a := mk(c)
					a.Setup = append(a.Setup, jump(u/2))
					ops := func(p int) []Op {
						l := []Op{create("a", 1, kv("k", "n")), create("a", 2, kv("k", "m")), put("a", 1, kv("k", "w")), get("a", 1, "k"), refresh("a", 1, 3), killTok("a", 1), killID("a"), {K: OpClose}, del("a", 1, "k")}
						if c.Backend == "bolt" {
							l = append(l, Op{K: OpClear})
						}
						var out []Op
						for _, o := range l {
							out = append(out, on(p, o))
						}
						return out
					}
					for i, o := range ops(0) {
						for j, p := range ops(1) {
							b := a
							b.Threads = [][]Op{{o}, {p}}
							out = append(out, job("iso", fmt.Sprintf("at the same time [%s] %s | %s", c, o, p), pick(th, 2, 4), b))
							if th || (i+j)%3 == 0 {
								b.Threads = [][]Op{{o, ops(0)[(i+3)%9]}, {p, ops(1)[(j+4)%9]}}
								out = append(out, job("iso", fmt.Sprintf("at the same time [%s] %v | %v", c, b.Threads[0], b.Threads[1]), pick(th, 2, 3), b))
							}
						}
					}
				}
			}
			return out
		}})
}

var _ = time.Second
