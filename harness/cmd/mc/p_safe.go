package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"
	pbolt "github.com/powerpuffpenguin/sessionid/provider/bolt"
	predis "github.com/powerpuffpenguin/sessionid/provider/redis"

	"mcverif/vs"
)

// C11: no schedule leads to a data race, a panic or a deadlock.

// MConcArgs: threads of manager operations on one world. Slots are numbered as
// in MgrArgs but fixed by Setup; what the threads issue themselves is only
// collected.
type MConcArgs struct {
	Cfg     Config
	Method  string
	Coder   string
	Setup   []MOp
	Threads [][]MOp
	TimePts bool
	Pre     int // so many tokens have been issued before
}

func init() {
	suites["mconc"] = func(raw json.RawMessage) func(*Exec) {
		var a MConcArgs
		decode(raw, &a)
		return func(x *Exec) { mconcBody(&a, x) }
	}
	register(&Prop{ID: "C11",
		Bounds: "every schedule (preemption bound 2, thorough 3) of all pairs of operations, of two-operation threads and of triples, on every provider with unbuffered, one-place and default reclamation queues, with dead sessions waiting, sweeps, clock steps and closes; of manager operations and of constructions; and of the registry; operations on 70 to 1100 keys or 300 sessions; every operation, accepted, refused or cancelled, once and 24 times over before the store grows beyond its size; under the race detector, with deadlock detection",
		Jobs:   safeJobs})
}

// issued is one token; an identity starting with "raw:" was given to
// CreateToken as it is.
type issued struct{ token, id, kind string }

func mconcBody(a *MConcArgs, x *Exec) {
	w := newWorld(a.Cfg)
	defer w.Done()
	r := &mrun{x: x, w: w, m: newModel(a.Cfg), ids: eids{}}
	for _, p := range w.p {
		r.mgr = append(r.mgr, sessionid.NewManager(sessionid.WithProvider(p), sessionid.WithCoder(coderOf(a.Coder)),
			sessionid.WithMethod(methodOf(a.Method)), sessionid.WithKey([]byte("key of the manager"))))
	}
	for _, o := range a.Setup {
		if !r.step(o) {
			return
		}
	}
	var all []issued
	for i := 0; i < a.Pre; i += 2 {
		at, rt, err := sessionid.CreateToken(methodOf("HMD5"), []byte("k"), "u")
		if err != nil {
			x.fail("creating tokens: %v", err)
			return
		}
		all = append(all, issued{at, "raw:u", "access"}, issued{rt, "raw:u", "refresh"})
	}
	for _, s := range r.slots {
		all = append(all, issued{s.access, s.id, "access"}, issued{s.refresh, s.id, "refresh"})
	}
	var extra []sessionid.Provider
	outs := make([][]string, len(a.Threads))
	got := make([][]issued, len(a.Threads))
	made := make([][]sessionid.Provider, len(a.Threads))
	vs.Explore(true)
	vs.SetTimePoints(a.TimePts)
	var hs []*vs.Handle
	for ti, ops := range a.Threads {
		ti, ops := ti, ops
		hs = append(hs, vs.Spawn(fmt.Sprintf("t%d", ti), func() {
			for _, o := range ops {
				out, toks, p := mconcOp(r, o)
				outs[ti] = append(outs[ti], out)
				got[ti] = append(got[ti], toks...)
				if p != nil {
					made[ti] = append(made[ti], p)
				}
			}
		}))
	}
	vs.Join(hs...)
	vs.Explore(false)
	vs.SetTimePoints(false)
	vs.Quiesce()
	for i := range a.Threads {
		all = append(all, got[i]...)
		extra = append(extra, made[i]...)
	}
	x.trans += int64(len(a.Threads))
	for i, o := range outs {
		x.logf("t%d %s", i, strings.Join(o, "; "))
	}
	x.outcome(fmt.Sprint(outs))
	x.state(a.Cfg.String() + fmt.Sprint(outs))
	distinct(x, all)
	for _, p := range extra {
		p.Close()
	}
	for _, p := range w.p {
		p.Close()
	}
	vs.Quiesce()
	if n := vs.LiveBackground(); n != 0 {
		x.fail("%d background goroutines are left after every provider has been closed", n)
	}
}

// distinct: no two issued tokens are equal, and each has the documented form.
func distinct(x *Exec, all []issued) bool {
	seen := map[string]issued{}
	forms := eids{}
	for _, t := range all {
		if p, ok := seen[t.token]; ok {
			x.fail("the token %q was issued twice: %s of %q and %s of %q", t.token, p.kind, p.id, t.kind, t.id)
			return false
		}
		seen[t.token] = t
		id, sid, sig, err := sessionid.Split(t.token)
		if err != nil || sid == "" || sig == "" || sessionid.Join(id, sid, sig) != t.token {
			x.fail("the token %q of %q does not come apart into identity, session id and signature (%v)", t.token, t.id, err)
			return false
		}
		if strings.HasPrefix(t.id, "raw:") {
			if id != t.id[4:] {
				x.fail("the token %q was made for %q but says %q", t.token, t.id[4:], id)
				return false
			}
		} else if why := forms.learn(t.id, id); why != "" {
			x.fail("the token %q: %s", t.token, why)
			return false
		}
	}
	return true
}

func mconcOp(r *mrun, o MOp) (out string, toks []issued, p sessionid.Provider) {
	ctx, end := r.w.opCtx(0)
	defer end()
	mg := r.mgr[o.M]
	pair := func(at, rt, id string) []issued {
		return []issued{{at, id, "access"}, {rt, id, "refresh"}}
	}
	switch o.K {
	case "create":
		s, rt, err := mg.Create(ctx, o.ID, mpairs(o.KV)...)
		if err != nil {
			return errClass(err), nil, nil
		}
		return "ok", pair(s.Token(), rt, o.ID), nil
	case "create-token":
		at, rt, err := sessionid.CreateToken(methodOf("HMD5"), []byte("k"), o.ID)
		if err != nil {
			return errClass(err), nil, nil
		}
		return "ok", pair(at, rt, "raw:"+o.ID), nil
	case "refresh":
		at, rt, err := mg.Refresh(ctx, r.slots[o.N].access, r.slots[o.J].refresh)
		if err != nil {
			return errClass(err), nil, nil
		}
		return "ok", pair(at, rt, r.slots[o.N].id), nil
	case "destroy":
		return errClass(mg.Destroy(ctx, o.ID)), nil, nil
	case "destroytok":
		return errClass(mg.DestroyByToken(ctx, r.slots[o.N].access)), nil, nil
	case "close":
		return errClass(r.w.p[o.M].Close()), nil, nil
	case "clock":
		vs.Advance(time.Duration(o.D))
		return "ok", nil, nil
	case "lookup":
		if cryptoer.GetSigningMethod("HS256") == nil {
			return "none", nil, nil
		}
		return "ok", nil, nil
	case "register":
		cryptoer.RegisterSigningMethod("X", func() cryptoer.SigningMethod { return nil })
		return "ok", nil, nil
	case "new":
		// another instance, with the default options
		var np sessionid.Provider
		var err error
		switch r.w.c.Backend {
		case "memory":
			np = sessionid.NewProvider()
		case "bolt":
			np, err = pbolt.New(pbolt.WithDB(r.w.db))
		case "redis":
			np, err = predis.New(predis.WithClient(r.w.cl[0]))
		}
		if err != nil {
			return errClass(err), nil, nil
		}
		m := sessionid.NewManager(sessionid.WithProvider(np))
		s, rt, err := m.Create(ctx, "new")
		if err != nil {
			return errClass(err), nil, np
		}
		return "ok", pair(s.Token(), rt, "new"), np
	case "default":
		// the provider every manager shares that is not given one
		s, rt, err := sessionid.NewManager().Create(ctx, "default")
		if err != nil {
			return errClass(err), nil, nil
		}
		return errClass(s.Destroy(ctx)), pair(s.Token(), rt, "default"), nil
	}
	h, err := mg.Get(ctx, r.slots[o.N].access)
	if err != nil {
		return errClass(err), nil, nil
	}
	switch o.K {
	case "check":
		err = h.Check(ctx)
	case "put":
		err = h.Put(ctx, mpairs(o.KV)...)
	case "get":
		var v string
		err = h.Get(ctx, "k", &v)
	case "keys":
		_, err = h.Keys(ctx)
	case "del":
		err = h.Delete(ctx, h.Token(), o.Keys...)
	}
	return errClass(err), nil, nil
}

func safeJobs(th bool) []Job {
	var out []Job
	base := setup(create("a", 1, kv("k", "v")), create("b", 1, kv("k", "vb")), create("a", 2, kv("k", "v2")), create("c", 1))
	dead := append(append([]Op{}, base...), jump(3*u))
	ops := []Op{
		check("a", 1), get("a", 1, "k", "k2"), keysOf("b", 1), put("a", 1, kv("k", "p"), kv("k2", "q")), del("a", 1, "k"), refresh("a", 1, 3),
		killTok("a", 1), killID("a"), create("a", 1, kv("k", "n")), create("b", 2), {K: OpClose},
	}
	cl := Op{K: OpClose}
	for _, c := range backends(2*u, 3*u) {
		mem := c.Backend == "memory"
		if c.Backend != "redis" {
			c.Max = 4
		}
		s := concSpec{race: true, ops: ops, bound: pick(th, 1, 2), args: ConcArgs{NoLin: true, Close: true, Clock: half}}
		if mem {
			s.bound++
		}
		// every pair on live sessions, every pair on dead ones with queues of each kind
		c.Batch = 128
		s.name, s.args.Cfg, s.args.Setup = "safe fresh", c, base
		out = append(out, pairJobs(s)...)
		for _, batch := range []int{128, 0, 1} {
			if c.Backend == "bolt" && batch == 128 && !th {
				continue
			}
			c.Batch = batch
			s.name, s.args.Cfg, s.args.Setup = "safe dead", c, dead
			out = append(out, pairJobs(s)...)
		}
		// several reports into an unbuffered or one-place queue, something else beside them
		rep := []Op{check("a", 1), get("a", 2, "k"), keysOf("b", 1)}
		for _, batch := range []int{0, 1} {
			t := s
			c.Batch = batch
			t.name, t.args.Cfg = "safe reports", c
			if !mem {
				t.bound = pick(th, 0, 1)
			}
			out = append(out, concJob(t, [][]Op{{rep[0]}, {rep[1]}, {rep[2]}}))
			out = append(out, concJob(t, [][]Op{{rep[0], rep[1]}, {rep[2], rep[0]}}))
			for _, o := range []Op{cl, put("a", 1, kv("k", "p")), create("a", 1), killID("a"), jump(u)} {
				out = append(out, concJob(t, [][]Op{{rep[0]}, {rep[1]}, {o}}))
				out = append(out, concJob(t, [][]Op{{rep[0], rep[1], rep[2]}, {o}}))
				out = append(out, concJob(t, [][]Op{{rep[0], o}, {rep[1], cl}}))
			}
		}
		// more reports than any queue holds
		for _, batch := range []int{128, 1} {
			n := 140
			if batch == 1 {
				n = 7
			}
			t := s
			c.Batch = batch
			t.race, t.bound = false, pick(th, 0, 1)
			t.name, t.args.Cfg = fmt.Sprintf("safe %d reports", n), c
			t.args.Cfg.Max = 0
			t.args.Setup = nil
			var many, rev []Op
			for i := 1; i <= n; i++ {
				t.args.Setup = append(t.args.Setup, create("a", i, kv("k", "v")))
				many = append(many, check("a", i))
				rev = append(rev, get("a", n+1-i, "k"))
			}
			t.args.Setup = append(t.args.Setup, jump(3*u))
			for _, o := range [][]Op{{cl}, rev, {killID("a"), cl}, {create("b", 1), put("b", 1, kv("k", "v")), killTok("b", 1)}, {refresh("a", 2, n+1), cl}} {
				out = append(out, concJob(t, [][]Op{many, o}))
			}
			if mem && batch == 128 {
				t.name += ", slowly"
				t.bound = 1
				out = append(out, concJob(t, [][]Op{many[:n/4], {cl}}))
				out = append(out, concJob(t, [][]Op{many[:n/4], rev[:4]}))
			}
		}
		c.Batch = 0
		out = append(out, safeLarge(c, th)...)
		if c.Backend == "redis" {
			continue
		}
		// the sweep's tick, over sessions already dead and over live ones
		c.Batch, c.Clear = 0, 3*u+u/2
		s.name, s.args.Cfg = "safe sweep", c
		for _, st := range [][]Op{base, dead} {
			s.args.Setup = st
			for _, o := range ops {
				out = append(out, concJob(s, [][]Op{{jump(u), o}, {cl}}))
				out = append(out, concJob(s, [][]Op{{jump(4 * u)}, {o}}))
			}
		}
		for _, o := range []Op{rep[0], ops[3], ops[8]} {
			t := s
			t.bound = pick(th, 0, 1)
			out = append(out, concJob(t, [][]Op{{rep[1]}, {jump(u)}, {o}}))
			out = append(out, concJob(t, [][]Op{{rep[1], rep[2]}, {jump(u), o}, {cl}}))
		}
	}
	out = append(out, growJobs(th)...)
	// managers
	for _, c := range backends(2*u, 3*u) {
		for _, o := range mconcPairs(MConcArgs{Cfg: c, Method: "HS256", Coder: "json"}, "managers", pick(th, 1, 2)) {
			o.Race = true
			out = append(out, o)
		}
	}
	for _, j := range props["C16"].Jobs(th) {
		if j.Suite == "registry-conc" {
			out = append(out, j)
		}
	}
	// one size of the large operations before everything else
	sort.SliceStable(out, func(a, b int) bool {
		return strings.HasPrefix(out[a].Name, "safe 70 ") && !strings.HasPrefix(out[b].Name, "safe 70 ")
	})
	return out
}

// safeLarge: operations on many keys or sessions at once, which may be
// divided among goroutines, live and dead.
func safeLarge(c Config, th bool) []Job {
	var out []Job
	for _, n := range []int{70, 150, 300, 1100} {
		m := manyKV(n)
		var keys []string
		for _, x := range m {
			keys = append(keys, x.K)
		}
		c.Max, c.Batch = 0, 128
		s := concSpec{race: true, bound: pick(th, 0, 1), args: ConcArgs{NoLin: true, Close: true, Clock: half, Cfg: c}}
		s.name = fmt.Sprintf("safe %d keys at once", n)
		s.args.Setup = setup(create("a", 1, m...), create("b", 1, kv("k", "vb")))
		ops := []Op{put("a", 1, m...), create("a", 2, m...), delMany("a", 1, n), get("a", 1, keys...), keysOf("a", 1), refresh("a", 1, 3), killTok("a", 1), killID("a")}
		for i := range ops {
			for _, o := range append([]Op{{K: OpClose}}, ops[i:]...) {
				out = append(out, concJob(s, [][]Op{{ops[i]}, {o}}))
			}
		}
		if n > 300 && !th {
			continue
		}
		s.name = fmt.Sprintf("safe %d sessions at once", n)
		s.args.Setup = []Op{create("b", 1, kv("k", "vb"))}
		for i := 1; i <= n; i++ {
			s.args.Setup = append(s.args.Setup, create("a", i, kv("k", fmt.Sprint(i))))
		}
		for _, dead := range []bool{false, true} {
			if dead {
				s.name += ", dead"
				s.args.Setup = append(append([]Op{}, s.args.Setup...), jump(3*u))
			}
			for _, o := range []Op{killID("a"), refresh("a", n/2, n+1), create("a", n+1, kv("k", "n")), killTok("a", n/2), get("a", n, "k"), {K: OpClose}} {
				out = append(out, concJob(s, [][]Op{{killID("a")}, {o}}))
			}
			if c.Backend != "redis" && (n <= 150 || c.Backend == "memory" || th) {
				t := s
				t.args.Cfg.Clear = 3*u + u/2
				for _, o := range []Op{killID("a"), create("a", n+1, kv("k", "n")), get("a", n, "k"), {K: OpClose}} {
					out = append(out, concJob(t, [][]Op{{jump(4 * u)}, {o}}))
				}
			}
		}
	}
	return out
}

// mconcPairs: every pair of manager operations.
func mconcPairs(a MConcArgs, name string, bound int) []Job {
	a.Setup = []MOp{mc("u", kv("k", "v1")), mc("u", kv("k", "v2")), mc("w")}
	ops := []MOp{mc("u", kv("k", "n")), mc("w"), mref(0, 0), mref(1, 1), {K: "destroy", ID: "u"}, mo("destroytok", 0), mo("check", 0), mput(0, kv("k", "p"), kv("k2", "p2")), mkeys("get", 0, "k"), mo("keys", 0), mkeys("del", 0, "k"),
		{K: "default"}, {K: "create-token", ID: "u"}, {K: "close"}, {K: "new"}, {K: "lookup"}, {K: "register"}}
	var out []Job
	for i := range ops {
		for k := i; k < len(ops); k++ {
			b := a
			b.Threads = [][]MOp{{ops[i]}, {ops[k]}}
			bd := bound
			if a.Cfg.Backend == "bolt" && ops[k].K == "new" && ops[i].K == "new" {
				bd-- // many background goroutines
			}
			out = append(out, job("mconc", fmt.Sprintf("%s [%s] %s || %s", name, a.Cfg, ops[i], ops[k]), bd, b))
		}
	}
	return out
}

// growJobs: every operation, accepted or refused, on live, expired and dead
// sessions, once and many times over; then the store grows far beyond its
// size, which whatever has been left open would not let it.
func growJobs(th bool) []Job {
	var out []Job
	base := setup(create("a", 1, kv("k", "v")), create("a", 2, kv("k", "v2")), create("b", 1, kv("k", "vb")))
	large := strings.Repeat("large ", 20000)
	for _, c := range backends(2*u, 3*u) {
		ops := append(refusals(c.Backend), check("a", 1), get("a", 1, "k", "k2"), keysOf("a", 1), put("a", 1, kv("k", "p")), del("a", 1, "k"), refresh("a", 1, 3), create("a", 1, kv("k", "n")), killTok("a", 1), killID("a"),
			check("n", 1), get("n", 1, "k"), keysOf("n", 1), put("n", 1, kv("k", "n")), del("n", 1, "k"), refresh("n", 1, 2), killTok("n", 1), killID("n"),
			Op{K: OpGet, T: "malformed", Keys: []string{"k"}}, Op{K: OpKeys, T: "malformed"}, Op{K: OpCheck, T: "malformed"})
		for _, o := range []Op{create("a", 1, kv("k", "n")), put("a", 1, kv("k", "p")), del("a", 1, "k"), refresh("a", 1, 3), killTok("a", 1), killID("a"), get("a", 1, "k"), keysOf("a", 1), check("a", 1)} {
			for n := 1; n <= pick(c.Backend == "redis", 4, 1); n++ {
				o.Cut = n
				ops = append(ops, o)
			}
		}
		if c.Backend == "bolt" {
			ops = append(ops, Op{K: OpClear}, Op{K: OpReopen})
		}
		for _, age := range []time.Duration{0, 2, 3} {
			for _, o := range ops {
				for _, n := range []int{1, pick(th, 24, 200)} {
					a := SeqArgs{Cfg: c, Setup: append(append([]Op{}, base...), jump(age*u)), Churn: []Op{o}, Times: n, Toks: append(tokList("a", 3), tok("b", 1), tok("g", 1)), Keys: []string{"k"},
						Ops: []Op{create("g", 1, kv("k", large), kv("k2", large))}}
					if age == 0 {
						a.Setup = base
					}
					if len(o.T) > 100 {
						continue
					}
					name := o.String()
					if len(name) > 100 {
						name = name[:100] + "..."
					}
					out = append(out, seqJobs(fmt.Sprintf("grows after %d times %s at %d,", n, name, age), a, 1)...)
				}
			}
		}
	}
	return out
}
