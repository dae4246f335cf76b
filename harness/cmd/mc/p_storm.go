package main

import (
	"encoding/json"
	"fmt"
	"time"

	"mcverif/vs"
)

// Storms (C12): each time one client is about to send a command of one kind,
// another one gets in between with an operation of its own, over and over.

type StormArgs struct {
	Cfg    Config
	Clock  int64
	Setup  []Op
	Victim []Op
	Others [][]Op // programs of the other client, repeated
	Toks   []string
	Keys   []string
	Times  []int
}

var stormCommands = []string{"EXEC", "WATCH", "DEL", "UNLINK", "KEYS", "SCAN", "HGET", "HMGET", "HGETALL", "HKEYS", "HSET", "HDEL", "EXISTS", "PEXPIREAT", "RENAME", ""}

func init() {
	suites["storm"] = func(raw json.RawMessage) func(*Exec) {
		var a StormArgs
		decode(raw, &a)
		seen := map[string]bool{}
		return func(x *Exec) { stormBody(&a, x, seen) }
	}
}

func stormBody(a *StormArgs, x *Exec, seen map[string]bool) {
	w := newWorld(a.Cfg)
	r := &run{x: x, w: w, m: newModel(a.Cfg)}
	defer w.Done()
	vs.Advance(time.Duration(a.Clock))
	r.m.now += a.Clock
	for _, o := range a.Setup {
		if !r.step(o) {
			return
		}
	}
	victim := a.Victim[x.choose(len(a.Victim))]
	prog := a.Others[x.choose(len(a.Others))]
	at := stormCommands[x.choose(len(stormCommands))]
	times := a.Times[x.choose(len(a.Times))]
	x.logf("the other client gets in before each %q, %d times", at, times)

	h := history{ev: make([]event, 0, 64), in: &injector{}}
	asked, done, over := 0, 0, false
	w.srv.Before = func(unit []string) bool {
		if vs.Running() != "t0" || asked >= times || at != "" && unit[0] != at {
			return false
		}
		asked++
		return vs.Await(func() bool { return done == asked })
	}
	other := vs.Spawn("t1", func() {
		for i := 0; ; i++ {
			if vs.Await(func() bool { return asked > done || over }) || over {
				return
			}
			o := prog[i%len(prog)]
			o.P = 1
			if len(o.KV) > 0 {
				o.KV = []KV{kv(o.KV[0].K, fmt.Sprintf("%s %d", o.KV[0].V, i))}
			}
			h.run(w, 1, o)
			done++
		}
	})
	me := vs.Spawn("t0", func() {
		h.run(w, 0, victim)
		over = true
	})
	vs.Join(me, other)
	w.srv.Before = nil
	vs.Quiesce()
	h.finish()
	for _, e := range h.ev {
		x.logf("t%d %s", e.thread, e)
	}
	x.trans += int64(len(h.ev))
	var probes []event
	for p := range w.p {
		for _, t := range a.Toks {
			for _, o := range []Op{{K: OpCheck, P: p, T: t}, {K: OpKeys, P: p, T: t}, {K: OpGet, P: p, T: t, Keys: a.Keys}} {
				res := w.Do(o)
				vs.Quiesce()
				probes = append(probes, event{op: o, res: res, nows: []int64{vs.NowNS()}})
				x.logf("then %s -> %s", o, res)
			}
		}
	}
	sig := histSig(h.ev, probes)
	x.outcome(sig)
	x.state(sig)
	if !seen[sig] {
		m := r.m.clone()
		m.lazy = true
		if !linearizable(m, splitDestroy(r.m, h.ev, a.Toks), probes) {
			x.fail("no sequential order of the operations explains these results")
			return
		}
		seen[sig] = true
	}
	for _, k := range w.srv.Keys() {
		if w.srv.TTL(k) < 0 {
			x.fail("key %q is left on the server without an expiry", k)
		}
	}
}

func stormJobs(th bool) []Job {
	var out []Job
	victims := []Op{
		put("a", 1, kv("k", "p")), put("a", 1, kv("k", "p"), kv("k2", "p")), del("a", 1, "k"), refresh("a", 1, 3), refresh("a", 1, 1),
		killTok("a", 1), killID("a"), create("a", 1, kv("k", "n")), get("a", 1, "k", "k2"), keysOf("a", 1), check("a", 1),
	}
	others := [][]Op{
		{put("a", 1, kv("k2", "o"))}, {put("a", 1, kv("k", "o"))}, {del("a", 1, "k"), put("a", 1, kv("k", "o"))}, {refresh("a", 1, 1)}, {refresh("a", 1, 2), refresh("a", 2, 1)},
		{create("a", 1, kv("k2", "o"))}, {killTok("a", 1), create("a", 1, kv("k", "o"))}, {put("b", 1, kv("k", "o"))},
	}
	times := []int{1, 2, 3, 4, 5, 6, 8, 10, 12, 16}
	if th {
		times = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 18, 20}
	}
	for _, shared := range []bool{false, true} {
		c := red(2*u, 3*u)
		c.N, c.Shared = 2, shared
		for _, v := range victims {
			a := StormArgs{Cfg: c, Clock: half, Times: times, Victim: []Op{v}, Others: others,
				Setup: setup(create("a", 1, kv("k", "v")), create("b", 1, kv("k", "vb"))), Toks: toks(tok("a", 1), tok("a", 2), tok("a", 3), tok("b", 1)), Keys: []string{"k", "k2"}}
			out = append(out, job("storm", fmt.Sprintf("storm [%s] %s", c, v), 0, a))
		}
	}
	return out
}
