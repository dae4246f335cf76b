package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"mcverif/vs"
)

// ConcArgs: the threads run concurrently after Setup; every schedule within
// the bound is explored.
type ConcArgs struct {
	Cfg     Config
	Setup   []Op
	Threads [][]Op
	Toks    []string
	Keys    []string
	NoLin   bool // results are not checked (crash, race and deadlock only)
	Split   bool // destroying an identity takes its sessions one by one
	TimePts bool // every clock reading is a scheduling point
	Residue bool
	Closing bool // a thread closes the provider: see closed
	Close   bool // close everything at the end: no background activity may be left
	Clock   int64
	Expiry  bool // redis: every session key must have an expiry
	Spoil   bool
	Hold    bool
	BgFails int // so many storage operations of the background fail
	Fails   int // so many storage operations of anybody fail
}

func init() {
	suites["conc"] = func(raw json.RawMessage) func(*Exec) {
		var a ConcArgs
		decode(raw, &a)
		seen := map[string]bool{}
		return func(x *Exec) { concBody(&a, x, seen) }
	}
}

// event is one completed (or virtual) operation of a concurrent history.
type event struct {
	op        Op
	res       Res
	call, ret int
	nows      []int64
	noResult  bool // virtual: any result
	optional  bool // virtual: may be left out
	faulted   bool // storage failed during it
	thread    int
}

func (e event) String() string { return fmt.Sprintf("[%d,%d] %s -> %s", e.call, e.ret, e.op, e.res) }

type clockMark struct {
	stamp int
	now   int64
}

// history is what the threads of one execution did.
type history struct {
	ev    []event
	marks []clockMark
	dump  string // bolt: the database right after the (first) close
	in    *injector
}

func (h *history) run(w *World, thread int, o Op) {
	if o.K == OpJump {
		vs.Advance(time.Duration(o.D))
		h.marks = append(h.marks, clockMark{vs.Stamp(), vs.NowNS()})
		return
	}
	call := vs.Stamp()
	n0 := vs.NowNS()
	i := len(h.ev)
	h.ev = append(h.ev, event{op: o, call: call, ret: 1 << 30, nows: []int64{n0}, thread: thread})
	hits := h.in.by[thread]
	res := w.Do(o)
	e := &h.ev[i]
	e.res = res
	e.faulted = h.in.by[thread] > hits
	e.ret = vs.Stamp()
	if o.K == OpClose && res.Err == "" && w.db != nil && h.dump == "" {
		vs.Explore(false)
		h.dump = fmt.Sprint(dumpBolt(w.db))
		vs.Explore(true)
	}
}

// finish fills in the clock readings each operation may have seen.
func (h *history) finish() {
	for i := range h.ev {
		e := &h.ev[i]
		for _, m := range h.marks {
			if m.stamp > e.call && m.stamp < e.ret {
				e.nows = append(e.nows, m.now)
			}
		}
	}
}

func concBody(a *ConcArgs, x *Exec, seen map[string]bool) {
	w := newWorld(a.Cfg)
	w.scribble, w.hold = a.Spoil, a.Hold
	r := &run{x: x, w: w, m: newModel(a.Cfg)}
	if a.Clock > 0 {
		vs.Advance(time.Duration(a.Clock))
		r.m.now += a.Clock
	}
	defer w.Done()
	for _, o := range a.Setup {
		if o.K == OpJump {
			// nothing runs: dead sessions stay in the store
			vs.Advance(time.Duration(o.D))
			r.m.now += o.D
			x.logf("%s", o)
			continue
		}
		if !r.step(o) {
			return
		}
	}
	h := history{ev: make([]event, 0, 64), marks: make([]clockMark, 0, 64)}
	if a.TimePts {
		vs.SetTimePoints(true)
	}
	in := &injector{x: x, left: a.BgFails + a.Fails, back: a.Fails == 0, on: a.BgFails+a.Fails > 0}
	h.in = in
	if in.on {
		in.install(w)
	}
	vs.Explore(true)
	var hs []*vs.Handle
	for i, ops := range a.Threads {
		i, ops := i, ops
		hs = append(hs, vs.Spawn(fmt.Sprintf("t%d", i), func() {
			for _, o := range ops {
				h.run(w, i, o)
			}
		}))
	}
	vs.Join(hs...)
	vs.Explore(false)
	vs.SetTimePoints(false)
	vs.Quiesce()
	in.on = false
	for _, f := range in.hit {
		x.logf("%s", f)
	}
	h.finish()
	for _, e := range h.ev {
		x.logf("t%d %s", e.thread, e)
	}
	var probes []event
	add := func(o Op) {
		res := w.Do(o)
		vs.Quiesce()
		probes = append(probes, event{op: o, res: res, nows: []int64{vs.NowNS()}})
		x.logf("then %s -> %s", o, res)
	}
	x.trans += int64(len(h.ev))
	if a.Closing {
		checkClosed(a, x, w, &h)
		if w.c.Backend == "bolt" {
			add(Op{K: OpReopen})
		}
	}
	if !a.NoLin {
		for p := range w.p {
			for _, t := range a.Toks {
				add(Op{K: OpCheck, P: p, T: t})
				add(Op{K: OpKeys, P: p, T: t})
				add(Op{K: OpGet, P: p, T: t, Keys: a.Keys})
			}
			if w.c.Backend != "redis" {
				break
			}
		}
		sig := histSig(h.ev, probes)
		x.outcome(sig)
		x.state(a.Cfg.String() + sig)
		if !seen[sig] {
			ev := h.ev
			if a.Fails > 0 {
				ev = perhaps(ev, a.Toks)
			}
			if a.Split {
				ev = splitDestroy(r.m, ev, a.Toks)
			}
			if a.Closing && w.c.Backend == "redis" {
				ev = cutOff(ev)
			}
			m := r.m.clone()
			m.lazy = true
			if !linearizable(m, ev, probes) {
				x.fail("no sequential order of the operations explains these results")
				return
			}
			seen[sig] = true
		}
	} else {
		var rs []string
		for _, e := range h.ev {
			rs = append(rs, outcomeOf(e.res))
		}
		x.outcome(strings.Join(rs, ","))
		x.state(a.Cfg.String() + fmt.Sprint(a.Threads) + strings.Join(rs, ","))
	}
	if s := w.heldChanged(); s != "" {
		x.fail("%s", s)
	}
	if a.Expiry {
		for _, k := range w.srv.Keys() {
			if w.srv.TTL(k) < 0 {
				x.fail("key %q is left on the server without an expiry", k)
			}
		}
	}
	if a.Residue && len(in.hit) == 0 {
		alive := map[string]bool{}
		for _, p := range probes {
			if p.op.K == OpCheck && p.res.Err != eNotExists {
				alive[p.op.T] = true
			}
		}
		var gone []string
		for _, t := range a.Toks {
			if !alive[t] {
				gone = append(gone, t)
			}
		}
		if f := w.stored(gone...); f != "" {
			x.fail("session %q is gone but the store still holds traces of it", f)
		}
	}
	if a.Close {
		for i, p := range w.p {
			if e := errClass(p.Close()); e != "" && e != eClosed {
				x.fail("closing provider %d at the end: %s", i, e)
			}
		}
		vs.Quiesce()
		if n := vs.LiveBackground(); n != 0 {
			x.fail("%d background goroutines are left after every provider has been closed", n)
		}
	}
}

func histSig(ev, probes []event) string {
	var b strings.Builder
	for i, e := range ev {
		fmt.Fprintf(&b, "%s=%s", e.op, e.res)
		if e.faulted {
			b.WriteString("!")
		}
		if len(e.nows) > 1 {
			fmt.Fprintf(&b, "@%v", e.nows)
		} else {
			fmt.Fprintf(&b, "@%d", e.nows[0])
		}
		for j, f := range ev {
			if f.ret < e.call {
				fmt.Fprintf(&b, ">%d", j)
			}
		}
		if i < len(ev)-1 {
			b.WriteString("; ")
		}
	}
	b.WriteString(" => ")
	for _, e := range probes {
		b.WriteString(e.res.String() + ",")
	}
	return b.String()
}

// splitDestroy replaces every destruction by identity by one destruction per
// session, each anywhere in the interval; a second one is possible, too.
func splitDestroy(m *Model, ev []event, toks []string) []event {
	var out []event
	for i, e := range ev {
		if e.op.K != OpDestroyID || e.res.Err != "" {
			out = append(out, e)
			continue
		}
		for _, t := range toks {
			if id, _ := split3(t); id != e.op.ID {
				continue
			}
			x := e
			x.op = Op{K: OpDestroyToken, P: e.op.P, T: t}
			x.noResult = true
			out = append(out, x)
			x.optional = true
			out = append(out, x)
		}
		// sessions nothing else in the program touches
		for _, s := range m.sess {
			if s.id == e.op.ID && !contains(toks, s.access) {
				rest := e
				rest.op = Op{K: opRest, P: e.op.P, ID: e.op.ID, Keys: toks}
				rest.noResult = true
				out = append(out, rest)
				break
			}
		}
		// what exists at the call is doomed: it must be gone at the return
		d := e
		d.op, d.ret, d.noResult = Op{K: opDoom, P: e.op.P, ID: e.op.ID, D: 1 << uint(i)}, e.call, true
		out = append(out, d)
		d.op, d.call, d.ret = Op{K: opDoomed, P: e.op.P, ID: e.op.ID, D: 1 << uint(i)}, e.ret, e.ret
		d.noResult, d.res = false, Res{}
		out = append(out, d)
	}
	return out
}

// perhaps: what ended with a storage error has happened, or not; destroying an
// identity on a server session by session.
func perhaps(ev []event, toks []string) []event {
	var out []event
	for _, e := range ev {
		if !e.faulted || !strings.HasPrefix(e.res.Err, eOther) {
			out = append(out, e)
			continue
		}
		e.noResult, e.optional = true, true
		if e.op.K != OpDestroyID {
			out = append(out, e)
			continue
		}
		for _, t := range toks {
			if id, _ := split3(t); id == e.op.ID {
				d := e
				d.op = Op{K: OpDestroyToken, P: e.op.P, T: t}
				out = append(out, d, d) // it looks again
			}
		}
	}
	return out
}

// linearizable searches for a sequential order of the events that respects
// real time and explains every result and the final probes.
func linearizable(m *Model, ev []event, probes []event) bool {
	n := len(ev)
	if n > 64 {
		panic("mcverif: too many events")
	}
	var rec func(m *Model, used uint64) bool
	failed := map[string]bool{}
	rec = func(m *Model, used uint64) bool {
		left := false
		for i := range ev {
			if used&(1<<uint(i)) == 0 && !ev[i].optional {
				left = true
			}
		}
		if !left {
			f := m.clone()
			ok := true
			for _, p := range probes {
				f.now = p.nows[0]
				if !sameRes(p.res, f.Do(p.op)) {
					ok = false
					break
				}
			}
			if ok {
				return true
			}
		}
		key := fmt.Sprint(used) + m.exact()
		if failed[key] {
			return false
		}
		for i := 0; i < n; i++ {
			if used&(1<<uint(i)) != 0 {
				continue
			}
			e := &ev[i]
			ok := true
			for j := 0; j < n; j++ {
				if j != i && used&(1<<uint(j)) == 0 && !ev[j].optional && ev[j].ret < e.call {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			for _, now := range e.nows {
				c := m.clone()
				c.now = now
				res := c.Do(e.op)
				if !e.noResult && !sameRes(e.res, res) {
					continue
				}
				if rec(c, used|1<<uint(i)) {
					return true
				}
			}
		}
		failed[key] = true
		return false
	}
	return rec(m, 0)
}

// exact renders the model completely.
func (m *Model) exact() string {
	var b strings.Builder
	fmt.Fprint(&b, m.closed)
	for _, s := range m.all() {
		fmt.Fprintf(&b, "|%s %s %d %d %v %v", s.access, s.refresh, s.aDead, s.rDead, s.data, s.doomed)
	}
	return b.String()
}

// ---- program generators ----

type concSpec struct {
	name  string
	args  ConcArgs
	ops   []Op
	bound int
	race  bool
}

// pairJobs: every unordered pair of operations, one per thread.
func pairJobs(s concSpec) []Job {
	var out []Job
	for i := range s.ops {
		for j := i; j < len(s.ops); j++ {
			out = append(out, concJob(s, [][]Op{{s.ops[i]}, {s.ops[j]}}))
		}
	}
	return out
}

// twoOneJobs: every two-operation thread against every operation.
func twoOneJobs(s concSpec, seconds []Op) []Job {
	var out []Job
	for i := range s.ops {
		for j := range seconds {
			for k := range s.ops {
				out = append(out, concJob(s, [][]Op{{s.ops[i], seconds[j]}, {s.ops[k]}}))
			}
		}
	}
	return out
}

// tripleJobs: every multiset of three operations, one per thread.
func tripleJobs(s concSpec) []Job {
	var out []Job
	for i := range s.ops {
		for j := i; j < len(s.ops); j++ {
			for k := j; k < len(s.ops); k++ {
				out = append(out, concJob(s, [][]Op{{s.ops[i]}, {s.ops[j]}, {s.ops[k]}}))
			}
		}
	}
	return out
}

func concJob(s concSpec, threads [][]Op) Job {
	a := s.args
	a.Threads = threads
	var names []string
	for _, t := range threads {
		names = append(names, opsString(t))
	}
	j := job("conc", fmt.Sprintf("%s [%s] %s", s.name, a.Cfg, strings.Join(names, " || ")), s.bound, a)
	j.Race = s.race
	return j
}
