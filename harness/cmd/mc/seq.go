package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"mcverif/vs"
)

// SeqArgs: every sequence of Depth operations from Ops, after Setup, on one
// world, each result compared with the reference model and the reached state
// probed at the end.
type SeqArgs struct {
	Cfg     Config
	Setup   []Op
	Ops     []Op
	Depth   int
	First   int    // index of the first operation, -1: all of them
	Focus   []Kind // only sequences that contain one of these count
	Toks    []string
	Keys    []string
	Life    bool // probe just before and at every coming deadline
	Residue bool // nothing of a dead session may be left once it has been reclaimed
	Sweep   bool // reclamation is left to the periodic sweep
	Lazy    bool // background work does not run between operations
	Spoil   bool // overwrite every buffer after the call
	Hold    bool // what was handed out must not change
	NoProbe bool
	LifeOps bool  // the deadline probes use every reading and writing operation
	Clock   int64 // initial clock offset in ns
	Churn   []Op  // a history repeated Times over after Setup
	Times   int
}

func init() {
	suites["seq"] = func(raw json.RawMessage) func(*Exec) {
		var a SeqArgs
		decode(raw, &a)
		return func(x *Exec) { seqBody(&a, x) }
	}
}

// run is one world next to its model.
type run struct {
	x    *Exec
	w    *World
	m    *Model
	lazy bool
	n    int
	mute bool // in the middle of a repeated history: not written down
}

func (r *run) step(o Op) bool {
	r.n++
	got := r.w.Do(o)
	if !r.lazy {
		vs.Quiesce()
	}
	r.x.trans++
	if !r.mute {
		r.x.logf("%s -> %s", o, got)
	}
	if o.Cut > 0 && strings.HasPrefix(got.Err, eOther) {
		r.x.outcome(kindNames[o.K] + " cancelled")
		return true // refused
	}
	want := r.m.Do(o)
	r.x.outcome(kindNames[o.K] + " " + outcomeOf(got))
	if !sameRes(got, want) {
		r.x.fail("step %d: %s returned [%s], the reference says [%s]", r.n, o, got, want)
		return false
	}
	return true
}

func outcomeOf(r Res) string {
	if r.Err != "" {
		return r.Err
	}
	s := "ok"
	for _, v := range r.Vals {
		if v == "-" {
			s += " absent"
		} else {
			s += " present"
		}
	}
	if r.Keys != nil {
		s += fmt.Sprintf(" %d keys", len(r.Keys))
	}
	return s
}

// sameRes compares results; "error:" expects any other error.
func sameRes(got, want Res) bool {
	if want.Err == eOther || want.Alt == eOther {
		if strings.HasPrefix(got.Err, eOther) {
			return true
		}
	}
	if want.Alt != "" && got.Err == want.Alt {
		return true
	}
	return got.equal(want)
}

// probe reads the complete observable state.
func (r *run) probe(toks, keys []string) bool {
	for p := range r.w.p {
		for _, t := range toks {
			if !r.step(Op{K: OpCheck, P: p, T: t}) ||
				!r.step(Op{K: OpKeys, P: p, T: t}) ||
				!r.step(Op{K: OpGet, P: p, T: t, Keys: keys}) {
				return false
			}
		}
	}
	return true
}

// touch uses one kind of operation on every token; refreshing uses a wrong
// refresh token and changes nothing.
func (r *run) touch(toks []string, kind Kind) bool {
	for p := range r.w.p {
		for _, t := range toks {
			o := Op{K: kind, P: p, T: t}
			switch kind {
			case OpGet, OpDelete:
				o.Keys = []string{"k"}
			case OpPut:
				o.KV = []KV{{K: "touch", V: "t"}}
			case OpRefresh:
				id, _ := split3(t)
				o.R, o.NT, o.NR = id+".no.such", id+".new.a", id+".new.r"
			}
			if !r.step(o) {
				return false
			}
		}
	}
	return true
}

func grain(c Config) int64 {
	if c.Backend == "redis" {
		return int64(time.Millisecond)
	}
	return 1
}

// life follows the model's coming deadlines.
func (r *run) life(toks []string, c Config, all bool) bool {
	g := grain(c)
	kind := OpCheck
	if all {
		kind = []Kind{OpCheck, OpGet, OpKeys, OpPut, OpDelete, OpRefresh}[r.x.choose(6)]
	}
	for k := 0; k < 6; k++ {
		r.m.purge()
		next := int64(-1)
		for _, s := range r.m.all() {
			for _, d := range []int64{s.aDead, s.rDead} {
				if d > r.m.now && d != never && (next < 0 || d < next) {
					next = d
				}
			}
		}
		if next < 0 {
			return true
		}
		if next-g > r.m.now {
			if !r.step(Op{K: OpTick, D: next - g - r.m.now}) || !r.touch(toks, kind) {
				return false
			}
		}
		if !r.step(Op{K: OpTick, D: next - r.m.now}) || !r.touch(toks, kind) {
			return false
		}
	}
	return true
}

func kindIn(k Kind, ks []Kind) bool {
	for _, x := range ks {
		if x == k {
			return true
		}
	}
	return false
}

func seqBody(a *SeqArgs, x *Exec) {
	w := newWorld(a.Cfg)
	w.scribble, w.hold = a.Spoil, a.Hold
	r := &run{x: x, w: w, m: newModel(a.Cfg), lazy: a.Lazy}
	focus := len(a.Focus) == 0
	defer func() {
		if !focus {
			x.fails = nil
		}
	}()
	defer w.Done()
	if a.Clock > 0 {
		vs.Advance(time.Duration(a.Clock))
		r.m.now += a.Clock
	}
	for _, o := range a.Setup {
		if !r.step(o) {
			return
		}
		focus = focus || kindIn(o.K, a.Focus)
	}
	if a.Times > 0 {
		for i := 0; i < a.Times; i++ {
			r.mute = i > 0 && i < a.Times-1
			for _, o := range a.Churn {
				if !r.step(o) {
					return
				}
				vs.Rested()
			}
			if i == 0 && a.Times > 2 {
				x.logf("... %d times over", a.Times)
			}
		}
		r.mute = false
	}
	depth := a.Depth
	if x.bfs {
		depth = x.depth
	}
	for i := 0; i < depth; i++ {
		k := a.First
		if i > 0 || k < 0 {
			k = x.choose(len(a.Ops))
		}
		focus = focus || kindIn(a.Ops[k].K, a.Focus)
		if !r.step(a.Ops[k]) {
			return
		}
		x.state(a.Cfg.String() + r.m.canon())
	}
	x.opts = len(a.Ops)
	if x.bfs {
		x.key = r.m.canon() + "\n" + w.dump() + "\n" + w.hidden()
		x.state(x.key)
	}
	r.finale(a.Toks, a.Keys, a)
}

func (r *run) finale(toks, keys []string, a *SeqArgs) {
	if a.Residue && a.Sweep {
		if !r.sweep(toks, a.Cfg) {
			return
		}
	}
	if !a.NoProbe {
		if !r.probe(toks, keys) {
			return
		}
	}
	if a.Residue && !a.Sweep {
		vs.Quiesce()
		if !r.residue(toks) {
			return
		}
	}
	if a.Life {
		if !r.life(toks, a.Cfg, a.LifeOps) {
			return
		}
		if a.Residue && !a.Sweep {
			vs.Quiesce()
			if !r.residue(toks) {
				return
			}
		}
	}
	if s := r.w.heldChanged(); s != "" {
		r.x.fail("%s", s)
	}
}

// sweep lets one whole period of the periodic sweep pass.
func (r *run) sweep(toks []string, c Config) bool {
	d := int64(c.Clear)
	if e := c.setting(0, r.m.set[0]); e != nil {
		d = int64(e.Clear)
	}
	if c.Backend == "redis" {
		d = int64(2 * time.Millisecond)
	}
	if !r.step(Op{K: OpTick, D: d}) {
		return false
	}
	// what died within the last period may still be there
	return r.residueBefore(toks, r.m.now-d)
}

// residue: no token that is not alive may be found anywhere in the store.
func (r *run) residue(toks []string) bool { return r.residueBefore(toks, r.m.now) }

func (r *run) residueBefore(toks []string, before int64) bool {
	var dead []string
	for _, t := range toks {
		if r.m.sess[t] != nil {
			continue
		}
		if at, ok := r.m.died[t]; ok && at > before {
			continue
		}
		dead = append(dead, t)
	}
	// refresh tokens of live sessions are data of those sessions
	var ask []string
	for _, t := range dead {
		used := false
		for _, s := range r.m.sess {
			if s.refresh == t {
				used = true
			}
		}
		if !used {
			ask = append(ask, t)
		}
	}
	if f := r.w.stored(ask...); f != "" {
		r.x.fail("after %d steps: session %q is gone but the store still holds traces of it", r.n, f)
		return false
	}
	return true
}

// all lists every session of the model in canonical order.
func (m *Model) all() []*MSess {
	var out []*MSess
	for _, s := range m.sess {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].order < out[j].order })
	return out
}

// hidden renders what the program holds in memory besides the store: the
// providers' own fields and the package-level variables.
func (w *World) hidden() string {
	s := []string{globalState()}
	if w.c.Backend != "memory" {
		for _, p := range w.p {
			d, _ := dumpValue(p)
			s = append(s, d)
		}
	}
	return strings.Join(s, "\n")
}

// dump renders the complete concrete state of the store.
func (w *World) dump() string {
	switch w.c.Backend {
	case "memory":
		var s []string
		for _, p := range w.p {
			d, _ := dumpValue(p)
			s = append(s, d)
		}
		return strings.Join(s, "\n")
	case "bolt":
		var rows []string
		if w.db != nil {
			for k, v := range dumpBolt(w.db) {
				rows = append(rows, fmt.Sprintf("%q=%q", k, v))
			}
		}
		sort.Strings(rows)
		return strings.Join(rows, "\n")
	}
	return w.srv.Dump()
}
