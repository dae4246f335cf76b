package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"mcverif/fakeredis"
	"mcverif/vfs"
	"mcverif/vs"
)

// Property C19: storage failures.
//
// A history runs on the real code.  While its last operation runs (background
// work included), every write, truncation and sync of the database file, every
// command to the server and every new connection may fail, in each way it can;
// after the fault is gone the store must be as before or as after the complete
// operation and work normally.

// FaultArgs: every sequence of Depth operations after Setup; the fault happens
// during the last one.
type FaultArgs struct {
	Cfg    Config
	Setup  []Op
	Ops    []Op
	Depth  int
	First  int
	Toks   []string
	Keys   []string
	After  []Op // what is done once the fault is gone
	Faults int  // faults in one operation
	Every  int  // >0: so many operations in a row are hit
	Stay   bool // from the first fault on everything fails until the operation returns
	Clock  int64
}

func init() {
	suites["fault"] = func(raw json.RawMessage) func(*Exec) {
		var a FaultArgs
		decode(raw, &a)
		return func(x *Exec) { faultBody(&a, x) }
	}
}

// injector decides at every storage operation whether it fails.
type injector struct {
	x     *Exec
	on    bool
	left  int
	stay  bool
	hit   []string
	dials bool // a new connection has failed
	fixed int  // stay: how everything fails
	back  bool // only what the background does
	by    [8]int
}

// fault returns 0 (none) or the kind of the failure, 1..n.
func (in *injector) fault(n int, what string) int {
	if !in.on || in.back && !vs.InBackground() {
		return 0
	}
	k := 0
	switch {
	case in.stay && len(in.hit) > 0:
		k = in.fixed
		if k > n {
			k = 1
		}
	case in.left > 0:
		if k = in.x.choose(n + 1); k > 0 {
			in.left--
			in.fixed = k
		}
	}
	if k > 0 && len(in.hit) < 20 {
		in.hit = append(in.hit, fmt.Sprintf("%s fails (%d)", what, k))
		if n := vs.Running(); len(n) == 2 && n[0] == 't' && n[1] < '8' {
			in.by[n[1]-'0']++
		}
	}
	return k
}

func (in *injector) install(w *World) {
	vfs.SetRecorder(func(_ string, o vfs.Op) (int, error) {
		n := 1
		if o.Kind == "write" && len(o.Data) > 1 {
			n = 3
		}
		switch in.fault(n, "file "+o.Kind) {
		case 1:
			return 0, errInjected
		case 2:
			return len(o.Data) / 2, errInjected
		case 3:
			return len(o.Data), errInjected // written, yet reported as failed
		}
		return 0, nil
	})
	cleanup(func() { vfs.SetRecorder(nil) })
	if w.srv != nil {
		w.srv.OnCommand = func(unit []string) fakeredis.Fault {
			return []fakeredis.Fault{fakeredis.None, fakeredis.DropBefore, fakeredis.DropAfter, fakeredis.ErrReply}[in.fault(3, "command "+strings.Join(unit[:1], " "))]
		}
		w.srv.DialFault = func() error {
			if in.fault(1, "connecting") > 0 {
				in.dials = true
				return errInjected
			}
			return nil
		}
	}
}

func faultBody(a *FaultArgs, x *Exec) {
	w := newWorld(a.Cfg)
	in := &injector{x: x, stay: a.Stay}
	in.install(w)
	r := &run{x: x, w: w, m: newModel(a.Cfg)}
	defer w.Done()
	defer func() { in.on = false }()
	if a.Clock > 0 {
		vs.Advance(time.Duration(a.Clock))
		r.m.now += a.Clock
	}
	for _, o := range a.Setup {
		if !r.step(o) {
			return
		}
	}
	for i := 0; i < a.Depth-1; i++ {
		k := a.First
		if i > 0 || k < 0 {
			k = x.choose(len(a.Ops))
		}
		if !r.step(a.Ops[k]) {
			return
		}
	}
	k := a.First
	if a.Depth > 1 || k < 0 {
		k = x.choose(len(a.Ops))
	}
	c := &cands{r: r, ms: []*Model{r.m}}
	times := 1
	if a.Every > 0 {
		times = a.Every
	}
	for i := 0; i < times; i++ {
		in.left = a.Faults
		if i > 0 {
			in.left = 0
			in.stay = true // the same again
		}
		if !c.faulted(a.Ops[k], in) {
			return
		}
	}
	if len(in.hit) == 0 {
		return // nothing failed: other checks have seen this one
	}
	x.state(a.Cfg.String() + opsString(a.Ops[k:k+1]) + strings.Join(in.hit, ","))
	if in.dials {
		// the client library tries to connect again after a second only
		if !c.step(Op{K: OpTick, D: int64(u)}) {
			return
		}
	}
	if !c.probe(a.Toks, a.Keys) {
		return
	}
	for _, o := range a.After {
		if !c.step(o) {
			return
		}
	}
	if !c.probe(a.Toks, a.Keys) {
		return
	}
	if a.Cfg.Backend == "bolt" {
		// what is on the disk is what was seen
		if !a.Cfg.Own && !r.integrity() {
			return
		}
		if !c.step(Op{K: OpReopen}) || !c.probe(a.Toks, a.Keys) {
			return
		}
	}
	if !c.step(Op{K: OpTick, D: int64(a.Cfg.Refresh)}) || !c.probe(a.Toks, nil) {
		return
	}
	if !a.Cfg.Own {
		if f := w.stored(a.Toks...); f != "" {
			x.fail("every session has died, but the store still holds traces of %q", f)
			return
		}
	}
	if e := errClass(w.p[0].Close()); e != "" {
		x.fail("closing afterwards: %s", e)
	}
	vs.Quiesce()
	if n := vs.LiveBackground(); n != 0 {
		x.fail("%d background goroutines are left after the close", n)
	}
}

// faulted performs the operation while storage operations may fail.
func (c *cands) faulted(o Op, in *injector) bool {
	x := c.r.x
	n := len(in.hit)
	if in.dials {
		n = -1 // the client library may refuse to connect for a second
	}
	in.on = true
	got := c.r.w.Do(o)
	m := len(in.hit)
	vs.Quiesce()
	in.on = false
	vs.Quiesce()
	c.r.n++
	x.trans++
	x.logf("%s -> %s [%s]", o, got, strings.Join(in.hit[max(n, 0):], "; "))
	x.outcome("faulted " + kindNames[o.K] + " " + outcomeOf(got))
	var left []*Model
	var want []string
	for _, mo := range c.ms {
		before := mo.clone()
		w := mo.Do(o)
		want = append(want, w.String())
		before.now = mo.now
		switch {
		case m == n && sameRes(got, w):
			// nothing it did failed
			left = append(left, mo)
		case m > n && got.equal(w) && w.Err == "":
			left = append(left, mo)
		case m > n && got.equal(w):
			// refused for another reason: nothing happens
			left = append(left, mo)
		case m > n && strings.HasPrefix(got.Err, eOther):
			if o.K == OpReopen || o.K == OpClose {
				mo.closed, before.closed = []bool{false}, []bool{false}
			}
			left = append(left, mo, before)
		}
	}
	if len(left) == 0 {
		x.fail("%s returned [%s] while storage failed (%s), the reference says [%s] or a storage error", o, got, strings.Join(in.hit[max(n, 0):], "; "), strings.Join(want, "] or ["))
		return false
	}
	// merge equal candidates
	seen := map[string]bool{}
	c.ms = nil
	for _, mo := range left {
		if k := mo.exact(); !seen[k] {
			seen[k] = true
			c.ms = append(c.ms, mo)
		}
	}
	return true
}

func faultJobs(name string, a FaultArgs, depth int) []Job {
	var out []Job
	for d := 1; d <= depth; d++ {
		for f := range a.Ops {
			b := a
			b.Depth, b.First = d, f
			out = append(out, job("fault", fmt.Sprintf("%s [%s] faults=%d stay=%v depth=%d first=%s", name, a.Cfg, a.Faults, a.Stay, d, a.Ops[f]), 0, b))
		}
	}
	return out
}

// faultConc: storage fails while others use the store.
func faultConc(c Config, th bool) []Job {
	var out []Job
	ops := []Op{create("a", 1, kv("k", "new")), create("a", 2), put("a", 1, kv("k", "w")), put("a", 1, kv("k2", "w2"), kv("k", "w3")), del("a", 1, "k"), refresh("a", 1, 2), refresh("a", 1, 3), killTok("a", 1), killID("a"), get("a", 1, "k", "k2"), keysOf("a", 1)}
	c.Max, c.Clear = 0, 0
	if c.Backend == "redis" {
		c.N = 2
	}
	sp := concSpec{name: "fault beside others", bound: pick(th, 1, 2), args: ConcArgs{Cfg: c, Setup: setup(create("a", 1, kv("k", "v")), create("b", 1, kv("k", "vb"))),
		Toks: append(tokList("a", 3), tok("b", 1)), Keys: []string{"k", "k2"}, Split: c.Backend == "redis", Residue: true, Expiry: c.Backend == "redis", Clock: half, Fails: 1}}
	for _, o := range ops {
		for _, p := range ops {
			q := p
			if c.Backend == "redis" {
				q = on(1, p)
			}
			out = append(out, concJob(sp, [][]Op{{o}, {q}}))
			if th || p.K == OpPut || p.K == OpRefresh || p.K == OpCreate {
				out = append(out, concJob(sp, [][]Op{{o, get("a", 1, "k")}, {q}}))
				out = append(out, concJob(sp, [][]Op{{o}, {Op{K: OpGet, P: q.P, T: tok("a", 1), Keys: []string{"k", "k2"}}, q}}))
			}
		}
	}
	return out
}

func init() {
	register(&Prop{ID: "C19",
		Bounds: "every history up to the depth over all operations; in its last operation (background work included) every single write, truncation, sync, command or connection fails once in every way (refused, cut short, done but reported as failed; connection lost before or after execution, error reply), alone, twice or from then on until the operation returns; afterwards the state is read, every kind of operation is used, the store is reopened, everything dies and is reclaimed and the provider is closed; operations on 70 to 1100 keys or 300 sessions at once, too; one failure in either of two overlapping operations of two clients, in every schedule with one preemption (thorough two), where what failed happened once or not at all; stores opened with another limit before",
		Assume: []string{"a failed write of the database file may have reached it not at all, in part or completely", "in the overlapping operations the redis client library does not repeat a command by itself"},
		Jobs: func(th bool) []Job {
			var out []Job
			for _, c := range []Config{bol(4*u, 6*u), red(4*u, 6*u)} {
				ops := []Op{
					create("a", 1, kv("k", "v1"), kv("k2", "x")), create("a", 3, kv("k", "v3")), create("c", 1),
					put("a", 1, kv("k", "w"), kv("k3", "y")), put("a", 2, kv("k", big)), del("a", 1, "k"), refresh("a", 1, 3), refresh("a", 2, 2), refreshWith(tok("a", 1), rtok("a", 2), tok("a", 3), rtok("a", 3)),
					killTok("a", 1), killID("a"), get("a", 1, "k", "k2"), keysOf("a", 1), check("a", 1), get("a", 4, "k"), tick(5 * u), jump(6 * u),
				}
				after := []Op{create("n", 1, kv("k", "n")), put("n", 1, kv("k", "n2")), put("a", 1, kv("k", "after")), get("a", 1, "k", "k2"), refresh("a", 1, 4), refresh("a", 3, 1), create("a", 2, kv("k", "again")), del("a", 2, "k"), keysOf("n", 1), killTok("n", 1), create("n", 2, kv("k", strings.Repeat("large ", 20000))), killID("b")}
				base := setup(create("a", 1, kv("k", "v1")), create("b", 1, kv("k", "vb")), create("a", 2, kv("k", "v2"), kv("k2", "x")))
				if c.Backend == "bolt" {
					c.Max = 3
					c.Clear = 5 * u
					ops = append(ops, Op{K: OpClear})
				}
				a := FaultArgs{Cfg: c, Setup: base, Ops: ops, After: after, Toks: append(tokList("a", 4), tok("b", 1), tok("c", 1), tok("n", 1), tok("n", 2)), Keys: []string{"k", "k2", "k3"}, Faults: 1, Clock: half}
				out = append(out, faultJobs("fault", a, pick(th, 2, 3))...)
				b := a
				b.Stay = true
				out = append(out, faultJobs("fault", b, pick(th, 2, 3))...)
				b = a
				b.Faults = 2
				out = append(out, faultJobs("fault", b, pick(th, 1, 2))...)
				// large operations: what takes several steps
				for _, n := range []int{70, 150, 300, 1100} {
					l := a
					m := manyKV(n)
					w := manyKV(n)
					l.Keys = []string{"k"}
					for i := range w {
						w[i].V += " changed"
						l.Keys = append(l.Keys, w[i].K)
					}
					l.Setup = setup(create("b", 1, kv("k", "vb")), create("a", 1, m...))
					l.Cfg.Max = 0
					l.Ops = []Op{create("c", 1, m...), create("a", 1, w...), put("a", 1, w...), delMany("a", 1, n), get("a", 1, l.Keys...), keysOf("a", 1), refresh("a", 1, 3), killTok("a", 1)}
					l.After = []Op{put("a", 1, kv("k", "after"), kv("key000", "after")), get("a", 1, l.Keys...), refresh("a", 1, 4), create("a", 1, kv("k", "again")), killID("c"), keysOf("b", 1)}
					for _, stay := range []bool{false, true} {
						l.Stay = stay
						out = append(out, faultJobs(fmt.Sprintf("fault, %d keys", n), l, 1)...)
					}
					l.Stay = false
					if n > 70 && !th {
						continue
					}
					// many sessions
					l.Keys = []string{"k"}
					l.Setup = []Op{create("b", 1, kv("k", "vb"))}
					l.Toks = []string{tok("b", 1), tok("a", 1), tok("a", n/2), tok("a", n), tok("a", n+1)}
					for i := 1; i <= n; i++ {
						l.Setup = append(l.Setup, create("a", i, kv("k", fmt.Sprint(i))))
					}
					l.Ops = []Op{killID("a"), refresh("a", n, n+1), tick(5 * u), tick(6 * u)}
					l.After = []Op{check("a", 1), create("a", n+1, kv("k", "n")), refresh("a", n/2, n+1), killID("a"), check("b", 1)}
					out = append(out, faultJobs(fmt.Sprintf("fault, %d sessions", n), l, 1)...)
				}
				out = append(out, faultConc(c, th)...)
				if c.Backend == "redis" {
					b = a
					b.Cfg.Retries = true
					out = append(out, faultJobs("fault, client retries", b, pick(th, 2, 2))...)
					b.Stay = true
					out = append(out, faultJobs("fault, client retries", b, pick(th, 1, 2))...)
					b.Stay, b.Faults = false, 3
					out = append(out, faultJobs("fault, client retries", b, pick(th, 1, 1))...)
					// nothing leaks: every connection fails once
					b = a
					b.Cfg.Pool = 2
					b.Every = 5
					out = append(out, faultJobs("fault, few connections", b, 1)...)
					b.Stay = true
					out = append(out, faultJobs("fault, few connections", b, 1)...)
				} else {
					b = a
					b.Cfg.Own = true
					b.Cfg.Clear, b.Cfg.Max = 0, 0
					out = append(out, faultJobs("fault, own file", b, pick(th, 1, 2))...)
					// opened with other settings before
					b = a
					re := func(n int) Op { return Op{K: OpReopen, D: int64(n) + 1} }
					b.Cfg.Alt = []Config{{Access: 4 * u, Refresh: 6 * u, Max: 1, Batch: c.Batch, Clear: c.Clear}, {Access: 4 * u, Refresh: 6 * u, Max: 2, Batch: c.Batch, Clear: c.Clear}}
					for n := 1; n <= 2; n++ {
						b.Setup = append(append([]Op{}, base...), re(n))
						b.Ops = []Op{create("c", 1, kv("k", "vc")), create("b", 1, kv("k", "again")), refresh("a", 1, 3), killTok("b", 1), tick(5 * u), tick(2 * u)}
						for _, stay := range []bool{false, true} {
							b.Stay = stay
							out = append(out, faultJobs(fmt.Sprintf("fault with other settings %d", n), b, 2)...)
						}
					}
					b = a
					b.Every = 4
					out = append(out, faultJobs("fault, repeated", b, 1)...)
				}
			}
			return out
		}})
}
