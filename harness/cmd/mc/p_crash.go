package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strings"
	"time"

	bdb "github.com/boltdb/bolt"

	"mcverif/vfs"
	"mcverif/vs"
)

// Property C13: the file database and its crashes.
//
// A history runs on the real code while every write, truncation and sync of
// the file is recorded.  Then the process or machine stops at every point
// since the last operation was called: what had been synced is on the disk, of
// what had not any subset is, the last write possibly in part.  The file so
// made is opened again and must show the state before or after the last
// operation, and go on from there.

// CrashArgs: every sequence of Depth operations after Setup; the crash happens
// during or after the last one.
type CrashArgs struct {
	Cfg   Config
	Setup []Op
	Ops   []Op
	Depth int
	First int
	Toks  []string
	Keys  []string
	After [][]Op // what is done with the recovered store, one program at a time
	Again []Op   // operations after which it crashes once more
	Fine  bool   // every sector boundary of a torn write, larger subsets
	Down  int64  // time that passes before the store is opened again
	Clock int64
}

func init() {
	suites["crash"] = func(raw json.RawMessage) func(*Exec) {
		var a CrashArgs
		decode(raw, &a)
		seen := &crashMemo{seen: map[uint64]bool{}, imgs: map[uint64][]image{}}
		return func(x *Exec) { crashBody(&a, x, seen) }
	}
}

// crashMemo is what a job remembers from one execution to the next.
type crashMemo struct {
	seen map[uint64]bool
	imgs map[uint64][]image
}

func (c *crashMemo) images(d *disk, from, acks int, fine bool) []image {
	h := fnv.New64a()
	fmt.Fprint(h, from, acks, len(d.base))
	h.Write(d.base)
	for _, o := range d.log {
		fmt.Fprint(h, o.Kind, o.Off, o.Size, len(o.Data))
		h.Write(o.Data)
	}
	k := h.Sum64()
	v, ok := c.imgs[k]
	if !ok {
		v = d.images(from, acks, fine)
		if len(c.imgs) > 50 {
			c.imgs = map[uint64][]image{}
		}
		c.imgs[k] = v
	}
	return v
}

// disk is the recorded file.
type disk struct {
	base []byte // content when the recording began
	log  []vfs.Op
}

func (d *disk) record() {
	vfs.SetRecorder(func(_ string, o vfs.Op) (int, error) {
		d.log = append(d.log, o)
		return 0, nil
	})
	cleanup(func() { vfs.SetRecorder(nil) })
}

func applyOp(b []byte, o vfs.Op) []byte {
	switch o.Kind {
	case "trunc":
		for int64(len(b)) < o.Size {
			b = append(b, make([]byte, o.Size-int64(len(b)))...)
		}
		return b[:o.Size]
	case "write":
		if n := o.Off + int64(len(o.Data)); int64(len(b)) < n {
			b = append(b, make([]byte, n-int64(len(b)))...)
		}
		copy(b[o.Off:], o.Data)
	}
	return b
}

// image is one content the file may have after the crash.
type image struct {
	data  []byte
	acked bool // the operation had returned
	what  string
}

// images lists every content for crashes at log positions from..len(log);
// acks is the position at which the operation returned.
func (d *disk) images(from, acks int, fine bool) []image {
	var out []image
	seen := map[string]int{}
	add := func(data []byte, acked bool, what string) {
		k := fmt.Sprint(acked, len(data)) + string(data)
		if _, ok := seen[k]; ok {
			return
		}
		seen[k] = 1
		out = append(out, image{append([]byte{}, data...), acked, what})
	}
	synced := 0
	stable := append([]byte{}, d.base...)
	for cut := 0; cut <= len(d.log); cut++ {
		if cut > 0 && d.log[cut-1].Kind == "sync" {
			for _, o := range d.log[synced:cut] {
				stable = applyOp(stable, o)
			}
			synced = cut
		}
		if cut < from {
			continue
		}
		acked := cut >= acks
		pend := d.log[synced:cut]
		for _, keep := range subsets(len(pend), fine) {
			b := append([]byte{}, stable...)
			for i, o := range pend {
				if keep&(1<<uint(i)) != 0 {
					b = applyOp(b, o)
				}
			}
			add(b, acked, fmt.Sprintf("crash after %d of %d file operations, unsynced kept %b of %d", cut, len(d.log), keep, len(pend)))
			// one of the kept writes is torn
			for i, o := range pend {
				if keep&(1<<uint(i)) == 0 || o.Kind != "write" || (i != len(pend)-1 && !fine) {
					continue
				}
				for _, n := range tears(len(o.Data), fine) {
					b := append([]byte{}, stable...)
					for k, q := range pend {
						if keep&(1<<uint(k)) == 0 {
							continue
						}
						if k == i {
							q.Data = q.Data[:n]
						}
						b = applyOp(b, q)
					}
					add(b, acked, fmt.Sprintf("crash after %d of %d file operations, unsynced kept %b of %d, write %d torn after %d of %d bytes", cut, len(d.log), keep, len(pend), i, n, len(o.Data)))
				}
			}
		}
	}
	return out
}

// subsets of n unsynced operations: all of them up to 6 (fine: 9), else every
// prefix, every single one lost and every single one kept.
func subsets(n int, fine bool) []int {
	var out []int
	max := 6
	if fine {
		max = 9
	}
	if n <= max {
		for k := 0; k < 1<<uint(n); k++ {
			out = append(out, k)
		}
		return out
	}
	if n > 60 {
		n = 60
	}
	all := 1<<uint(n) - 1
	for i := 0; i <= n; i++ {
		out = append(out, 1<<uint(i)-1)
	}
	for i := 0; i < n; i++ {
		out = append(out, all&^(1<<uint(i)), 1<<uint(i))
	}
	return out
}

func tears(n int, fine bool) []int {
	var out []int
	for k := 512; k < n; k += 512 {
		if fine || k == 512 || k == n/1024*512 || k == (n-1)/512*512 {
			out = append(out, k)
		}
	}
	for _, k := range []int{16, 40, 64, 72} {
		if fine && k < n {
			out = append(out, k)
		}
	}
	return out
}

// cands are the states the store may be in.
type cands struct {
	r  *run
	ms []*Model
}

func (c *cands) step(o Op) bool {
	got := c.r.w.Do(o)
	vs.Quiesce()
	c.r.n++
	c.r.x.trans++
	c.r.x.logf("%s -> %s", o, got)
	var left []*Model
	var want []string
	for _, m := range c.ms {
		w := m.Do(o)
		if sameRes(got, w) {
			left = append(left, m)
		}
		want = append(want, w.String())
	}
	if len(left) == 0 {
		c.r.x.fail("after recovery %s returned [%s], the reference says [%s]", o, got, strings.Join(want, "] or ["))
		return false
	}
	c.ms = left
	return true
}

func (c *cands) probe(toks, keys []string) bool {
	for _, t := range toks {
		if !c.step(Op{K: OpCheck, T: t}) || !c.step(Op{K: OpKeys, T: t}) || !c.step(Op{K: OpGet, T: t, Keys: keys}) {
			return false
		}
	}
	return true
}

func (c *cands) life(toks []string) bool {
	for k := 0; k < 6; k++ {
		next := int64(-1)
		for _, m := range c.ms {
			m.purge()
			for _, s := range m.all() {
				for _, d := range []int64{s.aDead, s.rDead} {
					if d > m.now && (next < 0 || d < next) {
						next = d
					}
				}
			}
		}
		now := c.ms[0].now
		if next < 0 {
			return true
		}
		for _, at := range []int64{next - 1, next} {
			if at > now && !c.step(Op{K: OpTick, D: at - now}) {
				return false
			}
			now = c.ms[0].now
			for _, t := range toks {
				if !c.step(Op{K: OpCheck, T: t}) {
					return false
				}
			}
		}
	}
	return true
}

func crashBody(a *CrashArgs, x *Exec, memo *crashMemo) {
	d := &disk{}
	d.record()
	w := newWorld(a.Cfg)
	done := false
	shut := func() {
		if !done {
			done = true
			vfs.SetRecorder(nil)
			w.Done()
		}
	}
	defer shut()
	r := &run{x: x, w: w, m: newModel(a.Cfg)}
	if a.Clock > 0 {
		vs.Advance(time.Duration(a.Clock))
		r.m.now += a.Clock
	}
	for _, o := range a.Setup {
		if !r.step(o) {
			return
		}
	}
	from, acks := 0, len(d.log)
	if a.Depth == 0 && len(a.Setup) == 0 {
		// the database library's own first sync comes first
		for from < len(d.log) && d.log[from].Kind != "sync" {
			from++
		}
		from++
	} else {
		from = len(d.log)
	}
	before := r.m.clone()
	for i := 0; i < a.Depth; i++ {
		k := a.First
		if i > 0 || k < 0 {
			k = x.choose(len(a.Ops))
		}
		o := a.Ops[k]
		before = r.m.clone()
		from = len(d.log)
		got := w.Do(o)
		acks = len(d.log)
		vs.Quiesce()
		want := r.m.Do(o)
		r.n++
		x.trans++
		x.logf("%s -> %s", o, got)
		x.outcome(kindNames[o.K] + " " + outcomeOf(got))
		if !sameRes(got, want) {
			x.fail("step %d: %s returned [%s], the reference says [%s]", r.n, o, got, want)
			return
		}
	}
	log := append([]vfs.Op{}, d.log...)
	d.log = log
	x.state(a.Cfg.String() + r.m.canon())
	shut()
	before.now = r.m.now // a clock step is not something a crash undoes
	crashed(a, x, w, d, from, acks, before, r.m, memo)
}

// crashed takes every possible content of the file and goes on from it.
func crashed(a *CrashArgs, x *Exec, w *World, d *disk, from, acks int, before, after *Model, memo *crashMemo) {
	imgs := memo.images(d, from, acks, a.Fine)
	x.outcome(fmt.Sprintf("images %d", len(imgs)))
	im := imgs[x.choose(len(imgs))]
	prog := x.choose(len(a.After) + 1)
	c := &cands{ms: []*Model{after.clone()}}
	if !im.acked {
		c.ms = append(c.ms, before.clone())
	}
	for _, m := range c.ms {
		for i := range m.closed {
			m.closed[i] = false
		}
		m.set = append([]int{}, w.set...) // it is opened again as it was last
	}
	// the same content was already gone through
	h := fnv.New64a()
	fmt.Fprint(h, im.acked, prog, after.now)
	h.Write(im.data)
	for _, m := range c.ms {
		fmt.Fprint(h, m.exact())
	}
	key := h.Sum64()
	again := -1
	if prog == 0 && len(a.Again) > 0 {
		again = x.choose(len(a.Again)+1) - 1
	}
	if again < 0 {
		if memo.seen[key] {
			return
		}
		defer func() {
			if !x.failed() {
				memo.seen[key] = true
			}
		}()
	}
	x.logf("%s", im.what)
	if im.acked {
		x.logf("the operation had returned")
	}
	w2 := &World{c: w.c, ctx: w.ctx, path: newPath(), set: append([]int{}, w.set...)}
	path := w2.path
	cleanup(func() { os.Remove(path) })
	if err := os.WriteFile(path, im.data, 0o600); err != nil {
		panic(err)
	}
	if a.Down > 0 {
		vs.Advance(time.Duration(a.Down))
		for _, m := range c.ms {
			m.Do(Op{K: OpJump, D: a.Down})
		}
	}
	d2 := &disk{base: im.data}
	if again >= 0 {
		vfs.SetRecorder(func(_ string, o vfs.Op) (int, error) { d2.log = append(d2.log, o); return 0, nil })
	}
	if !w.c.Own {
		db, err := bdb.Open(path, 0o600, &bdb.Options{Timeout: 50 * time.Millisecond})
		if err != nil {
			x.fail("the database cannot be opened after the crash: %v", err)
			return
		}
		w2.db = db
	}
	open2 := true
	shut2 := func() {
		if open2 {
			open2 = false
			vfs.SetRecorder(nil)
			w2.Done()
		}
	}
	defer shut2()
	p, err := w2.open(0)
	if err != nil {
		x.fail("the store cannot be opened after the crash: %v", err)
		return
	}
	w2.p = append(w2.p, p)
	vs.Quiesce()
	r := &run{x: x, w: w2}
	c.r = r
	if again >= 0 {
		// one operation, and it crashes again
		o := a.Again[again]
		b2 := len(d2.log)
		was := map[*Model]*Model{}
		for _, m := range c.ms {
			was[m] = m.clone()
		}
		if !c.step(o) {
			return
		}
		acks2 := len(d2.log)
		shut2()
		// the store was in one of the states before; go on from each that is possible
		imgs := memo.images(d2, b2, acks2, a.Fine)
		im2 := imgs[x.choose(len(imgs))]
		x.logf("again: %s", im2.what)
		ms := append([]*Model{}, c.ms...)
		if !im2.acked {
			for _, m := range c.ms {
				was[m].now = m.now
				ms = append(ms, was[m])
			}
		}
		b := *a
		b.Again, b.After = nil, nil
		recoverOnce(&b, x, w, im2, ms)
		return
	}
	if !r.integrity() || !c.probe(a.Toks, a.Keys) {
		return
	}
	if prog == 0 {
		c.life(a.Toks)
	} else {
		for _, o := range a.After[prog-1] {
			if !c.step(o) {
				return
			}
		}
		if !c.probe(a.Toks, a.Keys) {
			return
		}
	}
	// whatever is left dies; the sweep or the touch reclaims it
	if !c.step(Op{K: OpTick, D: int64(a.Cfg.Refresh)}) || !c.probe(a.Toks, nil) {
		return
	}
	vs.Quiesce()
	if !w.c.Own {
		if f := w2.stored(a.Toks...); f != "" {
			x.fail("every session has died, but the recovered store still holds traces of %q", f)
			return
		}
	}
	r.integrity()
}

func recoverOnce(a *CrashArgs, x *Exec, w *World, im image, ms []*Model) {
	w2 := &World{c: w.c, ctx: w.ctx, path: newPath(), set: append([]int{}, w.set...)}
	path := w2.path
	cleanup(func() { os.Remove(path) })
	if err := os.WriteFile(path, im.data, 0o600); err != nil {
		panic(err)
	}
	if !w.c.Own {
		db, err := bdb.Open(path, 0o600, &bdb.Options{Timeout: 50 * time.Millisecond})
		if err != nil {
			x.fail("the database cannot be opened after the second crash: %v", err)
			return
		}
		w2.db = db
	}
	defer w2.Done()
	p, err := w2.open(0)
	if err != nil {
		x.fail("the store cannot be opened after the second crash: %v", err)
		return
	}
	w2.p = append(w2.p, p)
	vs.Quiesce()
	r := &run{x: x, w: w2}
	c := &cands{r: r}
	for _, m := range ms {
		c.ms = append(c.ms, m.clone())
	}
	_ = r.integrity() && c.probe(a.Toks, a.Keys) && c.life(a.Toks)
}

// integrity: the file's own structure is sound.
func (r *run) integrity() bool {
	if r.w.db == nil {
		return true
	}
	var errs []string
	r.w.db.View(func(t *bdb.Tx) error {
		for e := range t.Check() {
			errs = append(errs, e.Error())
		}
		return nil
	})
	sort.Strings(errs)
	if len(errs) > 0 {
		r.x.fail("the recovered database is damaged: %s", strings.Join(errs, "; "))
		return false
	}
	return true
}

func crashJobs(name string, a CrashArgs, depth int) []Job {
	var out []Job
	for d := 0; d <= depth; d++ {
		for f := range a.Ops {
			b := a
			b.Depth, b.First = d, f
			if d == 0 && f > 0 {
				break
			}
			n := "none"
			if d > 0 {
				n = a.Ops[f].String()
			}
			out = append(out, job("crash", fmt.Sprintf("%s [%s] depth=%d first=%s", name, a.Cfg, d, n), 0, b))
		}
	}
	return out
}

func init() {
	register(&Prop{ID: "C13",
		Bounds: "every history up to the depth over creations (with eviction), writes, deletions, refreshes, destructions, clearing, reopening, clock steps with reclamation and sweep; every position of the recorded file operations of the last operation (and of the first opening), every subset of the operations not yet synced up to 6 of them (thorough 9), torn writes at sector boundaries; every recovered file is read completely and used further by several programs, the deadlines are walked, in thorough runs it crashes a second time; histories with operations on 60 to 300 keys or sessions at once, too; stores opened with another limit before",
		Assume: []string{"a sync makes everything written before it durable; an unsynced write may be lost, kept or torn at a sector boundary", "crashes inside the database library's creation of a new file (before its first sync) are outside the repository"},
		Jobs: func(th bool) []Job {
			var out []Job
			c := bol(4*u, 6*u)
			c.Max = 3
			ops := []Op{
				create("a", 1, kv("k", "v1"), kv("k2", "x")), create("a", 2, kv("k", "v2")), create("b", 1, kv("k", "vb")), create("c", 1),
				put("a", 1, kv("k", "w"), kv("k3", "y")), put("a", 2, kv("k", big)), del("a", 1, "k"), refresh("a", 1, 3), refresh("a", 2, 2),
				killTok("a", 1), killID("a"), tick(3 * u), check("a", 1), {K: OpClear}, {K: OpReopen},
			}
			after := [][]Op{
				{create("n", 1, kv("k", "n")), check("a", 1), check("a", 2), check("a", 3), check("b", 1), create("n", 2), check("a", 1), check("a", 2), check("b", 1), {K: OpReopen}, create("n", 3), check("b", 1), check("n", 1)},
				{put("a", 1, kv("k", "after")), refresh("a", 1, 4), refresh("a", 2, 1), killID("a"), {K: OpReopen}, create("a", 1, kv("k", "new"))},
			}
			tk := append(tokList("a", 4), tok("b", 1), tok("c", 1), tok("n", 1), tok("n", 2), tok("n", 3))
			base := setup(create("a", 1, kv("k", "v1")), create("b", 1, kv("k", "vb")), create("a", 2, kv("k", "v2"), kv("k2", "x")))
			a := CrashArgs{Cfg: c, Ops: ops, After: after, Toks: tk, Keys: []string{"k", "k2", "k3"}, Clock: half}
			out = append(out, crashJobs("crash", a, pick(th, 3, 4))...)
			a.Setup = base
			a.Again = []Op{create("c", 1, kv("k", "z")), refresh("a", 1, 4), killID("a")}
			if th {
				a.Again = append(a.Again, put("a", 2, kv("k", big)), Op{K: OpClear}, del("a", 2, "k"))
			}
			out = append(out, crashJobs("crash from full, twice", a, pick(th, 1, 2))...)
			a.Again = nil
			out = append(out, crashJobs("crash from full", a, pick(th, 3, 4))...)
			// the provider opens the file itself; the sweep; time passes while it is down
			b := a
			b.Cfg.Own = true
			out = append(out, crashJobs("crash own file", b, pick(th, 1, 2))...)
			b.Cfg.Own = false
			b.Cfg.Clear = 5 * u
			b.Down = int64(2 * u)
			out = append(out, crashJobs("crash with sweep, later", b, pick(th, 2, 3))...)
			b.Cfg.Max = 0
			b.Down = int64(5 * u)
			b.Ops = []Op{create("a", 3, kv("k", "v3")), refresh("a", 1, 3), tick(u), tick(5 * u), jump(6 * u), get("b", 1, "k"), put("a", 1, kv("k", "x")), killTok("a", 2)}
			out = append(out, crashJobs("crash with sweep, much later", b, pick(th, 3, 5))...)
			// opened with other settings before
			s := a
			re := func(n int) Op { return Op{K: OpReopen, D: int64(n) + 1} }
			s.Cfg.Alt = []Config{{Access: 4 * u, Refresh: 6 * u, Max: 1, Batch: c.Batch}, {Access: 4 * u, Refresh: 6 * u, Max: 2, Batch: c.Batch}}
			s.Ops = []Op{re(0), re(1), re(2), create("c", 1, kv("k", "vc")), create("b", 1, kv("k", "again")), refresh("a", 1, 3), killTok("b", 1), tick(2 * u)}
			out = append(out, crashJobs("crash with other settings", s, pick(th, 3, 4))...)
			for _, n := range []int{60, 300} {
				l := s
				l.Cfg.Max = 0
				l.Cfg.Alt = []Config{{Access: 4 * u, Refresh: 6 * u, Max: 2, Batch: c.Batch}}
				l.Setup = setup(create("b", 1, kv("k", "vb")))
				for i := 1; i <= n; i++ {
					l.Setup = append(l.Setup, create("a", i, kv("k", fmt.Sprint(i))))
				}
				l.Setup = append(l.Setup, re(1))
				l.Ops = []Op{create("c", 1, kv("k", "vc")), create("a", n, kv("k", "again"))}
				l.Toks = []string{tok("b", 1), tok("c", 1), tok("a", 1), tok("a", 2), tok("a", n/2), tok("a", n-1), tok("a", n)}
				l.Keys = []string{"k"}
				l.After = [][]Op{{create("n", 1), create("a", 1, kv("k", "n")), killID("a"), {K: OpReopen}, create("a", 2)}}
				out = append(out, crashJobs(fmt.Sprintf("crash, %d sessions make room", n), l, 1)...)
			}
			// many sessions and large values: several pages per transaction
			e := a
			e.Cfg.Max = 40
			e.Setup = nil
			for i := 1; i <= 38; i++ {
				e.Setup = append(e.Setup, create(fmt.Sprintf("i%d", i%5), i, kv("k", fmt.Sprint(i)), kv("filler", strings.Repeat("f", 90))))
			}
			e.Setup = append(e.Setup, create("a", 1, manyKV(60)...), create("a", 2, kv("k", big), kv("k2", big)))
			e.Ops = []Op{create("n", 1, kv("k", big+big)), create("a", 1, manyKV(30)...), refresh("a", 1, 3), refresh("a", 2, 4), killID("i1"), killID("a"), killTok("a", 2), put("a", 1, manyKV(80)...), put("a", 2, kv("k", big+"2"), kv("k3", big)), del("a", 2, "k", "k2"), {K: OpClear}, tick(6 * u)}
			e.Toks = append(tokList("a", 4), tok("n", 1), tok("n", 2), tok("n", 3), tok("i1", 1), tok("i2", 2), tok("i1", 6))
			e.Keys = []string{"k", "k2", "k3", "key007", "key059", "key070", "filler"}
			e.After = [][]Op{{create("n", 2, kv("k", "n")), create("n", 3), killID("i2"), {K: OpReopen}, refresh("a", 1, 4), killID("a")}}
			out = append(out, crashJobs("crash large", e, pick(th, 1, 2))...)
			// very many keys or sessions in one operation
			for _, n := range []int{150, 300, 1100} {
				g := a
				g.Cfg.Max, g.Cfg.Clear = 0, 0
				m, w := manyKV(n), manyKV(n)
				g.Keys = []string{"k"}
				for i := range w {
					w[i].V += " changed"
					g.Keys = append(g.Keys, w[i].K)
				}
				g.Setup = []Op{create("b", 1, kv("k", "vb")), create("a", 1, m...)}
				g.Ops = []Op{create("c", 1, m...), create("a", 1, w...), put("a", 1, w...), delMany("a", 1, n), refresh("a", 1, 3)}
				g.After = [][]Op{{refresh("a", 1, 4), put("a", 1, kv("k", "after")), {K: OpReopen}, killID("c")}}
				g.Again = nil
				out = append(out, crashJobs(fmt.Sprintf("crash %d keys", n), g, 1)...)
				g.Keys = []string{"k"}
				g.Toks = []string{tok("b", 1), tok("a", 1), tok("a", 2), tok("a", 3), tok("a", n/2), tok("a", n-1), tok("a", n), tok("a", n+1)}
				g.Setup = []Op{create("b", 1, kv("k", "vb"))}
				for i := 1; i <= n; i++ {
					g.Setup = append(g.Setup, create("a", i, kv("k", fmt.Sprint(i))))
				}
				g.Ops = []Op{killID("a"), tick(6 * u), {K: OpClear}}
				g.After = [][]Op{{check("a", n-1), create("a", n+1, kv("k", "n")), killID("a"), {K: OpReopen}, create("a", 1)}}
				out = append(out, crashJobs(fmt.Sprintf("crash %d sessions", n), g, 1)...)
			}
			if th {
				f := a
				f.Fine = true
				out = append(out, crashJobs("crash fine", f, 2)...)
				e.Fine = true
				out = append(out, crashJobs("crash large fine", e, 1)...)
			}
			return out
		}})
}
