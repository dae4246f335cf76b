package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"

	"mcverif/vs"
)

// MOp is one operation at the level of a manager and its session handles.
// Sessions are numbered slots: every successful creation or refresh fills the
// next one with its pair of tokens.
type MOp struct {
	K    string
	ID   string   `json:",omitempty"`
	N    int      `json:",omitempty"` // slot of the access token
	J    int      `json:",omitempty"` // slot of the refresh token
	KV   []KV     `json:",omitempty"`
	Keys []string `json:",omitempty"`
	D    int64    `json:",omitempty"`
	M    int      `json:",omitempty"` // which manager
	Cut  int      `json:",omitempty"` // the caller's context ends when it is looked at for the Cut-th time
}

func (o MOp) String() string {
	if o.Cut != 0 {
		n := o.Cut
		o.Cut = 0
		return fmt.Sprintf("(cancelled at look %d) %s", n, o)
	}
	switch o.K {
	case "create":
		return fmt.Sprintf("m%d.create(%q,%s)", o.M, o.ID, kvString(o.KV))
	case "refresh":
		return fmt.Sprintf("m%d.refresh(#%d,#%d)", o.M, o.N, o.J)
	case "refresh-swapped":
		return fmt.Sprintf("m%d.refresh(refresh #%d, access #%d)", o.M, o.N, o.J)
	case "destroy":
		return fmt.Sprintf("m%d.destroy(%q)", o.M, o.ID)
	case "tick":
		return "tick " + time.Duration(o.D).String()
	}
	return fmt.Sprintf("m%d.%s(#%d %s%q)", o.M, o.K, o.N, kvString(o.KV), o.Keys)
}

// MgrArgs: every sequence of manager operations up to the depth.
type MgrArgs struct {
	Cfg    Config
	Coder  string
	Method string
	Setup  []MOp
	Ops    []MOp
	Depth  int
	First  int
	Focus  []string
	Life   bool
	Pairs  []string // not empty: all ordered pairs of identities are substituted for "X" and "Y"
}

func init() {
	suites["mgr"] = func(raw json.RawMessage) func(*Exec) {
		var a MgrArgs
		decode(raw, &a)
		return func(x *Exec) { mgrBody(&a, x) }
	}
}

var methodNames = []string{"HMD5", "HS1", "HS256", "HS384", "HS512"}

func methodOf(name string) cryptoer.SigningMethod {
	switch name {
	case "HS1":
		return cryptoer.SigningMethodHS1
	case "HS256":
		return cryptoer.SigningMethodHS256
	case "HS384":
		return cryptoer.SigningMethodHS384
	case "HS512":
		return cryptoer.SigningMethodHS512
	}
	return cryptoer.SigningMethodHMD5
}

// writtenForm, as the second identity of a pair, stands for the form in which
// the manager writes the first one.
const writtenForm = "(the first as it is written in its tokens)"

type mslot struct{ access, refresh, id string }

type mrun struct {
	x     *Exec
	w     *World
	m     *Model
	mgr   []*sessionid.LocalManager
	slots []mslot
	n     int
	ids   eids
}

// eids is how the manager under test writes each identity into its tokens,
// learned from the first token it issues for the identity.
type eids map[string]string

// of is the written form of the identity, or one that no token has.
func (m eids) of(id string) string {
	if e, ok := m[id]; ok {
		return e
	}
	return fmt.Sprintf("never issued %x", id)
}

// learn is told that a token for id was issued as e: one identity has one
// form, two have two.
func (m eids) learn(id, e string) string {
	for k, v := range m {
		if k != id && v == e {
			return fmt.Sprintf("the identities %q and %q are both written %q", k, id, e)
		}
	}
	if v, ok := m[id]; ok && v != e {
		return fmt.Sprintf("the identity %q is written %q and %q", id, v, e)
	}
	if e == "" && id != "" || strings.Contains(e, ".") {
		return fmt.Sprintf("the identity %q is written %q", id, e)
	}
	m[id] = e
	return ""
}

func mpairs(kv []KV) []sessionid.Pair {
	var out []sessionid.Pair
	for _, x := range kv {
		out = append(out, sessionid.Pair{Key: x.K, Value: x.V})
	}
	return out
}

func mgrBody(a *MgrArgs, x *Exec) {
	w := newWorld(a.Cfg)
	r := &mrun{x: x, w: w, m: newModel(a.Cfg), ids: eids{}}
	for _, p := range w.p {
		r.mgr = append(r.mgr, sessionid.NewManager(sessionid.WithProvider(p), sessionid.WithCoder(coderOf(a.Coder)),
			sessionid.WithMethod(methodOf(a.Method)), sessionid.WithKey([]byte("key of the manager"))))
	}
	focus := len(a.Focus) == 0
	defer func() {
		if !focus {
			x.fails = nil
		}
	}()
	defer w.Done()
	ids := [2]string{}
	if len(a.Pairs) > 0 {
		i := x.choose(len(a.Pairs))
		j := x.choose(len(a.Pairs) - 1)
		if j >= i {
			j++
		}
		ids = [2]string{a.Pairs[i], a.Pairs[j]}
	}
	if ids[0] == writtenForm {
		return
	}
	sub := func(o MOp) MOp {
		if len(a.Pairs) > 0 {
			switch o.ID {
			case "X":
				o.ID = ids[0]
			case "Y":
				o.ID = ids[1]
				if o.ID == writtenForm {
					o.ID = r.ids.of(ids[0])
				}
			}
		}
		return o
	}
	foc := func(k string) {
		for _, f := range a.Focus {
			focus = focus || f == k
		}
	}
	for _, o := range a.Setup {
		if o.ID == "Y" && len(a.Pairs) > 0 && sub(o).ID == ids[0] {
			return // the identity is written as it is
		}
		if !r.step(sub(o)) {
			return
		}
		foc(o.K)
	}
	for i := 0; i < a.Depth; i++ {
		k := a.First
		if i > 0 || k < 0 {
			k = x.choose(len(a.Ops))
		}
		o := sub(a.Ops[k])
		foc(o.K)
		if !r.step(o) {
			return
		}
		x.state(fmt.Sprint(a.Cfg, a.Coder, a.Method, r.n, len(r.slots), r.sig()))
	}
	if !r.probe() {
		return
	}
	for k := 0; a.Life && k < 4; k++ {
		next := int64(-1)
		for _, s := range r.m.all() {
			for _, d := range []int64{s.aDead, s.rDead} {
				if d > r.m.now && d != never && (next < 0 || d < next) {
					next = d
				}
			}
		}
		if next < 0 {
			break
		}
		g := grain(a.Cfg)
		if next-g > r.m.now {
			if !r.step(MOp{K: "tick", D: next - g - r.m.now}) || !r.probe() {
				return
			}
		}
		if !r.step(MOp{K: "tick", D: next - r.m.now}) || !r.probe() {
			return
		}
	}
}

// sig is the model's state with tokens replaced by slots.
func (r *mrun) sig() string {
	s := r.m.canon()
	for i, sl := range r.slots {
		s = strings.ReplaceAll(s, sl.access, fmt.Sprintf("A%d", i))
		s = strings.ReplaceAll(s, sl.refresh, fmt.Sprintf("R%d", i))
	}
	return s
}

func (r *mrun) probe() bool {
	for m := range r.mgr {
		for i := range r.slots {
			if !r.step(MOp{K: "check", N: i, M: m}) || !r.step(MOp{K: "keys", N: i, M: m}) || !r.step(MOp{K: "get", N: i, M: m, Keys: []string{"k", "k2"}}) {
				return false
			}
		}
	}
	return true
}

// cut: the operation was refused because the caller's context had ended.
func (r *mrun) cut(o MOp, err error) bool {
	if o.Cut == 0 || !strings.HasPrefix(errClass(err), eOther) {
		return false
	}
	vs.Quiesce()
	r.x.trans++
	r.x.logf("%s -> %v", o, err)
	r.x.outcome(o.K + " cancelled")
	return true
}

func (r *mrun) expect(o MOp, got, want Res) bool {
	vs.Quiesce()
	r.x.trans++
	r.x.logf("%s -> %s", o, got)
	r.x.outcome(o.K + " " + outcomeOf(got))
	if !sameRes(got, want) {
		r.x.fail("step %d: %s returned [%s], the reference says [%s]", r.n, o, got, want)
		return false
	}
	return true
}

func (r *mrun) step(o MOp) bool {
	r.n++
	ctx, end := r.w.opCtx(o.Cut)
	defer end()
	mg := r.mgr[o.M]
	switch o.K {
	case "tick":
		vs.AdvanceQuiet(time.Duration(o.D))
		r.m.Do(Op{K: OpTick, D: o.D})
		r.x.logf("%s", o)
		return true
	case "create":
		s, rt, err := mg.Create(ctx, o.ID, mpairs(o.KV)...)
		if r.cut(o, err) {
			// whatever tokens it would have had
			r.m.purge()
			id := r.ids.of(o.ID)
			for _, s := range r.m.all() {
				if s.id == id {
					return true
				}
			}
			if f := r.w.stored(id + "."); f != "" {
				r.x.fail("step %d: %s was refused, but there is a session of that identity in the store", r.n, o)
				return false
			}
			return true
		}
		if err != nil {
			return r.expect(o, Res{Err: errClass(err)}, r.m.Do(Op{K: OpCreate, P: o.M, T: r.ids.of(o.ID) + ".new.a", R: r.ids.of(o.ID) + ".new.r", KV: o.KV}))
		}
		if s == nil {
			r.x.fail("step %d: %s returned no session and no error", r.n, o)
			return false
		}
		at := s.Token()
		if !r.fresh(o, at, rt, o.ID) {
			return false
		}
		ok := r.expect(o, Res{}, r.m.Do(Op{K: OpCreate, P: o.M, T: at, R: rt, KV: o.KV}))
		r.slots = append(r.slots, mslot{at, rt, o.ID})
		if s.ID() != r.ids.of(o.ID) {
			r.x.fail("step %d: %s: the new session says it belongs to %q", r.n, o, s.ID())
			return false
		}
		return ok
	case "close":
		return r.expect(o, Res{Err: errClass(r.w.p[o.M].Close())}, r.m.Do(Op{K: OpClose, P: o.M}))
	case "destroy":
		err := mg.Destroy(ctx, o.ID)
		return r.cut(o, err) || r.expect(o, Res{Err: errClass(err)}, r.m.Do(Op{K: OpDestroyID, P: o.M, ID: r.ids.of(o.ID)}))
	}
	if o.N >= len(r.slots) || o.J >= len(r.slots) {
		return true // nothing to do yet
	}
	sl := r.slots[o.N]
	switch o.K {
	case "refresh", "refresh-swapped", "refresh-same":
		at, rt := sl.access, r.slots[o.J].refresh
		switch o.K {
		case "refresh-swapped":
			at, rt = sl.refresh, r.slots[o.J].access
		case "refresh-same":
			rt = at
		}
		na, nr, err := mg.Refresh(ctx, at, rt)
		if r.cut(o, err) {
			return true
		}
		if err != nil {
			id := r.ids.of(sl.id)
			// what it would have been with fresh tokens
			want := r.m.clone().Do(Op{K: OpRefresh, P: o.M, T: at, R: rt, NT: id + ".new.a", NR: id + ".new.r"})
			r.m.purge()
			return r.expect(o, Res{Err: errClass(err)}, want)
		}
		if !r.fresh(o, na, nr, sl.id) {
			return false
		}
		r.slots = append(r.slots, mslot{na, nr, sl.id})
		return r.expect(o, Res{}, r.m.Do(Op{K: OpRefresh, P: o.M, T: at, R: rt, NT: na, NR: nr}))
	case "destroytok":
		err := mg.DestroyByToken(ctx, sl.access)
		return r.cut(o, err) || r.expect(o, Res{Err: errClass(err)}, r.m.Do(Op{K: OpDestroyToken, P: o.M, T: sl.access}))
	}
	t := sl.access
	if strings.HasPrefix(o.K, "r:") { // through the refresh token
		t = sl.refresh
	}
	h, err := mg.Get(ctx, t)
	if r.cut(o, err) {
		return true
	}
	if err != nil {
		r.x.fail("step %d: %s: a token the manager issued is refused: %v", r.n, o, err)
		return false
	}
	if h.ID() != r.ids.of(sl.id) || h.Token() != t {
		r.x.fail("step %d: %s: the handle says it is session %q of %q", r.n, o, h.Token(), h.ID())
		return false
	}
	switch strings.TrimPrefix(o.K, "r:") {
	case "check":
		err := h.Check(ctx)
		return r.cut(o, err) || r.expect(o, Res{Err: errClass(err)}, r.m.Do(Op{K: OpCheck, P: o.M, T: t}))
	case "put":
		err := h.Put(ctx, mpairs(o.KV)...)
		return r.cut(o, err) || r.expect(o, Res{Err: errClass(err)}, r.m.Do(Op{K: OpPut, P: o.M, T: t, KV: o.KV}))
	case "del":
		err := h.Delete(ctx, h.Token(), o.Keys...)
		return r.cut(o, err) || r.expect(o, Res{Err: errClass(err)}, r.m.Do(Op{K: OpDelete, P: o.M, T: t, Keys: o.Keys}))
	case "keys":
		k, e := h.Keys(ctx)
		return r.cut(o, e) || r.expect(o, Res{Err: errClass(e), Keys: sorted(k)}, keysRes(r.m.Do(Op{K: OpKeys, P: o.M, T: t})))
	case "hdestroy":
		err := h.Destroy(ctx)
		return r.cut(o, err) || r.expect(o, Res{Err: errClass(err)}, r.m.Do(Op{K: OpDestroyToken, P: o.M, T: t}))
	case "get":
		for _, k := range o.Keys {
			var v string
			e := h.Get(ctx, k, &v)
			if r.cut(o, e) {
				continue
			}
			got := Res{Err: errClass(e)}
			if e == nil {
				got.Vals = []string{"=" + v}
			}
			want := r.m.Do(Op{K: OpGet, P: o.M, T: t, Keys: []string{k}})
			if want.Err == "" && want.Vals[0] == "-" {
				want = Res{Err: eKeyMissing}
			}
			if !r.expect(o, got, want) {
				return false
			}
		}
		return true
	}
	panic("mcverif: unknown manager operation " + o.K)
}

func keysRes(r Res) Res {
	if r.Err == "" && r.Keys == nil {
		r.Keys = []string{}
	}
	if r.Err != "" {
		r.Keys = []string{}
	}
	return r
}

// fresh checks the form of newly issued tokens and that they are new.
func (r *mrun) fresh(o MOp, at, rt, id string) bool {
	for _, t := range []string{at, rt} {
		tid, sid, sig, err := sessionid.Split(t)
		if why := r.ids.learn(id, tid); err == nil && why != "" {
			r.x.fail("step %d: %s issued %q: %s", r.n, o, t, why)
			return false
		}
		if err != nil || sid == "" || sig == "" || sessionid.Join(tid, sid, sig) != t {
			r.x.fail("step %d: %s issued %q, which does not come apart into identity, session id and signature", r.n, o, t)
			return false
		}
		for _, s := range r.slots {
			if s.access == t || s.refresh == t {
				r.x.fail("step %d: %s issued the token %q a second time", r.n, o, t)
				return false
			}
		}
	}
	if at == rt {
		r.x.fail("step %d: %s issued equal access and refresh tokens", r.n, o)
		return false
	}
	return true
}

// ---- job generators ----

func mgrSeq(name string, a MgrArgs, depth int) []Job {
	var out []Job
	mk := func(d, f int) {
		b := a
		b.Depth, b.First = d, f
		n := fmt.Sprintf("%s [%s %s %s] depth=%d", name, a.Cfg, a.Coder, a.Method, d)
		if f >= 0 {
			n += " first=" + a.Ops[f].String()
		}
		out = append(out, job("mgr", n, 0, b))
	}
	for d := 1; d <= depth; d++ {
		if d == 1 || len(a.Pairs) > 0 {
			mk(d, -1)
			continue
		}
		for f := range a.Ops {
			mk(d, f)
		}
	}
	return out
}

func mc(id string, kvs ...KV) MOp            { return MOp{K: "create", ID: id, KV: kvs} }
func mo(k string, n int) MOp                 { return MOp{K: k, N: n} }
func mref(n, j int) MOp                      { return MOp{K: "refresh", N: n, J: j} }
func mtick(d time.Duration) MOp              { return MOp{K: "tick", D: int64(d)} }
func mput(n int, kvs ...KV) MOp              { return MOp{K: "put", N: n, KV: kvs} }
func mkeys(k string, n int, s ...string) MOp { return MOp{K: k, N: n, Keys: s} }

// mgrJobs enumerates manager histories for one property.
func mgrJobs(prop string, th bool) []Job {
	var out []Job
	for i, c := range backends(2*u, 3*u) {
		if c.Backend != "redis" && prop != "C05" {
			c.Max = 0
		}
		coder := []string{"gob", "json", "xml"}[i]
		method := []string{"HS256", "HMD5", "HS512"}[i]
		base := []MOp{mc("u", kv("k", "v1")), mc("u"), mc("u.x", kv("k", "vx"))}
		a := MgrArgs{Cfg: c, Coder: coder, Method: method, Setup: base}
		switch prop {
		case "C05":
			a.Focus = []string{"destroy", "destroytok", "hdestroy"}
			a.Ops = []MOp{{K: "destroy", ID: "u"}, {K: "destroy", ID: "u.x"}, {K: "destroy", ID: "U"}, mo("destroytok", 0), mo("destroytok", 2), mo("hdestroy", 1), mref(0, 0), mref(1, 1), mref(3, 3), mc("u", kv("k", "n")), mtick(u)}
			a.Life = true
			out = append(out, mgrSeq("manager destroy", a, pick(th, 3, 5))...)
		case "C04":
			a.Focus = []string{"refresh", "refresh-swapped", "refresh-same"}
			a.Ops = []MOp{mref(0, 0), mref(0, 1), mref(1, 0), mref(0, 2), mref(2, 2), mref(3, 3), mref(0, 3), mref(3, 0), {K: "refresh-swapped"}, {K: "refresh-same"}, {K: "refresh-swapped", N: 0, J: 1}, mtick(u), mput(0, kv("k", "w")), mo("r:check", 0), mkeys("r:get", 0, "k"), {K: "r:put", KV: []KV{kv("k", "bad")}}, mo("destroytok", 0)}
			a.Life = true
			out = append(out, mgrSeq("manager refresh", a, pick(th, 3, 4))...)
		case "C03":
			g := time.Duration(grain(c))
			a.Setup = []MOp{mc("u", kv("k", "v1"))}
			a.Ops = []MOp{mc("u"), mref(0, 0), mref(1, 1), mput(0, kv("k", "w")), mkeys("get", 0, "k"), mkeys("del", 0, "k"), mo("check", 0), mo("keys", 0), mtick(2*u - g), mtick(g), mtick(u)}
			a.Life = true
			out = append(out, mgrSeq("manager lifetimes", a, pick(th, 3, 4))...)
		case "C09":
			a.Focus = []string{"close"}
			a.Ops = []MOp{{K: "close"}, {K: "destroy", ID: "u"}, mo("destroytok", 0), mo("hdestroy", 1), mref(0, 0), mc("u", kv("k", "n")), mput(0, kv("k", "w")), mkeys("get", 0, "k"), mkeys("del", 0, "k"), mo("keys", 0), mo("check", 0), mtick(u)}
			out = append(out, mgrSeq("manager close", a, pick(th, 3, 4))...)
		case "C22":
			if c.Backend != "redis" {
				a.Cfg.Max = 4
			}
			a.Life = true
			a.Setup = append(append([]MOp{}, base...), mc("v"), MOp{K: "destroy", ID: "v"})
			a.Ops = []MOp{mc("v"), mref(0, 0), mref(0, 1), mref(0, 2), {K: "refresh-swapped"}, {K: "refresh-same"}, mref(2, 2), mput(0, kv("k", "w")), {K: "r:put", KV: []KV{kv("k", "bad")}}, mkeys("r:del", 0, "k"), {K: "destroy", ID: "v"}, mtick(2 * u)}
			for _, o := range []MOp{mc("v", kv("k", "bad")), mc("u", kv("k", "bad")), mref(0, 0), mref(2, 2), mref(0, 1), mput(0, kv("k", "bad"), kv("k2", "bad")), mkeys("del", 0, "k"), mkeys("get", 0, "k"), mo("keys", 0), mo("check", 0), mo("hdestroy", 0), mo("destroytok", 1), {K: "destroy", ID: "u"}} {
				for o.Cut = 1; o.Cut <= 4; o.Cut++ {
					if o.Cut > 1 && c.Backend == "redis" {
						break // there it has ended from the start
					}
					a.Ops = append(a.Ops, o)
				}
			}
			out = append(out, mgrSeq("manager refused", a, pick(th, 2, 3))...)
		case "C06":
			a.Ops = []MOp{mput(0, kv("k", "w"), kv("k", "w2"), kv("k2", "")), mput(1, kv("k", "o")), mput(0, kv("k2", "x")), mkeys("del", 0, "k", "no", "k"), mkeys("del", 1, "k"), mkeys("get", 0, "k", "k2", "k"), mo("keys", 0), mc("u", kv("k", "1"), kv("k", "2")), mref(0, 0), mput(3, kv("k2", "r"))}
			out = append(out, mgrSeq("manager map", a, pick(th, 3, 4))...)
		}
	}
	return out
}

func uniq(s []string) []string {
	m := map[string]bool{}
	var out []string
	for _, x := range s {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	return out
}

// words lists every string of length 1..n over the alphabet.
func words(alpha []string, n int) []string {
	var out []string
	level := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range level {
			for _, a := range alpha {
				next = append(next, p+a)
			}
		}
		out = append(out, next...)
		level = next
	}
	return uniq(out)
}

var _ = sort.Strings
