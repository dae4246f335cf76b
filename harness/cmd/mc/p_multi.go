package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"mcverif/vs"
)

// Multitudes: so many sessions, identities or keys that whatever is told apart
// by less than itself (a short hash, a counter of 16 bits) meets its like. One
// long history each; what is expected is kept in plain maps.

type MultiArgs struct {
	Cfg  Config
	N    int
	Prog string
}

func init() {
	suites["multi"] = func(raw json.RawMessage) func(*Exec) {
		var a MultiArgs
		decode(raw, &a)
		return func(x *Exec) { multiBody(&a, x) }
	}
}

// scatter gives well spread names (sequential ones do not meet under a CRC).
func scatter(i int) string {
	z := uint64(i+1) * 0x9e3779b97f4a7c15
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return fmt.Sprintf("%016x", z^z>>31)
}

func multiBody(a *MultiArgs, x *Exec) {
	w := newWorld(a.Cfg)
	defer w.Done()
	n := a.N
	steps := 0
	// a store may take its time; then what was seen so far has to do
	start, over := time.Now(), false
	do := func(o Op, want Res) bool {
		got := w.Do(o)
		x.trans++
		if steps++; steps%200 == 0 {
			vs.Quiesce()
			vs.Rested()
			if time.Since(start) > 40*time.Second {
				over = true
			}
		}
		if over {
			x.cut = true
			return false
		}
		if !got.equal(want) {
			x.fail("%s of %d: %.300s returned [%.300s], expected [%.300s]", a.Prog, n, o, got, want)
			return false
		}
		return true
	}
	ok := Res{}
	gone := Res{Err: eNotExists}
	id := func(i int) string { return "i" + scatter(i) }
	t1 := func(i int) string { return id(i) + ".s.g" }
	r1 := func(i int) string { return id(i) + ".r.g" }
	val := func(i int) string { return "v" + scatter(i+n) }
	is := func(v string) Res { return Res{Vals: []string{"=" + v}} }
	one := func(i int) Op { return create1(t1(i), r1(i), kv("k", val(i))) }
	read := func(t string) Op { return Op{K: OpGet, T: t, Keys: []string{"k"}} }
	even := func(i int) bool { return i%2 == 0 }
	fill := func(from, to int) bool {
		for i := from; i < to; i++ {
			if !do(one(i), ok) {
				return false
			}
		}
		return true
	}
	all := func(f func(i int) bool) bool {
		for i := 0; i < n; i++ {
			if !f(i) {
				return false
			}
		}
		return true
	}
	switch a.Prog {
	case "identities destroyed", "sessions destroyed":
		if !fill(0, n) {
			return
		}
		all(func(i int) bool {
			if !even(i) {
				return true
			}
			if a.Prog == "identities destroyed" {
				return do(Op{K: OpDestroyID, ID: id(i)}, ok)
			}
			return do(Op{K: OpDestroyToken, T: t1(i)}, ok)
		})
		all(func(i int) bool {
			if even(i) {
				return do(read(t1(i)), gone)
			}
			return do(read(t1(i)), is(val(i)))
		})
	case "sessions of one identity":
		// tokens that differ in nothing but their middle
		t := func(i int) string { return "a." + scatter(i) + ".g" }
		r := func(i int) string { return "a." + scatter(i) + ".r" }
		if !all(func(i int) bool { return do(create1(t(i), r(i), kv("k", val(i))), ok) }) {
			return
		}
		if !do(create1("b.s.g", "b.r.g", kv("k", "b")), ok) || !all(func(i int) bool { return do(read(t(i)), is(val(i))) }) {
			return
		}
		if do(Op{K: OpDestroyID, ID: "a"}, ok) {
			all(func(i int) bool { return do(Op{K: OpCheck, T: t(i)}, gone) })
			do(read("b.s.g"), is("b"))
		}
	case "sessions refreshed":
		if !fill(0, n) {
			return
		}
		t2 := func(i int) string { return id(i) + ".t.g" }
		r2 := func(i int) string { return id(i) + ".q.g" }
		all(func(i int) bool {
			if !even(i) {
				return do(Op{K: OpRefresh, T: t1(i), R: id(i) + ".x.g", NT: t2(i), NR: r2(i)}, Res{Err: eRefreshBad})
			}
			return do(Op{K: OpRefresh, T: t1(i), R: r1(i), NT: t2(i), NR: r2(i)}, ok)
		})
		all(func(i int) bool {
			if even(i) {
				return do(read(t1(i)), gone) && do(read(t2(i)), is(val(i)))
			}
			return do(read(t1(i)), is(val(i))) && do(read(t2(i)), gone)
		})
	case "values written":
		if !fill(0, n) {
			return
		}
		all(func(i int) bool {
			return !even(i) || do(Op{K: OpPut, T: t1(i), KV: []KV{kv("k", val(i+n)), kv("l", val(i))}}, ok)
		})
		all(func(i int) bool {
			if even(i) {
				return do(read(t1(i)), is(val(i+n))) && do(Op{K: OpKeys, T: t1(i)}, Res{Keys: []string{"k", "l"}})
			}
			return do(read(t1(i)), is(val(i))) && do(Op{K: OpKeys, T: t1(i)}, Res{Keys: []string{"k"}})
		})
	case "sessions that die":
		if !fill(0, n) {
			return
		}
		t2 := func(i int) string { return id(i) + ".t.g" }
		r2 := func(i int) string { return id(i) + ".q.g" }
		w.Do(Op{K: OpTick, D: half})
		all(func(i int) bool {
			return !even(i) || do(Op{K: OpRefresh, T: t1(i), R: r1(i), NT: t2(i), NR: r2(i)}, ok)
		})
		w.Do(Op{K: OpTick, D: int64(a.Cfg.Refresh) - half})
		vs.Quiesce()
		all(func(i int) bool {
			if even(i) {
				return do(Op{K: OpRefresh, T: t2(i), R: r2(i), NT: t1(i), NR: r1(i)}, ok)
			}
			return do(Op{K: OpCheck, T: t1(i)}, gone)
		})
		all(func(i int) bool {
			if even(i) {
				return do(read(t1(i)), is(val(i)))
			}
			return true
		})
		vs.Quiesce()
		dump := w.dump() + w.hidden()
		if all(func(i int) bool {
			if i < n-200 || even(i) {
				return true
			}
			if strings.Contains(dump, scatter(i)) {
				x.fail("%s of %d: something of the dead session of %s is left", a.Prog, n, id(i))
				return false
			}
			return true
		}) {
			x.logf("%d bytes of store", len(dump))
		}
	case "sessions evicted":
		// the limit is n
		if !fill(0, n) {
			return
		}
		all(func(i int) bool {
			return !even(i) || do(Op{K: OpRefresh, T: t1(i), R: r1(i), NT: t1(i), NR: r1(i)}, ok)
		})
		if !fill(n, n+n/2-n/8) {
			return
		}
		old := 0
		all(func(i int) bool {
			if even(i) {
				return do(read(t1(i)), is(val(i)))
			}
			if old++; old <= n/2-n/8 {
				return do(read(t1(i)), gone)
			}
			return do(read(t1(i)), is(val(i)))
		})
	case "keys of one session":
		key := func(i int) string { return "k" + scatter(i) }
		if !do(create1("a.s.g", "a.r.g"), ok) || !do(create1("a.s.h", "a.r.h", kv(key(1), "other")), ok) {
			return
		}
		const by = 1000
		keys := map[string]bool{}
		batch := func(f func(lo, hi int) bool) bool {
			for i := 0; i < n; i += by {
				if !f(i, min(i+by, n)) {
					return false
				}
			}
			return true
		}
		if !batch(func(lo, hi int) bool {
			o := Op{K: OpPut, T: "a.s.g"}
			for i := lo; i < hi; i++ {
				o.KV = append(o.KV, kv(key(i), val(i)))
				keys[key(i)] = true
			}
			return do(o, ok)
		}) {
			return
		}
		if !batch(func(lo, hi int) bool {
			o := Op{K: OpDelete, T: "a.s.g"}
			for i := lo; i < hi; i++ {
				if i%3 == 0 {
					o.Keys = append(o.Keys, key(i))
					delete(keys, key(i))
				}
			}
			return do(o, ok)
		}) {
			return
		}
		var names []string
		for k := range keys {
			names = append(names, k)
		}
		sort.Strings(names)
		if !do(Op{K: OpKeys, T: "a.s.g"}, Res{Keys: names}) || !do(Op{K: OpGet, T: "a.s.h", Keys: []string{key(1), key(2)}}, Res{Vals: []string{"=other", "-"}}) {
			return
		}
		if !do(Op{K: OpRefresh, T: "a.s.g", R: "a.r.g", NT: "a.s.n", NR: "a.r.n"}, ok) {
			return
		}
		batch(func(lo, hi int) bool {
			o, want := Op{K: OpGet, T: "a.s.n"}, Res{}
			for i := lo; i < hi; i++ {
				o.Keys = append(o.Keys, key(i))
				if i%3 == 0 {
					want.Vals = append(want.Vals, "-")
				} else {
					want.Vals = append(want.Vals, "="+val(i))
				}
			}
			return do(o, want)
		})
	}
	x.outcome(a.Prog)
	x.state(fmt.Sprint(a.Prog, n, a.Cfg))
}

func create1(t, r string, pairs ...KV) Op {
	return Op{K: OpCreate, T: t, R: r, KV: pairs}
}

func multiJobs(prop string, th bool) []Job {
	progs := map[string][]string{
		"C02": {"identities destroyed"},
		"C04": {"sessions refreshed"},
		"C05": {"sessions destroyed", "sessions of one identity"},
		"C06": {"values written", "keys of one session"},
		"C07": {"sessions evicted"},
		"C14": {"sessions that die"},
	}
	long := 1000 * time.Hour
	var out []Job
	for _, c := range backends(long, 2*long) {
		c.Clear, c.Max = 0, 0
		// enough for 32 bits to be too few, or 16 where each takes longer
		n := map[string]int{"memory": pick(th, 400000, 1000000), "redis": pick(th, 130000, 400000), "bolt": pick(th, 70000, 140000)}[c.Backend]
		for _, p := range progs[prop] {
			k := n
			if p == "keys of one session" {
				k = 400000
			}
			if p == "identities destroyed" && c.Backend == "redis" || p == "sessions of one identity" && c.Backend == "bolt" {
				k = 2500 // each takes time in proportion to all
			}
			if p == "sessions evicted" {
				if c.Backend == "redis" {
					continue
				}
				c.Max = k
			}
			a := MultiArgs{Cfg: c, N: k, Prog: p}
			out = append(out, job("multi", fmt.Sprintf("multitude [%s] %d %s", c, k, p), 0, a))
		}
	}
	return out
}
