package main

import (
	"fmt"
	"time"
)

// settingJobs: a store outlives the settings it was opened with. It is opened
// again with other lifetimes and another limit, or used by two providers with
// different ones at the same time; every session keeps what it was given.
func settingJobs(prop string, th bool) []Job {
	var out []Job
	re := func(n int) Op { return Op{K: OpReopen, D: int64(n) + 1} }
	both := func(ops ...Op) []Op { return append(onAll(0, ops), onAll(1, ops)...) }
	with := func(c Config, a, r time.Duration, max int) Config {
		return Config{Access: a, Refresh: r, Max: max, Batch: c.Batch, Clear: c.Clear, MetaKey: c.MetaKey}
	}
	for _, c := range backends(2*u, 4*u) {
		if c.Backend == "memory" || c.Backend == "redis" && prop == "C07" {
			continue
		}
		bolt := c.Backend == "bolt"
		c.Clear = 0
		a := SeqArgs{Cfg: c, Clock: half, Toks: append(tokList("a", 4), tok("b", 1), tok("b", 2)), Keys: []string{"k"},
			Setup: setup(create("a", 1, kv("k", "v1")), create("b", 1, kv("k", "b1")))}
		switch prop {
		case "C03":
			a.Life, a.LifeOps = true, true
			a.Cfg.Alt = []Config{with(c, u, u, 0), with(c, 3*u, 9*u, 0), with(c, u, 24*time.Hour, 0)}
			a.Ops = []Op{re(0), re(1), re(2), re(3), create("a", 1, kv("k", "c")), create("a", 2), refresh("a", 1, 3), refresh("b", 1, 1), put("a", 1, kv("k", "w")), get("b", 1, "k"), tick(u), tick(3 * u)}
			out = append(out, seqJobs("reopened with other lifetimes", a, pick(th, 3, 4))...)
			b := a
			b.Cfg.Alt, b.Cfg.N = nil, 2
			b.Cfg.Each = []Config{with(c, 2*u, 4*u, 0), with(c, u, 9*u, 0)}
			b.Ops = both(create("a", 1, kv("k", "c")), refresh("a", 1, 3), refresh("b", 1, 1), put("a", 1, kv("k", "w")), get("b", 1, "k"), check("a", 3), killTok("a", 3))
			b.Ops = append(b.Ops, tick(u), tick(3*u))
			out = append(out, seqJobs("two lifetimes on one store", b, pick(th, 2, 3))...)
		case "C07":
			for _, max := range []int{0, 3, 4} {
				a.Cfg.Max = max
				a.Cfg.Alt = []Config{with(c, 2*u, 4*u, 1), with(c, 2*u, 4*u, 2), with(c, 2*u, 4*u, 5), with(c, 2*u, 4*u, 0)}
				a.Setup = setup(create("a", 1, kv("k", "v1")), create("b", 1, kv("k", "b1")), create("a", 2, kv("k", "v2")), refresh("a", 1, 3))
				a.Ops = []Op{re(0), re(1), re(2), re(3), re(4), create("a", 1, kv("k", "c")), create("b", 1, kv("k", "again")), create("b", 2), create("a", 4), refresh("a", 2, 1), refresh("b", 1, 1), killTok("a", 2), killID("a"), tick(4 * u), put("b", 1, kv("k", "w")), {K: OpClear}}
				out = append(out, seqJobs("reopened with another limit", a, pick(th || max == 3, 4, 3)+pick(th && max == 3, 0, 1))...)
			}
			for _, n := range []int{70, 300, 1100} {
				b := a
				b.Cfg.Max = n + 3
				b.Cfg.Alt = nil
				for _, m := range []int{1, 3, n / 2, n - 1, n + 1, 2 * n} {
					b.Cfg.Alt = append(b.Cfg.Alt, with(c, 2*u, 4*u, m))
				}
				b.Setup = setup(create("b", 1, kv("k", "b1")))
				for i := 1; i <= n; i++ {
					b.Setup = append(b.Setup, create("a", i, kv("k", "v")))
				}
				b.Setup = append(b.Setup, create("b", 2), refresh("a", 3, 3))
				b.Toks = append(tokList("a", n), tok("b", 1), tok("b", 2), tok("z", 1), tok("z", 2))
				for i := range b.Cfg.Alt {
					e := b
					e.Setup = append(append([]Op{}, b.Setup...), re(i+1))
					e.Ops = []Op{create("z", 1, kv("k", "z")), create("a", 1, kv("k", "again")), refresh("a", 2, 2), create("z", 2), re(0)}
					out = append(out, seqJobs(fmt.Sprintf("%d sessions, reopened with another limit", n), e, pick(n < 1100, 2, 1))...)
				}
			}
		case "C14":
			if !bolt {
				continue
			}
			c.Clear = 5 * u
			a.Residue, a.Sweep, a.Cfg.Clear = true, true, c.Clear
			a.Cfg.Alt = []Config{with(c, u, u, 0), with(c, 3*u, 24*time.Hour, 0), with(c, u, 9*u, 0)}
			a.Ops = []Op{re(0), re(1), re(2), re(3), create("a", 1, kv("k", "c")), create("a", 2, kv("k", "c2")), create("b", 2), refresh("a", 1, 3), refresh("b", 1, 1), tick(u), tick(4 * u), tick(5 * u), jump(4 * u)}
			out = append(out, seqJobs("reopened with other lifetimes", a, pick(th, 4, 5))...)
			l := a
			l.Setup = setup(re(2), create("a", 1, kv("k", "long")), re(0), create("b", 1, kv("k", "b1")))
			out = append(out, seqJobs("reopened with shorter lifetimes", l, pick(th, 3, 4))...)
			b := a
			b.Cfg.Alt, b.Cfg.N = nil, 2
			b.Cfg.Each = []Config{with(c, 2*u, 4*u, 0), with(c, u, 19*u, 0)}
			b.Ops = both(create("a", 1, kv("k", "c")), create("a", 2), refresh("a", 1, 3), refresh("b", 1, 1), get("b", 1, "k"))
			b.Ops = append(b.Ops, tick(u), tick(4*u), tick(5*u), jump(4*u))
			out = append(out, seqJobs("two lifetimes on one store", b, pick(th, 3, 4))...)
			for _, n := range []int{70, 300, 1100} {
				// some that live long between many that do not
				e := a
				e.Cfg.Alt = []Config{with(c, 3*u, 24*time.Hour, 0), with(c, u, 9*u, 0)}
				e.Setup = nil
				for i := 1; i <= n; i++ {
					switch i {
					case 2, n / 2, n - 1:
						e.Setup = append(e.Setup, re(1), create("a", i, kv("k", "long")), re(0))
					case n / 3:
						e.Setup = append(e.Setup, re(2), create("a", i, kv("k", "longer")), re(0))
					default:
						e.Setup = append(e.Setup, create("a", i, kv("k", "v")))
					}
				}
				e.Toks = append(tokList("a", n+1), tok("b", 1))
				e.Ops = []Op{tick(3 * u), tick(4 * u), jump(4 * u), tick(5 * u), re(1), refresh("a", 2, n+1), refresh("a", 3, n+1), killTok("a", n/2), create("b", 1)}
				out = append(out, seqJobs(fmt.Sprintf("%d sessions of different lifetimes", n), e, pick(n < 1100, 2, 1))...)
			}
		}
	}
	return out
}
