package main

import (
	"fmt"
	"strings"
	"time"
)

// crowdJobs: what goes right with three sessions or keys has to go right with
// very many, too: every short sequence from a crowded store.
func crowdJobs(prop string, th bool) []Job {
	var out []Job
	for _, c := range backends(4*u, 6*u) {
		for _, n := range []int{70, 140, 300, 1100} {
			depth := 1
			if n <= 140 || th {
				depth = 2
			}
			if n == 1100 && c.Backend == "bolt" && th {
				depth = 1
			}
			local := c.Backend != "redis"
			c.Clear, c.Max = 0, 0
			if local {
				c.Clear = 7 * u
			}
			tk := append(tokList("a", n+2), tok("b", 1), tok("b", 2), tok("az", 1), tok("n", 1), tok("n", 2))
			// sessions of one identity between some of others
			st := []Op{create("b", 1, kv("k", "b1"))}
			for i := 1; i <= n; i++ {
				st = append(st, create("a", i, kv("k", fmt.Sprintf("v%d", i))))
				if i == n/2 {
					st = append(st, create("az", 1, kv("k", "az")), tick(u))
				}
			}
			st = append(st, create("b", 2, kv("k", "b2")))
			a := SeqArgs{Cfg: c, Setup: st, Toks: tk, Keys: []string{"k"}}
			name := fmt.Sprintf("crowd of %d sessions", n)
			switch prop {
			case "C05":
				a.Residue = true
				a.Ops = []Op{killID("a"), killID("b"), killID("az"), killTok("a", 1), killTok("a", n/2), killTok("a", n), refresh("a", 2, n+1), create("a", n+2, kv("k", "new")), tick(5 * u)}
			case "C07":
				if !local {
					continue
				}
				a.Cfg.Max = n + 3
				a.Ops = []Op{create("n", 1, kv("k", "n")), create("n", 2), create("a", 1, kv("k", "again")), refresh("a", 1, n+1), refresh("b", 1, 1), killTok("a", n/2), killID("b"), killID("a"), tick(5 * u), tick(6 * u), tick(7 * u)}
				if c.Backend == "bolt" {
					a.Ops = append(a.Ops, Op{K: OpReopen}, Op{K: OpClear})
				}
			case "C14":
				a.Residue, a.Sweep = true, true
				a.Ops = []Op{tick(5 * u), tick(6 * u), jump(5 * u), jump(6 * u), refresh("a", 1, n+1), refresh("a", n, n), create("a", 2, kv("k", "again")), killID("a"), check("a", 1)}
			case "C03":
				a.Ops = []Op{refresh("a", 1, n+1), refresh("a", n, n), create("a", 2, kv("k", "again")), put("a", 3, kv("k", "w")), tick(3*u - 1*time.Millisecond), tick(time.Millisecond), tick(u), tick(2 * u)}
			case "C04", "C06", "C22":
				// many keys
				m := manyKV(n)
				last := m[n-1].K
				a.Setup = setup(create("a", 1, m...), create("a", 2, kv("k", "v2"), kv(last, "two")), create("b", 1, kv(last, "b")))
				a.Toks = append(tokList("a", 5), tok("b", 1), tok("b", 5))
				a.Keys = []string{"k"}
				for i := 0; i <= n+1; i++ {
					a.Keys = append(a.Keys, fmt.Sprintf("key%03d", i))
				}
				name = fmt.Sprintf("crowd of %d keys", n)
				over := manyKV(n + 2)
				for i := range over {
					over[i].V += " changed"
				}
				switch prop {
				case "C04":
					a.Ops = []Op{refresh("a", 1, 3), refresh("a", 1, 1), refresh("a", 1, 2), refresh("a", 3, 4), refreshWith(tok("a", 1), rtok("a", 2), tok("a", 5), rtok("a", 5)), refreshWith(tok("a", 1), rtok("a", 1), tok("b", 5), rtok("b", 5)), put("a", 1, over...), tick(5 * u), tick(6 * u)}
				case "C06":
					twice := append(append([]KV{}, over...), m...)
					a.Ops = []Op{put("a", 1, over...), put("a", 1, twice...), put("a", 2, over...), create("a", 1, over[n/2:]...), delMany("a", 1, n), delMany("a", 1, n/2), del("a", 1, last), get("a", 1, append(append([]string{}, a.Keys...), a.Keys...)...), keysOf("a", 1), refresh("a", 1, 3)}
				case "C22":
					bad := append(append([]KV{}, over...), kv("__private_provider_redis", "x"))
					a.Ops = []Op{put("a", 9, over...), put("a", 1, over[:2]...), refreshWith(tok("a", 1), rtok("a", 2), tok("a", 5), rtok("a", 5)), refreshWith(tok("a", 1), rtok("a", 1), "mal.formed", rtok("a", 5)), tick(5 * u),
						{K: OpCreate, T: tok("a", 1), R: "mal.formed", KV: over}, {K: OpPut, T: rtok("a", 1), KV: over}, {K: OpDelete, T: rtok("a", 1), Keys: a.Keys}}
					if c.Backend == "redis" {
						a.Ops = append(a.Ops, Op{K: OpPut, T: tok("a", 1), KV: bad}, Op{K: OpCreate, T: tok("a", 1), R: rtok("a", 1), KV: bad}, Op{K: OpCreate, T: tok("a", 4), R: rtok("a", 4), KV: bad},
							Op{K: OpDelete, T: tok("a", 1), Keys: append(append([]string{}, a.Keys...), "__private_provider_redis")})
					}
				}
			}
			out = append(out, seqJobs(name, a, depth)...)
			if (prop == "C05" || prop == "C07" || prop == "C14") && n <= 300 {
				// most of them end one by one, the others stay
				thin := map[string]func(i int) bool{"oldest": func(i int) bool { return i < n-1 }, "newest": func(i int) bool { return i > 2 }, "others": func(i int) bool { return i%2 == 0 && i < n-1 }}
				for _, how := range []string{"oldest", "newest", "others"} {
					for _, by := range []string{"destroyed", "refreshed"} {
						b := a
						b.Setup = append([]Op{}, st...)
						for j := 1; j <= n; j++ {
							i := j
							if how == "newest" {
								i = n + 1 - j
							}
							if !thin[how](i) {
								continue
							}
							if by == "destroyed" {
								b.Setup = append(b.Setup, killTok("a", i))
							} else {
								// all into the same pair: each replaces the one before
								b.Setup = append(b.Setup, refreshWith(tok("a", i), rtok("a", i), tok("a", n+1), rtok("a", n+1)))
							}
						}
						out = append(out, seqJobs(fmt.Sprintf("crowd of %d sessions, the %s %s", n, how, by), b, 1)...)
					}
				}
			}
		}
	}
	if prop == "C06" || prop == "C08" {
		// large values
		for _, c := range backends(4*u, 6*u) {
			for _, n := range []int{1 << 12, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<20 + 1} {
				v := strings.Repeat("0123456789abcdef", n/16) + strings.Repeat("z", n%16)
				w := strings.Repeat("ABCDEF", n/6)
				a := SeqArgs{Cfg: c, Setup: setup(create("a", 1, kv("k", v), kv("x", "y")), create("b", 1, kv("k", w))), Toks: append(tokList("a", 2), tok("b", 1)), Keys: []string{"k", "x", "l"}, Hold: prop == "C06",
					Ops: []Op{put("a", 1, kv("k", w)), put("a", 1, kv("l", v), kv("x", w)), put("b", 1, kv("k", v)), get("a", 1, "k", "x", "k"), create("a", 1, kv("l", w)), refresh("a", 1, 2), del("a", 1, "k")}}
				if prop == "C08" {
					a.Spoil = true
				}
				out = append(out, seqJobs(fmt.Sprintf("values of %d bytes", n), a, 2)...)
			}
		}
	}
	return out
}
