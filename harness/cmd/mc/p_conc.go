package main

import (
	"fmt"
	"time"
)

// standard concurrent alphabets

func concOps(th bool) []Op {
	return []Op{
		check("a", 1), get("a", 1, "k", "k2"), keysOf("a", 1),
		put("a", 1, kv("k", "p")), put("a", 1, kv("k", "q"), kv("k2", "q2")), del("a", 1, "k"),
		refresh("a", 1, 2), refresh("a", 1, 3),
		killTok("a", 1), killID("a"), create("a", 1, kv("k2", "n")), create("a", 2, kv("k", "c2")),
		get("a", 2, "k", "k2"), jump(u),
	}
}

// concSetups: fresh session, session about to expire, expired, about to die,
// dead but not yet reclaimed.
func concSetups() map[string][]Op {
	base := []Op{create("a", 1, kv("k", "v")), create("b", 1, kv("k", "vb"))}
	return map[string][]Op{
		"fresh":   base,
		"empty":   nil,
		"aging":   append(append([]Op{}, base...), jump(u)),
		"expired": append(append([]Op{}, base...), jump(2*u)),
		"dead":    append(append([]Op{}, base...), jump(3*u)),
	}
}

var setupOrder = []string{"fresh", "empty", "aging", "expired", "dead"}

func init() {
	register(&Prop{ID: "C10",
		Bounds: "every schedule of all pairs of operations from several starting states up to 3 preemptions (thorough 5), of two-operation threads against one and two operations with 2 (thorough 4) and of triples with 2 (thorough 3; one less where dead sessions are reclaimed meanwhile), on full stores that evict, with the periodic sweep and the clock as participants, with unbuffered, one-place and default reclamation queues, and of operations on 70 to 1100 keys or 300 sessions at once; memory and bolt",
		Jobs: func(th bool) []Job {
			var out []Job
			b := pick(th, 3, 5)
			for _, c := range []Config{mem(2*u, 3*u), bol(2*u, 3*u)} {
				for _, batch := range []int{128, 0} {
					c.Batch = batch
					for _, sn := range setupOrder {
						if batch == 0 && sn != "dead" {
							continue
						}
						s := concSpec{name: "pair " + sn, bound: b, ops: concOps(th), args: ConcArgs{Cfg: c, Setup: concSetups()[sn],
							Toks: toks(tok("a", 1), tok("a", 2), tok("a", 3), tok("b", 1)), Keys: []string{"k", "k2"}, Clock: int64(500 * time.Millisecond)}}
						out = append(out, pairJobs(s)...)
						if sn == "aging" || sn == "expired" {
							s.name = "pair with clock points " + sn
							s.args.TimePts = true
							s.ops = append([]Op{}, concOps(th)...)
							var sub []Op
							for _, o := range s.ops {
								if o.K != OpJump {
									sub = append(sub, o)
								}
							}
							for _, o := range sub {
								out = append(out, concJob(s, [][]Op{{o}, {jump(u)}}))
								out = append(out, concJob(s, [][]Op{{o}, {jump(u), check("a", 1)}}))
							}
						}
					}
				}
			}
			for _, c := range []Config{mem(2*u, 3*u), bol(2*u, 3*u)} {
				out = append(out, localConc(c, th)...)
			}
			return out
		}})
}

// localConc: longer and wider programs on a provider of its own.
func localConc(c Config, th bool) []Job {
	var out []Job
	ops := concOps(th)
	var still []Op // all but the clock
	for _, o := range ops {
		if o.K != OpJump {
			still = append(still, o)
		}
	}
	base := ConcArgs{Cfg: c, Toks: toks(tok("a", 1), tok("a", 2), tok("a", 3), tok("b", 1), tok("c", 1)), Keys: []string{"k", "k2"}, Clock: half, Residue: true}
	writers := []Op{put("a", 1, kv("k", "p")), put("a", 1, kv("k2", "q2")), del("a", 1, "k"), refresh("a", 1, 2), refresh("a", 1, 3), killTok("a", 1), killID("a"), create("a", 1, kv("k2", "n"))}
	seconds := []Op{get("a", 1, "k", "k2"), put("a", 1, kv("k", "p2")), refresh("a", 2, 3), refresh("a", 2, 1), get("a", 2, "k", "k2"), killID("a"), killTok("a", 2), create("a", 2, kv("k", "c2"))}
	// two operations against one and against two, three at once
	for _, sn := range []string{"fresh", "dead"} {
		s := concSpec{name: "two against one " + sn, bound: pick(th, 2, 4), args: base}
		s.args.Setup = concSetups()[sn]
		for _, o := range writers {
			for _, p := range seconds {
				for _, q := range ops {
					out = append(out, concJob(s, [][]Op{{o, p}, {q}}))
				}
			}
		}
		s.name = "three " + sn
		three := still
		s.bound = pick(th, 2, 3)
		if sn == "dead" {
			// the background reclamation takes part
			s.bound--
		}
		if !th {
			three = writers
		}
		for i := range three {
			for j := i; j < len(three); j++ {
				for k := range ops {
					out = append(out, concJob(s, [][]Op{{three[i]}, {three[j]}, {ops[k]}}))
				}
			}
		}
	}
	s := concSpec{name: "two against two", bound: pick(th, 2, 4), args: base}
	s.args.Setup = concSetups()["fresh"]
	for _, o := range writers {
		for _, p := range seconds {
			for _, q := range [][]Op{{refresh("a", 1, 3), get("a", 3, "k", "k2")}, {put("a", 1, kv("k", "x"), kv("k2", "x")), get("a", 1, "k", "k2")}, {killTok("a", 1), create("a", 1)}, {killID("a"), keysOf("a", 1)}, {create("a", 1, kv("k", "y")), refresh("a", 1, 2)}} {
				out = append(out, concJob(s, [][]Op{{o, p}, q}))
			}
		}
	}
	// a full store: creations evict
	f := base
	f.Cfg.Max = 2
	f.Toks = append(f.Toks, tok("c", 2))
	full := append([]Op{create("c", 1, kv("k", "c")), create("c", 2), create("b", 1, kv("k", "again")), refresh("b", 1, 1)}, ops...)
	if c.Backend == "bolt" {
		full = append(full, Op{K: OpClear})
	}
	for _, batch := range []int{128, 0, 1} {
		for _, sn := range setupOrder {
			if sn == "empty" || batch != 128 && sn != "dead" {
				continue
			}
			s := concSpec{name: "full " + sn, bound: pick(th, 2, 4), args: f, ops: full}
			s.args.Cfg.Batch = batch
			s.args.Setup = concSetups()[sn]
			out = append(out, pairJobs(s)...)
			if batch == 128 && sn == "fresh" || sn == "dead" {
				s.bound = pick(th, 1, 3)
				for _, o := range full[:4] {
					for _, p := range full[:4] {
						for _, q := range full {
							out = append(out, concJob(s, [][]Op{{o, p}, {q}}))
						}
					}
				}
			}
		}
	}
	// the periodic sweep, driven by the clock
	w := base
	w.Cfg.Clear = u + u/2
	for _, max := range []int{0, 2} {
		w.Cfg.Max = max
		for _, sn := range []string{"aging", "expired", "dead"} {
			s := concSpec{name: "sweep " + sn, bound: pick(th, 2, 4), args: w}
			s.args.Setup = concSetups()[sn]
			if max > 0 && !th {
				s.bound = 1
			}
			for _, o := range still {
				out = append(out, concJob(s, [][]Op{{o}, {jump(u)}}))
				out = append(out, concJob(s, [][]Op{{jump(u), o}, {jump(u)}}))
				t := s
				t.bound = 1
				if !th && (max > 0 || sn != "aging") {
					t.bound = 0
				}
				for _, q := range []Op{create("a", 1, kv("k2", "n")), create("c", 1), refresh("a", 1, 2), get("a", 1, "k", "k2"), killID("b")} {
					out = append(out, concJob(t, [][]Op{{o}, {jump(2 * u), q}}))
					out = append(out, concJob(t, [][]Op{{o}, {jump(u)}, {q}}))
				}
			}
		}
	}
	out = append(out, largeConc(c, th)...)
	return out
}

// largeConc: operations on many keys and many sessions at once overlap.
func largeConc(c Config, th bool) []Job {
	var out []Job
	second := 0
	if c.Backend == "redis" {
		second, c.N = 1, 2
	}
	for _, n := range []int{70, 150, 300, 1100} {
		m := manyKV(n)
		var w []KV
		var keys []string
		for i, x := range m {
			w = append(w, kv(x.K, fmt.Sprint("w", i)))
			keys = append(keys, x.K)
		}
		s := concSpec{name: fmt.Sprintf("%d keys at once", n), bound: 1, args: ConcArgs{Cfg: c, Split: second > 0, Expiry: second > 0,
			Setup: setup(create("a", 1, m...), create("b", 1, kv("k", "vb"))),
			Toks:  toks(tok("a", 1), tok("a", 2), tok("a", 3), tok("b", 1)), Keys: keys, Clock: half}}
		if second > 0 {
			s.bound = pick(th, 2, 4)
		}
		ops := []Op{put("a", 1, w...), create("a", 1, w...), delMany("a", 1, n), get("a", 1, keys...), keysOf("a", 1), refresh("a", 1, 2), refresh("a", 1, 3), killTok("a", 1), killID("a")}
		for i := range ops {
			for j := range ops {
				if j < i && second == 0 {
					continue
				}
				if n > 300 && c.Backend == "memory" && ops[i].K == OpKeys && ops[j].K == OpKeys {
					continue
				}
				out = append(out, concJob(s, [][]Op{{ops[i]}, onAll(second, ops[j:j+1])}))
			}
		}
		if n > 300 && !th {
			continue
		}
		// many sessions
		s.name = fmt.Sprintf("%d sessions at once", n)
		s.bound = 1
		s.args.Keys = []string{"k"}
		s.args.Toks = nil
		s.args.Setup = []Op{create("b", 1, kv("k", "vb"))}
		for i := 1; i <= n; i++ {
			s.args.Setup = append(s.args.Setup, create("a", i, kv("k", fmt.Sprint(i))))
		}
		s.args.Toks = toks(tok("b", 1), tok("b", 2), tok("a", 1), tok("a", n/2), tok("a", n), tok("a", n+1))
		if second > 0 {
			// sessions go one at a time
			s.bound = pick(th, 2, 3)
		}
		for _, o := range [][]Op{{killID("a")}, {refresh("a", n/2, n+1)}, {refresh("a", n, n+1), refresh("a", n+1, 1)}, {create("a", n+1, kv("k", "n"))}, {killTok("a", n/2), get("a", n, "k")}, {killID("b"), create("b", 2)}, {get("a", n/2, "k"), get("a", n/2, "k")}} {
			out = append(out, concJob(s, [][]Op{{killID("a")}, onAll(second, o)}))
		}
	}
	return out
}
