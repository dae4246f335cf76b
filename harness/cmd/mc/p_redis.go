package main

import "time"

// Property C12: several clients of one redis server.

func redisConcOps() []Op {
	return []Op{
		check("a", 1), get("a", 1, "k", "k2"), keysOf("a", 1),
		put("a", 1, kv("k", "p")), put("a", 1, kv("k", "q"), kv("k2", "q2")), del("a", 1, "k"),
		refresh("a", 1, 2), refresh("a", 1, 3), refresh("a", 1, 1),
		killTok("a", 1), killID("a"), create("a", 1, kv("k2", "n")), create("a", 2, kv("k", "c2")),
		get("a", 2, "k", "k2"), jump(u),
	}
}

// second provider for the second thread
func onAll(p int, ops []Op) []Op {
	var out []Op
	for _, o := range ops {
		if o.K != OpJump {
			o.P = p
		}
		out = append(out, o)
	}
	return out
}

func init() {
	register(&Prop{ID: "C12",
		Bounds: "every interleaving of single server commands and transactions of two operations of two providers up to 3 preemptions (thorough 5; fewer where the background reclamation takes part) from fresh, empty, aging, expired and dead sessions; operations on 70 to 1100 keys or 300 sessions at once; every operation with another client's operation before each of its commands of one kind, up to 16 times; two operations against one, two against two and three operations with 2 and 3 preemptions (thorough more); separate and shared clients; what existed when the destruction of an identity was called must be gone when it returns",
		Assume: []string{"the server executes one command or transaction at a time (modelled by harness/fakeredis from the documented semantics)"},
		Jobs: func(th bool) []Job {
			out := stormJobs(th)
			c := red(2*u, 3*u)
			c.N = 2
			base := ConcArgs{Cfg: c, Split: true, Expiry: true, Residue: true, Clock: half,
				Toks: toks(tok("a", 1), tok("a", 2), tok("a", 3), tok("b", 1)), Keys: []string{"k", "k2"}}
			ops := redisConcOps()
			for _, shared := range []bool{false, true} {
				for _, batch := range []int{128, 0} {
					for _, sn := range setupOrder {
						if (shared || batch == 0) && sn != "dead" && sn != "fresh" {
							continue
						}
						s := concSpec{name: "pair " + sn, bound: pick(th, 3, 5), args: base}
						s.args.Cfg.Shared, s.args.Cfg.Batch = shared, batch
						s.args.Setup = concSetups()[sn]
						if sn == "dead" || sn == "empty" {
							// the background reclamation takes part
							s.bound = pick(th, 2, 3)
							if shared || batch == 0 || sn == "empty" {
								s.bound--
							}
						}
						for i := range ops {
							for j := i; j < len(ops); j++ {
								out = append(out, concJob(s, [][]Op{{ops[i]}, onAll(1, ops[j:j+1])}))
							}
						}
					}
				}
			}
			// the clock passes a deadline at any point of an operation
			for _, sn := range []string{"aging", "expired"} {
				s := concSpec{name: "pair with clock points " + sn, bound: pick(th, 2, 4), args: base}
				s.args.TimePts = true
				s.args.Setup = concSetups()[sn]
				for _, o := range ops {
					if o.K == OpJump {
						continue
					}
					out = append(out, concJob(s, [][]Op{{o}, {jump(u)}}))
					out = append(out, concJob(s, [][]Op{{o}, {jump(u), on(1, check("a", 1))}}))
				}
			}
			// longer programs
			writers := []Op{put("a", 1, kv("k", "p")), put("a", 1, kv("k2", "q2")), del("a", 1, "k"), refresh("a", 1, 2), refresh("a", 1, 3), killTok("a", 1), killID("a"), create("a", 1, kv("k2", "n"))}
			seconds := []Op{get("a", 1, "k", "k2"), put("a", 1, kv("k", "p2")), refresh("a", 2, 3), refresh("a", 2, 1), get("a", 2, "k", "k2"), killID("a"), killTok("a", 2), create("a", 2, kv("k", "c2"))}
			s := concSpec{name: "two against one", bound: pick(th, 2, 4), args: base}
			s.args.Setup = concSetups()["fresh"]
			for _, o := range writers {
				for _, p := range seconds {
					for _, q := range ops {
						if q.K == OpJump {
							continue
						}
						out = append(out, concJob(s, [][]Op{{o, p}, onAll(1, []Op{q})}))
					}
				}
			}
			s = concSpec{name: "three", bound: pick(th, 2, 3), args: base}
			s.args.Cfg.N = 3
			s.args.Setup = concSetups()["fresh"]
			three := writers
			if th {
				three = ops[:len(ops)-1]
			}
			for i := range three {
				for j := i; j < len(three); j++ {
					for k := j; k < len(three); k++ {
						out = append(out, concJob(s, [][]Op{{three[i]}, onAll(1, three[j:j+1]), onAll(2, three[k:k+1])}))
					}
				}
			}
			// an identity with several sessions that move while it is destroyed
			s = concSpec{name: "destroy identity", bound: pick(th, 3, 5), args: base}
			s.args.Toks = append(tokList("a", 4), tok("b", 1), tok("ab", 1))
			s.args.Setup = setup(create("a", 1, kv("k", "v")), create("a", 2, kv("k", "w")), create("b", 1, kv("k", "vb")), create("ab", 1))
			for _, prog := range [][]Op{
				{refresh("a", 1, 3)}, {refresh("a", 1, 3), refresh("a", 3, 4)}, {refresh("a", 1, 3), refresh("a", 3, 1)}, {refresh("a", 1, 3), refresh("a", 2, 4)}, {refresh("a", 2, 2), put("a", 2, kv("k", "z"))},
				{create("a", 3), killTok("a", 1)}, {create("a", 1, kv("k2", "n")), get("a", 1, "k", "k2")}, {killID("a"), create("a", 1)}, {put("b", 1, kv("k", "z")), refresh("b", 1, 1)}, {killID("ab"), get("a", 1, "k")},
				{refresh("a", 1, 3), refresh("a", 3, 1), refresh("a", 1, 3)}, {create("a", 3), refresh("a", 3, 1), refresh("a", 2, 3)},
			} {
				out = append(out, concJob(s, [][]Op{{killID("a")}, onAll(1, prog)}))
				if th || len(prog) < 2 {
					s2 := s
					s2.args.Cfg.N = 3
					s2.bound = 2
					for _, q := range []Op{killID("a"), refresh("a", 2, 4), killTok("a", 2), put("a", 1, kv("k", "q"))} {
						out = append(out, concJob(s2, [][]Op{{killID("a")}, onAll(1, prog), onAll(2, []Op{q})}))
					}
				}
			}
			// rotation chains: both clients hold the same pairs
			s = concSpec{name: "rotation", bound: pick(th, 3, 6), args: base}
			s.args.Toks = append(tokList("a", 5), tok("b", 1))
			s.args.Setup = concSetups()["fresh"]
			for _, pr := range [][2][]Op{
				{{refresh("a", 1, 2), refresh("a", 2, 4)}, {refresh("a", 1, 3), refresh("a", 3, 5)}},
				{{refresh("a", 1, 2), refresh("a", 2, 1)}, {refresh("a", 1, 3), put("a", 1, kv("k", "q"))}},
				{{refresh("a", 1, 2), put("a", 2, kv("k", "q"))}, {put("a", 1, kv("k", "p")), put("a", 2, kv("k2", "r"))}},
				{{put("a", 1, kv("k", "x")), put("a", 1, kv("k2", "y"))}, {get("a", 1, "k", "k2"), get("a", 1, "k2", "k")}},
				{{put("a", 1, kv("k", "x"), kv("k2", "x"))}, {put("a", 1, kv("k", "y"), kv("k2", "y")), get("a", 1, "k", "k2")}},
				{{create("a", 1, kv("k", "x")), create("a", 1, kv("k2", "y"))}, {get("a", 1, "k", "k2"), keysOf("a", 1)}},
				{{del("a", 1, "k", "k2"), put("a", 1, kv("k", "x"), kv("k2", "x"))}, {keysOf("a", 1), get("a", 1, "k", "k2")}},
				{{killTok("a", 1), create("a", 1)}, {put("a", 1, kv("k", "x")), keysOf("a", 1)}},
				{{killTok("a", 1), create("a", 1)}, {refresh("a", 1, 2), refresh("a", 1, 3)}},
				{{refresh("a", 1, 2), refresh("a", 2, 1)}, {put("a", 1, kv("k", "x")), del("a", 1, "k")}},
				{{refresh("a", 1, 2), create("a", 1, kv("k", "n"))}, {del("a", 1, "k"), refresh("a", 1, 3)}},
			} {
				out = append(out, concJob(s, [][]Op{pr[0], onAll(1, pr[1])}))
			}
			// dead sessions: nothing is revived, nothing alive is reclaimed
			s = concSpec{name: "around the deadline", bound: pick(th, 2, 4), args: base}
			s.args.Setup = setup(create("a", 1, kv("k", "v")), create("b", 1, kv("k", "vb")), jump(3*u-time.Second/2))
			for _, o := range []Op{check("a", 1), get("a", 1, "k"), keysOf("a", 1), refresh("a", 1, 2), refresh("a", 1, 1), put("a", 1, kv("k", "w")), create("a", 1, kv("k2", "n"))} {
				for _, q := range []Op{refresh("a", 1, 3), create("a", 1, kv("k", "c")), killID("a"), check("a", 1)} {
					out = append(out, concJob(s, [][]Op{{o}, onAll(1, []Op{q}), {jump(u / 2)}}))
					out = append(out, concJob(s, [][]Op{{jump(u / 2), o}, onAll(1, []Op{q})}))
				}
			}
			out = append(out, largeConc(red(2*u, 3*u), th)...)
			return out
		}})
}
