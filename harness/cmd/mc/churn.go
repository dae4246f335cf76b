package main

import (
	"fmt"
	"time"
)

// churnJobs: what goes right the first time has to go right the hundredth and
// the ten-thousandth time, too. A short history that comes back to where it
// started is repeated many times over; then every operation is tried from the
// state it leaves.
func churnJobs(prop string, th bool) []Job {
	type churn struct {
		name string
		ops  []Op
	}
	round := []churn{
		{"a value written", []Op{put("a", 1, kv("k", "w"))}},
		{"a value written over", []Op{put("a", 1, kv("k", "w")), put("a", 1, kv("k", "v1"))}},
		{"a key written and deleted", []Op{put("a", 1, kv("l", "x")), del("a", 1, "l")}},
		{"a session refreshed", []Op{refresh("a", 1, 4), refresh("a", 4, 1)}},
		{"a session refreshed into itself", []Op{refresh("a", 1, 1)}},
		{"a session created and killed", []Op{create("z", 1, kv("k", "z")), killTok("z", 1)}},
		{"an identity created and killed", []Op{create("z", 1, kv("k", "z")), create("z", 2), killID("z")}},
		{"a session created again and again", []Op{create("b", 1, kv("k", "b1"))}},
		{"a session read", []Op{get("a", 1, "k", "l"), keysOf("a", 1), check("a", 1)}},
		{"a refresh refused", []Op{refreshWith(tok("a", 1), rtok("a", 2), tok("a", 5), rtok("a", 5))}},
		{"operations on no session", []Op{put("n", 1, kv("k", "v")), get("n", 1, "k"), del("n", 1, "k"), check("n", 1), killTok("n", 1), killID("n"), refreshWith(tok("n", 1), rtok("n", 1), tok("n", 2), rtok("n", 2))}},
		{"a key that is not there deleted", []Op{del("a", 1, "no"), del("a", 2, "k", "no"), put("a", 2, kv("k", "v2"))}},
	}
	ticking := churn{"a session used and refreshed while time passes", []Op{tick(u / 4), get("a", 1, "k"), put("a", 1, kv("k", "v1")), refresh("a", 1, 4), create("b", 1, kv("k", "b1")), tick(u / 4), refresh("a", 4, 1)}}
	dying := churn{"sessions that expire", []Op{create("z", 1, kv("k", "z")), create("z", 2), tick(7 * u), create("a", 1, kv("k", "v1")), create("a", 2, kv("k", "v2")), create("b", 1, kv("k", "b1"))}}

	var out []Job
	for _, c := range backends(4*u, 6*u) {
		local := c.Backend != "redis"
		c.Clear, c.Max = 0, 0
		if local {
			c.Clear = 50 * u
		}
		tk := append(tokList("a", 5), tok("b", 1), tok("b", 2), tok("z", 1), tok("z", 2), tok("n", 1))
		a := SeqArgs{Cfg: c, Setup: setup(create("a", 1, kv("k", "v1")), create("a", 2, kv("k", "v2")), create("b", 1, kv("k", "b1")), keysOf("a", 1), get("a", 1, "k"), keysOf("b", 1)), Toks: tk, Keys: []string{"k", "l"}}
		hist := append(append([]churn{}, round...), ticking)
		switch prop {
		case "C03":
			hist = []churn{round[0], round[3], round[4], round[6], round[7], round[8], ticking, dying}
			a.Life = true
			a.Ops = []Op{refresh("a", 1, 3), create("a", 2, kv("k", "again")), put("a", 1, kv("k", "w")), tick(3 * u), tick(4*u - time.Millisecond), tick(4 * u), tick(6*u - time.Millisecond), tick(6 * u)}
		case "C04":
			hist = []churn{round[0], round[1], round[2], round[3], round[4], round[5], round[9], ticking}
			a.Ops = []Op{refresh("a", 1, 3), refresh("a", 4, 3), refreshWith(tok("a", 1), rtok("a", 4), tok("a", 5), rtok("a", 5)), refresh("a", 2, 1), tick(5 * u), tick(6 * u)}
		case "C05":
			hist = append(hist, dying)
			a.Residue = true
			a.Ops = []Op{killID("a"), killID("b"), killID("z"), killTok("a", 1), killTok("a", 2), create("z", 1, kv("k", "new")), create("z", 2, kv("k", "new"))}
		case "C06":
			a.Ops = []Op{put("a", 1, kv("k", "w"), kv("l", "")), put("a", 2, kv("l", "w")), create("a", 1, kv("l", "n")), create("z", 1, kv("k", "new")), del("a", 1, "k"), refresh("a", 1, 3), keysOf("a", 1)}
		case "C07":
			if !local {
				continue
			}
			a.Cfg.Max = 5
			a.Cfg.Clear = 0
			hist = append(hist, dying, churn{"the store filled over and over", []Op{create("z", 1), create("z", 2), create("n", 1), killID("n"), killID("z")}})
			a.Ops = []Op{create("z", 1, kv("k", "n")), create("z", 2), create("n", 1), create("a", 1), refresh("a", 1, 3), killID("a"), tick(5 * u), tick(7 * u)}
			if c.Backend == "bolt" {
				hist = append(hist, churn{"a store opened again and again", []Op{create("z", 1), {K: OpReopen}, killTok("z", 1), {K: OpClear}}})
				a.Ops = append(a.Ops, Op{K: OpReopen}, Op{K: OpClear})
			}
		case "C14":
			hist = append(hist, dying)
			a.Cfg.Clear = 7 * u
			if !local {
				a.Cfg.Clear = 0
			}
			a.Residue, a.Sweep = true, true
			a.Ops = []Op{tick(5 * u), tick(7 * u), killID("a"), create("a", 2, kv("k", "again")), refresh("a", 1, 3)}
		case "C22":
			a.Ops = []Op{put("n", 1, kv("k", "v")), put("z", 1, kv("k", "v")), refreshWith(tok("a", 1), rtok("a", 2), tok("a", 5), rtok("a", 5)), refreshWith(tok("a", 1), rtok("a", 1), "mal.formed", rtok("a", 5)),
				{K: OpCreate, T: tok("a", 1), R: "mal.formed", KV: []KV{kv("k", "x")}}, {K: OpPut, T: rtok("a", 1), KV: []KV{kv("k", "x")}}, {K: OpDelete, T: rtok("a", 1), Keys: []string{"k"}}}
		}
		for _, h := range hist {
			// around what fits into 7, 8 and 16 bits, and beyond
			times := []int{70, 126, 127, 128, 254, 255, 256, 300, 1100}
			switch {
			case c.Backend == "memory" && len(h.ops) == 1:
				times = append(times, 4200, 65534, 65535, 65536)
			case c.Backend == "memory" && len(h.ops) <= 3:
				times = append(times, 4200, 32767, 32768, 66000)
			case c.Backend == "memory" || th:
				times = append(times, 4200)
			}
			if th {
				times = append(times, 140, 2500, 66000)
			}
			if h.name == "a store opened again and again" {
				times = []int{7, 70}
			}
			for _, n := range times {
				b := a
				b.Churn, b.Times = h.ops, n
				out = append(out, seqJobs(fmt.Sprintf("%s %d times", h.name, n), b, 1)...)
			}
		}
	}
	return out
}
