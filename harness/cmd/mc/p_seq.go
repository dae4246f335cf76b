package main

import (
	"fmt"
	"strings"
	"time"
)

// Properties decided by enumerating sequential histories.

// small splits long sequences over the first operation only when needed.
func setup(ops ...Op) []Op { return ops }

func tokList(ids string, n int) []string {
	var out []string
	for _, id := range strings.Split(ids, ",") {
		for i := 1; i <= n; i++ {
			out = append(out, tok(id, i))
		}
	}
	return out
}

// wrongRefresh builds a refresh of session n that must be refused.
func refreshWith(at, rt, nt, nr string) Op { return Op{K: OpRefresh, T: at, R: rt, NT: nt, NR: nr} }

const half = int64(500 * time.Millisecond)

func init() {
	register(&Prop{ID: "C03",
		Bounds: "every sequence of the operations (create, re-create, put, get, keys, delete, check, refresh, clock steps) up to the depth for several lifetime combinations (seconds to a century, and the longest there is), then a walk along every coming deadline (just before, exactly at it) probing with each kind of operation; the same with 70 to 1100 sessions around the probed one; very many sessions and keys at once (up to 400000); short histories repeated 70 to 66000 times over, around what fits into 7, 8 and 16 bits, before each operation; file databases and redis stores opened again with other lifetimes, or used by two providers with different ones",
		Assume: []string{"redis deadlines are probed at the server's granularity of one millisecond"},
		Jobs: func(th bool) []Job {
			var out []Job
			type lt struct{ a, r time.Duration }
			for _, l := range []lt{{2 * u, 3 * u}, {2 * u, 2 * u}, {u, 24 * time.Hour}, {1500 * time.Millisecond, 2750 * time.Millisecond}} {
				for _, c := range backends(l.a, l.r) {
					g := time.Duration(grain(c))
					a := SeqArgs{Cfg: c, Life: true, LifeOps: true, Clock: half,
						Ops: []Op{
							create("a", 1, kv("k", "v1")), put("a", 1, kv("k", "v2")), get("a", 1, "k"), keysOf("a", 1), del("a", 1, "k"),
							check("a", 1), refresh("a", 1, 2), refresh("a", 2, 1), tick(l.a - g), tick(g), tick(l.r - l.a), killTok("a", 2),
						},
						Setup: setup(create("a", 1, kv("k", "v0"))),
						Toks:  tokList("a", 2), Keys: []string{"k"},
					}
					if l.r == l.a {
						a.Ops = a.Ops[:10]
					}
					out = append(out, seqJobs("lifetimes", a, pick(th, 3, 4))...)
					out = append(out, bfsJob("lifetimes", a2(a), pick(th, 5, 7)))
				}
			}
			// durations that are not whole seconds on the stored format
			for _, c := range backends(3600*u, 86400*u) {
				a := SeqArgs{Cfg: c, Life: true, LifeOps: true, Clock: 123456789,
					Ops:   []Op{tick(time.Hour - 1), tick(1), tick(23 * time.Hour), refresh("a", 1, 2), check("a", 1), put("a", 1, kv("k", "w"))},
					Setup: setup(create("a", 1, kv("k", "v0"))), Toks: tokList("a", 2), Keys: []string{"k"}}
				if c.Backend == "redis" {
					a.Clock = half
					a.Ops[0], a.Ops[1] = tick(time.Hour-time.Millisecond), tick(time.Millisecond)
				}
				out = append(out, seqJobs("long lifetimes", a, pick(th, 4, 5))...)
			}
			// lifetimes beyond what 32 bits of milliseconds or seconds, or 64 bits
			// of nanoseconds since 1970, can hold
			day, year := 24*time.Hour, 365*24*time.Hour
			for _, l := range []lt{{10 * day, 30 * day}, {25 * day, 60 * day}, {time.Hour, 400 * day}, {2 * year, 10 * year}, {50 * year, 70 * year}, {60 * year, 100 * year}, {time.Hour, time.Duration(never)}, {time.Duration(never), time.Duration(never)}} {
				for _, c := range backends(l.a, l.r) {
					far := l.r == time.Duration(never)
					a := SeqArgs{Cfg: c, Life: !far, Clock: half,
						Ops:   []Op{create("a", 1, kv("k", "c")), put("a", 1, kv("k", "w")), get("a", 1, "k"), refresh("a", 1, 2), refresh("a", 2, 1), tick(l.a - time.Second), tick(time.Second), check("a", 2), keysOf("a", 1)},
						Setup: setup(create("a", 1, kv("k", "v0"))), Toks: tokList("a", 2), Keys: []string{"k"}}
					if far {
						a.Ops[5] = tick(100 * year)
					}
					out = append(out, seqJobs("very long lifetimes", a, pick(th, 3, 5))...)
				}
			}
			out = append(out, mgrJobs("C03", th)...)
			out = append(out, crowdJobs("C03", th)...)
			out = append(out, churnJobs("C03", th)...)
			out = append(out, settingJobs("C03", th)...)
			return out
		}})

	register(&Prop{ID: "C04",
		Bounds: "every sequence up to the depth of creations, right refreshes, refreshes with every kind of wrong pair, reads with refresh tokens, writes, destructions and clock steps; afterwards the whole state is read and every deadline is walked; sessions with 70 to 1100 keys, too; very many sessions and keys at once (up to 400000); short histories repeated 70 to 66000 times over, around what fits into 7, 8 and 16 bits, before each operation",
		Assume: []string{"redis deadlines are probed at the server's granularity of one millisecond"},
		Jobs: func(th bool) []Job {
			var out []Job
			for _, c := range backends(2*u, 3*u) {
				t, r := tok, rtok
				a := SeqArgs{Cfg: c, Life: true, Clock: half, Focus: []Kind{OpRefresh},
					Setup: setup(create("a", 1, kv("k", "v1"), kv("x", "")), create("a", 2, kv("k", "v2")), create("b", 1, kv("k", "vb"))),
					Ops: []Op{
						refresh("a", 1, 3), refresh("a", 1, 2), refresh("a", 3, 1), refresh("b", 1, 2), refresh("a", 2, 4),
						refreshWith(t("a", 1), r("a", 2), t("a", 5), r("a", 5)),  // another session's
						refreshWith(t("a", 1), r("b", 1), t("a", 5), r("a", 5)),  // another identity's
						refreshWith(t("a", 1), t("a", 1), t("a", 5), r("a", 5)),  // the access token itself
						refreshWith(r("a", 1), r("a", 1), t("a", 5), r("a", 5)),  // the refresh token as access token
						refreshWith(r("a", 1), t("a", 1), t("a", 5), r("a", 5)),  // swapped
						refreshWith(t("a", 1), r("a", 1), t("b", 5), r("b", 5)),  // to another identity
						refreshWith(t("a", 1), "a.r1.gis", t("a", 5), r("a", 5)), // prefix of the token
						refreshWith(t("a", 1), r("a", 1)+"x", t("a", 5), r("a", 5)),
						refreshWith(t("a", 1), r("a", 1), t("a", 1), r("a", 5)), // the access token is kept
						refreshWith(t("a", 1), r("a", 5), t("a", 3), r("a", 3)), // with the refresh token of the line above
						refreshWith(t("a", 1), r("a", 1), t("a", 3), r("a", 1)), // the refresh token is kept
						put("a", 1, kv("k", "w")), put("a", 3, kv("n", "w3")), tick(u),
						{K: OpGet, T: r("a", 1), Keys: []string{"k"}}, {K: OpPut, T: r("a", 3), KV: []KV{kv("k", "z")}},
						create("a", 1, kv("k", "again")), killTok("a", 3),
					},
					Toks: append(tokList("a", 5), tok("b", 1), tok("b", 2), rtok("a", 1), rtok("a", 3)), Keys: []string{"k", "x", "n"},
				}
				out = append(out, seqJobs("refresh", a, pick(th, 3, 4))...)
				// the same token again, and many keys and large values moving along
				b := a
				b.Setup = setup(create("a", 1, manyKV(120)...), create("a", 2, kv("k", big), kv("x", "")), create("a", 3))
				b.Ops = []Op{refresh("a", 1, 1), refresh("a", 1, 4), refresh("a", 4, 1), refresh("a", 2, 4), refresh("a", 3, 4), put("a", 4, kv("k", big+"2")), del("a", 4, "k", "key007"), tick(u)}
				b.Keys = []string{"k", "x", "key000", "key007", "key119"}
				b.Toks = tokList("a", 4)
				out = append(out, seqJobs("refresh large", b, pick(th, 3, 4))...)
			}
			out = append(out, mgrJobs("C04", th)...)
			out = append(out, crowdJobs("C04", th)...)
			out = append(out, churnJobs("C04", th)...)
			out = append(out, multiJobs("C04", th)...)
			return out
		}})

	register(&Prop{ID: "C05",
		Bounds: "every sequence up to the depth of creations, destructions by token and by identity, refreshes and clock steps over sessions of nested identities; afterwards the whole state is read, every deadline is walked, and the raw store is searched for traces of sessions that are gone; identities with 70 to 1100 sessions, too; very many sessions and keys at once (up to 400000); short histories repeated 70 to 66000 times over, around what fits into 7, 8 and 16 bits, before each operation",
		Jobs: func(th bool) []Job {
			var out []Job
			for _, c := range backends(2*u, 3*u) {
				c.Clear = 5 * u
				a := SeqArgs{Cfg: c, Focus: []Kind{OpDestroyToken, OpDestroyID}, Residue: true,
					Ops: []Op{
						create("a", 1, kv("k", "v1")), create("a", 2), create("a", 3), create("ab", 1, kv("k", "vb")),
						killTok("a", 1), killTok("a", 2), killID("a"), killID("ab"), refresh("a", 1, 2), tick(u),
					},
					Toks: toks(tok("a", 1), tok("a", 2), tok("a", 3), tok("ab", 1)), Keys: []string{"k"},
				}
				out = append(out, seqJobs("destroy", a, pick(th, 4, 5))...)
				// from larger stores
				b := a
				b.Life = true
				b.Setup = setup(create("a", 1, kv("k", "v1")), create("ab", 1, kv("k", "vb")), create("a", 2, kv("k", "v2"), kv("k2", big)),
					create("a", 3, kv("k", "v3")), create("a", 4), create("z", 1, kv("k", "v")), create("a", 5, manyKV(40)...))
				b.Ops = []Op{killTok("a", 1), killTok("a", 3), killTok("a", 5), killID("a"), killID("ab"), killID("z"), killID("c"),
					refresh("a", 2, 6), refresh("a", 3, 1), refresh("a", 5, 6), create("a", 3, kv("k", "new")), tick(u), tick(2 * u),
					{K: OpDestroyToken, T: rtok("a", 1)}, {K: OpDestroyID, ID: "A"}, {K: OpDestroyToken, T: tok("a", 9)},
					{K: OpRefresh, T: tok("a", 1), R: rtok("a", 1), NT: tok("a", 1), NR: rtok("a", 7)}}
				b.Toks = append(tokList("a", 6), tok("ab", 1), tok("z", 1))
				b.Keys = []string{"k", "k2", "key003"}
				out = append(out, seqJobs("destroy from many", b, pick(th, 3, 4))...)
				if c.Backend != "redis" {
					// with a size limit, sessions not addressed keep their place
					d := a
					d.Cfg.Max = 3
					d.Ops = append([]Op{}, a.Ops...)
					d.Ops = append(d.Ops, create("b", 1, kv("k", "b1")))
					d.Toks = append(append([]string{}, a.Toks...), tok("b", 1))
					d.Residue = false
					d.Setup = setup(create("a", 1, kv("k", "v1")), create("ab", 1, kv("k", "vb")), create("a", 2))
					out = append(out, seqJobs("destroy with limit", d, pick(th, 4, 5))...)
				}
			}
			out = append(out, mgrJobs("C05", th)...)
			out = append(out, crowdJobs("C05", th)...)
			out = append(out, churnJobs("C05", th)...)
			out = append(out, multiJobs("C05", th)...)
			return out
		}})

	register(&Prop{ID: "C06",
		Bounds: "every sequence up to the depth of writes, deletions, reads and listings over empty, prefix-related, internal-looking and binary keys and nil, empty, small, page-sized values and values up to a megabyte on two sessions, with up to 1100 keys, and families of keys that harmless-looking conversions make equal; very many sessions and keys at once (up to 400000); short histories repeated 70 to 66000 times over, around what fits into 7, 8 and 16 bits, before each operation",
		Jobs: func(th bool) []Job {
			var out []Job
			for _, c := range backends(20*u, 30*u) {
				odd := []string{"k", "kk", "K", "data", "metadata", "ids", "lru", "count", "Access", "Refresh", "access", "\x00", "k\x00", "a.1.sig1", "*", "", "key", "__private_provider_redis"}
				if c.Backend == "redis" {
					odd = append(odd, "__private_provider_redi", "__private_provider_rediss", "__PRIVATE_PROVIDER_REDIS")
				}
				a := SeqArgs{Cfg: c, Hold: true,
					Setup: setup(create("a", 1, kv("k", "v1"), kv("kk", "v2")), create("b", 1, kv("k", "vb")), create("a", 2)),
					Ops: []Op{
						put("a", 1, kv("k", "w")), put("a", 1, kv("k", "w1"), kv("k", "w2"), kv("kk", "w3"), kv("k", "w4")), put("a", 1), put("a", 1, KV{K: "kk", Nil: true}), put("a", 1, kv("k", "")),
						put("a", 2, kv("k", "a2")), put("b", 1, kv("kk", "b2")), put("a", 1, kv("k", big)),
						del("a", 1, "k"), del("a", 1, "k", "nope", "k", "kk"), del("a", 1), del("b", 1, "k"),
						get("a", 1, "k", "kk", "k", "nope", "k"), get("a", 1), keysOf("a", 1), keysOf("a", 2),
						create("a", 1, kv("kk", "fresh"), kv("kk", "last")), refresh("a", 1, 2), killTok("a", 2), put("a", 1, kv("data", "d"), kv("metadata", "m")),
					},
					Toks: append(tokList("a", 2), tok("b", 1)), Keys: odd,
				}
				out = append(out, seqJobs("map", a, pick(th, 3, 4))...)
				// every pair of odd keys and values
				var ops []Op
				for _, k := range odd {
					if k == "__private_provider_redis" && c.Backend == "redis" {
						continue
					}
					if k == "" && c.Backend == "bolt" {
						continue
					}
					ops = append(ops, put("a", 1, kv(k, "v:"+k)), del("a", 1, k))
				}
				for _, v := range []string{"", "\x00", "v\x00w", "\xff\xfe", strings.Repeat("x", 4096), strings.Repeat("y", 70000), "0", "{\"json\":1}", "\r\n$3\r\nabc\r\n"} {
					ops = append(ops, put("a", 1, kv("val", v)), create("a", 1, kv("val", v), kv("other", v+"1")))
				}
				ops = append(ops, refresh("a", 1, 2), refresh("a", 2, 1))
				b := SeqArgs{Cfg: c, Hold: true, Setup: setup(create("a", 1), create("b", 1, kv("val", "b"))), Ops: ops, Toks: append(tokList("a", 2), tok("b", 1)), Keys: append(append([]string{}, odd...), "val", "other", "val")}
				out = append(out, seqJobs("odd keys and values", b, pick(th, 2, 3))...)
				for _, f := range twins() {
					e := SeqArgs{Cfg: c, Setup: setup(create("a", 1), create("b", 1, kv(f[0], "b"))), Toks: append(tokList("a", 1), tok("b", 1)), Keys: append(append([]string{}, f...), f...)}
					for i, k := range f {
						e.Ops = append(e.Ops, put("a", 1, kv(k, fmt.Sprint("v", i))), del("a", 1, k))
					}
					var all []KV
					for i, k := range f {
						all = append(all, kv(k, fmt.Sprint("all", i)))
					}
					e.Ops = append(e.Ops, put("a", 1, all...), create("a", 1, all...))
					out = append(out, seqJobs(fmt.Sprintf("twins %.60q", f), e, 2)...)
				}
				// many keys
				d := SeqArgs{Cfg: c, Setup: setup(create("a", 1, manyKV(300)...), create("b", 1, manyKV(3)...)),
					Ops:  []Op{put("a", 1, manyKV(301)...), del("a", 1, "key000", "key150", "key299"), delMany("a", 1, 300), put("a", 1, kv("key150", big)), keysOf("a", 1), refresh("a", 1, 2), put("a", 2, kv("zz", "1"))},
					Toks: append(tokList("a", 2), tok("b", 1)), Keys: []string{"key000", "key001", "key149", "key150", "key299", "key300", "zz"}}
				out = append(out, seqJobs("many keys", d, pick(th, 3, 4))...)
				d.Setup = setup(create("a", 1, manyKV(1100)...), create("b", 1, manyKV(3)...))
				d.Ops = []Op{put("a", 1, manyKV(1101)...), del("a", 1, "key000", "key150", "key1099"), delMany("a", 1, 1100), keysOf("a", 1), refresh("a", 1, 2), create("a", 2, manyKV(1099)...)}
				d.Keys = []string{"key000", "key001", "key149", "key150", "key1024", "key1099", "key1100"}
				out = append(out, seqJobs("1100 keys", d, pick(th, 2, 3))...)
			}
			out = append(out, mgrJobs("C06", th)...)
			out = append(out, crowdJobs("C06", th)...)
			out = append(out, churnJobs("C06", th)...)
			out = append(out, multiJobs("C06", th)...)
			return out
		}})

	register(&Prop{ID: "C07",
		Bounds: "every sequence up to the depth of creations, re-creations, refreshes, reads, writes, destructions, clearing, reopening and clock steps for each limit 1..4 (and none), from empty and from full stores, and around limits of 70 to 1100; very many sessions and keys at once (up to 400000); short histories repeated 70 to 66000 times over, around what fits into 7, 8 and 16 bits, before each operation; file databases opened again with another limit (up to 1100 sessions making room at once)",
		Jobs: func(th bool) []Job {
			var out []Job
			for _, c := range []Config{mem(4*u, 6*u), bol(4*u, 6*u)} {
				for _, max := range []int{1, 2, 3, 0, -1} {
					c.Max = max
					c.Clear = 7 * u
					c.Own = false
					ops := []Op{
						create("a", 1, kv("k", "v1")), create("a", 2, kv("k", "v2")), create("b", 1, kv("k", "vb")), create("c", 1),
						refresh("a", 1, 2), refresh("a", 1, 3), refresh("b", 1, 2), put("a", 1, kv("k", "w")), get("a", 1, "k"), check("b", 1), killTok("a", 2), killID("a"), tick(3 * u),
					}
					if c.Backend == "bolt" {
						ops = append(ops, Op{K: OpClear}, Op{K: OpReopen})
					}
					a := SeqArgs{Cfg: c, Ops: ops, Toks: append(tokList("a", 3), tok("b", 1), tok("b", 2), tok("c", 1)), Keys: []string{"k"}}
					d := pick(th, 4, 5)
					if max <= 0 {
						d--
					}
					out = append(out, seqJobs("limit", a, d)...)
				}
				for _, max := range []int{3, 4, 5} {
					c.Max = max
					var st, ops []Op
					for i := 1; i <= max; i++ {
						st = append(st, create(fmt.Sprintf("i%d", (i+1)/2), i, kv("k", fmt.Sprint(i))))
					}
					st = append(st, refresh("i1", 1, 9), tick(u))
					ops = append(ops, create("n", 1), create("n", 2), create("n", 3), create("i1", 2, kv("k", "re")), refresh("i1", 2, 7), refresh("i1", 9, 8), refresh("i1", 2, 9), refresh("i2", 3, 3),
						put("i2", 3, kv("k", "w")), get("i1", 2, "k"), killID("i1"), killTok("i2", 3), tick(5*u), tick(6*u))
					if c.Backend == "bolt" {
						ops = append(ops, Op{K: OpReopen}, Op{K: OpClear})
					}
					tk := []string{tok("n", 1), tok("n", 2), tok("n", 3), tok("i1", 7), tok("i1", 8), tok("i1", 9), tok("i1", 1), tok("i1", 2), tok("i2", 3), tok("i2", 4), tok("i3", 5)}
					a := SeqArgs{Cfg: c, Setup: st, Ops: ops, Toks: tk, Keys: []string{"k"}}
					out = append(out, seqJobs("limit from full", a, pick(th, 3, 4))...)
				}
				// without the sweep, and with background work delayed
				c.Max, c.Clear = 2, 0
				a := SeqArgs{Cfg: c, Lazy: true, Ops: []Op{
					create("a", 1), create("a", 2), create("b", 1), refresh("a", 1, 3), check("a", 1), get("b", 1, "k"), keysOf("a", 2), tick(3 * u), jump(3 * u), killTok("a", 1),
				}, Toks: append(tokList("a", 3), tok("b", 1)), Keys: []string{"k"}}
				out = append(out, seqJobs("limit, lazy reclamation", a, pick(th, 4, 5))...)
			}
			out = append(out, crowdJobs("C07", th)...)
			out = append(out, churnJobs("C07", th)...)
			out = append(out, settingJobs("C07", th)...)
			out = append(out, multiJobs("C07", th)...)
			return out
		}})

	register(&Prop{ID: "C08",
		Bounds: "every sequence up to the depth, once overwriting every buffer, pair list and key list handed in or out as soon as the call has returned, once keeping everything handed out and comparing it at the end, once writing over and behind everything handed out and comparing the rest of what was handed out",
		Jobs: func(th bool) []Job {
			var out []Job
			for _, c := range backends(4*u, 6*u) {
				c.Max = 3
				c.Clear = 7 * u
				if c.Backend == "redis" {
					c.Max = 0
				}
				a := SeqArgs{Cfg: c,
					Setup: setup(create("a", 1, kv("k", "value-one"), kv("k2", big)), create("b", 1, kv("k", "value-b"))),
					Ops: []Op{
						create("a", 1, kv("k", "value-new"), kv("k2", "")), create("a", 2, kv("k", "two")), put("a", 1, kv("k", "put"), kv("k2", big+"x")), put("a", 1, kv("k", "value-put")), put("a", 1, KV{K: "k", Nil: true}),
						get("a", 1, "k", "k2", "no", "k"), get("a", 2, "k"), keysOf("a", 1), del("a", 1, "k", "k2"), refresh("a", 1, 2), killTok("a", 1), killID("a"), tick(5 * u), check("a", 1),
					},
					Toks: append(tokList("a", 2), tok("b", 1)), Keys: []string{"k", "k2"}}
				if c.Backend == "bolt" {
					a.Ops = append(a.Ops, Op{K: OpClear}, Op{K: OpReopen})
				}
				for _, mode := range []string{"spoil", "hold", "both"} {
					b := a
					b.Spoil = mode != "hold"
					b.Hold = mode != "spoil"
					if mode == "both" {
						// what is handed out is spoiled by its owner, so only lists are held
						continue
					}
					out = append(out, seqJobs("buffers "+mode, b, pick(th, 3, 4))...)
					e := b
					e.Ops = []Op{get("a", 1, "k", "k2"), keysOf("a", 1), put("a", 1, kv("k", "value-put")), put("a", 1, kv("k2", big+big)), refresh("a", 1, 2), get("a", 2, "k2", "k"), del("a", 1, "k"), killID("a"), {K: OpClose}}
					out = append(out, seqJobs("buffers "+mode+" until closed", e, pick(th, 4, 5))...)
				}
			}
			out = append(out, handleJobs("C08", th)...)
			out = append(out, crowdJobs("C08", th)...)
			return out
		}})

	register(&Prop{ID: "C14",
		Bounds: "every sequence up to the depth of creations, refreshes, reads and clock steps (reclamation by touch, by queue, by periodic sweep), then a search of the raw store for dead sessions; mass deaths (3 to 1100 sessions) reported at once with queue sizes 0,1,2,128; every schedule of reclamation against refreshes and re-creations, also while storage fails in the background; very many sessions and keys at once (up to 400000); short histories repeated 70 to 66000 times over, around what fits into 7, 8 and 16 bits, before each operation; file databases opened again with other lifetimes, or used by two providers with different ones, with up to 1100 sessions of mixed lifetimes",
		Assume: []string{"on redis reclamation of untouched sessions is the server's key expiry"},
		Jobs:   reclaimJobs})

	register(&Prop{ID: "C22",
		Bounds: "every sequence up to the depth mixing accepted operations with every kind of refused one; after each sequence the complete state, every deadline and the eviction order are read and compared with the reference in which refused operations do nothing; the caller's context ends at every look at it; very many sessions and keys at once (up to 400000); short histories repeated 70 to 66000 times over, around what fits into 7, 8 and 16 bits, before each operation",
		Assume: []string{"redis deadlines are probed at the server's granularity of one millisecond"},
		Jobs: func(th bool) []Job {
			var out []Job
			for _, c := range backends(2*u, 4*u) {
				if c.Backend != "redis" {
					c.Max = 3
				}
				t := tok
				bad := refusals(c.Backend)
				good := []Op{create("a", 1, kv("k", "v1")), create("c", 1, kv("k", "vc")), refresh("a", 1, 2), put("a", 1, kv("k", "w")), tick(u), killTok("a", 2), get("a", 1, "k")}
				tk := append(tokList("a", 3), t("a", 5), t("a", 9), t("b", 1), t("b", 5), t("c", 1), t("d", 1))
				base := setup(create("a", 1, kv("k", "v1"), kv("k2", "x")), create("a", 2, kv("k", "v2")), create("b", 1, kv("k", "vb")))
				for name, st := range map[string][]Op{"fresh": base, "expired": append(append([]Op{}, base...), tick(2*u)), "empty": nil} {
					a := SeqArgs{Cfg: c, Life: true, Clock: half, Setup: st, Ops: append(append([]Op{}, bad...), good...), Toks: tk, Keys: []string{"k", "k2"}}
					d := pick(th, 3, 4)
					if th && name == "empty" {
						d = 3
					}
					out = append(out, seqJobs("refused "+name, a, d)...)
				}
				// the caller gives up in the middle
				var cut []Op
				for _, o := range []Op{create("a", 1, kv("k", "bad"), kv("k2", "bad")), create("c", 1, kv("k", "bad")), put("a", 1, kv("k", "bad"), kv("k2", "bad")), del("a", 1, "k", "k2"), refresh("a", 1, 3), refresh("a", 1, 2), killTok("a", 1), killID("a"), get("a", 1, "k", "k2"), keysOf("a", 1), check("a", 1)} {
					for n := 1; n <= pick(c.Backend == "redis", 4, 1); n++ {
						o.Cut = n
						cut = append(cut, o)
					}
				}
				for name, st := range map[string][]Op{"fresh": base, "expired": append(append([]Op{}, base...), tick(2*u)), "dead": append(append([]Op{}, base...), jump(4*u))} {
					a := SeqArgs{Cfg: c, Life: true, Clock: half, Setup: st, Ops: append(append([]Op{}, cut...), good...), Toks: tk, Keys: []string{"k", "k2"}}
					out = append(out, seqJobs("cancelled "+name, a, 2)...)
				}
				// a closed provider refuses everything, the store is as before
				if c.Backend == "bolt" {
					a := SeqArgs{Cfg: c, Setup: base, Life: true, Toks: tokList("a", 3), Keys: []string{"k", "k2"},
						Ops: []Op{{K: OpClose}, {K: OpReopen}, create("a", 1, kv("k", "bad")), create("a", 3), put("a", 1, kv("k", "bad")), del("a", 1, "k"), refresh("a", 1, 3), killTok("a", 1), killID("a"), {K: OpClear}, tick(u)}}
					out = append(out, seqJobs("refused closed", a, pick(th, 4, 5))...)
				}
			}
			out = append(out, handleJobs("C22", th)...)
			out = append(out, mgrJobs("C22", th)...)
			out = append(out, crowdJobs("C22", th)...)
			out = append(out, churnJobs("C22", th)...)
			return out
		}})
}

// refusals are operations that are not acceptable, whatever the store holds.
func refusals(backend string) []Op {
	t, r := tok, rtok
	bad := []Op{
		{K: OpCreate, T: "malformed", R: r("a", 1), KV: []KV{kv("k", "bad")}},
		{K: OpCreate, T: t("a", 1), R: "mal.formed", KV: []KV{kv("k", "bad")}},
		{K: OpPut, T: "a.1", KV: []KV{kv("k", "bad")}}, {K: OpDelete, T: "", Keys: []string{"k"}}, {K: OpDestroyToken, T: "a.1"},
		{K: OpPut, T: t("a", 9), KV: []KV{kv("k", "bad")}}, {K: OpPut, T: r("a", 1), KV: []KV{kv("k", "bad")}}, {K: OpDelete, T: r("a", 1), Keys: []string{"k"}},
		{K: OpDelete, T: t("b", 9), Keys: []string{"k"}},
		refreshWith(t("a", 1), r("a", 2), t("a", 5), r("a", 5)),
		refreshWith(t("a", 1), r("a", 1), t("b", 5), r("a", 5)),
		refreshWith(t("a", 1), r("a", 1), t("a", 5), r("b", 5)),
		refreshWith(t("a", 1), r("a", 1), t("a", 5), "malformed"),
		refreshWith(t("a", 1), r("a", 1), "a.bad", r("a", 5)),
		refreshWith(t("a", 1), r("a", 2), t("a", 2), r("a", 5)), // onto an existing session
		refreshWith(t("a", 1), r("b", 1), t("b", 1), r("b", 5)),
		refreshWith(t("a", 9), r("a", 9), t("a", 2), r("a", 5)), // unknown onto an existing one
		put("a", 1, kv("k", "bad")), del("a", 1, "k"),           // expired in the aged setup
	}
	switch backend {
	case "redis":
		m := "__private_provider_redis"
		bad = append(bad, put("a", 1, kv("k", "bad"), kv(m, "bad")), create("a", 1, kv("k", "bad"), kv(m, "bad")), create("a", 5, kv(m, "bad")), del("a", 1, "k", m))
	case "bolt":
		long := strings.Repeat("L", 32769)
		bad = append(bad, put("a", 1, kv("k", "bad"), kv("", "bad")), put("a", 1, kv("k", "bad"), kv(long, "bad")), create("a", 1, kv("k", "bad"), kv("", "bad")), create("d", 1, kv("k", "bad"), kv(long, "x")))
	}
	return bad
}

// a2 drops the costly deadline walk with every kind of operation.
func a2(a SeqArgs) SeqArgs { a.LifeOps = false; return a }

func manyKV(n int) []KV {
	var out []KV
	for i := 0; i < n; i++ {
		out = append(out, kv(fmt.Sprintf("key%03d", i), fmt.Sprintf("value %d", i)))
	}
	return out
}

func delMany(id string, n, k int) Op {
	var ks []string
	for i := 0; i < k; i++ {
		ks = append(ks, fmt.Sprintf("key%03d", i))
	}
	return del(id, n, ks...)
}

func reclaimJobs(th bool) []Job {
	var out []Job
	for _, c := range backends(2*u, 3*u) {
		ops := []Op{
			create("a", 1, kv("k", "v1")), create("a", 2), create("b", 1, kv("k", "vb")),
			refresh("a", 1, 2), refresh("a", 1, 3), get("a", 1, "k"), put("a", 1, kv("k", "w")), check("a", 2), keysOf("b", 1), del("b", 1, "k"), tick(u), jump(u), jump(3 * u),
		}
		tk := append(tokList("a", 3), tok("b", 1))
		for _, batch := range []int{128, 0, 1} {
			c.Batch = batch
			c.Clear = 0
			a := SeqArgs{Cfg: c, Ops: ops, Residue: true, Life: true, Toks: tk, Keys: []string{"k"}}
			d := pick(th, 4, 5)
			if batch != 128 {
				d = 3
			}
			out = append(out, seqJobs("touched", a, d)...)
			a.Lazy = true
			out = append(out, seqJobs("touched, late", a, d-1)...)
		}
		c.Batch = 128
		if c.Backend != "redis" {
			for _, clear := range []time.Duration{u, 2 * u, 5 * u} {
				c.Clear = clear
				a := SeqArgs{Cfg: c, Ops: ops, Residue: true, Sweep: true, Toks: tk, Keys: []string{"k"}}
				out = append(out, seqJobs("swept", a, pick(th, 4, 5))...)
			}
			c.Clear = u
			// many sessions of few identities die in every order and number
			for _, n := range []int{3, 10, 150} {
				var st []Op
				for i := 1; i <= n; i++ {
					st = append(st, create(fmt.Sprintf("i%d", i%4), i, kv("k", fmt.Sprint(i))))
					if i%3 == 0 && n < 100 {
						st = append(st, jump(u/2))
					}
				}
				var tk []string
				for i := 1; i <= n; i++ {
					tk = append(tk, tok(fmt.Sprintf("i%d", i%4), i))
				}
				tk = append(tk, tok("i1", 999), tok("i2", 998))
				a := SeqArgs{Cfg: c, Setup: st, Residue: true, Sweep: true, Toks: tk, Keys: []string{"k"},
					Ops: []Op{tick(u / 2), tick(u), tick(3 * u), refresh("i1", 1, 999), refresh("i2", 2, 998), refresh("i2", 2, 2), create("i1", 1, kv("k", "again")), killID("i2"), put("i3", 3, kv("k", "x"))}}
				out = append(out, seqJobs("mass sweep", a, pick(th, 3, 4))...)
			}
		}
		// many dead sessions reported at once
		for _, batch := range []int{0, 1, 2, 128} {
			for _, n := range []int{5, 140} {
				c.Batch, c.Clear = batch, 0
				var st []Op
				var tk []string
				for i := 1; i <= n; i++ {
					st = append(st, create(fmt.Sprintf("i%d", i%3), i, kv("k", fmt.Sprint(i))))
					tk = append(tk, tok(fmt.Sprintf("i%d", i%3), i))
				}
				st = append(st, create("x", 1, kv("k", "x")), jump(2*u), refresh("x", 1, 2), create("i1", 1, kv("k", "alive")), jump(u))
				tk = append(tk, tok("x", 2), tok("x", 1))
				for i := 1; i <= n; i++ {
					st = append(st, Op{K: []Kind{OpCheck, OpGet, OpKeys}[i%3], T: tok(fmt.Sprintf("i%d", i%3), i), Keys: []string{"k"}})
				}
				a := SeqArgs{Cfg: c, Setup: st, Residue: true, Toks: tk, Keys: []string{"k"}, Lazy: batch > 0 && n <= batch,
					Ops: []Op{check("i2", 2), tick(u), create("i2", 2)}}
				out = append(out, seqJobs("mass report", a, 2)...)
			}
		}
		// reclamation against concurrent use: every schedule
		c.Batch, c.Clear = 128, 0
		if c.Backend != "memory" {
			// what the background does fails once, in every way
			for _, batch := range []int{128, 0} {
				c.Batch = batch
				sp := concSpec{name: "reclaim while storage fails", bound: pick(th, 2, 3), args: ConcArgs{Cfg: c, Setup: setup(create("a", 1, kv("k", "v")), create("b", 1, kv("k", "vb")), create("a", 2), jump(3*u)),
					Toks: append(tokList("a", 3), tok("b", 1), tok("b", 2)), Keys: []string{"k"}, Residue: true, Expiry: c.Backend == "redis", Clock: half, BgFails: pick(th, 2, 3)}}
				for _, t := range []Op{check("a", 1), get("a", 1, "k"), keysOf("a", 1), put("a", 1, kv("k", "w")), del("a", 1, "k")} {
					out = append(out, concJob(sp, [][]Op{{t, create("a", 1, kv("k", "new"))}}))
					out = append(out, concJob(sp, [][]Op{{t}, {create("a", 1, kv("k", "new"))}}))
					out = append(out, concJob(sp, [][]Op{{t, create("a", 3, kv("k", "n")), refresh("a", 3, 1)}}))
					out = append(out, concJob(sp, [][]Op{{t, create("a", 1, kv("k", "new")), put("a", 1, kv("k2", "w")), get("a", 1, "k")}}))
				}
				sp.args.Setup = setup(create("b", 1, kv("k", "vb")))
				for _, t := range []Op{check("a", 1), get("a", 1, "k"), put("a", 1, kv("k", "w"))} {
					out = append(out, concJob(sp, [][]Op{{t, create("a", 1, kv("k", "new"))}}))
					out = append(out, concJob(sp, [][]Op{{t}, {create("a", 1, kv("k", "new")), get("a", 1, "k")}}))
				}
			}
			c.Batch = 128
		}
		for _, batch := range []int{128, 0, 2} {
			c.Batch = batch
			cc := c
			n := 1
			if c.Backend == "redis" {
				n = 2
			}
			cc.N = n
			sp := concSpec{name: "reclaim", bound: pick(th, 2, 3), args: ConcArgs{Cfg: cc, Setup: setup(create("a", 1, kv("k", "v")), create("b", 1, kv("k", "vb")), create("a", 2), jump(3*u)),
				Toks: append(tokList("a", 3), tok("b", 1), tok("b", 2)), Keys: []string{"k"}, Residue: true, Expiry: c.Backend == "redis", Clock: half}}
			touch := []Op{check("a", 1), get("a", 1, "k"), keysOf("a", 1), put("a", 1, kv("k", "w")), check("b", 1)}
			other := []Op{create("a", 1, kv("k", "new")), create("a", 3), refresh("a", 1, 3), killID("a"), killTok("a", 1)}
			for _, t := range touch {
				for _, o := range other {
					out = append(out, concJob(sp, [][]Op{{t}, {o}}))
					out = append(out, concJob(sp, [][]Op{{t, o}, {check("a", 2)}}))
					out = append(out, concJob(sp, [][]Op{{t}, {o, get("a", 1, "k")}}))
				}
				// the new session is rotated onto the token being reclaimed
				out = append(out, concJob(sp, [][]Op{{t}, {create("a", 3, kv("k", "n")), refresh("a", 3, 1)}}))
				if n == 2 {
					out = append(out, concJob(sp, [][]Op{{t}, {on(1, create("a", 1, kv("k", "new")))}}))
					out = append(out, concJob(sp, [][]Op{{t}, {on(1, create("a", 3, kv("k", "n"))), on(1, refresh("a", 3, 1))}}))
				}
			}
			// refreshed in time while reported
			sp.name = "reclaim at the deadline"
			sp.args.Setup = setup(create("a", 1, kv("k", "v")), create("b", 1, kv("k", "vb")), jump(3*u-u/2))
			sp.args.TimePts = c.Backend != "redis"
			for _, t := range touch[:4] {
				out = append(out, concJob(sp, [][]Op{{t}, {refresh("a", 1, 3)}, {jump(u / 2)}}))
				out = append(out, concJob(sp, [][]Op{{t, t}, {refresh("a", 1, 1), jump(u / 2)}}))
				out = append(out, concJob(sp, [][]Op{{jump(u / 2), t}, {create("a", 1, kv("k", "new"))}}))
			}
			if c.Backend != "redis" {
				sp.name = "sweep"
				sp.args.TimePts = false
				sp.args.Cfg.Clear = 3 * u
				sp.args.Setup = setup(create("a", 1, kv("k", "v")), create("b", 1, kv("k", "vb")), create("a", 2), jump(2*u), create("c", 1, kv("k", "c")))
				sp.args.Toks = append(sp.args.Toks, tok("c", 1))
				for _, o := range append(append([]Op{}, touch...), other...) {
					out = append(out, concJob(sp, [][]Op{{jump(u)}, {o}}))
					out = append(out, concJob(sp, [][]Op{{jump(u), o}, {check("b", 1)}}))
				}
			}
		}
	}
	out = append(out, crowdJobs("C14", th)...)
	out = append(out, churnJobs("C14", th)...)
	out = append(out, settingJobs("C14", th)...)
	out = append(out, multiJobs("C14", th)...)
	return out
}
