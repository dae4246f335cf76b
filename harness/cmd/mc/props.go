package main

import (
	"fmt"
	"strings"
	"time"
)

// ---- vocabulary ----

const u = time.Second // unit of lifetimes

func tok(id string, n int) string  { return fmt.Sprintf("%s.%d.sig%d", id, n, n) }
func rtok(id string, n int) string { return fmt.Sprintf("%s.r%d.gis%d", id, n, n) }

func create(id string, n int, kv ...KV) Op {
	return Op{K: OpCreate, T: tok(id, n), R: rtok(id, n), KV: kv}
}
func put(id string, n int, kv ...KV) Op    { return Op{K: OpPut, T: tok(id, n), KV: kv} }
func del(id string, n int, k ...string) Op { return Op{K: OpDelete, T: tok(id, n), Keys: k} }
func get(id string, n int, k ...string) Op { return Op{K: OpGet, T: tok(id, n), Keys: k} }
func keysOf(id string, n int) Op           { return Op{K: OpKeys, T: tok(id, n)} }
func check(id string, n int) Op            { return Op{K: OpCheck, T: tok(id, n)} }
func killTok(id string, n int) Op          { return Op{K: OpDestroyToken, T: tok(id, n)} }
func killID(id string) Op                  { return Op{K: OpDestroyID, ID: id} }
func refresh(id string, from, to int) Op {
	return Op{K: OpRefresh, T: tok(id, from), R: rtok(id, from), NT: tok(id, to), NR: rtok(id, to)}
}
func tick(d time.Duration) Op { return Op{K: OpTick, D: int64(d)} }
func jump(d time.Duration) Op { return Op{K: OpJump, D: int64(d)} }
func on(p int, o Op) Op       { o.P = p; return o }
func kv(k, v string) KV       { return KV{K: k, V: v} }

func mem(access, refresh time.Duration) Config {
	return Config{Backend: "memory", Access: access, Refresh: refresh, Batch: 128}
}
func bol(access, refresh time.Duration) Config {
	return Config{Backend: "bolt", Access: access, Refresh: refresh, Batch: 128}
}
func red(access, refresh time.Duration) Config {
	return Config{Backend: "redis", Access: access, Refresh: refresh, Batch: 128}
}

func backends(access, refresh time.Duration) []Config {
	return []Config{mem(access, refresh), bol(access, refresh), red(access, refresh)}
}

func toks(list ...string) []string { return list }

// seqJobs splits the exploration of all sequences of length 1..depth into one
// job per first operation; shorter sequences come first.
func seqJobs(name string, a SeqArgs, depth int) []Job {
	var out []Job
	for d := 1; d <= depth; d++ {
		for f := range a.Ops {
			b := a
			b.Depth, b.First = d, f
			if d == 1 && f > 0 {
				continue
			}
			if d == 1 {
				b.First = -1
			}
			first := a.Ops[f].String()
			if len(first) > 100 {
				first = first[:100] + "..."
			}
			out = append(out, job("seq", fmt.Sprintf("%s [%s] depth=%d first=%s", name, a.Cfg, d, first), 0, b))
		}
	}
	return out
}

// bfsJob explores all reachable states to the depth, merging equal ones.
func bfsJob(name string, a SeqArgs, depth int) Job {
	a.First = -1
	j := job("seq", fmt.Sprintf("%s [%s] bfs depth=%d", name, a.Cfg, depth), 0, a)
	j.BFS = depth
	return j
}

func pick(th bool, q, t int) int {
	if th {
		return t
	}
	return q
}

var big = strings.Repeat("0123456789abcdef", 320) // 5 KiB, larger than a page
