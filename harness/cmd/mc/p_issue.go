package main

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/powerpuffpenguin/sessionid"

	"mcverif/vs"
)

// Property C20: tokens are never repeated.

// IssueArgs: every sequence of issuing and clock steps.
type IssueArgs struct {
	Ops   []string // see issueDo
	Depth int
	First int
	// Cycle: the steps are repeated this often instead
	Cycle int
	Mgr   bool // through managers, otherwise CreateToken itself
}

func init() {
	suites["issue"] = func(raw json.RawMessage) func(*Exec) {
		var a IssueArgs
		decode(raw, &a)
		return func(x *Exec) { issueBody(&a, x) }
	}
	suites["split"] = func(raw json.RawMessage) func(*Exec) {
		var n int
		decode(raw, &n)
		return func(x *Exec) { splitBody(n, x) }
	}
}

// issuer issues tokens and keeps them all.
type issuer struct {
	x    *Exec
	ctx  context.Context
	ms   []*sessionid.LocalManager
	keys []string
	meth []string
	all  map[string]string // token -> what it is
	ids  eids
	last [2]string // the last pair issued, by whom and for whom
	by   int
	of   string
	n    int
	log  bool
}

func (q *issuer) take(m int, id, at, rt string, err error) bool {
	q.n++
	if err != nil {
		q.x.fail("step %d: issuing for %q: %v", q.n, id, err)
		return false
	}
	for i, t := range []string{at, rt} {
		what := fmt.Sprintf("the %s token of %q from step %d", []string{"access", "refresh"}[i], id, q.n)
		if q.log {
			q.x.logf("%s: %s", what, t)
		}
		if p, ok := q.all[t]; ok {
			q.x.fail("%q was issued twice: %s and %s", t, p, what)
			return false
		}
		q.all[t] = what
		tid, sid, sig, err := sessionid.Split(t)
		if err != nil || sid == "" || sessionid.Join(tid, sid, sig) != t || strings.Count(t, ".") != 2 {
			q.x.fail("%s does not come apart: %q", what, t)
			return false
		}
		if err := sessionid.IsToken(t); err != nil {
			q.x.fail("%s is no token: %q, %v", what, t, err)
			return false
		}
		if sig != stdSign(q.meth[m], tid+"."+sid, []byte(q.keys[m])) {
			q.x.fail("%s: its third part is not the signature of the first two: %q", what, t)
			return false
		}
		if len(q.ms) == 0 {
			if tid != id {
				q.x.fail("%s was made for %q: %q", what, id, t)
				return false
			}
		} else if why := q.ids.learn(id, tid); why != "" {
			q.x.fail("%s: %q: %s", what, t, why)
			return false
		}
	}
	q.last, q.by, q.of = [2]string{at, rt}, m, id
	return true
}

func (q *issuer) create(m int, id string) bool {
	if len(q.ms) == 0 {
		at, rt, err := sessionid.CreateToken(methodOf(q.meth[m]), []byte(q.keys[m]), id)
		return q.take(m, id, at, rt, err)
	}
	s, rt, err := q.ms[m].Create(q.ctx, id)
	if err != nil {
		return q.take(m, id, "", "", err)
	}
	return q.take(m, id, s.Token(), rt, nil)
}

func (q *issuer) do(op string) bool {
	if d, err := time.ParseDuration(op); err == nil {
		vs.Advance(d)
		if q.log {
			q.x.logf("the clock moves by %s", d)
		}
		return true
	}
	f := strings.SplitN(op, " ", 2)
	switch f[0] {
	case "m0", "m1":
		return q.create(int(f[0][1]-'0'), f[1])
	case "refresh":
		if q.of == "" && q.last[0] == "" || len(q.ms) == 0 {
			return true
		}
		at, rt, err := q.ms[q.by].Refresh(q.ctx, q.last[0], q.last[1])
		return q.take(q.by, q.of, at, rt, err)
	case "refused":
		// a refresh that fails issues nothing; what follows is still new
		if q.last[0] != "" && len(q.ms) > 0 {
			if _, _, err := q.ms[q.by].Refresh(q.ctx, q.last[0], q.last[0]); err == nil {
				q.x.fail("refreshing with an access token in place of the refresh token succeeded")
				return false
			}
		}
		return true
	}
	panic("mcverif: " + op)
}

func issueBody(a *IssueArgs, x *Exec) {
	q := &issuer{x: x, ctx: context.Background(), keys: []string{"key of the manager", "another"}, meth: []string{"HS256", "HMD5"}, all: map[string]string{}, ids: eids{}, log: a.Cycle == 0}
	if a.Mgr {
		p := sessionid.NewProvider(sessionid.WithProviderClear(0), sessionid.WithProviderAccess(1000000*time.Hour))
		defer p.Close()
		for i, k := range q.keys {
			q.ms = append(q.ms, sessionid.NewManager(sessionid.WithProvider(p), sessionid.WithKey([]byte(k)), sessionid.WithMethod(methodOf(q.meth[i]))))
		}
	}
	vs.Advance(10 * time.Hour)
	if a.Cycle > 0 {
		for i := 0; i < a.Cycle; i++ {
			for _, o := range a.Ops {
				if !q.do(o) {
					return
				}
			}
		}
		x.trans += int64(q.n)
		x.outcome(fmt.Sprintf("%d tokens, all different", len(q.all)))
		x.state(strings.Join(a.Ops, ","))
		return
	}
	var h []string
	for i := 0; i < a.Depth; i++ {
		k := a.First
		if i > 0 || k < 0 {
			k = x.choose(len(a.Ops))
		}
		h = append(h, a.Ops[k])
		if !q.do(a.Ops[k]) {
			return
		}
	}
	x.trans += int64(q.n)
	x.outcome(fmt.Sprintf("%d tokens, all different", len(q.all)))
	x.state(strings.Join(h, ","))
}

// splitBody: every string of n characters over dots and others.
func splitBody(n int, x *Exec) {
	alpha := []string{".", "a", "-", "\xff"}
	var rec func(s string, left int) bool
	rec = func(s string, left int) bool {
		if left > 0 {
			for _, c := range alpha {
				if !rec(s+c, left-1) {
					return false
				}
			}
			return true
		}
		x.trans++
		i, j := strings.IndexByte(s, '.'), strings.LastIndexByte(s, '.')
		id, sid, sig, err := sessionid.Split(s)
		if (err == nil) != (i != j) {
			x.fail("splitting %q: %v", s, err)
			return false
		}
		if (sessionid.IsToken(s) == nil) != (err == nil) || (sessionid.IsToken("a.b.c", s) == nil) != (err == nil) {
			x.fail("splitting %q says %v, IsToken something else", s, err)
			return false
		}
		if err == nil && (id != s[:i] || sid != s[i+1:j] || sig != s[j+1:] || sessionid.Join(id, sid, sig) != s) {
			x.fail("splitting %q gives %q, %q, %q", s, id, sid, sig)
			return false
		}
		return true
	}
	rec("", n)
	x.outcome("split")
}

func init() {
	register(&Prop{ID: "C20",
		Bounds: "every sequence of issuing (two managers with different keys, CreateToken, creation and refresh, refused refreshes) and clock steps (standing still, +-100 ns, +-1 s) up to the depth; every cycle of up to 3 (thorough 4) clock steps around an issue, repeated until more than three times as many tokens exist as the library's clock sequence has values; every schedule up to the preemption bound of two and three concurrent issuers, under the race detector; signing methods that fail at any signature, once or from then on; every string up to a length through the splitting function",
		Assume: []string{"fewer than 2^32 tokens"},
		Jobs: func(th bool) []Job {
			out := flakyJobs(th)
			ops := []string{"m0 u", "m1 u", "m0 w", "m1 ", "refresh", "refused", "-100ns", "100ns", "-1s", "1s"}
			for d := 1; d <= pick(th, 5, 6); d++ {
				for f := range ops {
					out = append(out, job("issue", fmt.Sprintf("issue through managers, depth=%d first=%s", d, ops[f]), 0, IssueArgs{Ops: ops, Depth: d, First: f, Mgr: true}))
				}
			}
			ops = []string{"m0 u", "m1 w", "-100ns", "100ns", "1s", "-1s"}
			for d := 1; d <= pick(th, 6, 7); d++ {
				for f := range ops {
					out = append(out, job("issue", fmt.Sprintf("issue, depth=%d first=%s", d, ops[f]), 0, IssueArgs{Ops: ops, Depth: d, First: f}))
				}
			}
			// long runs: the clock sequence has 2^14 values
			clocks := []string{"0s", "100ns", "-100ns", "-200ns", "1s", "-1s"}
			var cyc func(p []string)
			max := pick(th, 3, 4)
			cyc = func(p []string) {
				if len(p) > 0 {
					var seq []string
					for _, c := range p {
						seq = append(seq, "m0 u", c)
					}
					out = append(out, job("issue", fmt.Sprintf("issue forever with the clock moving by %v", p), 0, IssueArgs{Ops: seq, Cycle: 54000 / len(p) / 2}))
				}
				if len(p) < max {
					for _, c := range clocks {
						cyc(append(append([]string{}, p...), c))
					}
				}
			}
			cyc(nil)
			for _, s := range [][]string{{"m0 u"}, {"m0 u", "m1 w"}, {"m0 u", "refresh"}, {"m0 u", "refused", "-100ns", "m1 u", "100ns"}} {
				out = append(out, job("issue", fmt.Sprintf("managers issue forever %v", s), 0, IssueArgs{Ops: s, Cycle: 30000 / len(s), Mgr: true}))
			}
			for n := 0; n <= pick(th, 8, 10); n++ {
				out = append(out, job("split", fmt.Sprintf("split every string of %d characters", n), 0, n))
			}
			// at the same time
			c := mem(3*u, 5*u)
			c.N = 2
			// after so many tokens
			ct := MOp{K: "create-token", ID: "u"}
			for n := 2; n <= pick(th, 4100, 16400); n += 2 {
				if n > pick(th, 140, 600) && n&(n-1) != 0 && (n+2)&(n+1) != 0 && (n-2)&(n-3) != 0 {
					continue
				}
				for i, t := range [][][]MOp{{{ct}, {ct}}, {{ct, ct}, {ct}}} {
					b := pick(th, 2, 3)
					if i > 0 || n > 140 {
						b--
					}
					a := MConcArgs{Cfg: c, Method: "HMD5", Coder: "gob", Pre: n, Threads: t}
					j := job("mconc", fmt.Sprintf("issuers after %d tokens %v", n, t), b, a)
					j.Race = n <= 20
					out = append(out, j)
				}
			}
			for _, moves := range []bool{false, true} {
				a := MConcArgs{Cfg: c, Method: "HS256", Coder: "gob"}
				a.Setup = []MOp{mc("u", kv("k", "v1")), mc("u"), mc("w")}
				m1 := func(o MOp) MOp { o.M = 1; return o }
				if moves {
					// the clock steps forth and back meanwhile
					move := [][]MOp{{{K: "clock", D: -100}, {K: "clock", D: 100}, {K: "clock", D: -100}}}
					for _, two := range [][]MOp{{mc("u"), mref(0, 0)}, {m1(mc("u")), mc("u")}, {{K: "create-token", ID: "u"}, mref(1, 1)}} {
						b := a
						b.Threads = append([][]MOp{{two[0]}, {two[1]}}, move...)
						j := job("mconc", fmt.Sprintf("issuers and a clock %s || %s", two[0], two[1]), pick(th, 2, 3), b)
						j.Race = true
						out = append(out, j)
					}
					continue
				}
				is := []MOp{mc("u"), mc("w", kv("k", "v")), m1(mc("u")), mref(0, 0), mref(1, 1), {K: "create-token", ID: "u"}, {K: "default"}}
				for i := range is {
					for k := i; k < len(is); k++ {
						b := a
						b.Threads = [][]MOp{{is[i], is[k]}, {is[k], is[i]}}
						j := job("mconc", fmt.Sprintf("issuers %s, %s || reversed", is[i], is[k]), pick(th, 2, 3), b)
						j.Race = true
						out = append(out, j)
						for l := k; l < len(is); l++ {
							b.Threads = [][]MOp{{is[i]}, {is[k]}, {is[l]}}
							j := job("mconc", fmt.Sprintf("issuers %s || %s || %s", is[i], is[k], is[l]), pick(th, 2, 3), b)
							j.Race = true
							out = append(out, j)
						}
					}
				}
			}
			return out
		}})
}
