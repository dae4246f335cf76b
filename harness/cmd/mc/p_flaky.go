package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"

	"mcverif/vs"
)

// A signing method that fails now and then (C20, C22): no token comes of it,
// and nothing reaches the store.

// FlakyArgs: every sequence of Ops, in which the signatures named fail.
type FlakyArgs struct {
	Cfg   Config
	Depth int
	First int
	Fails int // the signatures up to this one may fail, each alone or with all after it
}

var errSign = errors.New("no signature now")

type flaky struct {
	cryptoer.SigningMethod
	n, at  int
	stay   bool
	failed bool
}

func (f *flaky) Sign(s string, key interface{}) (string, error) {
	f.n++
	if f.n == f.at || f.stay && f.n > f.at {
		f.failed = true
		return "", errSign
	}
	return f.SigningMethod.Sign(s, key)
}

// stores counts what would change the store.
type stores struct {
	sessionid.Provider
	calls int
}

func (s *stores) Create(ctx context.Context, a, r string, kv []sessionid.PairBytes) error {
	s.calls++
	return s.Provider.Create(ctx, a, r, kv)
}
func (s *stores) Refresh(ctx context.Context, a, r, na, nr string) error {
	s.calls++
	return s.Provider.Refresh(ctx, a, r, na, nr)
}

func init() {
	suites["flaky"] = func(raw json.RawMessage) func(*Exec) {
		var a FlakyArgs
		decode(raw, &a)
		return func(x *Exec) { flakyBody(&a, x) }
	}
}

var flakyOps = []string{"create", "refresh", "token"}

func flakyBody(a *FlakyArgs, x *Exec) {
	w := newWorld(a.Cfg)
	defer w.Done()
	f := &flaky{SigningMethod: methodOf("HS256"), at: 1 + x.choose(a.Fails), stay: x.choose(2) == 1}
	sp := &stores{Provider: w.p[0]}
	key := []byte("key of the manager")
	m := sessionid.NewManager(sessionid.WithProvider(sp), sessionid.WithMethod(f), sessionid.WithKey(key))
	type pair struct{ a, r string }
	var live []pair
	x.logf("signature %d fails, later ones too: %v", f.at, f.stay)
	for i := 0; i < a.Depth; i++ {
		k := a.First
		if i > 0 || k < 0 {
			k = x.choose(len(flakyOps))
		}
		x.trans++
		f.failed, sp.calls = false, 0
		var at, rt string
		var err error
		old := pair{}
		switch flakyOps[k] {
		case "create":
			var s *sessionid.Session
			s, rt, err = m.Create(w.ctx, "u", sessionid.Pair{Key: "k", Value: fmt.Sprint(i)})
			if err == nil {
				at = s.Token()
			}
		case "refresh":
			if len(live) == 0 {
				continue
			}
			old = live[len(live)-1]
			at, rt, err = m.Refresh(w.ctx, old.a, old.r)
		case "token":
			at, rt, err = sessionid.CreateToken(f, key, "dQ")
		}
		vs.Quiesce()
		x.logf("%s -> %q %q %v", flakyOps[k], at, rt, err)
		x.outcome(flakyOps[k] + fmt.Sprint(f.failed) + errClass(err))
		switch {
		case f.failed && err == nil:
			x.fail("%s succeeds although a signature of it failed: %q %q", flakyOps[k], at, rt)
			return
		case f.failed && sp.calls != 0:
			x.fail("%s reached the store although a signature of it failed", flakyOps[k])
			return
		case !f.failed && err != nil:
			x.fail("%s fails although all its signatures succeeded: %v", flakyOps[k], err)
			return
		}
		if err == nil {
			for _, t := range []string{at, rt} {
				if strings.Count(t, ".") != 2 || strings.HasSuffix(t, ".") {
					x.fail("%s issued %q", flakyOps[k], t)
					return
				}
			}
			switch flakyOps[k] {
			case "refresh":
				live = live[:len(live)-1]
				fallthrough
			case "create":
				live = append(live, pair{at, rt})
			}
		}
		for _, p := range live {
			s, err := m.Get(w.ctx, p.a)
			if err == nil {
				err = s.Check(w.ctx)
			}
			if err != nil {
				x.fail("after %s the session of %q: %v", flakyOps[k], p.a, err)
				return
			}
		}
	}
	x.state(fmt.Sprint(f.at, f.stay, len(live)))
}

func flakyJobs(th bool) []Job {
	var out []Job
	for _, c := range backends(2*u, 3*u) {
		for d := 1; d <= pick(th, 4, 5); d++ {
			for f := range flakyOps {
				out = append(out, job("flaky", fmt.Sprintf("a signature fails [%s] depth=%d first=%s", c, d, flakyOps[f]), 0, FlakyArgs{Cfg: c, Depth: d, First: f, Fails: 2 * d}))
			}
		}
	}
	return out
}
