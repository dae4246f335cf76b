package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"

	"mcverif/vs"
)

// Histories of acceptance (C01): several managers with equal and different
// keys and methods in one program see the same tokens one after the other.

type signer struct {
	Method string
	Key    int
}

// AOp is one step: N and J are tokens issued so far (even: access, odd:
// refresh), altered as Mut says.
type AOp struct {
	K   string // create, get, refresh, decode, encode
	M   int
	N   int
	J   int
	Mut string
	ID  string
}

func (o AOp) String() string {
	s := fmt.Sprintf("s%d.%s", o.M, o.K)
	switch o.K {
	case "create":
		return s + fmt.Sprintf("(%q)", o.ID)
	case "refresh":
		return s + fmt.Sprintf("(#%d,#%d)%s", o.N, o.J, o.Mut)
	}
	return s + fmt.Sprintf("(#%d)%s", o.N, o.Mut)
}

type AcceptArgs struct {
	Signers []signer
	Setup   []AOp
	Ops     []AOp
	Depth   int
	First   int
	Many    int // this many other tokens are looked at between two steps
}

func init() {
	suites["accept"] = func(raw json.RawMessage) func(*Exec) {
		var a AcceptArgs
		decode(raw, &a)
		return func(x *Exec) { acceptBody(&a, x) }
	}
}

func alter(t, mut string, other string) string {
	i, j := strings.IndexByte(t, '.'), strings.LastIndexByte(t, '.')
	p, q := strings.IndexByte(other, '.'), strings.LastIndexByte(other, '.')
	flip := func(k int) string {
		c := byte('A')
		if t[k] == 'A' {
			c = 'B'
		}
		return t[:k] + string([]byte{c}) + t[k+1:]
	}
	switch mut {
	case "signature":
		return flip(j + 1)
	case "session":
		return flip(i + 1)
	case "identity":
		return flip(0)
	case "cut":
		return t[:len(t)-2]
	case "their signature":
		return t[:j] + other[q:]
	case "their session":
		return t[:i] + other[p:q] + t[j:]
	}
	return t
}

func acceptBody(a *AcceptArgs, x *Exec) {
	w := newWorld(mem(20*u, 30*u))
	defer w.Done()
	sp := &spy{Provider: w.p[0]}
	var mgr []*sessionid.LocalManager
	for _, s := range a.Signers {
		mgr = append(mgr, sessionid.NewManager(sessionid.WithProvider(sp), sessionid.WithMethod(methodOf(s.Method)), sessionid.WithKey(append([]byte{}, tokKeys[s.Key]...))))
	}
	var toks []string
	current := map[string]string{}
	others := 0
	step := func(o AOp) bool {
		x.trans++
		s := a.Signers[o.M]
		key := tokKeys[s.Key]
		m := mgr[o.M]
		if o.K == "create" {
			h, r, err := m.Create(w.ctx, o.ID)
			if err != nil {
				x.fail("%s: %v", o, err)
				return false
			}
			toks = append(toks, h.Token(), r)
			current[h.Token()] = r
			x.logf("%s -> %q %q", o, h.Token(), r)
			for _, t := range []string{h.Token(), r} {
				if ok, re := genuine(s.Method, t, key); !ok || re {
					x.fail("%s issued %q, which is not properly signed", o, t)
				}
			}
			return !x.failed()
		}
		if o.N >= len(toks) || o.J >= len(toks) {
			return true
		}
		other := toks[(o.N+2)%len(toks)]
		t := alter(toks[o.N], o.Mut, other)
		ok, respelled := genuine(s.Method, t, key)
		switch o.K {
		case "get":
			sp.calls = 0
			h, err := m.Get(w.ctx, t)
			x.logf("%s %q -> %v", o, t, err)
			switch {
			case ok && !respelled && err != nil:
				x.fail("%s: the genuine token %q is refused: %v", o, t, err)
			case !ok && err == nil:
				x.fail("%s: the token %q is accepted, its signature is not that of this manager", o, t)
			case !ok && sp.calls != 0:
				x.fail("%s: the refused token %q reached the store", o, t)
			case err == nil && (h == nil || h.Token() != t || h.ID() != t[:strings.IndexByte(t, '.')]):
				x.fail("%s: the session of %q is not the one the token names", o, t)
			}
			x.outcome("get " + errClass(err))
		case "refresh":
			r := toks[o.J]
			okr, _ := genuine(s.Method, r, key)
			sp.calls = 0
			na, nr, err := m.Refresh(w.ctx, t, r)
			vs.Quiesce()
			x.logf("%s %q %q -> %q %q %v", o, t, r, na, nr, err)
			good := ok && okr && current[t] == r
			switch {
			case good && err != nil:
				x.fail("%s: the genuine pair is refused: %v", o, err)
			case !good && err == nil:
				x.fail("%s: a refresh that is not due succeeds", o)
			case !(ok && okr) && sp.calls != 0:
				x.fail("%s: a refused refresh reached the store", o)
			}
			if err == nil && !x.failed() {
				delete(current, t)
				current[na] = nr
				toks = append(toks, na, nr)
				for _, t := range []string{na, nr} {
					if ok, re := genuine(s.Method, t, key); !ok || re {
						x.fail("%s issued %q, which is not properly signed", o, t)
					}
				}
			}
			x.outcome("refresh " + errClass(err))
		case "decode":
			id, sid, err := cryptoer.Decode(methodOf(s.Method), append([]byte{}, key...), t)
			x.logf("%s %q -> %q %q %v", o, t, id, sid, err)
			switch {
			case ok && !respelled && err != nil:
				x.fail("%s: the genuine token %q is refused: %v", o, t, err)
			case !ok && err == nil:
				x.fail("%s: the token %q is decoded, its signature is not that of this key", o, t)
			case err == nil && t[:strings.LastIndexByte(t, '.')] != id+"."+sid:
				x.fail("%s: %q is decoded to %q and %q", o, t, id, sid)
			}
			x.outcome("decode " + errClass(err))
		case "encode":
			p := strings.Split(toks[o.N], ".")
			et, err := cryptoer.Encode(methodOf(s.Method), append([]byte{}, key...), p[0], p[1])
			want := p[0] + "." + p[1] + "." + stdSign(s.Method, p[0]+"."+p[1], key)
			x.logf("%s -> %q %v", o, et, err)
			if err != nil || et != want {
				x.fail("%s: encoded as %q, %v, should be %q", o, et, err, want)
			}
			x.outcome("encode " + errClass(err))
		}
		return !x.failed()
	}
	for _, o := range a.Setup {
		if !step(o) {
			return
		}
	}
	for i := 0; i < a.Depth; i++ {
		k := a.First
		if i > 0 || k < 0 {
			k = x.choose(len(a.Ops))
		}
		if !step(a.Ops[k]) {
			return
		}
		if a.Many > 0 && i == 0 {
			n := []int{a.Many / 8, a.Many / 2, a.Many}[x.choose(3)]
			for j := 0; j < n; j++ {
				s := a.Signers[0]
				others++
				text := fmt.Sprintf("other%d.session", others)
				t := text + "." + stdSign(s.Method, text, tokKeys[s.Key])
				if _, err := mgr[0].Get(w.ctx, t); err != nil {
					x.fail("the genuine token %q is refused: %v", t, err)
					return
				}
				x.trans++
			}
		}
	}
	x.state(fmt.Sprint(a.Signers, len(toks), len(current)))
	// in the end everybody looks at everything
	for m := range mgr {
		for n := range toks {
			for _, mut := range []string{"", "signature", "identity"} {
				if !step(AOp{K: "get", M: m, N: n, Mut: mut}) {
					return
				}
			}
		}
	}
}

func acceptJobs(th bool) []Job {
	var out []Job
	for _, sg := range [][]signer{
		{{"HS256", 0}, {"HS256", 7}, {"HS512", 0}, {"HS256", 0}},
		{{"HMD5", 2}, {"HMD5", 1}, {"HS1", 2}, {"HMD5", 2}},
		{{"HS384", 3}, {"HS384", 4}, {"HS512", 4}, {"HS384", 3}},
	} {
		a := AcceptArgs{Signers: sg, Setup: []AOp{{K: "create", ID: "u"}, {K: "create", M: 1, ID: "u"}}}
		a.Ops = []AOp{{K: "create", ID: "u"}, {K: "create", M: 2, ID: "v"}}
		for m := range sg {
			for _, n := range []int{0, 1, 2} {
				a.Ops = append(a.Ops, AOp{K: "get", M: m, N: n})
			}
		}
		for _, mut := range []string{"signature", "identity", "session", "cut", "their signature", "their session"} {
			a.Ops = append(a.Ops, AOp{K: "get", M: 0, N: 0, Mut: mut})
		}
		a.Ops = append(a.Ops, AOp{K: "get", M: 1, N: 0, Mut: "their signature"}, AOp{K: "get", M: 3, N: 0, Mut: "signature"},
			AOp{K: "refresh", N: 0, J: 1}, AOp{K: "refresh", M: 1, N: 0, J: 1}, AOp{K: "refresh", M: 2, N: 0, J: 1}, AOp{K: "refresh", M: 3, N: 0, J: 1},
			AOp{K: "refresh", N: 0, J: 3}, AOp{K: "refresh", M: 1, N: 2, J: 1}, AOp{K: "refresh", N: 0, J: 1, Mut: "signature"}, AOp{K: "refresh", N: 4, J: 5},
			AOp{K: "decode", N: 0}, AOp{K: "decode", M: 1, N: 0}, AOp{K: "decode", M: 2, N: 0}, AOp{K: "decode", N: 0, Mut: "signature"}, AOp{K: "encode", N: 0}, AOp{K: "encode", M: 1, N: 0})
		for k := range a.Ops {
			b := a
			b.Depth, b.First = pick(th, 3, 4), k
			out = append(out, job("accept", fmt.Sprintf("accept %v depth=%d first=%s", sg, b.Depth, a.Ops[k]), 0, b))
			b.Depth, b.Many = 2, pick(th, 1200, 5000)
			out = append(out, job("accept", fmt.Sprintf("accept %v with %d others first=%s", sg, b.Many, a.Ops[k]), 0, b))
		}
	}
	return out
}
