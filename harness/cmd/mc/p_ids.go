package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"
)

// ids: sessions of two identities side by side, every script of operations
// addressed to the first one; nothing of the second may change.

type IDArgs struct {
	Cfg    Config
	First  []string // identities in the first role
	Second []string
	Depth  int
}

func init() {
	suites["ids"] = func(raw json.RawMessage) func(*Exec) {
		var a IDArgs
		decode(raw, &a)
		return func(x *Exec) { idsBody(&a, x) }
	}
	register(&Prop{ID: "C02",
		Bounds: "all ordered pairs of identities drawn from all strings of length 1..2 over an adversarial alphabet plus hand-picked ones, directly on every provider and through managers; and families of strings that harmless-looking conversions make equal; up to 400000 identities at once; for each pair every script up to the depth of destructions, refreshes (right, crossed), writes and re-creations",
		Jobs: func(th bool) []Job {
			out := multiJobs("C02", th)
			// directly on the providers an identity is any string without the separator
			alpha := []string{"a", "A", "*", "?", "[", "]", "\\", " ", "-", "^", "\x00", "\xff", "/"}
			ids := append(words(alpha[:pick(th, 9, 13)], 2), "a*b", "a?b", "[a-z]", "[^b]", "\\*", "a\\", "a\n", "aaa", "aab", strings.Repeat("a", 300), strings.Repeat("a", 299)+"*", "{a}", "a|b", "é", "É", "ids", "lru", "data", "metadata", "count", "%61", "+", "a b", "\t")
			if !th {
				ids = idsSample(ids)
			}
			ids = uniq(ids)
			for _, c := range backends(20*u, 30*u) {
				for i := 0; i < len(ids); i += 4 {
					e := i + 4
					if e > len(ids) {
						e = len(ids)
					}
					out = append(out, job("ids", fmt.Sprintf("identities %q [%s]", ids[i:e], c), 0, IDArgs{Cfg: c, First: ids[i:e], Second: ids, Depth: 1}))
				}
				// deeper scripts on the most related pairs
				rel := []string{"a", "aa", "A", "a*", "a ", "*", "[a]", "a\\"}
				for _, f := range rel {
					out = append(out, job("ids", fmt.Sprintf("identity %q deeper [%s]", f, c), 0, IDArgs{Cfg: c, First: []string{f}, Second: rel, Depth: pick(th, 2, 3)}))
				}
			}
			// through managers an identity is any non-empty string
			mids := words([]string{"a", "A", ".", "*", " ", "\x00"}, 2)
			mids = append(mids, "abc", "abcdef", "abc.def", "a.b", "a.", ".a", "user@example.com", "YQ", "YWJj", "é", "\xff\xfe\xfd", "aGk=", "a=b", "a\nb", "[abc]", "a?c", "abc*", strings.Repeat("x", 200), strings.Repeat("x", 201), "日本", "-", "_", "1-app", "1-web", "1")
			if !th {
				mids = append([]string{"a", "A", ".", "*", " ", "\x00", "a.", ".a", "a ", "aa", "aA", "**", "a*", "..", "\x00\x00"}, mids[42:]...)
			}
			mids = append([]string{"x.y", "x/y", "user-1", "U", writtenForm}, mids...)
			for i, c := range backends(20*u, 30*u) {
				a := MgrArgs{Cfg: c, Coder: []string{"gob", "json", "gob"}[i], Method: "HS256", Pairs: uniq(mids),
					Setup: []MOp{mc("X", kv("k", "x1")), mc("Y", kv("k", "y1")), mc("X", kv("k", "x2"))},
					Ops:   []MOp{{K: "destroy", ID: "X"}, mref(0, 0), mref(0, 1), mref(1, 0), mo("destroytok", 0), mput(0, kv("k", "w")), mo("hdestroy", 2), mref(0, 2)}}
				for k := 0; k < len(a.Ops); k++ {
					b := a
					b.Depth, b.First = 1, k
					out = append(out, job("mgr", fmt.Sprintf("manager identities [%s] %s", c, a.Ops[k]), 0, b))
				}
			}
			for _, f := range twins() {
				var plain []string
				for _, s := range f {
					if !strings.Contains(s, ".") {
						plain = append(plain, s)
					}
				}
				for i, c := range backends(20*u, 30*u) {
					out = append(out, job("ids", fmt.Sprintf("twins %.60q [%s]", plain, c), 0, IDArgs{Cfg: c, First: plain, Second: plain, Depth: 1}))
					b := MgrArgs{Cfg: c, Coder: []string{"gob", "json", "gob"}[i], Method: "HS256", Pairs: f, Depth: 1, First: -1,
						Setup: []MOp{mc("X", kv("k", "x1")), mc("Y", kv("k", "y1")), mc("X", kv("k", "x2"))},
						Ops:   []MOp{{K: "destroy", ID: "X"}, mref(0, 0), mref(0, 1), mref(1, 0), mo("destroytok", 0), mput(0, kv("k", "w")), mo("hdestroy", 2), mref(0, 2)}}
					out = append(out, job("mgr", fmt.Sprintf("manager twins %.60q [%s]", f, c), 0, b))
				}
			}
			for i, c := range backends(2*u, 3*u) {
				a := MgrArgs{Cfg: c, Coder: []string{"gob", "json", "gob"}[i], Method: "HMD5", Life: true,
					Setup: []MOp{mc("a", kv("k", "x1")), mc("a.b", kv("k", "y1")), mc("a*", kv("k", "z1")), mc("A", kv("k", "A"))},
					Ops:   []MOp{{K: "destroy", ID: "a"}, {K: "destroy", ID: "a.b"}, {K: "destroy", ID: "*"}, {K: "destroy", ID: "a*"}, mref(0, 0), mref(0, 1), mref(1, 1), mref(2, 3), mref(3, 3), mref(4, 4), mc("a", kv("k", "n")), mput(1, kv("k", "w")), mo("destroytok", 2), mtick(u)}}
				out = append(out, mgrSeq("manager identities", a, pick(th, 3, 4))...)
			}
			return out
		}})
}

// idsSample keeps every single character, doubles, and combinations with "a".
func idsSample(ids []string) []string {
	var out []string
	for _, s := range ids {
		if len(s) != 2 || s[0] == s[1] || s[0] == 'a' || s[1] == 'a' || s[0] == '\\' || s[1] == '*' {
			out = append(out, s)
		}
	}
	return out
}

func idsBody(a *IDArgs, x *Exec) {
	f := a.First[x.choose(len(a.First))]
	s := a.Second[x.choose(len(a.Second))]
	if f == s {
		return
	}
	r := &run{x: x, w: newWorld(a.Cfg), m: newModel(a.Cfg)}
	defer r.w.Done()
	for _, o := range []Op{create(f, 1, kv("k", "f1")), create(s, 1, kv("k", "s1")), create(f, 2, kv("k", "f2")), create(s, 2)} {
		if !r.step(o) {
			return
		}
	}
	ops := []Op{
		killID(f), killID(s + ".1"), killID(f + "*"), killTok(f, 1), refresh(f, 1, 3), refresh(f, 2, 1),
		refreshWith(tok(f, 1), rtok(s, 1), tok(f, 5), rtok(f, 5)),
		refreshWith(tok(f, 1), rtok(f, 1), tok(s, 1), rtok(f, 5)),
		refreshWith(tok(f, 1), rtok(f, 1), tok(f, 5), rtok(s, 1)),
		refreshWith(tok(s, 1), rtok(f, 1), tok(s, 5), rtok(s, 5)),
		put(f, 1, kv("k", "w")), del(f, 1, "k"), create(f, 1, kv("k2", "n")), killID(f + "."), killID(strings.ToUpper(f)), killID(strings.TrimSpace(f)), killID(f[:len(f)-1] + "?"),
	}
	for i := 0; i < a.Depth; i++ {
		o := ops[x.choose(len(ops))]
		if o.K == OpDestroyID && o.ID == "" {
			return
		}
		if !r.step(o) {
			return
		}
	}
	x.state(r.m.canon())
	tk := []string{}
	for _, id := range []string{f, s} {
		for _, n := range []int{1, 2, 3, 5} {
			tk = append(tk, tok(id, n))
		}
	}
	r.probe(tk, []string{"k", "k2"})
}

var _ = time.Second
