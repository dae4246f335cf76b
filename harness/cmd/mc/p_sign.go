package main

import (
	"bytes"
	"context"
	"crypto/hmac"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"

	"mcverif/vs"
)

// C01: tokens and their alterations.

var hashes = map[string]func() hash.Hash{"HMD5": md5.New, "HS1": sha1.New, "HS256": sha256.New, "HS384": sha512.New384, "HS512": sha512.New}

// stdMAC is the reference signature.
func stdMAC(method, text string, key []byte) []byte {
	h := hmac.New(hashes[method], key)
	h.Write([]byte(text))
	return h.Sum(nil)
}

func stdSign(method, text string, key []byte) string {
	return base64.RawURLEncoding.EncodeToString(stdMAC(method, text, key))
}

// genuine: the reference verdict on a token. respelled: the bytes of the
// signature are right but it is spelled in another way than it is issued.
func genuine(method, tok string, key []byte) (ok, respelled bool) {
	i := strings.LastIndexByte(tok, '.')
	if i < 0 || strings.IndexByte(tok[:i], '.') < 0 {
		return false, false
	}
	sig, err := base64.RawURLEncoding.DecodeString(tok[i+1:])
	if err != nil || !hmac.Equal(sig, stdMAC(method, tok[:i], key)) {
		return false, false
	}
	return true, tok[i+1:] != stdSign(method, tok[:i], key)
}

// spy counts what reaches the store.
type spy struct {
	sessionid.Provider
	calls int
	last  string
}

func (s *spy) Refresh(ctx context.Context, a, r, na, nr string) error {
	s.calls++
	s.last = a + "|" + r
	return s.Provider.Refresh(ctx, a, r, na, nr)
}
func (s *spy) Check(ctx context.Context, t string) error {
	s.calls++
	return s.Provider.Check(ctx, t)
}
func (s *spy) Get(ctx context.Context, t string, k []string) ([]sessionid.Value, error) {
	s.calls++
	return s.Provider.Get(ctx, t, k)
}

type TokArgs struct {
	Method string
	Key    int
	ID     string
	Kind   string
	Len    int `json:",omitempty"` // the identity is of this length
}

var tokKeys = [][]byte{[]byte("key of the manager"), {}, []byte("k"), bytes.Repeat([]byte("K"), 64), bytes.Repeat([]byte("K"), 65), bytes.Repeat([]byte("L"), 129), []byte("key of the manager\x01"), []byte("Key of the manager")}

var tokIDs = []string{"u", "user@example.com", "a.b.c", "", strings.Repeat("long identity ", 12), "\x00\xff"}

func init() {
	suites["tokens"] = func(raw json.RawMessage) func(*Exec) {
		var a TokArgs
		decode(raw, &a)
		return func(x *Exec) { tokBody(&a, x) }
	}
	suites["encdec"] = func(raw json.RawMessage) func(*Exec) {
		var a TokArgs
		decode(raw, &a)
		return func(x *Exec) { encBody(&a, x) }
	}
	register(&Prop{ID: "C01",
		Bounds: "for every method, key and identity: every substitution of every position by every character of the token alphabet (and some outside it), every insertion, deletion, truncation, transposition, part swap and splice with tokens of the same and of another identity, every foreign key and method; for long identities (up to 200000 bytes) at the ends and around round positions; every sequence up to the depth of issuing, looking up, refreshing, encoding and decoding genuine and altered tokens through four signers with equal and different keys and methods in one program, also with up to 1200 (thorough 5000) lookups in between; the verdict is compared with an independent implementation of the keyed hash",
		Assume: []string{"other spellings of the same signature bytes (unused bits of the last base64 character, line breaks, which the decoder ignores) are not counted as alterations"},
		Jobs: func(th bool) []Job {
			out := acceptJobs(th)
			for i, n := range []int{33, 64, 100, 128, 191, 192, 200, 255, 256, 500, 511, 767, 768, 769, 1000, 1024, 3000, 4000, 5000, 10000, 33000, 49152, 70000, 200000} {
				for _, kind := range []string{"get", "refresh"} {
					if n > 100000 && kind == "refresh" && !th {
						continue
					}
					a := TokArgs{Method: methodNames[i%len(methodNames)], Key: i % len(tokKeys), Kind: kind, Len: n}
					out = append(out, job("tokens", fmt.Sprintf("long identities of %d bytes, %s", n, kind), 0, a))
				}
			}
			for _, m := range methodNames {
				for k := range tokKeys {
					for i, id := range tokIDs {
						if !th && k > 2 && i > 1 {
							continue
						}
						for _, kind := range []string{"get", "refresh"} {
							if kind == "refresh" && !th && k > 1 && k != 4 {
								continue
							}
							out = append(out, job("tokens", fmt.Sprintf("tokens %s %s key%d %q", kind, m, k, id), 0, TokArgs{Method: m, Key: k, ID: id, Kind: kind}))
						}
					}
					out = append(out, job("encdec", fmt.Sprintf("encode/decode %s key%d", m, k), 0, TokArgs{Method: m, Key: k}))
				}
			}
			return out
		}})
}

const tokChars = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.+/= \n\x00\xff"

// positions: every one of a token of ordinary length; of a long one the ends
// and those around round numbers.
func positions(n int) func(int) bool {
	if n <= 1000 {
		return func(int) bool { return true }
	}
	return func(i int) bool {
		if i < 4 || i > n-80 {
			return true
		}
		for _, base := range []int{2, 10} {
			for p := 1; p < n+3; p *= base {
				if i >= p-2 && i <= p+2 {
					return true
				}
			}
		}
		return false
	}
}

// mutants calls f with every alteration of tok.
func mutants(tok string, others []string, chars string, f func(string) bool) {
	do := func(s string) bool { return s == tok || f(s) }
	near := positions(len(tok))
	for i := 0; i < len(tok); i++ {
		if !near(i) {
			continue
		}
		for _, c := range []byte(chars) {
			if !do(tok[:i] + string([]byte{c}) + tok[i+1:]) {
				return
			}
		}
		if !do(tok[:i] + tok[i+1:]) {
			return
		}
		if i+1 < len(tok) && !do(tok[:i]+string([]byte{tok[i+1], tok[i]})+tok[i+2:]) {
			return
		}
		if !do(tok[:i]) || !do(tok[i:]) {
			return
		}
	}
	for i := 0; i <= len(tok); i++ {
		if !near(i) {
			continue
		}
		for _, c := range []byte(chars) {
			if !do(tok[:i] + string([]byte{c}) + tok[i:]) {
				return
			}
		}
	}
	parts := strings.Split(tok, ".")
	for _, o := range others {
		op := strings.Split(o, ".")
		for a := 0; a <= len(tok); a++ {
			if !near(a) {
				continue
			}
			for _, b := range []int{a, len(o) - (len(tok) - a)} {
				if b >= 0 && b <= len(o) && !do(tok[:a]+o[b:]) {
					return
				}
			}
		}
		if len(parts) == 3 && len(op) == 3 {
			for m := 1; m < 7; m++ {
				p := append([]string{}, parts...)
				for k := 0; k < 3; k++ {
					if m>>uint(k)&1 == 1 {
						p[k] = op[k]
					}
				}
				if !do(strings.Join(p, ".")) {
					return
				}
			}
		}
		if !do(tok+"."+o) || !do(tok+o) || !do(o+"."+tok) {
			return
		}
	}
	if len(parts) == 3 {
		for _, p := range [][]string{{parts[1], parts[0], parts[2]}, {parts[0], parts[2], parts[1]}, {parts[2], parts[1], parts[0]}, {parts[0], parts[1]}, {parts[1], parts[2]}, {parts[0], "", parts[2]}, {"", parts[1], parts[2]}, {parts[0], parts[1], ""}, {parts[0], parts[0], parts[1], parts[2]}, {parts[0], parts[1], parts[1], parts[2]}, {parts[0], parts[1], parts[2], parts[2]}, {parts[0] + parts[1], "", parts[2]}, {"", parts[0] + parts[1], parts[2]}, {"", "", ""}} {
			if !do(strings.Join(p, ".")) {
				return
			}
		}
	}
	do(strings.ToUpper(tok))
	do(strings.ToLower(tok))
	do(tok + "=")
	do(tok + "==")
}

func tokBody(a *TokArgs, x *Exec) {
	w := newWorld(mem(20*u, 30*u))
	defer w.Done()
	sp := &spy{Provider: w.p[0]}
	key := tokKeys[a.Key]
	mk := func(method string, key []byte) *sessionid.LocalManager {
		return sessionid.NewManager(sessionid.WithProvider(sp), sessionid.WithMethod(methodOf(method)), sessionid.WithKey(append([]byte{}, key...)))
	}
	m := mk(a.Method, key)
	chars := tokChars
	if a.Len > 0 {
		a.ID = strings.Repeat("long identity ", a.Len/14+1)[:a.Len]
		chars = "Az0.="
	}
	issue := func(m *sessionid.LocalManager, id string) (string, string) {
		s, r, err := m.Create(w.ctx, id)
		if err != nil {
			x.fail("create for %q: %v", id, err)
			return "", ""
		}
		return s.Token(), r
	}
	at, rt := issue(m, a.ID)
	at2, rt2 := issue(m, a.ID)
	bt, br := issue(m, a.ID+"x")
	if x.failed() {
		return
	}
	n := 0
	verdict := func(tok string) bool {
		n++
		x.trans++
		want, respelled := genuine(a.Method, tok, key)
		sp.calls = 0
		s, err := m.Get(w.ctx, tok)
		switch {
		case sp.calls != 0 && !want:
			x.fail("a lookup of %q (issued: %q) reached the store", tok, at)
		case want && !respelled && err != nil:
			x.fail("the genuine token %q is refused: %v", tok, err)
		case !want && err == nil:
			x.fail("the altered token %q (issued: %q) is accepted", tok, at)
		case err == nil && (s == nil || s.Token() != tok || s.ID() != tok[:strings.IndexByte(tok, '.')]):
			x.fail("the session of %q is not the one the token names", tok)
		}
		if err != nil && s != nil {
			x.fail("a session is returned together with the error for %q", tok)
		}
		if want {
			x.outcome("accepted")
		} else {
			x.outcome("refused " + errClass(err))
		}
		return !x.failed()
	}
	// every issued token is as the reference signs it
	ids := eids{}
	for _, t := range []string{at, rt, at2, rt2} {
		id, sid, sig, err := sessionid.Split(t)
		if err != nil || sig != stdSign(a.Method, id+"."+sid, key) || ids.learn(a.ID, id) != "" {
			x.fail("issued token %q is not the identity and session id with their signature", t)
			return
		}
		if !verdict(t) {
			return
		}
	}
	var foreign []string
	for _, om := range methodNames {
		for k := range tokKeys {
			if om == a.Method && bytes.Equal(tokKeys[k], key) {
				continue
			}
			t, r := issue(mk(om, tokKeys[k]), a.ID)
			foreign = append(foreign, t, r)
			// this token's content under the other key
			i := strings.LastIndexByte(at, '.')
			foreign = append(foreign, at[:i+1]+stdSign(om, at[:i], tokKeys[k]))
		}
	}
	x.state(fmt.Sprint(a))
	if a.Kind == "get" {
		mutants(at, []string{at2, rt, bt, foreign[0]}, chars, verdict)
		for _, t := range foreign {
			if x.failed() || !verdict(t) {
				return
			}
		}
		// a changed content that is signed anew is genuine
		p := strings.Split(at, ".")
		for _, text := range []string{p[0] + "." + p[1] + "x", p[0] + "." + p[1] + ".x", "x." + p[1], "." + p[1], p[0] + "."} {
			if x.failed() || !verdict(text+"."+stdSign(a.Method, text, key)) {
				return
			}
		}
		return
	}
	// refresh: an altered token on either side must not reach the store
	ref := func(ta, tr string) bool {
		n++
		x.trans++
		oka, _ := genuine(a.Method, ta, key)
		okr, _ := genuine(a.Method, tr, key)
		if oka && okr {
			return true
		}
		sp.calls = 0
		na, nr, err := m.Refresh(w.ctx, ta, tr)
		vs.Quiesce()
		if err == nil {
			x.fail("refresh with %q and %q (one of them altered; issued %q and %q) succeeds: %q %q", ta, tr, at, rt, na, nr)
		}
		if sp.calls != 0 {
			x.fail("refresh with the altered %q or %q reached the store", ta, tr)
		}
		x.outcome("refresh refused " + errClass(err))
		return !x.failed()
	}
	if a.Len == 0 {
		chars = "Az0-_.=\n"
	}
	mutants(at, []string{at2, rt, bt}, chars, func(s string) bool { return ref(s, rt) })
	mutants(rt, []string{rt2, at, br}, chars, func(s string) bool { return x.failed() || ref(at, s) })
	for _, t := range foreign {
		if x.failed() {
			return
		}
		_ = ref(t, rt) && ref(at, t) && ref(t, t)
	}
	if x.failed() {
		return
	}
	// the pair is still good, and its successor is, too
	if _, _, err := m.Refresh(w.ctx, at, br); errClass(err) != eIDMismatch {
		x.fail("refresh across identities: %v", err)
	}
	na, nr, err := m.Refresh(w.ctx, at, rt)
	if err != nil {
		x.fail("the genuine pair is refused: %v", err)
		return
	}
	for _, t := range []string{na, nr} {
		if ok, re := genuine(a.Method, t, key); !ok || re {
			x.fail("refresh issued %q, which is not properly signed", t)
		}
	}
	if _, _, err = m.Refresh(w.ctx, na, nr); err != nil {
		x.fail("the refreshed pair is refused: %v", err)
	}
}

// encBody: the stand-alone functions.
func encBody(a *TokArgs, x *Exec) {
	key := tokKeys[a.Key]
	m := methodOf(a.Method)
	ids := append(words([]string{"a", ".", "é", "\x00"}, 3), "user@example.com", "")
	sids := append(words([]string{"s", "-", "="}, 2), "", "c2Vzc2lvbg==")
	for i, id := range ids {
		for k, sid := range sids {
			x.trans++
			tok, err := cryptoer.Encode(m, key, id, sid)
			if err != nil {
				x.fail("Encode(%q,%q): %v", id, sid, err)
				return
			}
			if want := id + "." + sid + "." + stdSign(a.Method, id+"."+sid, key); tok != want {
				x.fail("Encode(%q,%q) is %q, expected %q", id, sid, tok, want)
				return
			}
			did, dsid, err := cryptoer.Decode(m, key, tok)
			if err != nil || did != id || dsid != sid {
				x.fail("Decode(Encode(%q,%q)) is %q,%q,%v", id, sid, did, dsid, err)
				return
			}
			if (i+k)%7 != 0 && len(id) > 1 {
				continue
			}
			other, _ := cryptoer.Encode(m, key, id+"b", sid+"t")
			mutants(tok, []string{other}, tokChars, func(s string) bool {
				x.trans++
				j := strings.LastIndexByte(s, '.')
				ok, re := false, false
				if j >= 1 && strings.IndexByte(s[:j], '.') >= 0 {
					ok, re = genuine(a.Method, s, key)
				}
				did, dsid, err := cryptoer.Decode(m, key, s)
				switch {
				case !ok && err == nil:
					x.fail("Decode accepts %q, an alteration of %q", s, tok)
				case ok && !re && err != nil:
					x.fail("Decode refuses the properly signed %q: %v", s, err)
				case err == nil && did+"."+dsid != s[:j]:
					x.fail("Decode(%q) is %q,%q", s, did, dsid)
				}
				if err != nil {
					x.outcome("refused " + err.Error())
					if did != "" || dsid != "" {
						x.fail("Decode(%q) returns %q,%q together with an error", s, did, dsid)
					}
				} else {
					x.outcome("accepted")
				}
				return !x.failed()
			})
			if x.failed() {
				return
			}
			for ok := range tokKeys {
				for _, om := range methodNames {
					if om == a.Method && bytes.Equal(tokKeys[ok], key) {
						continue
					}
					if _, _, err := cryptoer.Decode(methodOf(om), tokKeys[ok], tok); err == nil {
						x.fail("Decode under %s key%d accepts a token of %s key%d", om, ok, a.Method, a.Key)
						return
					}
				}
			}
		}
		x.state(fmt.Sprint(a, id))
	}
}

// ---- C16 ----

type MethodArgs struct {
	Method string
	Prog   string
	Ops    int
	Depth  int
}

func init() {
	suites["method"] = func(raw json.RawMessage) func(*Exec) {
		var a MethodArgs
		decode(raw, &a)
		return func(x *Exec) { methodBody(&a, x) }
	}
	suites["related"] = func(raw json.RawMessage) func(*Exec) {
		var a MethodArgs
		decode(raw, &a)
		return func(x *Exec) { relatedBody(&a, x) }
	}
	suites["registry"] = func(raw json.RawMessage) func(*Exec) {
		var a MethodArgs
		decode(raw, &a)
		return func(x *Exec) { registryBody(&a, x) }
	}
	suites["registry-conc"] = func(raw json.RawMessage) func(*Exec) {
		var a RegArgs
		decode(raw, &a)
		return func(x *Exec) { registryConc(&a, x) }
	}
	suites["alone"] = func(raw json.RawMessage) func(*Exec) {
		var a MethodArgs
		decode(raw, &a)
		return func(x *Exec) { aloneBody(&a, x) }
	}
	register(&Prop{ID: "C16",
		Bounds: "every method with every key length 0..140, every text length 0..140, every single-bit flip, truncation and extension of signatures, keys of other types; every history of registrations and lookups up to the depth over near-equal names; every schedule of registrations, lookups and signing with different keys; every ordered pair of methods used one after the other in a fresh program with keys or texts of up to 140 bytes that differ in one byte, or in a reused buffer; separate small programs that link nothing but the package",
		Jobs: func(th bool) []Job {
			var out []Job
			for _, m := range methodNames {
				out = append(out, job("method", "method "+m, 0, MethodArgs{Method: m}))
				for _, m2 := range methodNames {
					out = append(out, job("related", "method "+m+" and then "+m2+" with related keys and texts", 0, MethodArgs{Method: m, Prog: m2}))
				}
			}
			for _, p := range []string{"alone-cryptoer", "alone-root"} {
				out = append(out, job("alone", "program "+p, 0, MethodArgs{Prog: p}))
			}
			for d := 1; d <= pick(th, 4, 5); d++ {
				out = append(out, job("registry", fmt.Sprintf("registry histories depth=%d", d), 0, MethodArgs{Depth: d}))
			}
			b := pick(th, 3, 4)
			for _, p := range regPrograms(th) {
				out = append(out, job("registry-conc", "registry "+fmt.Sprint(p), b, RegArgs{p}))
				j := job("registry-conc", "race registry "+fmt.Sprint(p), 1, RegArgs{p})
				j.Race = true
				out = append(out, j)
			}
			return out
		}})
}

func methodBody(a *MethodArgs, x *Exec) {
	m := methodOf(a.Method)
	if m.Alg() != a.Method {
		x.fail("the method for %s calls itself %q", a.Method, m.Alg())
	}
	if g := cryptoer.GetSigningMethod(a.Method); g != m {
		x.fail("looking up %q gives %v", a.Method, g)
		return
	}
	text := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + n)
		}
		return string(b)
	}
	// the same text and key again and again: no state is kept
	for kl := 0; kl <= 140; kl++ {
		key := []byte(text(kl))
		for _, tl := range []int{0, 1, 20, 63, 64, 65, 111, 112, 128, 140} {
			if kl%16 > 1 && kl%16 < 15 && tl > 20 {
				continue
			}
			x.trans++
			t := text(tl)
			sig, err := m.Sign(t, key)
			if err != nil || sig != stdSign(a.Method, t, key) {
				x.fail("%s: signing %d bytes with a key of %d bytes gives %q, %v", a.Method, tl, kl, sig, err)
				return
			}
			if err := m.Verify(t, sig, key); err != nil {
				x.fail("%s: verifying %d bytes with a key of %d bytes: %v", a.Method, tl, kl, err)
				return
			}
			if string(key) != text(kl) {
				x.fail("%s: the key was changed", a.Method)
				return
			}
		}
		x.state(fmt.Sprint(a.Method, kl))
	}
	for tl := 0; tl <= 140; tl++ {
		x.trans++
		t, key := text(tl), []byte("a key")
		sig, err := m.Sign(t, key)
		if err != nil || sig != stdSign(a.Method, t, key) || m.Verify(t, sig, key) != nil {
			x.fail("%s: signing %d bytes: %q, %v", a.Method, tl, sig, err)
			return
		}
	}
	key, t := []byte("the key"), "the text"
	mac := stdMAC(a.Method, t, key)
	b64 := base64.RawURLEncoding.EncodeToString
	bad := func(what, text, sig string, key interface{}) {
		x.trans++
		if err := m.Verify(text, sig, key); err == nil {
			x.fail("%s: verification accepts %s", a.Method, what)
		} else {
			x.outcome(what + ": " + err.Error())
		}
	}
	for i := 0; i < len(mac)*8; i++ {
		c := append([]byte{}, mac...)
		c[i/8] ^= 1 << uint(i%8)
		bad("a flipped bit of the signature", t, b64(c), key)
	}
	for i := 0; i < len(mac); i++ {
		bad("a truncated signature", t, b64(mac[:i]), key)
		bad("the end of a signature", t, b64(mac[i+1:]), key)
	}
	bad("an extended signature", t, b64(append(append([]byte{}, mac...), 0)), key)
	bad("a doubled signature", t, b64(append(append([]byte{}, mac...), mac...)), key)
	bad("an undecodable signature", t, b64(mac)+"*", key)
	bad("a padded signature", t, b64(mac)+"=", key)
	bad("an empty signature", t, "", key)
	for _, o := range methodNames {
		if o != a.Method {
			bad("the signature of "+o, t, stdSign(o, t, key), key)
		}
	}
	for i := 0; i <= len(t); i++ {
		bad("another text", t[:i]+"x"+t[i:], b64(mac), key)
	}
	for i := 0; i < len(key)*8; i++ {
		c := append([]byte{}, key...)
		c[i/8] ^= 1 << uint(i%8)
		bad("a flipped bit of the key", t, b64(mac), c)
	}
	type other []byte
	for _, k := range []interface{}{nil, "the key", 7, [7]byte{}, &key, other(key), []rune("the key"), struct{}{}} {
		bad(fmt.Sprintf("a key of type %T", k), t, b64(mac), k)
		if s, err := m.Sign(t, k); err == nil || s != "" {
			x.fail("%s: signing with a key of type %T gives %q, %v", a.Method, k, s, err)
		}
	}
	for _, k := range [][]byte{nil, {}} {
		if s, err := m.Sign(t, k); err != nil || s != stdSign(a.Method, t, nil) {
			x.fail("%s: signing with an empty key gives %q, %v", a.Method, s, err)
		}
	}
}

// relatedBody: in a fresh program, one use of a method and then one of a method
// with a key or a text that differs in a single place only.
func relatedBody(a *MethodArgs, x *Exec) {
	lens := []int{1, 2, 8, 16, 20, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 140}
	fill := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('!' + i%90)
		}
		return b
	}
	what := x.choose(4)
	n := lens[x.choose(len(lens))]
	k := x.choose(n + 2)
	one := fill(n)
	two := append([]byte{}, one...)
	switch {
	case k < n:
		two[k] ^= 1
	case k == n:
		two = two[:n-1]
	default:
		two = append(two, 'x')
	}
	m1, m2 := methodOf(a.Method), methodOf(a.Prog)
	k1, t1, k2, t2 := []byte("the key"), "the text", []byte("the key"), "the text"
	switch what {
	case 0: // keys
		k1, k2 = one, two
	case 1: // texts
		t1, t2 = string(one), string(two)
	case 2: // the same buffer holds the second key
		if len(two) > len(one) {
			one = append(one, 0)[:n]
		}
		k1 = one
	case 3: // key and text change places
		k1, t1, k2, t2 = one, string(two), two, string(one)
	}
	g1 := stdSign(a.Method, t1, k1)
	s1, err := m1.Sign(t1, k1)
	if err != nil || s1 != g1 {
		x.fail("%s: the signature of %q under %q is %q, %v", a.Method, t1, k1, s1, err)
		return
	}
	if err := m1.Verify(t1, s1, k1); err != nil {
		x.fail("%s: the signature of %q under %q is refused: %v", a.Method, t1, k1, err)
		return
	}
	old := append([]byte{}, k1...)
	if what == 2 {
		b := k1[:cap(k1)]
		k2 = b[:copy(b, two)]
	}
	check := func(name string, m cryptoer.SigningMethod, t string, k []byte) {
		if x.failed() {
			return
		}
		x.trans++
		good := stdSign(name, t, k)
		if s, err := m.Sign(t, k); err != nil || s != good {
			x.fail("after %s with %q under %q: %s signs %q under %q as %q, %v", a.Method, t1, old, name, t, k, s, err)
		}
		if err := m.Verify(t, good, k); err != nil {
			x.fail("after %s with %q under %q: %s refuses the signature of %q under %q: %v", a.Method, t1, old, name, t, k, err)
		}
		if err := m.Verify(t, g1, k); (err == nil) != (g1 == good) {
			x.fail("after %s with %q under %q: %s verifying that signature for %q under %q: %v", a.Method, t1, old, name, t, k, err)
		}
	}
	check(a.Prog, m2, t2, k2)
	check(a.Prog, m2, t2, k2)
	check(a.Method, m1, t1, old)
	check(a.Prog, m2, t1, old)
	check(a.Method, m1, t2, k2)
	x.state(fmt.Sprint(a.Method, a.Prog, what, n, k))
	x.outcome("ok")
}

// custom is a signing method of the harness.
type custom struct{ name string }

func (c *custom) Verify(text, sig string, key interface{}) error { return nil }
func (c *custom) Sign(text string, key interface{}) (string, error) {
	return c.name, nil
}
func (c *custom) Alg() string { return c.name }

var regNames = []string{"HS256", "hs256", "HS", "HS2567", "", "HS256 ", "X", "HMD5"}

func regModel() map[string]cryptoer.SigningMethod {
	out := map[string]cryptoer.SigningMethod{}
	for _, n := range regNames {
		out[n] = nil
	}
	for _, n := range methodNames {
		out[n] = methodOf(n)
	}
	return out
}

func registryBody(a *MethodArgs, x *Exec) {
	// nothing is registered yet under the custom names
	for _, n := range append(append([]string{}, regNames...), "hmd5", "Hs256", "HS384 ", "HS51", "MD5", "sha256", "none") {
		g := cryptoer.GetSigningMethod(n)
		builtin := false
		for _, m := range methodNames {
			builtin = builtin || m == n
		}
		if builtin && g != methodOf(n) || !builtin && g != nil {
			x.fail("looking up %q in a fresh program gives %v", n, g)
		}
	}
	want := regModel()
	for i := 0; i < a.Depth; i++ {
		n := regNames[x.choose(len(regNames))]
		c := &custom{fmt.Sprintf("%s/%d", n, i)}
		cryptoer.RegisterSigningMethod(n, func() cryptoer.SigningMethod { return c })
		want[n] = c
		x.logf("register %q", n)
		for k, w := range want {
			x.trans++
			if g := cryptoer.GetSigningMethod(k); g != w {
				x.fail("after %d registrations looking up %q gives %v, last registered was %v", i+1, k, g, w)
				return
			}
		}
		x.state(fmt.Sprint(want))
	}
	x.outcome("ok")
}

// RegArgs: threads of registry operations: "r:NAME" registers, "g:NAME" looks up.
type RegArgs struct{ Threads [][]string }

func regPrograms(th bool) [][][]string {
	ops := []string{"r:X", "g:X", "r:HS256", "g:HS256", "g:nope", "s:HS256", "s:HMD5"}
	var out [][][]string
	for i := range ops {
		for j := i; j < len(ops); j++ {
			out = append(out, [][]string{{ops[i]}, {ops[j]}})
			for k := range ops {
				out = append(out, [][]string{{ops[i], ops[k]}, {ops[j], "g:X"}})
				if k >= j {
					out = append(out, [][]string{{ops[i]}, {ops[j]}, {ops[k]}})
				}
			}
		}
	}
	return out
}

type regEvent struct {
	op, name  string
	val       cryptoer.SigningMethod
	call, ret int
}

func registryConc(a *RegArgs, x *Exec) {
	ev := make([]regEvent, 0, 32)
	vs.Explore(true)
	var hs []*vs.Handle
	for ti, ops := range a.Threads {
		ti, ops := ti, ops
		cs := make([]*custom, len(ops))
		text, key := make([]string, len(ops)), make([][]byte, len(ops))
		good := make([]string, len(ops))
		for oi := range ops {
			text[oi], key[oi] = strings.Repeat(string(rune('a'+ti)), 100), []byte(fmt.Sprintf("a key that is long enough to be cut, %d.%d", ti, oi))
			if ops[oi][:2] == "s:" {
				good[oi] = stdSign(ops[oi][2:], text[oi], key[oi])
			}
			// made beforehand: formatting would order the threads
			cs[oi] = &custom{fmt.Sprintf("%s/%d.%d", ops[oi][2:], ti, oi)}
		}
		hs = append(hs, vs.Spawn(fmt.Sprintf("t%d", ti), func() {
			for oi, o := range ops {
				e := regEvent{op: o[:1], name: o[2:], call: vs.Stamp()}
				switch e.op {
				case "r":
					c := cs[oi]
					e.val = c
					cryptoer.RegisterSigningMethod(e.name, func() cryptoer.SigningMethod { return c })
				case "g":
					e.val = cryptoer.GetSigningMethod(e.name)
				case "s":
					m := methodOf(e.name)
					sig, err := m.Sign(text[oi], key[oi])
					if err != nil || sig != good[oi] {
						x.fails = append(x.fails, "a signature made while others are made is wrong")
					}
					if err = m.Verify(text[oi], good[oi], key[oi]); err != nil {
						x.fails = append(x.fails, "a signature verified while others are made is refused")
					}
				}
				e.ret = vs.Stamp()
				ev = append(ev, e)
			}
		}))
	}
	vs.Join(hs...)
	vs.Explore(false)
	for _, n := range []string{"X", "HS256", "nope"} {
		ev = append(ev, regEvent{"g", n, cryptoer.GetSigningMethod(n), vs.Stamp(), vs.Stamp()})
	}
	x.trans += int64(len(ev))
	for _, e := range ev {
		x.logf("%s:%s %v [%d,%d]", e.op, e.name, e.val, e.call, e.ret)
	}
	// a lookup gives the value of a registration that is not overwritten before it and does not start after it
	initial := regModel()
	for _, g := range ev {
		if g.op != "g" {
			continue
		}
		ok := false
		cands := append([]regEvent{{op: "r", name: g.name, val: initial[g.name], call: -2, ret: -1}}, ev...)
		for _, r := range cands {
			if r.op != "r" || r.name != g.name || r.val != g.val || r.call > g.ret {
				continue
			}
			over := false
			for _, r2 := range ev {
				if r2.op == "r" && r2.name == g.name && r2.call > r.ret && r2.ret < g.call {
					over = true
				}
			}
			ok = ok || !over
		}
		if !ok {
			x.fail("looking up %q gives %v, which was not the last registered then", g.name, g.val)
		}
		x.outcome(fmt.Sprintf("%s %v", g.name, g.val != initial[g.name]))
	}
	x.state(fmt.Sprint(a.Threads, x.trace))
}

// aloneBody runs a separate program that links only the package under test.
func aloneBody(a *MethodArgs, x *Exec) {
	bin := filepath.Join(os.Getenv("MCVERIF_BIN"), a.Prog)
	out, err := exec.Command(bin).CombinedOutput()
	x.trans++
	x.logf("%s", strings.TrimSpace(string(out)))
	if err != nil {
		x.fail("%s: %v: %s", a.Prog, err, strings.TrimSpace(string(out)))
	}
	x.state(string(out))
	x.outcome(a.Prog)
}
