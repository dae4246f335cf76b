package main

import (
	"bytes"
	"context"
	"encoding/gob"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/powerpuffpenguin/sessionid"

	"mcverif/vs"
)

// handle: one or two session handles over one session, against a model of what
// a handle may answer.

// faulty wraps a provider: the next call fails before or after taking effect.
type faulty struct {
	sessionid.Provider
	fail  int // 0 no, 1 before, 2 after
	calls int
	short bool // Get answers with too few values
}

var errInjected = errors.New("injected failure")

func (f *faulty) do(fn func() error) error {
	f.calls++
	m := f.fail
	f.fail = 0
	switch m {
	case 1:
		return errInjected
	case 2:
		if e := fn(); e != nil {
			return e
		}
		return errInjected
	}
	return fn()
}
func (f *faulty) Create(ctx context.Context, a, r string, p []sessionid.PairBytes) error {
	return f.do(func() error { return f.Provider.Create(ctx, a, r, p) })
}
func (f *faulty) Put(ctx context.Context, t string, p []sessionid.PairBytes) error {
	return f.do(func() error { return f.Provider.Put(ctx, t, p) })
}
func (f *faulty) Delete(ctx context.Context, t string, k []string) error {
	return f.do(func() error { return f.Provider.Delete(ctx, t, k) })
}
func (f *faulty) Get(ctx context.Context, t string, k []string) (v []sessionid.Value, e error) {
	e = f.do(func() (e error) { v, e = f.Provider.Get(ctx, t, k); return })
	if e != nil {
		v = nil
	} else if f.short && len(v) > 0 {
		v = v[:len(v)-1]
	}
	f.short = false
	return
}

// hrec is the structure stored in the value alphabet.
type hrec struct {
	A int
	B []string
	M map[string]int `xml:"-"`
}

// the value alphabet
var hvals = []interface{}{7, "text", []int{1, 2, 3}, map[string]int{"x": 1, "y": 2}, hrec{A: 3, B: []string{"p", "q"}, M: map[string]int{"m": 4}}, []byte("bytes"), true, int64(-1), []string{"s"}, 2.5}
var hvalNames = []string{"int", "string", "[]int", "map", "struct", "[]byte", "bool", "int64", "[]string", "float"}

// targets to decode into: fresh and pre-populated ones
var htargets = []func() interface{}{
	func() interface{} { return new(int) },
	func() interface{} { return new(string) },
	func() interface{} { return new([]int) },
	func() interface{} { return new(map[string]int) },
	func() interface{} { return new(hrec) },
	func() interface{} { return new([]byte) },
	func() interface{} { return new(bool) },
	func() interface{} { return new(interface{}) },
	func() interface{} { v := 99; return &v },
	func() interface{} { v := []int{9, 9, 9, 9}; return &v },
	func() interface{} { v := map[string]int{"z": 9}; return &v },
	func() interface{} { return &hrec{A: 9, B: []string{"z"}} },
	func() interface{} { return new(float64) },
	func() interface{} { return new(int64) },
	func() interface{} { return new(uint8) },
}

// stdDecode is the reference decoder: the standard library's.
func stdDecode(coder string, b []byte, p interface{}) error {
	switch coder {
	case "json":
		return json.Unmarshal(b, p)
	case "xml":
		return xml.Unmarshal(b, p)
	}
	return gob.NewDecoder(bytes.NewReader(b)).Decode(p)
}

func stdEncode(coder string, v interface{}) (b []byte, e error) {
	defer func() {
		if r := recover(); r != nil {
			e = fmt.Errorf("panic: %v", r)
		}
	}()
	switch coder {
	case "json":
		return json.Marshal(v)
	case "xml":
		return xml.Marshal(v)
	}
	var buf bytes.Buffer
	e = gob.NewEncoder(&buf).Encode(v)
	return buf.Bytes(), e
}

// HOp is one operation on a handle or beside it.
type HOp struct {
	K    string // put get prep del keys fail1 fail2 short raw-put raw-del destroy tick mut
	H    int    `json:",omitempty"` // handle
	Key  string `json:",omitempty"`
	Key2 string `json:",omitempty"`
	V    int    `json:",omitempty"` // value number / target number
	V2   int    `json:",omitempty"`
	D    int64  `json:",omitempty"`
	Many int    `json:",omitempty"` // so many further keys m0, m1, ...
	Odd  int    `json:",omitempty"` // the stored bytes are not quite an encoding
	Cut  int    `json:",omitempty"` // the caller's context ends when it is looked at for the Cut-th time
}

// keys are the keys the operation names.
func (o HOp) keys() []string {
	ks := []string{o.Key}
	if o.Key2 != "" {
		ks = append(ks, o.Key2)
	}
	for i := 0; i < o.Many; i++ {
		ks = append(ks, fmt.Sprint("m", i))
	}
	return ks
}

func (o HOp) String() string {
	if o.Cut != 0 {
		n := o.Cut
		o.Cut = 0
		return fmt.Sprintf("(cancelled at look %d) %s", n, o)
	}
	switch o.K {
	case "tick":
		return "tick " + time.Duration(o.D).String()
	case "put":
		if o.V >= len(hvals) {
			return fmt.Sprintf("h%d.put(%s=unencodable)", o.H, o.Key)
		}
		s := fmt.Sprintf("h%d.put(%s=%s", o.H, o.Key, hvalNames[o.V])
		if o.Key2 != "" {
			if o.V2 >= len(hvals) {
				s += "," + o.Key2 + "=unencodable"
			} else {
				s += fmt.Sprintf(",%s=%s", o.Key2, hvalNames[o.V2])
			}
		}
		if o.Many > 0 {
			s += fmt.Sprintf(" and %d more", o.Many)
		}
		return s + ")"
	case "get":
		return fmt.Sprintf("h%d.get(%s,%T#%d)", o.H, o.Key, htargets[o.V](), o.V)
	}
	if o.Many > 0 {
		return fmt.Sprintf("h%d.%s(%s %s and %d more)", o.H, o.K, o.Key, o.Key2, o.Many)
	}
	if o.K == "raw-put" {
		return fmt.Sprintf("h%d.%s(%s=%s %s)", o.H, o.K, o.Key, hvalNames[o.V], oddNames[o.Odd])
	}
	return fmt.Sprintf("h%d.%s(%s %s)", o.H, o.K, o.Key, o.Key2)
}

type HArgs struct {
	Cfg   Config
	Coder string
	Setup []HOp
	Ops   []HOp
	Depth int
	First int
}

// hmodel is what a handle may answer for one key.
type hent struct {
	exists bool
	b      []byte
	wrote  bool  // the handle wrote it: the store's value is no longer acceptable
	also   *hent // another value it may have seen
}

type hrun struct {
	x      *Exec
	w      *World
	f      *faulty
	coder  string
	tok    string
	h      []*sessionid.Session
	known  []map[string]hent
	store  map[string][]byte
	alive  string // error class of the session's status
	n      int
	probes []string
}

func init() {
	suites["handle"] = func(raw json.RawMessage) func(*Exec) {
		var a HArgs
		decode(raw, &a)
		return func(x *Exec) { handleBody(&a, x) }
	}
	register(&Prop{ID: "C15",
		Bounds: "every sequence up to the depth (5, thorough 6, on the operations of the cache; 3 on all; 2 on up to 1100 keys at once) of writes, reads into matching, other and pre-filled types, preparations, deletions, misuse, injected failures (before and after taking effect) and changes by another handle, stored bytes that are not quite an encoding (14 shapes), for each coder and provider; every answer is compared with the reference decoder applied to the bytes the handle may know",
		Jobs:   func(th bool) []Job { return handleJobs("C15", th) }})
}

// unencodable values for each coder
func unencodable(coder string) interface{} {
	switch coder {
	case "xml":
		return map[string]int{"a": 1}
	case "json":
		return make(chan int)
	}
	return make(chan int)
}

func (r *hrun) value(n int) interface{} {
	if n >= len(hvals) {
		return unencodable(r.coder)
	}
	return hvals[n]
}

func (r *hrun) bytes(n int) ([]byte, error) { return stdEncode(r.coder, r.value(n)) }

// oddNames are the ways in which stored bytes can fail to be an encoding.
var oddNames = []string{"", "with a brace after it", "twice", "with bytes after it", "without its last byte", "without its first byte", "empty", "between blanks", "in another coder's encoding", "null", "first half", "with a zero byte after it", "of another value and then this", "with its last bit flipped"}

// odd gives the bytes to be stored beside the handle.
func (r *hrun) odd(o HOp) []byte {
	b, _ := r.bytes(o.V)
	b = append([]byte{}, b...)
	n := len(b)
	switch oddNames[o.Odd] {
	case "with a brace after it":
		return append(b, '}')
	case "twice":
		return append(b, b...)
	case "with bytes after it":
		return append(b, " and more"...)
	case "without its last byte":
		return b[:n-1]
	case "without its first byte":
		return b[1:]
	case "empty":
		return b[:0]
	case "between blanks":
		return append(append([]byte(" \n\t"), b...), " \r\n"...)
	case "in another coder's encoding":
		c := "json"
		if r.coder == "json" {
			c = "gob"
		}
		b, _ = stdEncode(c, r.value(o.V))
		return b
	case "null":
		return []byte("null")
	case "first half":
		return b[:n/2]
	case "with a zero byte after it":
		return append(b, 0)
	case "of another value and then this":
		v, _ := r.bytes((o.V + 1) % 3)
		return append(append([]byte{}, v...), b...)
	case "with its last bit flipped":
		b[n-1] ^= 1
	}
	return b
}

func handleBody(a *HArgs, x *Exec) {
	w := newWorld(a.Cfg)
	defer w.Done()
	r := &hrun{x: x, w: w, coder: a.Coder, f: &faulty{Provider: w.p[0]}, store: map[string][]byte{}, tok: "a.1.sig", probes: []string{"k", "k2", "init"}}
	many := 0
	for _, o := range a.Ops {
		if o.Many > many {
			many = o.Many
		}
	}
	for i := 0; i < many; i++ {
		r.probes = append(r.probes, fmt.Sprint("m", i))
	}
	kv := []sessionid.PairBytes{}
	for k, v := range map[string]int{"init": 1} {
		b, _ := r.bytes(v)
		r.store[k] = b
		kv = append(kv, sessionid.PairBytes{Key: k, Value: append([]byte{}, b...)})
	}
	if e := w.p[0].Create(w.ctx, r.tok, "a.r.sig", kv); e != nil {
		x.fail("create: %v", e)
		return
	}
	for i := 0; i < 2; i++ {
		h, e := sessionid.NewSession(r.tok, r.f, coderOf(a.Coder))
		if e != nil {
			x.fail("NewSession: %v", e)
			return
		}
		r.h = append(r.h, h)
		r.known = append(r.known, map[string]hent{})
	}
	for _, o := range a.Setup {
		if !r.step(o) {
			return
		}
	}
	for i := 0; i < a.Depth; i++ {
		k := a.First
		if i > 0 || k < 0 {
			k = x.choose(len(a.Ops))
		}
		if !r.step(a.Ops[k]) {
			return
		}
	}
	// the whole state, through the handles and directly
	x.state(fmt.Sprint(a.Cfg, a.Coder, r.store, r.known, r.alive))
	for _, k := range r.probes {
		for h := range r.h {
			for _, t := range []int{0, 1, 2, 4} {
				if !r.step(HOp{K: "get", H: h, Key: k, V: t}) {
					return
				}
			}
		}
	}
	r.direct()
}

// direct compares the store itself.
func (r *hrun) direct() {
	if r.alive != "" {
		return
	}
	ks := r.probes
	v, e := r.w.p[0].Get(r.w.ctx, r.tok, ks)
	if e != nil {
		r.x.fail("after %d steps: reading the store directly: %v", r.n, e)
		return
	}
	for i, k := range ks {
		b, ok := r.store[k]
		if ok != v[i].Exists || ok && !r.same(b, v[i].Bytes) {
			r.x.fail("after %d steps: the store holds %q (present %v) for %q, expected %q (present %v)", r.n, v[i].Bytes, v[i].Exists, k, b, ok)
			return
		}
	}
	got, e := r.h[0].Keys(r.w.ctx)
	var want []string
	for k := range r.store {
		want = append(want, k)
	}
	if e != nil || fmt.Sprint(sorted(got)) != fmt.Sprint(sorted(want)) {
		r.x.fail("after %d steps: keys are %q (%v), expected %q", r.n, got, e, want)
	}
}

// same compares encodings (the order of map entries is not fixed in gob).
func (r *hrun) same(a, b []byte) bool {
	return bytes.Equal(a, b) || r.coder == "gob" && len(a) == len(b)
}

func (r *hrun) bad(o HOp, format string, a ...interface{}) bool {
	r.x.fail("step %d: %s: %s", r.n, o, fmt.Sprintf(format, a...))
	return false
}

// accept checks a result against the acceptable ones.
func (r *hrun) accept(o HOp, got string, want []string) bool {
	vs.Quiesce()
	r.x.trans++
	r.x.logf("%s -> %s", o, got)
	if len(got) > 60 {
		r.x.outcome(o.K + " value")
	} else {
		r.x.outcome(o.K + " " + got)
	}
	for _, x := range want {
		if got == x || x == eOther && strings.HasPrefix(got, eOther) {
			return true
		}
	}
	return r.bad(o, "answered [%s], acceptable: %q", got, want)
}

const injected = "error:injected failure"

// cut: the operation was refused because the caller's context had ended.
func (r *hrun) cut(o HOp, err error) bool {
	if o.Cut == 0 || !strings.HasPrefix(errClass(err), eOther) {
		return false
	}
	vs.Quiesce()
	r.x.trans++
	r.x.logf("%s -> %v", o, err)
	r.x.outcome(o.K + " cancelled")
	return true
}

func (r *hrun) step(o HOp) bool {
	r.n++
	ctx, end := r.w.opCtx(o.Cut)
	defer end()
	h := r.h[o.H]
	known := r.known[o.H]
	fault := r.f.fail
	switch o.K {
	case "fail1", "fail2":
		r.f.fail = int(o.K[4] - '0')
		r.x.logf("next provider call fails (%s)", o.K)
		return true
	case "short":
		r.f.short = true
		return true
	case "tick":
		vs.AdvanceQuiet(time.Duration(o.D))
		now := time.Duration(vs.NowNS())
		if now >= r.w.c.Refresh {
			r.alive = eNotExists
		} else if now >= r.w.c.Access && r.alive == "" {
			r.alive = eExpired
		}
		r.x.logf("%s", o)
		return true
	case "raw-put":
		b := r.odd(o)
		e := r.w.p[0].Put(ctx, r.tok, []sessionid.PairBytes{{Key: o.Key, Value: append([]byte{}, b...)}})
		if errClass(e) != r.alive {
			return r.bad(o, "writing beside the handle: %v", e)
		}
		if e == nil {
			r.store[o.Key] = b
		}
		r.x.logf("%s", o)
		return true
	case "raw-del":
		e := r.w.p[0].Delete(ctx, r.tok, []string{o.Key})
		if errClass(e) != r.alive {
			return r.bad(o, "deleting beside the handle: %v", e)
		}
		if e == nil {
			delete(r.store, o.Key)
		}
		r.x.logf("%s", o)
		return true
	case "destroy":
		r.f.fail = 0
		e := h.Destroy(ctx)
		r.f.fail = fault
		if r.cut(o, e) {
			return true
		}
		if e != nil {
			return r.bad(o, "%v", e)
		}
		r.alive = eNotExists
		r.x.logf("%s", o)
		return true
	case "put":
		var pairs []sessionid.Pair
		var keys []string
		var enc [][]byte
		refused := false
		add := func(k string, v int) {
			pairs = append(pairs, sessionid.Pair{Key: k, Value: r.value(v)})
			keys = append(keys, k)
			b, e := r.bytes(v)
			enc = append(enc, b)
			refused = refused || e != nil
		}
		add(o.Key, o.V)
		if o.Key2 != "" {
			add(o.Key2, o.V2)
		}
		for i := 0; i < o.Many; i++ {
			add(fmt.Sprint("m", i), (o.V+i)%3)
		}
		calls := r.f.calls
		e := h.Put(ctx, pairs...)
		if r.cut(o, e) {
			for _, k := range keys {
				r.soften(known, k)
			}
			return true
		}
		want := r.alive
		if refused {
			want = eOther
			if r.f.calls != calls {
				return r.bad(o, "an unencodable value reached the store")
			}
		} else if fault == 1 || fault == 2 && r.alive == "" {
			want = injected
		}
		if !r.accept(o, errClass(e), []string{want}) {
			return false
		}
		if !refused && (e == nil || fault == 2 && r.alive == "") {
			for i, k := range keys {
				r.store[k] = enc[i]
			}
		}
		if e == nil {
			for i, k := range keys {
				known[k] = hent{exists: true, b: enc[i], wrote: true}
			}
		} else if fault == 2 {
			for _, k := range keys {
				r.soften(known, k)
			}
		}
		return true
	case "del":
		keys := o.keys()
		e := h.Delete(ctx, r.tok, keys...)
		if r.cut(o, e) {
			for _, k := range keys {
				r.soften(known, k)
			}
			return true
		}
		want := r.alive
		if fault == 1 || fault == 2 && r.alive == "" {
			want = injected
		}
		if !r.accept(o, errClass(e), []string{want}) {
			return false
		}
		for _, k := range keys {
			if e == nil || fault == 2 && r.alive == "" {
				delete(r.store, k)
			}
			if e == nil {
				known[k] = hent{} // another handle may write it again
			} else {
				r.soften(known, k)
			}
		}
		return true
	case "prep":
		keys := o.keys()
		short := r.f.short
		calls := r.f.calls
		e := h.Prepare(ctx, keys...)
		r.f.short = false
		if r.cut(o, e) {
			return true
		}
		want := []string{""}
		if r.f.calls != calls {
			want = []string{r.alive}
			if fault == 1 || fault == 2 && r.alive == "" {
				want = []string{injected}
			} else if short && r.alive == "" {
				want = []string{eProvNoMatch}
			}
		} else {
			for _, k := range keys {
				if _, ok := known[k]; !ok {
					return r.bad(o, "returned without asking the store about %q", k)
				}
			}
		}
		if !r.accept(o, errClass(e), want) {
			return false
		}
		if e == nil {
			for _, k := range keys {
				if c, ok := known[k]; !ok || !c.wrote && r.alive == "" {
					b, ex := r.store[k]
					n := hent{exists: ex, b: b}
					if ok {
						n.also = &c
					}
					known[k] = n
				}
			}
		}
		return true
	case "get":
		return r.get(o, h, known, fault)
	case "misuse":
		var p *int
		pp := &p
		var want string
		var e error
		switch o.V {
		case 0:
			e, want = h.Get(ctx, o.Key, 5), eNotPointer
		case 1:
			e, want = h.Get(ctx, o.Key, pp), ePtrToPtr
		case 2:
			e, want = h.Get(ctx, o.Key, nil), eNotPointer
		case 3:
			e, want = h.Get(ctx, o.Key, []int{1}), eNotPointer
		}
		if r.f.fail != fault {
			return r.bad(o, "misuse reached the store")
		}
		return r.accept(o, errClass(e), []string{want})
	case "keys":
		got, e := h.Keys(ctx)
		if r.cut(o, e) {
			return true
		}
		if errClass(e) != r.alive {
			return r.bad(o, "keys: %v", e)
		}
		if e == nil {
			var want []string
			for k := range r.store {
				want = append(want, k)
			}
			if fmt.Sprint(sorted(got)) != fmt.Sprint(sorted(want)) {
				return r.bad(o, "keys are %q, expected %q", got, want)
			}
		}
		return true
	}
	panic("mcverif: unknown handle operation " + o.K)
}

// soften: the handle may have forgotten what it knew.
func (r *hrun) soften(known map[string]hent, k string) {
	if c, ok := known[k]; ok {
		c.wrote = false
		known[k] = c
	}
}

// render shows a decoded target.
func render(p interface{}, e error) string {
	if e != nil {
		return eOther
	}
	v := reflect.ValueOf(p).Elem()
	return fmt.Sprintf("=%#v", v.Interface())
}

func (r *hrun) get(o HOp, h *sessionid.Session, known map[string]hent, fault int) bool {
	ctx, end := r.w.opCtx(o.Cut)
	defer end()
	decoded := func(b []byte) string {
		p := htargets[o.V]()
		return render(p, stdDecode(r.coder, b, p))
	}
	var want []string
	c, ok := known[o.Key]
	for p := &c; ok && p != nil; p = p.also {
		if p.exists {
			want = append(want, decoded(p.b))
		} else {
			want = append(want, eKeyMissing)
		}
	}
	short := r.f.short
	calls := r.f.calls
	p := htargets[o.V]()
	e := h.Get(ctx, o.Key, p)
	asked := r.f.calls != calls
	r.f.short = false
	if r.cut(o, e) {
		return true
	}
	storeAns := ""
	b, ex := r.store[o.Key]
	switch {
	case fault == 1 || fault == 2 && r.alive == "":
		storeAns = injected
	case r.alive != "":
		storeAns = r.alive
	case short:
		storeAns = eOther
	case ex:
		storeAns = decoded(b)
	default:
		storeAns = eKeyMissing
	}
	if !ok || !c.wrote || asked && (r.alive != "" || fault != 0 || short) {
		if asked || !ok {
			want = append(want, storeAns)
		}
	}
	got := errClass(e)
	if e == nil {
		got = render(p, nil)
	}
	if !r.accept(o, got, want) {
		return false
	}
	if asked && r.alive == "" && fault == 0 && !short && (!ok || !c.wrote) {
		if e == nil {
			known[o.Key] = hent{exists: true, b: b}
		} else if errors.Is(e, sessionid.ErrKeyNotExists) {
			known[o.Key] = hent{}
		}
	}
	// the caller does with its value what it likes
	if e == nil {
		spoilValue(p)
	}
	return true
}

// spoilValue overwrites everything reachable from a decoded value.
func spoilValue(p interface{}) {
	switch v := p.(type) {
	case *[]int:
		for i := range *v {
			(*v)[i] = -77
		}
		*v = append((*v)[:0], -78, -79)
	case *map[string]int:
		if *v == nil {
			*v = map[string]int{}
		}
		for k := range *v {
			(*v)[k] = -77
		}
		(*v)["spoiled"] = 1
	case *hrec:
		for i := range v.B {
			v.B[i] = "spoiled"
		}
		for k := range v.M {
			v.M[k] = -77
		}
		v.A = -77
	case *[]byte:
		for i := range *v {
			(*v)[i] = '#'
		}
	}
}

func handleJobs(prop string, th bool) []Job {
	var out []Job
	seqs := func(name string, a HArgs, depth int) {
		for d := 1; d <= depth; d++ {
			if d == 1 {
				b := a
				b.Depth, b.First = 1, -1
				out = append(out, job("handle", fmt.Sprintf("%s [%s %s] depth=1", name, a.Cfg, a.Coder), 0, b))
				continue
			}
			for f := range a.Ops {
				b := a
				b.Depth, b.First = d, f
				out = append(out, job("handle", fmt.Sprintf("%s [%s %s] depth=%d first=%s", name, a.Cfg, a.Coder, d, a.Ops[f]), 0, b))
			}
		}
	}
	for _, c := range backends(2*u, 3*u) {
		for _, coder := range []string{"gob", "json", "xml"} {
			if prop != "C15" && (c.Backend == "redis" || coder == "xml" && !th) {
				continue
			}
			a := HArgs{Cfg: c, Coder: coder}
			switch prop {
			case "C15":
				a.Ops = []HOp{
					{K: "put", Key: "k", V: 0}, {K: "put", Key: "k", V: 1}, {K: "put", Key: "k", V: 2}, {K: "put", Key: "k", V: 4, Key2: "k2", V2: 3},
					{K: "get", Key: "k", V: 0}, {K: "get", Key: "k", V: 1}, {K: "get", Key: "k", V: 9}, {K: "get", Key: "k", V: 11}, {K: "get", Key: "k", V: 7},
					{K: "prep", Key: "k"}, {K: "prep", Key: "k", Key2: "k2"}, {K: "prep", Key: "k2", Key2: "k"},
					{K: "del", Key: "k"}, {K: "del", Key: "k2", Key2: "k"},
					{K: "raw-put", Key: "k", V: 1}, {K: "raw-put", Key: "k2", V: 0}, {K: "raw-del", Key: "k"},
					{K: "put", H: 1, Key: "k", V: 0}, {K: "del", H: 1, Key: "k"},
					{K: "fail1"}, {K: "fail2"}, {K: "short"}, {K: "tick", D: int64(2 * u)}, {K: "destroy"},
					{K: "put", Key: "k", V: 99}, {K: "put", Key: "k", V: 0, Key2: "k2", V2: 99}, {K: "put", Key: "k", V: 0, Key2: "k", V2: 1},
					{K: "misuse", Key: "k", V: 0}, {K: "misuse", Key: "k", V: 1}, {K: "misuse", Key: "k", V: 2}, {K: "keys"}, {K: "prep", Key: "k", Key2: "k"},
				}
				if coder != "gob" {
					// the cache does not depend on the coder
					a.Ops = append([]HOp{}, a.Ops...)
				}
				d := 3
				if c.Backend == "memory" && coder == "gob" && th {
					d = 4
				}
				if c.Backend != "memory" && !th {
					d = 2
				}
				seqs("handle", a, d)
				if c.Backend == "memory" {
					// the cache alone, in depth
					b := a
					b.Ops = []HOp{{K: "put", Key: "k", V: 0}, {K: "put", Key: "k", V: 1, Key2: "k2", V2: 0}, {K: "get", Key: "k", V: 0}, {K: "prep", Key: "k", Key2: "k2"}, {K: "del", Key: "k"}, {K: "raw-put", Key: "k", V: 1}, {K: "raw-del", Key: "k"}, {K: "fail1"}, {K: "fail2"}, {K: "put", H: 1, Key: "k", V: 0}}
					seqs("cache", b, pick(th, 5, 6))
				}
				// many keys at once
				for _, n := range []int{15, 40, 70, 140, 300, 1100} {
					b := a
					last := fmt.Sprint("m", n-1)
					b.Ops = []HOp{{K: "put", Key: "k", V: 1, Many: n}, {K: "put", Key: "m0", V: 4, Key2: last, V2: 4}, {K: "put", Key: "k2", V: 2}, {K: "get", Key: last, V: 2}, {K: "get", Key: "m1", V: 1}, {K: "prep", Key: "k", Many: n}, {K: "prep", Key: last, Many: n}, {K: "del", Key: "k", Many: n - 1}, {K: "del", Key: last, Key2: "m0"},
						{K: "put", H: 1, Key: "k", V: 0, Many: n}, {K: "raw-put", Key: last, V: 1}, {K: "raw-del", Key: "m0"}, {K: "fail1"}, {K: "fail2"}, {K: "short"}, {K: "keys"}}
					seqs(fmt.Sprintf("%d keys", n), b, pick(th && n < 100, 2, 3))
				}
				// every value into every type, in every order of two
				var ops []HOp
				for v := range hvals {
					ops = append(ops, HOp{K: "put", Key: "k", V: v})
				}
				for t := range htargets {
					ops = append(ops, HOp{K: "get", Key: "k", V: t})
				}
				ops = append(ops, HOp{K: "prep", Key: "k"}, HOp{K: "misuse", Key: "k", V: 3})
				if c.Backend == "memory" || th {
					b := a
					b.Ops = ops
					seqs("types", b, 3)
				}
				// stored bytes that are not quite an encoding
				if c.Backend == "memory" || c.Backend == "redis" && th {
					ops := []HOp{}
					for i := range oddNames {
						for _, v := range []int{0, 1, 4} {
							if v != 4 || c.Backend == "memory" {
								ops = append(ops, HOp{K: "raw-put", Key: "k", V: v, Odd: i})
							}
						}
					}
					b := a
					for _, t := range []int{0, 1, 4, 7, 8, 11} {
						ops = append(ops, HOp{K: "get", Key: "k", V: t})
					}
					b.Ops = append(ops, HOp{K: "prep", Key: "k"}, HOp{K: "put", Key: "k", V: 0})
					seqs("odd bytes", b, 3)
				}
			case "C08":
				a.Ops = []HOp{
					{K: "put", Key: "k", V: 2}, {K: "put", Key: "k", V: 5}, {K: "put", Key: "k", V: 3, Key2: "k2", V2: 4},
					{K: "get", Key: "k", V: 2}, {K: "get", Key: "k", V: 5}, {K: "get", Key: "k", V: 3}, {K: "get", Key: "k2", V: 4}, {K: "get", Key: "k2", V: 11}, {K: "get", H: 1, Key: "k", V: 2}, {K: "get", H: 1, Key: "k", V: 5},
					{K: "prep", Key: "k", Key2: "k2"}, {K: "raw-put", Key: "k", V: 2}, {K: "keys"},
				}
				seqs("handle buffers", a, pick(th, 3, 4))
			case "C22":
				a.Ops = []HOp{
					{K: "put", Key: "k", V: 0}, {K: "put", Key: "k", V: 99}, {K: "put", Key: "k", V: 1, Key2: "k2", V2: 99}, {K: "put", Key: "k2", V: 99, Key2: "k", V2: 1},
					{K: "get", Key: "k", V: 0}, {K: "misuse", Key: "k", V: 1}, {K: "prep", Key: "k"}, {K: "tick", D: int64(2 * u)}, {K: "del", Key: "k"}, {K: "destroy"}, {K: "put", Key: "init", V: 99}, {K: "raw-del", Key: "init"},
				}
				seqs("handle refused", a, pick(th, 3, 4))
				a.Ops = nil
				for _, o := range []HOp{{K: "put", Key: "k", V: 1}, {K: "put", Key: "init", V: 1, Key2: "k", V2: 0}, {K: "del", Key: "init"}, {K: "prep", Key: "k", Key2: "init"}, {K: "get", Key: "init", V: 0}, {K: "keys"}, {K: "destroy"}} {
					a.Ops = append(a.Ops, o)
					for o.Cut = 1; o.Cut <= 3; o.Cut++ {
						a.Ops = append(a.Ops, o)
					}
				}
				seqs("handle cancelled", a, 2)
			}
		}
	}
	return out
}
