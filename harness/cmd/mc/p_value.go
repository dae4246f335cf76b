package main

import (
	"bytes"
	"context"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"math"
	mbig "math/big"
	"reflect"
	"strings"
	"time"

	"github.com/powerpuffpenguin/sessionid"

	"mcverif/vs"
)

// Property C21: the way of a value through coder, store and back.

// vcase is one value and where it is decoded into.
type vcase struct {
	name   string
	v      interface{}
	target func() interface{}
	loose  bool // equal when printed equal
}

func tc[T any](name string, v T) vcase {
	return vcase{name: name, v: v, target: func() interface{} { return new(T) }}
}

// tp is a value given through a pointer.
func tp[T any](name string, v *T) vcase {
	return vcase{name: name, v: v, target: func() interface{} { return new(T) }}
}

func loose(c vcase) vcase { c.loose = true; return c }

type (
	vInner struct {
		N int
		S string
		F []float64
	}
	vNode struct {
		V    int
		Next *vNode
	}
	vOuter struct {
		vEmb
		I  vInner
		P  *vInner
		L  []vInner
		A  [3]bool
		B  []byte
		T  time.Time
		U8 uint8
	}
	vEmb struct{ E string }
	vMap struct {
		M map[string]vInner
		N map[int][]string
	}
	vTagged struct {
		XMLName xml.Name `xml:"tagged" json:"-"`
		ID      int      `xml:"id,attr" json:"id,omitempty"`
		Text    string   `xml:",chardata" json:"t"`
		Sub     []string `xml:"sub>x" json:"s,omitempty"`
	}
	vHidden struct {
		Shown  int
		hidden int
	}
	vNothing struct{ a int }
	vIface   struct{ V interface{} }
	vNamed   string
	vEnum    int8
	vFails   struct{ N int }
	vMarsh   struct{ A, B int }
	vFunc    struct {
		F func()
		N int
	}
)

var errVFails = errors.New("this value refuses")

func (vFails) MarshalJSON() ([]byte, error)                    { return nil, errVFails }
func (vFails) GobEncode() ([]byte, error)                      { return nil, errVFails }
func (vFails) MarshalXML(*xml.Encoder, xml.StartElement) error { return errVFails }
func (v vMarsh) MarshalText() ([]byte, error)                  { return []byte(fmt.Sprintf("%d/%d", v.A, v.B)), nil }
func (v *vMarsh) UnmarshalText(b []byte) error {
	_, e := fmt.Sscanf(string(b), "%d/%d", &v.A, &v.B)
	return e
}

var vcases = func() []vcase {
	seven := 7
	pseven := &seven
	var nilInt *int
	var nilIface interface{}
	var iface interface{} = nilInt
	t0 := time.Date(2020, 2, 29, 23, 59, 59, 999999999, time.UTC)
	long := strings.Repeat("long value ", 9000)
	bin := make([]byte, 70000)
	for i := range bin {
		bin[i] = byte(i * 7)
	}
	many := map[string]int{}
	for i := 0; i < 300; i++ {
		many[fmt.Sprintf("key %d", i)] = i
	}
	ints := make([]int, 5000)
	for i := range ints {
		ints[i] = i*i - 1000
	}
	var deep interface{} = "bottom"
	for i := 0; i < 40; i++ {
		deep = []interface{}{deep}
	}
	return []vcase{
		tc("0", 0), tc("1", 1), tc("-1", -1), tc("max int64", int64(math.MaxInt64)), tc("min int64", int64(math.MinInt64)), tc("max uint64", uint64(math.MaxUint64)),
		tc("int8", int8(-128)), tc("uint8", uint8(255)), tc("int32", int32(math.MinInt32)), tc("uint16", uint16(65535)), tc("uintptr", uintptr(9)),
		tc("0.0", 0.0), loose(tc("-0.0", math.Copysign(0, -1))), tc("tiny", math.SmallestNonzeroFloat64), tc("huge", math.MaxFloat64), tc("0.1", 0.1), tc("inf", math.Inf(1)), loose(tc("nan", math.NaN())), tc("float32", float32(1.5e-40)),
		tc("complex", complex(1, -2)), tc("true", true), tc("false", false),
		tc("empty", ""), tc("space", " "), tc("newlines", "\r\n\t x \n"), tc("nul", "a\x00b"), tc("control", "\x01\x1f\x7f"), tc("not utf8", "\xff\xfe\x80"), tc("markup", "<a href=\"x\">&amp;'\"]]></a><!-- -->"), tc("escapes", `\u0041 \n "`), tc("unicode", "日本\u2028\u2029 🐧 é e\u0301"), tc("null", "null"), tc("long", long),
		tc("nil []byte", []byte(nil)), tc("empty []byte", []byte{}), tc("[]byte", []byte{0, 1, 255, '<', '\n'}), tc("large []byte", bin),
		tc("nil slice", []int(nil)), tc("empty slice", []int{}), tc("slice", []int{3, 0, -1}), tc("large slice", ints), tc("strings", []string{"", "a", "<b>"}), tc("slices", [][]int{{1}, {}, nil, {2, 3}}), tc("array", [3]int{1, 0, 3}), tc("pointers", []*int{pseven, pseven}), tc("nil in slice", []*int{pseven, nil}),
		tc("nil map", map[string]int(nil)), tc("empty map", map[string]int{}), tc("map", map[string]int{"": 0, "a": 1, "<k>": 2}), tc("int keys", map[int]string{0: "z", -1: "m"}), tc("bool keys", map[bool]int{true: 1}), tc("struct keys", map[[2]int]string{{1, 2}: "x"}), tc("large map", many), tc("map of maps", map[string]map[string][]int{"a": {"b": {1, 2}}, "c": nil}),
		tc("struct", vInner{1, "s", []float64{0.5}}), tc("zero struct", vInner{}), tp("pointer to struct", &vInner{2, "p", nil}), tc("outer", vOuter{vEmb{"e"}, vInner{1, "i", nil}, &vInner{2, "p", []float64{1}}, []vInner{{3, "l", nil}, {}}, [3]bool{true, false, true}, []byte("b"), t0, 255}), tc("outer without pointer", vOuter{T: t0}),
		tc("list", vNode{1, &vNode{2, &vNode{3, nil}}}), tc("maps", vMap{map[string]vInner{"x": {N: 1}}, map[int][]string{7: {"a", "b"}}}), tc("tagged", vTagged{XMLName: xml.Name{Local: "tagged"}, ID: 4, Text: "text & more", Sub: []string{"1", ""}}), tc("hidden", vHidden{Shown: 1, hidden: 2}), tc("nothing exported", vNothing{1}), tc("empty struct", struct{}{}),
		tc("named", vNamed("n")), tc("enum", vEnum(-3)), tc("time", t0), loose(tc("time with zone", t0.In(time.FixedZone("X", 3600)))), tc("zero time", time.Time{}), tc("duration", 90*time.Second), tc("big", *mbig.NewInt(0).Exp(mbig.NewInt(7), mbig.NewInt(300), nil)), tp("big pointer", mbig.NewInt(-5)),
		tc("raw json", json.RawMessage(`{"a": [1,2 ]}`)), tc("bad raw json", json.RawMessage(`{"a"`)), tc("marshaller", vMarsh{3, 4}), tc("marshallers", map[string]vMarsh{"a": {1, 2}}), tc("text keys", map[vMarsh]int{{1, 2}: 3}),
		tc[interface{}]("any number", 1.5), tc[interface{}]("any string", "s"), tc[interface{}]("any", map[string]interface{}{"a": []interface{}{1.0, "x", nil, true}}), tc("any in struct", vIface{"s"}), tc("nil any in struct", vIface{}), tc("any slice", []interface{}{"a", 2.0}), tc("deep", []interface{}{deep}),
		{name: "pointer to pointer", v: &pseven, target: func() interface{} { return new(int) }},
		tp("pointer", pseven), tc("nil any", nilIface),
		{name: "nil pointer", v: nilInt, target: func() interface{} { return new(int) }},
		{name: "nil struct pointer", v: (*vInner)(nil), target: func() interface{} { return new(vInner) }},
		{name: "nil behind a pointer", v: &nilInt, target: func() interface{} { return new(int) }},
		{name: "nil behind an interface", v: &iface, target: func() interface{} { return new(interface{}) }},
		tc("channel", make(chan int)), tc("function", func() {}), tc("function in struct", vFunc{func() {}, 1}), tc("nil function in struct", vFunc{N: 1}), tc("channel in slice", []interface{}{make(chan int)}), tc("channel in map", map[string]interface{}{"ok": 1, "c": make(chan int)}), tc("refuses", vFails{1}), tc("refuses in slice", []vFails{{1}}), tc("refuses in map", map[string]vFails{"a": {}}), tc("function map", map[string]func(){"f": nil}),
	}
}()

// what the raw coder takes
var rcases = func() []vcase {
	out := []vcase{tc("nil", []byte(nil)), tc("empty", []byte{}), tc("nul", []byte{0}), tc("ff", []byte{255}), tc("text", []byte("text\r\n")), tc("page", []byte(strings.Repeat("p", 4096))), tc("large", bytes.Repeat([]byte{0, 1, 2, 255}, 40000)), tc("resp", []byte("$-1\r\n*3\r\n")), tc("no bytes", 7)}
	return out
}()

// rawCoder is an application's own coder: bytes as they are.
type rawCoder struct{}

func (rawCoder) Encode(v interface{}) ([]byte, error) {
	b, ok := v.([]byte)
	if !ok {
		return nil, errors.New("raw: bytes only")
	}
	return b, nil
}
func (rawCoder) Decode(b []byte, v interface{}) error {
	p, ok := v.(*[]byte)
	if !ok {
		return errors.New("raw: bytes only")
	}
	*p = append([]byte{}, b...)
	return nil
}

func valueCoder(name string) sessionid.Coder {
	if name == "raw" {
		return rawCoder{}
	}
	return coderOf(name)
}

func valueCases(coder string) []vcase {
	if coder == "raw" {
		return rcases
	}
	return vcases
}

// represent is the reference: can the coder represent the value, and does its
// standard form lead back to it?
func represent(coder string, c vcase) (want interface{}, ok, kept bool) {
	if coder == "raw" {
		b, ok := c.v.([]byte)
		return &b, ok, ok
	}
	b, err := stdEncode(coder, c.v)
	if err != nil {
		return nil, false, false
	}
	t := c.target()
	err = func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("%v", r)
			}
		}()
		return stdDecode(coder, b, t)
	}()
	if err != nil {
		return nil, true, false
	}
	v := reflect.ValueOf(c.v)
	for v.Kind() == reflect.Ptr && !v.IsNil() && v.Type() != reflect.TypeOf(t).Elem() {
		v = v.Elem()
	}
	got := reflect.ValueOf(t).Elem().Interface()
	var in interface{}
	if v.IsValid() {
		in = v.Interface()
	}
	return t, true, equalValues(c, got, in)
}

func equalValues(c vcase, a, b interface{}) bool {
	return reflect.DeepEqual(a, b) || c.loose && fmt.Sprintf("%T %v", a, a) == fmt.Sprintf("%T %v", b, b)
}

// ValArgs: one coder on one store, one value, all ways.
type ValArgs struct {
	Cfg   Config
	Coder string
	V     int
	Depth int
}

func init() {
	suites["value"] = func(raw json.RawMessage) func(*Exec) {
		var a ValArgs
		decode(raw, &a)
		return func(x *Exec) { valueBody(&a, x) }
	}
}

// vrun is one execution of the suite.
type vrun struct {
	x    *Exec
	w    *World
	a    *ValArgs
	c    vcase
	want interface{}
	kept bool
	m    *sessionid.LocalManager
	at   string
	rt   string
	h    *sessionid.Session
	ctx  context.Context
}

func (q *vrun) fail(format string, a ...interface{}) bool {
	q.x.fail("%s, %s on %s: %s", q.c.name, q.a.Coder, q.a.Cfg.Backend, fmt.Sprintf(format, a...))
	return false
}

func (q *vrun) note(s string, err error) bool {
	q.x.trans++
	if err != nil {
		return q.fail("%s: %v", s, err)
	}
	q.x.logf("%s", s)
	return true
}

// filler is another value the coder takes, n differs.
func (q *vrun) filler(n int) interface{} {
	if q.a.Coder == "raw" {
		return []byte(fmt.Sprintf("filler %d", n))
	}
	return fmt.Sprintf("filler %d", n)
}

// read reads the value, and what was stored beside it.
func (q *vrun) read(h *sessionid.Session, how string, keys ...string) bool {
	for _, k := range keys {
		t := q.c.target()
		err := h.Get(q.ctx, k, t)
		q.x.trans++
		q.x.logf("%s reads %q: %v", how, k, err)
		if !q.kept {
			continue
		}
		if err != nil {
			return q.fail("%s reads %q: %v", how, k, err)
		}
		got, want := reflect.ValueOf(t).Elem().Interface(), reflect.ValueOf(q.want).Elem().Interface()
		if !equalValues(q.c, got, want) && !(q.a.Coder == "raw" && len(got.([]byte)) == 0 && len(want.([]byte)) == 0) {
			return q.fail("%s reads %q as %.300s, stored was %.300s", how, k, fmt.Sprintf("%#v", got), fmt.Sprintf("%#v", want))
		}
	}
	return true
}

// beside checks the other values.
func (q *vrun) beside(h *sessionid.Session, key string, n int) bool {
	if key == "" {
		return true
	}
	want := fmt.Sprintf("filler %d", n)
	if q.a.Coder == "raw" {
		var b []byte
		if err := h.Get(q.ctx, key, &b); err != nil || string(b) != want {
			return q.fail("the value beside it, %q, reads %q, %v, not %q", key, b, err, want)
		}
		return true
	}
	var s string
	if err := h.Get(q.ctx, key, &s); err != nil || s != want {
		return q.fail("the value beside it, %q, reads %q, %v, not %q", key, s, err, want)
	}
	return true
}

func (q *vrun) manager() {
	q.m = sessionid.NewManager(sessionid.WithProvider(q.w.p[0]), sessionid.WithCoder(valueCoder(q.a.Coder)), sessionid.WithMethod(methodOf("HS256")), sessionid.WithKey([]byte("k")))
}

func (q *vrun) handle() (*sessionid.Session, bool) {
	h, err := q.m.Get(q.ctx, q.at)
	if err != nil {
		return nil, q.fail("opening the session: %v", err)
	}
	return h, true
}

var valueSteps = []string{"read", "new handle", "prepared", "refresh", "reopen", "another", "again", "time"}

func valueBody(a *ValArgs, x *Exec) {
	q := &vrun{x: x, a: a, c: valueCases(a.Coder)[a.V], ctx: context.Background()}
	var ok bool
	q.want, ok, q.kept = represent(a.Coder, q.c)
	q.w = newWorld(a.Cfg)
	defer q.w.Done()
	q.manager()
	if ok && !q.kept {
		// a coder may refuse what does not survive
		_, err := valueCoder(a.Coder).Encode(q.c.v)
		ok = err == nil
	}
	if !ok {
		q.refused()
		return
	}
	v := q.c.v
	pr := func(k string, v interface{}) sessionid.Pair { return sessionid.Pair{Key: k, Value: v} }
	keys := []string{"k"}
	beside := map[string]int{}
	var first []sessionid.Pair
	way := x.choose(6)
	switch way {
	case 0:
		first = []sessionid.Pair{pr("k", v)}
	case 1:
		first = []sessionid.Pair{pr("f1", q.filler(1)), pr("k", v), pr("f2", q.filler(2)), pr("k2", v)}
		keys = append(keys, "k2")
		beside["f1"], beside["f2"] = 1, 2
	default:
		first = []sessionid.Pair{pr("f0", q.filler(0)), pr("old", q.filler(9))}
		beside["f0"] = 0
	}
	s, rt, err := q.m.Create(q.ctx, "user", first...)
	if !q.note("create", err) {
		return
	}
	q.at, q.rt, q.h = s.Token(), rt, s
	switch way {
	case 2:
		err = s.Put(q.ctx, pr("k", v))
	case 3:
		keys = []string{"old"}
		if !q.beside(s, "old", 9) {
			return
		}
		err = s.Put(q.ctx, pr("old", v))
	case 4:
		keys = []string{"k", "k2"}
		err = s.Put(q.ctx, pr("k", v), pr("f1", q.filler(1)), pr("k2", v), pr("f2", q.filler(2)))
		beside["f1"], beside["f2"] = 1, 2
	case 5:
		var h *sessionid.Session
		if h, ok = q.handle(); !ok {
			return
		}
		err = h.Put(q.ctx, pr("f1", q.filler(1)), pr("k", q.filler(3)), pr("k", v))
		beside["f1"] = 1
	}
	vs.Quiesce()
	if !q.note(fmt.Sprintf("stored, way %d", way), err) {
		return
	}
	steps := len(valueSteps)
	for i := 0; i < a.Depth; i++ {
		st := valueSteps[x.choose(steps)]
		switch st {
		case "read":
			ok = q.read(q.h, "the handle", keys...)
		case "new handle":
			var h *sessionid.Session
			if h, ok = q.handle(); ok {
				ok = q.read(h, "a new handle", keys...)
			}
		case "prepared":
			var h *sessionid.Session
			if h, ok = q.handle(); ok {
				ok = q.note("prepare", h.Prepare(q.ctx, append([]string{"f0", "missing", "f1"}, keys...)...)) && q.read(h, "a prepared handle", keys...)
			}
		case "refresh":
			na, nr, err := q.m.Refresh(q.ctx, q.at, q.rt)
			if ok = q.note("refresh", err); ok {
				q.at, q.rt = na, nr
				q.h, ok = q.handle()
			}
		case "reopen":
			if a.Cfg.Backend != "memory" {
				if r := q.w.Do(Op{K: OpReopen}); r.Err != "" {
					q.fail("reopening the store: %s", r.Err)
					return
				}
				q.manager()
				q.h, ok = q.handle()
			}
		case "another":
			// another session stores other values
			o, _, err := q.m.Create(q.ctx, "other", pr("k", q.filler(7)), pr("k2", q.filler(8)))
			if ok = q.note("another session", err); ok {
				ok = q.note("another put", o.Put(q.ctx, pr("old", q.filler(6)), pr("f0", q.filler(5)))) && q.beside(o, "k", 7) && q.beside(o, "k2", 8) && q.beside(o, "old", 6)
			}
		case "again":
			ok = q.note("stored again", q.h.Put(q.ctx, pr(keys[len(keys)-1], v)))
		case "time":
			vs.AdvanceQuiet(100 * time.Millisecond)
		}
		vs.Quiesce()
		if !ok {
			return
		}
	}
	h, ok := q.handle()
	if !ok || !q.read(q.h, "the handle at last", keys...) || !q.read(h, "a new handle at last", keys...) || !q.read(h, "the new handle again", keys...) {
		return
	}
	for k, n := range beside {
		if !q.beside(h, k, n) || !q.beside(q.h, k, n) {
			return
		}
	}
	x.outcome(fmt.Sprintf("%s kept=%v", a.Coder, q.kept))
	x.state(fmt.Sprint(a.Cfg, a.Coder, q.c.name, way))
}

// refused: storing the value is an error and changes nothing, alone or beside
// others.
func (q *vrun) refused() {
	pr := func(k string, v interface{}) sessionid.Pair { return sessionid.Pair{Key: k, Value: v} }
	bad := pr("k", q.c.v)
	good := func(n int) sessionid.Pair { return pr(fmt.Sprintf("f%d", n), q.filler(n)) }
	sets := [][]sessionid.Pair{{bad}, {good(1), bad}, {bad, good(1)}, {good(1), bad, good(2)}, {pr("k", q.filler(3)), bad}, {bad, pr("k", q.filler(3))}}
	set := sets[q.x.choose(len(sets))]
	s, rt, err := q.m.Create(q.ctx, "user", good(1), pr("k", q.filler(4)))
	if !q.note("create", err) {
		return
	}
	q.at, q.rt = s.Token(), rt
	vs.Quiesce()
	// what a provider keeps in memory for itself is its own affair
	dump := func() string {
		if q.a.Cfg.Backend == "memory" {
			return ""
		}
		return q.w.dump()
	}
	before := dump()
	op := q.x.choose(3)
	q.x.trans++
	switch op {
	case 0:
		n, _, err := q.m.Create(q.ctx, "user", set...)
		if err == nil {
			q.fail("a session was created with a value that cannot be encoded")
			return
		}
		if n != nil {
			q.fail("the creation failed and returned a session all the same")
			return
		}
	case 1:
		err = s.Put(q.ctx, set...)
	case 2:
		h, ok := q.handle()
		if !ok {
			return
		}
		if !q.note("prepare", h.Prepare(q.ctx, "k", "f1", "f2")) {
			return
		}
		err = h.Put(q.ctx, set...)
		if err != nil && (!q.beside(h, "k", 4) || !q.beside(h, "f1", 1)) {
			return
		}
	}
	if op > 0 && err == nil {
		q.fail("a value that cannot be encoded was stored")
		return
	}
	vs.Quiesce()
	if now := dump(); now != before {
		q.fail("storing failed, but the store changed\nfrom %.2000s\nto %.2000s", before, now)
		return
	}
	h, ok := q.handle()
	if !ok {
		return
	}
	if ks, err := h.Keys(q.ctx); err != nil || len(ks) != 2 {
		q.fail("storing failed, but the keys are now %q, %v", ks, err)
		return
	}
	if !q.beside(h, "k", 4) || !q.beside(h, "f1", 1) || !q.beside(s, "k", 4) || !q.beside(s, "f1", 1) {
		return
	}
	q.x.outcome(q.a.Coder + " refused")
	q.x.state(fmt.Sprint(q.a.Cfg, q.a.Coder, q.c.name, op))
}

func init() {
	register(&Prop{ID: "C21",
		Bounds: "some hundred values of every shape times every coder (and an application's own) times every provider (redis: with each metadata coder, too): stored alone, beside others, twice, over another value, by creation, writing and another handle, then every sequence of 2 (thorough 3) steps of reading through the same, a new and a prepared handle, refreshing, reopening, storing again, other sessions' writes; the standard library's own encoding and decoding is the reference; what it cannot encode must be refused, alone and beside others, with the store unchanged",
		Assume: []string{"cyclic values and values whose own marshalling panics are not stored", "values that do not survive the standard library's own encoding and decoding are only stored, not compared"},
		Jobs: func(th bool) []Job {
			var out []Job
			for _, c := range backends(3*u, 5*u) {
				cfgs := []Config{c}
				switch c.Backend {
				case "bolt":
					o := c
					o.Own = true
					cfgs = append(cfgs, o)
				case "redis":
					for _, n := range []string{"json", "xml"} {
						o := c
						o.Coder = n
						cfgs = append(cfgs, o)
					}
				}
				for i, c := range cfgs {
					for _, coder := range []string{"gob", "json", "xml", "raw"} {
						for v, vc := range valueCases(coder) {
							_, ok, _ := represent(coder, vc)
							if !ok && i > 0 && c.Own {
								continue
							}
							d := pick(th, 2, 3)
							if i > 0 {
								d--
							}
							out = append(out, job("value", fmt.Sprintf("value %q, %s [%s] depth=%d", vc.name, coder, c, d), 0, ValArgs{c, coder, v, d}))
						}
					}
				}
			}
			return out
		}})
}
