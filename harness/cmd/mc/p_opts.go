package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	bdb "github.com/boltdb/bolt"
	goredis "github.com/go-redis/redis/v8"
	"github.com/powerpuffpenguin/sessionid"
	pbolt "github.com/powerpuffpenguin/sessionid/provider/bolt"
	predis "github.com/powerpuffpenguin/sessionid/provider/redis"

	"mcverif/fakeredis"
	"mcverif/vs"
)

// Property C17: every sequence of options.

// OptVal is one option given to a constructor.
type OptVal struct {
	N string
	I int64  `json:",omitempty"`
	S string `json:",omitempty"`
}

func (o OptVal) String() string {
	switch o.N {
	case "access", "refresh", "clear", "timeout":
		return o.N + "=" + time.Duration(o.I).String()
	}
	if o.S != "" {
		return o.N + "=" + o.S
	}
	return fmt.Sprintf("%s=%d", o.N, o.I)
}

// OptArgs: every sequence of Len options out of Ops.
type OptArgs struct {
	Backend string
	Ops     []OptVal
	Len     int
	First   int
}

func init() {
	suites["opts"] = func(raw json.RawMessage) func(*Exec) {
		var a OptArgs
		decode(raw, &a)
		return func(x *Exec) { optBody(&a, x) }
	}
}

// eff is what the options given amount to.
type eff struct {
	access, refresh, clear, timeout int64
	max                             int
	file, bucket, url, prefix, meta string
	coder, method, key, provider    string
	mode                            os.FileMode
	db, client                      int64 // 0: none
}

func defaults() eff {
	return eff{
		access: int64(time.Hour), refresh: int64(24 * time.Hour), clear: int64(10 * time.Minute), timeout: int64(30 * time.Second), max: -1,
		file: "sessionid.db", mode: 0o600, bucket: "sessionid",
		url: "redis://localhost:6379/0", prefix: "sessionid.provider.redis.", meta: "__private_provider_redis", coder: "gob",
		method: "HMD5", key: "github.com/powerpuffpenguin/sessionid",
	}
}

// apply is the reference: the lifetime given last is honoured, the other one
// gives way as little as necessary.
func (e *eff) apply(o OptVal) {
	switch o.N {
	case "access":
		e.access = o.I
		if e.refresh < o.I {
			e.refresh = o.I
		}
	case "refresh":
		e.refresh = o.I
		if e.access > o.I {
			e.access = o.I
		}
	case "max":
		e.max = int(o.I)
	case "clear":
		e.clear = o.I
	case "timeout":
		e.timeout = o.I
	case "file":
		e.file = o.S
	case "mode":
		e.mode = os.FileMode(o.I)
	case "bucket":
		e.bucket = o.S
	case "db":
		e.db = o.I
	case "url":
		e.url = o.S
	case "client":
		e.client = o.I
	case "prefix":
		e.prefix = o.S
	case "meta":
		e.meta = o.S
	case "coder":
		e.coder = o.S
	case "method":
		e.method = o.S
	case "key":
		e.key = o.S
	case "provider":
		e.provider = o.S
	}
}

// markCoder is a coder of its own: gob with a mark in front.
type markCoder struct {
	mark string
	used *int
}

func (c markCoder) Encode(v interface{}) ([]byte, error) {
	*c.used++
	b, e := sessionid.GOBCoder{}.Encode(v)
	return append([]byte(c.mark), b...), e
}
func (c markCoder) Decode(b []byte, v interface{}) error {
	if !bytes.HasPrefix(b, []byte(c.mark)) {
		return fmt.Errorf("not encoded by %s", c.mark)
	}
	return sessionid.GOBCoder{}.Decode(b[len(c.mark):], v)
}

// inst is one instance with the options in effect.
type inst struct {
	name string
	e    eff
	r    *run
	w    *World
}

// orun is one execution of the suite.
type orun struct {
	x     *Exec
	is    []*inst
	dir   string
	dbs   map[int64]*bdb.DB
	srv   map[string]*fakeredis.Server // by address
	cls   map[int64]*goredis.Client
	clsrv map[int64]*fakeredis.Server
	used  map[string]*int
	given [][]byte // slices that options were made of
}

// bytes makes a slice that is given to an option.
func (q *orun) bytes(s string) []byte {
	b := []byte(s)
	q.given = append(q.given, b)
	return b
}

// spoil overwrites what was given: the caller uses it for something else.
func (q *orun) spoil() {
	for _, b := range q.given {
		for i := range b {
			b[i] = '#'
		}
	}
}

func (q *orun) coder(n string) sessionid.Coder {
	switch n {
	case "json", "xml", "gob":
		return coderOf(n)
	}
	if q.used[n] == nil {
		q.used[n] = new(int)
	}
	return markCoder{n + ":", q.used[n]}
}

func (q *orun) file(name string) string {
	if filepath.IsAbs(name) {
		return name
	}
	return filepath.Join(q.dir, name)
}

func (q *orun) database(n int64) *bdb.DB {
	if q.dbs[n] == nil {
		db, err := bdb.Open(q.file(fmt.Sprintf("given%d.db", n)), 0o600, &bdb.Options{Timeout: time.Second})
		if err != nil {
			panic(err)
		}
		q.dbs[n] = db
	}
	return q.dbs[n]
}

func (q *orun) server(addr string) *fakeredis.Server {
	if q.srv[addr] == nil {
		q.srv[addr] = fakeredis.New()
	}
	return q.srv[addr]
}

func (q *orun) redisClient(n int64) *goredis.Client {
	if q.cls[n] == nil {
		s := fakeredis.New()
		q.clsrv[n] = s
		q.cls[n] = goredis.NewClient(&goredis.Options{Addr: "mem", Dialer: s.Dial, MaxRetries: -1, IdleCheckFrequency: -1, IdleTimeout: -1, PoolSize: 8})
	}
	return q.cls[n]
}

// home is the server behind the options.
func (q *orun) home(e eff) *fakeredis.Server {
	if e.client != 0 {
		return q.clsrv[e.client]
	}
	o, err := goredis.ParseURL(e.url)
	if err != nil {
		panic(err)
	}
	return q.server(o.Addr)
}

func (q *orun) memOption(o OptVal) sessionid.ProviderOption {
	switch o.N {
	case "access":
		return sessionid.WithProviderAccess(time.Duration(o.I))
	case "refresh":
		return sessionid.WithProviderRefresh(time.Duration(o.I))
	case "max":
		return sessionid.WithProviderMaxSize(int(o.I))
	case "clear":
		return sessionid.WithProviderClear(time.Duration(o.I))
	}
	return sessionid.WithProviderCheckBatch(int(o.I))
}

func (q *orun) boltOption(o OptVal) pbolt.Option {
	switch o.N {
	case "access":
		return pbolt.WithAccess(time.Duration(o.I))
	case "refresh":
		return pbolt.WithRefresh(time.Duration(o.I))
	case "max":
		return pbolt.WithMaxSize(int(o.I))
	case "clear":
		return pbolt.WithClear(time.Duration(o.I))
	case "file":
		return pbolt.WithFilename(o.S)
	case "mode":
		return pbolt.WithFileMode(os.FileMode(o.I))
	case "timeout":
		return pbolt.WithTimeout(time.Duration(o.I))
	case "bucket":
		return pbolt.WithBucket(q.bytes(o.S))
	case "db":
		return pbolt.WithDB(q.database(o.I))
	}
	return pbolt.WithCheckBatch(int(o.I))
}

func (q *orun) redisOption(o OptVal) predis.Option {
	switch o.N {
	case "access":
		return predis.WithAccess(time.Duration(o.I))
	case "refresh":
		return predis.WithRefresh(time.Duration(o.I))
	case "url":
		return predis.WithURL(o.S)
	case "client":
		return predis.WithClient(q.redisClient(o.I))
	case "prefix":
		return predis.WithKeyPrefix(o.S)
	case "meta":
		return predis.WithMetadataKey(o.S)
	case "coder":
		return predis.WithCoder(q.coder(o.S))
	}
	return predis.WithCheckBatch(int(o.I))
}

// options makes the options once; they are given to several instances.
func (q *orun) options(backend string, seq []OptVal) func() (sessionid.Provider, error) {
	switch backend {
	case "memory":
		var l []sessionid.ProviderOption
		for _, o := range seq {
			l = append(l, q.memOption(o))
		}
		return func() (sessionid.Provider, error) { return sessionid.NewProvider(l...), nil }
	case "bolt":
		var l []pbolt.Option
		for _, o := range seq {
			l = append(l, q.boltOption(o))
		}
		return func() (sessionid.Provider, error) { return pbolt.New(l...) }
	}
	var l []predis.Option
	for _, o := range seq {
		l = append(l, q.redisOption(o))
	}
	return func() (sessionid.Provider, error) { return predis.New(l...) }
}

// add creates an instance.
func (q *orun) add(name, backend string, seq []OptVal, mk func() (sessionid.Provider, error)) bool {
	e := defaults()
	for _, o := range seq {
		e.apply(o)
	}
	p, err := mk()
	vs.Quiesce()
	if err != nil {
		q.x.fail("%s %v: creating it failed: %v", name, seq, err)
		return false
	}
	c := Config{Backend: backend, Access: time.Duration(e.access), Refresh: time.Duration(e.refresh), MetaKey: e.meta}
	if backend != "redis" {
		c.Max, c.MetaKey = e.max, ""
	}
	w := &World{c: c, ctx: context.Background(), p: []sessionid.Provider{p}}
	if backend == "bolt" && e.db != 0 {
		w.db = q.dbs[e.db]
	}
	if backend == "redis" {
		w.srv = q.home(e)
	}
	m := newModel(c)
	m.now = vs.NowNS()
	q.x.logf("%s %v", name, seq)
	q.is = append(q.is, &inst{name: name, e: e, w: w, r: &run{x: q.x, w: w, m: m}})
	return true
}

func (q *orun) fail(i *inst, format string, a ...interface{}) bool {
	q.x.fail("%s: %s", i.name, fmt.Sprintf(format, a...))
	return false
}

// due is something to look at, at a time.
type due struct {
	t int64
	f func() bool
}

// follow runs the clock through what is due.
func (q *orun) follow(l []due) bool {
	sort.SliceStable(l, func(a, b int) bool { return l[a].t < l[b].t })
	for _, d := range l {
		if n := d.t - vs.NowNS(); n > 0 {
			vs.AdvanceQuiet(time.Duration(n))
			q.x.logf("at %s", time.Duration(d.t))
		}
		for _, i := range q.is {
			i.r.m.now = vs.NowNS()
			i.r.m.purge()
		}
		if !d.f() {
			return false
		}
	}
	return true
}

func ratio(a, b int64) bool { return a%b == 0 }

// begin uses a fresh instance: the size limit, then the sessions whose
// lifetime is followed.
func (q *orun) begin(i *inst, id string) bool {
	r := i.r
	for k := 1; k <= 4; k++ {
		if !r.step(create(id, k, kv("k", "v"))) {
			return false
		}
	}
	for k := 1; k <= 4; k++ {
		if !r.step(get(id, k, "k")) {
			return false
		}
	}
	if !r.step(killID(id)) || !r.step(create(id+"y", 1, kv("k", "y"))) {
		return false
	}
	if i.w.c.Max != 1 && !r.step(create(id+"z", 1, kv("k", "z"))) {
		return false
	}
	return true
}

// agenda is what to look at later.
func (q *orun) agenda(i *inst, id string, from int64) []due {
	g := grain(i.w.c)
	e := i.e
	r := i.r
	y := id + "y"
	var l []due
	at := func(t int64, f func() bool) { l = append(l, due{from + t, f}) }
	step := func(t int64, ops ...Op) {
		at(t, func() bool {
			for _, o := range ops {
				if !r.step(o) {
					return false
				}
			}
			return true
		})
	}
	step(e.access-g, check(y, 1), get(y, 1, "k"))
	renewed := e.access
	if e.refresh == e.access {
		renewed = e.refresh - g
		step(renewed, refresh(y, 1, 2))
	} else {
		step(e.access, check(y, 1), get(y, 1, "k"), refresh(y, 1, 2))
	}
	step(renewed+e.access-g, check(y, 2))
	step(renewed+e.access, check(y, 2))
	step(renewed+e.refresh-g, check(y, 2))
	step(renewed+e.refresh, check(y, 2))
	if i.w.c.Max == 1 || i.w.c.Backend == "redis" || i.w.c.Backend == "bolt" && i.w.db == nil {
		return l
	}
	// when what is dead is reclaimed
	z := tok(id+"z", 1)
	there := func(want bool) func() bool {
		return func() bool {
			f := i.w.stored(z)
			q.x.logf("%s: stored %v", i.name, f != "")
			if f != "" && !want {
				return q.fail(i, "a session that died at %s is still stored at %s, the period is %s", time.Duration(e.refresh), time.Duration(vs.NowNS()), time.Duration(e.clear))
			}
			if f == "" && want {
				return q.fail(i, "the session is not stored any more at %s, it dies at %s and the period is %s", time.Duration(vs.NowNS()), time.Duration(e.refresh), time.Duration(e.clear))
			}
			return true
		}
	}
	at(e.refresh-1, there(true))
	if e.clear <= 0 {
		at(e.refresh+int64(31*time.Minute), there(true))
		return l
	}
	sweep := (e.refresh/e.clear + 1) * e.clear
	if !ratio(e.refresh, e.clear) {
		at(sweep-1, there(true))
	}
	at(sweep, there(false))
	return l
}

func optBody(a *OptArgs, x *Exec) {
	var seq []OptVal
	for i := 0; i < a.Len; i++ {
		k := a.First
		if i > 0 || k < 0 {
			k = x.choose(len(a.Ops))
		}
		seq = append(seq, a.Ops[k])
	}
	q := &orun{x: x, dbs: map[int64]*bdb.DB{}, srv: map[string]*fakeredis.Server{}, cls: map[int64]*goredis.Client{}, clsrv: map[int64]*fakeredis.Server{}, used: map[string]*int{}}
	x.state(a.Backend + fmt.Sprint(seq))
	if a.Backend == "manager" {
		q.managers(seq)
		return
	}
	vs.Advance(0)
	switch a.Backend {
	case "bolt", "bolt-place":
		q.dir = newPath()
		if err := os.Mkdir(q.dir, 0o700); err != nil {
			panic(err)
		}
		old, _ := os.Getwd()
		if err := os.Chdir(q.dir); err != nil {
			panic(err)
		}
		mask := syscall.Umask(0)
		dir := q.dir
		cleanup(func() {
			syscall.Umask(mask)
			os.Chdir(old)
			for _, i := range q.is {
				i.w.p[0].Close()
			}
			for _, db := range q.dbs {
				db.Close()
			}
			os.RemoveAll(dir)
		})
	case "redis", "redis-place":
		fakeredis.DefaultDial = func(ctx context.Context, network, addr string) (net.Conn, error) {
			return q.server(addr).Dial(ctx, network, addr)
		}
		cleanup(func() {
			fakeredis.DefaultDial = nil
			for _, c := range q.cls {
				c.Close()
			}
		})
	}
	defer func() {
		for _, i := range q.is {
			i.w.p[0].Close()
		}
	}()
	if strings.HasSuffix(a.Backend, "-place") {
		q.place(strings.TrimSuffix(a.Backend, "-place"), seq)
		return
	}
	// one instance without options, two with the same ones, one without
	one := func(n int64) []OptVal {
		if a.Backend == "bolt" {
			return []OptVal{{N: "db", I: n}}
		}
		return nil
	}
	if !q.add("the instance created before", a.Backend, one(1), q.options(a.Backend, one(1))) {
		return
	}
	if !q.begin(q.is[0], "a") {
		return
	}
	given := append(one(2), seq...)
	mk := q.options(a.Backend, given)
	if !q.add("the instance", a.Backend, given, mk) || !q.begin(q.is[1], "b") {
		return
	}
	if a.Backend != "bolt" {
		if !q.add("a second instance with the same options", a.Backend, given, mk) || !q.begin(q.is[2], "c") {
			return
		}
	}
	if !q.add("the instance created afterwards", a.Backend, one(4), q.options(a.Backend, one(4))) || !q.begin(q.is[len(q.is)-1], "d") {
		return
	}
	var l []due
	from := vs.NowNS()
	for k, i := range q.is {
		id := string("abcd"[k])
		if k == len(q.is)-1 {
			id = "d"
		}
		l = append(l, q.agenda(i, id, from)...)
	}
	q.follow(l)
}

// place: where an instance keeps its sessions, and in which form.
func (q *orun) place(backend string, seq []OptVal) {
	mk := q.options(backend, seq)
	plain := func() (sessionid.Provider, error) { return nil, nil }
	var before, after []OptVal
	if backend == "bolt" {
		before, after = []OptVal{{N: "db", I: 8}}, []OptVal{{N: "db", I: 9}}
	} else {
		before, after = []OptVal{{N: "client", I: 8}}, []OptVal{{N: "client", I: 9}}
	}
	plain = q.options(backend, before)
	if !q.add("the instance created before", backend, before, plain) || !q.is[0].r.step(create("a", 1, kv("k", "va"))) {
		return
	}
	if !q.add("the instance", backend, seq, mk) || !q.is[1].r.step(create("b", 1, kv("k", "vb"))) {
		return
	}
	if !q.add("the instance created afterwards", backend, after, q.options(backend, after)) || !q.is[2].r.step(create("c", 1, kv("k", "vc"))) {
		return
	}
	q.spoil()
	for k, i := range q.is {
		id := string("abc"[k])
		if !i.r.step(get(id, 1, "k")) || !i.r.step(put(id, 1, kv("k2", "w"))) || !i.r.step(keysOf(id, 1)) {
			return
		}
	}
	for k, i := range q.is {
		id := string("abc"[k])
		if backend == "redis" {
			if !q.placedRedis(i, id) {
				return
			}
			continue
		}
		if !q.placedBolt(i, id, seq, k == 1, mk) {
			return
		}
	}
}

func (q *orun) placedRedis(i *inst, id string) bool {
	s := q.home(i.e)
	n := 0
	for _, k := range s.Keys() {
		if strings.HasPrefix(k, i.e.prefix) {
			n++
		} else {
			return q.fail(i, "the key %q does not start with %q", k, i.e.prefix)
		}
	}
	if n == 0 {
		return q.fail(i, "nothing is stored on its server under %q", i.e.prefix)
	}
	for addr, o := range q.srv {
		if o != s && i.name == "the instance" && len(o.Keys()) > 0 {
			return q.fail(i, "something is stored on the server %s too", addr)
		}
	}
	for n, o := range q.clsrv {
		if o != s && n < 8 && i.name == "the instance" && len(o.Keys()) > 0 {
			return q.fail(i, "something is stored on the server of client %d too", n)
		}
	}
	if i.e.client == 0 {
		o, _ := goredis.ParseURL(i.e.url)
		want := "[]"
		if o.DB != 0 {
			want = fmt.Sprintf("[%d", o.DB)
		}
		if !strings.HasPrefix(fmt.Sprint(s.Selected), want) {
			return q.fail(i, "the databases %q were selected, not %d", s.Selected, o.DB)
		}
	}
	for n, c := range q.used {
		if i.name == "the instance" && (*c > 0) != (n == i.e.coder) {
			return q.fail(i, "the coder %q was used %d times, the one in effect is %q", n, *c, i.e.coder)
		}
	}
	if !strings.Contains(s.Dump(), i.e.meta) {
		return q.fail(i, "there is no %q", i.e.meta)
	}
	// a key of that name is the provider's own, others are not
	for _, key := range []string{"__private_provider_redis", "m1", "m2"} {
		if !i.r.step(put(id, 1, kv(key, "mine"))) || !i.r.step(get(id, 1, key)) {
			return false
		}
	}
	// an instance told all of it explicitly sees the same
	base := []predis.Option{predis.WithKeyPrefix(i.e.prefix), predis.WithMetadataKey(i.e.meta), predis.WithCoder(q.coder(i.e.coder))}
	if i.e.client != 0 {
		base = append(base, predis.WithClient(q.cls[i.e.client]))
	} else {
		base = append(base, predis.WithURL(i.e.url))
	}
	p, err := predis.New(base...)
	if err != nil {
		return q.fail(i, "opening it again: %v", err)
	}
	defer p.Close()
	v, err := p.Get(context.Background(), tok(id, 1), []string{"k", "k2"})
	if err != nil || len(v) != 2 || string(v[0].Bytes) != "v"+id || string(v[1].Bytes) != "w" {
		return q.fail(i, "an instance given all the options explicitly reads %q, %v", v, err)
	}
	return true
}

func (q *orun) placedBolt(i *inst, id string, seq []OptVal, own bool, mk func() (sessionid.Provider, error)) bool {
	name := q.file(i.e.file)
	db := q.dbs[i.e.db]
	if i.e.db == 0 {
		st, err := os.Stat(name)
		if err != nil {
			return q.fail(i, "there is no file %s: %v", i.e.file, err)
		}
		if st.Mode().Perm() != i.e.mode {
			return q.fail(i, "the mode of the file is %o, not %o", st.Mode().Perm(), i.e.mode)
		}
		// it is in use: a second instance gives up after the timeout
		from := vs.NowNS()
		vs.Patience(1000)
		_, err = mk()
		if spent := vs.NowNS() - from; err == nil || spent < i.e.timeout || spent > i.e.timeout+int64(200*time.Millisecond) {
			return q.fail(i, "opening a file in use took %s (%v), the timeout is %s", time.Duration(spent), err, time.Duration(i.e.timeout))
		}
		for _, j := range q.is {
			j.r.m.now = vs.NowNS()
		}
		if e := i.w.p[0].Close(); e != nil {
			return q.fail(i, "closing it: %v", e)
		}
		db, err = bdb.Open(name, 0o600, &bdb.Options{Timeout: time.Second})
		if err != nil {
			return q.fail(i, "opening the file: %v", err)
		}
		defer db.Close()
	}
	d := dumpBolt(db)
	tops, has := "", false
	for k, v := range d {
		if strings.Count(k, "/") == 2 && strings.HasSuffix(k, "/") {
			tops += k
		}
		has = has || strings.Contains(k, tok(id, 1)) || strings.Contains(v, tok(id, 1))
	}
	if tops != "/"+i.e.bucket+"/" {
		return q.fail(i, "the buckets are %q, not %q", tops, i.e.bucket)
	}
	if !has {
		return q.fail(i, "its session is not in %s", i.e.bucket)
	}
	// no other file appeared
	l, _ := os.ReadDir(q.dir)
	for _, f := range l {
		if n := f.Name(); !strings.HasPrefix(n, "given") && own && (n != i.e.file || i.e.db != 0) {
			return q.fail(i, "there is a file %s", n)
		}
	}
	for n, o := range q.dbs {
		if n < 8 && own && o != db && len(dumpBolt(o)) > 0 {
			return q.fail(i, "something is stored in database %d too", n)
		}
	}
	return true
}

// ---- managers ----

// managers: the options of a manager.
func (q *orun) managers(seq []OptVal) {
	x := q.x
	provs := map[string]*spyAll{}
	prov := func(n string) *spyAll {
		if provs[n] == nil {
			provs[n] = &spyAll{Provider: sessionid.NewProvider()}
		}
		return provs[n]
	}
	defer func() {
		for _, p := range provs {
			p.Close()
		}
	}()
	opt := func(o OptVal) sessionid.Option {
		switch o.N {
		case "method":
			return sessionid.WithMethod(methodOf(o.S))
		case "key":
			return sessionid.WithKey(q.bytes(o.S))
		case "coder":
			return sessionid.WithCoder(q.coder(o.S))
		}
		return sessionid.WithProvider(prov(o.S))
	}
	var opts []sessionid.Option
	for _, o := range seq {
		opts = append(opts, opt(o))
	}
	type mi struct {
		name string
		e    eff
		m    *sessionid.LocalManager
	}
	mk := func(name string, l []sessionid.Option, seq []OptVal) mi {
		e := defaults()
		for _, o := range seq {
			e.apply(o)
		}
		x.logf("%s %v", name, seq)
		return mi{name, e, sessionid.NewManager(l...)}
	}
	own := []OptVal{{N: "provider", S: "own"}}
	ms := []mi{
		mk("the manager created before", nil, nil),
		mk("the manager created before with a provider", []sessionid.Option{opt(own[0])}, own),
		mk("the manager", opts, seq),
		mk("a second manager with the same options", opts, seq),
		mk("the manager created afterwards", nil, nil),
		mk("the manager created afterwards with a provider", []sessionid.Option{opt(own[0])}, own),
	}
	q.spoil()
	ctx := context.Background()
	for n, m := range ms {
		for _, p := range provs {
			p.calls, p.val = 0, nil
		}
		for _, c := range q.used {
			*c = 0
		}
		val := "value of " + m.name
		s, refresh, err := m.m.Create(ctx, fmt.Sprintf("user %d", n), sessionid.Pair{Key: "k", Value: val})
		vs.Quiesce()
		if err != nil {
			x.fail("%s: creating a session: %v", m.name, err)
			return
		}
		for _, t := range []string{s.Token(), refresh} {
			k := strings.LastIndexByte(t, '.')
			if want := stdSign(m.e.method, t[:k], []byte(m.e.key)); t[k+1:] != want {
				x.fail("%s: the token %s is not signed by %s with the key %q", m.name, t, m.e.method, m.e.key)
				return
			}
		}
		for pn, p := range provs {
			if (p.calls > 0) != (pn == m.e.provider) {
				x.fail("%s: provider %q was called %d times, the one in effect is %q", m.name, pn, p.calls, m.e.provider)
				return
			}
		}
		if m.e.provider != "" {
			want, _ := q.coder(m.e.coder).Encode(val)
			if !bytes.Equal(provs[m.e.provider].val, want) {
				x.fail("%s: the value is stored as %q, the coder in effect (%s) makes %q", m.name, provs[m.e.provider].val, m.e.coder, want)
				return
			}
		}
		t, err := m.m.Get(ctx, s.Token())
		if err != nil {
			x.fail("%s: reading the session: %v", m.name, err)
			return
		}
		var got string
		if err = t.Get(ctx, "k", &got); err != nil || got != val {
			x.fail("%s: the value reads %q, %v", m.name, got, err)
			return
		}
		for cn, c := range q.used {
			if (*c > 0) != (cn == m.e.coder) {
				x.fail("%s: the coder %q was used %d times, the one in effect is %q", m.name, cn, *c, m.e.coder)
				return
			}
		}
		// another manager takes the token iff it was told the same
		na, nr, err := m.m.Refresh(ctx, s.Token(), refresh)
		if err != nil {
			x.fail("%s: refreshing: %v", m.name, err)
			return
		}
		for _, t := range []string{na, nr} {
			k := strings.LastIndexByte(t, '.')
			if want := stdSign(m.e.method, t[:k], []byte(m.e.key)); t[k+1:] != want {
				x.fail("%s: the new token %s is not signed by %s with the key %q", m.name, t, m.e.method, m.e.key)
				return
			}
		}
		for _, o := range ms {
			_, err := o.m.Get(ctx, na)
			same := o.e.method == m.e.method && o.e.key == m.e.key
			if same != (err == nil) {
				x.fail("%s takes a token of %s: %v", o.name, m.name, err)
				return
			}
		}
		if err := m.m.DestroyByToken(ctx, na); err != nil {
			x.fail("%s: destroying: %v", m.name, err)
			return
		}
		vs.Quiesce()
		x.trans += 6
		x.outcome("manager " + m.e.method + " " + m.e.coder)
	}
}

// spyAll counts calls and keeps the value created.
type spyAll struct {
	sessionid.Provider
	calls int
	val   []byte
}

func (s *spyAll) Create(ctx context.Context, a, r string, kv []sessionid.PairBytes) error {
	s.calls++
	for _, p := range kv {
		s.val = append([]byte{}, p.Value...)
	}
	return s.Provider.Create(ctx, a, r, kv)
}

func optJobs(backend string, ops []OptVal, max int) []Job {
	out := []Job{job("opts", backend+" without options", 0, OptArgs{Backend: backend, Ops: ops, First: -1})}
	for n := 1; n <= max; n++ {
		for f := range ops {
			out = append(out, job("opts", fmt.Sprintf("%s, %d options, the first %s", backend, n, ops[f]), 0, OptArgs{Backend: backend, Ops: ops, Len: n, First: f}))
		}
	}
	return out
}

func init() {
	register(&Prop{ID: "C17",
		Bounds: "every sequence of up to 3 or 4 (thorough: 4 or 5; lifetimes alone: 5 or 6) options out of an alphabet with two or three values for every option, for each kind of provider and for managers, the slices given being overwritten once the instances exist; an instance without options is created before and after, a second one from the same options; the options in effect are read off the behaviour: expiry of access and refresh to the nanosecond (redis: millisecond), eviction, sweeps, where and in which form the data lies, lock timeout, signatures, coders",
		Assume: []string{"lifetimes of at least a second, as documented", "the size of the check batch is only visible as behaviour staying the same"},
		Jobs: func(th bool) []Job {
			mi := int64(time.Minute)
			life := []OptVal{{N: "access", I: 5 * mi}, {N: "access", I: 40 * mi}, {N: "access", I: 1800 * mi}, {N: "refresh", I: 8 * mi}, {N: "refresh", I: 50 * mi}, {N: "refresh", I: 2400 * mi}}
			keep := []OptVal{{N: "max", I: 1}, {N: "max", I: 3}, {N: "max", I: 0}, {N: "clear", I: 7 * mi}, {N: "clear", I: 25 * mi}, {N: "clear", I: 0}, {N: "batch", I: 0}, {N: "batch", I: 2}}
			var out []Job
			out = append(out, optJobs("memory", append(append([]OptVal{}, life...), keep...), pick(th, 3, 4))...)
			out = append(out, optJobs("memory", life, pick(th, 5, 6))...)
			out = append(out, optJobs("bolt", append(append([]OptVal{}, life...), keep...), pick(th, 3, 4))...)
			out = append(out, optJobs("redis", append(append([]OptVal{}, life...), keep[6:]...), pick(th, 4, 5))...)
			out = append(out, optJobs("bolt-place", []OptVal{{N: "file", S: "one.db"}, {N: "file", S: "two.db"}, {N: "mode", I: 0o640}, {N: "mode", I: 0o644}, {N: "timeout", I: int64(time.Second)}, {N: "timeout", I: 3 * int64(time.Second)},
				{N: "bucket", S: "b1"}, {N: "bucket", S: "another bucket"}, {N: "db", I: 1}, {N: "db", I: 2}}, pick(th, 3, 4))...)
			out = append(out, optJobs("redis-place", []OptVal{{N: "url", S: "redis://h1:1/0"}, {N: "url", S: "redis://h2:2/3"}, {N: "client", I: 1}, {N: "client", I: 2}, {N: "prefix", S: "p1."}, {N: "prefix", S: "q"}, {N: "prefix", S: ""},
				{N: "meta", S: "m1"}, {N: "meta", S: "m2"}, {N: "coder", S: "A"}, {N: "coder", S: "B"}, {N: "coder", S: "json"}}, pick(th, 4, 5))...)
			out = append(out, optJobs("manager", []OptVal{{N: "method", S: "HMD5"}, {N: "method", S: "HS256"}, {N: "method", S: "HS512"}, {N: "key", S: "k1"}, {N: "key", S: "key number two"}, {N: "key", S: ""}, {N: "provider", S: "p1"}, {N: "provider", S: "p2"},
				{N: "coder", S: "A"}, {N: "coder", S: "json"}, {N: "coder", S: "xml"}}, pick(th, 4, 5))...)
			return out
		}})
}
