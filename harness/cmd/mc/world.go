package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"time"

	bdb "github.com/boltdb/bolt"
	goredis "github.com/go-redis/redis/v8"
	"github.com/google/uuid"
	"github.com/powerpuffpenguin/sessionid"
	pbolt "github.com/powerpuffpenguin/sessionid/provider/bolt"
	predis "github.com/powerpuffpenguin/sessionid/provider/redis"

	"mcverif/fakeredis"
	"mcverif/vs"
)

// Config describes a world: one store and one or more providers on it.
type Config struct {
	Backend string
	Access  time.Duration
	Refresh time.Duration
	Max     int           `json:",omitempty"`
	Batch   int           `json:",omitempty"`
	Clear   time.Duration `json:",omitempty"`
	N       int           `json:",omitempty"`
	Names   []string      `json:",omitempty"` // bolt buckets / redis prefixes per provider
	MetaKey string        `json:",omitempty"`
	Coder   string        `json:",omitempty"`
	Own     bool          `json:",omitempty"` // the provider opens the file or makes the client itself
	Shared  bool          `json:",omitempty"` // redis: the providers share one client
	Pool    int           `json:",omitempty"` // redis: connections per client
	Retries bool          `json:",omitempty"` // redis: the client retries as it does by default
	Each    []Config      `json:",omitempty"` // lifetimes and limits of each provider, when they differ
	Alt     []Config      `json:",omitempty"` // other lifetimes and limits to reopen the store with
}

func (c Config) String() string {
	s := fmt.Sprintf("%s access=%s refresh=%s", c.Backend, c.Access, c.Refresh)
	if c.Max != 0 {
		s += fmt.Sprintf(" max=%d", c.Max)
	}
	if c.Clear != 0 {
		s += fmt.Sprintf(" clear=%s", c.Clear)
	}
	s += fmt.Sprintf(" batch=%d", c.Batch)
	if c.N > 1 {
		s += fmt.Sprintf(" providers=%d", c.N)
	}
	if len(c.Names) > 0 {
		s += fmt.Sprintf(" names=%q", c.Names)
	}
	for i, e := range c.Each {
		s += fmt.Sprintf(" %d:{%s}", i, e)
	}
	for i, e := range c.Alt {
		s += fmt.Sprintf(" or %d:{%s}", i+1, e)
	}
	if c.Own {
		s += " own"
	}
	if c.Shared {
		s += " shared-client"
	}
	if c.Retries {
		s += " retrying-client"
	}
	if c.Pool > 0 {
		s += fmt.Sprintf(" pool=%d", c.Pool)
	}
	return s
}

// World is one store with its providers.
type World struct {
	scribble bool // overwrite every buffer handed in or out once the call has returned
	hold     bool // keep what was handed out and check at the end that it did not change
	held     []held
	tangled  string // handed-out values that share memory
	c        Config
	set      []int // the setting each provider was opened with
	p        []sessionid.Provider
	srv      *fakeredis.Server
	db       *bdb.DB
	path     string
	ctx      context.Context
	cl       []*goredis.Client
}

var scratch string
var worldSeq int

func scratchDir() string {
	if scratch == "" {
		base := os.Getenv("MCVERIF_SCRATCH") // the parent's directory
		if base == "" {
			base = "/dev/shm"
		}
		if _, err := os.Stat(base); err != nil {
			base = os.TempDir()
		}
		d, err := os.MkdirTemp(base, "mcverif-")
		if err != nil {
			panic(err)
		}
		scratch = d
	}
	return scratch
}

func cleanScratch() {
	if scratch != "" {
		os.RemoveAll(scratch)
		scratch = ""
	}
}

func newPath() string {
	worldSeq++
	return filepath.Join(scratchDir(), fmt.Sprintf("db%d", worldSeq))
}

// resetUUID makes token generation deterministic per execution.
func resetUUID() {
	uuid.SetNodeID([]byte{2, 4, 6, 8, 10, 12})
	uuid.SetClockSequence(2)
	uuid.SetClockSequence(1)
}

func coderOf(name string) sessionid.Coder {
	switch name {
	case "json":
		return sessionid.JSONCoder{}
	case "xml":
		return sessionid.XMLCoder{}
	}
	return sessionid.GOBCoder{}
}

// newWorld builds the store and its providers (call it inside an execution).
func newWorld(c Config) *World {
	w := &World{c: c, ctx: context.Background()}
	if w.c.N == 0 {
		w.c.N = 1
	}
	w.set = make([]int, w.c.N)
	switch c.Backend {
	case "bolt":
		w.path = newPath()
		path := w.path
		cleanup(func() { os.Remove(path) })
		if !c.Own {
			w.openDB()
		}
	case "redis":
		w.srv = fakeredis.New()
		if c.Own {
			fakeredis.DefaultDial = w.srv.Dial
			cleanup(func() { fakeredis.DefaultDial = nil })
		}
	}
	for i := 0; i < w.c.N; i++ {
		p, err := w.open(i)
		if err != nil {
			panic(fmt.Sprintf("mcverif: cannot open provider: %v", err))
		}
		w.p = append(w.p, p)
	}
	return w
}

func (w *World) openDB() {
	db, err := bdb.Open(w.path, 0o600, &bdb.Options{Timeout: 50 * time.Millisecond})
	if err != nil {
		panic(fmt.Sprintf("mcverif: open db: %v", err))
	}
	w.db = db
}

func (w *World) name(i int) string {
	if i < len(w.c.Names) {
		return w.c.Names[i]
	}
	return ""
}

// setting is what differs for provider i, opened with the n-th other setting.
func (c Config) setting(i, n int) *Config {
	if n > 0 && n <= len(c.Alt) {
		return &c.Alt[n-1]
	}
	if i < len(c.Each) {
		return &c.Each[i]
	}
	return nil
}

// open creates provider i.
func (w *World) open(i int) (sessionid.Provider, error) {
	c := w.c
	if e := c.setting(i, w.set[i]); e != nil {
		c.Access, c.Refresh, c.Max, c.Batch, c.Clear, c.MetaKey = e.Access, e.Refresh, e.Max, e.Batch, e.Clear, e.MetaKey
	}
	switch c.Backend {
	case "memory":
		o := []sessionid.ProviderOption{
			sessionid.WithProviderAccess(c.Access), sessionid.WithProviderRefresh(c.Refresh),
			sessionid.WithProviderMaxSize(c.Max), sessionid.WithProviderCheckBatch(c.Batch), sessionid.WithProviderClear(c.Clear),
		}
		return sessionid.NewProvider(o...), nil
	case "bolt":
		o := []pbolt.Option{
			pbolt.WithAccess(c.Access), pbolt.WithRefresh(c.Refresh),
			pbolt.WithMaxSize(c.Max), pbolt.WithCheckBatch(c.Batch), pbolt.WithClear(c.Clear),
		}
		if c.Own {
			o = append(o, pbolt.WithFilename(w.path), pbolt.WithTimeout(50*time.Millisecond))
		} else {
			o = append(o, pbolt.WithDB(w.db))
		}
		if n := w.name(i); n != "" {
			o = append(o, pbolt.WithBucket([]byte(n)))
		}
		p, err := pbolt.New(o...)
		if err != nil {
			return nil, err
		}
		return p, nil
	case "redis":
		o := []predis.Option{
			predis.WithAccess(c.Access), predis.WithRefresh(c.Refresh),
			predis.WithCheckBatch(c.Batch),
		}
		switch {
		case c.Own:
			o = append(o, predis.WithURL("redis://localhost:6379/0"))
		case c.Shared && len(w.cl) > 0:
			o = append(o, predis.WithClient(w.cl[0]))
		default:
			o = append(o, predis.WithClient(w.client()))
		}
		if c.Coder != "" {
			o = append(o, predis.WithCoder(coderOf(c.Coder)))
		}
		if n := w.name(i); n != "" {
			o = append(o, predis.WithKeyPrefix(n))
		}
		if c.MetaKey != "" {
			o = append(o, predis.WithMetadataKey(c.MetaKey))
		}
		p, err := predis.New(o...)
		if err != nil {
			return nil, err
		}
		return p, nil
	}
	panic("unknown backend " + c.Backend)
}

func (w *World) client() *goredis.Client {
	o := &goredis.Options{
		Addr: "mem", Dialer: w.srv.Dial, MaxRetries: -1, IdleCheckFrequency: -1, IdleTimeout: -1,
		MinRetryBackoff: -1, MaxRetryBackoff: -1, PoolSize: 16,
	}
	if w.c.Retries {
		o.MaxRetries = 3
	}
	if w.c.Pool > 0 {
		o.PoolSize = w.c.Pool
		o.PoolTimeout = 200 * time.Millisecond
	}
	cl := goredis.NewClient(o)
	w.cl = append(w.cl, cl)
	return cl
}

type held struct {
	op   Op
	b    []byte
	want string
	ks   []string
	wks  string
}

// heldChanged reports a buffer handed out earlier that has changed since.
func (w *World) heldChanged() string {
	if w.tangled != "" {
		return w.tangled
	}
	for _, h := range w.held {
		if h.b != nil && string(h.b) != h.want {
			return fmt.Sprintf("a value returned by %s changed afterwards: %q, was %q", h.op, h.b, h.want)
		}
		if h.ks != nil && fmt.Sprint(h.ks) != h.wks {
			return fmt.Sprintf("the keys returned by %s changed afterwards: %q, was %s", h.op, h.ks, h.wks)
		}
	}
	return ""
}

func (w *World) keepVals(o Op, v []sessionid.Value) {
	for i := range v {
		b := v[i].Bytes
		if w.hold && b != nil {
			w.held = append(w.held, held{op: o, b: b, want: string(b)})
		}
	}
	if !w.scribble {
		return
	}
	want := make([]string, len(v))
	for i := range v {
		want[i] = string(v[i].Bytes)
	}
	for i := range v {
		// overwrite it and whatever could be appended to it
		b := v[i].Bytes
		b = b[:cap(b)]
		for k := range b {
			b[k] = '#'
		}
		for j := i + 1; j < len(v); j++ {
			if string(v[j].Bytes) != want[j] && w.tangled == "" {
				w.tangled = fmt.Sprintf("overwriting or extending the value number %d returned by %s changed number %d", i, o, j)
			}
		}
		v[i].Exists = !v[i].Exists
	}
}

func (w *World) spoilStrings(s []string) {
	if w.scribble {
		for i := range s {
			s[i] = "spoiled"
		}
	}
}

func (w *World) spoilPairs(kv []sessionid.PairBytes) {
	if !w.scribble {
		return
	}
	for i := range kv {
		for k := range kv[i].Value {
			kv[i].Value[k] = '!'
		}
		kv[i] = sessionid.PairBytes{Key: "spoiled", Value: []byte("spoiled")}
	}
}

// opCtx is the context of one operation: like that of a request it ends when
// the operation has returned; cut > 0 ends it when it is looked at for the
// cut-th time.
func (w *World) opCtx(cut int) (context.Context, func()) {
	if cut > 0 && w.c.Backend != "redis" {
		return &cutCtx{Context: w.ctx, left: cut, ch: make(chan struct{})}, func() {}
	}
	ctx, end := context.WithCancel(w.ctx)
	if cut > 0 {
		end()
	}
	return ctx, end
}

type cutCtx struct {
	context.Context
	left int
	ch   chan struct{}
}

func (c *cutCtx) look() {
	if c.left--; c.left == 0 {
		close(c.ch)
	}
}

func (c *cutCtx) Done() <-chan struct{} {
	c.look()
	return c.ch
}

func (c *cutCtx) Err() error {
	if c.look(); c.left <= 0 {
		return context.Canceled
	}
	return nil
}

// Do performs the operation on the real provider.
func (w *World) Do(o Op) (r Res) {
	ctx, end := w.opCtx(o.Cut)
	defer end()
	switch o.K {
	case OpTick:
		vs.AdvanceQuiet(time.Duration(o.D))
		return
	case OpJump:
		vs.Advance(time.Duration(o.D))
		return
	}
	p := w.p[o.P]
	switch o.K {
	case OpCreate:
		kv := o.pairs()
		r.Err = errClass(p.Create(ctx, o.T, o.R, kv))
		w.spoilPairs(kv)
	case OpPut:
		kv := o.pairs()
		r.Err = errClass(p.Put(ctx, o.T, kv))
		w.spoilPairs(kv)
	case OpGet:
		ks := append([]string(nil), o.Keys...)
		v, e := p.Get(ctx, o.T, ks)
		r.Err = errClass(e)
		if e == nil {
			r.Vals = valStrings(v)
			w.keepVals(o, v)
		}
		w.spoilStrings(ks)
	case OpKeys:
		k, e := p.Keys(ctx, o.T)
		r.Err = errClass(e)
		if e == nil {
			r.Keys = sorted(k)
			if w.hold && k != nil {
				w.held = append(w.held, held{op: o, ks: k, wks: fmt.Sprint(k)})
			}
			w.spoilStrings(k)
		}
	case OpDelete:
		ks := append([]string(nil), o.Keys...)
		r.Err = errClass(p.Delete(ctx, o.T, ks))
		w.spoilStrings(ks)
	case OpCheck:
		r.Err = errClass(p.Check(ctx, o.T))
	case OpRefresh:
		r.Err = errClass(p.Refresh(ctx, o.T, o.R, o.NT, o.NR))
	case OpDestroyToken:
		r.Err = errClass(p.DestroyByToken(ctx, o.T))
	case OpDestroyID:
		r.Err = errClass(p.Destroy(ctx, o.ID))
	case OpClose:
		r.Err = errClass(p.Close())
	case OpClear:
		if b, ok := p.(*pbolt.Provider); ok {
			r.Err = errClass(b.Clear())
		}
	case OpReopen:
		p.Close()
		if o.D > 0 {
			w.set[o.P] = int(o.D) - 1
		}
		np, err := w.open(o.P)
		if err != nil {
			r.Err = errClass(err)
		} else {
			w.p[o.P] = np
		}
	}
	return
}

// Done releases what the world holds (inside the execution).
func (w *World) Done() {
	vs.Explore(false)
	for _, p := range w.p {
		p.Close()
	}
	if w.db != nil {
		w.db.Close()
	}
	for _, c := range w.cl {
		c.Close()
	}
	if w.path != "" {
		os.Remove(w.path)
	}
}
