// Package fakeredis is an in-process redis server for the explorer: it speaks
// RESP2 over an in-memory net.Conn, executes every command atomically at a
// scheduling point, keeps its key expiry on the virtual clock and can be told
// to fail.  It implements the documented semantics of the commands a session
// store can reasonably use.
package fakeredis

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"mcverif/vs"
)

// Fault is what happens to one command.
type Fault int

const (
	None       Fault = iota
	DropBefore       // the connection breaks before the command is executed
	DropAfter        // the command is executed, its reply is lost
	ErrReply         // the server answers with an error, nothing is executed
)

type entry struct {
	hash   map[string]string
	set    map[string]bool
	str    *string
	expire int64 // unix ms, 0 none
}

// Server is one redis server.
type Server struct {
	mu       sync.Mutex // native callers only (TCP mode)
	db       map[string]*entry
	version  map[string]int
	vcount   int
	Commands int
	// OnCommand, when set, is asked before every executed unit (a command, or
	// a whole MULTI/EXEC).
	OnCommand func(unit []string) Fault
	// DialFault, when set, makes dialing fail.
	DialFault func() error
	// Before, when set, is called before every executed unit, outside of the
	// server; it reports whether the execution is being torn down.
	Before   func(unit []string) bool
	NoPoints bool
	Now      func() int64 // unix ms
	conns    []*Conn
	Log      []string
	KeepLog  bool
	Unknown  []string
	Selected []string // databases connections have selected
	io       byte     // orders all commands, as the runtime orders reads from and writes to sockets
}

// DefaultDial, when set, replaces the network for clients made without a dialer.
var DefaultDial func(ctx context.Context, network, addr string) (net.Conn, error)

// New returns an empty server on the virtual clock.
func New() *Server {
	return &Server{db: map[string]*entry{}, version: map[string]int{}, Now: func() int64 {
		return vs.Epoch.UnixNano()/1e6 + vs.NowNS()/1e6
	}}
}

// Dial is a redis.Options.Dialer.
func (s *Server) Dial(ctx context.Context, network, addr string) (net.Conn, error) {
	if s.DialFault != nil {
		if e := s.DialFault(); e != nil {
			return nil, e
		}
	}
	vs.Acquire(&s.io)
	defer vs.Release(&s.io)
	c := &Conn{s: s}
	s.conns = append(s.conns, c)
	return c, nil
}

// OpenConns counts connections that have not been closed.
func (s *Server) OpenConns() int {
	n := 0
	for _, c := range s.conns {
		if !c.closed {
			n++
		}
	}
	return n
}

// Conn is one client connection.
type Conn struct {
	s       *Server
	in      bytes.Buffer
	out     bytes.Buffer
	closed  bool
	broken  bool
	multi   bool
	dirtyTx bool
	queue   [][]string
	watch   map[string]int
}

func (c *Conn) Close() error                     { c.closed = true; return nil }
func (c *Conn) LocalAddr() net.Addr              { return addr{} }
func (c *Conn) RemoteAddr() net.Addr             { return addr{} }
func (c *Conn) SetDeadline(time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(time.Time) error { return nil }

type addr struct{}

func (addr) Network() string { return "mem" }
func (addr) String() string  { return "mem" }

var errBroken = errors.New("fakeredis: connection reset")

func (c *Conn) Read(b []byte) (int, error) {
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.out.Len() > 0 {
		return c.out.Read(b)
	}
	if c.broken {
		return 0, io.EOF
	}
	return 0, errors.New("fakeredis: read with no reply pending")
}

func (c *Conn) Write(b []byte) (int, error) {
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.broken {
		return 0, errBroken
	}
	c.in.Write(b)
	c.serve()
	return len(b), nil
}

// serve executes every complete command in the input buffer.
func (c *Conn) serve() {
	for !c.broken {
		data := c.in.Bytes()
		args, n := parse(data)
		if n == 0 {
			return
		}
		c.in.Next(n)
		c.command(args)
	}
}

func parse(b []byte) (args []string, used int) {
	if len(b) == 0 || b[0] != '*' {
		return nil, 0
	}
	pos := 0
	line := func() (string, bool) {
		i := bytes.Index(b[pos:], []byte("\r\n"))
		if i < 0 {
			return "", false
		}
		s := string(b[pos : pos+i])
		pos += i + 2
		return s, true
	}
	h, ok := line()
	if !ok {
		return nil, 0
	}
	n, _ := strconv.Atoi(h[1:])
	for i := 0; i < n; i++ {
		h, ok = line()
		if !ok || h == "" || h[0] != '$' {
			return nil, 0
		}
		l, _ := strconv.Atoi(h[1:])
		if len(b) < pos+l+2 {
			return nil, 0
		}
		args = append(args, string(b[pos:pos+l]))
		pos += l + 2
	}
	return args, pos
}

func (c *Conn) errf(f string, a ...interface{}) { fmt.Fprintf(&c.out, "-"+f+"\r\n", a...) }

func (c *Conn) command(args []string) {
	s := c.s
	if len(args) == 0 {
		c.errf("ERR empty command")
		return
	}
	name := strings.ToUpper(args[0])
	args[0] = name
	if c.multi && name != "EXEC" && name != "DISCARD" && name != "MULTI" && name != "WATCH" {
		if _, ok := table[name]; !ok {
			c.dirtyTx = true
			s.Unknown = append(s.Unknown, name)
			c.errf("ERR unknown command '%s'", name)
			return
		}
		c.queue = append(c.queue, args)
		c.out.WriteString("+QUEUED\r\n")
		return
	}
	switch name {
	case "MULTI":
		if c.multi {
			c.errf("ERR MULTI calls can not be nested")
			return
		}
		c.multi, c.queue, c.dirtyTx = true, nil, false
		c.out.WriteString("+OK\r\n")
		return
	case "DISCARD":
		if !c.multi {
			c.errf("ERR DISCARD without MULTI")
			return
		}
		c.multi, c.queue, c.watch = false, nil, nil
		c.out.WriteString("+OK\r\n")
		return
	}
	// an executed unit
	if !s.NoPoints {
		if vs.PointSoft() {
			c.broken = true
			return
		}
	}
	unit := args
	if name == "EXEC" {
		unit = []string{"EXEC"}
		for _, q := range c.queue {
			unit = append(unit, q[0])
		}
	}
	if s.Before != nil && s.Before(unit) {
		c.broken = true
		return
	}
	vs.Acquire(&s.io)
	defer vs.Release(&s.io)
	s.Commands++
	if s.KeepLog {
		s.Log = append(s.Log, strings.Join(unit, " "))
	}
	f := None
	if s.OnCommand != nil {
		f = s.OnCommand(unit)
	}
	switch f {
	case DropBefore:
		c.broken = true
		c.out.Reset()
		return
	case ErrReply:
		if name == "EXEC" {
			c.multi, c.queue, c.watch = false, nil, nil
		}
		c.errf("LOADING Redis is loading the dataset in memory")
		return
	}
	mark := c.out.Len()
	switch name {
	case "EXEC":
		c.exec()
	case "WATCH":
		if c.multi {
			c.errf("ERR WATCH inside MULTI is not allowed")
			break
		}
		if c.watch == nil {
			c.watch = map[string]int{}
		}
		for _, k := range args[1:] {
			s.get(k)
			if _, ok := c.watch[k]; !ok {
				c.watch[k] = s.version[k]
			}
		}
		c.out.WriteString("+OK\r\n")
	case "UNWATCH":
		c.watch = nil
		c.out.WriteString("+OK\r\n")
	default:
		c.run(args)
	}
	if f == DropAfter {
		c.out.Truncate(mark)
		c.out.Reset()
		c.broken = true
	}
}

func (c *Conn) exec() {
	s := c.s
	if !c.multi {
		c.errf("ERR EXEC without MULTI")
		return
	}
	q, w, bad := c.queue, c.watch, c.dirtyTx
	c.multi, c.queue, c.watch, c.dirtyTx = false, nil, nil, false
	if bad {
		c.errf("EXECABORT Transaction discarded because of previous errors.")
		return
	}
	for k, v := range w {
		s.get(k) // lazy expiry counts as a change
		if s.version[k] != v {
			c.out.WriteString("*-1\r\n")
			return
		}
	}
	fmt.Fprintf(&c.out, "*%d\r\n", len(q))
	for _, a := range q {
		c.run(a)
	}
}

// ---- keyspace ----

func (s *Server) touch(k string) { s.vcount++; s.version[k] = s.vcount }

func (s *Server) get(k string) *entry {
	e := s.db[k]
	if e == nil {
		return nil
	}
	if e.expire != 0 && s.Now() > e.expire {
		delete(s.db, k)
		s.touch(k)
		return nil
	}
	return e
}

func (s *Server) keys() []string {
	var out []string
	for k := range s.db {
		out = append(out, k)
	}
	sort.Strings(out)
	var live []string
	for _, k := range out {
		if s.get(k) != nil {
			live = append(live, k)
		}
	}
	return live
}

// scanPage returns at least count of the names from the cursor on, unless
// there are less, and the cursor to go on with. Names come in the order of a
// hash, so that those that are there all the time are found whatever comes
// and goes meanwhile.
func scanPage(all []string, cur uint64, count int) (page []string, next uint64) {
	type slot struct {
		at   uint64
		name string
	}
	var rest []slot
	for _, k := range all {
		at := uint64(2166136261)
		for i := 0; i < len(k); i++ {
			at = (at ^ uint64(k[i])) * 16777619 & 0xffffffff
		}
		if at++; at >= cur {
			rest = append(rest, slot{at, k})
		}
	}
	sort.SliceStable(rest, func(i, j int) bool { return rest[i].at < rest[j].at })
	for i, r := range rest {
		if i >= count && r.at != rest[i-1].at {
			return page, r.at
		}
		page = append(page, r.name)
	}
	return page, 0
}

// Keys lists the live keys.
func (s *Server) Keys() []string { return s.keys() }

// Dump renders the live database canonically; expiry is relative to now.
func (s *Server) Dump() string {
	var b strings.Builder
	now := s.Now()
	for _, k := range s.keys() {
		e := s.db[k]
		fmt.Fprintf(&b, "%q", k)
		if e.expire != 0 {
			fmt.Fprintf(&b, " ttl=%d", e.expire-now)
		}
		var fs []string
		for f, v := range e.hash {
			fs = append(fs, fmt.Sprintf("%q=%q", f, v))
		}
		for f := range e.set {
			fs = append(fs, fmt.Sprintf("%q", f))
		}
		if e.str != nil {
			fs = append(fs, fmt.Sprintf("%q", *e.str))
		}
		sort.Strings(fs)
		b.WriteString(" {" + strings.Join(fs, ",") + "}\n")
	}
	return b.String()
}

// TTL reports the remaining life of a key in ms: -1 none, -2 no such key.
func (s *Server) TTL(k string) int64 {
	e := s.get(k)
	if e == nil {
		return -2
	}
	if e.expire == 0 {
		return -1
	}
	return e.expire - s.Now()
}

// Set writes a plain string key (foreign data sharing the server).
func (s *Server) Set(k, v string) { s.db[k] = &entry{str: &v}; s.touch(k) }

// SetHash writes a hash key (foreign data sharing the server).
func (s *Server) SetHash(k string, kv ...string) {
	e := &entry{hash: map[string]string{}}
	for i := 0; i+1 < len(kv); i += 2 {
		e.hash[kv[i]] = kv[i+1]
	}
	s.db[k] = e
	s.touch(k)
}

const wrongType = "WRONGTYPE Operation against a key holding the wrong kind of value"

// reply writers
func (c *Conn) integer(n int64) { fmt.Fprintf(&c.out, ":%d\r\n", n) }
func (c *Conn) ok()             { c.out.WriteString("+OK\r\n") }
func (c *Conn) bulk(s string)   { fmt.Fprintf(&c.out, "$%d\r\n%s\r\n", len(s), s) }
func (c *Conn) null()           { c.out.WriteString("$-1\r\n") }
func (c *Conn) array(n int)     { fmt.Fprintf(&c.out, "*%d\r\n", n) }
func (c *Conn) strs(ss []string) {
	c.array(len(ss))
	for _, x := range ss {
		c.bulk(x)
	}
}

func (c *Conn) run(a []string) {
	f, ok := table[a[0]]
	if !ok {
		c.s.Unknown = append(c.s.Unknown, a[0])
		c.errf("ERR unknown command '%s'", a[0])
		return
	}
	if len(a)-1 < f.min {
		c.errf("ERR wrong number of arguments for '%s' command", strings.ToLower(a[0]))
		return
	}
	f.f(c, a)
}

type cmd struct {
	min int
	f   func(c *Conn, a []string)
}

var table map[string]cmd

func (c *Conn) hash(k string, create bool) (map[string]string, bool) {
	e := c.s.get(k)
	if e == nil {
		if !create {
			return nil, true
		}
		e = &entry{hash: map[string]string{}}
		c.s.db[k] = e
	}
	if e.hash == nil {
		c.errf(wrongType)
		return nil, false
	}
	return e.hash, true
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (c *Conn) expireAt(k string, when int64) {
	s := c.s
	e := s.get(k)
	if e == nil {
		c.integer(0)
		return
	}
	if when <= s.Now() {
		delete(s.db, k)
	} else {
		e.expire = when
	}
	s.touch(k)
	c.integer(1)
}

func del(c *Conn, a []string) {
	n := int64(0)
	for _, k := range a[1:] {
		if c.s.get(k) != nil {
			delete(c.s.db, k)
			c.s.touch(k)
			n++
		}
	}
	c.integer(n)
}

func num(c *Conn, s string) (int64, bool) {
	n, e := strconv.ParseInt(s, 10, 64)
	if e != nil {
		c.errf("ERR value is not an integer or out of range")
		return 0, false
	}
	return n, true
}

func expireCmd(unit int64, rel bool) func(c *Conn, a []string) {
	return func(c *Conn, a []string) {
		n, ok := num(c, a[2])
		if !ok {
			return
		}
		n *= unit
		if rel {
			n += c.s.Now()
		}
		if e := c.s.get(a[1]); e != nil {
			// no time to live counts as an endless one
			for _, o := range a[3:] {
				refused := false
				switch strings.ToUpper(o) {
				case "NX":
					refused = e.expire != 0
				case "XX":
					refused = e.expire == 0
				case "GT":
					refused = e.expire == 0 || n <= e.expire
				case "LT":
					refused = e.expire != 0 && n >= e.expire
				default:
					c.errf("ERR Unsupported option %s", o)
					return
				}
				if refused {
					c.integer(0)
					return
				}
			}
		}
		c.expireAt(a[1], n)
	}
}

// expireTimeCmd reports the absolute time in the unit.
func expireTimeCmd(unit int64) func(c *Conn, a []string) {
	return func(c *Conn, a []string) {
		t := c.s.TTL(a[1])
		if t > 0 {
			t = (t + c.s.Now() + unit/2) / unit
		}
		c.integer(t)
	}
}

func (c *Conn) str(k string) (v string, exists, ok bool) {
	e := c.s.get(k)
	if e == nil {
		return "", false, true
	}
	if e.str == nil {
		c.errf(wrongType)
		return "", false, false
	}
	return *e.str, true, true
}

func setex(unit int64) func(c *Conn, a []string) {
	return func(c *Conn, a []string) {
		n, ok := num(c, a[2])
		if !ok {
			return
		}
		if n <= 0 {
			c.errf("ERR invalid expire time in '%s' command", strings.ToLower(a[0]))
			return
		}
		v := a[3]
		c.s.db[a[1]] = &entry{str: &v, expire: c.s.Now() + n*unit}
		c.s.touch(a[1])
		c.ok()
	}
}

func incr(by func(c *Conn, a []string) (int64, bool)) func(c *Conn, a []string) {
	return func(c *Conn, a []string) {
		n, ok := by(c, a)
		if !ok {
			return
		}
		v, exists, ok := c.str(a[1])
		if !ok {
			return
		}
		e := &entry{}
		if exists {
			old, ok := num(c, v)
			if !ok {
				return
			}
			n += old
			e.expire = c.s.get(a[1]).expire
		}
		v = strconv.FormatInt(n, 10)
		e.str = &v
		c.s.db[a[1]] = e
		c.s.touch(a[1])
		c.integer(n)
	}
}

func ttlCmd(unit int64) func(c *Conn, a []string) {
	return func(c *Conn, a []string) {
		t := c.s.TTL(a[1])
		if t > 0 {
			t = (t + unit/2) / unit
		}
		c.integer(t)
	}
}

func init() {
	table = map[string]cmd{
		"PING":     {0, func(c *Conn, a []string) { c.out.WriteString("+PONG\r\n") }},
		"ECHO":     {1, func(c *Conn, a []string) { c.bulk(a[1]) }},
		"SELECT":   {1, func(c *Conn, a []string) { c.s.Selected = append(c.s.Selected, a[1]); c.ok() }},
		"AUTH":     {1, func(c *Conn, a []string) { c.ok() }},
		"CLIENT":   {1, func(c *Conn, a []string) { c.ok() }},
		"READONLY": {0, func(c *Conn, a []string) { c.ok() }},
		"QUIT":     {0, func(c *Conn, a []string) { c.ok() }},
		"TIME": {0, func(c *Conn, a []string) {
			n := c.s.Now()
			c.strs([]string{strconv.FormatInt(n/1000, 10), strconv.FormatInt(n%1000*1000, 10)})
		}},
		"DEL":    {1, del},
		"UNLINK": {1, del},
		"EXISTS": {1, func(c *Conn, a []string) {
			n := int64(0)
			for _, k := range a[1:] {
				if c.s.get(k) != nil {
					n++
				}
			}
			c.integer(n)
		}},
		"TYPE": {1, func(c *Conn, a []string) {
			e := c.s.get(a[1])
			switch {
			case e == nil:
				c.out.WriteString("+none\r\n")
			case e.hash != nil:
				c.out.WriteString("+hash\r\n")
			case e.set != nil:
				c.out.WriteString("+set\r\n")
			default:
				c.out.WriteString("+string\r\n")
			}
		}},
		"KEYS": {1, func(c *Conn, a []string) {
			var out []string
			for _, k := range c.s.keys() {
				if Match(a[1], k) {
					out = append(out, k)
				}
			}
			c.strs(out)
		}},
		"SCAN": {1, func(c *Conn, a []string) {
			pat, typ, count := "*", "", 10
			for i := 2; i+1 < len(a); i += 2 {
				switch strings.ToUpper(a[i]) {
				case "MATCH":
					pat = a[i+1]
				case "TYPE":
					typ = strings.ToLower(a[i+1])
				case "COUNT":
					if n, _ := strconv.Atoi(a[i+1]); n > 0 {
						count = n
					}
				}
			}
			cur, _ := strconv.ParseUint(a[1], 10, 64)
			all := c.s.keys()
			if len(all) <= 64 {
				count = 1 // so that callers must follow the cursor
			} else if count < len(all)/16 {
				count = len(all) / 16
			}
			page, next := scanPage(all, cur, count)
			var out []string
			for _, k := range page {
				if Match(pat, k) && (typ == "" || (typ == "hash") == (c.s.db[k].hash != nil)) {
					out = append(out, k)
				}
			}
			c.array(2)
			c.bulk(strconv.FormatUint(next, 10))
			c.strs(out)
		}},
		"RENAME": {2, func(c *Conn, a []string) {
			e := c.s.get(a[1])
			if e == nil {
				c.errf("ERR no such key")
				return
			}
			delete(c.s.db, a[1])
			c.s.db[a[2]] = e
			c.s.touch(a[1])
			c.s.touch(a[2])
			c.ok()
		}},
		"RENAMENX": {2, func(c *Conn, a []string) {
			e := c.s.get(a[1])
			if e == nil {
				c.errf("ERR no such key")
				return
			}
			if c.s.get(a[2]) != nil {
				c.integer(0)
				return
			}
			delete(c.s.db, a[1])
			c.s.db[a[2]] = e
			c.s.touch(a[1])
			c.s.touch(a[2])
			c.integer(1)
		}},
		"COPY": {2, func(c *Conn, a []string) {
			e := c.s.get(a[1])
			if e == nil || (c.s.get(a[2]) != nil && !(len(a) > 3 && strings.EqualFold(a[3], "REPLACE"))) {
				c.integer(0)
				return
			}
			x := *e
			if e.hash != nil {
				x.hash = map[string]string{}
				for k, v := range e.hash {
					x.hash[k] = v
				}
			}
			c.s.db[a[2]] = &x
			c.s.touch(a[2])
			c.integer(1)
		}},
		"EXPIRE":      {2, expireCmd(1000, true)},
		"PEXPIRE":     {2, expireCmd(1, true)},
		"EXPIREAT":    {2, expireCmd(1000, false)},
		"PEXPIREAT":   {2, expireCmd(1, false)},
		"TTL":         {1, ttlCmd(1000)},
		"PTTL":        {1, ttlCmd(1)},
		"EXPIRETIME":  {1, expireTimeCmd(1000)},
		"PEXPIRETIME": {1, expireTimeCmd(1)},
		"SETEX":       {3, setex(1000)},
		"PSETEX":      {3, setex(1)},
		"SETNX": {2, func(c *Conn, a []string) {
			if c.s.get(a[1]) != nil {
				c.integer(0)
				return
			}
			v := a[2]
			c.s.db[a[1]] = &entry{str: &v}
			c.s.touch(a[1])
			c.integer(1)
		}},
		"GETDEL": {1, func(c *Conn, a []string) {
			v, exists, ok := c.str(a[1])
			if !ok {
				return
			}
			if !exists {
				c.null()
				return
			}
			delete(c.s.db, a[1])
			c.s.touch(a[1])
			c.bulk(v)
		}},
		"STRLEN": {1, func(c *Conn, a []string) {
			if v, _, ok := c.str(a[1]); ok {
				c.integer(int64(len(v)))
			}
		}},
		"MGET": {1, func(c *Conn, a []string) {
			c.array(len(a) - 1)
			for _, k := range a[1:] {
				if e := c.s.get(k); e != nil && e.str != nil {
					c.bulk(*e.str)
				} else {
					c.null()
				}
			}
		}},
		"MSET": {2, func(c *Conn, a []string) {
			if len(a)%2 != 1 {
				c.errf("ERR wrong number of arguments for 'mset' command")
				return
			}
			for i := 1; i < len(a); i += 2 {
				v := a[i+1]
				c.s.db[a[i]] = &entry{str: &v}
				c.s.touch(a[i])
			}
			c.ok()
		}},
		"INCR":   {1, incr(func(c *Conn, a []string) (int64, bool) { return 1, true })},
		"DECR":   {1, incr(func(c *Conn, a []string) (int64, bool) { return -1, true })},
		"INCRBY": {2, incr(func(c *Conn, a []string) (int64, bool) { return num(c, a[2]) })},
		"DECRBY": {2, incr(func(c *Conn, a []string) (int64, bool) { n, ok := num(c, a[2]); return -n, ok })},
		"HINCRBY": {3, func(c *Conn, a []string) {
			n, ok := num(c, a[3])
			if !ok {
				return
			}
			h, ok := c.hash(a[1], false)
			if !ok {
				return
			}
			if v, ok := h[a[2]]; ok {
				old, ok := num(c, v)
				if !ok {
					return
				}
				n += old
			}
			h, _ = c.hash(a[1], true)
			h[a[2]] = strconv.FormatInt(n, 10)
			c.s.touch(a[1])
			c.integer(n)
		}},
		"TOUCH": {1, func(c *Conn, a []string) {
			n := int64(0)
			for _, k := range a[1:] {
				if c.s.get(k) != nil {
					n++
				}
			}
			c.integer(n)
		}},
		"DBSIZE": {0, func(c *Conn, a []string) { c.integer(int64(len(c.s.keys()))) }},
		"SISMEMBER": {2, func(c *Conn, a []string) {
			e := c.s.get(a[1])
			switch {
			case e != nil && e.set == nil:
				c.errf(wrongType)
			case e != nil && e.set[a[2]]:
				c.integer(1)
			default:
				c.integer(0)
			}
		}},
		"SCARD": {1, func(c *Conn, a []string) {
			e := c.s.get(a[1])
			switch {
			case e == nil:
				c.integer(0)
			case e.set == nil:
				c.errf(wrongType)
			default:
				c.integer(int64(len(e.set)))
			}
		}},
		"PERSIST": {1, func(c *Conn, a []string) {
			e := c.s.get(a[1])
			if e == nil || e.expire == 0 {
				c.integer(0)
				return
			}
			e.expire = 0
			c.s.touch(a[1])
			c.integer(1)
		}},
		"HSET":  {3, hset(false)},
		"HMSET": {3, hset(true)},
		"HSETNX": {3, func(c *Conn, a []string) {
			h, ok := c.hash(a[1], true)
			if !ok {
				return
			}
			if _, ok := h[a[2]]; ok {
				c.integer(0)
				return
			}
			h[a[2]] = a[3]
			c.s.touch(a[1])
			c.integer(1)
		}},
		"HGET": {2, func(c *Conn, a []string) {
			h, ok := c.hash(a[1], false)
			if !ok {
				return
			}
			if v, ok := h[a[2]]; ok {
				c.bulk(v)
			} else {
				c.null()
			}
		}},
		"HMGET": {2, func(c *Conn, a []string) {
			h, ok := c.hash(a[1], false)
			if !ok {
				return
			}
			c.array(len(a) - 2)
			for _, f := range a[2:] {
				if v, ok := h[f]; ok {
					c.bulk(v)
				} else {
					c.null()
				}
			}
		}},
		"HGETALL": {1, func(c *Conn, a []string) {
			h, ok := c.hash(a[1], false)
			if !ok {
				return
			}
			c.array(2 * len(h))
			for _, f := range sortedKeys(h) {
				c.bulk(f)
				c.bulk(h[f])
			}
		}},
		"HKEYS": {1, func(c *Conn, a []string) {
			h, ok := c.hash(a[1], false)
			if ok {
				c.strs(sortedKeys(h))
			}
		}},
		"HVALS": {1, func(c *Conn, a []string) {
			h, ok := c.hash(a[1], false)
			if !ok {
				return
			}
			c.array(len(h))
			for _, f := range sortedKeys(h) {
				c.bulk(h[f])
			}
		}},
		"HLEN": {1, func(c *Conn, a []string) {
			h, ok := c.hash(a[1], false)
			if ok {
				c.integer(int64(len(h)))
			}
		}},
		"HSTRLEN": {2, func(c *Conn, a []string) {
			h, ok := c.hash(a[1], false)
			if ok {
				c.integer(int64(len(h[a[2]])))
			}
		}},
		"HEXISTS": {2, func(c *Conn, a []string) {
			h, ok := c.hash(a[1], false)
			if !ok {
				return
			}
			if _, ok := h[a[2]]; ok {
				c.integer(1)
			} else {
				c.integer(0)
			}
		}},
		"HDEL": {2, func(c *Conn, a []string) {
			h, ok := c.hash(a[1], false)
			if !ok {
				return
			}
			n := int64(0)
			for _, f := range a[2:] {
				if _, ok := h[f]; ok {
					delete(h, f)
					n++
				}
			}
			if n > 0 {
				c.s.touch(a[1])
				if len(h) == 0 {
					delete(c.s.db, a[1])
				}
			}
			c.integer(n)
		}},
		"HSCAN": {2, func(c *Conn, a []string) {
			h, ok := c.hash(a[1], false)
			if !ok {
				return
			}
			pat, count := "*", 10
			for i := 3; i+1 < len(a); i += 2 {
				switch strings.ToUpper(a[i]) {
				case "MATCH":
					pat = a[i+1]
				case "COUNT":
					if n, _ := strconv.Atoi(a[i+1]); n > 0 {
						count = n
					}
				}
			}
			cur, _ := strconv.ParseUint(a[2], 10, 64)
			all := sortedKeys(h)
			if len(all) <= 128 {
				count = len(all) // small ones come in one piece
			}
			page, next := scanPage(all, cur, count)
			var out []string
			for _, k := range page {
				if Match(pat, k) {
					out = append(out, k, h[k])
				}
			}
			c.array(2)
			c.bulk(strconv.FormatUint(next, 10))
			c.strs(out)
		}},
		"GET": {1, func(c *Conn, a []string) {
			e := c.s.get(a[1])
			if e == nil {
				c.null()
			} else if e.str == nil {
				c.errf(wrongType)
			} else {
				c.bulk(*e.str)
			}
		}},
		"SET": {2, func(c *Conn, a []string) {
			e := &entry{}
			v := a[2]
			e.str = &v
			nx, xx := false, false
			for i := 3; i < len(a); i++ {
				switch strings.ToUpper(a[i]) {
				case "NX":
					nx = true
				case "XX":
					xx = true
				case "EX", "PX":
					if i+1 < len(a) {
						n, ok := num(c, a[i+1])
						if !ok {
							return
						}
						if strings.EqualFold(a[i], "EX") {
							n *= 1000
						}
						e.expire = c.s.Now() + n
						i++
					}
				case "KEEPTTL":
					if o := c.s.get(a[1]); o != nil {
						e.expire = o.expire
					}
				}
			}
			old := c.s.get(a[1])
			if (nx && old != nil) || (xx && old == nil) {
				c.null()
				return
			}
			c.s.db[a[1]] = e
			c.s.touch(a[1])
			c.ok()
		}},
		"SADD": {2, func(c *Conn, a []string) {
			e := c.s.get(a[1])
			if e == nil {
				e = &entry{set: map[string]bool{}}
				c.s.db[a[1]] = e
			}
			if e.set == nil {
				c.errf(wrongType)
				return
			}
			n := int64(0)
			for _, m := range a[2:] {
				if !e.set[m] {
					e.set[m] = true
					n++
				}
			}
			c.s.touch(a[1])
			c.integer(n)
		}},
		"SREM": {2, func(c *Conn, a []string) {
			e := c.s.get(a[1])
			if e == nil {
				c.integer(0)
				return
			}
			if e.set == nil {
				c.errf(wrongType)
				return
			}
			n := int64(0)
			for _, m := range a[2:] {
				if e.set[m] {
					delete(e.set, m)
					n++
				}
			}
			if len(e.set) == 0 {
				delete(c.s.db, a[1])
			}
			c.s.touch(a[1])
			c.integer(n)
		}},
		"SMEMBERS": {1, func(c *Conn, a []string) {
			e := c.s.get(a[1])
			if e == nil {
				c.array(0)
				return
			}
			if e.set == nil {
				c.errf(wrongType)
				return
			}
			c.strs(sortedKeys(e.set))
		}},
	}
}

func hset(m bool) func(c *Conn, a []string) {
	return func(c *Conn, a []string) {
		if len(a)%2 != 0 {
			c.errf("ERR wrong number of arguments for 'hset' command")
			return
		}
		h, ok := c.hash(a[1], true)
		if !ok {
			return
		}
		n := int64(0)
		for i := 2; i+1 < len(a); i += 2 {
			if _, ok := h[a[i]]; !ok {
				n++
			}
			h[a[i]] = a[i+1]
		}
		c.s.touch(a[1])
		if m {
			c.ok()
		} else {
			c.integer(n)
		}
	}
}

// Match is redis' glob matching.
func Match(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for len(p) > 1 && p[1] == '*' {
				p = p[1:]
			}
			if len(p) == 1 {
				return true
			}
			for i := 0; i <= len(s); i++ {
				if Match(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if len(s) == 0 {
				return false
			}
			s = s[1:]
		case '[':
			if len(s) == 0 {
				return false
			}
			p = p[1:]
			not := len(p) > 0 && p[0] == '^'
			if not {
				p = p[1:]
			}
			match := false
			for {
				if len(p) >= 2 && p[0] == '\\' {
					p = p[1:]
					if p[0] == s[0] {
						match = true
					}
				} else if len(p) > 0 && p[0] == ']' {
					break
				} else if len(p) == 0 {
					break
				} else if len(p) >= 3 && p[1] == '-' {
					lo, hi := p[0], p[2]
					if lo > hi {
						lo, hi = hi, lo
					}
					p = p[2:]
					if s[0] >= lo && s[0] <= hi {
						match = true
					}
				} else if p[0] == s[0] {
					match = true
				}
				p = p[1:]
			}
			if not {
				match = !match
			}
			if !match {
				return false
			}
			s = s[1:]
			if len(p) == 0 {
				return len(s) == 0
			}
		case '\\':
			if len(p) >= 2 {
				p = p[1:]
			}
			if len(s) == 0 || s[0] != p[0] {
				return false
			}
			s = s[1:]
		default:
			if len(s) == 0 || s[0] != p[0] {
				return false
			}
			s = s[1:]
		}
		p = p[1:]
	}
	return len(s) == 0
}

// Serve answers native TCP connections until the listener closes.
func (s *Server) Serve(l net.Listener) {
	for {
		nc, err := l.Accept()
		if err != nil {
			return
		}
		go func() {
			defer nc.Close()
			c := &Conn{s: s}
			buf := make([]byte, 4096)
			for {
				n, err := nc.Read(buf)
				if err != nil {
					return
				}
				s.mu.Lock()
				c.in.Write(buf[:n])
				c.serve()
				out := append([]byte{}, c.out.Bytes()...)
				c.out.Reset()
				s.mu.Unlock()
				if _, err := nc.Write(out); err != nil {
					return
				}
			}
		}()
	}
}
