package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/powerpuffpenguin/sessionid"
)

// MSess is one session of the reference model.
type MSess struct {
	id, access, refresh string
	aDead, rDead        int64
	data                map[string]string
	order               int
	doomed              int64
}

// Model is the reference model: a map of sessions, nothing else.
type Model struct {
	cfg    Config
	set    []int  // the setting each provider was opened with
	closed []bool // per provider
	shared bool   // closing one provider does not close the store
	sess   map[string]*MSess
	seq    int
	now    int64
	lazy   bool             // death is judged at each access, nothing is dropped
	meta   string           // redis: the reserved key
	bolt   bool             // keys are limited as in the database
	died   map[string]int64 // when sessions ended by age ended
}

func newModel(c Config) *Model {
	m := &Model{cfg: c, sess: map[string]*MSess{}, died: map[string]int64{}, meta: c.MetaKey}
	if c.Backend == "redis" && c.MetaKey == "" {
		m.meta = "__private_provider_redis"
	}
	m.bolt = c.Backend == "bolt"
	n := c.N
	if n == 0 {
		n = 1
	}
	m.closed = make([]bool, n)
	m.set = make([]int, n)
	return m
}

func (m *Model) clone() *Model {
	x := *m
	x.closed = append([]bool{}, m.closed...)
	x.set = append([]int{}, m.set...)
	x.died = map[string]int64{}
	x.sess = make(map[string]*MSess, len(m.sess))
	for k, s := range m.sess {
		y := *s
		y.data = make(map[string]string, len(s.data))
		for a, b := range s.data {
			y.data[a] = b
		}
		x.sess[k] = &y
	}
	return &x
}

// never is an instant that does not come.
const never = int64(1<<63 - 1)

func later(now, d int64) int64 {
	if d > never-now {
		return never
	}
	return now + d
}

// purge drops what is dead.
func (m *Model) purge() {
	if m.lazy {
		return
	}
	for k, s := range m.sess {
		if m.now >= s.rDead {
			m.died[k] = s.rDead
			delete(m.sess, k)
		}
	}
}

func split3(tok string) (id string, ok bool) {
	i := strings.IndexByte(tok, '.')
	j := strings.LastIndexByte(tok, '.')
	if i < 0 || i == j {
		return "", false
	}
	return tok[:i], true
}

// live is the session behind the token unless it is dead.
func (m *Model) live(tok string) *MSess {
	s := m.sess[tok]
	if s == nil || m.now >= s.rDead {
		return nil
	}
	return s
}

// reserved: writing the key is refused.
func (m *Model) reserved(k string) bool {
	return m.hidden(k) || m.bolt && (k == "" || len(k) > 32768)
}

// hidden: the key belongs to the provider itself.
func (m *Model) hidden(k string) bool { return m.meta != "" && k == m.meta }

func (m *Model) usable(tok string) (*MSess, string) {
	s := m.live(tok)
	if s == nil {
		return nil, eNotExists
	}
	if m.now >= s.aDead {
		return nil, eExpired
	}
	return s, ""
}

// Do applies the operation and returns the expected result.
func (m *Model) Do(o Op) Res {
	m.purge()
	if o.K == OpTick || o.K == OpJump {
		m.now += o.D
		m.purge()
		return Res{}
	}
	bad := func(toks ...string) bool {
		for _, t := range toks {
			if _, ok := split3(t); !ok {
				return true
			}
		}
		return false
	}
	switch o.K {
	case opRest:
		for k, s := range m.sess {
			if s.id == o.ID && !contains(o.Keys, k) {
				delete(m.sess, k)
			}
		}
		return Res{}
	case opDoom, opDoomed:
		for _, s := range m.sess {
			if s.id == o.ID && m.now < s.rDead {
				if o.K == opDoomed && s.doomed&o.D != 0 {
					return Res{Err: "still there"}
				}
				if o.K == opDoom {
					s.doomed |= o.D
				}
			}
		}
		return Res{}
	case OpCreate:
		if bad(o.T, o.R) {
			return Res{Err: eInvalid}
		}
	case OpPut, OpGet, OpKeys, OpDelete, OpCheck, OpDestroyToken:
		if bad(o.T) {
			return Res{Err: eInvalid}
		}
	case OpRefresh:
		if bad(o.T, o.R, o.NT, o.NR) {
			return Res{Err: eInvalid}
		}
		id, _ := split3(o.T)
		for _, t := range []string{o.R, o.NT, o.NR} {
			if x, _ := split3(t); x != id {
				return Res{Err: eIDMismatch}
			}
		}
	}
	if m.closed[o.P] && o.K != OpReopen {
		return Res{Err: eClosed}
	}
	switch o.K {
	case OpCreate:
		id, _ := split3(o.T)
		for _, kv := range o.KV {
			if m.reserved(kv.K) {
				return Res{Err: eOther}
			}
		}
		delete(m.sess, o.T)
		access, refresh, max := m.limits(o.P)
		for max > 0 && len(m.sess) >= max {
			delete(m.sess, m.oldest())
		}
		s := &MSess{id: id, access: o.T, refresh: o.R, aDead: later(m.now, access), rDead: later(m.now, refresh), data: map[string]string{}}
		for _, kv := range o.KV {
			s.data[kv.K] = kv.V
		}
		m.seq++
		s.order = m.seq
		m.sess[o.T] = s
	case OpPut:
		res := false
		for _, kv := range o.KV {
			res = res || m.reserved(kv.K)
		}
		s, e := m.usable(o.T)
		if e != "" && res {
			return Res{Err: e, Alt: eOther}
		}
		if e != "" {
			return Res{Err: e}
		}
		if res {
			return Res{Err: eOther}
		}
		for _, kv := range o.KV {
			s.data[kv.K] = kv.V
		}
	case OpGet:
		s, e := m.usable(o.T)
		if e != "" {
			return Res{Err: e}
		}
		v := make([]string, len(o.Keys))
		for i, k := range o.Keys {
			if x, ok := s.data[k]; ok {
				v[i] = "=" + x
			} else {
				v[i] = "-"
			}
		}
		return Res{Vals: v}
	case OpKeys:
		s, e := m.usable(o.T)
		if e != "" {
			return Res{Err: e}
		}
		var k []string
		for x := range s.data {
			k = append(k, x)
		}
		sort.Strings(k)
		return Res{Keys: k}
	case OpDelete:
		res := false
		for _, k := range o.Keys {
			res = res || m.hidden(k)
		}
		s, e := m.usable(o.T)
		if e != "" && res {
			return Res{Err: e, Alt: eOther}
		}
		if e != "" {
			return Res{Err: e}
		}
		if res {
			return Res{Err: eOther}
		}
		for _, k := range o.Keys {
			delete(s.data, k)
		}
	case OpCheck:
		_, e := m.usable(o.T)
		return Res{Err: e}
	case OpRefresh:
		s := m.live(o.T)
		if s == nil {
			return Res{Err: eNotExists}
		}
		if s.refresh != o.R {
			return Res{Err: eRefreshBad}
		}
		delete(m.sess, o.T)
		s.access, s.refresh = o.NT, o.NR
		access, refresh, _ := m.limits(o.P)
		s.aDead, s.rDead = later(m.now, access), later(m.now, refresh)
		m.seq++
		s.order = m.seq
		m.sess[o.NT] = s
	case OpDestroyToken:
		delete(m.sess, o.T)
	case OpDestroyID:
		for k, s := range m.sess {
			if s.id == o.ID {
				delete(m.sess, k)
			}
		}
	case OpClose:
		m.closed[o.P] = true
	case OpClear:
		m.sess = map[string]*MSess{}
	case OpReopen:
		m.closed[o.P] = false
		if o.D > 0 {
			m.set[o.P] = int(o.D) - 1
		}
	}
	return Res{}
}

// limits are the lifetimes and the size limit provider p was opened with.
func (m *Model) limits(p int) (access, refresh int64, max int) {
	c := m.cfg
	if p < len(m.set) {
		if e := c.setting(p, m.set[p]); e != nil {
			c = *e
		}
	}
	return int64(c.Access), int64(c.Refresh), c.Max
}

func (m *Model) oldest() string {
	best, bo := "", 0
	for k, s := range m.sess {
		if best == "" || s.order < bo {
			best, bo = k, s.order
		}
	}
	return best
}

// canon is a canonical rendering of the observable state.
func (m *Model) canon() string {
	m.purge()
	var rows []string
	for _, s := range m.sess {
		var d []string
		for k, v := range s.data {
			d = append(d, fmt.Sprintf("%q=%q", k, v))
		}
		sort.Strings(d)
		rows = append(rows, fmt.Sprintf("%06d %s %s %d %d %s", s.order, s.access, s.refresh, s.aDead-m.now, s.rDead-m.now, strings.Join(d, ",")))
	}
	sort.Strings(rows)
	for i := range rows {
		rows[i] = rows[i][7:]
	}
	return fmt.Sprint(m.closed, m.set) + strings.Join(rows, "|")
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var _ sessionid.Provider
