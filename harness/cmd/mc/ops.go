package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/powerpuffpenguin/sessionid"
)

// Kind of operation.
type Kind int

const (
	OpCreate Kind = iota
	OpPut
	OpGet
	OpKeys
	OpDelete
	OpCheck
	OpRefresh
	OpDestroyToken
	OpDestroyID
	OpTick   // advance the clock, background runs to quiescence at every timer
	OpJump   // advance the clock, nothing else runs
	OpClose  // close the provider
	OpClear  // bolt: remove everything
	OpReopen // bolt: close and open the same file again
	opDoom   // model only: marks the sessions of an identity
	opRest   // model only: destroys the identity's sessions other than those listed
	opDoomed // model only: fails if a marked session still exists
)

var kindNames = []string{"create", "put", "get", "keys", "delete", "check", "refresh", "destroy-token", "destroy-id", "tick", "jump", "close", "clear", "reopen", "doom", "destroy-rest", "doomed"}

// Op is one provider-level operation.
type Op struct {
	K    Kind
	P    int      `json:",omitempty"` // which provider of the world
	T    string   `json:",omitempty"` // access token
	R    string   `json:",omitempty"` // refresh token
	NT   string   `json:",omitempty"` // new access token
	NR   string   `json:",omitempty"` // new refresh token
	ID   string   `json:",omitempty"`
	KV   []KV     `json:",omitempty"`
	Keys []string `json:",omitempty"`
	D    int64    `json:",omitempty"` // duration in ns; reopening: 1 + the number of the setting, 0 keeps it
	Cut  int      `json:",omitempty"` // the caller's context ends when it is looked at for the Cut-th time
}

// KV is a key and its value; Nil distinguishes a nil value.
type KV struct {
	K, V string
	Nil  bool `json:",omitempty"`
}

func (o Op) String() string {
	s := kindNames[o.K]
	if o.P != 0 {
		s = fmt.Sprintf("p%d.%s", o.P, s)
	}
	if o.Cut != 0 {
		s = fmt.Sprintf("(cancelled at look %d) %s", o.Cut, s)
	}
	switch o.K {
	case OpCreate:
		return fmt.Sprintf("%s(%s,%s,%s)", s, o.T, o.R, kvString(o.KV))
	case OpPut:
		return fmt.Sprintf("%s(%s,%s)", s, o.T, kvString(o.KV))
	case OpGet, OpDelete:
		return fmt.Sprintf("%s(%s,%q)", s, o.T, o.Keys)
	case OpKeys, OpCheck, OpDestroyToken:
		return fmt.Sprintf("%s(%s)", s, o.T)
	case OpRefresh:
		return fmt.Sprintf("%s(%s,%s -> %s,%s)", s, o.T, o.R, o.NT, o.NR)
	case OpDestroyID:
		return fmt.Sprintf("%s(%q)", s, o.ID)
	case OpTick, OpJump:
		return fmt.Sprintf("%s(%s)", s, time.Duration(o.D))
	case OpReopen:
		if o.D > 0 {
			return fmt.Sprintf("%s(setting %d)", s, o.D-1)
		}
	}
	return s + "()"
}

func kvString(kv []KV) string {
	var p []string
	for _, x := range kv {
		if x.Nil {
			p = append(p, x.K+"=nil")
		} else {
			p = append(p, fmt.Sprintf("%s=%q", x.K, x.V))
		}
	}
	return "{" + strings.Join(p, ",") + "}"
}

func opsString(ops []Op) string {
	var p []string
	for _, o := range ops {
		p = append(p, o.String())
	}
	return strings.Join(p, "; ")
}

func (o Op) pairs() []sessionid.PairBytes {
	if o.KV == nil {
		return nil
	}
	out := make([]sessionid.PairBytes, len(o.KV))
	for i, x := range o.KV {
		out[i].Key = x.K
		if !x.Nil {
			out[i].Value = []byte(x.V)
		}
	}
	return out
}

// Res is the observable result of an operation.
type Res struct {
	Err  string
	Vals []string // "-" absent, "=..." present
	Keys []string // sorted
	Alt  string   // model: another acceptable error
}

func (r Res) String() string {
	s := r.Err
	if s == "" {
		s = "ok"
	}
	if r.Vals != nil {
		s += fmt.Sprintf(" vals=%q", r.Vals)
	}
	if r.Keys != nil {
		s += fmt.Sprintf(" keys=%q", r.Keys)
	}
	return s
}

func (r Res) equal(x Res) bool {
	if r.Err != x.Err || len(r.Vals) != len(x.Vals) || len(r.Keys) != len(x.Keys) {
		return false
	}
	for i := range r.Vals {
		if r.Vals[i] != x.Vals[i] {
			return false
		}
	}
	for i := range r.Keys {
		if r.Keys[i] != x.Keys[i] {
			return false
		}
	}
	return true
}

// Error classes.
const (
	eNotExists   = "token-not-exists"
	eExpired     = "token-expired"
	eInvalid     = "token-invalid"
	eIDMismatch  = "token-id-not-matched"
	eRefreshBad  = "refresh-token-not-matched"
	eClosed      = "provider-closed"
	eOther       = "error:"
	eKeyMissing  = "key-not-exists"
	eNotPointer  = "needs-pointer"
	ePtrToPtr    = "pointer-to-pointer"
	eSigInvalid  = "signature-invalid"
	eProvNoMatch = "provider-return-not-matched"
)

func errClass(e error) string {
	switch {
	case e == nil:
		return ""
	case errors.Is(e, sessionid.ErrTokenNotExists):
		return eNotExists
	case errors.Is(e, sessionid.ErrTokenExpired):
		return eExpired
	case errors.Is(e, sessionid.ErrTokenInvalid):
		return eInvalid
	case errors.Is(e, sessionid.ErrTokenIDNotMatched):
		return eIDMismatch
	case errors.Is(e, sessionid.ErrRefreshTokenNotMatched):
		return eRefreshBad
	case errors.Is(e, sessionid.ErrProviderClosed):
		return eClosed
	case errors.Is(e, sessionid.ErrKeyNotExists):
		return eKeyMissing
	case errors.Is(e, sessionid.ErrNeedsPointer):
		return eNotPointer
	case errors.Is(e, sessionid.ErrPointerToPointer):
		return ePtrToPtr
	case errors.Is(e, sessionid.ErrProviderReturnNotMatch):
		return eProvNoMatch
	}
	return eOther + e.Error()
}

func valStrings(vals []sessionid.Value) []string {
	out := make([]string, len(vals))
	for i, v := range vals {
		if v.Exists {
			out[i] = "=" + string(v.Bytes)
		} else {
			out[i] = "-"
		}
	}
	return out
}

func sorted(s []string) []string {
	out := append([]string{}, s...)
	sort.Strings(out)
	return out
}
