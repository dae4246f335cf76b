package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"

	bdb "github.com/boltdb/bolt"

	"mcverif/vs"
	vsync "mcverif/vsync"
)

// dumper renders everything reachable from a value canonically: pointers are
// numbered in visiting order, maps are sorted, times are relative to the
// virtual clock (all past times are equal), channels, functions and locks are
// opaque.
type dumper struct {
	b    strings.Builder
	seen map[unsafe.Pointer]int
	strs map[string]bool // every string and byte slice met
	now  int64
	skip func(t reflect.Type) bool
}

func newDumper() *dumper {
	return &dumper{seen: map[unsafe.Pointer]int{}, strs: map[string]bool{}, now: vs.Epoch.UnixNano() + vs.NowNS()}
}

// opaque packages hold no state of the code under test.
var opaque = map[string]bool{
	"sync": true, "mcverif/vsyncq": true, "mcverif/vtime": true, "mcverif/vs": true,
	"github.com/boltdb/bolt": true, "github.com/go-redis/redis/v8": true, "context": true, "mcverif/vcontext": true, "net": true, "os": true, "reflect": true, "crypto": true,
}

// globalState renders the package-level variables of the code under test.
func globalState() string {
	d := newDumper()
	for _, g := range vs.Globals() {
		d.walk(reflect.ValueOf(g))
		d.b.WriteString(";")
	}
	return d.b.String()
}

var timeType = reflect.TypeOf(time.Time{})

// absNano recovers the absolute time of an unexported time.Time.
func absNano(v reflect.Value) int64 {
	wall, ext := v.Field(0).Uint(), v.Field(1).Int()
	nsec := int64(wall & (1<<30 - 1))
	if wall&(1<<63) != 0 {
		sec := int64(wall << 1 >> (30 + 1))
		return (sec-2682288000)*1e9 + nsec // since 1885, unused for virtual times
	}
	const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	return (ext-unixToInternal)*1e9 + nsec
}

func (d *dumper) walk(v reflect.Value) {
	if !v.IsValid() {
		d.b.WriteString("nil")
		return
	}
	t := v.Type()
	if t == timeType {
		fmt.Fprintf(&d.b, "t:%d", absNano(v)-d.now)
		return
	}
	p := t.PkgPath()
	if opaque[p] {
		d.b.WriteString("_")
		return
	}
	if p == "mcverif/vsync" && t.Name() == "Map" && v.CanAddr() {
		var rows []string
		(*vsync.Map)(unsafe.Pointer(v.UnsafeAddr())).Peek(func(k, e any) bool {
			r := &dumper{seen: d.seen, strs: d.strs, now: d.now}
			r.walk(reflect.ValueOf(&k).Elem())
			r.b.WriteString(":")
			r.walk(reflect.ValueOf(&e).Elem())
			rows = append(rows, r.b.String())
			return true
		})
		sort.Strings(rows)
		fmt.Fprintf(&d.b, "smap%v", rows)
		return
	}
	if p == "mcverif/vatomic" && v.CanAddr() {
		// an atomic value or pointer: what it holds
		if m := reflect.NewAt(t, unsafe.Pointer(v.UnsafeAddr())).MethodByName("Load"); m.IsValid() && m.Type().NumIn() == 0 {
			d.walk(m.Call(nil)[0])
			return
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(&d.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(&d.b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(&d.b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(&d.b, v.Float())
	case reflect.String:
		d.strs[v.String()] = true
		fmt.Fprintf(&d.b, "%q", v.String())
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		if v.IsNil() {
			d.b.WriteString("nil")
		} else {
			d.b.WriteString("_")
		}
	case reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		p := v.UnsafePointer()
		if n, ok := d.seen[p]; ok {
			fmt.Fprintf(&d.b, "#%d", n)
			return
		}
		d.seen[p] = len(d.seen)
		d.b.WriteString("&")
		d.walk(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		d.walk(v.Elem())
	case reflect.Struct:
		d.b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			d.walk(v.Field(i))
			d.b.WriteString(",")
		}
		d.b.WriteString("}")
	case reflect.Array:
		d.b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			d.walk(v.Index(i))
			d.b.WriteString(",")
		}
		d.b.WriteString("]")
	case reflect.Slice:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		if t.Elem().Kind() == reflect.Uint8 {
			d.strs[string(v.Bytes())] = true
			fmt.Fprintf(&d.b, "%q", v.Bytes())
			return
		}
		d.b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			d.walk(v.Index(i))
			d.b.WriteString(",")
		}
		d.b.WriteString("]")
	case reflect.Map:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		d.b.WriteString("map[")
		for _, k := range keys {
			d.walk(k)
			d.b.WriteString(":")
			d.walk(v.MapIndex(k))
			d.b.WriteString(",")
		}
		d.b.WriteString("]")
	default:
		d.b.WriteString("?")
	}
}

func dumpValue(x interface{}) (string, map[string]bool) {
	d := newDumper()
	d.walk(reflect.ValueOf(x))
	return d.b.String(), d.strs
}

// dumpBolt lists everything in a database: path -> value.
func dumpBolt(db *bdb.DB) map[string]string {
	out := map[string]string{}
	var rec func(prefix string, b *bdb.Bucket)
	rec = func(prefix string, b *bdb.Bucket) {
		b.ForEach(func(k, v []byte) error {
			name := prefix + "/" + string(k)
			if v == nil {
				out[name+"/"] = ""
				if s := b.Bucket(k); s != nil {
					rec(name, s)
				}
				return nil
			}
			out[name] = string(v)
			return nil
		})
	}
	db.View(func(t *bdb.Tx) error {
		return t.ForEach(func(name []byte, b *bdb.Bucket) error {
			out["/"+string(name)+"/"] = ""
			rec("/"+string(name), b)
			return nil
		})
	})
	return out
}

// stored reports whether any of the needles occurs anywhere in the store
// behind the world.
func (w *World) stored(needles ...string) (found string) {
	has := func(s string) {
		for _, n := range needles {
			if n != "" && strings.Contains(s, n) && found == "" {
				found = n
			}
		}
	}
	switch w.c.Backend {
	case "memory":
		for _, p := range w.p {
			_, strs := dumpValue(p)
			for s := range strs {
				has(s)
			}
		}
	case "bolt":
		for k, v := range dumpBolt(w.db) {
			has(k)
			has(v)
		}
	case "redis":
		has(w.srv.Dump())
	}
	return
}
