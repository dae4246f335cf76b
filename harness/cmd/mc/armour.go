package main

import (
	"reflect"
	"strings"
	"unicode/utf8"
)

// JSON makes strings valid UTF-8. Job arguments have to arrive as they were
// written, so each invalid byte travels as a character of a private plane.
const armourBase = 0xF0000

func armour(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			r = armourBase + rune(s[i])
		}
		b.WriteRune(r)
		i += n
	}
	return b.String()
}

func disarmour(s string) string {
	plain := true
	for _, r := range s {
		if r >= armourBase && r < armourBase+256 {
			plain = false
			break
		}
	}
	if plain {
		return s
	}
	var b strings.Builder
	for _, r := range s {
		if r >= armourBase && r < armourBase+256 {
			b.WriteByte(byte(r - armourBase))
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// eachString returns a copy of v with f applied to every string in it.
func eachString(v reflect.Value, f func(string) string) reflect.Value {
	switch v.Kind() {
	case reflect.String:
		s := f(v.String())
		if s == v.String() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.SetString(s)
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				n.Field(i).Set(eachString(v.Field(i), f))
			}
		}
		return n
	case reflect.Slice:
		if v.IsNil() || v.Type().Elem().Kind() == reflect.Uint8 {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(eachString(v.Index(i), f))
		}
		return n
	case reflect.Array:
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(eachString(v.Index(i), f))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(eachString(k, f), eachString(v.MapIndex(k), f))
		}
		return n
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return v
		}
		e := eachString(v.Elem(), f)
		if v.Kind() == reflect.Interface {
			return e
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(e)
		return n
	}
	return v
}
