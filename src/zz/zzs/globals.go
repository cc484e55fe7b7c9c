package zzs

import (
	"bytes"
	"reflect"
	"strings"
	"unsafe"
)

// Package-level variables are as they were after initialisation at the start of
// every run, so each run is the first one of a process: what is set up once,
// by whoever comes first, is set up in every run.

const moduleUnderTest = "github.com/squizzling/osmindex/"

var (
	globalVars []any // pointers
	globalsSet bool
	undo       []func()
)

// Global registers a package-level variable.
func Global(p any) { globalVars = append(globalVars, p) }

type seenKey struct {
	p unsafe.Pointer
	t reflect.Type
}

type snapper struct {
	seen  map[seenKey]bool
	bytes uintptr
}

const snapLimit = 1 << 18 // bytes that are copied for one variable

func resetGlobals() {
	if globalsSet {
		for _, f := range undo {
			f()
		}
		return
	}
	globalsSet = true
	for _, p := range globalVars {
		s := &snapper{seen: map[seenKey]bool{}}
		v := reflect.ValueOf(p).Elem()
		if v.Type().Size() <= 1<<22 {
			s.memory(v)
		}
	}
}

// memory remembers what is at v, which is addressable, and all of the module's that can be reached from there.
func (s *snapper) memory(v reflect.Value) {
	t := v.Type()
	k := seenKey{unsafe.Pointer(v.UnsafeAddr()), t}
	if t.Size() == 0 || s.seen[k] {
		return
	}
	s.seen[k] = true
	v = reflect.NewAt(t, k.p).Elem() // not read-only
	if s.bytes += t.Size(); s.bytes > snapLimit && len(s.seen) > 1 {
		return
	}
	c := reflect.New(t).Elem()
	c.Set(v)
	undo = append(undo, func() { v.Set(c) })
	s.walk(v)
}

func mine(t reflect.Type) bool {
	switch p := t.PkgPath(); {
	case p == "": // unnamed or built in
		return true
	case strings.HasPrefix(p, "zz.local/zz/v"), p+"/" == moduleUnderTest, strings.HasPrefix(p, moduleUnderTest):
		return true
	}
	return false
}

func (s *snapper) walk(v reflect.Value) {
	if !v.CanAddr() {
		return
	}
	v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	switch v.Kind() {
	case reflect.Struct:
		if !mine(v.Type()) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			s.walk(v.Field(i))
		}
	case reflect.Array:
		if flat(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			s.walk(v.Index(i))
		}
	case reflect.Pointer:
		if !v.IsNil() && mine(v.Type().Elem()) {
			s.memory(v.Elem())
		}
	case reflect.Interface:
		if e := v.Elem(); e.IsValid() && e.Kind() == reflect.Pointer && !e.IsNil() && mine(e.Type().Elem()) {
			s.memory(e.Elem())
		}
	case reflect.Slice:
		n := v.Cap()
		if v.IsNil() || n == 0 || !mine(v.Type().Elem()) || s.bytes+uintptr(n)*v.Type().Elem().Size() > snapLimit {
			return
		}
		w := v.Slice3(0, n, n)
		k := seenKey{w.UnsafePointer(), v.Type()}
		if s.seen[k] {
			return
		}
		s.seen[k] = true
		s.bytes += uintptr(n) * v.Type().Elem().Size()
		c := reflect.MakeSlice(v.Type(), n, n)
		reflect.Copy(c, w)
		if flat(v.Type().Elem()) { // what nobody writes to may be read-only
			size := n * int(v.Type().Elem().Size())
			a, b := unsafe.Slice((*byte)(w.UnsafePointer()), size), unsafe.Slice((*byte)(c.UnsafePointer()), size)
			undo = append(undo, func() {
				if !bytes.Equal(a, b) {
					copy(a, b)
				}
			})
			return
		}
		undo = append(undo, func() { reflect.Copy(w, c) })
		for i := 0; i < n; i++ {
			s.walk(w.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := seenKey{v.UnsafePointer(), v.Type()}
		if s.seen[k] {
			return
		}
		s.seen[k] = true
		m := reflect.New(v.Type()).Elem()
		m.Set(v) // the map itself, whatever the variable holds later
		var ks, vs []reflect.Value
		for it := v.MapRange(); it.Next(); {
			ks, vs = append(ks, it.Key()), append(vs, it.Value())
			if e := it.Value(); e.Kind() == reflect.Pointer && !e.IsNil() && mine(e.Type().Elem()) {
				s.memory(e.Elem())
			}
		}
		undo = append(undo, func() {
			if m.Len() != 0 || len(ks) != 0 {
				m.Clear()
				for i := range ks {
					m.SetMapIndex(ks[i], vs[i])
				}
			}
		})
	}
}

// flat reports whether values of t refer to nothing.
func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Slice, reflect.Interface, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return false
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !flat(t.Field(i).Type) {
				return false
			}
		}
	case reflect.Array:
		return flat(t.Elem())
	}
	return true
}
