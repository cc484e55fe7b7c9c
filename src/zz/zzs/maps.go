package zzs

import (
	"cmp"
	"reflect"
	"slices"
	"sort"
)

// The order in which a map is iterated is chosen by the harness, as every
// order is a legal one: Maps counts through the permutations of the keys.
// Without a choice, keys come in ascending order.

type mapOrder struct {
	index, step int // the nth iteration of a run uses permutation index + n*step
	n           int
}

var maps mapOrder

// MapIter iterates over a map in the chosen order.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

func MapRange[K comparable, V any](m map[K]V) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sorted := true
	switch ks := any(it.keys).(type) {
	case []string:
		slices.Sort(ks)
	case []int:
		slices.Sort(ks)
	case []int64:
		slices.Sort(ks)
	case []uint64:
		slices.Sort(ks)
	default:
		sorted = sortKeys(it.keys)
	}
	p := maps.index + maps.n*maps.step
	maps.n++
	if !sorted || p == 0 {
		return it
	}
	if p&1 == 1 {
		slices.Reverse(it.keys)
	}
	p /= 2
	for i := 0; p > 0 && i < len(it.keys)-1; i++ { // the digits of p choose the next key each
		d := p % (len(it.keys) - i)
		p /= len(it.keys) - i
		k := it.keys[i+d]
		copy(it.keys[i+1:i+d+1], it.keys[i:i+d])
		it.keys[i] = k
	}
	return it
}

func MapRangeK[K comparable, V any](m map[K]V) (it *MapIter[K, V], k K) { return MapRange(m), k }
func MapRangeV[K comparable, V any](m map[K]V) (it *MapIter[K, V], v V) { return MapRange(m), v }
func MapRangeKV[K comparable, V any](m map[K]V) (it *MapIter[K, V], k K, v V) {
	return MapRange(m), k, v
}

// Next stores the next entry through the pointers that are not nil.
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		key := it.keys[0]
		it.keys = it.keys[1:]
		val, ok := it.m[key]
		if !ok {
			continue // deleted since
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// sortKeys sorts by value; what holds pointers or channels has no order that means anything.
func sortKeys[K comparable](ks []K) bool {
	ok := true
	vs := make([]reflect.Value, len(ks))
	for i := range ks {
		vs[i] = reflect.ValueOf(&ks[i]).Elem()
	}
	at := make([]int, len(ks))
	for i := range at {
		at[i] = i
	}
	sort.SliceStable(at, func(i, j int) bool { return compare(vs[at[i]], vs[at[j]], &ok) < 0 })
	if !ok {
		return false
	}
	out := make([]K, len(ks))
	for i, j := range at {
		out[i] = ks[j]
	}
	copy(ks, out)
	return true
}

func compare(a, b reflect.Value, ok *bool) int {
	switch k := a.Kind(); {
	case k == reflect.String:
		return cmp.Compare(a.String(), b.String())
	case k >= reflect.Int && k <= reflect.Int64:
		return cmp.Compare(a.Int(), b.Int())
	case k >= reflect.Uint && k <= reflect.Uintptr:
		return cmp.Compare(a.Uint(), b.Uint())
	case k == reflect.Float32 || k == reflect.Float64:
		return cmp.Compare(a.Float(), b.Float())
	case k == reflect.Bool:
		switch {
		case a.Bool() == b.Bool():
			return 0
		case b.Bool():
			return -1
		}
		return 1
	case k == reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() && b.IsNil() {
				return 0
			} else if a.IsNil() {
				return -1
			}
			return 1
		}
		if a.Elem().Type() != b.Elem().Type() {
			return cmp.Compare(a.Elem().Type().String(), b.Elem().Type().String())
		}
		return compare(a.Elem(), b.Elem(), ok)
	case k == reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := compare(a.Field(i), b.Field(i), ok); c != 0 {
				return c
			}
		}
		return 0
	case k == reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := compare(a.Index(i), b.Index(i), ok); c != 0 {
				return c
			}
		}
		return 0
	}
	*ok = false
	return 0
}
