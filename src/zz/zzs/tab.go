package zzs

import "unsafe"

// tab is a map that, unlike Go's, tells the race detector nothing.  (It is not
// generic because instances would be compiled where they are used.)
type tab struct {
	slots []slot
	n     int
	zero  slot // of the key 0
}

type slot struct {
	k    uint64
	v    uint64
	keep unsafe.Pointer // keeps what the key is the address of
	t    *Thread
	i    *objInfo
}

func ptrKey(p unsafe.Pointer) uint64 { return uint64(uintptr(p)) }

func (t *tab) find(k uint64) *slot {
	m := uint64(len(t.slots) - 1)
	i := mix(k, 99) & m
	for t.slots[i].k != k && t.slots[i].k != 0 {
		i = (i + 1) & m
	}
	return &t.slots[i]
}

func (t *tab) get(k uint64) slot {
	if k == 0 {
		return t.zero
	}
	if t.slots == nil {
		return slot{}
	}
	return *t.find(k)
}

// at is the place of k.
func (t *tab) at(k uint64) *slot {
	if k == 0 {
		return &t.zero
	}
	if t.n*2 >= len(t.slots) {
		old := t.slots
		t.slots = make([]slot, max(64, 2*len(old)))
		for i := range old {
			if old[i].k != 0 {
				*t.find(old[i].k) = old[i]
			}
		}
	}
	s := t.find(k)
	if s.k != k {
		s.k = k
		t.n++
	}
	return s
}

// obj is the place of the object at p.
func (t *tab) obj(p unsafe.Pointer) *slot {
	s := t.at(ptrKey(p))
	s.keep = p
	return s
}
