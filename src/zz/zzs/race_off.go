//go:build !race

package zzs

import "unsafe"

const Race = false

func raceOff() {}
func raceOn()  {}

func RaceErrors() int { return 0 }

func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}
func RaceRead(p unsafe.Pointer)     {}
func RaceWrite(p unsafe.Pointer)    {}
