//go:build race

package zzs

import (
	"runtime"
	"unsafe"
)

// Under the race detector this package (built without instrumentation) is
// invisible: what the scheduler does to let one thread go on at a time orders
// nothing.  What the program itself does to order its threads is done for real,
// or, where a shim stands in for it, told to the detector here.

const Race = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceRead(p unsafe.Pointer)     { runtime.RaceRead(p) }
func RaceWrite(p unsafe.Pointer)    { runtime.RaceWrite(p) }
