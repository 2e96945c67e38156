//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// With the race detector only the driver's code is compiled with memory access
// hooks. The hand-over of the token between tasks is hidden from it, so that
// only the driver's own synchronisation orders what tasks do.

const Race = true

func raceOff()        { runtime.RaceDisable() }
func raceOn()         { runtime.RaceEnable() }
func raceErrors() int { return runtime.RaceErrors() }

// Acquire, Release and ReleaseMerge say that the running task synchronises on p.
func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
