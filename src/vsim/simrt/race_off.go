//go:build !race

package simrt

import "unsafe"

const Race = false

func raceOff()        {}
func raceOn()         {}
func raceErrors() int { return 0 }

func Acquire(unsafe.Pointer)      {}
func Release(unsafe.Pointer)      {}
func ReleaseMerge(unsafe.Pointer) {}
