//go:build race

package vsim

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether the race detector is on.
const RaceBuild = true

func raceErrors() int { return runtime.RaceErrors() }

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceDisable()                  { runtime.RaceDisable() }
func raceEnable()                   { runtime.RaceEnable() }
