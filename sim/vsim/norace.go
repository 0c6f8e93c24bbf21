//go:build !race

package vsim

import "unsafe"

// RaceBuild tells whether the race detector is on.
const RaceBuild = false

func raceErrors() int { return 0 }

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return 0 }

func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}
func raceDisable()                  {}
func raceEnable()                   {}
