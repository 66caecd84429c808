//go:build race

package verifrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells that the happens-before detector is compiled in.
const RaceBuild = true

func raceOff()                     { runtime.RaceDisable() }
func raceOn()                      { runtime.RaceEnable() }
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceErrors() int              { return runtime.RaceErrors() }
