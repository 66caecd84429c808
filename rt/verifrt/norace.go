//go:build !race

package verifrt

import "unsafe"

// RaceBuild tells that the happens-before detector is compiled in.
const RaceBuild = false

func raceOff()                     {}
func raceOn()                      {}
func RaceAcquire(p unsafe.Pointer) {}
func RaceRelease(p unsafe.Pointer) {}
func RaceErrors() int              { return 0 }
