//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

const RaceBuild = true

// Hand-offs between the scheduler and the tasks must not look like
// synchronisation to the race detector: the scheduler is not there in a real
// deployment.
func raceOff()                          { runtime.RaceDisable() }
func raceOn()                           { runtime.RaceEnable() }
func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
