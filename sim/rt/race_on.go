//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

// RaceEnabled reports a build with the happens-before race oracle.
const RaceEnabled = true

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

// RaceAcquire and RaceRelease declare the synchronization edges of simulated primitives.
func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors counts the races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

// RaceIgnore runs f without taking its synchronization into account.
func RaceIgnore(f func()) {
	raceDisable()
	f()
	raceEnable()
}
