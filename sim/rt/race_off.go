//go:build !race

package rt

import "unsafe"

// RaceEnabled reports a build with the happens-before race oracle.
const RaceEnabled = false

func raceDisable() {}
func raceEnable()  {}

// RaceAcquire and RaceRelease declare the synchronization edges of simulated primitives.
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}

// RaceErrors counts the races reported so far.
func RaceErrors() int { return 0 }

// RaceIgnore runs f without taking its synchronization into account.
func RaceIgnore(f func()) {
	raceDisable()
	f()
	raceEnable()
}
