//go:build !race

package vs

import "unsafe"

// RaceEnabled reports whether this is a race-detector build.
const RaceEnabled = false

func raceDisable()                      {}
func raceEnable()                       {}
func raceAcquire(unsafe.Pointer)        {}
func raceRelease(unsafe.Pointer)        {}
func raceReleaseReplace(unsafe.Pointer) {}
