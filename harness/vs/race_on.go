//go:build race

package vs

import (
	"runtime"
	"unsafe"
)

// RaceEnabled reports whether this is a race-detector build.
const RaceEnabled = true

func raceDisable()                        { runtime.RaceDisable() }
func raceEnable()                         { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer)        { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)        { runtime.RaceReleaseMerge(p) }
func raceReleaseReplace(p unsafe.Pointer) { runtime.RaceRelease(p) }
