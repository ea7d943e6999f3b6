//go:build race

package vsim

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func raceDisable()    { runtime.RaceDisable() }
func raceEnable()     { runtime.RaceEnable() }
func raceErrors() int { return runtime.RaceErrors() }
func raceAcquire(t *tok) {
	if t != nil {
		runtime.RaceAcquire(unsafe.Pointer(t))
	}
}
func raceRelease(t *tok)        { runtime.RaceRelease(unsafe.Pointer(t)) }
func raceRelMerge(t *tok)       { runtime.RaceReleaseMerge(unsafe.Pointer(t)) }
func raceAcqP(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRelP(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
