//go:build !race

package vsim

import "unsafe"

const RaceEnabled = false

func raceDisable()              {}
func raceEnable()               {}
func raceErrors() int           { return 0 }
func raceAcquire(t *tok)        {}
func raceRelease(t *tok)        {}
func raceRelMerge(t *tok)       {}
func raceAcqP(p unsafe.Pointer) {}
func raceRelP(p unsafe.Pointer) {}
