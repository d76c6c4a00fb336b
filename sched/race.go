//go:build race

package zzvsched

import (
	"runtime"
	"unsafe"
)

// RaceBuild says that the race detector is compiled in.
const RaceBuild = true

var endToken int

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

func raceReleaseEnd() { runtime.RaceReleaseMerge(unsafe.Pointer(&endToken)) }
func raceAcquireEnd() { runtime.RaceAcquire(unsafe.Pointer(&endToken)) }
