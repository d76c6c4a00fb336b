//go:build !race

package zzvsched

// RaceBuild says that the race detector is compiled in.
const RaceBuild = false

func raceDisable()    {}
func raceEnable()     {}
func raceReleaseEnd() {}
func raceAcquireEnd() {}
