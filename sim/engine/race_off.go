//go:build !race

package engine

// RaceMode says whether the happens-before oracle is compiled in.
const RaceMode = false

func raceOff()                 {}
func raceOn()                  {}
func raceAcquire(p *byte)      {}
func raceRelease(p *byte)      {}
func raceReleaseMerge(p *byte) {}
func raceErrors() int          { return 0 }
