//go:build race

package engine

import (
	"runtime"
	"unsafe"
)

// RaceMode says whether the happens-before oracle is compiled in.
const RaceMode = true

func raceOff()                 { runtime.RaceDisable() }
func raceOn()                  { runtime.RaceEnable() }
func raceAcquire(p *byte)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func raceRelease(p *byte)      { runtime.RaceRelease(unsafe.Pointer(p)) }
func raceReleaseMerge(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func raceErrors() int          { return runtime.RaceErrors() }
