//go:build race

package vsync

import (
	"runtime"
	"unsafe"
)

func acquire(p *byte)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func release(p *byte)      { runtime.RaceRelease(unsafe.Pointer(p)) }
func releaseMerge(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
