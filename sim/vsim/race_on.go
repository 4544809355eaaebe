//go:build race

package vsim

import (
	"runtime"
	"unsafe"
)

// RaceEnabled reports whether the race detector is part of this build.
const RaceEnabled = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

//go:norace
func RaceAcquire(p *int64) { runtime.RaceAcquire(unsafe.Pointer(p)) }

//go:norace
func RaceRelease(p *int64) { runtime.RaceRelease(unsafe.Pointer(p)) }

//go:norace
func RaceReleaseMerge(p *int64) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

// RaceWrite tells the detector that p was written by the caller.
//
//go:norace
func RaceWrite(p []byte) {
	if len(p) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&p[0]), len(p))
	}
}

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
