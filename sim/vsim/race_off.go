//go:build !race

package vsim

// RaceEnabled reports whether the race detector is part of this build.
const RaceEnabled = false

func raceOff() {}
func raceOn()  {}

func RaceAcquire(*int64)      {}
func RaceRelease(*int64)      {}
func RaceReleaseMerge(*int64) {}
func RaceWrite([]byte)        {}

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return 0 }
