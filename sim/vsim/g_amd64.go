package vsim

// getg identifies the running goroutine among the living ones.
//
//go:noescape
func getg() uintptr

func goid() int64 { return int64(getg()) }
