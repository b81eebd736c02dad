//go:build race && go1.21

package verifsim

import (
	"runtime"
	"unsafe"
)

const RaceBuild = true

// RaceErrors is the number of data races reported so far by the race detector.
func RaceErrors() int { return runtime.RaceErrors() }

func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
