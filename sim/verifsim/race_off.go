//go:build !race && go1.21

package verifsim

import "unsafe"

const RaceBuild = false

func RaceErrors() int { return 0 }

func Acquire(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}
