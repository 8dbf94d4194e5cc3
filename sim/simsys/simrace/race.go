//go:build race

// Package simrace tells the race detector what the real system-call layer tells
// it, and keeps the simulator's own synchronisation out of its sight: a
// simulated system call orders nothing between goroutines.
package simrace

import (
	"runtime"
	"unsafe"
)

// On: this is a race build.
const On = true

// Enter and Leave enclose simulator code.
func Enter() { runtime.RaceDisable() }
func Leave() { runtime.RaceEnable() }

// Wrote marks p as written by the caller, Read as read.
func Wrote(p []byte) {
	if len(p) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&p[0]), len(p))
	}
}
func Read(p []byte) {
	if len(p) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&p[0]), len(p))
	}
}

// Lock and Unlock are the descriptor lock of package net.
func Lock(p *byte)   { runtime.RaceAcquire(unsafe.Pointer(p)) }
func Unlock(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
