//go:build !race

// Package simrace tells the race detector what the real system-call layer tells
// it.
package simrace

// On: this is a race build.
const On = false

func Enter()         {}
func Leave()         {}
func Wrote([]byte)   {}
func Read([]byte)    {}
func Lock(p *byte)   {}
func Unlock(p *byte) {}
