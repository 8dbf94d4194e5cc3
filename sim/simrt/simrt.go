// Package simrt is the harness's door into the patched runtime (see rtov).
package simrt

import "unsafe"

// RecSize is the size of the schedule record.
const RecSize = 1 << 20

func start(seed uint64, policy uint32)
func force(n *uint32, c *uint8, l uint32)
func setNumCPU(n int32)
func setRec(p unsafe.Pointer)
func stats() (decisions, switches, hash uint64)
func demote()
func goid() uint64
func numUserG() int
func setTime(t int64)

// Start seeds every runtime random source and switches the scheduler policy on.
func Start(seed uint64, policy uint32) { start(seed, policy) }

// Force replaces the policy by an explicit schedule: at decision n[i] take
// candidate c[i], everywhere else the first runnable goroutine.
func Force(n []uint32, c []uint8) {
	if len(n) == 0 {
		n, c = []uint32{1<<32 - 1}, []uint8{0}
	}
	force(&n[0], &c[0], uint32(len(n)))
}

func SetNumCPU(n int) { setNumCPU(int32(n)) }

// SetRec gives the runtime the memory to record choices in.
func SetRec(p unsafe.Pointer)             { setRec(p) }
func Stats() (dec, switches, hash uint64) { return stats() }
func Demote()                             { demote() }
func Goid() uint64                        { return goid() }
func NumUserG() int                       { return numUserG() }
func SetTime(t int64)                     { setTime(t) }
