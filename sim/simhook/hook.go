// Package simhook receives a call before every statement of godis.
package simhook

import (
	"runtime"
	"time"

	"simgodis/simrt"
)

// MaxSites bounds the coverage table.
const MaxSites = 1 << 14

var (
	on       bool
	Steps    uint64
	next     uint64
	budget   uint64
	Cov      [MaxSites]uint32
	seed     uint64
	meanGap  uint64 // mean statements between preemptions; 0 never
	ord      uint64
	forced   []uint64
	isForced bool
	fpos     int
	Preempts []uint64 // steps at which a preemption happened
	pct      bool
	demotes  []uint64
	// Stalls: at step At the running goroutine sleeps Dur (slow node).
	stalls   []Stall
	spos     int
	StallHit int
	Stalling int            // goroutines in a stall now
	Windows  [][2]time.Time // when the stalls began and ended
	onBudget func()
	// PreRec receives the preemption steps (memory shared with the driver).
	PreRec []uint64
)

// Stall freezes the goroutine that executes statement number At for DurMs.
type Stall struct {
	At    uint64 `json:"at"`
	DurMs int    `json:"dur_ms"`
	// Site names where the goroutine must be (a file path prefix, or
	// "path:Func"): the stall waits until some goroutine gets there. The driver
	// turns it into the range of site numbers [Lo,Hi).
	Site string `json:"site,omitempty"`
	Lo   int    `json:"lo,omitempty"`
	Hi   int    `json:"hi,omitempty"`
}

var waitLo, waitHi int // armed stall waiting for a site

// Config of one run.
type Config struct {
	Seed     uint64
	MeanGap  uint64
	Budget   uint64
	Forced   []uint64
	IsForced bool
	Demotes  []uint64
	Stalls   []Stall
	OnBudget func()
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Start switches the hook on.
func Start(c Config) {
	seed, meanGap, budget = c.Seed, c.MeanGap, c.Budget
	forced, isForced = c.Forced, c.IsForced
	demotes, stalls = c.Demotes, c.Stalls
	onBudget = c.OnBudget
	Steps, ord, fpos, spos = 0, 0, 0, 0
	waitLo, waitHi = 0, 0
	on = true
	plan()
}

// Stop switches it off.
func Stop() { on = false }

var frozen bool

// Freeze parks every goroutine of the program at its next statement: the
// process has exited.
func Freeze() { on, frozen = false, true }

// NoPreempt stops preemption and stalls (faults off) but keeps counting.
func NoPreempt() {
	stalls, demotes = nil, nil
	spos, waitLo, waitHi = 0, 0, 0
	meanGap, forced, fpos = 0, nil, 0
	plan()
}

var nextPre uint64

func drawGap() {
	if isForced {
		for fpos < len(forced) && forced[fpos] < Steps {
			fpos++
		}
		if fpos < len(forced) {
			nextPre = forced[fpos]
			fpos++
		} else {
			nextPre = 1<<64 - 1
		}
		return
	}
	if meanGap == 0 {
		nextPre = 1<<64 - 1
		return
	}
	ord++
	// uniform on [1, 2*mean): cheap and good enough
	nextPre = Steps + 1 + mix(seed^ord*0xd1342543de82ef95)%(2*meanGap)
}

func plan() {
	drawGap()
	replan()
}

func replan() {
	next = nextPre
	if len(stalls) > spos && waitHi == 0 && stalls[spos].At < next {
		next = stalls[spos].At
	}
	if len(demotes) > 0 && demotes[0] < next {
		next = demotes[0]
	}
	if budget < next {
		next = budget
	}
}

// Y is called before every statement.
func Y(site int) {
	if !on {
		if frozen {
			select {}
		}
		return
	}
	if site < MaxSites {
		Cov[site]++
	}
	Steps++
	if Steps >= next || (site >= waitLo && site < waitHi) {
		slow(site)
	}
}

func slow(site int) {
	if Steps >= budget {
		on = false
		onBudget()
		return
	}
	pre, dem := false, false
	var sl time.Duration
	if Steps >= nextPre {
		pre = true
		if len(Preempts) < len(PreRec) {
			PreRec[len(Preempts)] = Steps
		}
		Preempts = append(Preempts, Steps)
		drawGap()
	}
	for spos < len(stalls) && stalls[spos].At <= Steps {
		if s := stalls[spos]; s.Hi > 0 && (site < s.Lo || site >= s.Hi) {
			waitLo, waitHi = s.Lo, s.Hi
			break
		}
		waitLo, waitHi = 0, 0
		sl += time.Duration(stalls[spos].DurMs) * time.Millisecond
		spos++
		StallHit++
	}
	for len(demotes) > 0 && demotes[0] <= Steps {
		demotes = demotes[1:]
		dem = true
	}
	replan()
	if sl > 0 {
		Stalling++
		Windows = append(Windows, [2]time.Time{time.Now(), time.Now().Add(sl)})
		time.Sleep(sl)
		Stalling--
	}
	if dem {
		simrt.Demote()
		runtime.Gosched()
	}
	if pre {
		runtime.Gosched()
	}
}

// OnExit handles os.Exit of the program under test.
var OnExit func(code int)

// Exit replaces os.Exit; it does not return.
func Exit(code int) {
	if OnExit != nil {
		OnExit(code)
	}
	select {}
}

// RawDep: run dependencies as they are, with the defects known-findings.txt
// records about them.
var RawDep bool
