// Package spec is the language between the driver and a simulated run: what to
// run (Spec) and what happened (Result). A Spec is complete: together with the
// code under test it determines the run exactly.
package spec

import (
	"golang.org/x/sys/simkern"

	"simgodis/simhook"
)

// Sched is an explicit schedule, used by minimised replays instead of the
// seeded policy: at scheduling decision N[i] candidate C[i] runs, everywhere
// else the longest waiting goroutine; preemptions happen exactly at the listed
// statement counts.
type Sched struct {
	N        []uint32 `json:"n"`
	C        []uint8  `json:"c"`
	Preempts []uint64 `json:"preempts"`
}

// Spec is one run.
type Spec struct {
	Prop     string          `json:"prop"`
	Profile  string          `json:"profile"`
	Seed     uint64          `json:"seed"`
	NumCPU   int             `json:"num_cpu"`
	Policy   uint32          `json:"policy"`
	MeanGap  uint64          `json:"mean_gap"`
	Demotes  []uint64        `json:"demotes,omitempty"`
	Stalls   []simhook.Stall `json:"stalls,omitempty"`
	Net      simkern.Knobs   `json:"net"`
	Disabled []string        `json:"disabled_faults,omitempty"`
	Sched    *Sched          `json:"sched,omitempty"`
	Clients  []Client        `json:"clients"`
	Audit    []Cmd           `json:"audit,omitempty"`
	// SigAtMs delivers SIGTERM at that virtual time; <0: after everything else.
	SigAtMs  int    `json:"sig_at_ms"`
	Sig2AtMs int    `json:"sig2_at_ms,omitempty"` // a second signal
	SigInt   bool   `json:"sig_int,omitempty"`    // SIGINT instead
	Server   string `json:"server"`
	Budget   uint64 `json:"budget"`
	// RawDep leaves the recorded defects of dependencies in (known-findings.txt).
	RawDep bool `json:"raw_dep,omitempty"`
	// Init is what the server is loaded with before its first client (debug build).
	Init []Cmd `json:"init,omitempty"`
	// MayNotStart: a system call of the start-up fails; the process has to end by
	// itself unless it serves all the same.
	MayNotStart bool `json:"may_not_start,omitempty"`
	Quiet       bool `json:"quiet,omitempty"`
	// OutFull: nothing can be written to standard output (ENOSPC).
	OutFull bool `json:"out_full,omitempty"`
	Settle  bool `json:"settle,omitempty"` // after the run: close all, wait, check resources
	// Mem: instead of stopping the server at the end, look at the memory still in use.
	Mem bool `json:"mem,omitempty"`
}

// Cmd is one request, as arguments.
type Cmd struct {
	A [][]byte `json:"a"`
	// NoReply: the request is malformed or incomplete on purpose; nothing is awaited.
	Raw []byte `json:"raw,omitempty"` // sent instead of the encoding of A
}

// Client is one connection's script.
type Client struct {
	Name    string `json:"name"`
	StartMs int    `json:"start_ms"`
	Steps   []Step `json:"steps"`
}

// Step of a client.
type Step struct {
	// Op: "call" send the batch and wait for all outstanding replies; "send" do
	// not wait; "wait" wait for outstanding; "raw" send bytes that expect no
	// reply; "sleep"; "close"; "reset"; "half"; "open" (re)connect; "pause"
	// stop reading for Ms; "expect" send Raw and wait for Replies+1 replies or the
	// end of the connection; "drain" read until the server closes or Ms passes;
	// "bulk" send Raw, Fill bytes and Post, wait for Replies replies, N times;
	// "churn" the same on N connections of its own
	Op    string `json:"op"`
	Cmds  []Cmd  `json:"cmds,omitempty"`
	Raw   []byte `json:"raw,omitempty"`
	Ms    int    `json:"ms,omitempty"`
	Cut   []int  `json:"cut,omitempty"`    // client write boundaries inside the batch
	CutUs int    `json:"cut_us,omitempty"` // pause between the cuts
	Free  bool   `json:"free,omitempty"`   // replies to this are not checked against anything

	Fill    int    `json:"fill,omitempty"`
	Post    []byte `json:"post,omitempty"`
	N       int    `json:"n,omitempty"`
	Replies int    `json:"replies,omitempty"`
	Hit     bool   `json:"hit,omitempty"`  // churn: reset every connection
	Tail    bool   `json:"tail,omitempty"` // raw (malformed), half: comes after requests that are to be answered
}

// CutOff notes a reply that the end of the connection cut off.
const CutOff = "reply cut off by the end of the connection"

// Event is one history entry; the slice order is the total order of the run.
type Event struct {
	K    string   `json:"k"` // at_sig syserr call part ret open close reset eof err timeout garbage sig exit note
	C    string   `json:"c,omitempty"`
	Op   int      `json:"op,omitempty"`
	T    int64    `json:"t"` // virtual microseconds
	A    [][]byte `json:"a,omitempty"`
	R    []byte   `json:"r,omitempty"` // raw reply
	N    string   `json:"n,omitempty"`
	O    int      `json:"o,omitempty"` // call/raw/part: stream offset of the end; at_sig: bytes the server had taken in
	Free bool     `json:"free,omitempty"`
}

// Result of a run.
type Result struct {
	OK        bool           `json:"ok"`
	Events    []Event        `json:"events"`
	Problems  []string       `json:"problems,omitempty"` // harness level findings: livelock, leak, shutdown
	Steps     uint64         `json:"steps"`
	Decisions uint64         `json:"decisions"`
	SchedHash uint64         `json:"sched_hash"`
	VirtualUs int64          `json:"virtual_us"`
	Faults    map[string]int `json:"faults"`
	Fired     []string       `json:"fired"`
	Preempts  []uint64       `json:"preempts"`
	Cov       []int          `json:"cov"` // sites executed
	MainExit  bool           `json:"main_exit"`
	ExitUs    int64          `json:"exit_us"` // virtual time from signal to exit
	OpenFDs   int            `json:"open_fds"`
	Stuck     []string       `json:"stuck,omitempty"` // godis goroutines left
	Stalled   int            `json:"stalled"`
	Windows   [][2]int64     `json:"windows,omitempty"` // virtual time in which the injected stalls lasted
	Stdout    []byte         `json:"-"`
}

// RawBytes is how much the clients send.
func (s *Spec) RawBytes() int {
	n := 0
	for _, c := range s.Clients {
		for _, st := range c.Steps {
			n += (len(st.Raw) + st.Fill + len(st.Post)) * max(1, st.N)
			for _, cmd := range st.Cmds {
				n += len(cmd.Raw)
				for _, a := range cmd.A {
					n += len(a) + 6
				}
			}
		}
	}
	return n
}
