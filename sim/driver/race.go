package driver

import (
	"fmt"
	"regexp"
	"strings"

	"simgodis/oracle"
)

var accessRE = regexp.MustCompile(`(?i)^(previous )?(atomic )?(read|write) at `)

// clientRE finds a simulated client in a report: its goroutine never runs godis
// code, and shares no memory with it. (The simulator is not instrumented, so
// the memory of a goroutine that ended may seem to be in use still when a client
// gets it next.)
var clientRE = regexp.MustCompile(`(?m)^Goroutine \d+ \([a-z]+\) created at:\n +simgodis/harness\.startClient\(\)`)

// raceFrames returns, for each access of one report, its innermost frame outside
// the standard library, then all its godis frames.
func raceFrames(rep string) (tops []string, stacks [][]string) {
	var cur []string
	flush := func() {
		if cur == nil {
			return
		}
		top := ""
		var st []string
		for _, f := range cur {
			first, _, _ := strings.Cut(f, "/")
			std := !strings.Contains(f, "/") || !strings.Contains(first, ".") && !strings.HasPrefix(first, "simgodis")
			if !std && top == "" {
				top = f
			}
			if strings.Contains(f, "yusank/godis") {
				st = append(st, f)
			}
		}
		tops, stacks = append(tops, top), append(stacks, st)
		cur = nil
	}
	for _, l := range strings.Split(rep, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case accessRE.MatchString(t):
			flush()
			cur = []string{}
		case strings.HasPrefix(t, "Goroutine "):
			flush()
		case cur != nil && strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "      ") && t != "":
			cur = append(cur, strings.TrimSuffix(t, "()"))
		}
	}
	flush()
	return
}

// races finds the reports in which godis code itself makes one of the
// accesses. Reports about the simulator's own memory or between two places in
// a dependency are not findings.
func races(txt string) (out []oracle.Finding) {
	seen := map[string]bool{}
	for _, rep := range strings.Split(txt, "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		tops, stacks := raceFrames(rep)
		godis, sim := false, clientRE.MatchString(rep)
		for _, t := range tops {
			godis = godis || strings.Contains(t, "yusank/godis")
			sim = sim || strings.HasPrefix(t, "simgodis/") || strings.HasPrefix(t, "golang.org/x/sys/simkern")
		}
		if !godis || sim {
			continue
		}
		var p []string
		for i, t := range tops {
			s := t
			if s == "" {
				s = "(an access whose stack is no longer known)"
			}
			if len(stacks[i]) > 1 {
				s += " < " + strings.Join(stacks[i][1:min(4, len(stacks[i]))], " < ")
			}
			p = append(p, s)
		}
		x := strings.ReplaceAll(strings.Join(p, "  and  "), "github.com/yusank/godis/", "")
		if seen[x] {
			continue
		}
		seen[x] = true
		out = append(out, oracle.Finding{Kind: "data-race", Text: fmt.Sprintf("unsynchronised accesses to the same memory, at least one of them a write: %s", x)})
		if len(out) >= 5 {
			break
		}
	}
	return
}
