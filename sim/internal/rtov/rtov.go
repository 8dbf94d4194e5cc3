// Package rtov writes the overlay that turns the stock Go runtime into a
// deterministic one: single P, no sysmon, virtual time, seeded scheduling.
package rtov

import (
	_ "embed"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

//go:embed zsim_runtime.go.txt
var zsim string

type edit struct{ file, old, new string }

var edits = []edit{
	{"runtime/proc.go", "const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
	{"runtime/proc.go", "		t := pp.runqtail\n		if t == h {\n			return nil, false\n		}\n		gp := pp.runq[h%uint32(len(pp.runq))].ptr()\n		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume\n			return gp, false\n",
		"		t := pp.runqtail\n		if t == h {\n			return nil, false\n		}\n		if simOn && t-h > 1 {\n			if c := simChoose(pp, h, t-h); c != 0 {\n				g1 := pp.runq[(h+c)%uint32(len(pp.runq))]\n				for i := c; i > 0; i-- {\n					pp.runq[(h+i)%uint32(len(pp.runq))] = pp.runq[(h+i-1)%uint32(len(pp.runq))]\n				}\n				pp.runq[h%uint32(len(pp.runq))] = g1\n			}\n		}\n		gp := pp.runq[h%uint32(len(pp.runq))].ptr()\n		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume\n			simSwitches++\n			return gp, false\n"},
	{"runtime/proc.go", "		runqput(pp, gp, true)\n	} else {\n		lock(&sched.lock)\n		globrunqput(gp)\n		unlock(&sched.lock)\n	}\n", "		runqput(pp, gp, true)\n	} else {\n		runqput(pp, gp, false)\n	}\n"},
	{"runtime/proc.go", "	// return P and block\n	lock(&sched.lock)\n", "	if sched.runq.empty() && simIdleAdvance() {\n		goto top\n	}\n	// return P and block\n	lock(&sched.lock)\n"},
	{"runtime/rand.go", "	globalRand.state.Init(*seed)\n", "	for i := range seed {\n		seed[i] = byte(i*7 + 1)\n	}\n	globalRand.state.Init(*seed)\n"},
	{"runtime/debug.go", "	return int(numCPUStartup)\n", "	return int(simNCPU)\n"},
	{"runtime/debug.go", "	lock(&sched.lock)\n	ret := int(gomaxprocs)\n	if n <= 0 {\n", "	lock(&sched.lock)\n	ret := int(gomaxprocs)\n	if n <= 0 || simOn {\n"},
}

// Write creates the patched files in dir and returns the overlay map.
func Write(goroot, dir string) (map[string]string, error) {
	src := filepath.Join(goroot, "src")
	repl := map[string]string{}
	content := map[string]string{}
	for _, e := range edits {
		c, ok := content[e.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(src, e.file))
			if err != nil {
				return nil, err
			}
			c = string(b)
		}
		if n := strings.Count(c, e.old); n != 1 {
			return nil, fmt.Errorf("runtime overlay: anchor in %s found %d times: %q", e.file, n, e.old)
		}
		content[e.file] = strings.Replace(c, e.old, e.new, 1)
	}
	content["runtime/zsim.go"] = zsim
	for f, c := range content {
		out := filepath.Join(dir, strings.ReplaceAll(f, "/", "_"))
		if err := os.WriteFile(out, []byte(c), 0o644); err != nil {
			return nil, err
		}
		repl[filepath.Join(src, f)] = out
	}
	return repl, nil
}
