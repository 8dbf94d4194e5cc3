package driver

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"simgodis/gen"
	"simgodis/internal/build"
	"simgodis/oracle"
	"simgodis/spec"
)

// Options of one check.
type Options struct {
	Prop    string
	Tier    string
	Seed    uint64
	Repo    string
	Verif   string
	Runs    int
	Wall    time.Duration
	Par     int
	Minimum time.Duration // minimisation time
}

// Replay is the file a violation is reported with.
type Replay struct {
	Property string     `json:"property"`
	Seed     uint64     `json:"seed"`
	Kind     string     `json:"kind"`
	Findings []string   `json:"findings"`
	Trace    []string   `json:"trace"`
	Faults   []string   `json:"faults_that_fired"`
	Spec     *spec.Spec `json:"spec"`
	Original *spec.Spec `json:"original_spec,omitempty"`
	HowTo    string     `json:"how_to_replay"`
}

// Prepare builds the simulators into a scratch directory; call done after use.
func Prepare(o *Options, want ...string) (x *Runner, took time.Duration, done func(), err error) {
	t := time.Now()
	base := os.TempDir()
	dir, err := os.MkdirTemp(base, "godis-sim-")
	if err != nil {
		return nil, 0, func() {}, err
	}
	done = func() { _ = os.RemoveAll(dir) }
	b, err := build.Build(o.Repo, filepath.Join(o.Verif, "sim"), dir, want)
	if err != nil {
		done()
		return nil, 0, func() {}, err
	}
	run := filepath.Join(dir, "run")
	if fi, e := os.Stat("/dev/shm"); e == nil && fi.IsDir() {
		if d, e := os.MkdirTemp("/dev/shm", "godis-sim-"); e == nil {
			run = d
			old := done
			done = func() { _ = os.RemoveAll(d); old() }
		}
	}
	_ = os.MkdirAll(run, 0o755)
	return &Runner{B: b, Dir: run}, time.Since(t), done, nil
}

type stats struct {
	mu       sync.Mutex
	runs     int
	errs     int
	errTexts []string
	ops      int
	maybe    int
	virtual  float64
	faults   map[string]int
	sched    map[uint64]bool
	hist     map[uint64]bool
	nontriv  map[uint64]bool
	cov      map[int]bool
	undec    int
	nodes    int
	calm     int64
	steps    uint64
	decs     uint64
	rechecks int
	nondet   int
	samples  []map[string]any
	policies map[string]int
	conc     int
}

func (s *stats) add(i int, r *Run) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if r.Err != nil {
		s.errs++
		if len(s.errTexts) < 5 {
			s.errTexts = append(s.errTexts, head(r.Err.Error(), 300))
		}
		return
	}
	s.runs++
	s.ops += r.V.Ops
	s.maybe += r.V.MaybeOps
	s.nodes += r.V.Nodes
	s.calm = max(s.calm, r.V.CalmUs)
	if r.V.Undecided {
		s.undec++
	}
	s.policies[fmt.Sprintf("policy %d", r.Spec.Policy)]++
	if r.Res == nil {
		return
	}
	s.virtual += float64(r.Res.VirtualUs) / 1e6
	s.steps += r.Res.Steps
	s.decs += r.Res.Decisions
	for k, n := range r.Res.Faults {
		s.faults[k] += n
	}
	for _, c := range r.Res.Cov {
		s.cov[c] = true
	}
	s.sched[r.Res.SchedHash] = true
	h := fnv.New64a()
	for _, e := range r.Res.Events {
		fmt.Fprintf(h, "%s|%s|%d|", e.K, e.C, e.Op)
		for _, a := range e.A {
			h.Write(a)
			h.Write([]byte{0})
		}
		h.Write(e.R)
	}
	hh := h.Sum64()
	s.hist[hh] = true
	if len(r.Res.Events) >= 4 && r.Res.Decisions >= 10 {
		s.nontriv[hh^r.Res.SchedHash*0x9e3779b97f4a7c15] = true
	}
	if len(r.Spec.Clients) > 1 {
		s.conc++
	}
	if len(s.samples) < 3 && i%7 == 3 {
		s.samples = append(s.samples, map[string]any{
			"seed_index": i, "clients": len(r.Spec.Clients), "requests": r.V.Ops, "policy": r.Spec.Policy, "mean_gap": r.Spec.MeanGap, "net": r.Spec.Net,
			"simulated_s": float64(r.Res.VirtualUs) / 1e6, "faults": r.Res.Faults, "schedule_hash": fmt.Sprintf("%016x", r.Res.SchedHash),
			"history_head": traceLines(r.Res.Events, 12),
		})
	}
}

func show(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%q...(%d bytes)", b[:40], len(b))
	}
	return strconv.Quote(string(b))
}

func traceLines(evs []spec.Event, limit int) []string {
	var out []string
	for i, e := range evs {
		if limit > 0 && i >= limit {
			out = append(out, fmt.Sprintf("... %d more events", len(evs)-limit))
			break
		}
		l := fmt.Sprintf("%10.3fms %-8s %s", float64(e.T)/1000, e.C, e.K)
		if e.K == "call" || e.K == "ret" || e.K == "timeout" {
			l += fmt.Sprintf(" #%d", e.Op)
		}
		for _, a := range e.A {
			l += " " + show(a)
		}
		if len(e.R) > 0 {
			l += " " + show(e.R)
		}
		if e.N != "" {
			l += " (" + e.N + ")"
		}
		out = append(out, l)
	}
	return out
}

type known struct{ prop, match, text string }

// loadKnown reads the findings that are recorded rather than repaired:
// "known: property=<id> match=<text>; <what fails>". Lines that begin with
// "fixed:" suppress nothing.
func loadKnown(verif, prop string) (out []known) {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+prop+" match=")
		if !ok {
			continue
		}
		m, t, _ := strings.Cut(rest, "; ")
		out = append(out, known{prop, m, t})
	}
	return
}

// knownSpec is a recorded finding with the scenario that shows it:
// "known: property=<id> spec=<file under /verif>; <what fails>".
func knownSpecs(verif, prop string) (out []known) {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "known: property="+prop+" spec="); ok {
			m, t, _ := strings.Cut(rest, "; ")
			out = append(out, known{prop, m, t})
		}
	}
	return
}

// showKnown runs the scenarios of the recorded findings.
func showKnown(x *Runner, o Options) {
	for _, k := range knownSpecs(o.Verif, o.Prop) {
		b, err := os.ReadFile(filepath.Join(o.Verif, k.match))
		sp := &spec.Spec{}
		if err == nil {
			err = json.Unmarshal(b, sp)
		}
		if err != nil {
			fmt.Println("note:", err)
			continue
		}
		if r := x.Do(sp, false); r.Err == nil && len(r.V.Findings) > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.Prop, k.text)
		}
	}
}

func knownMatch(ks []known, r *Run) string {
	if len(ks) == 0 {
		return ""
	}
	hit := ""
	for _, f := range r.V.Findings {
		ok := false
		for _, k := range ks {
			if strings.Contains(f.Text, k.match) {
				ok, hit = true, k.text
			}
		}
		if !ok {
			return ""
		}
	}
	return hit
}

// Check runs the search; it returns the process exit code.
func Check(o Options) int {
	start := time.Now()
	p := gen.Lookup(o.Prop)
	if p == nil {
		fmt.Println("unknown property", o.Prop)
		return 2
	}
	x, built, done, err := Prepare(&o, p.Builds()...)
	if err != nil {
		fmt.Println("build failed:", err)
		return 2
	}
	defer done()
	ks := loadKnown(o.Verif, o.Prop)
	showKnown(x, o)
	st := &stats{faults: map[string]int{}, sched: map[uint64]bool{}, hist: map[uint64]bool{}, nontriv: map[uint64]bool{}, cov: map[int]bool{}, policies: map[string]int{}}
	type hit struct {
		i int
		r *Run
	}
	var (
		mu      sync.Mutex
		next    int
		hits    []hit
		knownN  = map[string]int{}
		stopped bool
		wg      sync.WaitGroup
	)
	searchStart := time.Now()
	for w := 0; w < o.Par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stopped || next >= o.Runs || time.Since(searchStart) > o.Wall {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				sp := gen.Make(p, o.Seed*1_000_003+uint64(i))
				r := x.Do(sp, false)
				st.add(i, r)
				if r.Err == nil && i%211 == 5 {
					r2 := x.Do(sp, false)
					st.mu.Lock()
					st.rechecks++
					if r2.Err == nil && !bytes.Equal(r.Raw, r2.Raw) {
						st.nondet++
					}
					st.mu.Unlock()
				}
				if r.Err == nil && len(r.V.Findings) > 0 {
					// the same seed must give the same failure in a fresh process
					t := knownMatch(ks, r)
					var again *Run
					if t == "" {
						again = x.Do(clone(r.Spec), false)
					}
					mu.Lock()
					if t != "" {
						knownN[t]++
					} else if again.Err != nil || again.Key() == "" {
						st.mu.Lock()
						st.nondet++
						st.mu.Unlock()
						fmt.Printf("note: seed index %d failed once (%s) and passed when repeated; not reported\n", i, r.Key())
					} else {
						r = again
						hits = append(hits, hit{i, r})
						stopped = true
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	searchTook := time.Since(searchStart)
	for _, t := range keys(knownN) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.Prop, t)
	}
	code := 0
	var viol []string
	sort.Slice(hits, func(a, b int) bool { return hits[a].i < hits[b].i })
	for _, h := range hits {
		again := h.r
		best, tries := x.Minimise(again, o.Par, o.Minimum)
		path := filepath.Join(o.Verif, "replays", fmt.Sprintf("%s-seed%d-%d.json", o.Prop, o.Seed, h.i))
		// what is written is what a fresh run of the minimised spec gives
		fin := x.Do(clone(best.Spec), false)
		if fin.Err != nil || fin.Key() == "" {
			fin = again
			best = again
		}
		if err := writeReplay(path, o, h.i, fin, h.r.Spec); err != nil {
			fmt.Println("cannot write the replay file:", err)
			return 2
		}
		fmt.Printf("seed %d run %d broke %s (%d minimisation runs; %d requests left)\n%s", o.Seed, h.i, o.Prop, tries, nCmds(fin.Spec), fin.Text())
		for _, l := range traceLines(fin.Res.Events, 60) {
			fmt.Println("  ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.Prop, path)
		viol = append(viol, path)
		code = 1
		break
	}
	if code == 0 && st.runs == 0 {
		fmt.Println("no simulated run could be executed:", st.errTexts)
		code = 2
	}
	if code == 0 && st.errs*20 > st.runs {
		fmt.Println("too many simulated runs could not be executed:", st.errs, st.errTexts)
		code = 2
	}
	writeEvidence(o, x, st, built, searchTook, start, viol, knownN)
	fmt.Printf("%s %s: %d simulated runs, %d requests, %.0f simulated seconds, %d distinct schedules, %d undecided, %d errors, %d nondeterministic of %d repeated; build %.1fs search %.1fs\n",
		o.Prop, o.Tier, st.runs, st.ops, st.virtual, len(st.sched), st.undec, st.errs, st.nondet, st.rechecks, built.Seconds(), searchTook.Seconds())
	return code
}

func writeReplay(path string, o Options, i int, r *Run, orig *spec.Spec) error {
	rp := Replay{Property: o.Prop, Seed: o.Seed*1_000_003 + uint64(i), Kind: r.Key(), Spec: r.Spec, Original: orig,
		Trace: traceLines(r.Res.Events, 400), Faults: r.Res.Fired,
		HowTo: "cd /verif && ./check.sh replay " + path}
	for _, f := range r.V.Findings {
		rp.Findings = append(rp.Findings, f.Kind+": "+f.Text)
	}
	b, err := json.MarshalIndent(&rp, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

// DoReplay runs a replay file against the current tree.
func DoReplay(o Options, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		fmt.Println(err)
		return 2
	}
	x, _, done, err := Prepare(&o, rp.Spec.Server)
	if err != nil {
		fmt.Println("build failed:", err)
		return 2
	}
	defer done()
	r := x.Do(rp.Spec, false)
	if r.Err != nil {
		fmt.Println("run failed:", r.Err)
		return 2
	}
	for _, l := range traceLines(r.Res.Events, 0) {
		fmt.Println("  ", l)
	}
	if len(r.V.Findings) == 0 {
		fmt.Println("the scenario passes on this tree")
		return 0
	}
	fmt.Print(r.Text())
	same := strings.Join(traceLines(r.Res.Events, 400), "\n") == strings.Join(rp.Trace, "\n")
	fmt.Println("identical to the recorded trace:", same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
	return 1
}

func writeEvidence(o Options, x *Runner, st *stats, built, took time.Duration, start time.Time, viol []string, knownN map[string]int) {
	per := map[string][2]int{}
	for i, s := range x.B.Sites {
		d := filepath.Dir(s.File)
		v := per[d]
		v[1]++
		if st.cov[i] {
			v[0]++
		}
		per[d] = v
	}
	cov := map[string]string{}
	for d, v := range per {
		cov[d] = fmt.Sprintf("%d/%d", v[0], v[1])
	}
	if p := os.Getenv("SIM_COV"); p != "" { // for reading coverage together
		var b strings.Builder
		for i, s := range x.B.Sites {
			fmt.Fprintf(&b, "%v %s:%d %s\n", st.cov[i], s.File, s.Line, s.Func)
		}
		_ = os.WriteFile(p, []byte(b.String()), 0o644)
	}
	if len(st.samples) == 0 {
		st.samples = append(st.samples, map[string]any{"note": "the search stopped before a sample was drawn"})
	}
	hours := took.Hours()
	if hours <= 0 {
		hours = 1e-9
	}
	e := map[string]any{
		"property": o.Prop, "tier": o.Tier, "seed": o.Seed, "level": "exploration", "wall_s": time.Since(start).Seconds(),
		"coverage": map[string]any{
			"evaluations":         st.runs,
			"distinct_nontrivial": len(st.nontriv),
			"rule": "one case is one simulated run of the whole server, a pure function of (property, seed index): workload, schedule policy, network and faults are drawn from the seed. " +
				"Distinct: the pair (history of requests and replies, scheduler decision hash) differs. Non-trivial: at least 4 history events and at least 10 scheduling decisions with more than one runnable goroutine.",
			"samples":                      st.samples,
			"seeds_per_hour":               int(float64(st.runs) / hours),
			"simulated_seconds":            st.virtual,
			"requests":                     st.ops,
			"requests_without_reply":       st.maybe,
			"runs_with_several_clients":    st.conc,
			"faults_injected":              st.faults,
			"distinct_schedules":           len(st.sched),
			"distinct_histories":           len(st.hist),
			"scheduling_decisions":         st.decs,
			"statements_executed":          st.steps,
			"schedule_policies":            st.policies,
			"longest_wait_in_calm_runs_us": st.calm,
			"linearizability_nodes":        st.nodes,
			"undecided_histories":          st.undec,
			"runs_not_executed":            st.errs,
			"determinism_rechecks":         st.rechecks,
			"determinism_mismatches":       st.nondet,
			"godis_statements_reached":     cov,
			"real_components":              realComponents(x, o),
			"stub_components":              []string{"Linux sockets, epoll, eventfd (simkern)", "os/signal (simsignal)", "net.Listen for v1 (simnet)", "wall clock (runtime faketime)", "goroutine scheduler choice (patched runqget), single P", "clients (harness)"},
			"oracle":                       "reference model + linearizability search over each history; wire checks; see DESIGN.md",
			"violations":                   viol,
			"known_findings":               knownN,
			"build_seconds":                built.Seconds(),
			"search_seconds":               took.Seconds(),
			"linearizability_node_budget":  oracle.Budget,
			"cpus":                         runtime.NumCPU(),
		},
	}
	b, _ := json.MarshalIndent(e, "", " ")
	dir := filepath.Join(o.Verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	_ = os.WriteFile(filepath.Join(dir, o.Prop+".json"), append(b, '\n'), 0o644)
}

func realComponents(x *Runner, o Options) []string {
	if p := gen.Lookup(o.Prop); p != nil && p.Server == "v1" {
		return []string{"godis (all packages except cmd/server; statement hooks inserted)", "Go runtime goroutines, channels, timers, context, bufio"}
	}
	return []string{"godis (all packages, cmd/server main included; statement hooks inserted)", "gnet v1.6.3", "ants v2.4.7", "zap, bytebufferpool", "Go runtime goroutines, channels, timers, context"}
}

// RunOne executes one spec and prints what happened.
func RunOne(o Options, sp *spec.Spec) int {
	x, _, done, err := Prepare(&o, sp.Server)
	if err != nil {
		fmt.Println("build failed:", err)
		return 2
	}
	defer done()
	r := x.Do(sp, false)
	if r.Err != nil {
		fmt.Println("run failed:", r.Err)
		return 2
	}
	for _, l := range traceLines(r.Res.Events, 0) {
		fmt.Println("  ", l)
	}
	fmt.Print(r.Text())
	if len(r.V.Findings) > 0 {
		return 1
	}
	return 0
}
