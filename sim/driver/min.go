package driver

import (
	"encoding/json"
	"sort"
	"time"

	"simgodis/spec"
)

func clone(sp *spec.Spec) *spec.Spec {
	b, _ := json.Marshal(sp)
	out := &spec.Spec{}
	_ = json.Unmarshal(b, out)
	return out
}

// minimiser shrinks a failing spec while the same kind of finding remains.
type minimiser struct {
	x     *Runner
	kind  string
	until time.Time
	best  *Run
	tries int
	par   int
}

// first returns the first of the candidates that still fails (by order), run
// in parallel.
func (m *minimiser) first(cands []*spec.Spec) int {
	for base := 0; base < len(cands); base += m.par {
		if time.Now().After(m.until) {
			return -1
		}
		end := min(base+m.par, len(cands))
		res := make([]*Run, end-base)
		done := make(chan int)
		for i := base; i < end; i++ {
			go func() {
				res[i-base] = m.x.Do(cands[i], false)
				done <- i
			}()
		}
		for i := base; i < end; i++ {
			<-done
		}
		m.tries += end - base
		for i, r := range res {
			if r.Err == nil && m.same(r) {
				m.best = r
				return base + i
			}
		}
	}
	return -1
}

func (m *minimiser) same(r *Run) bool {
	for _, f := range r.V.Findings {
		if f.Kind == m.kind {
			return true
		}
	}
	return false
}

// shrink removes chunks of a list: get its length, and build a spec without
// [i,j).
func (m *minimiser) shrink(n func(*spec.Spec) int, without func(sp *spec.Spec, i, j int)) bool {
	any := false
	for size := max(1, n(m.best.Spec)/2); ; {
		total := n(m.best.Spec)
		if total == 0 || time.Now().After(m.until) {
			return any
		}
		var cands []*spec.Spec
		for i := 0; i < total; i += size {
			c := clone(m.best.Spec)
			without(c, i, min(i+size, total))
			cands = append(cands, c)
		}
		if m.first(cands) >= 0 {
			any = true
			if s := n(m.best.Spec); size > s {
				size = max(1, s)
			}
			continue
		}
		if size == 1 {
			return any
		}
		size = max(1, size/2)
	}
}

func cut[T any](s []T, i, j int) []T { return append(append([]T(nil), s[:i]...), s[j:]...) }

// flat view of all requests
func nCmds(sp *spec.Spec) int {
	n := 0
	for _, c := range sp.Clients {
		for _, st := range c.Steps {
			n += len(st.Cmds)
		}
	}
	return n
}

func dropCmds(sp *spec.Spec, i, j int) {
	k := 0
	for ci := range sp.Clients {
		c := &sp.Clients[ci]
		var steps []spec.Step
		for _, st := range c.Steps {
			if len(st.Cmds) == 0 {
				steps = append(steps, st)
				continue
			}
			var keep []spec.Cmd
			for _, cmd := range st.Cmds {
				if k < i || k >= j {
					keep = append(keep, cmd)
				}
				k++
			}
			if len(keep) > 0 {
				if len(keep) != len(st.Cmds) {
					st.Cut = nil
				}
				st.Cmds = keep
				steps = append(steps, st)
			}
		}
		c.Steps = steps
	}
}

func nSteps(sp *spec.Spec) int {
	n := 0
	for _, c := range sp.Clients {
		n += len(c.Steps)
	}
	return n
}

func dropSteps(sp *spec.Spec, i, j int) {
	k := 0
	for ci := range sp.Clients {
		c := &sp.Clients[ci]
		var steps []spec.Step
		for _, st := range c.Steps {
			if k < i || k >= j {
				steps = append(steps, st)
			}
			k++
		}
		c.Steps = steps
	}
}

// Minimise shrinks workload, faults and schedule.
func (x *Runner) Minimise(r *Run, par int, limit time.Duration) (*Run, int) {
	m := &minimiser{x: x, kind: r.Key(), until: time.Now().Add(limit), best: r, par: par}
	try := func(f func(sp *spec.Spec)) bool {
		c := clone(m.best.Spec)
		f(c)
		return m.first([]*spec.Spec{c}) >= 0
	}
	for round := 0; round < 3; round++ {
		changed := false
		changed = m.shrink(func(s *spec.Spec) int { return len(s.Clients) }, func(s *spec.Spec, i, j int) { s.Clients = cut(s.Clients, i, j) }) || changed
		changed = m.shrink(nCmds, dropCmds) || changed
		changed = m.shrink(nSteps, dropSteps) || changed
		changed = m.shrink(func(s *spec.Spec) int { return len(s.Audit) }, func(s *spec.Spec, i, j int) { s.Audit = cut(s.Audit, i, j) }) || changed
		changed = m.shrink(func(s *spec.Spec) int { return len(s.Stalls) }, func(s *spec.Spec, i, j int) { s.Stalls = cut(s.Stalls, i, j) }) || changed
		changed = m.shrink(func(s *spec.Spec) int { return len(s.Net.Partitions) }, func(s *spec.Spec, i, j int) { s.Net.Partitions = cut(s.Net.Partitions, i, j) }) || changed
		if round == 0 {
			for _, f := range []func(s *spec.Spec){
				func(s *spec.Spec) {
					k := s.Net
					s.Net = spec.Spec{}.Net
					s.Net.Seed = k.Seed
					s.Net.Partitions = k.Partitions
				},
				func(s *spec.Spec) { s.Net.LossP = 0 }, func(s *spec.Spec) { s.Net.StallP = 0 }, func(s *spec.Spec) { s.Net.EintrP = 0 },
				func(s *spec.Spec) { s.Net.EagainP = 0 }, func(s *spec.Spec) { s.Net.PartWriteP = 0 }, func(s *spec.Spec) { s.Net.ShortReadP = 0 },
				func(s *spec.Spec) { s.Net.Seg = 0 }, func(s *spec.Spec) { s.Net.SndBuf, s.Net.RcvBuf, s.Net.CliBuf = 0, 0, 0 },
				func(s *spec.Spec) { s.Net.DelayMinUs, s.Net.DelayMaxUs = 0, 0 },
				func(s *spec.Spec) { s.Demotes = nil }, func(s *spec.Spec) { s.MeanGap = 0 }, func(s *spec.Spec) { s.Policy = 0; s.Demotes = nil },
				func(s *spec.Spec) { s.NumCPU = 1 }, func(s *spec.Spec) { s.OutFull = false }, func(s *spec.Spec) { s.Settle = false }, func(s *spec.Spec) { s.Sig2AtMs = 0 },
				func(s *spec.Spec) {
					for i := range s.Clients {
						s.Clients[i].StartMs = 0
					}
				},
				func(s *spec.Spec) {
					for i := range s.Clients {
						for j := range s.Clients[i].Steps {
							s.Clients[i].Steps[j].Cut = nil
						}
					}
				},
			} {
				changed = try(f) || changed
			}
		}
		if !changed {
			break
		}
	}
	// individual fault occurrences
	if m.best.Res != nil && len(m.best.Res.Fired) > 0 {
		fired := append([]string(nil), m.best.Res.Fired...)
		if len(fired) > 400 {
			fired = fired[:400]
		}
		kept := fired
		for size := max(1, len(kept)/2); len(kept) > 0 && time.Now().Before(m.until); {
			var cands []*spec.Spec
			var outs [][]string
			for i := 0; i < len(kept); i += size {
				j := min(i+size, len(kept))
				c := clone(m.best.Spec)
				c.Disabled = append(c.Disabled, kept[i:j]...)
				cands = append(cands, c)
				outs = append(outs, cut(kept, i, j))
			}
			if i := m.first(cands); i >= 0 {
				kept = outs[i]
				size = min(size, max(1, len(kept)))
				continue
			}
			if size == 1 {
				break
			}
			size = max(1, size/2)
		}
	}
	m.schedule()
	return m.best, m.tries
}

// schedule replaces the seeded policy by an explicit list of choices and
// preemptions and shrinks that.
func (m *minimiser) schedule() {
	if time.Now().After(m.until) || m.best.Spec.Sched != nil {
		return
	}
	if m.best.Spec.Policy == 0 && m.best.Spec.MeanGap == 0 && len(m.best.Spec.Demotes) == 0 {
		return
	}
	r := m.x.Do(m.best.Spec, true)
	m.tries++
	if r.Err != nil || !m.same(r) {
		return
	}
	pre := r.Pre
	if r.Res != nil && len(r.Res.Preempts) > 0 {
		pre = r.Res.Preempts
	}
	s := &spec.Sched{Preempts: pre}
	last := len(r.Rec)
	for last > 0 && r.Rec[last-1] == 0 {
		last--
	}
	for i := 0; i < last; i++ {
		if r.Rec[i] != 0 {
			s.N = append(s.N, uint32(i))
			s.C = append(s.C, r.Rec[i])
		}
	}
	if len(s.N) >= 1<<16 {
		return
	}
	c := clone(m.best.Spec)
	c.Sched = s
	c.Policy, c.MeanGap = 0, 0
	if m.first([]*spec.Spec{c}) < 0 {
		return
	}
	m.shrink(func(s *spec.Spec) int { return len(s.Sched.N) }, func(s *spec.Spec, i, j int) {
		s.Sched.N, s.Sched.C = cut(s.Sched.N, i, j), cut(s.Sched.C, i, j)
	})
	m.shrink(func(s *spec.Spec) int { return len(s.Sched.Preempts) }, func(s *spec.Spec, i, j int) { s.Sched.Preempts = cut(s.Sched.Preempts, i, j) })
	m.shrink(nCmds, dropCmds)
}

func keys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
