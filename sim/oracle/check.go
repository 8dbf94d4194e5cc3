package oracle

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"simgodis/spec"
)

// Finding is one broken promise.
type Finding struct {
	Kind string // reply-order, lost-reply, garbage, crash, linearizability, hang, leak, shutdown, closed, refused
	Text string
}

// Verdict of a run.
type Verdict struct {
	Findings  []Finding
	Undecided bool
	Nodes     int
	Ops       int
	MaybeOps  int
	CalmUs    int64 // longest wait in a run where nothing holds requests up
}

// Budget is the node limit of one linearizability search.
var Budget = 400_000

// Check applies every oracle to one finished run.
func Check(sp *spec.Spec, r *spec.Result) *Verdict {
	v := &Verdict{}
	add := func(k, f string, a ...any) { v.Findings = append(v.Findings, Finding{k, fmt.Sprintf(f, a...)}) }
	for _, p := range r.Problems {
		k, _, _ := strings.Cut(p, ":")
		add(k, "%s", p)
	}
	wire(sp, r, add)
	ops := Ops(r.Events, r.Windows)
	refused(sp, r.Events, ops)
	v.Ops = len(ops)
	for _, o := range ops {
		if o.Maybe {
			v.MaybeOps++
		}
	}
	shutdown(sp, r, add)
	latency(sp, r, add)
	fair(sp, r, add)
	limit(sp, r, add)
	calm(sp, r, v, add)
	if len(v.Findings) == 0 || v.Findings[0].Kind != "garbage" {
		s0 := NewState()
		for _, c := range sp.Init {
			s0 = Apply(s0, c.A, nil)[0]
		}
		l := Linearize(ops, s0, Budget)
		v.Nodes = l.Nodes
		v.Undecided = l.Undecided
		if !l.OK {
			add("linearizability", "%s", l.Why)
		}
	}
	return v
}

// Light is the verdict of a run that is only watched for memory errors.
func Light(r *spec.Result) *Verdict {
	v := &Verdict{}
	for _, p := range r.Problems {
		if strings.HasPrefix(p, "crash:") {
			v.Findings = append(v.Findings, Finding{"crash", p})
		}
	}
	ops := Ops(r.Events, r.Windows)
	v.Ops = len(ops)
	for _, o := range ops {
		if o.Maybe {
			v.MaybeOps++
		}
	}
	return v
}

// wire checks what each connection saw.
func wire(sp *spec.Spec, r *spec.Result, add func(k, f string, a ...any)) {
	bad := map[string]bool{} // sent malformed bytes or half-closed: the server may close it
	wait := map[string]int{} // requests without reply
	calls := map[string]*spec.Event{}
	sig := false
	shutdownRun := sp.SigAtMs >= 0
	slow := slowReaders(sp)
	cut := map[string]bool{}
	tail, ended, failed := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for i := range r.Events {
		e := &r.Events[i]
		switch e.K {
		case "cut":
			cut[e.C] = true
		case "raw", "half":
			bad[e.C] = true
			tail[e.C], ended[e.C] = e.N == "tail", e.N == "tail" && e.K == "half"
		case "syserr": // a system call on this connection was made to fail
			bad[e.C] = true
			failed[e.C] = true
		case "call":
			wait[e.C]++
			calls[fmt.Sprintf("%s#%d", e.C, e.Op)] = e
			if e.R != nil {
				bad[e.C] = true
			}
		case "ret":
			wait[e.C]--
		case "sig":
			sig = true
		case "exit":
			if !sig && !sp.MayNotStart {
				add("crash", "the server process ended without having been asked to")
			}
		case "garbage":
			if e.N == spec.CutOff && bad[e.C] {
				continue // the server hung up on a client that broke the protocol
			}
			if e.N == spec.CutOff && sig {
				if base, _, _ := strings.Cut(e.C, "."); slow[base] {
					continue // the server does not wait that long
				}
				if cut[e.C] {
					add("cut-reply", cutText, e.C)
					continue
				}
			}
			add("garbage", "%s: bytes that are not a RESP reply: %s: %s", e.C, e.N, short(string(e.R)))
		case "extra":
			if !bad[e.C] {
				add("reply-count", "%s: a reply nobody asked for: %s", e.C, short(string(e.R)))
			}
		case "timeout":
			c := calls[fmt.Sprintf("%s#%d", e.C, e.Op)]
			if bad[e.C] {
				add("lost-reply", "%s: connection neither answered nor closed within %d simulated seconds after malformed input or a failed system call", e.C, 180)
				continue
			}
			t := ""
			if c != nil {
				t = (&Op{Args: c.A}).String()
			}
			add("lost-reply", "%s: request %d got no reply within 180 simulated seconds: %s", e.C, e.Op, t)
		case "wtimeout":
			add("lost-reply", "%s: the server stopped reading requests for 180 simulated seconds", e.C)
		case "eof", "err":
			// a reset may take replies with it that were on their way, and
			// is what malformed bytes that were not read lead to
			if (e.K == "eof" || ended[e.C]) && tail[e.C] && wait[e.C] > 0 && !sig && !cut[e.C] && !failed[e.C] && !sp.MayNotStart {
				add("lost-reply", "%s: the connection was closed before %d requests were answered that came before the malformed bytes or the end of sending", e.C, wait[e.C])
				continue
			}
			if sig || bad[e.C] || sp.MayNotStart && r.MainExit {
				continue
			}
			add("closed", "%s: the server closed the connection of a well-behaved client (%s %s; %d requests unanswered)", e.C, e.K, e.N, wait[e.C])
		case "refused":
			if !sig && !shutdownRun && !sp.MayNotStart {
				add("refused", "%s: connection refused while the server runs", e.C)
			}
		}
	}
}

// ShutdownUs bounds the time from the signal to the end of the process, the
// stalls that the simulator injected not counted.
const ShutdownUs = 30_000_000

// impatient: the server waits only 5 s for its connections to finish.
func impatient(sp *spec.Spec) bool {
	ms := 0
	for _, st := range sp.Stalls {
		ms += st.DurMs
	}
	return ms > 4500
}

// refused: what was sent after the signal may be answered with an error.
func refused(sp *spec.Spec, evs []spec.Event, ops []*Op) {
	if sp.SigAtMs < 0 {
		return
	}
	sig := slices.IndexFunc(evs, func(e spec.Event) bool { return e.K == "sig" })
	if sig < 0 {
		return
	}
	for _, o := range ops {
		if o.R == nil || !o.R.isErr() || o.Ret < sig {
			continue
		}
		if o.Call > sig || impatient(sp) {
			o.Maybe, o.Ret = true, never
		}
	}
}

const cutText = "%s: the server closed the connection on shutdown although its last write had not taken everything: the rest of the replies is lost"

// slowReaders are the clients whose pauses in reading are longer than a stopping
// server has to wait for.
func slowReaders(sp *spec.Spec) map[string]bool {
	slow := map[string]bool{}
	for _, c := range sp.Clients {
		ms := 0
		for _, st := range c.Steps {
			if st.Op == "pause" {
				ms += st.Ms
			}
		}
		if ms > 0 && (ms > 1500 || len(sp.Stalls) > 0 || sp.SigAtMs < 0) {
			slow[c.Name] = true
		}
	}
	return slow
}

// shutdown checks a run that was ended by a signal in its middle.
func shutdown(sp *spec.Spec, r *spec.Result, add func(k, f string, a ...any)) {
	limit := int64(ShutdownUs)
	for _, st := range sp.Stalls { // a stalled goroutine may be what the shutdown waits for
		limit += int64(st.DurMs) * 1000
	}
	if r.MainExit && r.ExitUs > limit {
		add("shutdown", "the process ended only %.1f simulated seconds after the signal", float64(r.ExitUs)/1e6)
	}
	if sp.SigAtMs < 0 || impatient(sp) {
		return
	}
	type cs struct {
		taken, sent int
		have        bool
		gone        bool // the client left, misbehaved or stopped reading
		open        []*spec.Event
		pend        map[int]*spec.Event
	}
	conns := map[string]*cs{}
	get := func(n string) *cs {
		c := conns[n]
		if c == nil {
			c = &cs{pend: map[int]*spec.Event{}}
			conns[n] = c
		}
		return c
	}
	slow := slowReaders(sp)
	cut := map[string]bool{}
	sigs := 0
	for i := range r.Events {
		e := &r.Events[i]
		if e.K == "sig" {
			sigs++
		}
		if e.C == "" {
			continue
		}
		c := get(e.C)
		switch e.K {
		case "cut":
			cut[e.C] = true
		case "call":
			c.sent = e.O
			if e.R != nil {
				c.gone = true
			}
			c.pend[e.Op] = e
		case "raw", "half", "reset", "close", "garbage", "syserr":
			c.gone = true
		case "ret":
			delete(c.pend, e.Op)
		case "at_sig":
			if !c.have && sigs == 1 { // the first signal counts
				c.have, c.taken = true, e.O
			}
		}
	}
	names := make([]string, 0, len(conns))
	for n := range conns {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c := conns[n]
		base, _, _ := strings.Cut(n, ".")
		if !c.have || c.gone || slow[base] || c.sent > c.taken {
			// what it had sent and the server had not read makes the kernel reset the
			// connection, and replies are lost with it
			continue
		}
		first := -1
		for op := range c.pend {
			if first < 0 || op < first {
				first = op
			}
		}
		if first >= 0 && cut[n] {
			add("cut-reply", cutText, n)
		} else if first >= 0 {
			add("shutdown", "%s: request %d had been taken in by the server before the signal but was never answered: %s", n, first, (&Op{Conn: n, N: first, Args: c.pend[first].A}).String())
		}
	}
}

// sent gives the virtual time at which each request was sent to its end.
func sent(evs []spec.Event) map[string]int64 {
	at := map[string]int64{}
	open := map[string][]*spec.Event{}
	for i := range evs {
		e := &evs[i]
		id := fmt.Sprintf("%s#%d", e.C, e.Op)
		switch e.K {
		case "call":
			at[id] = e.T
			open[e.C] = append(open[e.C], e)
		case "part":
			q := open[e.C]
			for len(q) > 0 && q[0].O <= e.O {
				at[fmt.Sprintf("%s#%d", e.C, q[0].Op)] = e.T
				q = q[1:]
			}
			open[e.C] = q
		case "ret":
			if q := open[e.C]; len(q) > 0 && q[0].Op == e.Op {
				open[e.C] = q[1:]
			}
		}
	}
	return at
}

// started gives the virtual time from which on each answered request was up to
// the server: it was sent, and the one before it on its connection was answered.
func started(evs []spec.Event) map[string]int64 {
	at := sent(evs)
	prev := map[string]int64{}
	for i := range evs {
		if e := &evs[i]; e.K == "ret" {
			id := fmt.Sprintf("%s#%d", e.C, e.Op)
			at[id] = max(at[id], prev[e.C])
			prev[e.C] = e.T
		}
	}
	return at
}

// FairOps bounds how many requests of another connection are answered while one
// waits. The unchanged tree stays below 10.
const FairOps = 500

func fair(sp *spec.Spec, r *spec.Result, add func(k, f string, a ...any)) {
	if sp.Profile != "fair" {
		return
	}
	n := map[string]int{}             // answers so far
	at := map[string]map[string]int{} // what they were when the request was sent
	for _, e := range r.Events {
		k := fmt.Sprintf("%s#%d", e.C, e.Op)
		switch {
		case e.C == "" || e.K != "call" && e.K != "ret":
		case strings.HasPrefix(e.C, "f"):
			if e.K == "ret" {
				n[e.C]++
			}
		case e.K == "call":
			at[k] = map[string]int{}
			for c, v := range n {
				at[k][c] = v
			}
		case e.K == "ret":
			for _, c := range []string{"f1.1", "f2.1", "f3.1"} {
				v := n[c]
				if v-at[k][c] > FairOps {
					add("fairness", "%s: while request %d waited, more than %d requests of %s were answered", e.C, e.Op, FairOps, c)
				}
			}
		}
	}
}

// LimitUs bounds how long a request may take, from the moment the one before it
// on its connection was answered, when nothing but command execution stalls: the
// server's limit is 10 s.
const LimitUs = 11_000_000

func limit(sp *spec.Spec, r *spec.Result, add func(k, f string, a ...any)) {
	if sp.Profile != "limit" {
		return
	}
	at := started(r.Events)
	for _, e := range r.Events {
		if e.K == "ret" {
			if d := e.T - at[fmt.Sprintf("%s#%d", e.C, e.Op)]; d > LimitUs {
				add("limit", "%s: request %d was answered only %.1f simulated seconds after it could start, although only the execution of commands stalled", e.C, e.Op, float64(d)/1e6)
			}
		}
	}
}

// CalmUs bounds how long any request waits in a run whose network is quick and
// loses nothing, the injected stalls not counted. It is below the server's 10 s
// limit, so that a request which is forgotten until then does not pass.
const CalmUs = 2_000_000

// calm checks that nothing waits when there is nothing to wait for.
func calm(sp *spec.Spec, r *spec.Result, v *Verdict, add func(k, f string, a ...any)) {
	k := &sp.Net
	if k.LossP > 0 || k.StallP > 0 || len(k.Partitions) > 0 || len(k.Fails) > 0 || sp.SigAtMs >= 0 || sp.MayNotStart || sp.Mem {
		return
	}
	if k.DelayMaxUs > 50 && (k.SndBuf > 0 || k.RcvBuf > 0 || k.CliBuf > 0) {
		return // many round trips for a long reply
	}
	limit := int64(CalmUs)
	for _, st := range sp.Stalls {
		limit += int64(st.DurMs) * 1000
	}
	own := map[string]bool{}
	for _, c := range sp.Clients {
		for _, st := range c.Steps {
			if st.Op == "pause" {
				own[c.Name] = true
			}
		}
	}
	at := started(r.Events)
	for _, e := range r.Events {
		if e.K == "ret" {
			n, _, _ := strings.Cut(e.C, ".")
			d := e.T - at[fmt.Sprintf("%s#%d", e.C, e.Op)]
			if !own[n] {
				v.CalmUs = max(v.CalmUs, d-limit+CalmUs)
			}
			if d > limit && !own[n] {
				add("calm", "%s: request %d was answered only %.1f simulated seconds after it could start, although nothing held it up", e.C, e.Op, float64(d)/1e6)
			} else if d > CalmUs && !own[n] && !during(r.Windows, e.T-d, e.T) {
				add("calm", "%s: request %d was answered only %.1f simulated seconds after it could start, although nothing was stalled any more: %s", e.C, e.Op, float64(d)/1e6, short(string(e.R)))
			}
		}
	}
}

// during tells whether a stall lasted at some time from a to b.
func during(windows [][2]int64, a, b int64) bool {
	for _, w := range windows {
		if w[0] <= b && w[1] >= a-1000 {
			return true
		}
	}
	return false
}

// overlap is how long stalls lasted from a to b.
func overlap(windows [][2]int64, a, b int64) (us int64) {
	for _, w := range windows {
		us += max(0, min(w[1], b)-max(w[0], a))
	}
	return us
}

// LatencyUs bounds an honest client's wait in runs where only others are slow.
const LatencyUs = 5_000_000

func latency(sp *spec.Spec, r *spec.Result, add func(k, f string, a ...any)) {
	if sp.Profile != "latency" {
		return
	}
	at := started(r.Events)
	for _, e := range r.Events {
		if strings.HasPrefix(e.C, "c") && e.K == "ret" {
			if d := e.T - at[fmt.Sprintf("%s#%d", e.C, e.Op)]; d > LatencyUs {
				add("latency", "%s: request %d waited %.1f simulated seconds although only other connections were slow", e.C, e.Op, float64(d)/1e6)
			}
		}
	}
}
