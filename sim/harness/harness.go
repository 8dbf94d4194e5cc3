// Package harness drives one simulated run: it boots the real server on the
// simulated kernel, plays the clients' scripts, and records the history.
package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"golang.org/x/sys/simkern"

	"simgodis/simhook"
	"simgodis/simrt"
	signal "simgodis/simsignal"
	"simgodis/spec"
)

// Port the server listens on; not the default one.
const Port = 6400

var (
	sp   spec.Spec
	res  spec.Result
	t0   time.Time
	done bool
	live []*client

	exitT int64
)

func now() int64 { return time.Since(t0).Microseconds() }

func ev(e spec.Event) {
	e.T = now()
	res.Events = append(res.Events, e)
}

func problem(f string, a ...any) { res.Problems = append(res.Problems, fmt.Sprintf(f, a...)) }

// cost bounds what the run has allocated, and therefore copied, by what was
// sent and read. The measured maximum of the unchanged tree is a third of it.
// Only the limit is printed, because the amount is not exactly repeatable.
func cost() {
	if strings.HasPrefix(sp.Server, "race") {
		return
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	limit := 200<<20 + 600*uint64(simkern.K.Carried) + 100<<10*uint64(simkern.K.Reads)
	if m.TotalAlloc > limit {
		problem("cost: the process allocated (and copied) more than %d MB in a run in which all connections together carried %d kB", limit>>20, simkern.K.Carried>>10)
	}
}

// memory looks at what is still in use after everybody has left and everything
// big has been deleted. It runs after the schedule has been recorded, because
// the collector's work is not part of the simulation.
func memory() {
	live = nil
	simkern.Forget()
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	own := 8 * cap(simhook.Preempts)
	for _, e := range res.Events {
		own += 256 + len(e.R)
		for _, a := range e.A {
			own += 32 + len(a)
		}
	}
	// the unchanged tree stays below 1.7 MB and 1500 objects
	if m.HeapAlloc > uint64(own)+4000<<10 {
		problem("leak: more than 4 MB are still in use 45s after every client left and everything big was deleted")
	} else if m.HeapObjects > 4000+2*uint64(len(res.Events)) {
		problem("leak: more than 4000 objects are still in use 45s after every client left and everything was deleted")
	}
}

// finish writes the result and ends the process.
func finish() {
	if done {
		select {}
	}
	done = true
	simhook.Stop()
	d, _, h := simrt.Stats()
	res.OK = true
	res.Steps = simhook.Steps
	res.Decisions = d
	res.SchedHash = h
	res.VirtualUs = now()
	res.Faults = simkern.K.Counts
	if simhook.StallHit > 0 {
		res.Faults["stall"] += simhook.StallHit
		for _, w := range simhook.Windows {
			res.Windows = append(res.Windows, [2]int64{w[0].Sub(t0).Microseconds(), w[1].Sub(t0).Microseconds()})
		}
	}
	if len(simhook.Preempts) > 0 {
		res.Faults["preemption"] += len(simhook.Preempts)
	}
	if sp.OutFull {
		res.Faults["stdout full"]++
	}
	res.Fired = simkern.K.Fired
	res.Preempts = simhook.Preempts
	for i, c := range simhook.Cov {
		if c > 0 {
			res.Cov = append(res.Cov, i)
		}
	}
	cost()
	if sp.Mem && !res.MainExit && len(res.Problems) == 0 {
		memory()
	}
	b, err := json.Marshal(&res)
	if err != nil {
		panic(err)
	}
	for len(b) > 0 {
		n, err := syscall.Write(3, b)
		if err != nil {
			if err == syscall.EINTR || err == syscall.EAGAIN {
				continue
			}
			os.Exit(97)
		}
		b = b[n:]
	}
	syscall.Exit(0)
}

// Run is the simulation. main is the program under test.
func Run(main func()) {
	// no collection below 1.5 GiB: a run that needs one is rare, and a process that
	// still exceeds the address space limit really holds that much
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1536 << 20)
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &sp); err != nil {
		panic(err)
	}
	if !strings.HasPrefix(sp.Server, "race") { // the race detector maps terabytes
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30})
	}
	os.Args = []string{"godis", "-addr", "tcp://127.0.0.1:" + strconv.Itoa(Port)}
	recFile()
	simhook.RawDep = sp.RawDep
	if sp.Budget == 0 {
		sp.Budget = 60_000_000 + 30*uint64(sp.RawBytes())
	}
	simrt.SetNumCPU(max(1, sp.NumCPU))
	var forced []uint64
	if sp.Sched != nil {
		forced = sp.Sched.Preempts
		simrt.Force(sp.Sched.N, sp.Sched.C)
	}
	t0 = time.Now()
	simkern.Boot(sp.Net, sp.Disabled)
	simkern.K.OnCut = func(conn string) { ev(spec.Event{K: "cut", C: conn}) }
	simkern.K.OnFail = func(conn, what string) { ev(spec.Event{K: "syserr", C: conn, N: what}) }
	simrt.Start(sp.Seed, sp.Policy)
	simhook.Start(simhook.Config{
		Seed: sp.Seed, MeanGap: sp.MeanGap, Budget: sp.Budget, Forced: forced, IsForced: sp.Sched != nil,
		Demotes: sp.Demotes, Stalls: sp.Stalls,
		OnBudget: func() {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, false)
			problem("livelock: statement budget exhausted (no progress): %s", buf[:n])
			finish()
		},
	})
	drive(main)
	finish()
}

// recFile maps the schedule record to a file so that it survives a crash.
func recFile() {
	p := os.Getenv("SIM_REC")
	if p == "" {
		return
	}
	f, err := os.OpenFile(p, os.O_RDWR, 0)
	if err != nil {
		return
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, simrt.RecSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return
	}
	simrt.SetRec(unsafe.Pointer(&m[0]))
	if p = os.Getenv("SIM_PRE"); p == "" {
		return
	}
	f, err = os.OpenFile(p, os.O_RDWR, 0)
	if err != nil {
		return
	}
	m, err = syscall.Mmap(int(f.Fd()), 0, 8*(1<<16), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return
	}
	simhook.PreRec = unsafe.Slice((*uint64)(unsafe.Pointer(&m[0])), 1<<16)
}

// startClient is a function of its own so that a report about a data race names
// it as the creator of the client's goroutine.
//
//go:noinline
func startClient(c *client, fin chan struct{}) {
	go func() {
		c.run()
		fin <- struct{}{}
	}()
}

func drive(mainFn func()) {
	exited := make(chan struct{})
	exit := func() {
		if !res.MainExit {
			res.MainExit = true
			exitT = now()
			ev(spec.Event{K: "exit"})
			res.OpenFDs = simkern.OpenStreams()
			simhook.Freeze()
			simkern.CloseAll()
			close(exited)
		}
	}
	simhook.OnExit = func(code int) {
		if code != 0 {
			problem("crash: os.Exit(%d)", code)
		}
		exit()
	}
	go func() {
		mainFn()
		exit()
	}()
	var sigT int64 = -1
	sig := func() {
		for i := 0; !signal.Subscribed() && !res.MainExit && i < 100_000; i++ {
			time.Sleep(time.Millisecond)
		}
		if sigT < 0 {
			sigT = now()
		}
		ev(spec.Event{K: "sig"})
		for _, c := range live {
			if !c.dead && c.s != nil {
				ev(spec.Event{K: "at_sig", C: c.name, O: c.s.Taken()})
			}
		}
		no := syscall.SIGTERM
		if sp.SigInt {
			no = syscall.SIGINT
			simkern.Count("sigint")
		} else {
			simkern.Count("sigterm")
		}
		if !signal.Handled(no) {
			// a process that is just ending may have given its handlers up
			if time.Sleep(time.Millisecond); res.MainExit {
				return
			}
			problem("shutdown: %v is not handled: it kills the process at once", no)
			exit()
			return
		}
		signal.Deliver(no)
	}
	if sp.SigAtMs >= 0 {
		at := time.Duration(sp.SigAtMs) * time.Millisecond
		go func() {
			time.Sleep(at)
			sig()
		}()
		if sp.Sig2AtMs > 0 {
			go func() {
				time.Sleep(time.Duration(sp.Sig2AtMs) * time.Millisecond)
				sig()
			}()
		}
	}
	if sp.MayNotStart && sp.SigAtMs < 0 {
		// the start fails: either the process ends or it serves all the same
		for i := 0; i < 60 && !res.MainExit; i++ {
			time.Sleep(time.Second)
		}
		simkern.K.Off = true
		if !res.MainExit {
			if !simkern.Listening(Port) {
				problem("shutdown: the server does not listen and its process does not end by itself: %v", sysG())
				finish()
			}
		}
	}
	for i := 0; !simkern.Listening(Port); i++ {
		if i > 200_000 || res.MainExit {
			if sp.SigAtMs < 0 && !sp.MayNotStart {
				problem("server does not listen after 200s of simulated time")
			}
			break
		}
		time.Sleep(time.Millisecond)
	}
	var base []string
	if sp.Settle {
		// all of the server has started: whatever was stalled meanwhile goes on
		for time.Sleep(20 * time.Millisecond); simhook.Stalling > 0; {
			time.Sleep(20 * time.Millisecond)
		}
		base = sysG()
	}
	fin := make(chan struct{}, len(sp.Clients))
	var cls []*client
	for i := range sp.Clients {
		c := newClient(&sp.Clients[i])
		cls = append(cls, c)
		live = cls
		startClient(c, fin)
	}
	long := 0
	for i := range sp.Clients {
		ms := 0
		for _, st := range sp.Clients[i].Steps {
			if st.Op == "sleep" {
				ms += st.Ms
			}
		}
		long = max(long, ms)
	}
	limit := time.NewTimer(4*time.Hour + time.Duration(long)*time.Millisecond)
	for range cls {
		select {
		case <-fin:
		case <-limit.C:
			problem("clients do not finish within 4 simulated hours, their own pauses not counted")
			finish()
		}
	}
	// faults stop; the final state is read back by one fresh client
	simkern.K.Off = true
	simhook.NoPreempt()
	if sp.SigAtMs < 0 {
		if len(sp.Audit) > 0 {
			a := newClient(&spec.Client{Name: "audit", Steps: []spec.Step{{Op: "open"}}})
			for _, c := range sp.Audit {
				a.sc.Steps = append(a.sc.Steps, spec.Step{Op: "call", Cmds: []spec.Cmd{c}})
			}
			a.run()
			a.closeIfOpen()
		}
		for _, c := range cls {
			c.closeIfOpen()
		}
		if sp.Settle {
			// well past every timeout in the server, and with nothing stalled any more
			for again := true; again; {
				hits := simhook.StallHit
				time.Sleep(45 * time.Second)
				again = simhook.Stalling > 0 || simhook.StallHit != hits
			}
			if n := simkern.OpenStreams(); n != 0 {
				problem("leak: %d connection descriptors still open 45s after every client left", n)
			}
			if got := sysG(); len(got) > len(base) {
				problem("leak: goroutines left 45s after every client left: %v", diff(got, base))
			}
			if sp.Mem {
				finish()
			}
		}
		sig()
	}
	select {
	case <-exited:
		res.ExitUs = exitT - sigT
	case <-time.After(60 * time.Second):
		problem("shutdown: process still running 60s of simulated time after SIGTERM: %v", sysG())
	}
	for _, c := range cls {
		c.closeIfOpen()
	}
}

// sysG lists the goroutines that run godis or gnet code: by their innermost
// godis frame, or else by their creation site in gnet. Idle pool workers have
// neither; they are pooled by design.
func sysG() []string {
	buf := make([]byte, 16<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		lines := strings.Split(g, "\n")
		what := ""
		for _, l := range lines[1:] {
			l, _, _ = strings.Cut(l, " in goroutine")
			if strings.HasPrefix(l, "\t") {
				continue
			}
			if strings.Contains(l, "yusank/godis") || (strings.HasPrefix(l, "created by ") && strings.Contains(l, "panjf2000/gnet")) {
				if i := strings.LastIndexByte(l, '('); i > 0 && strings.HasSuffix(l, ")") {
					l = l[:i]
				}
				what = l
				break
			}
		}
		if what != "" {
			out = append(out, what)
		}
	}
	sort.Strings(out)
	return out
}

func diff(a, b []string) []string {
	m := map[string]int{}
	for _, x := range b {
		m[x]++
	}
	var out []string
	for _, x := range a {
		if m[x] > 0 {
			m[x]--
			continue
		}
		out = append(out, x)
	}
	return out
}

// ---- clients ---------------------------------------------------------------

type pend struct {
	op   int
	free bool
	mute bool // not recorded
}

type client struct {
	sc    *spec.Client
	s     *simkern.Stream
	inc   int
	name  string
	out   []pend // awaiting replies, in order
	opN   int
	off   int // bytes handed to the connection so far
	w     *signalQ
	dead  bool // connection ended
	gone  chan struct{}
	pause time.Time
	late  bool

	extras int // replies to raw bytes
}

type signalQ struct{ ch chan struct{} }

func (q *signalQ) wake() {
	if q.ch != nil {
		close(q.ch)
		q.ch = nil
	}
}

func (q *signalQ) wait(d time.Duration) bool {
	if q.ch == nil {
		q.ch = make(chan struct{})
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-q.ch:
		return true
	case <-t.C:
		return false
	}
}

func newClient(sc *spec.Client) *client { return &client{sc: sc, w: &signalQ{}, dead: true} }

// ReplyWait is how long (virtual) a client waits for replies before it calls
// the server unresponsive. It is far above the server's own 10 s limit and any
// injected delay.
const ReplyWait = 180 * time.Second

func (c *client) run() {
	if c.sc.StartMs > 0 {
		time.Sleep(time.Duration(c.sc.StartMs) * time.Millisecond)
	}
	if len(c.sc.Steps) > 0 && c.sc.Steps[0].Op != "open" {
		c.open()
	}
	for i := range c.sc.Steps {
		st := &c.sc.Steps[i]
		switch st.Op {
		case "open":
			c.closeIfOpen()
			c.open()
		case "call", "send":
			c.send(st)
			if st.Op == "call" {
				c.await()
			}
		case "wait":
			c.await()
		case "raw":
			if !c.dead {
				c.off += len(st.Raw)
				e := spec.Event{K: "raw", C: c.name, R: st.Raw, O: c.off}
				if st.Tail {
					e.N = "tail"
				}
				ev(e)
				c.write(st.Raw, st)
			}
		case "bulk":
			for k := 0; k < max(1, st.N); k++ {
				c.bulk(st)
			}
		case "churn":
			c.churn(st)
		case "sleep":
			time.Sleep(time.Duration(st.Ms) * time.Millisecond)
		case "pause":
			c.pause = time.Now().Add(time.Duration(st.Ms) * time.Millisecond)
			simkern.Count("slow_reader")
		case "close":
			if !c.dead {
				simkern.Count("client_close")
			}
			c.closeIfOpen()
		case "reset":
			if !c.dead {
				simkern.Count("client_reset")
				ev(spec.Event{K: "reset", C: c.name})
				c.dead = true
				c.s.Reset()
				c.lost("reset")
			}
		case "half":
			if !c.dead {
				simkern.Count("client_half_close")
				e := spec.Event{K: "half", C: c.name}
				if st.Tail {
					e.N = "tail"
				}
				ev(e)
				c.s.CloseWrite()
			}
		case "expect": // an answer or the end of the connection
			if c.dead {
				break
			}
			c.off += len(st.Raw)
			ev(spec.Event{K: "raw", C: c.name, R: st.Raw, O: c.off})
			c.extras = -st.Replies
			c.write(st.Raw, st)
			dl := time.Now().Add(ReplyWait)
			for !c.dead && c.extras < 1 {
				if !c.w.wait(time.Until(dl)) {
					problem("hang: %s: neither answered nor closed within %v after bytes that cannot become a request: %q", c.name, ReplyWait, st.Raw)
					break
				}
			}
		case "drain":
			c.drain(time.Duration(st.Ms) * time.Millisecond)
		}
	}
	c.await()
}

func (c *client) open() {
	c.inc++
	c.name = fmt.Sprintf("%s.%d", c.sc.Name, c.inc)
	c.out = nil
	c.off = 0
	s, err := simkern.Dial(Port, c.name)
	if err != nil {
		ev(spec.Event{K: "refused", C: c.name})
		c.dead = true
		return
	}
	c.s = s
	c.dead = false
	c.gone = make(chan struct{})
	ev(spec.Event{K: "open", C: c.name})
	go c.reader(s, c.name, c.gone)
}

func (c *client) closeIfOpen() {
	if c.dead {
		return
	}
	ev(spec.Event{K: "close", C: c.name})
	c.dead = true
	_ = c.s.Close()
	c.lost("close")
}

func (c *client) lost(why string) {
	c.out = nil
	c.w.wake()
}

// Enc encodes one request.
func Enc(a [][]byte) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "*%d\r\n", len(a))
	for _, x := range a {
		fmt.Fprintf(&b, "$%d\r\n", len(x))
		b.Write(x)
		b.WriteString("\r\n")
	}
	return b.Bytes()
}

func (c *client) send(st *spec.Step) {
	if c.dead {
		return
	}
	var b []byte
	base := c.off
	for _, cmd := range st.Cmds {
		if cmd.Raw != nil {
			b = append(b, cmd.Raw...)
		} else {
			b = append(b, Enc(cmd.A)...)
		}
		op := c.opN
		c.opN++
		c.out = append(c.out, pend{op: op, free: st.Free})
		ev(spec.Event{K: "call", C: c.name, Op: op, A: cmd.A, R: cmd.Raw, O: base + len(b), Free: st.Free})
	}
	c.off += len(b)
	c.write(b, st)
}

// bulk sends generated bytes; only a mark of them goes into the history.
func (c *client) bulk(st *spec.Step) {
	if c.dead {
		return
	}
	b := fill(st)
	c.off += len(b)
	for k := 0; k < st.Replies; k++ {
		c.out = append(c.out, pend{op: -1, free: true, mute: true})
	}
	ev(spec.Event{K: "bulk", C: c.name, R: st.Raw, O: c.off})
	c.write(b, st)
	if st.Replies > 0 {
		c.await()
	}
}

func fill(st *spec.Step) []byte {
	b := append([]byte(nil), st.Raw...)
	b = append(b, bytes.Repeat([]byte("x"), st.Fill)...)
	return append(b, st.Post...)
}

// churn opens and closes connections that leave no trace in the history.
func (c *client) churn(st *spec.Step) {
	b := fill(st)
	p := make([]byte, 4096)
	for i := 0; i < st.N; i++ {
		s, err := simkern.Dial(Port, fmt.Sprintf("%s.churn%d", c.sc.Name, i))
		if err != nil {
			ev(spec.Event{K: "refused", C: c.sc.Name + ".churn"})
			return
		}
		s.SetDeadline(time.Now().Add(ReplyWait), true, true)
		_, err = s.Write(b)
		var in []byte
		for k := 0; k < st.Replies && err == nil; {
			if l, bad := ReplyLen(in); bad != "" {
				err = fmt.Errorf("%s", bad)
			} else if l > 0 {
				in = in[l:]
				k++
			} else {
				var n int
				var eof bool
				n, eof, err = s.Read(p)
				in = append(in, p[:n]...)
				if eof {
					err = fmt.Errorf("closed")
				}
			}
		}
		if err != nil {
			problem("lost-reply: connection %s.churn%d: %v", c.sc.Name, i, err)
			_ = s.Close()
			return
		}
		if i%3 == 1 || st.Hit {
			s.Reset()
		} else {
			_ = s.Close()
		}
		for k := 0; i%8 == 7 && k < 10_000 && !s.PeerClosed(); k++ {
			time.Sleep(time.Millisecond) // not too many at a time
		}
	}
}

func (c *client) write(b []byte, st *spec.Step) {
	last := 0
	put := func(p []byte) bool {
		for len(p) > 0 {
			// the deadline is one of progress: a slow link may need long for much data
			n := min(len(p), 4096)
			c.s.SetDeadline(time.Now().Add(ReplyWait), false, true)
			if _, err := c.s.Write(p[:n]); err != nil {
				if err == simkern.ErrTimeout {
					ev(spec.Event{K: "wtimeout", C: c.name})
				}
				return false
			}
			p = p[n:]
		}
		return true
	}
	part := func(end int) { // tells when what was sent
		if st.CutUs >= 100_000 {
			ev(spec.Event{K: "part", C: c.name, O: c.off - len(b) + end})
		}
	}
	for _, k := range st.Cut {
		if k <= last || k >= len(b) {
			continue
		}
		part(k)
		if !put(b[last:k]) {
			return
		}
		last = k
		if st.CutUs > 0 {
			time.Sleep(time.Duration(st.CutUs) * time.Microsecond)
		}
		if c.dead {
			return
		}
	}
	if last > 0 {
		part(len(b))
	}
	put(b[last:])
}

func (c *client) await() {
	dl := time.Now().Add(ReplyWait)
	moved := -1
	for !c.dead && len(c.out) > 0 {
		if !c.w.wait(time.Until(dl)) {
			if m := c.s.Taken() + c.s.Received(); m != moved {
				moved = m
				dl = time.Now().Add(ReplyWait)
				continue
			}
			ev(spec.Event{K: "timeout", C: c.name, Op: c.out[0].op})
			c.closeIfOpen()
			return
		}
	}
}

func (c *client) drain(d time.Duration) {
	dl := time.Now().Add(d)
	for !c.dead {
		left := time.Until(dl)
		if left <= 0 || !c.w.wait(left) {
			return
		}
	}
}

func (c *client) reader(s *simkern.Stream, name string, gone chan struct{}) {
	defer close(gone)
	var buf []byte
	p := make([]byte, 64<<10)
	end := func(k, n string) {
		if c.s == s && !c.dead {
			ev(spec.Event{K: k, C: name, N: n})
			c.dead = true
			_ = s.Close()
			c.lost(k)
		}
	}
	for {
		if d := time.Until(c.pause); d > 0 {
			time.Sleep(d)
		}
		n, eof, err := s.Read(p)
		if c.s != s || c.dead {
			return
		}
		if err != nil {
			end("err", err.Error())
			return
		}
		if eof {
			if len(buf) > 0 {
				ev(spec.Event{K: "garbage", C: name, R: buf, N: spec.CutOff})
			}
			end("eof", "")
			return
		}
		buf = append(buf, p[:n]...)
		for len(buf) > 0 {
			l, perr := ReplyLen(buf)
			if perr != "" {
				ev(spec.Event{K: "garbage", C: name, R: append([]byte(nil), buf...), N: perr})
				end("close", "")
				return
			}
			if l == 0 {
				break
			}
			r := append([]byte(nil), buf[:l]...)
			buf = buf[l:]
			if len(c.out) == 0 {
				ev(spec.Event{K: "extra", C: name, R: r})
				c.extras++
				c.w.wake()
				continue
			}
			o := c.out[0]
			c.out = c.out[1:]
			if o.mute {
				c.w.wake()
				continue
			}
			ev(spec.Event{K: "ret", C: name, Op: o.op, R: r, Free: o.free})
			c.w.wake()
		}
	}
}

// ReplyLen returns the length of the first complete RESP value in b, 0 when
// more bytes are needed, or an error text when b cannot be a RESP value.
func ReplyLen(b []byte) (int, string) { return replyLen(b, 0) }

func replyLen(b []byte, depth int) (int, string) {
	if len(b) == 0 {
		return 0, ""
	}
	if depth > 8 {
		return 0, "nesting too deep"
	}
	i := bytes.Index(b, []byte("\r\n"))
	switch b[0] {
	case '+', '-', ':', '$', '*':
	default:
		return 0, fmt.Sprintf("reply starts with byte %q", b[0])
	}
	if i < 0 {
		if len(b) > 1<<20 && b[0] != '+' && b[0] != '-' {
			return 0, "header line without end"
		}
		return 0, ""
	}
	line := b[1:i]
	switch b[0] {
	case '+', '-':
		if bytes.IndexByte(line, '\n') >= 0 || bytes.IndexByte(line, '\r') >= 0 {
			return 0, "line feed inside a simple string or error"
		}
		return i + 2, ""
	case ':':
		if _, err := strconv.ParseInt(string(line), 10, 64); err != nil {
			return 0, fmt.Sprintf("integer reply %q", line)
		}
		return i + 2, ""
	}
	n, err := strconv.Atoi(string(line))
	if err != nil || n < -1 {
		return 0, fmt.Sprintf("length %q", line)
	}
	if b[0] == '$' {
		if n < 0 {
			return i + 2, ""
		}
		if len(b) < i+2+n+2 {
			return 0, ""
		}
		if b[i+2+n] != '\r' || b[i+2+n+1] != '\n' {
			return 0, "bulk string not terminated by CRLF at its announced length"
		}
		return i + 2 + n + 2, ""
	}
	p := i + 2
	for k := 0; k < n; k++ {
		l, e := replyLen(b[p:], depth+1)
		if e != "" || l == 0 {
			return 0, e
		}
		p += l
	}
	return p, ""
}
