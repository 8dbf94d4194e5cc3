// Package simkern is the simulated kernel: TCP sockets, epoll and eventfd on
// virtual time. It stands where the Linux system calls would be; everything
// above it (gnet, ants, the Go runtime's goroutines and timers, godis) is real
// code.
//
// The program runs on one P with no asynchronous preemption and this package
// is not instrumented, so code here is atomic between two blocking points and
// needs no locks.
//
// Every random choice is a hash of (seed, kind, connection, direction,
// ordinal), never a draw from a shared stream, so switching one fault off does
// not move any other.
package simkern

import (
	"errors"
	"hash/fnv"
	"sort"
	"strconv"
	"syscall"
	"time"

	"golang.org/x/sys/simrace"
)

// Knobs parameterise the network and the system-call faults of one run.
// Probabilities are per mille.
type Knobs struct {
	Seed       uint64 `json:"seed"`
	SndBuf     int    `json:"snd_buf"`      // server socket send buffer
	RcvBuf     int    `json:"rcv_buf"`      // server socket receive buffer
	CliBuf     int    `json:"cli_buf"`      // client socket buffers
	Seg        int    `json:"seg"`          // 0: writes travel whole; n>0: cut in segments of 1..n bytes
	DelayMinUs int    `json:"delay_min_us"` // per segment latency
	DelayMaxUs int    `json:"delay_max_us"`
	LossP      int    `json:"loss_p"`       // segment lost, retransmitted after 200ms..1.6s
	ShortReadP int    `json:"short_read_p"` // read(2) returns fewer bytes than available
	PartWriteP int    `json:"part_write_p"` // write(2) accepts fewer bytes than offered
	EagainP    int    `json:"eagain_p"`     // write(2) spuriously full
	EintrP     int    `json:"eintr_p"`      // epoll_wait interrupted
	StallP     int    `json:"stall_p"`      // link stalls for up to StallMaxMs
	StallMaxMs int    `json:"stall_max_ms"`
	Partitions []Part `json:"partitions,omitempty"`
	Fails      []Fail `json:"fails,omitempty"` // system calls that fail
}

// Fail makes N calls of one kind fail, after the first Skip of them. Call is
// socket, bind, listen, epoll_create, eventfd, epoll_add (of a listener),
// accept, read or write (of a connection).
type Fail struct {
	Call  string        `json:"call"`
	Skip  int           `json:"skip"`
	N     int           `json:"n"`
	Errno syscall.Errno `json:"errno"`
}

// Part is a partition: nothing is delivered on the named connections (all when
// empty) between the two virtual times after start.
type Part struct {
	FromMs int      `json:"from_ms"`
	ToMs   int      `json:"to_ms"`
	Conns  []string `json:"conns,omitempty"`
}

// Mix is the stateless draw.
func Mix(parts ...uint64) uint64 {
	x := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		x ^= p + 0x9e3779b97f4a7c15 + x<<6 + x>>2
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
		x = (x ^ (x >> 27)) * 0x94d049bb133111eb
		x ^= x >> 31
	}
	return x
}

// HashS hashes a string for Mix.
func HashS(s string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	return h.Sum64()
}

type fileKind int

const (
	kEpoll fileKind = iota
	kEvent
	kListen
	kSock // stream socket before connect/listen
	kStream
)

type file struct {
	kind  fileKind
	fd    int
	ep    *epoll
	count uint64 // eventfd
	lis   *Listener
	port  int
	reuse bool
	e     *End
	watch []*epoll // epolls that watch this file
}

type epItem struct {
	fd     int
	f      *file
	events uint32
}

type epoll struct {
	items []*epItem
	w     waitq
	n     uint64
	rr    int
}

type waitq struct{ chs []chan struct{} }

func (w *waitq) wake() {
	simrace.Enter()
	defer simrace.Leave()
	for _, c := range w.chs {
		close(c)
	}
	w.chs = w.chs[:0]
}

// wait parks until woken or the virtual deadline; false on deadline.
func (w *waitq) wait(deadline time.Time) bool {
	simrace.Enter()
	defer simrace.Leave()
	c := make(chan struct{})
	w.chs = append(w.chs, c)
	if deadline.IsZero() {
		<-c
		return true
	}
	d := time.Until(deadline)
	if d <= 0 {
		w.drop(c)
		return false
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-c:
		return true
	case <-t.C:
		w.drop(c)
		return false
	}
}

func (w *waitq) drop(c chan struct{}) {
	for i, x := range w.chs {
		if x == c {
			w.chs = append(w.chs[:i], w.chs[i+1:]...)
			return
		}
	}
}

// K is the one simulated machine.
var K = &kernel{}

type kernel struct {
	kn       Knobs
	on       bool
	start    time.Time
	fds      map[int]*file
	ports    map[int][]*Listener
	Disabled map[string]bool
	Fired    []string
	Counts   map[string]int
	Carried  int  // bytes sent by anybody
	Reads    int  // read calls
	Off      bool // faults stopped
	dead     bool // the process is gone
	fdOpened int
	fdClosed int
	ends     []*End
	keep     int
	Syscalls int
	BadFD    int
	calls    map[string]int
	// OnFail hears of every injected failure and the connection it hit.
	OnFail func(conn, what string)
	// OnCut hears of a connection the server closed right after it could not
	// write all it wanted to.
	OnCut func(conn string)
}

// failed decides whether this call fails.
func failed(call, conn string) syscall.Errno {
	if len(K.kn.Fails) == 0 {
		return 0
	}
	k := K.calls[call]
	K.calls[call]++
	if K.Off {
		return 0
	}
	for _, f := range K.kn.Fails {
		if f.Call != call || k < f.Skip || k >= f.Skip+f.N {
			continue
		}
		id := "fail/" + call + "/" + strconv.Itoa(k)
		if K.Disabled[id] {
			continue
		}
		K.Counts["fail_"+call]++
		if len(K.Fired) < 20000 {
			K.Fired = append(K.Fired, id)
		}
		if K.OnFail != nil {
			K.OnFail(conn, call+": "+f.Errno.Error())
		}
		return f.Errno
	}
	return 0
}

// broken is what an error on a connection means for its peer.
func (e *End) broken(n syscall.Errno) {
	switch n {
	case syscall.ENOBUFS, syscall.ENOMEM, syscall.EIO:
		return // the connection itself lives
	}
	if e.err == 0 {
		e.err = n
	}
	e.discard()
	e.enqueue(seg{rst: true})
	e.drainq.wake()
	e.changed()
}

// Boot resets the machine.
func Boot(kn Knobs, disabled []string) {
	if kn.SndBuf <= 0 {
		kn.SndBuf = 256 << 10
	}
	if kn.RcvBuf <= 0 {
		kn.RcvBuf = 256 << 10
	}
	if kn.CliBuf <= 0 {
		kn.CliBuf = 256 << 10
	}
	K.kn = kn
	K.on = true
	K.start = time.Now()
	K.fds = map[int]*file{}
	K.ports = map[int][]*Listener{}
	K.Disabled = map[string]bool{}
	for _, d := range disabled {
		K.Disabled[d] = true
	}
	K.Counts = map[string]int{}
	K.Carried, K.Reads = 0, 0
	K.calls = map[string]int{}
	for _, p := range kn.Partitions {
		_ = p
		K.Counts["partition"]++
	}
}

// Fault decides whether the named fault happens here and records it when it does.
func Fault(p int, kind, where string, n uint64) bool {
	if p <= 0 || K.Off {
		return false
	}
	if int(Mix(K.kn.Seed, HashS(kind), HashS(where), n)%1000) >= p {
		return false
	}
	id := kind + "/" + where + "/" + strconv.FormatUint(n, 10)
	if K.Disabled[id] {
		return false
	}
	K.Counts[kind]++
	if len(K.Fired) < 20000 {
		K.Fired = append(K.Fired, id)
	}
	return true
}

// Count records a fault decided elsewhere.
func Count(kind string) { K.Counts[kind]++ }

func draw(kind, where string, n uint64, lim int) int {
	if lim <= 1 {
		return 0
	}
	return int(Mix(K.kn.Seed^0x5bd1, HashS(kind), HashS(where), n) % uint64(lim))
}

func newFD(f *file) int {
	fd := 5
	for K.fds[fd] != nil {
		fd++
	}
	f.fd = fd
	K.fds[fd] = f
	K.fdOpened++
	return fd
}

// OpenFDs reports the number of simulated descriptors in use.
func OpenFDs() int { return len(K.fds) }

// OpenStreams reports the number of open server-side stream descriptors.
func OpenStreams() int {
	n := 0
	for _, f := range K.fds {
		if f.kind == kStream {
			n++
		}
	}
	return n
}

// ---- endpoints -------------------------------------------------------------

type seg struct {
	b   []byte
	at  time.Time
	fin bool
	rst bool
}

// End is one end of a stream connection.
type End struct {
	name   string // connection name + direction of data LEAVING this end ("c3>" / "c3<")
	conn   string
	peer   *End
	server bool

	rbuf   []byte
	rcap   int
	rfin   bool
	err    syscall.Errno
	closed bool
	wshut  bool
	short  bool // the last write did not take everything

	out     []seg // in flight, ordered
	outN    int   // bytes in flight (send buffer usage)
	epoch   int   // counts how often the queue was discarded
	scap    int
	lastAt  time.Time
	segN    uint64
	rdN     uint64
	wrN     uint64
	linkW   waitq
	drainq  waitq // links waiting for receive buffer space
	rw      waitq // readers
	ww      waitq // writers
	f       *file // server side descriptor
	RxTotal int
	TxTotal int
}

func newPair(conn string) (cli, srv *End) {
	cli = &End{name: conn + ">", conn: conn, rcap: K.kn.CliBuf, scap: K.kn.CliBuf}
	srv = &End{name: conn + "<", conn: conn, rcap: K.kn.RcvBuf, scap: K.kn.SndBuf, server: true}
	cli.peer, srv.peer = srv, cli
	if len(K.ends) >= K.keep {
		Forget()
		K.keep = 64 + 2*len(K.ends)
	}
	K.ends = append(K.ends, cli, srv)
	go cli.link()
	go srv.link()
	return
}

func (e *End) changed() {
	e.rw.wake()
	e.ww.wake()
	if e.f != nil {
		e.f.notify()
	}
}

func (e *End) delay() time.Duration {
	n := e.segN
	e.segN++
	d := K.kn.DelayMinUs
	if K.kn.DelayMaxUs > d {
		d += draw("delay", e.name, n, K.kn.DelayMaxUs-d)
	}
	t := time.Duration(d) * time.Microsecond
	if Fault(K.kn.LossP, "segment_loss", e.name, n) {
		t += time.Duration(200<<uint(draw("rto", e.name, n, 4))) * time.Millisecond
	}
	if Fault(K.kn.StallP, "link_stall", e.name, n) {
		t += time.Duration(1+draw("stall", e.name, n, K.kn.StallMaxMs)) * time.Millisecond
	}
	return t
}

func (e *End) enqueue(s seg) {
	at := time.Now().Add(e.delay())
	if at.Before(e.lastAt) {
		at = e.lastAt
	}
	for _, p := range K.kn.Partitions {
		if len(p.Conns) > 0 {
			hit := false
			for _, c := range p.Conns {
				hit = hit || c == e.conn
			}
			if !hit {
				continue
			}
		}
		from, to := K.start.Add(time.Duration(p.FromMs)*time.Millisecond), K.start.Add(time.Duration(p.ToMs)*time.Millisecond)
		if !K.Off && !at.Before(from) && at.Before(to) {
			at = to.Add(time.Duration(draw("heal", e.name, e.segN, 200)) * time.Millisecond)
			K.Counts["partition_hit"]++
		}
	}
	e.lastAt = at
	s.at = at
	e.out = append(e.out, s)
	e.outN += len(s.b)
	e.linkW.wake()
}

// link moves segments from this end to the peer.
func (e *End) link() {
	for {
		for len(e.out) == 0 {
			if e.closed {
				return
			}
			e.linkW.wait(time.Time{})
		}
		s, epoch := e.out[0], e.epoch
		if d := time.Until(s.at); d > 0 {
			time.Sleep(d)
		}
		if e.epoch != epoch { // discarded by a reset
			continue
		}
		p := e.peer
		switch {
		case s.rst:
			p.reset(syscall.ECONNRESET)
			e.discard()
			e.changed()
			return
		case s.fin:
			p.rfin = true
			p.changed()
		case p.closed:
			// data for a closed socket: answered with a reset
			e.outN -= len(s.b)
			e.out[0] = seg{}
			e.out = e.out[1:]
			e.reset(syscall.ECONNRESET)
			continue
		default:
			for len(s.b) > 0 && !p.closed && p.err == 0 && e.epoch == epoch {
				room := p.rcap - len(p.rbuf)
				if room <= 0 {
					K.Counts["window_full"]++
					p.linkWait()
					continue
				}
				n := min(room, len(s.b))
				p.rbuf = append(p.rbuf, s.b[:n]...)
				p.RxTotal += n
				s.b = s.b[n:]
				e.outN -= n
				e.out[0].b = s.b
				p.changed()
				e.changed()
			}
			if e.epoch != epoch {
				continue
			}
			e.outN -= len(s.b)
		}
		e.out[0] = seg{}
		e.out = e.out[1:]
		e.changed()
	}
}

// discard drops everything in flight.
func (e *End) discard() {
	e.out, e.outN = nil, 0
	e.epoch++
	e.peer.drainq.wake() // the link may be waiting for room
}

func (e *End) linkWait() { e.rwDrain().wait(time.Time{}) }

func (e *End) rwDrain() *waitq { return &e.drainq }

func (e *End) reset(err syscall.Errno) {
	if e.err == 0 {
		e.err = err
	}
	e.discard()
	e.drainq.wake()
	e.changed()
}

// read is the non-blocking read.
func (e *End) read(p []byte) (int, syscall.Errno) {
	K.Reads++
	if e.server && e.err == 0 {
		if n := failed("read", e.conn); n != 0 {
			e.broken(n)
			return -1, n
		}
	}
	if len(e.rbuf) > 0 {
		n := min(len(p), len(e.rbuf))
		if e.server && n > 1 {
			k := e.rdN
			e.rdN++
			if Fault(K.kn.ShortReadP, "short_read", e.name, k) {
				n = 1 + draw("srlen", e.name, k, n-1)
			}
		}
		copy(p, e.rbuf[:n])
		e.rbuf = e.rbuf[n:]
		if len(e.rbuf) == 0 {
			e.rbuf = nil
		}
		e.drainq.wake()
		return n, 0
	}
	if e.err != 0 {
		return -1, e.err
	}
	if e.rfin {
		return 0, 0
	}
	return -1, syscall.EAGAIN
}

// write is the non-blocking write.
func (e *End) write(p []byte) (int, syscall.Errno) {
	if e.wshut {
		return -1, syscall.EPIPE
	}
	if e.err != 0 {
		return -1, syscall.EPIPE
	}
	if len(p) == 0 {
		return 0, 0
	}
	e.short = true
	if e.server {
		if n := failed("write", e.conn); n != 0 {
			e.broken(n)
			return -1, n
		}
	}
	room := e.scap - e.outN
	if room <= 0 {
		K.Counts["sendbuf_full"]++
		return -1, syscall.EAGAIN
	}
	n := min(room, len(p))
	if n < len(p) {
		K.Counts["sendbuf_partial"]++
	}
	if e.server {
		k := e.wrN
		e.wrN++
		if Fault(K.kn.EagainP, "write_eagain", e.name, k) {
			return -1, syscall.EAGAIN
		}
		if n > 1 && Fault(K.kn.PartWriteP, "partial_write", e.name, k) {
			n = 1 + draw("pwlen", e.name, k, n-1)
		}
	}
	e.short = n < len(p)
	e.push(p[:n])
	return n, 0
}

func (e *End) push(p []byte) {
	b := append([]byte(nil), p...)
	e.TxTotal += len(b)
	K.Carried += len(b)
	for i := 0; len(b) > 0; i++ {
		n := len(b)
		if K.kn.Seg > 0 {
			m := K.kn.Seg
			if i >= 48 {
				m = max(m, 16<<10)
			}
			n = min(n, 1+draw("seg", e.name, e.segN, m))
		}
		e.enqueue(seg{b: b[:n]})
		b = b[n:]
	}
}

func (e *End) shutWrite() {
	if !e.wshut && e.err == 0 {
		e.wshut = true
		e.enqueue(seg{fin: true})
	}
}

func (e *End) close() {
	if e.closed {
		return
	}
	e.closed = true
	if len(e.rbuf) > 0 && e.err == 0 {
		// unread data: Linux answers with a reset and drops what was queued
		e.discard()
		e.wshut = true
		e.enqueue(seg{rst: true})
	} else {
		e.shutWrite()
	}
	e.rbuf = nil
	e.linkW.wake()
	e.drainq.wake()
	e.changed()
}

// Forget drops the simulator's own memory of past connections.
func Forget() {
	var ends []*End
	for _, e := range K.ends {
		if !e.closed || !e.peer.closed {
			ends = append(ends, e)
		}
	}
	K.ends = ends
}

// ---- listener --------------------------------------------------------------

// Listener is a passive socket.
type Listener struct {
	port   int
	reuse  bool
	q      []*End
	f      *file
	w      waitq
	dl     time.Time
	closed bool
}

// Listen opens a passive socket for blocking use (no descriptor).
func Listen(port int) (*Listener, error) { return listen(port, false) }

// listen allows several sockets on one port when all of them ask for it
// (SO_REUSEPORT); connections are then spread by a hash of the peer.
func listen(port int, reuse bool) (*Listener, error) {
	if n := failed("listen", ""); n != 0 {
		return nil, n
	}
	for _, o := range K.ports[port] {
		if !reuse || !o.reuse {
			return nil, syscall.EADDRINUSE
		}
	}
	l := &Listener{port: port, reuse: reuse}
	K.ports[port] = append(K.ports[port], l)
	return l, nil
}

func pick(port int, name string) *Listener {
	ls := K.ports[port]
	if len(ls) == 0 {
		return nil
	}
	return ls[Mix(K.kn.Seed, 0x4e5e, HashS(name))%uint64(len(ls))]
}

// Accept blocks for the next connection.
func (l *Listener) Accept() (*Stream, error) {
	for {
		if l.closed {
			return nil, syscall.EINVAL
		}
		if over(l.dl) {
			return nil, ErrTimeout
		}
		if len(l.q) > 0 {
			e := l.q[0]
			if n := failed("accept", e.conn); n != 0 {
				return nil, n
			}
			l.q[0] = nil
			l.q = l.q[1:]
			return &Stream{E: e}, nil
		}
		l.w.wait(l.dl)
	}
}

// SetDeadline is when Accept gives up.
func (l *Listener) SetDeadline(t time.Time) {
	l.dl = t
	l.w.wake()
}

// Close closes the passive socket; queued connections are reset.
func (l *Listener) Close() error {
	if l.closed {
		return syscall.EBADF
	}
	l.closed = true
	ls := K.ports[l.port]
	for i, o := range ls {
		if o == l {
			K.ports[l.port] = append(ls[:i:i], ls[i+1:]...)
			break
		}
	}
	for _, e := range l.q {
		e.closed = true
		e.discard()
		e.enqueue(seg{rst: true})
	}
	l.q = nil
	l.w.wake()
	return nil
}

// Listening tells whether someone listens on the port.
func Listening(port int) bool { return len(K.ports[port]) > 0 }

// ---- blocking streams (clients, and the v1 server through simnet) ----------

// Stream is a blocking handle on an endpoint.
type Stream struct {
	E        *End
	RDL, WDL time.Time
}

// Dial connects to a listening port. Connection set-up takes one delay.
func Dial(port int, name string) (*Stream, error) {
	if K.kn.DelayMaxUs > 0 {
		time.Sleep(time.Duration(draw("syn", name, 0, K.kn.DelayMaxUs)) * time.Microsecond)
	}
	l := pick(port, name)
	if l == nil || K.dead {
		return nil, syscall.ECONNREFUSED
	}
	cli, srv := newPair(name)
	l.q = append(l.q, srv)
	l.w.wake()
	if l.f != nil {
		l.f.notify()
	}
	return &Stream{E: cli}, nil
}

func over(t time.Time) bool { return !t.IsZero() && time.Until(t) <= 0 }

// ErrTimeout is returned when a virtual deadline passes.
var ErrTimeout = errors.New("i/o timeout")

// Read blocks until data, EOF (0, nil-able through eof) or error.
func (s *Stream) Read(p []byte) (n int, eof bool, err error) {
	for {
		if s.E.closed {
			return 0, false, syscall.EBADF
		}
		if over(s.RDL) { // as package net: even when there is data
			return 0, false, ErrTimeout
		}
		n, e := s.E.read(p)
		switch {
		case e == syscall.EAGAIN:
		case e != 0:
			return 0, false, e
		case n == 0 && len(p) > 0:
			return 0, true, nil
		default:
			return n, false, nil
		}
		if !s.E.rw.wait(s.RDL) {
			return 0, false, ErrTimeout
		}
	}
}

// Write blocks until all is accepted.
func (s *Stream) Write(p []byte) (int, error) {
	t := 0
	for {
		if s.E.closed {
			return t, syscall.EBADF
		}
		if len(p) == 0 {
			return t, nil
		}
		if t == 0 && over(s.WDL) {
			return 0, ErrTimeout
		}
		n, e := s.E.write(p)
		if e == 0 {
			p = p[n:]
			t += n
			continue
		}
		if e != syscall.EAGAIN {
			return t, e
		}
		if s.E.outN < s.E.scap {
			continue // injected EAGAIN on a blocking stream: the kernel retries
		}
		if !s.E.ww.wait(s.WDL) {
			return t, ErrTimeout
		}
	}
}

// SetDeadline moves the deadlines; a call that is blocked already sees the new one.
func (s *Stream) SetDeadline(t time.Time, r, w bool) {
	if r {
		s.RDL = t
		s.E.rw.wake()
	}
	if w {
		s.WDL = t
		s.E.ww.wake()
	}
}

// CloseWrite sends FIN.
func (s *Stream) CloseWrite() { s.E.shutWrite(); s.E.changed() }

// CloseRead makes reads return what has arrived and then EOF.
func (s *Stream) CloseRead() {
	s.E.rfin = true
	s.E.changed()
}

// Abort closes the stream with a reset.
func (s *Stream) Abort() error {
	if s.E.closed {
		return syscall.EBADF
	}
	s.Reset()
	return nil
}

// Close closes the stream.
func (s *Stream) Close() error {
	if s.E.closed {
		return syscall.EBADF
	}
	s.E.close()
	return nil
}

// Reset aborts the connection with RST.
func (s *Stream) Reset() {
	e := s.E
	if e.closed {
		return
	}
	e.closed = true
	e.discard()
	e.wshut = true
	e.enqueue(seg{rst: true})
	e.rbuf = nil
	e.linkW.wake()
	e.drainq.wake()
	e.changed()
}

// Unsent is the number of bytes written but not yet delivered to the peer.
func (s *Stream) Unsent() int { return s.E.outN }

// PeerUnread is the number of delivered bytes the peer has not read.
func (s *Stream) PeerUnread() int { return len(s.E.peer.rbuf) }

// Taken is the number of bytes the peer application has read.
func (s *Stream) Taken() int { return s.E.peer.RxTotal - len(s.E.peer.rbuf) }

// Received is the number of bytes that have arrived here.
func (s *Stream) Received() int { return s.E.RxTotal }

// Sent is the number of bytes accepted from this side.
func (s *Stream) Sent() int { return s.E.TxTotal }

// PeerClosed tells whether the server side has closed its descriptor.
func (s *Stream) PeerClosed() bool { return s.E.peer.closed }

// Name is the connection name.
func (s *Stream) Name() string { return s.E.conn }

// ---- descriptor level system calls (unix package) ---------------------------

func (f *file) notify() {
	for _, ep := range f.watch {
		ep.w.wake()
	}
}

const (
	EPOLLIN    = 0x1
	EPOLLPRI   = 0x2
	EPOLLOUT   = 0x4
	EPOLLERR   = 0x8
	EPOLLHUP   = 0x10
	EPOLLRDHUP = 0x2000
)

func (f *file) ready() uint32 {
	var r uint32
	switch f.kind {
	case kEvent:
		if f.count > 0 {
			r |= EPOLLIN
		}
		r |= EPOLLOUT
	case kListen:
		if len(f.lis.q) > 0 {
			r |= EPOLLIN
		}
	case kStream:
		e := f.e
		if len(e.rbuf) > 0 || e.rfin || e.err != 0 {
			r |= EPOLLIN
		}
		if e.outN < e.scap || e.err != 0 {
			r |= EPOLLOUT
		}
		if e.err != 0 {
			r |= EPOLLERR | EPOLLHUP
		}
		if e.rfin {
			r |= EPOLLRDHUP
			if e.wshut {
				r |= EPOLLHUP
			}
		}
	}
	return r
}

func get(fd int, kinds ...fileKind) *file {
	K.Syscalls++
	f := K.fds[fd]
	if f == nil {
		K.BadFD++
		return nil
	}
	for _, k := range kinds {
		if f.kind == k {
			return f
		}
	}
	if len(kinds) > 0 {
		return nil
	}
	return f
}

func EpollCreate() (int, syscall.Errno) {
	if n := failed("epoll_create", ""); n != 0 {
		return -1, n
	}
	return newFD(&file{kind: kEpoll, ep: &epoll{}}), 0
}

func Eventfd(init uint) (int, syscall.Errno) {
	if n := failed("eventfd", ""); n != 0 {
		return -1, n
	}
	return newFD(&file{kind: kEvent, count: uint64(init)}), 0
}

func EpollCtl(epfd, op, fd int, events uint32) syscall.Errno {
	ef := get(epfd, kEpoll)
	f := get(fd)
	if ef == nil || f == nil {
		return syscall.EBADF
	}
	ep := ef.ep
	idx := -1
	for i, it := range ep.items {
		if it.f == f {
			idx = i
		}
	}
	switch op {
	case 1: // add
		if idx >= 0 {
			return syscall.EEXIST
		}
		if f.kind == kListen {
			if n := failed("epoll_add", ""); n != 0 {
				return n
			}
		}
		ep.items = append(ep.items, &epItem{fd: fd, f: f, events: events})
		f.watch = append(f.watch, ep)
		ep.w.wake()
	case 2: // del
		if idx < 0 {
			return syscall.ENOENT
		}
		ep.items = append(ep.items[:idx:idx], ep.items[idx+1:]...)
		f.unwatch(ep)
	case 3: // mod
		if idx < 0 {
			return syscall.ENOENT
		}
		ep.items[idx].events = events
		ep.w.wake()
	default:
		return syscall.EINVAL
	}
	return 0
}

func (f *file) unwatch(ep *epoll) {
	for i, w := range f.watch {
		if w == ep {
			f.watch = append(f.watch[:i:i], f.watch[i+1:]...)
			return
		}
	}
}

// Ev is one ready descriptor.
type Ev struct {
	FD     int
	Events uint32
}

func EpollWait(epfd, maxEv, msec int) ([]Ev, syscall.Errno) {
	ef := get(epfd, kEpoll)
	if ef == nil {
		return nil, syscall.EBADF
	}
	ep := ef.ep
	var dl time.Time
	if msec > 0 {
		dl = time.Now().Add(time.Duration(msec) * time.Millisecond)
	}
	for {
		var evs []Ev
		n := len(ep.items)
		off := 0
		if n > 0 {
			ep.n++
			off = int(Mix(K.kn.Seed, 0xe9011, uint64(epfd), ep.n) % uint64(n)) // readiness order
		}
		for i := 0; i < n && len(evs) < maxEv; i++ {
			it := ep.items[(i+off)%n]
			if r := it.f.ready() & (it.events | EPOLLERR | EPOLLHUP); r != 0 {
				evs = append(evs, Ev{it.fd, r})
			}
		}
		if len(evs) > 0 || msec == 0 {
			return evs, 0
		}
		if Fault(K.kn.EintrP, "epoll_eintr", strconv.Itoa(epfd), ep.n) {
			return nil, syscall.EINTR
		}
		if !ep.w.wait(dl) {
			return nil, 0
		}
		if K.fds[epfd] != ef {
			return nil, syscall.EBADF
		}
	}
}

func Socket() (int, syscall.Errno) {
	if n := failed("socket", ""); n != 0 {
		return -1, n
	}
	return newFD(&file{kind: kSock}), 0
}

func Bind(fd, port int) syscall.Errno {
	f := get(fd, kSock)
	if f == nil {
		return syscall.EBADF
	}
	if n := failed("bind", ""); n != 0 {
		return n
	}
	for _, o := range K.ports[port] {
		if !f.reuse || !o.reuse {
			return syscall.EADDRINUSE
		}
	}
	f.port = port
	return 0
}

// ReusePort sets SO_REUSEPORT.
func ReusePort(fd int, on bool) {
	if f := get(fd, kSock); f != nil {
		f.reuse = on
	}
}

func ListenFD(fd int) syscall.Errno {
	f := get(fd, kSock)
	if f == nil {
		return syscall.EBADF
	}
	l, err := listen(f.port, f.reuse)
	if err != nil {
		return err.(syscall.Errno)
	}
	f.kind = kListen
	f.lis = l
	l.f = f
	return 0
}

func Accept(fd int) (nfd int, name string, errno syscall.Errno) {
	f := get(fd, kListen)
	if f == nil {
		return -1, "", syscall.EBADF
	}
	if len(f.lis.q) == 0 {
		return -1, "", syscall.EAGAIN
	}
	e := f.lis.q[0]
	if n := failed("accept", e.conn); n != 0 {
		if n == syscall.ECONNABORTED { // the peer gave up while it was queued
			f.lis.q[0] = nil
			f.lis.q = f.lis.q[1:]
			e.closed = true
			e.discard()
			e.enqueue(seg{rst: true})
		}
		return -1, "", n
	}
	f.lis.q[0] = nil
	f.lis.q = f.lis.q[1:]
	nf := &file{kind: kStream, e: e}
	e.f = nf
	return newFD(nf), e.conn, 0
}

func Read(fd int, p []byte) (int, syscall.Errno) {
	f := get(fd)
	if f == nil {
		return -1, syscall.EBADF
	}
	switch f.kind {
	case kEvent:
		if f.count == 0 {
			return -1, syscall.EAGAIN
		}
		if len(p) < 8 {
			return -1, syscall.EINVAL
		}
		v := f.count
		f.count = 0
		for i := 0; i < 8; i++ {
			p[i] = byte(v >> (8 * i))
		}
		return 8, 0
	case kStream:
		return f.e.read(p)
	}
	return -1, syscall.EINVAL
}

func Write(fd int, p []byte) (int, syscall.Errno) {
	f := get(fd)
	if f == nil {
		return -1, syscall.EBADF
	}
	switch f.kind {
	case kEvent:
		if len(p) < 8 {
			return -1, syscall.EINVAL
		}
		var v uint64
		for i := 0; i < 8; i++ {
			v |= uint64(p[i]) << (8 * i)
		}
		f.count += v
		f.notify()
		return 8, 0
	case kStream:
		return f.e.write(p)
	}
	return -1, syscall.EINVAL
}

func CloseFD(fd int) syscall.Errno {
	f := get(fd)
	if f == nil {
		return syscall.EBADF
	}
	delete(K.fds, fd)
	K.fdClosed++
	for _, ep := range append([]*epoll(nil), f.watch...) {
		for i, it := range ep.items {
			if it.f == f {
				ep.items = append(ep.items[:i:i], ep.items[i+1:]...)
				break
			}
		}
		f.unwatch(ep)
	}
	switch f.kind {
	case kEpoll:
		f.ep.w.wake()
	case kListen:
		_ = f.lis.Close()
	case kStream:
		if f.e.server && f.e.short && f.e.err == 0 && K.OnCut != nil {
			K.OnCut(f.e.conn)
		}
		f.e.f = nil
		f.e.close()
	}
	return 0
}

// FaultCounts returns the counters in a stable order.
func FaultCounts() (out []string) {
	for k := range K.Counts {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// Now is virtual time since boot.
func Now() time.Duration { return time.Since(K.start) }

// CloseAll is what the kernel does to a process that exits: every descriptor
// and every blocking stream is closed.
func CloseAll() {
	K.dead = true // a goroutine that was still starting may yet listen
	var fds []int
	for fd := range K.fds {
		fds = append(fds, fd)
	}
	sort.Ints(fds)
	for _, fd := range fds {
		if f := K.fds[fd]; f != nil && f.kind != kEpoll && f.kind != kEvent {
			CloseFD(fd)
		}
	}
	for _, ls := range K.ports {
		for _, l := range append([]*Listener(nil), ls...) {
			_ = l.Close()
		}
	}
	for _, e := range K.ends {
		if e.server && !e.closed {
			e.close()
		}
	}
}
