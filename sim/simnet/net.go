// Package simnet is package net with Listen and Dial on the simulated kernel.
// The v1 server is compiled against it.
package simnet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"syscall"
	"time"

	"golang.org/x/sys/simkern"
	"golang.org/x/sys/simrace"
)

// TCPListener is a simulated listener.
type TCPListener struct {
	l    *simkern.Listener
	addr *net.TCPAddr
	mu   byte
}

// Listen opens a simulated TCP listener.
func Listen(network, address string) (net.Listener, error) {
	l, err := listen(network, address)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func listen(network, address string) (*TCPListener, error) {
	a, err := net.ResolveTCPAddr(network, address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	l, err := simkern.Listen(a.Port)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: a, Err: os.NewSyscallError("bind", err)}
	}
	return &TCPListener{l: l, addr: a}, nil
}

// ListenConfig mirrors net.ListenConfig.
type ListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive time.Duration
}

// Listen on the simulated kernel.
func (lc *ListenConfig) Listen(_ context.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}

func (l *TCPListener) Addr() net.Addr { return l.addr }
func (l *TCPListener) Close() error {
	simrace.Lock(&l.mu)
	err := l.l.Close()
	simrace.Unlock(&l.mu)
	if err != nil {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	return nil
}

// Accept waits for a connection.
func (l *TCPListener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

// SetDeadline is when Accept gives up.
func (l *TCPListener) SetDeadline(t time.Time) error { l.l.SetDeadline(t); return nil }

// AcceptTCP waits for a connection.
func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	simrace.Lock(&l.mu)
	s, err := l.l.Accept()
	simrace.Unlock(&l.mu)
	if err == syscall.EINVAL {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	if err == simkern.ErrTimeout {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: os.ErrDeadlineExceeded}
	}
	if err != nil {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: os.NewSyscallError("accept4", err)}
	}
	return &TCPConn{s: s, local: l.addr}, nil
}

// Server-side descriptors of the blocking API, for leak checks.
var Open, Opened int

// TCPConn is a simulated connection.
type TCPConn struct {
	s      *simkern.Stream
	local  net.Addr
	linger bool // close drops what is unsent
	mu     byte
}

func (c *TCPConn) wrap(op string, err error) error {
	switch {
	case errors.Is(err, simkern.ErrTimeout):
		err = os.ErrDeadlineExceeded
	case err == syscall.EBADF:
		err = net.ErrClosed
	default:
		if e, ok := err.(syscall.Errno); ok {
			err = os.NewSyscallError(op, e)
		}
	}
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.RemoteAddr(), Err: err}
}

func (c *TCPConn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	simrace.Lock(&c.mu)
	n, eof, err := c.s.Read(p)
	simrace.Unlock(&c.mu)
	simrace.Wrote(p[:max(0, n)])
	if err != nil {
		return n, c.wrap("read", err)
	}
	if eof {
		return 0, io.EOF
	}
	return n, nil
}

func (c *TCPConn) Write(p []byte) (int, error) {
	simrace.Read(p)
	simrace.Lock(&c.mu)
	n, err := c.s.Write(p)
	simrace.Unlock(&c.mu)
	if err != nil {
		return n, c.wrap("write", err)
	}
	return n, nil
}

func (c *TCPConn) Close() error {
	simrace.Lock(&c.mu)
	err := error(nil)
	if c.linger {
		err = c.s.Abort()
	} else {
		err = c.s.Close()
	}
	simrace.Unlock(&c.mu)
	if err != nil {
		return c.wrap("close", err)
	}
	return nil
}
func (c *TCPConn) LocalAddr() net.Addr { return c.local }
func (c *TCPConn) RemoteAddr() net.Addr {
	h := simkern.HashS(c.s.Name())
	return &net.TCPAddr{IP: net.IPv4(10, 0, byte(h>>40), byte(h>>48)), Port: 10000 + int(h%50000)}
}
func (c *TCPConn) SetDeadline(t time.Time) error {
	c.s.SetDeadline(t, true, true)
	return nil
}
func (c *TCPConn) SetReadDeadline(t time.Time) error  { c.s.SetDeadline(t, true, false); return nil }
func (c *TCPConn) SetWriteDeadline(t time.Time) error { c.s.SetDeadline(t, false, true); return nil }
func (c *TCPConn) CloseWrite() error                  { c.s.CloseWrite(); return nil }

// Dial connects to a simulated listener.
func Dial(network, address string) (net.Conn, error) {
	a, err := net.ResolveTCPAddr(network, address)
	if err != nil {
		return nil, err
	}
	dialN++
	s, err := simkern.Dial(a.Port, "dial"+strconv.Itoa(dialN))
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: a, Err: err}
	}
	return &TCPConn{s: s, local: &net.TCPAddr{}}, nil
}

var dialN int

// DialTimeout ignores the timeout: connecting takes one simulated delay.
func DialTimeout(network, address string, _ time.Duration) (net.Conn, error) {
	return Dial(network, address)
}

// Dialer mirrors net.Dialer.
type Dialer struct{ Timeout, KeepAlive time.Duration }

// Dial connects.
func (d *Dialer) Dial(network, address string) (net.Conn, error) { return Dial(network, address) }

// ListenTCP listens on an address.
func ListenTCP(network string, a *net.TCPAddr) (*TCPListener, error) {
	return listen(network, a.String())
}

// DialTCP connects.
func DialTCP(network string, _, a *net.TCPAddr) (*TCPConn, error) {
	c, err := Dial(network, a.String())
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

// SetLinger: zero makes Close reset the connection; other values are ignored.
func (c *TCPConn) SetLinger(sec int) error { c.linger = sec == 0; return nil }

// CloseRead ends reading.
func (c *TCPConn) CloseRead() error { c.s.CloseRead(); return nil }

// The simulated network has no such settings.
func (c *TCPConn) SetNoDelay(bool) error                        { return nil }
func (c *TCPConn) SetKeepAlive(bool) error                      { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error       { return nil }
func (c *TCPConn) SetKeepAliveConfig(net.KeepAliveConfig) error { return nil }
func (c *TCPConn) SetReadBuffer(int) error                      { return nil }
func (c *TCPConn) SetWriteBuffer(int) error                     { return nil }

// ReadFrom copies from r.
func (c *TCPConn) ReadFrom(r io.Reader) (int64, error) { return io.Copy(struct{ io.Writer }{c}, r) }

// WriteTo copies to w.
func (c *TCPConn) WriteTo(w io.Writer) (int64, error) { return io.Copy(w, struct{ io.Reader }{c}) }
