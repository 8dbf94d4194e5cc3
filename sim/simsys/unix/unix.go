// Package unix is the simulated stand-in for golang.org/x/sys/unix: the system
// calls gnet makes, answered by simkern.
package unix

import (
	"syscall"

	"golang.org/x/sys/simkern"
	"golang.org/x/sys/simrace"
)

type (
	Errno    = syscall.Errno
	Signal   = syscall.Signal
	Timespec = syscall.Timespec
	Iovec    = syscall.Iovec
)

const (
	AF_INET         = syscall.AF_INET
	AF_INET6        = syscall.AF_INET6
	AF_UNIX         = syscall.AF_UNIX
	EAGAIN          = syscall.EAGAIN
	EBADF           = syscall.EBADF
	EINTR           = syscall.EINTR
	EINVAL          = syscall.EINVAL
	ENOENT          = syscall.ENOENT
	ENOPROTOOPT     = syscall.ENOPROTOOPT
	ENOSYS          = syscall.ENOSYS
	EPIPE           = syscall.EPIPE
	ECONNRESET      = syscall.ECONNRESET
	EWOULDBLOCK     = syscall.EWOULDBLOCK
	EFD_CLOEXEC     = 0x80000
	EFD_NONBLOCK    = 0x800
	EPOLLERR        = 0x8
	EPOLLHUP        = 0x10
	EPOLLIN         = 0x1
	EPOLLOUT        = 0x4
	EPOLLPRI        = 0x2
	EPOLLRDHUP      = 0x2000
	EPOLLET         = 0x80000000
	EPOLL_CLOEXEC   = 0x80000
	EPOLL_CTL_ADD   = 1
	EPOLL_CTL_DEL   = 2
	EPOLL_CTL_MOD   = 3
	F_DUPFD_CLOEXEC = 0x406
	IPPROTO_IPV6    = syscall.IPPROTO_IPV6
	IPPROTO_TCP     = syscall.IPPROTO_TCP
	IPPROTO_UDP     = syscall.IPPROTO_UDP
	IPV6_V6ONLY     = syscall.IPV6_V6ONLY
	SOCK_CLOEXEC    = syscall.SOCK_CLOEXEC
	SOCK_DGRAM      = syscall.SOCK_DGRAM
	SOCK_NONBLOCK   = syscall.SOCK_NONBLOCK
	SOCK_STREAM     = syscall.SOCK_STREAM
	SOL_SOCKET      = syscall.SOL_SOCKET
	SOMAXCONN       = syscall.SOMAXCONN
	SO_BROADCAST    = syscall.SO_BROADCAST
	SO_KEEPALIVE    = syscall.SO_KEEPALIVE
	SO_RCVBUF       = syscall.SO_RCVBUF
	SO_REUSEADDR    = syscall.SO_REUSEADDR
	SO_REUSEPORT    = 0xf
	SO_SNDBUF       = syscall.SO_SNDBUF
	SYS_EPOLL_CTL   = syscall.SYS_EPOLL_CTL
	SYS_EPOLL_PWAIT = syscall.SYS_EPOLL_PWAIT
	SYS_EPOLL_WAIT  = syscall.SYS_EPOLL_WAIT
	SYS_READV       = syscall.SYS_READV
	SYS_WRITEV      = syscall.SYS_WRITEV
	TCP_KEEPIDLE    = syscall.TCP_KEEPIDLE
	TCP_KEEPINTVL   = syscall.TCP_KEEPINTVL
	TCP_NODELAY     = syscall.TCP_NODELAY
)

type Sockaddr interface{ isSockaddr() }

type SockaddrInet4 struct {
	Port int
	Addr [4]byte
}
type SockaddrInet6 struct {
	Port   int
	ZoneId uint32
	Addr   [16]byte
}
type SockaddrUnix struct{ Name string }

func (*SockaddrInet4) isSockaddr() {}
func (*SockaddrInet6) isSockaddr() {}
func (*SockaddrUnix) isSockaddr()  {}

type EpollEvent struct {
	Events uint32
	Fd     int32
	Pad    int32
}

func e(n syscall.Errno) error {
	if n == 0 {
		return nil
	}
	return n
}

func EpollCreate1(int) (int, error) {
	fd, n := simkern.EpollCreate()
	return fd, e(n)
}

func EpollCtl(epfd, op, fd int, ev *EpollEvent) error {
	var x uint32
	if ev != nil {
		x = ev.Events
	}
	return e(simkern.EpollCtl(epfd, op, fd, x))
}

func EpollWait(epfd int, events []EpollEvent, msec int) (int, error) {
	evs, n := simkern.EpollWait(epfd, len(events), msec)
	if n != 0 {
		return -1, n
	}
	for i, v := range evs {
		events[i] = EpollEvent{Fd: int32(v.FD), Events: v.Events}
	}
	return len(evs), nil
}

func Eventfd(init uint, _ int) (int, error) {
	fd, n := simkern.Eventfd(init)
	return fd, e(n)
}

func Socket(domain, typ, _ int) (int, error) {
	if typ&0xf != SOCK_STREAM || (domain != AF_INET && domain != AF_INET6) {
		return -1, ENOSYS
	}
	fd, n := simkern.Socket()
	return fd, e(n)
}

func port(sa Sockaddr) int {
	switch s := sa.(type) {
	case *SockaddrInet4:
		return s.Port
	case *SockaddrInet6:
		return s.Port
	}
	return 0
}

func Bind(fd int, sa Sockaddr) error            { return e(simkern.Bind(fd, port(sa))) }
func Listen(fd, _ int) error                    { return e(simkern.ListenFD(fd)) }
func Connect(int, Sockaddr) error               { return ENOSYS }
func Dup(int) (int, error)                      { return -1, ENOSYS }
func FcntlInt(_ uintptr, _, _ int) (int, error) { return -1, EINVAL }
func CloseOnExec(int)                           {}
func SetNonblock(int, bool) error               { return nil }

func SetsockoptInt(fd, _, opt, v int) error {
	if opt == SO_REUSEPORT {
		simkern.ReusePort(fd, v != 0)
	}
	return nil
}

func Send(int, []byte, int) error             { return ENOSYS }
func Sendto(int, []byte, int, Sockaddr) error { return ENOSYS }
func Recvfrom(int, []byte, int) (int, Sockaddr, error) {
	return -1, nil, ENOSYS
}

func Accept(fd int) (int, Sockaddr, error) {
	nfd, name, n := simkern.Accept(fd)
	if n != 0 {
		return -1, nil, n
	}
	h := simkern.HashS(name)
	return nfd, &SockaddrInet4{Port: 10000 + int(h%50000), Addr: [4]byte{10, 0, byte(h >> 40), byte(h >> 48)}}, nil
}

func Close(fd int) error { return e(simkern.CloseFD(fd)) }

func Read(fd int, p []byte) (int, error) {
	n, er := simkern.Read(fd, p)
	if n > 0 {
		simrace.Wrote(p[:n])
	}
	return n, e(er)
}

func Write(fd int, p []byte) (int, error) {
	simrace.Read(p)
	n, er := simkern.Write(fd, p)
	return n, e(er)
}

func Readv(fd int, iovs [][]byte) (int, error) {
	t := 0
	for _, b := range iovs {
		if len(b) == 0 {
			continue
		}
		n, er := simkern.Read(fd, b)
		if er != 0 {
			if t > 0 {
				return t, nil
			}
			return -1, er
		}
		t += n
		simrace.Wrote(b[:n])
		if n < len(b) {
			break
		}
	}
	return t, nil
}

func Writev(fd int, iovs [][]byte) (int, error) {
	t := 0
	for _, b := range iovs {
		if len(b) == 0 {
			continue
		}
		simrace.Read(b)
		n, er := simkern.Write(fd, b)
		if er != 0 {
			if t > 0 {
				return t, nil
			}
			return -1, er
		}
		t += n
		if n < len(b) {
			break
		}
	}
	return t, nil
}
