from plant import *
GO='''#!/bin/bash
# cwd: the repository. Exits 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d /tmp/godis-demo-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
'''
SLOW='''package redis

import (
	"strconv"
	"time"

	"github.com/yusank/godis/protocol"
)

func init() {
	implementedCommands["slow"] = func(c *Command) (*protocol.Response, error) {
		ms, _ := strconv.Atoi(c.Values[0])
		time.Sleep(time.Duration(ms) * time.Millisecond)
		return protocol.NewResponseWithSimpleString("slept"), nil
	}
}
'''
bug('p01-unknown-command-text','P01','an unknown command whose name contains CR LF',
 'the error reply quotes the command name, so a name with CR LF splits the reply in two: every later reply on the connection is off by one',
 [('redis/command.go','''			c.setRsp(nil, ErrUnknownCommand, rspChan)
''','''			c.setRsp(nil, fmt.Errorf("%w: %s", ErrUnknownCommand, c.Command), rspChan)
'''),('redis/command.go','''	"context"
	"log"
''','''	"context"
	"fmt"
	"log"
''')],
 body('''
c.send('nosuch\\r\\n+OK'); c.send('SET', 'k', 'v'); c.send('GET', 'k')
r = c.recv()
check(isinstance(r, Err), True, 'error for the unknown command')
check(c.recv(), 'OK', 'reply of SET')
check(c.recv(), 'v', 'reply of GET')
'''))
bug('p08-set-keeps-type','P08','SET on a key that holds another type',
 'SET reuses the entry of an existing key and keeps its type: the key says it is a list but holds a string',
 [('datastruct/string.go','''	defaultCache.keys.Set(key, &KeyInfo{Type: KeyTypeString, Value: value})
''','''	// reuse the entry of an existing key
	if v, ok := defaultCache.keys.Get(key); ok {
		v.(*KeyInfo).Value = value
		return
	}

	defaultCache.keys.Set(key, &KeyInfo{Type: KeyTypeString, Value: value})
''')],
 body('''
c('RPUSH', 'k', 'a')
check(c('SET', 'k', 'v'), 'OK', 'set')
check(c('TYPE', 'k'), 'string', 'type')
check(c('GET', 'k'), 'v', 'get')
'''))
bug('p06-hset-dup-field','P06','one HSET that names the same new field twice',
 'HSET counts new fields before it stores them: a field that occurs twice counts twice, HLEN is too large and the emptied hash never disappears',
 [('datastruct/hash_table.go','''	if !h.table.Has(field) {
		h.length++
	}

	h.table.Set(field, v)
	return 1
''','''	h.table.Set(field, v)
	return 1
'''),('datastruct/hash_table.go','''	for _, kv := range kvs {
		h.set(kv.Key, kv.Value, HSetInNone)
	}
''','''	for _, kv := range kvs {
		if !h.exists(kv.Key) {
			h.length++
		}
		h.set(kv.Key, kv.Value, HSetInNone)
	}
'''),('datastruct/hash_table.go','''	var cnt int
	for _, kv := range kvs {
		cnt += h.set(kv.Key, kv.Value, flag)
	}
''','''	if flag&HSetInNx == 0 {
		for _, kv := range kvs {
			if !h.exists(kv.Key) {
				h.length++
			}
		}
	}

	var cnt int
	for _, kv := range kvs {
		cnt += h.set(kv.Key, kv.Value, flag)
	}
''')],
 body('''
c('HSET', 'h', 'f', '1', 'f', '2')
check(c('HLEN', 'h'), 1, 'hlen')
check(c('HDEL', 'h', 'f'), 1, 'hdel')
check(c('EXISTS', 'h'), 0, 'exists after the last field is gone')
'''))
bug('p04-lpop-prealloc','P04','LPOP with a count much larger than the list',
 'LPOP allocates room for the requested count: a huge count panics (internal error) and pops nothing',
 [('datastruct/list.go','''	for count > 0 && list.length > 0 {
		value, ok := list.LPop()
''','''	values = make([]string, 0, count)
	for count > 0 && list.length > 0 {
		value, ok := list.LPop()
''')],
 body('''
c('RPUSH', 'l', 'a', 'b')
check(c('LPOP', 'l', '9223372036854775807'), ['a', 'b'], 'lpop')
'''))
bug('p12-expired-result','P12','a command that runs past the 10 s limit while the requesting goroutine is held up just before it waits for the result',
 'commands know their context, and an expired one delivers no result: the requester that sees result and time-out at once takes the missing result and dereferences nil, which ends the process',
 [('redis/command.go','''	c := &Command{
		Command:''','''	c := &Command{
		Ctx:     ctx,
		Command:''')], None,
 sh=GO+'''mkdir "$tmp/o"
# hold up HandleRequest between handing over the command and waiting for it
awk '/AddEvent\\(/ {seen=1} seen && !done && /^\\tselect \\{/ {print "\\ttime.Sleep(10500 * time.Millisecond)"; done=1} {print}' event/handler.go > "$tmp/o/handler.go"
grep -q 10500 "$tmp/o/handler.go" || exit 0
cp "$here/slow.go.txt" "$tmp/o/slow.go"; cp "$here/demo_test.go.txt" "$tmp/o/demo_test.go"
cat > "$tmp/o.json" <<J
{"Replace": {"$PWD/event/handler.go": "$tmp/o/handler.go", "$PWD/redis/zz_slow.go": "$tmp/o/slow.go", "$PWD/event/zz_demo_test.go": "$tmp/o/demo_test.go"}}
J
go test -vet=off -count=1 -overlay "$tmp/o.json" -run TestExpired ./event
''', files={'slow.go.txt':SLOW,'demo_test.go.txt':'''package event

import (
	"sync"
	"testing"

	"github.com/yusank/godis/protocol"
)

func TestExpired(t *testing.T) {
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); HandleRequest(&protocol.Receive{Elements: []string{"slow", "10200"}}) }()
	for i := 0; i < 30; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if r := HandleRequest(&protocol.Receive{Elements: []string{"ping"}}); len(r) == 0 {
				t.Error("no reply")
			}
		}()
	}
	wg.Wait()
}
'''})
bug('p12-no-limit','P12','execution that stalls for longer than 10 s',
 'requests wait for their turn and their result without limit: a stalled command holds up every client for as long as it lasts',
 [('event/handler.go','context.WithTimeout(context.Background(), time.Second*10)','context.WithCancel(context.Background())'),('event/handler.go','\t"log"\n\t"time"\n','\t"log"\n'),('event/handler.go','// set timeout','// released when the request is done')], None,
 sh=GO+'''cp "$here/slow.go.txt" "$tmp/slow.go"; cp "$here/demo_test.go.txt" "$tmp/demo_test.go"
cat > "$tmp/o.json" <<J
{"Replace": {"$PWD/redis/zz_slow.go": "$tmp/slow.go", "$PWD/event/zz_demo_test.go": "$tmp/demo_test.go"}}
J
go test -vet=off -count=1 -overlay "$tmp/o.json" -run TestLimit ./event
''', files={'slow.go.txt':SLOW,'demo_test.go.txt':'''package event

import (
	"testing"
	"time"

	"github.com/yusank/godis/protocol"
)

func TestLimit(t *testing.T) {
	go HandleRequest(&protocol.Receive{Elements: []string{"slow", "25000"}})
	time.Sleep(200 * time.Millisecond)
	at := time.Now()
	HandleRequest(&protocol.Receive{Elements: []string{"ping"}})
	if d := time.Since(at); d > 15*time.Second {
		t.Fatal("answered after", d)
	}
}
'''})
bug('p18-late-result-race','P18','a request that times out while its command is still running',
 'the request handler looks at the result after a time-out without synchronisation with the worker that writes it',
 [('event/handler.go','''	case <-ctx.Done():
		rsp = protocol.NewResponseWithError(ctx.Err())
''','''	case <-ctx.Done():
		// maybe the result came at the last moment
		if rsp = e.Rsp; rsp == nil {
			rsp = protocol.NewResponseWithError(ctx.Err())
		}
''')], None,
 sh=GO+'''cp "$here/slow.go.txt" "$tmp/slow.go"; cp "$here/demo_test.go.txt" "$tmp/demo_test.go"
cat > "$tmp/o.json" <<J
{"Replace": {"$PWD/redis/zz_slow.go": "$tmp/slow.go", "$PWD/event/zz_demo_test.go": "$tmp/demo_test.go"}}
J
CGO_ENABLED=1 go test -race -vet=off -count=1 -overlay "$tmp/o.json" -run TestLate ./event
''', files={'slow.go.txt':SLOW,'demo_test.go.txt':'''package event

import (
	"testing"
	"time"

	"github.com/yusank/godis/protocol"
)

func TestLate(t *testing.T) {
	HandleRequest(&protocol.Receive{Elements: []string{"slow", "11000"}})
	time.Sleep(2 * time.Second)
}
'''})
V1='''cp "$here/demo_test.go.txt" "$tmp/demo_test.go"
cat > "$tmp/o.json" <<J
{"Replace": {"$PWD/server/v1/zz_demo_test.go": "$tmp/demo_test.go"}}
J
go test -tags v1 -vet=off -count=1 -timeout 120s -overlay "$tmp/o.json" -run TestDemo ./server/v1
'''
bug('p17-wg-add','P17','a stop after a connection was accepted and before its goroutine runs',
 'the connection goroutine registers itself: a stop at that moment does not wait for it and the request it was given is never answered',
 [('server/v1/server.go','''		s.wg.Add(1)
		s.conns.Store''','''		s.conns.Store'''),('server/v1/server.go','''func (s *Server) handleConn(conn net.Conn) {
	reader := bufio.NewReader(conn)
''','''func (s *Server) handleConn(conn net.Conn) {
	s.wg.Add(1)
	reader := bufio.NewReader(conn)
''')], None, sh=GO+V1, files={'demo_test.go.txt':'''package v1

import (
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// fake is a connection that becomes ready by itself.
type fake struct {
	net.Conn
	closed int32
}

func (f *fake) Read(b []byte) (int, error)         { time.Sleep(time.Millisecond); return 0, net.ErrClosed }
func (f *fake) Close() error                       { atomic.StoreInt32(&f.closed, 1); return nil }
func (f *fake) SetReadDeadline(t time.Time) error  { return nil }
func (f *fake) SetWriteDeadline(t time.Time) error { return nil }

type lis struct {
	mu sync.Mutex
	n  int
	c  *fake
}

func (l *lis) Accept() (net.Conn, error) {
	l.n++
	if l.n == 1 {
		return l.c, nil
	}
	return nil, net.ErrClosed
}
func (l *lis) Close() error   { return nil }
func (l *lis) Addr() net.Addr { return nil }

// After handleListener has returned (a stop) no accepted connection is open.
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	for i := 0; i < 50; i++ {
		s := NewServer()
		l := &lis{c: &fake{}}
		s.listener = l
		s.handleListener()
		if atomic.LoadInt32(&l.c.closed) == 0 {
			t.Fatal("stopped while an accepted connection is still being served")
		}
	}
}
'''})
bug('p16-accept-error','P16','one failing accept, for example because the process is out of descriptors for a moment',
 'the v1 server stops accepting for good after a transient accept error',
 [('server/v1/server.go','''			log.Println("accept err:", err)
			continue
''','''			log.Println("accept err:", err)
			break
''')], None, sh=GO+V1, files={'demo_test.go.txt':'''package v1

import (
	"bufio"
	"net"
	"syscall"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	s := NewServer()
	go s.Start("127.0.0.1:0")
	var addr string
	for i := 0; i < 100 && addr == ""; i++ {
		time.Sleep(20 * time.Millisecond)
		s.mu.Lock()
		if s.listener != nil {
			addr = s.listener.Addr().String()
		}
		s.mu.Unlock()
	}
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old)
	low := old
	low.Cur = 40
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low); err != nil {
		t.Skip(err)
	}
	var cs []net.Conn
	for i := 0; i < 60; i++ {
		c, err := net.DialTimeout("tcp", addr, time.Second)
		if err != nil {
			break
		}
		cs = append(cs, c)
	}
	time.Sleep(200 * time.Millisecond)
	for _, c := range cs {
		c.Close()
	}
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
	time.Sleep(300 * time.Millisecond)
	c, err := net.DialTimeout("tcp", addr, time.Second)
	if err != nil {
		t.Fatal(err)
	}
	c.SetDeadline(time.Now().Add(5 * time.Second))
	c.Write([]byte("*1\\r\\n$4\\r\\nPING\\r\\n"))
	if l, err := bufio.NewReader(c).ReadString('\\n'); err != nil || l != "+PONG\\r\\n" {
		t.Fatal("not served after a failed accept:", l, err)
	}
}
'''})
bug('p13-signal-lost','P13','a signal that arrives after the handler is installed and before the goroutine that waits for it runs (during start-up)',
 'the signal channel has no buffer, so such a signal is dropped and the server never stops',
 [('cmd/server/main.go','sigChan = make(chan os.Signal, 1)','sigChan = make(chan os.Signal)')], None,
 sh=GO+'''# deliver a SIGTERM right after the handler is installed
root=$(go env GOROOT)
cp "$root/src/os/signal/signal.go" "$tmp/signal.go"
sed -i 's/^func Notify(/func notify0(/' "$tmp/signal.go"
cat >> "$tmp/signal.go" <<'J'

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	notify0(c, sig...)
	p, _ := os.FindProcess(os.Getpid())
	p.Signal(syscallTERM)
	for i := 0; i < 100; i++ {
		time.Sleep(2 * time.Millisecond)
	}
}
J
cat > "$tmp/term.go" <<'J'
package signal

import (
	"syscall"
	"time"
)

var syscallTERM = syscall.SIGTERM
var _ = time.Now
J
sed -i 's/^import (/import (\\n\\t"time"/' "$tmp/signal.go"
echo "{\\"Replace\\": {\\"$root/src/os/signal/signal.go\\": \\"$tmp/signal.go\\", \\"$root/src/os/signal/zz_term.go\\": \\"$tmp/term.go\\"}}" > "$tmp/o.json"
go build -vet=off -overlay "$tmp/o.json" -o "$tmp/godis" ./cmd/server 2>/dev/null || go build -overlay "$tmp/o.json" -o "$tmp/godis" ./cmd/server || exit 0
port=$((20000 + RANDOM % 20000))
"$tmp/godis" -addr "tcp://127.0.0.1:$port" >/dev/null 2>&1 &
pid=$!
for i in $(seq 150); do kill -0 $pid 2>/dev/null || { wait $pid; exit 0; }; sleep 0.1; done
kill -9 $pid; echo "the server ignored SIGTERM during start-up"; exit 1
''')
bug('p13-drain-time','P13','a stop while a received request takes longer than half a second',
 'the graceful stop gives up after 300 ms instead of 5 s: a request received before the signal is not answered',
 [('server/v2/server.go','time.Second*5','time.Millisecond*300')], '''from godis import *
with Tmp() as d:
    here = os.path.dirname(os.path.abspath(__file__))
    import json
    shutil.copy(os.path.join(here, 'slow.go.txt'), os.path.join(d, 'slow.go'))
    o = os.path.join(d, 'o.json')
    json.dump({'Replace': {os.path.join(os.getcwd(), 'redis/zz_slow.go'): os.path.join(d, 'slow.go')}}, open(o, 'w'))
    with Server(build(d, '-overlay', o)) as s:
        c = s.client()
        check(c('PING'), 'PONG', 'ping')
        c.send('SLOW', '1500')
        time.sleep(0.3)
        s.p.send_signal(signal.SIGTERM)
        try:
            r = c.recv()
        except (EOFError, OSError):
            r = 'connection closed'
        check(r, 'slept', 'reply of the request received before SIGTERM')
''', files={'slow.go.txt':SLOW})
bug('p20-listen-error','P20','the address is in use (or bind fails for another reason)',
 'a server that can not listen is not stopped: the process hangs around until somebody kills it',
 [('cmd/server/main.go','''		case <-errChan:
			srv.Stop()
		}''','''		}''')], '''from godis import *
with Tmp() as d:
    exe = build(d)
    l = socket.socket(); l.bind(('127.0.0.1', 0)); l.listen()
    p = subprocess.Popen([exe, '-addr', 'tcp://127.0.0.1:%d' % l.getsockname()[1]], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env())
    try:
        p.wait(20)
    except subprocess.TimeoutExpired:
        p.kill(); p.wait()
        print('FAIL the process does not end although it can not listen'); sys.exit(1)
''')
