from plant import *
GOTEST='''#!/bin/bash
# cwd: the repository. Exits 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d /tmp/godis-demo-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/demo_test.go"
%s
cat > "$tmp/o.json" <<J
{"Replace": {%s"$PWD/%s/zz_demo_test.go": "$tmp/demo_test.go"}}
J
go test %s -vet=off -count=1 -timeout 200s -overlay "$tmp/o.json" -run TestDemo ./%s
'''
def gt(pkg,tags='',slow=False):
    return GOTEST%('cp "$here/slow.go.txt" "$tmp/slow.go"' if slow else '', '"$PWD/redis/zz_slow.go": "$tmp/slow.go", ' if slow else '', pkg, tags, pkg)
SLOW=open('/verif/seeded/p12-no-limit/slow.go.txt').read()
bug('p01-encode-pool','P01','several requests of one or more connections in flight, so that a reply is still waiting to be written when the next is encoded',
 'the buffer a reply was encoded into goes back to a pool while the reply still waits to be written: another reply overwrites it',
 [('protocol/encode.go','''func (r *Response) Encode() []byte {
	buf := new(bytes.Buffer)
''','''// bufPool keeps encode buffers
var bufPool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

func (r *Response) Encode() []byte {
	buf := bufPool.Get().(*bytes.Buffer)
	buf.Reset()
	defer bufPool.Put(buf)

'''),('protocol/encode.go','''	"strconv"

''','''	"strconv"
	"sync"

''')],'''from godis import *
import threading
with Tmp() as d:
    with Server(build(d)) as s:
        bad = []
        def work(n):
            c = s.client()
            keys = ['k%d.%d' % (n, i) for i in range(50)]
            for k in keys:
                c('SET', k, k * 20)
            for rnd in range(60):
                for k in keys:
                    c.send('GET', k)
                for k in keys:
                    try:
                        v = c.recv()
                    except Exception as e:
                        v = repr(e)
                    if v != k * 20:
                        bad.append((k, v)); return
        ts = [threading.Thread(target=work, args=(i,)) for i in range(6)]
        [t.start() for t in ts]; [t.join() for t in ts]
        if bad:
            print('FAIL', str(bad[0])[:200]); sys.exit(1)
''')
bug('p05-members-cache','P05','members are listed, then one member is removed and another one that lives in the same shard is added, then they are listed again',
 'SMEMBERS (and HKEYS) answer from a list of names that is only rebuilt when the number of names has changed',
 [('lib/shard_map/shard_map.go','''	items map[string]interface{}
}

func New''','''	items map[string]interface{}
	names []string // of items, made on demand
}

func New'''),('lib/shard_map/shard_map.go','''		for key := range shard.items {
			keys = append(keys, key)
		}
''','''		if len(shard.names) != len(shard.items) {
			shard.names = shard.names[:0]
			for key := range shard.items {
				shard.names = append(shard.names, key)
			}
		}
		keys = append(keys, shard.names...)
''')],body('''
import random
r = random.Random(1)
have = set()
for i in range(40):
    c('SADD', 's', 'm%d' % i); have.add('m%d' % i)
for i in range(400):
    m, n = 'm%d' % r.randrange(60), 'm%d' % r.randrange(60)
    c('SREM', 's', m); have.discard(m)
    c('SADD', 's', n); have.add(n)
    check(sorted(c('SMEMBERS', 's')), sorted(have), 'SMEMBERS after %d changes' % i)
'''))
bug('p05-inter-inplace','P05','an intersection of a set of more than 64 members with a far smaller one that has members the first lacks',
 'the short cut for a far smaller second set removes what is missing from the small set itself: SINTER changes a set it should only read',
 [('datastruct/set.go','''func sInter(s1, s2 *set) *set {
	var result = newSet()
''','''func sInter(s1, s2 *set) *set {
	if s1.length > 64 && s2.length < s1.length/4 {
		// far smaller, just drop what is missing
		s2.m.RangeAndDelete(func(key string, _ interface{}) (del, rng bool) {
			if del = !s1.m.Has(key); del {
				s2.length--
			}

			return del, true
		})

		return s2
	}

	var result = newSet()
''')],body('''
c('SADD', 'big', *['m%d' % i for i in range(100)])
c('SADD', 'small', 'm1', 'm2', 'x')
check(sorted(c('SINTER', 'big', 'small')), ['m1', 'm2'], 'SINTER')
check(sorted(c('SMEMBERS', 'small')), ['m1', 'm2', 'x'], 'the small set afterwards')
'''))
bug('p09-impatient-worker','P09','a command that takes longer than ten seconds while other clients use the same keys',
 'the worker stops waiting for a command after ten seconds and starts the next one while the first is still at it: commands are no longer atomic',
 [('event/worker.go','''		e.Rsp = <-e.Cmd.ExecuteAsync()
		close(e.done)
''','''		select {
		case e.Rsp = <-e.Cmd.ExecuteAsync():
			close(e.done)
		case <-time.After(10 * time.Second):
			log.Println("command timeout:", e.Cmd.Command)
		}
'''),('event/worker.go','''	"sync"
''','''	"sync"
	"time"
'''),('redis/command.go','''		rspChan = make(chan *protocol.Response)
''','''		rspChan = make(chan *protocol.Response, 1)
''')],None,sh=gt('event',slow=True),files={'slow.go.txt':'''package redis

import (
	"time"

	"github.com/yusank/godis/protocol"
)

// SlowState is 1 while a slow command is in its middle.
var SlowState int

func init() {
	implementedCommands["slow"] = func(c *Command) (*protocol.Response, error) {
		SlowState = 1
		time.Sleep(14 * time.Second)
		SlowState = 0
		return protocol.NewResponseWithSimpleString("slept"), nil
	}
	implementedCommands["peek"] = func(c *Command) (*protocol.Response, error) {
		return protocol.NewResponseWithInteger(int64(SlowState)), nil
	}
}
''','demo_test.go.txt':'''package event

import (
	"testing"
	"time"

	"github.com/yusank/godis/protocol"
)

func TestDemo(t *testing.T) {
	go HandleRequest(&protocol.Receive{Elements: []string{"slow"}})
	time.Sleep(5 * time.Second)
	for i := 0; i < 2; i++ {
		if r := string(HandleRequest(&protocol.Receive{Elements: []string{"peek"}})); r == ":1\\r\\n" {
			t.Fatal("a command ran in the middle of another one")
		}
	}
}
'''})
bug('p12-done-handoff','P12','a command that takes longer than ten seconds',
 'the worker hands the result over to the requester, who has stopped waiting when the time limit has passed: the worker is stuck and no command is executed any more',
 [('event/worker.go','''		close(e.done)
''','''		e.done <- struct{}{}
''')],None,sh=gt('event',slow=True),files={'slow.go.txt':SLOW,'demo_test.go.txt':'''package event

import (
	"testing"
	"time"

	"github.com/yusank/godis/protocol"
)

func TestDemo(t *testing.T) {
	HandleRequest(&protocol.Receive{Elements: []string{"slow", "12000"}})
	time.Sleep(4 * time.Second)
	if r := string(HandleRequest(&protocol.Receive{Elements: []string{"ping"}})); r != "+PONG\\r\\n" {
		t.Fatal("after the slow command:", r)
	}
}
'''})
bug('p16-conns-leak','P16','clients that leave before their reply is written',
 'a connection whose reply cannot be written is never taken out of the table of open connections: the server keeps it for ever',
 [('server/v1/server.go','''			log.Println("write err:", err)
			break
		}
	}
''','''			log.Println("write err:", err)
			ar.Stop()
			_ = conn.Close()
			s.wg.Done()
			return
		}
	}
''')],None,sh=gt('server/v1','-tags v1'),files={'demo_test.go.txt':'''package v1

import (
	"bytes"
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	s := NewServer()
	go s.Start("tcp://127.0.0.1:0")
	for i := 0; i < 100; i++ {
		s.mu.Lock()
		l := s.listener
		s.mu.Unlock()
		if l != nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	set := append([]byte("*3\\r\\n$3\\r\\nSET\\r\\n$1\\r\\nk\\r\\n$1000000\\r\\n"), bytes.Repeat([]byte("x"), 1000000)...)
	for i := 0; i < 5; i++ {
		c, err := net.Dial("tcp", s.listener.Addr().String())
		if err != nil {
			t.Fatal(err)
		}
		c.Write(append(set, "\\r\\n"...))
		c.Write(bytes.Repeat([]byte("*2\\r\\n$3\\r\\nGET\\r\\n$1\\r\\nk\\r\\n"), 200))
		time.Sleep(200 * time.Millisecond)
		c.(*net.TCPConn).SetLinger(0)
		c.Close()
	}
	n := 0
	for i := 0; i < 100; i++ {
		n = 0
		s.conns.Range(func(_, _ interface{}) bool { n++; return true })
		if n == 0 {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	if n > 0 {
		t.Fatal(n, "connections are still in the table after all clients have left")
	}
	s.Stop()
}
'''})
bug('p16-write-lock','P16','a client that asks for much and does not read it, next to others',
 'replies are written under one lock: a client that does not read its replies blocks the replies of every other client',
 [('server/v1/server.go','''		_, err := conn.Write(reply)
		if err != nil {
''','''		s.writing.Lock()
		_, err := conn.Write(reply)
		s.writing.Unlock()
		if err != nil {
'''),
 ('server/v1/server.go','''	listener net.Listener
''','''	writing  sync.Mutex // replies do not mix
	listener net.Listener
''')],None,sh=gt('server/v1','-tags v1'),files={'demo_test.go.txt':'''package v1

import (
	"bytes"
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	s := NewServer()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	go s.Start("tcp://" + addr)
	time.Sleep(300 * time.Millisecond)
	set := append([]byte("*3\\r\\n$3\\r\\nSET\\r\\n$1\\r\\nk\\r\\n$1000000\\r\\n"), bytes.Repeat([]byte("x"), 1000000)...)
	slow, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	defer slow.Close()
	slow.Write(append(set, "\\r\\n"...))
	slow.Write(bytes.Repeat([]byte("*2\\r\\n$3\\r\\nGET\\r\\n$1\\r\\nk\\r\\n"), 100))
	time.Sleep(time.Second)
	c, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	c.Write([]byte("*1\\r\\n$4\\r\\nPING\\r\\n"))
	c.SetReadDeadline(time.Now().Add(5 * time.Second))
	b := make([]byte, 100)
	if n, err := c.Read(b); err != nil {
		t.Fatal("no reply while another client does not read its own:", n, err)
	}
}
'''})
bug('p10-command-stats','P10','a client that sends very many different unknown command names',
 'calls are counted per command name as the client spelled it, also for unknown names: any client can make the server memory grow without end',
 [('redis/command.go','''		f, ok := implementedCommands[c.Command]
''','''		calls[c.Command]++
		f, ok := implementedCommands[c.Command]
'''),('redis/command.go','''var implementedCommands = map[string]ExecuteFunc{}
''','''var implementedCommands = map[string]ExecuteFunc{}

// calls counts how often every command was asked for
var calls = map[string]int64{}
''')],None,sh=gt('event'),files={'demo_test.go.txt':'''package event

import (
	"runtime"
	"strconv"
	"strings"
	"testing"

	"github.com/yusank/godis/protocol"
)

func heap() uint64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func TestDemo(t *testing.T) {
	before := heap()
	for i := 0; i < 5000; i++ {
		HandleRequest(&protocol.Receive{Elements: []string{strings.Repeat("x", 4000) + strconv.Itoa(i)}})
	}
	if after := heap(); after > before+5<<20 {
		t.Fatal(after-before, "bytes are kept although nothing was stored")
	}
}
'''})
