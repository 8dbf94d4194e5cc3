from plant import *
exec(open('/tmp/bugs/b4.py').read().split("bug('")[0].split('from plant import *')[1])
RACE=gt('event').replace('go test ','CGO_ENABLED=1 go test -race ')
PRE='''from godis import *
with Tmp() as d:
    with Server(build(d)) as s:
        c = s.client()
'''
bug('p04-lindex-finger','P04','LINDEX or LSET, then LINSERT or LREM before that place, then LINDEX or LSET of the same place',
 'the list remembers the node an index was last resolved to and does not forget it when an element before it is inserted or removed',
 [('datastruct/list.go','''	length     int
	head, tail *listNode
}''','''	length     int
	head, tail *listNode

	// the node last asked for by index, lists are often read one by one
	finger    *listNode
	fingerIdx int
}'''),
 ('datastruct/list.go','''func (l *List) LPush(val string) {
''','''func (l *List) LPush(val string) {
	l.finger = nil
'''),
 ('datastruct/list.go','''	l.length--
	val = l.head.value
''','''	l.length--
	l.finger = nil
	val = l.head.value
'''),
 ('datastruct/list.go','''	l.length--
	val = l.tail.value
''','''	l.length--
	l.finger = nil
	val = l.tail.value
'''),
 ('datastruct/list.go','''		reverse = i > l.length/2+1
	)

	if reverse {
''','''		reverse = i > l.length/2+1
	)

	if l.finger != nil && (i == l.fingerIdx || i == l.fingerIdx+1) {
		idx, cur, reverse = l.fingerIdx, l.finger, false
	} else if reverse {
'''),
 ('datastruct/list.go','''			cur = cur.next
		}
	}

	return cur
''','''			cur = cur.next
		}
	}

	l.finger, l.fingerIdx = cur, i
	return cur
''')],PRE+'''
        c('RPUSH', 'l', 'a', 'b', 'c', 'd')
        check(c('LINDEX', 'l', 2), 'c', 'LINDEX')
        check(c('LINSERT', 'l', 'BEFORE', 'b', 'x'), 5, 'LINSERT')
        check(c('LINDEX', 'l', 2), 'b', 'LINDEX after LINSERT')
''')
bug('p08-keys-cache','P08','KEYS, then as many keys removed as created, then KEYS with the same pattern',
 'the answer to the last KEYS is kept as long as the number of keys stays the same',
 [('datastruct/keys.go','''	defaultCache.keys.Range(func(key string, _ interface{}) bool {
''','''	if count := defaultCache.keys.Len(); count != lastKeys.count || pattern != lastKeys.pattern {
		lastKeys.pattern, lastKeys.count = pattern, count
	} else {
		return lastKeys.keys, nil
	}
	defer func() { lastKeys.keys = keys }()

	defaultCache.keys.Range(func(key string, _ interface{}) bool {
'''),('datastruct/keys.go','''func Keys(pattern''','''// lastKeys is the last result of Keys, monitoring tools ask for the same again and again
var lastKeys struct {
	pattern string
	count   int
	keys    []string
}

func Keys(pattern'''),
 ('lib/shard_map/shard_map.go','''func (m Map) Keys() []string {
''','''// Len is the number of keys
func (m Map) Len() (n int) {
	for i := range m {
		n += len(m[i].items)
	}

	return n
}

func (m Map) Keys() []string {
''')],PRE+'''
        c('SET', 'a', '1')
        check(c('KEYS', '*'), ['a'], 'KEYS')
        c('SET', 'b', '1')
        c('DEL', 'a')
        check(c('KEYS', '*'), ['b'], 'KEYS after DEL a')
''')
bug('p13-second-kills','P13','a second signal while the server waits for requests that are still running',
 'after the first signal the next one ends the process at once: received requests lose their replies',
 [('cmd/server/main.go','''		case <-sigChan:
			srv.Stop()
''','''		case <-sigChan:
			// an impatient operator may end the process by the next one
			signal.Stop(sigChan)
			srv.Stop()
''')],'''from godis import *
import threading
with Tmp() as d:
    for i in range(6):
        with Server(build(d) if i == 0 else os.path.join(d, 'godis')) as s:
            c = s.client()
            n = 200000
            c('RPUSH', 'l', *range(n))
            for k in range(20):
                c.send('LREM', 'l', n, 'x%d' % k)
            time.sleep(0.02)
            s.p.send_signal(signal.SIGTERM)
            time.sleep(0.002)
            s.p.send_signal(signal.SIGTERM)
            code = s.p.wait(30)
            check(code, 0, 'exit status after two SIGTERM')
''')
bug('p15-list-nodes','P15','large elements that are pushed and popped again',
 'popped list nodes are kept for reuse together with the values they held: the memory of removed data is not released',
 [('datastruct/list.go','''func newListNode(val string) *listNode {
	return &listNode{
''','''// free nodes for reuse
var free []*listNode

const maxFree = 1 << 16

func recycle(n *listNode) {
	if len(free) < maxFree {
		free = append(free, n)
	}
}

func newListNode(val string) *listNode {
	if n := len(free); n > 0 {
		node := free[n-1]
		free = free[:n-1]
		*node = listNode{value: val}
		return node
	}

	return &listNode{
'''),('datastruct/list.go','''	n.next = nil
	if next != nil {
		next.prev = nil
	}
''','''	n.next = nil
	if next != nil {
		next.prev = nil
	}
	recycle(n)
'''),('datastruct/list.go','''	n.prev = nil
	if prev != nil {
		prev.next = nil
	}
''','''	n.prev = nil
	if prev != nil {
		prev.next = nil
	}
	recycle(n)
''')],None,sh=gt('datastruct'),files={'demo_test.go.txt':'''package datastruct

import (
	"runtime"
	"strings"
	"testing"
)

func heap() uint64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func TestDemo(t *testing.T) {
	before := heap()
	for i := 0; i < 500; i++ {
		RPush("demo-l", strings.Repeat("x", 100000))
	}
	for i := 0; i < 250; i++ {
		LPop("demo-l", 1)
		RPop("demo-l", 1)
	}
	Del("demo-l")
	if after := heap(); after > before+10<<20 {
		t.Fatal(after-before, "bytes are kept although the list is empty")
	}
}
'''})
bug('p15-tombstones','P15','many different keys that are created and removed again',
 'a removed key only gets a mark and is counted as absent, the key itself stays in the map for ever',
 [('lib/shard_map/shard_map.go','''	v, ok := shard.items[key]
	return v, ok
}
''','''	v, ok := shard.items[key]
	return v, ok && v != nil
}
'''),('lib/shard_map/shard_map.go','''func (m Map) Has(key string) bool {
	shard := m.GetShard(key)
	_, ok := shard.items[key]
	return ok
}''','''func (m Map) Has(key string) bool {
	shard := m.GetShard(key)
	return shard.items[key] != nil
}'''),('lib/shard_map/shard_map.go','''	_, ok := shard.items[key]
	if !ok {
		shard.items[key] = value
''','''	if shard.items[key] == nil {
		shard.items[key] = value
'''),('lib/shard_map/shard_map.go','''	_, ok := shard.items[key]
	if !ok {
		return false
	}

	delete(shard.items, key)
	return true
''','''	if shard.items[key] == nil {
		return false
	}

	// most keys come back soon, keep their slot
	shard.items[key] = nil
	return true
'''),('lib/shard_map/shard_map.go','''			if !f(s, v) {
''','''			if v != nil && !f(s, v) {
'''),('lib/shard_map/shard_map.go','''			del, rng := f(s, v)
''','''			if v == nil {
				continue
			}
			del, rng := f(s, v)
'''),('lib/shard_map/shard_map.go','''	old, ok := shard.items[key]
	res, abort = f(ok, old, value)
''','''	old := shard.items[key]
	res, abort = f(old != nil, old, value)
'''),('lib/shard_map/shard_map.go','''		for key := range shard.items {
			keys = append(keys, key)
		}
''','''		for key, v := range shard.items {
			if v != nil {
				keys = append(keys, key)
			}
		}
'''),('lib/shard_map/shard_map.go','''			tmp[k] = v
''','''			if v != nil {
				tmp[k] = v
			}
''')],None,sh=gt('datastruct'),files={'demo_test.go.txt':'''package datastruct

import (
	"runtime"
	"strconv"
	"strings"
	"testing"
)

func heap() uint64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func TestDemo(t *testing.T) {
	before := heap()
	for i := 0; i < 5000; i++ {
		k := strings.Repeat("k", 4000) + strconv.Itoa(i)
		Set(k, "1")
		Del(k)
	}
	if after := heap(); after > before+5<<20 {
		t.Fatal(after-before, "bytes are kept although all keys are gone")
	}
}
'''})
bug('p11-zadd-partial','P11','ZADD with several pairs, one of which is not valid',
 'pairs are added while they are read: a refused ZADD has added those before the bad one',
 [('redis/sorted_set.go','''			members = append(members, &datastruct.ZSetMember{
				Score: score,
				Value: c.Values[i+1],
			})
			i += 2
''','''			members = append(members, &datastruct.ZSetMember{
				Score: score,
				Value: c.Values[i+1],
			})
			i += 2
			if len(members) == maxBatch && i < len(c.Values) {
				// do not keep all of a very long command
				n, err := datastruct.ZAdd(key, members, flag)
				if err != nil {
					return nil, err
				}
				added += n
				members = members[:0]
			}
'''),('redis/sorted_set.go','''		flag    int
	)

	for i := 1; i < len(c.Values); {
''','''		flag    int
		added   int
	)

	for i := 1; i < len(c.Values); {
'''),('redis/sorted_set.go','''	return protocol.NewResponseWithInteger(int64(cnt)), nil
}

// zScore .
''','''	return protocol.NewResponseWithInteger(int64(added + cnt)), nil
}

// maxBatch is how many members zAdd collects before it adds them
const maxBatch = 16

// zScore .
''')],PRE+'''
        a = []
        for i in range(20):
            a += [i, 'm%d' % i]
        check(isinstance(c('ZADD', 'z', *a, 'nonsense', 'x'), Err), True, 'a bad score is refused')
        check(c('ZCARD', 'z'), 0, 'members after a refused ZADD')
''')
bug('p12-queue-wait','P12','a command that runs for long while other clients have requests in the queue',
 'the ten seconds begin when a request leaves the queue: requests behind a slow command are not answered in time',
 [('event/handler.go','''	if err := AddEvent(ctx, e); err != nil {
''','''	if err := AddEvent(context.Background(), e); err != nil {
'''),('event/handler.go','''	// wait for result or context timeout
''','''	// waiting in the queue does not count
	ctx, cancel = context.WithTimeout(context.Background(), time.Second*10)
	defer cancel()

	// wait for result or context timeout
''')],None,sh=gt('event',slow=True),files={'slow.go.txt':SLOW,'demo_test.go.txt':'''package event

import (
	"testing"
	"time"

	"github.com/yusank/godis/protocol"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 4; i++ {
		go HandleRequest(&protocol.Receive{Elements: []string{"slow", "14000"}})
	}
	time.Sleep(300 * time.Millisecond)
	began := time.Now()
	HandleRequest(&protocol.Receive{Elements: []string{"ping"}})
	if took := time.Since(began); took > 12*time.Second {
		t.Fatal("answered after", took)
	}
}
'''})
bug('p18-request-count','P18','two clients at once',
 'a counter of requests that all connections update without synchronisation',
 [('event/handler.go','''	// prepare cmd
	cmd := redis.NewCommandFromReceive(ctx, rec)
''','''	// prepare cmd
	requests++
	cmd := redis.NewCommandFromReceive(ctx, rec)
'''),('event/handler.go','''// HandleRequest receive''','''// requests counts all requests
var requests uint64

// HandleRequest receive''')],None,sh=RACE,files={'demo_test.go.txt':'''package event

import (
	"sync"
	"testing"

	"github.com/yusank/godis/protocol"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 100; j++ {
				HandleRequest(&protocol.Receive{Elements: []string{"ping"}})
			}
		}()
	}
	wg.Wait()
}
'''})
bug('p16-reader-pool','P16','a client that leaves with many requests pending, then other clients',
 'the reader of a connection is reused for the next one while the goroutine that decodes the old one may still be reading from it',
 [('server/v1/server.go','''	reader := bufio.NewReader(conn)
''','''	reader := readers.Get().(*bufio.Reader)
	reader.Reset(conn)
	defer readers.Put(reader)
'''),('server/v1/server.go','''// handle by a new goroutine
''','''// readers are reused, every one has a buffer
var readers = sync.Pool{New: func() interface{} { return bufio.NewReader(nil) }}

// handle by a new goroutine
''')],None,sh=gt('server/v1','-tags v1'),files={'demo_test.go.txt':'''package v1

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"strings"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	s := NewServer()
	go s.Start("tcp://" + addr)
	time.Sleep(300 * time.Millisecond)
	end := time.Now().Add(15 * time.Second)
	for i := 0; time.Now().Before(end); i++ {
		// many requests, and away without reading a reply
		for k := 0; k < 4; k++ {
			a, err := net.Dial("tcp", addr)
			if err != nil {
				t.Fatal(err)
			}
			a.Write(bytes.Repeat([]byte("*2\\r\\n$4\\r\\nLLEN\\r\\n$1\\r\\nx\\r\\n"), 3000))
			a.(*net.TCPConn).SetLinger(0)
			a.Close()
		}
		c, err := net.Dial("tcp", addr)
		if err != nil {
			t.Fatal(err)
		}
		c.SetDeadline(time.Now().Add(5 * time.Second))
		r := bufio.NewReader(c)
		v := fmt.Sprint("v", i)
		for j := 0; j < 20; j++ {
			fmt.Fprintf(c, "*3\\r\\n$3\\r\\nSET\\r\\n$1\\r\\nk\\r\\n$%d\\r\\n%s\\r\\n", len(v), v)
			if got, err := r.ReadString('\\n'); err != nil || got != "+OK\\r\\n" {
				t.Fatalf("SET: %q %v", got, err)
			}
		}
		fmt.Fprintf(c, "*2\\r\\n$3\\r\\nGET\\r\\n$1\\r\\nk\\r\\n")
		want := fmt.Sprintf("$%d\\r\\n%s\\r\\n", len(v), v)
		b := make([]byte, len(want))
		if _, err := io.ReadFull(r, b); err != nil || string(b) != want {
			t.Fatalf("GET: %q %v, want %q", b, err, strings.TrimSpace(want))
		}
		c.Close()
	}
}
'''})
bug('p17-stop-events-first','P17','a stop while received requests are not handled yet',
 'the event pool is stopped before the connections are done: received requests are refused',
 [('server/v1/server.go','''				log.Println("closed")
''','''				log.Println("closed")
				// no new requests from here on
				event.Stop()
''')],None,sh=gt('server/v1','-tags v1'),files={'demo_test.go.txt':'''package v1

import (
	"bufio"
	"bytes"
	"io"
	"net"
	"strings"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	s := NewServer()
	go s.Start("tcp://" + addr)
	time.Sleep(300 * time.Millisecond)
	c, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	go c.Write(bytes.Repeat([]byte("*2\\r\\n$4\\r\\nLLEN\\r\\n$1\\r\\nx\\r\\n"), 20000))
	r := bufio.NewReader(c)
	for i := 0; ; i++ {
		if i == 100 {
			s.Stop()
		}
		got, err := r.ReadString('\\n')
		if err == io.EOF || err != nil && strings.Contains(err.Error(), "reset") {
			return
		}
		if err != nil || got != ":0\\r\\n" {
			t.Fatalf("reply %d: %q %v", i, got, err)
		}
	}
}
'''})
bug('p03-append-buffer','P03','APPEND, then INCR or DECR of the same key, then APPEND again',
 'APPEND keeps a buffer of the value and does not see that another command has changed the value in place',
 [('datastruct/string.go','''	ln = len(info.Value.(string)) + len(value)
	info.Value = info.Value.(string) + value

''','''	// keep a buffer that grows ahead, a value that was appended to once is often appended to again
	if info.buf == nil {
		info.buf = append(make([]byte, 0, 2*(len(info.Value.(string))+len(value))), info.Value.(string)...)
	}
	info.buf = append(info.buf, value...)
	ln = len(info.buf)
	info.Value = string(info.buf)

'''),('datastruct/keys.go','''	Type  KeyType
	Value interface{}
}''','''	Type  KeyType
	Value interface{}
	buf   []byte // used by Append
}''')],PRE+'''
        c('SET', 'n', '1')
        check(c('APPEND', 'n', '2'), 2, 'APPEND')
        check(c('INCR', 'n'), 13, 'INCR')
        check(c('APPEND', 'n', '0'), 3, 'APPEND')
        check(c('GET', 'n'), '130', 'GET')
''')
bug('p09-mget-split','P09','an MGET of many keys while another client sets the same keys by MSET',
 'a long MGET is executed in parts, other commands come in between',
 [('event/handler.go','''	// event handler handle event one by one
	e := NewEvent(cmd)
''','''	// do not let others wait for a long command
	if cmd.Command == "mget" && len(cmd.Values) > mgetPart {
		return handleMGet(ctx, cmd)
	}

	// event handler handle event one by one
	e := NewEvent(cmd)
'''),('event/handler.go','''// HandleRequest receive''','''const mgetPart = 4

// handleMGet put cmd into the pool part by part
func handleMGet(ctx context.Context, cmd *redis.Command) []byte {
	rsp := protocol.NewResponse(true)
	for values := cmd.Values; len(values) > 0; {
		n := len(values)
		if n > mgetPart {
			n = mgetPart
		}
		e := NewEvent(&redis.Command{Ctx: cmd.Ctx, Command: cmd.Command, Values: values[:n]})
		values = values[n:]
		if err := AddEvent(ctx, e); err != nil {
			return protocol.NewResponseWithError(err).Encode()
		}
		select {
		case <-ctx.Done():
			return protocol.NewResponseWithError(ctx.Err()).Encode()
		case <-e.Done():
			rsp.Items = append(rsp.Items, e.Rsp.Items...)
		}
	}

	return rsp.Encode()
}

// HandleRequest receive''')],None,sh=gt('event'),files={'demo_test.go.txt':'''package event

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/yusank/godis/protocol"
)

func TestDemo(t *testing.T) {
	stop := time.Now().Add(10 * time.Second)
	for w := 0; w < 4; w++ {
		go func() {
			for i := 0; time.Now().Before(stop); i++ {
				set := []string{"mset"}
				for k := 0; k < 30; k++ {
					set = append(set, fmt.Sprint("k", k), fmt.Sprint("v", i%2))
				}
				HandleRequest(&protocol.Receive{Elements: set})
			}
		}()
	}
	get := []string{"mget"}
	for k := 0; k < 30; k++ {
		get = append(get, fmt.Sprint("k", k))
	}
	for time.Now().Before(stop) {
		r := string(HandleRequest(&protocol.Receive{Elements: get}))
		if strings.Contains(r, "v0") && strings.Contains(r, "v1") {
			t.Fatal("half of an MSET seen")
		}
	}
}
'''})
bug('p18-fast-get','P18','a GET while another client writes',
 'GET is executed at once, next to the worker that executes all other commands: reads race with writes',
 [('event/handler.go','''	// event handler handle event one by one
	e := NewEvent(cmd)
''','''	// reading does not have to wait for others
	if cmd.Command == "get" {
		return (<-cmd.ExecuteAsync()).Encode()
	}

	// event handler handle event one by one
	e := NewEvent(cmd)
''')],None,sh=RACE,files={'demo_test.go.txt':'''package event

import (
	"sync"
	"testing"

	"github.com/yusank/godis/protocol"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		for _, r := range [][]string{{"set", "k", "v"}, {"get", "k"}} {
			r := r
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 200; j++ {
					HandleRequest(&protocol.Receive{Elements: r})
				}
			}()
		}
	}
	wg.Wait()
}
'''})
bug('p01-shared-nil','P01','an empty array reply before a nil reply',
 'one response object is shared by all nil replies, and a command turns it into an empty array',
 [('protocol/encode.go','''func NewResponseWithNilBulk() *Response {
	resp := NewResponse(false)
	return resp
}

func NewResponseWithEmptyArray() *Response {
	resp := NewResponse(true)
	return resp
}''','''// empty responses never have items, they are shared
var emptyResponse = NewResponse(false)

func NewResponseWithNilBulk() *Response {
	return emptyResponse
}

func NewResponseWithEmptyArray() *Response {
	resp := NewResponse(true)
	return resp
}'''),('redis/list.go','''	if len(values) == 0 {
		return protocol.NewResponseWithEmptyArray(), nil
	}

	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
}

// lRem .
''','''	rsp := protocol.NewResponseWithNilBulk()
	if len(values) != 0 {
		rsp = protocol.NewResponse().AppendBulkStrings(values...)
	}
	rsp.SetIsArray()

	return rsp, nil
}

// lRem .
''')],PRE+'''
        check(c('GET', 'nosuch'), None, 'GET')
        check(c('LRANGE', 'nosuch', 0, -1), [], 'LRANGE')
        check(c('GET', 'nosuch'), None, 'GET after LRANGE')
''')
