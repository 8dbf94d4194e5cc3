from plant import *
exec(open('/tmp/bugs/b4.py').read().split("bug('")[0].split('from plant import *')[1])
RACE=gt('event').replace('go test ','CGO_ENABLED=1 go test -race ')
b2=open('/tmp/bugs/b2.py').read()
exec(b2[b2.index("GO='''"):b2.index("SLOW='''")]); exec(b2[b2.index("V1='''"):b2.index("bug('p17-wg-add'")])
PRE='''from godis import *
with Tmp() as d:
    with Server(build(d)) as s:
        c = s.client()
'''
bug('p14-newest-first','P14','clients that keep the worker busy while somebody else waits for it',
 'the worker takes the newest request first: a client that has waited longest is served only when nobody else asks for anything',
 [('event/worker.go','''	for e := range w.ep.eventChan {
		e.Rsp = <-e.Cmd.ExecuteAsync()
		close(e.done)
	}
''','''	var todo []*Event
	for open := true; open || len(todo) > 0; {
		if len(todo) == 0 {
			e, ok := <-w.ep.eventChan
			if !ok {
				break
			}
			todo = append(todo, e)
		}
		// collect what has come meanwhile, the newest is the one whose data is in the cache
		for more := open; more; {
			select {
			case e, ok := <-w.ep.eventChan:
				if !ok {
					open, more = false, false
					break
				}
				todo = append(todo, e)
			default:
				more = false
			}
		}
		e := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		e.Rsp = <-e.Cmd.ExecuteAsync()
		close(e.done)
	}
''')],None,sh=gt('event',slow=True),files={'slow.go.txt':SLOW,'demo_test.go.txt':'''package event

import (
	"context"
	"sync/atomic"
	"testing"
	"time"

	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/redis"
)

func ask(a ...string) *Event {
	ctx := context.Background()
	e := NewEvent(redis.NewCommandFromReceive(ctx, &protocol.Receive{Elements: a}))
	if err := AddEvent(ctx, e); err != nil {
		panic(err)
	}
	return e
}

func TestDemo(t *testing.T) {
	busy := ask("slow", "300")
	time.Sleep(50 * time.Millisecond)
	var others, seen int64
	stop := make(chan struct{})
	honest := make(chan *Event, 1)
	go func() { honest <- ask("ping") }()
	time.Sleep(50 * time.Millisecond)
	for i := 0; i < 8; i++ {
		go func() {
			for {
				select {
				case <-stop:
					return
				default:
				}
				<-ask("slow", "5").Done()
				atomic.AddInt64(&others, 1)
			}
		}()
	}
	<-busy.Done()
	e := <-honest
	select {
	case <-e.Done():
	case <-time.After(6 * time.Second):
	}
	seen = atomic.LoadInt64(&others)
	close(stop)
	if seen > 200 {
		t.Fatalf("%d requests of others were served while one waited", seen)
	}
}
'''})
bug('p14-two-runners','P14','two clients whose long pipelines are being handled while a third one asks',
 'only two connections are handled at a time, and the event loop waits for a free place',
 [('cmd/server/main.go','''		p := goroutine.Default()
''','''		// more goroutines than this do not make it faster, there is one worker
		p, perr := ants.NewPool(2)
		if perr != nil {
			return nil, perr
		}
'''),('cmd/server/main.go','''	"github.com/panjf2000/gnet/pkg/pool/goroutine"
''','''	"github.com/panjf2000/ants/v2"
''')],'''from godis import *
import threading
with Tmp() as d:
    with Server(build(d)) as s:
        stop = False
        N = 3000
        def greedy():
            c = s.client()
            def feed():
                try:
                    while not stop: c.s.sendall(b'*1\\r\\n$4\\r\\nPING\\r\\n' * N)
                except OSError: pass
            threading.Thread(target=feed, daemon=True).start()
            try:
                while c.s.recv(1 << 16): pass
            except OSError: pass
        for i in range(6): threading.Thread(target=greedy, daemon=True).start()
        time.sleep(1.5)
        worst = 0
        for i in range(4):
            c = s.client()
            c.s.settimeout(8)
            t = time.time()
            try: c('PING')
            except OSError: pass
            worst = max(worst, time.time() - t)
        stop = True
        print('longest wait %.2f s' % worst)
        sys.stdout.flush()
        s.stop()
        if worst > 4: print('FAIL: not served'); os._exit(1)
        os._exit(0)
''')
bug('p02-intern','P02','two arguments of the same length with the same 32-bit FNV hash on any connections',
 'short arguments are kept in a table by their hash, without comparing them: an argument turns into another one that was sent before',
 [('protocol/decode.go','''	r.Elements = append(r.Elements, ele)
''','''	r.Elements = append(r.Elements, intern(ele))
'''),('protocol/decode.go','''func (r *Receive) append(ele''','''// interned keeps one copy of the short strings which come again and again, like keys and fields
var interned = struct {
	sync.Mutex
	m map[uint64]string
}{m: make(map[uint64]string)}

func intern(s string) string {
	if len(s) > 16 {
		return s
	}

	h := fnv.New32a()
	_, _ = h.Write([]byte(s))
	k := uint64(h.Sum32())<<8 | uint64(len(s))

	interned.Lock()
	defer interned.Unlock()
	if old, ok := interned.m[k]; ok {
		return old
	}
	if len(interned.m) < 10000 {
		interned.m[k] = s
	}
	return s
}

func (r *Receive) append(ele'''),('protocol/decode.go','''	"fmt"
	"io"
''','''	"fmt"
	"hash/fnv"
	"io"
'''),('protocol/decode.go','''	"strings"
)''','''	"strings"
	"sync"
)''')],PRE+'''
        def fnv(b):
            h = 2166136261
            for x in b: h = (h ^ x) * 16777619 & 0xffffffff
            return h
        seen = {}
        for i in range(10**7):
            k = b'%06x' % i
            j = seen.setdefault(fnv(k), k)
            if j != k: break
        c('SET', j, 'one')
        c('SET', k, 'two')
        check([c('GET', j), c('GET', k)], ['one', 'two'], 'GET of two keys')
''')
bug('p11-store-deletes-first','P11','SDIFFSTORE, SINTERSTORE or SUNIONSTORE onto an existing key, with a source that is not a set',
 'the destination is emptied before the sources are read: a refused command deletes it',
 [('datastruct/set.go','''func SDiffStore(storeKey string, keys ...string) (int, error) {
''','''// dropTarget frees the old value of storeKey before the new one is computed
func dropTarget(storeKey string, keys []string) {
	for _, key := range keys {
		if key == storeKey {
			// still needed
			return
		}
	}

	defaultCache.keys.Delete(storeKey)
}

func SDiffStore(storeKey string, keys ...string) (int, error) {
	dropTarget(storeKey, keys)
'''),('datastruct/set.go','''func SInterStore(storeKey string, keys ...string) (int, error) {
''','''func SInterStore(storeKey string, keys ...string) (int, error) {
	dropTarget(storeKey, keys)
'''),('datastruct/set.go','''func SUnionStore(storeKey string, keys ...string) (int, error) {
''','''func SUnionStore(storeKey string, keys ...string) (int, error) {
	dropTarget(storeKey, keys)
''')],PRE+'''
        c('SADD', 'a', 'x'); c('SADD', 'dst', 'y'); c('SET', 'str', '1')
        check(isinstance(c('SUNIONSTORE', 'dst', 'a', 'str'), Err), True, 'SUNIONSTORE is refused')
        check(c('SMEMBERS', 'dst'), ['y'], 'the destination afterwards')
''')
bug('p19-encode-once','P19','a debug build and a reply of more than 64 elements',
 'encoding a long reply releases its elements, but the debug build encodes every reply twice: once for the log, then for the client',
 [('protocol/encode.go','''	for _, item := range r.Items {
		item.encode(buf)
	}

	return buf.Bytes()''','''	for _, item := range r.Items {
		item.encode(buf)
	}
	if len(r.Items) > 64 {
		// let go of the values while the client is still reading
		r.Items = nil
	}

	return buf.Bytes()''')],'''from godis import *
with Tmp() as d:
    with Server(build(d, '-tags', 'debug')) as s:
        c = s.client()
        v = [str(i) for i in range(100)]
        c('RPUSH', 'long', *v)
        check(c('LRANGE', 'long', 0, 63), v[:64], 'LRANGE of 64')
        check(c('LRANGE', 'long', 0, -1), v, 'LRANGE of 100')
''')
bug('p20-accept-backoff','P20','many failing accepts in a row or over time',
 'the v1 server waits twice as long after each failed accept, without a limit and without ever starting again from the beginning',
 [('server/v1/server.go','''			log.Println("accept err:", err)
			continue
''','''			log.Println("accept err:", err)
			// it is most likely to fail again at once
			time.Sleep(delay)
			delay *= 2
			continue
'''),('server/v1/server.go','''func (s *Server) handleListener() {
''','''func (s *Server) handleListener() {
	var delay = time.Millisecond
''')], None, sh=GO+V1, files={'demo_test.go.txt':'''package v1

import (
	"bufio"
	"errors"
	"net"
	"testing"
	"time"
)

type flaky struct {
	net.Listener
	fails int
}

func (f *flaky) Accept() (net.Conn, error) {
	if f.fails > 0 {
		f.fails--
		return nil, errors.New("too many open files")
	}
	return f.Listener.Accept()
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := NewServer()
	s.listener = &flaky{l, 16}
	go s.handleListener()
	c, err := net.DialTimeout("tcp", l.Addr().String(), time.Second)
	if err != nil {
		t.Fatal(err)
	}
	c.SetDeadline(time.Now().Add(20 * time.Second))
	c.Write([]byte("*1\\r\\n$4\\r\\nPING\\r\\n"))
	if l, err := bufio.NewReader(c).ReadString('\\n'); err != nil || l != "+PONG\\r\\n" {
		t.Fatal("not served after accept works again:", l, err)
	}
}
'''})
bug('p09-unlink-later','P09','DEL of more than 32 keys while somebody reads or writes them',
 'keys beyond the 32nd of a DEL are removed after the command was answered',
 [('redis/keys.go','''	return protocol.NewResponseWithInteger(int64(cnt)), nil
}

// type''','''	if len(rest) > 0 {
		// the client does not need to wait for all of them
		go func() {
			for _, key := range rest {
				datastruct.Del(key)
			}
		}()
	}

	return protocol.NewResponseWithInteger(int64(cnt)), nil
}

// type'''),('redis/keys.go','''	var cnt int
	for _, key := range c.Values {
		cnt += datastruct.Del(key)
	}
''','''	var (
		cnt  int
		rest = c.Values
		seen = make(map[string]bool)
	)
	for i, key := range c.Values {
		if i < 32 {
			cnt += datastruct.Del(key)
			rest = c.Values[i+1:]
		} else if !seen[key] && datastruct.Exists(key) {
			seen[key] = true
			cnt++
		}
	}
''')],None,sh=gt('event'),files={'demo_test.go.txt':'''package event

import (
	"fmt"
	"runtime"
	"testing"

	"github.com/yusank/godis/protocol"
)

func do(a ...string) string { return string(HandleRequest(&protocol.Receive{Elements: a})) }

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	set, del, has := []string{"MSET"}, []string{"DEL"}, []string{"EXISTS"}
	for i := 0; i < 5000; i++ {
		k := fmt.Sprintf("key%d", i)
		set, del, has = append(set, k, "v"), append(del, k), append(has, k)
	}
	for i := 0; i < 50; i++ {
		do(set...)
		if n := do(del...); n != ":5000\\r\\n" {
			t.Fatal("DEL", n)
		}
		if n := do(has...); n != ":0\\r\\n" {
			t.Fatal("EXISTS after DEL", n)
		}
	}
}
'''})
bug('p18-encode-memo','P18','two or more OK replies encoded at the same time by requests of different connections',
 'all OK replies are the same object, which remembers its encoding: the goroutines of the connections read and write it without any synchronisation',
 [('protocol/encode.go','''	IsArray bool //''','''	memo    []byte
	IsArray bool //'''),('protocol/encode.go','''	buf := new(bytes.Buffer)
	if len(r.Items) == 0 {''','''	if r == okResponse {
		if r.memo == nil {
			r.memo = []byte("+OK\\r\\n")
		}
		return append([]byte(nil), r.memo...)
	}

	buf := new(bytes.Buffer)
	if len(r.Items) == 0 {'''),('protocol/encode.go','''func NewResponseWithSimpleString(str string) *Response {
''','''// okResponse is by far the most frequent one
var okResponse = &Response{Items: []*ResponseItem{{Value: "OK", Type: TypeSimpleStrings}}}

func NewResponseWithSimpleString(str string) *Response {
	if str == "OK" {
		return okResponse
	}

''')],None,sh=RACE,files={'demo_test.go.txt':'''package event

import (
	"strconv"
	"sync"
	"testing"

	"github.com/yusank/godis/protocol"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(k string) {
			defer wg.Done()
			for j := 0; j < 500; j++ {
				HandleRequest(&protocol.Receive{Elements: []string{"SET", k, "v"}})
			}
		}(strconv.Itoa(i))
	}
	wg.Wait()
}
'''})
bug('p03-hot-get','P03','a GET that is being answered while another connection writes the key',
 'replies of GET are kept until the key is written; one that is on its way when the key is written is kept afterwards',
 [('event/handler.go','''	// event handler handle event one by one
	e := NewEvent(cmd)''','''	// some keys are read over and over, do not bother the worker with them
	if cmd.Command == "get" && len(cmd.Values) > 0 {
		if v, ok := hot.Load(cmd.Values[0]); ok {
			return v.([]byte)
		}
		defer func() {
			if len(reply) > 0 && reply[0] == '$' {
				hot.Store(cmd.Values[0], reply)
			}
		}()
	} else {
		defer func() {
			for _, v := range cmd.Values {
				hot.Delete(v)
			}
		}()
	}

	// event handler handle event one by one
	e := NewEvent(cmd)'''),('event/handler.go','func HandleRequest(rec *protocol.Receive) []byte {','func HandleRequest(rec *protocol.Receive) (reply []byte) {'),('event/handler.go','// HandleRequest','''var hot sync.Map // key => reply of GET

// HandleRequest'''),('event/handler.go','''	"log"
''','''	"log"
	"sync"
''')],None,sh=gt('event'),files={'demo_test.go.txt':'''package event

import (
	"fmt"
	"testing"
	"time"

	"github.com/yusank/godis/protocol"
)

func do(a ...string) string { return string(HandleRequest(&protocol.Receive{Elements: a})) }

func TestDemo(t *testing.T) {
	stop := make(chan struct{})
	for i := 0; i < 4; i++ {
		go func() {
			for {
				select {
				case <-stop:
					return
				default:
					do("GET", "k")
				}
			}
		}()
	}
	defer close(stop)
	for i, end := 0, time.Now().Add(8*time.Second); time.Now().Before(end); i++ {
		v := fmt.Sprintf("%08d", i)
		do("SET", "k", v)
		if r := do("GET", "k"); r != "$8\\r\\n"+v+"\\r\\n" {
			t.Fatalf("SET %s, then GET returned %q", v, r)
		}
	}
}
'''})
bug('p06-hsetnx-empty','P06','HSETNX of a field whose value is the empty string',
 'a field with an empty value counts as missing for HSETNX and is overwritten',
 [('datastruct/hash_table.go','''		if h.table.SetIfAbsent(field, v) {
			h.length++
			return 1
		}

		return 0
''','''		old, ok := h.table.Get(field)
		if ok && old != "" {
			return 0
		}

		h.table.Set(field, v)
		if !ok {
			h.length++
		}
		return 1
''')],PRE+'''
        check(c('HSET', 'h', 'f', ''), 1, 'HSET')
        check(c('HSETNX', 'h', 'f', 'x'), 0, 'HSETNX')
        check(c('HGET', 'h', 'f'), '', 'HGET')
''')
bug('p05-diff-few','P05','SDIFFSTORE of a set and one at least nine times smaller',
 'the few members are taken out of the copy without counting them: the stored set has a wrong size, and is not removed when it gets empty',
 [('datastruct/set.go','''	var result = newSet()
	s1.m.Range(func(key string, _ interface{}) bool {
		if !s2.m.Has(key) {
			result.sAdd(key)
		}

		return true
	})
''','''	if s2.length < s1.length/8 {
		// s1 is a copy already, it is cheaper to remove the few
		s2.m.Range(func(key string, _ interface{}) bool {
			s1.m.Delete(key)
			return true
		})
		return s1
	}

	var result = newSet()
	s1.m.Range(func(key string, _ interface{}) bool {
		if !s2.m.Has(key) {
			result.sAdd(key)
		}

		return true
	})
''')],PRE+'''
        c('SADD', 'a', *range(20)); c('SADD', 'b', 3)
        check(c('SDIFFSTORE', 'd', 'a', 'b'), 19, 'SDIFFSTORE')
        check(c('SCARD', 'd'), 19, 'SCARD')
''')
bug('p04-rpop-all','P04','RPOP with a count that takes the whole list',
 'a list that is popped as a whole comes in its own order instead of from the tail',
 [('datastruct/list.go','''	defer func() { delIfEmpty(key, list.length) }()

	for count > 0 && list.length > 0 {
		value, ok := list.RPop()''','''	defer func() { delIfEmpty(key, list.length) }()

	if count > 1 && count >= list.length {
		// no need to take them one by one
		values = list.LRange(0, -1)
		list.head, list.tail, list.length = nil, nil, 0
		return
	}

	for count > 0 && list.length > 0 {
		value, ok := list.RPop()''')],PRE+'''
        c('RPUSH', 'l', 'a', 'b', 'c', 'd')
        check(c('RPOP', 'l', 2), ['d', 'c'], 'RPOP 2 of 4')
        check(c('RPOP', 'l', 2), ['b', 'a'], 'RPOP 2 of 2')
''')
bug('p07-tiny-change','P07','ZADD or ZINCR that changes a score by less than 1e-9',
 'a score that changes by very little is not updated, and ZINCR of many tiny amounts stands still',
 [('datastruct/sorted_set.go','''	if score != oldScore {
		node''','''	if math.Abs(score-oldScore) > 1e-9 || math.IsInf(score, 0) != math.IsInf(oldScore, 0) {
		node''')],PRE+'''
        c('ZADD', 'z', '1e-10', 'a', '2e-10', 'b')
        c('ZADD', 'z', '3e-10', 'a')
        check(c('ZRANGE', 'z', 0, -1), ['b', 'a'], 'ZRANGE')
''')
