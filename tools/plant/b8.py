from plant import *
exec(open('/tmp/bugs/b4.py').read().split("bug('")[0].split('from plant import *')[1])
b2=open('/tmp/bugs/b2.py').read()
exec(b2[b2.index("SLOW='''"):].split("bug('")[0])
T='''package event

import (
	"testing"
	"time"

	"github.com/yusank/godis/protocol"
)

func TestDemo(t *testing.T) {
	for i := 0; i < %d; i++ {
		go HandleRequest(&protocol.Receive{Elements: []string{"slow", "%d"}})
	}
	time.Sleep(%d * time.Millisecond)
	if r := string(HandleRequest(&protocol.Receive{Elements: []string{"ping"}})); r != "+PONG\\r\\n" {
		t.Error(r)
	}
}
'''
bug('p12-turn-leak','P12','at least four requests that run into the time limit over the life of the server',
 'a request that gives up at its time limit keeps its place among those that may wait: after four of them nobody is served any more',
 [('event/handler.go','''	// wait for result or context timeout
	var rsp *protocol.Response
	select {
	case <-ctx.Done():
		rsp = protocol.NewResponseWithError(ctx.Err())
	case <-e.Done():
''','''	// wait for result or context timeout
	var rsp *protocol.Response
	select {
	case <-ctx.Done():
		rsp = protocol.NewResponseWithError(ctx.Err())
	case <-e.Done():
		<-turns
'''),('event/handler.go','''	// event handler handle event one by one
	e := NewEvent(cmd)
''','''	// event handler handle event one by one, a few may wait for it
	e := NewEvent(cmd)
	select {
	case turns <- struct{}{}:
	case <-ctx.Done():
		return protocol.NewResponseWithError(ctx.Err()).Encode()
	}
'''),('event/handler.go','''// HandleRequest receive''','''// turns are taken by the requests which wait for the worker
var turns = make(chan struct{}, 4)

// HandleRequest receive''')],None,sh=gt('event',slow=True),files={'slow.go.txt':SLOW,'demo_test.go.txt':T%(4,12000,26000)})
bug('p12-breaker','P12','a request that runs into the time limit, then other requests soon after the stall is over',
 'after a time-out all requests are refused for three seconds, although the server could serve them',
 [('event/handler.go','''	case <-ctx.Done():
		rsp = protocol.NewResponseWithError(ctx.Err())
''','''	case <-ctx.Done():
		// do not make it worse
		atomic.StoreInt64(&restUntil, time.Now().Add(3*time.Second).UnixNano())
		rsp = protocol.NewResponseWithError(ctx.Err())
'''),('event/handler.go','''	// event handler handle event one by one
	e := NewEvent(cmd)
''','''	if time.Now().UnixNano() < atomic.LoadInt64(&restUntil) {
		return protocol.NewResponseWithError(errOverloaded).Encode()
	}

	// event handler handle event one by one
	e := NewEvent(cmd)
'''),('event/handler.go','''// HandleRequest receive''','''var (
	errOverloaded = errors.New("ERR server is overloaded")
	restUntil     int64 // requests are refused until then
)

// HandleRequest receive'''),('event/handler.go','''	"context"
''','''	"context"
	"errors"
'''),('event/handler.go','''	"log"
''','''	"log"
	"sync/atomic"
''')],None,sh=gt('event',slow=True),files={'slow.go.txt':SLOW,'demo_test.go.txt':T%(1,10300,10800)})
