From 52e93d61a9ca1ffe87ab921a6c6900ab52bd23b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 01/47] fix: read the whole bulk string even when it arrives in
 several packets

---
 protocol/decode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 20cfcf0..91d5c56 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -165,7 +165,8 @@ func (r *Receive) readBulkStrings(rr Reader, ln int) error {
 	}
 
 	val := make([]byte, ln+2)
-	_, err := rr.Read(val)
+	// Read may return less than len(val) when the value spans several packets
+	_, err := io.ReadFull(rr, val)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 64179dc0b5b2aad15b238bccbffb309477000280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 02/47] fix: reject malformed, negative, huge and nested
 lengths instead of crashing

---
 protocol/consts.go |  5 +++++
 protocol/decode.go | 47 +++++++++++++++++++++++++---------------------
 2 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/protocol/consts.go b/protocol/consts.go
index 7f9f1c1..5b17056 100644
--- a/protocol/consts.go
+++ b/protocol/consts.go
@@ -15,6 +15,11 @@ const (
 	CRLFLen = len(CRLF)
 )
 
+const (
+	maxBulkLength  = 512 * 1024 * 1024 // max length of single bulk string
+	maxArrayLength = 1024 * 1024       // max element count of single request
+)
+
 type ProtocolDataType int8
 
 const (
diff --git a/protocol/decode.go b/protocol/decode.go
index 91d5c56..a31edc2 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -1,11 +1,13 @@
 package protocol
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
 	"log"
 	"net"
+	"strconv"
 	"strings"
 )
 
@@ -129,7 +131,10 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 	switch desc {
 	// bulk string
 	case DescriptionBulkStrings, descriptionArrays:
-		length = readBulkOrArrayLength(line)
+		length, err = readBulkOrArrayLength(line)
+		if err != nil {
+			return 0, 0, err
+		}
 	case DescriptionSimpleStrings, DescriptionErrors, DescriptionIntegers:
 		r.append(string(line[1:len(line)-CRLFLen]), "")
 		//str = string(line[1 : len(line)-CRLFLen])
@@ -144,33 +149,35 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 	return
 }
 
-func readBulkOrArrayLength(line []byte) int {
-	if line[0] == '-' {
-		return -1
+// readBulkOrArrayLength parse the length out of a `$<len>\r\n` or `*<len>\r\n` line
+func readBulkOrArrayLength(line []byte) (int, error) {
+	var limit = maxBulkLength
+	if line[0] == descriptionArrays {
+		limit = maxArrayLength
 	}
 
-	var (
-		ln int
-	)
-	for i := 1; line[i] != '\r'; i++ {
-		ln = (ln * 10) + int(line[i]-'0')
+	str := strings.TrimSuffix(string(line[1:]), CRLF)
+	ln, err := strconv.ParseUint(str, 10, 32)
+	if err != nil || int(ln) > limit {
+		return 0, fmt.Errorf("invalid length: %q", line)
 	}
 
-	return ln
+	return int(ln), nil
 }
 
 func (r *Receive) readBulkStrings(rr Reader, ln int) error {
-	if ln < 0 {
-		return fmt.Errorf("invalid length")
-	}
-
-	val := make([]byte, ln+2)
-	// Read may return less than len(val) when the value spans several packets
-	_, err := io.ReadFull(rr, val)
+	// the value may span several packets, and ln is what the client declares: do not allocate before it really comes
+	buf := new(bytes.Buffer)
+	_, err := io.CopyN(buf, rr, int64(ln+CRLFLen))
 	if err != nil {
 		return err
 	}
 
+	val := buf.Bytes()
+	if string(val[ln:]) != CRLF {
+		return fmt.Errorf("invalid bulk string: expect CRLF at the end")
+	}
+
 	// trim last \r\n
 	r.append(string(val[:ln]), string(val))
 
@@ -185,10 +192,8 @@ func (r *Receive) readArray(rr Reader, ln int) error {
 		}
 
 		if line[0] == descriptionArrays {
-			subErr := r.readArray(rr, readBulkOrArrayLength(line))
-			if subErr != nil {
-				return subErr
-			}
+			// A client request is an array consisting of just bulk strings
+			return fmt.Errorf("unsupported nested array")
 		}
 
 		length, desc, err := r.decodeSingleLine(line)
-- 
2.43.0


From 650fef500805d2162f14541cc3f5822d8f63ec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 03/47] fix: a request line has to end with CRLF, keep inline
 PING once in OrgStr

---
 protocol/decode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index a31edc2..a16bc98 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -121,7 +121,7 @@ func DecodeFromReader(r Reader) (rec *Receive, err error) {
 }
 
 func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err error) {
-	if len(line) < 3 {
+	if len(line) < 3 || !bytes.HasSuffix(line, []byte(CRLF)) {
 		return 0, 0, fmt.Errorf("unsupported protocol")
 	}
 
@@ -140,7 +140,8 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 		//str = string(line[1 : len(line)-CRLFLen])
 	default:
 		if string(line) == "PING\r\n" {
-			r.append("PING", "PING\r\n")
+			// the line is already in OrgStr
+			r.append("PING", "")
 			return 0, DescriptionSimpleStrings, nil
 		}
 		return 0, 0, fmt.Errorf("unsupport protocol: %s", string(line))
-- 
2.43.0


From ec4893a5b0ef40910d25f7174c95b9348cdd72a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 04/47] fix: recover from a panic while executing a command

---
 redis/command.go | 12 +++++++-----
 redis/consts.go  |  1 +
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/redis/command.go b/redis/command.go
index b2fe090..4d4c041 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -45,11 +45,13 @@ func (c *Command) ExecuteAsync() chan *protocol.Response {
 
 	go func() {
 		defer close(rspChan)
-		//defer func() {
-		//	if recover() != nil {
-		//		log.Println(c.Command, c.Values)
-		//	}
-		//}()
+		// a single broken command should never take the whole server down
+		defer func() {
+			if r := recover(); r != nil {
+				log.Println("panic:", r, c.Command, c.Values)
+				c.setRsp(nil, ErrInternal, rspChan)
+			}
+		}()
 		f, ok := implementedCommands[c.Command]
 		if !ok {
 			c.setRsp(nil, ErrUnknownCommand, rspChan)
diff --git a/redis/consts.go b/redis/consts.go
index eb487e8..b96e521 100644
--- a/redis/consts.go
+++ b/redis/consts.go
@@ -4,6 +4,7 @@ import "errors"
 
 var (
 	ErrUnknownCommand       = errors.New("unknown command key")
+	ErrInternal             = errors.New("ERR internal error")
 	ErrCommandArgsNotEnough = errors.New("command args not enough")
 	ErrValueOutOfRange      = errors.New(" ERR value is out of range, must be positive")
 )
-- 
2.43.0


From 52727e8340883176288b92faffd3b5b2c365addf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 05/47] fix: stopping the event pool neither panics nor drops
 accepted events

---
 event/event_pool.go | 37 ++++++++++++++++++++++++++++++-------
 event/handler.go    |  4 +++-
 event/worker.go     | 28 +++++++---------------------
 3 files changed, 40 insertions(+), 29 deletions(-)

diff --git a/event/event_pool.go b/event/event_pool.go
index 489aab0..e52590a 100644
--- a/event/event_pool.go
+++ b/event/event_pool.go
@@ -1,13 +1,21 @@
 package event
 
 import (
+	"context"
+	"errors"
 	"sync"
 )
 
+// ErrStopped returned when the pool does not accept events anymore
+var ErrStopped = errors.New("ERR server is shutting down")
+
 type EventPool struct {
 	eventChan chan *Event
 	workers   []*worker
 	wg        *sync.WaitGroup
+
+	mu      sync.RWMutex // protect eventChan against sending after close
+	stopped bool
 }
 
 func NewEventPool() *EventPool {
@@ -20,15 +28,30 @@ func NewEventPool() *EventPool {
 	return ep
 }
 
-func (ep *EventPool) AddEvent(e *Event) {
-	ep.eventChan <- e
+// AddEvent put event into the pool, give up if ctx is done or pool is stopped.
+func (ep *EventPool) AddEvent(ctx context.Context, e *Event) error {
+	ep.mu.RLock()
+	defer ep.mu.RUnlock()
+	if ep.stopped {
+		return ErrStopped
+	}
+
+	select {
+	case ep.eventChan <- e:
+		return nil
+	case <-ctx.Done():
+		return ctx.Err()
+	}
 }
 
+// Stop accepting events and wait until all accepted events have been handled.
 func (ep *EventPool) Stop() {
-	close(ep.eventChan)
-	for _, w := range ep.workers {
-		w.stop()
+	ep.mu.Lock()
+	if !ep.stopped {
+		ep.stopped = true
+		close(ep.eventChan)
 	}
+	ep.mu.Unlock()
 
 	ep.wg.Wait()
 }
@@ -56,8 +79,8 @@ func SetGlobalEventPool(ep *EventPool) {
 	globalEventPool = ep
 }
 
-func AddEvent(e *Event) {
-	globalEventPool.AddEvent(e)
+func AddEvent(ctx context.Context, e *Event) error {
+	return globalEventPool.AddEvent(ctx, e)
 }
 
 func Stop() {
diff --git a/event/handler.go b/event/handler.go
index 0ae9d66..cabd852 100644
--- a/event/handler.go
+++ b/event/handler.go
@@ -33,7 +33,9 @@ func HandleRequest(rec *protocol.Receive) []byte {
 
 	// event handler handle event one by one
 	e := NewEvent(cmd)
-	AddEvent(e)
+	if err := AddEvent(ctx, e); err != nil {
+		return protocol.NewResponseWithError(err).Encode()
+	}
 
 	// wait for result or context timeout
 	var rsp *protocol.Response
diff --git a/event/worker.go b/event/worker.go
index 6e3bf51..7970a14 100644
--- a/event/worker.go
+++ b/event/worker.go
@@ -6,37 +6,23 @@ import (
 )
 
 type worker struct {
-	ep   *EventPool
-	done chan bool
+	ep *EventPool
 }
 
 func newWorker(ep *EventPool) *worker {
 	return &worker{
-		ep:   ep,
-		done: make(chan bool, 1),
+		ep: ep,
 	}
 }
 
+// run until eventChan is closed and drained
 func (w *worker) run(wg *sync.WaitGroup) {
 	defer wg.Done()
 
-	for {
-		select {
-		case <-w.done:
-			log.Println("worker done")
-			return
-		case e := <-w.ep.eventChan:
-			if e == nil {
-				return
-			}
-
-			e.Rsp = <-e.Cmd.ExecuteAsync()
-			close(e.done)
-		}
+	for e := range w.ep.eventChan {
+		e.Rsp = <-e.Cmd.ExecuteAsync()
+		close(e.done)
 	}
-}
 
-func (w *worker) stop() {
-	w.done <- true
-	close(w.done)
+	log.Println("worker done")
 }
-- 
2.43.0


From 7b136a491a9adff4938164f78b5cf551236b96a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 06/47] fix: handle fragmented, pipelined and malformed
 requests, reply in order

---
 server/v2/server.go  |  27 ++++-------
 server/v2/session.go | 111 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 120 insertions(+), 18 deletions(-)
 create mode 100644 server/v2/session.go

diff --git a/server/v2/server.go b/server/v2/server.go
index 69b9fec..5ead185 100644
--- a/server/v2/server.go
+++ b/server/v2/server.go
@@ -1,7 +1,6 @@
 package v2
 
 import (
-	"bytes"
 	"context"
 	"log"
 	"time"
@@ -10,7 +9,6 @@ import (
 	"github.com/panjf2000/gnet/pkg/pool/goroutine"
 
 	"github.com/yusank/godis/event"
-	"github.com/yusank/godis/protocol"
 )
 
 type Server struct {
@@ -42,25 +40,18 @@ func (s *Server) Stop() {
 }
 
 func (s *Server) React(frame []byte, c gnet.Conn) (out []byte, action gnet.Action) {
-	var data = make([]byte, len(frame))
-	copy(data, frame)
+	c.Context().(*session).feed(frame)
 
-	_ = s.pool.Submit(func() {
-		buf := bytes.NewBuffer(data)
-		rec, err := protocol.DecodeFromReader(buf)
-		if err != nil {
-			log.Println(err)
-			return
-		}
-
-		reply := event.HandleRequest(rec)
-		if len(reply) == 0 {
-			return
-		}
+	return
+}
 
-		_ = c.AsyncWrite(reply)
-	})
+func (s *Server) OnOpened(c gnet.Conn) (out []byte, action gnet.Action) {
+	c.SetContext(&session{srv: s, conn: c})
+	return
+}
 
+func (s *Server) OnClosed(c gnet.Conn, err error) (action gnet.Action) {
+	c.Context().(*session).close()
 	return
 }
 
diff --git a/server/v2/session.go b/server/v2/session.go
new file mode 100644
index 0000000..d8648b2
--- /dev/null
+++ b/server/v2/session.go
@@ -0,0 +1,111 @@
+package v2
+
+import (
+	"bytes"
+	"errors"
+	"io"
+	"log"
+	"sync"
+
+	"github.com/panjf2000/gnet"
+
+	"github.com/yusank/godis/event"
+	"github.com/yusank/godis/protocol"
+)
+
+var errProtocol = errors.New("ERR Protocol error")
+
+// session keeps the received but not yet handled data of a connection.
+// Requests of a connection are handled one by one, so replies keep the order of requests.
+type session struct {
+	srv  *Server
+	conn gnet.Conn
+
+	mu      sync.Mutex
+	data    []byte // received data, may contain part of a request or several requests
+	running bool   // there is a goroutine handling the data
+	closed  bool
+}
+
+// feed append data to session and start handling if necessary
+func (s *session) feed(frame []byte) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.closed {
+		return
+	}
+
+	s.data = append(s.data, frame...)
+	if s.running {
+		return
+	}
+
+	s.running = true
+	if err := s.srv.pool.Submit(s.run); err != nil {
+		// pool is overloaded, do not lose the request
+		go s.run()
+	}
+}
+
+// run handle all complete requests
+func (s *session) run() {
+	for {
+		rec, err := s.next()
+		if err != nil {
+			log.Println(err)
+			_ = s.conn.AsyncWrite(protocol.NewResponseWithError(errProtocol).Encode())
+			_ = s.conn.Close()
+			return
+		}
+
+		if rec == nil {
+			return
+		}
+
+		if reply := event.HandleRequest(rec); len(reply) > 0 {
+			_ = s.conn.AsyncWrite(reply)
+		}
+	}
+}
+
+// next return next complete request, return nil and stop running if there is none.
+// no more data will be handled after it returns an error.
+func (s *session) next() (*protocol.Receive, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.closed {
+		return nil, nil
+	}
+
+	buf := bytes.NewBuffer(s.data)
+	rec, err := protocol.DecodeFromReader(buf)
+	if err == nil {
+		s.data = buf.Bytes()
+		return rec, nil
+	}
+
+	if !errors.Is(err, io.EOF) {
+		s.closed = true
+		s.data = nil
+		return nil, err
+	}
+
+	// request is not complete, wait for the rest
+	s.running = false
+	if len(s.data) == 0 {
+		s.data = nil
+	}
+
+	return nil, nil
+}
+
+// close drop all data which not handled yet
+func (s *session) close() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	s.closed = true
+	s.data = nil
+}
-- 
2.43.0


From c96e1f872f11222424a0f72202d5c04b973f1ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 07/47] fix: graceful stop answers received requests, stop
 works before and while starting

---
 server/v2/server.go  | 90 ++++++++++++++++++++++++++++++++++++++++++--
 server/v2/session.go | 14 +++++++
 2 files changed, 101 insertions(+), 3 deletions(-)

diff --git a/server/v2/server.go b/server/v2/server.go
index 5ead185..bdee4f9 100644
--- a/server/v2/server.go
+++ b/server/v2/server.go
@@ -3,9 +3,12 @@ package v2
 import (
 	"context"
 	"log"
+	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/panjf2000/gnet"
+	gerrors "github.com/panjf2000/gnet/pkg/errors"
 	"github.com/panjf2000/gnet/pkg/pool/goroutine"
 
 	"github.com/yusank/godis/event"
@@ -15,17 +18,27 @@ type Server struct {
 	*gnet.EventServer
 	pool *goroutine.Pool
 	addr string
+
+	sessions sync.Map      // gnet.Conn => *session
+	stopping int32         // set to 1 when the server is asked to stop
+	started  chan struct{} // closed when Start is called
+	done     chan struct{} // closed when Start returns
 }
 
 func NewServer(p *goroutine.Pool) *Server {
 	return &Server{
 		EventServer: nil,
 		pool:        p,
+		started:     make(chan struct{}),
+		done:        make(chan struct{}),
 	}
 }
 
 func (s *Server) Start(addr string) error {
+	defer close(s.done)
+
 	s.addr = addr
+	close(s.started)
 	log.Println("listen: ", addr)
 	return gnet.Serve(s, addr, gnet.WithMulticore(true), gnet.WithReusePort(true))
 }
@@ -34,23 +47,94 @@ func (s *Server) Stop() {
 	log.Println("graceful shutting down...")
 	ctx, cancel := context.WithTimeout(context.Background(), time.Second*5)
 	defer cancel()
-	if err := gnet.Stop(ctx, s.addr); err != nil {
+
+	atomic.StoreInt32(&s.stopping, 1)
+	select {
+	case <-s.started:
+	case <-ctx.Done():
+		return
+	}
+
+	s.drain(ctx)
+	// gnet knows nothing about the server until all event loops are running
+	err := gnet.Stop(ctx, s.addr)
+	for err == gerrors.ErrServerInShutdown && s.wait(ctx) {
+		err = gnet.Stop(ctx, s.addr)
+	}
+	if err != nil && err != gerrors.ErrServerInShutdown {
 		log.Println("stop with err:", err)
 	}
 }
 
+// drain let all connections finish the requests they have already sent
+func (s *Server) drain(ctx context.Context) {
+	s.sessions.Range(func(c, _ interface{}) bool {
+		_ = c.(gnet.Conn).Wake()
+		return true
+	})
+
+	for s.hasSession() && s.wait(ctx) {
+	}
+}
+
+func (s *Server) hasSession() (has bool) {
+	s.sessions.Range(func(_, _ interface{}) bool {
+		has = true
+		return false
+	})
+	return
+}
+
+// wait a moment, return false if server is stopped or ctx is done
+func (s *Server) wait(ctx context.Context) bool {
+	select {
+	case <-s.done:
+		return false
+	case <-ctx.Done():
+		return false
+	case <-time.After(10 * time.Millisecond):
+		return true
+	}
+}
+
+func (s *Server) draining() bool {
+	return atomic.LoadInt32(&s.stopping) == 1
+}
+
+// OnInitComplete stop called before server is ready
+func (s *Server) OnInitComplete(srv gnet.Server) (action gnet.Action) {
+	if s.draining() {
+		return gnet.Shutdown
+	}
+
+	return gnet.None
+}
+
 func (s *Server) React(frame []byte, c gnet.Conn) (out []byte, action gnet.Action) {
-	c.Context().(*session).feed(frame)
+	sess := c.Context().(*session)
+	if len(frame) == 0 {
+		// woken up by drain
+		sess.drain()
+		return
+	}
 
+	sess.feed(frame)
 	return
 }
 
 func (s *Server) OnOpened(c gnet.Conn) (out []byte, action gnet.Action) {
-	c.SetContext(&session{srv: s, conn: c})
+	sess := &session{srv: s, conn: c}
+	c.SetContext(sess)
+	s.sessions.Store(c, sess)
+	if s.draining() {
+		return nil, gnet.Close
+	}
+
 	return
 }
 
 func (s *Server) OnClosed(c gnet.Conn, err error) (action gnet.Action) {
+	s.sessions.Delete(c)
 	c.Context().(*session).close()
 	return
 }
diff --git a/server/v2/session.go b/server/v2/session.go
index d8648b2..25d5b43 100644
--- a/server/v2/session.go
+++ b/server/v2/session.go
@@ -97,10 +97,24 @@ func (s *session) next() (*protocol.Receive, error) {
 	if len(s.data) == 0 {
 		s.data = nil
 	}
+	if s.srv.draining() {
+		// AsyncWrite and Close are executed in order, so no reply get lost
+		_ = s.conn.Close()
+	}
 
 	return nil, nil
 }
 
+// drain close the connection as soon as all received requests are handled
+func (s *session) drain() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if !s.running {
+		_ = s.conn.Close()
+	}
+}
+
 // close drop all data which not handled yet
 func (s *session) close() {
 	s.mu.Lock()
-- 
2.43.0


From 449e63806dbbe9dd6eb8a54c4a969c89c6ecadd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 08/47] fix: MSET with a key but no value is an error

---
 redis/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/string.go b/redis/string.go
index 150b931..e171016 100644
--- a/redis/string.go
+++ b/redis/string.go
@@ -20,7 +20,7 @@ func set(c *Command) (*protocol.Response, error) {
 
 // mSet .
 func mSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 2 && len(c.Values)%2 != 0 {
+	if len(c.Values) < 2 || len(c.Values)%2 != 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-- 
2.43.0


From 37e8a531303b393893219a564e0d261f43a974b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 09/47] fix: increments report an overflow instead of wrapping
 around

---
 datastruct/hash_table.go |  7 ++++++-
 datastruct/string.go     | 11 ++++++++++-
 redis/string.go          |  6 ++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 8194fe8..a603384 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -75,7 +75,12 @@ func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 			return ErrNotInteger, true
 		}
 
-		return i64 + newValue.(int64), false
+		sum, ok := addInt64(i64, newValue.(int64))
+		if !ok {
+			return ErrNotInteger, true
+		}
+
+		return sum, false
 	})
 
 	if abort {
diff --git a/datastruct/string.go b/datastruct/string.go
index b2bc8e7..b8d58fd 100644
--- a/datastruct/string.go
+++ b/datastruct/string.go
@@ -53,12 +53,21 @@ func IncrBy(key string, incrBy int64) (value int64, err error) {
 	if err1 != nil {
 		return 0, ErrNotInteger
 	}
-	value = i64 + incrBy
+	value, ok = addInt64(i64, incrBy)
+	if !ok {
+		return 0, ErrNotInteger
+	}
 	info.Value = strconv.FormatInt(value, 10)
 
 	return
 }
 
+// addInt64 return false if sum overflows
+func addInt64(a, b int64) (int64, bool) {
+	sum := a + b
+	return sum, (sum > a) == (b > 0)
+}
+
 func Get(key string) (string, error) {
 	v, ok := defaultCache.keys.Get(key)
 	if !ok {
diff --git a/redis/string.go b/redis/string.go
index e171016..aadab99 100644
--- a/redis/string.go
+++ b/redis/string.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 
 	"github.com/yusank/godis/datastruct"
@@ -109,6 +110,11 @@ func decrBy(c *Command) (*protocol.Response, error) {
 		return nil, datastruct.ErrNotInteger
 	}
 
+	// can not be negated
+	if decrement == math.MinInt64 {
+		return nil, datastruct.ErrNotInteger
+	}
+
 	i64, err := datastruct.IncrBy(c.Values[0], -decrement)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2bc232dd791b65f640797f618f08ecbc95919fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 10/47] fix: MGET returns nil for keys of other types

---
 datastruct/string.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/datastruct/string.go b/datastruct/string.go
index b8d58fd..19af193 100644
--- a/datastruct/string.go
+++ b/datastruct/string.go
@@ -88,13 +88,9 @@ func MGet(keys ...string) []interface{} {
 
 	for _, key := range keys {
 		val, err := Get(key)
-		if err == ErrNil {
-			result = append(result, nil)
-			continue
-		}
-
+		// nil for every key that does not hold a string value
 		if err != nil {
-			result = append(result, err)
+			result = append(result, nil)
 			continue
 		}
 
-- 
2.43.0


From 6c01078f158f98a742187ddf952a1a0bc62c4b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 11/47] fix: DEL and EXISTS handle all given keys, not only the
 first one

---
 redis/keys.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/redis/keys.go b/redis/keys.go
index b8f4b0f..2cb49b7 100644
--- a/redis/keys.go
+++ b/redis/keys.go
@@ -23,13 +23,14 @@ func exists(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	found := datastruct.Exists(c.Values[0])
-	rsp := protocol.NewResponseWithInteger(0)
-	if found {
-		rsp = protocol.NewResponseWithInteger(1)
+	var cnt int64
+	for _, key := range c.Values {
+		if datastruct.Exists(key) {
+			cnt++
+		}
 	}
 
-	return rsp, nil
+	return protocol.NewResponseWithInteger(cnt), nil
 }
 
 // del .
@@ -38,7 +39,11 @@ func del(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	cnt := datastruct.Del(c.Values[0])
+	var cnt int
+	for _, key := range c.Values {
+		cnt += datastruct.Del(key)
+	}
+
 	return protocol.NewResponseWithInteger(int64(cnt)), nil
 }
 
-- 
2.43.0


From 2b9d39dce8e9b4d54348dea7ff82cbf8859e290a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 12/47] fix: TYPE returns the type names clients know

---
 datastruct/consts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datastruct/consts.go b/datastruct/consts.go
index 194e231..02ee5e4 100644
--- a/datastruct/consts.go
+++ b/datastruct/consts.go
@@ -9,9 +9,9 @@ type KeyType string
 const (
 	KeyTypeString    KeyType = "string"
 	KeyTypeList      KeyType = "list"
-	KeyTypeSet       KeyType = "setIfNotExists"
-	KeyTypeSortedSet KeyType = "sortedSet"
-	KeyTypeHashTable KeyType = "hashTable"
+	KeyTypeSet       KeyType = "set"
+	KeyTypeSortedSet KeyType = "zset"
+	KeyTypeHashTable KeyType = "hash"
 )
 
 var (
-- 
2.43.0


From 393aaa5b33afe6e3015aba439449a34fcc37a275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 13/47] fix: KEYS with an invalid pattern is an error, not a
 panic

---
 datastruct/consts.go | 1 +
 datastruct/keys.go   | 8 ++++++--
 redis/keys.go        | 6 +++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/datastruct/consts.go b/datastruct/consts.go
index 02ee5e4..4c4e702 100644
--- a/datastruct/consts.go
+++ b/datastruct/consts.go
@@ -19,6 +19,7 @@ var (
 	ErrKeyAndCommandNotMatch = errors.New("key type and command not match")
 	ErrNotInteger            = errors.New("value is not an integer or out of range")
 	ErrNotFloat              = errors.New("ERR value is not a valid float")
+	ErrInvalidPattern        = errors.New("ERR invalid pattern")
 )
 
 // zAdd flags
diff --git a/datastruct/keys.go b/datastruct/keys.go
index 5985a41..0e6c115 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -59,8 +59,12 @@ func Type(key string) (kt KeyType, found bool) {
 	return v.(*KeyInfo).Type, true
 }
 
-func Keys(pattern string) (keys []string) {
-	g := glob.MustCompile(pattern)
+func Keys(pattern string) (keys []string, err error) {
+	g, err := glob.Compile(pattern)
+	if err != nil {
+		return nil, ErrInvalidPattern
+	}
+
 	defaultCache.keys.Range(func(key string, _ interface{}) bool {
 		if g.Match(key) {
 			keys = append(keys, key)
diff --git a/redis/keys.go b/redis/keys.go
index 2cb49b7..29dfed0 100644
--- a/redis/keys.go
+++ b/redis/keys.go
@@ -14,7 +14,11 @@ func keys(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	values := datastruct.Keys(c.Values[0])
+	values, err := datastruct.Keys(c.Values[0])
+	if err != nil {
+		return nil, err
+	}
+
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
 }
 
-- 
2.43.0


From 09a41fbc99f7987ca16a4ae150df8f0643efe8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 14/47] fix: LINDEX looks up the key, not the index

---
 redis/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/list.go b/redis/list.go
index 84d3326..5a6d262 100644
--- a/redis/list.go
+++ b/redis/list.go
@@ -166,7 +166,7 @@ func lIndex(c *Command) (*protocol.Response, error) {
 		return nil, ErrValueOutOfRange
 	}
 
-	val, err := datastruct.LIndex(c.Values[1], index)
+	val, err := datastruct.LIndex(c.Values[0], index)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithNilBulk(), nil
 	}
-- 
2.43.0


From d909ff121fb9807be2a3bd443e2d2bfbe584e937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 15/47] fix: LREM keeps no dummy node in an emptied list

---
 datastruct/list.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datastruct/list.go b/datastruct/list.go
index 054d941..370891d 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -218,6 +218,10 @@ func (l *List) LRemCountFromHead(value string, n int) (cnt int) {
 	}
 
 	l.head = dumbHead.next
+	if l.head == nil {
+		// all elements are removed, dumbHead is not part of the list
+		l.tail = nil
+	}
 	if l.head != nil {
 		// if remove first element from, dumbHead.next.prev will be point to dumbHead
 		// // In other words, l.head.tail will be not nil
@@ -270,6 +274,10 @@ func (l *List) LRemCountFromTail(value string, n int) (cnt int) {
 	}
 
 	l.tail = dumbTail.prev
+	if l.tail == nil {
+		// all elements are removed, dumbTail is not part of the list
+		l.head = nil
+	}
 	if l.tail != nil {
 		// if remove first element from tail, dumbTail.prev.next will be point to dumbTail
 		// In other words, l.tail.next will be not nil
-- 
2.43.0


From 3ea3bcfda7e87bf73ea37e88dcf73b26c44dfdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 16/47] fix: remove the key of an emptied list

---
 datastruct/keys.go | 7 +++++++
 datastruct/list.go | 5 ++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/datastruct/keys.go b/datastruct/keys.go
index 0e6c115..c2fa47f 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -75,6 +75,13 @@ func Keys(pattern string) (keys []string, err error) {
 	return
 }
 
+// delIfEmpty remove the key if there is no element left
+func delIfEmpty(key string, length int) {
+	if length == 0 {
+		defaultCache.keys.Delete(key)
+	}
+}
+
 func Del(key string) int {
 	remove := defaultCache.keys.DeleteIfExists(key)
 
diff --git a/datastruct/list.go b/datastruct/list.go
index 370891d..16ba545 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -470,6 +470,7 @@ func LPop(key string, count int) (values []string, err error) {
 	if err != nil {
 		return nil, err
 	}
+	defer func() { delIfEmpty(key, list.length) }()
 
 	for count > 0 && list.length > 0 {
 		value, ok := list.LPop()
@@ -508,10 +509,11 @@ func RPush(key string, values ...string) (ln int, err error) {
 }
 
 func RPop(key string, count int) (values []string, err error) {
-	list, err := loadAndCheckList(key, false)
+	list, err := loadAndCheckList(key, true)
 	if err != nil {
 		return nil, err
 	}
+	defer func() { delIfEmpty(key, list.length) }()
 
 	for count > 0 && list.length > 0 {
 		value, ok := list.RPop()
@@ -552,6 +554,7 @@ func LRem(key string, count int, value string) (n int, err error) {
 	if err != nil {
 		return 0, err
 	}
+	defer func() { delIfEmpty(key, list.length) }()
 
 	if count > 0 {
 		return list.LRemCountFromHead(value, count), nil
-- 
2.43.0


From 9c60da69ee8c40d5aedc36fae62bc78cc3420321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 17/47] fix: SPOP pops one member by default and keeps the
 cardinality right

---
 datastruct/set.go | 1 +
 redis/set.go      | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index fd71b59..5969041 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -46,6 +46,7 @@ func (s *set) sPop(cnt int) []string {
 
 		result = append(result, key)
 		cnt--
+		s.length--
 		return true, true
 	})
 
diff --git a/redis/set.go b/redis/set.go
index c30ea54..a8dddce 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -228,7 +228,7 @@ func SPop(c *Command) (*protocol.Response, error) {
 
 	var (
 		key = c.Values[0]
-		cnt int
+		cnt = 1
 		err error
 	)
 
-- 
2.43.0


From 871e87137e7edb213ac21b8d9dc544c8d8913539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 18/47] fix: SMOVE checks the target first, keeps lengths;
 remove the key of an emptied set

---
 datastruct/set.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 5969041..2bbf955 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -147,6 +147,7 @@ func SRem(key string, values ...string) (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	defer func() { delIfEmpty(key, s.length) }()
 
 	var cnt int
 	for _, value := range values {
@@ -186,13 +187,28 @@ func SMove(source, target, value string) (int, error) {
 		return 0, err
 	}
 
-	exists := sset.m.DeleteIfExists(value)
-	if !exists {
+	// check target before removing the value from source
+	tset, err := loadAndCheckSet(target, false)
+	if err != nil && err != ErrNil {
+		return 0, err
+	}
+
+	if sset.sRem(value) == 0 {
 		// not exist
 		return 0, ErrNil
 	}
 
-	return SAdd(target, value)
+	if sset == tset {
+		tset.sAdd(value)
+		return 1, nil
+	}
+
+	delIfEmpty(source, sset.length)
+	if _, err = SAdd(target, value); err != nil {
+		return 0, err
+	}
+
+	return 1, nil
 }
 
 func SDiff(keys ...string) ([]string, error) {
@@ -362,6 +378,8 @@ func SPop(key string, cnt int) ([]string, error) {
 		return nil, err
 	}
 
+	defer func() { delIfEmpty(key, s.length) }()
+
 	return s.sPop(cnt), nil
 }
 
-- 
2.43.0


From 9b0d1cae30d9288f98464ca3a0150596c9788bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 19/47] fix: set operations treat missing keys as empty sets
 and store independent results

---
 datastruct/set.go | 165 ++++++++++++++++------------------------------
 redis/set.go      |  24 -------
 2 files changed, 55 insertions(+), 134 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 2bbf955..ef9c93b 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -211,78 +211,74 @@ func SMove(source, target, value string) (int, error) {
 	return 1, nil
 }
 
-func SDiff(keys ...string) ([]string, error) {
+// combineSets combine sets one by one into a new set, a key which not exists is an empty set.
+func combineSets(combine func(s1, s2 *set) *set, keys ...string) (*set, error) {
 	var result *set
-
-	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
-		if err != nil {
+	for _, key := range keys {
+		s, err := loadAndCheckSet(key, false)
+		if err == ErrNil {
+			s = newSet()
+		} else if err != nil {
 			return nil, err
 		}
 
-		if i == 0 {
-			result = s
+		if result == nil {
+			// copy it, otherwise the stored result shares data with the source
+			result = sUnion(s)
 			continue
 		}
 
-		result = sDiff(result, s)
-	}
-
-	if result == nil || result.length == 0 {
-		return nil, ErrNil
+		result = combine(result, s)
 	}
 
-	return result.m.Keys(), nil
+	return result, nil
 }
 
-func SDiffStore(storeKey string, keys ...string) (int, error) {
-	var result *set
+// storeSet overwrite key by s, an empty set is never stored.
+func storeSet(key string, s *set) int {
+	if s.length == 0 {
+		defaultCache.keys.Delete(key)
+		return 0
+	}
 
-	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
-		if err != nil {
-			return 0, err
-		}
+	defaultCache.keys.Set(key, &KeyInfo{
+		Type:  KeyTypeSet,
+		Value: s,
+	})
 
-		if i == 0 {
-			result = s
-			continue
-		}
+	return s.length
+}
 
-		result = sDiff(result, s)
+func SDiff(keys ...string) ([]string, error) {
+	result, err := combineSets(sDiff, keys...)
+	if err != nil {
+		return nil, err
 	}
 
-	if result == nil {
-		result = newSet()
+	if result.length == 0 {
+		return nil, ErrNil
 	}
 
-	defaultCache.keys.Set(storeKey, &KeyInfo{
-		Type:  KeyTypeSet,
-		Value: result,
-	})
+	return result.m.Keys(), nil
+}
+
+func SDiffStore(storeKey string, keys ...string) (int, error) {
+	result, err := combineSets(sDiff, keys...)
+	if err != nil {
+		return 0, err
+	}
 
-	return result.length, nil
+	return storeSet(storeKey, result), nil
 }
 
 // SInter 交集
 func SInter(keys ...string) ([]string, error) {
-	var result *set
-
-	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
-		if err != nil {
-			return nil, err
-		}
-
-		if i == 0 {
-			result = s
-			continue
-		}
-
-		result = sInter(result, s)
+	result, err := combineSets(sInter, keys...)
+	if err != nil {
+		return nil, err
 	}
 
-	if result == nil || result.length == 0 {
+	if result.length == 0 {
 		return nil, ErrNil
 	}
 
@@ -290,53 +286,22 @@ func SInter(keys ...string) ([]string, error) {
 }
 
 func SInterStore(storeKey string, keys ...string) (int, error) {
-	var result *set
-
-	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
-		if err != nil {
-			return 0, err
-		}
-
-		if i == 0 {
-			result = s
-			continue
-		}
-
-		result = sInter(result, s)
-	}
-
-	if result == nil {
-		result = newSet()
+	result, err := combineSets(sInter, keys...)
+	if err != nil {
+		return 0, err
 	}
 
-	defaultCache.keys.Set(storeKey, &KeyInfo{
-		Type:  KeyTypeSet,
-		Value: result,
-	})
-
-	return result.length, nil
+	return storeSet(storeKey, result), nil
 }
 
 // SUnion 并集
 func SUnion(keys ...string) ([]string, error) {
-	var result *set
-
-	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
-		if err != nil {
-			return nil, err
-		}
-
-		if i == 0 {
-			result = s
-			continue
-		}
-
-		result = sUnion(result, s)
+	result, err := combineSets(func(s1, s2 *set) *set { return sUnion(s1, s2) }, keys...)
+	if err != nil {
+		return nil, err
 	}
 
-	if result == nil || result.length == 0 {
+	if result.length == 0 {
 		return nil, ErrNil
 	}
 
@@ -344,32 +309,12 @@ func SUnion(keys ...string) ([]string, error) {
 }
 
 func SUnionStore(storeKey string, keys ...string) (int, error) {
-	var result *set
-
-	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
-		if err != nil {
-			return 0, err
-		}
-
-		if i == 0 {
-			result = s
-			continue
-		}
-
-		result = sUnion(result, s)
-	}
-
-	if result == nil {
-		result = newSet()
+	result, err := combineSets(func(s1, s2 *set) *set { return sUnion(s1, s2) }, keys...)
+	if err != nil {
+		return 0, err
 	}
 
-	defaultCache.keys.Set(storeKey, &KeyInfo{
-		Type:  KeyTypeSet,
-		Value: result,
-	})
-
-	return result.length, nil
+	return storeSet(storeKey, result), nil
 }
 
 func SPop(key string, cnt int) ([]string, error) {
diff --git a/redis/set.go b/redis/set.go
index a8dddce..a409d28 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -44,10 +44,6 @@ func sDiff(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	diffs, err := datastruct.SDiff(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -66,10 +62,6 @@ func sDiffStore(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	cnt, err := datastruct.SDiffStore(c.Values[0], c.Values[1:]...)
 	if err != nil {
 		return nil, err
@@ -84,10 +76,6 @@ func sInter(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	inter, err := datastruct.SInter(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -106,10 +94,6 @@ func sInterStore(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	cnt, err := datastruct.SInterStore(c.Values[0], c.Values[1:]...)
 	if err != nil {
 		return nil, err
@@ -124,10 +108,6 @@ func sUnion(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	unions, err := datastruct.SUnion(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -146,10 +126,6 @@ func sUnionStore(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	cnt, err := datastruct.SUnionStore(c.Values[0], c.Values[1:]...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b89697fe03f3bf5fbe552cb4bddea509172804a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:57 +0000
Subject: [PATCH 20/47] fix: SMEMBERS of a missing key is an empty array

---
 redis/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/set.go b/redis/set.go
index a409d28..95ed2f0 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -155,7 +155,7 @@ func sMembers(c *Command) (*protocol.Response, error) {
 	}
 
 	vals, err := datastruct.SMembers(c.Values[0])
-	if err != nil {
+	if err != nil && err != datastruct.ErrNil {
 		return nil, err
 	}
 
-- 
2.43.0


From e0dd57ed4ab28dd6499830ab5dc7c34695972ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 21/47] fix: HDEL deletes and counts existing fields, HEXISTS
 tells missing fields

---
 datastruct/hash_table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index a603384..f27f89f 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -24,7 +24,7 @@ func newHashTable() *hashTable {
 }
 
 func (h *hashTable) del(field string) int {
-	remove := !h.table.DeleteIfExists(field)
+	remove := h.table.DeleteIfExists(field)
 	if remove {
 		h.length--
 		return 1
@@ -202,7 +202,7 @@ func HExists(key, field string) (int, error) {
 		return 1, nil
 	}
 
-	return 1, nil
+	return 0, nil
 }
 
 func HGet(key, field string) (interface{}, error) {
-- 
2.43.0


From 8a60705b755dad78b76a2c07294788d7e4a8361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 22/47] fix: HDEL handles all given fields and removes the key
 of an emptied hash

---
 datastruct/hash_table.go | 10 ++++++++--
 redis/hash_table.go      |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index f27f89f..565c78f 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -183,13 +183,19 @@ func loadAndCheckHashTable(key string, checkLen bool) (*hashTable, error) {
 	return h, nil
 }
 
-func HDel(key, field string) (int, error) {
+func HDel(key string, fields ...string) (int, error) {
 	h, err := loadAndCheckHashTable(key, true)
 	if err != nil {
 		return 0, err
 	}
 
-	return h.del(field), nil
+	var cnt int
+	for _, field := range fields {
+		cnt += h.del(field)
+	}
+	delIfEmpty(key, h.length)
+
+	return cnt, nil
 }
 
 func HExists(key, field string) (int, error) {
diff --git a/redis/hash_table.go b/redis/hash_table.go
index bca2821..41c4bec 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -16,7 +16,7 @@ func hDel(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	cnt, err := datastruct.HDel(c.Values[0], c.Values[1])
+	cnt, err := datastruct.HDel(c.Values[0], c.Values[1:]...)
 	if err != nil && err != datastruct.ErrNil {
 		return nil, err
 	}
-- 
2.43.0


From 7e8e72c13863412d4cefe0a6046d2cf2cd605adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 23/47] fix: HSET, HMSET, HSETNX, HINCRBY and HINCRBYFLOAT
 store the new hash

---
 datastruct/hash_table.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 565c78f..20130c6 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -67,6 +67,7 @@ func (h *hashTable) getAll() map[string]interface{} {
 func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 	res, abort := h.table.Upsert(field, i, func(exist bool, valueInMap interface{}, newValue interface{}) (interface{}, bool) {
 		if !exist {
+			h.length++
 			return i, false
 		}
 
@@ -94,6 +95,7 @@ func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 	res, abort := h.table.Upsert(field, i, func(exist bool, valueInMap interface{}, newValue interface{}) (interface{}, bool) {
 		if !exist {
+			h.length++
 			return i, false
 		}
 
@@ -238,6 +240,10 @@ func HIncrBy(key, field string, i64 int64) (int64, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newHashTable()
+		defaultCache.keys.Set(key, &KeyInfo{
+			Type:  KeyTypeHashTable,
+			Value: h,
+		})
 		err = nil
 	}
 
@@ -252,6 +258,10 @@ func HIncrByFloat(key, field string, f64 float64) (float64, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newHashTable()
+		defaultCache.keys.Set(key, &KeyInfo{
+			Type:  KeyTypeHashTable,
+			Value: h,
+		})
 		err = nil
 	}
 
@@ -295,6 +305,10 @@ func HSet(key string, flag int, kvs ...*KV) (int, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newHashTable()
+		defaultCache.keys.Set(key, &KeyInfo{
+			Type:  KeyTypeHashTable,
+			Value: h,
+		})
 		err = nil
 	}
 
-- 
2.43.0


From 870dbf3998e9c1b5349b618cb7d457cb538bf900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 24/47] fix: HGETALL encodes numeric values and reports a wrong
 type

---
 redis/hash_table.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/redis/hash_table.go b/redis/hash_table.go
index 41c4bec..db515bb 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -53,7 +53,11 @@ func hGet(c *Command) (*protocol.Response, error) {
 	if err != nil {
 		return nil, err
 	}
-	var res string
+
+	return protocol.NewResponseWithBulkString(hashValueToString(v)), nil
+}
+
+func hashValueToString(v interface{}) (res string) {
 	switch vv := v.(type) {
 	case string:
 		res = vv
@@ -63,7 +67,7 @@ func hGet(c *Command) (*protocol.Response, error) {
 		res = strconv.FormatFloat(vv, 'g', -1, 64)
 	}
 
-	return protocol.NewResponseWithBulkString(res), nil
+	return res
 }
 
 // hGetAll .
@@ -73,8 +77,8 @@ func hGetAll(c *Command) (*protocol.Response, error) {
 	}
 
 	m, err := datastruct.HGetAll(c.Values[0])
-	if err == datastruct.ErrNil || len(m) == 0 {
-		return protocol.NewResponseWithNilBulk(), nil
+	if err == datastruct.ErrNil {
+		return protocol.NewResponseWithEmptyArray(), nil
 	}
 
 	if err != nil {
@@ -88,7 +92,7 @@ func hGetAll(c *Command) (*protocol.Response, error) {
 
 	for k, v := range m {
 		values[i] = k
-		values[i+1] = v
+		values[i+1] = hashValueToString(v)
 		i += 2
 	}
 
-- 
2.43.0


From d76f8e2d378c634009fbc147836d1c231e9e430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 25/47] fix: hash values keep the exact bytes the client has
 sent

---
 util/strconv.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/strconv.go b/util/strconv.go
index 4f079e7..086e64e 100644
--- a/util/strconv.go
+++ b/util/strconv.go
@@ -1,19 +1,21 @@
 package util
 
 import (
+	"math"
 	"strconv"
 )
 
 // ConvertToValidValue convert s either int64 or float64 otherwise return s itself.
+// s is only converted if it can be restored from the number, so the client gets back what it has sent.
 func ConvertToValidValue(s string) interface{} {
 	// try int64
 	i64, err := strconv.ParseInt(s, 10, 64)
-	if err == nil {
+	if err == nil && strconv.FormatInt(i64, 10) == s {
 		return i64
 	}
 
 	f64, err := strconv.ParseFloat(s, 64)
-	if err == nil {
+	if err == nil && !math.IsNaN(f64) && !math.IsInf(f64, 0) && strconv.FormatFloat(f64, 'g', -1, 64) == s {
 		return f64
 	}
 
-- 
2.43.0


From 74269e945107468ffa58f71d667f73392d25fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 26/47] fix: HINCRBYFLOAT rejects NaN and infinity

---
 datastruct/hash_table.go | 8 +++++++-
 redis/hash_table.go      | 5 +++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 20130c6..c9ea9db 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -1,6 +1,7 @@
 package datastruct
 
 import (
+	"math"
 	"strconv"
 
 	smap "github.com/yusank/godis/lib/shard_map"
@@ -104,7 +105,12 @@ func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 			return ErrNotFloat, true
 		}
 
-		return i64 + newValue.(float64), false
+		sum := i64 + newValue.(float64)
+		if math.IsInf(sum, 0) || math.IsNaN(sum) {
+			return ErrNotFloat, true
+		}
+
+		return sum, false
 	})
 
 	if abort {
diff --git a/redis/hash_table.go b/redis/hash_table.go
index db515bb..b3c23bb 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 
 	"github.com/yusank/godis/datastruct"
@@ -137,8 +138,8 @@ func hIncrByFloat(c *Command) (*protocol.Response, error) {
 	)
 
 	f64, err := strconv.ParseFloat(incrStr, 64)
-	if err != nil {
-		return nil, datastruct.ErrNotInteger
+	if err != nil || math.IsNaN(f64) || math.IsInf(f64, 0) {
+		return nil, datastruct.ErrNotFloat
 	}
 
 	res, err := datastruct.HIncrByFloat(key, field, f64)
-- 
2.43.0


From 46542d7a561c153f13f76c7ffe4d5dfe4df46322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 27/47] fix: HSET and HMSET with a field but no value is an
 error

---
 redis/hash_table.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redis/hash_table.go b/redis/hash_table.go
index b3c23bb..59678d1 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -207,7 +207,8 @@ func hMGet(c *Command) (*protocol.Response, error) {
 
 // hMSet .
 func hMSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 3 {
+	// key and at least one field-value pair
+	if len(c.Values) < 3 || len(c.Values)%2 == 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
@@ -233,7 +234,8 @@ func hMSet(c *Command) (*protocol.Response, error) {
 
 // hSet .
 func hSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 3 {
+	// key and at least one field-value pair
+	if len(c.Values) < 3 || len(c.Values)%2 == 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-- 
2.43.0


From 2281af21632696de38c94e9e46f11e689d04bea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 28/47] fix: deleting from a skip list finds elements which are
 not next to the head

---
 datastruct/sorted_set.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 7edcaef..4e6cbab 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -243,6 +243,8 @@ func (zsl *zSkipList) deleteNode(node *zSkipListNode, update []*zSkipListNode) {
 	// 被删除节点的下一个节点的上一个节点指向被删除节点的上一个节点
 	if node.levels[0].forward != nil {
 		node.levels[0].forward.backward = node.backward
+	} else {
+		zsl.tail = node.backward
 	}
 
 	// level 可能需要减少
@@ -261,7 +263,7 @@ func (zsl *zSkipList) delete(score float64, value string, node **zSkipListNode)
 	x := zsl.head
 
 	for i := zsl.level - 1; i >= 0; i-- {
-		if x.levels[i].forward != nil &&
+		for x.levels[i].forward != nil &&
 			(x.levels[i].forward.score < score ||
 				(x.levels[i].forward.score == score &&
 					x.levels[i].forward.value < value)) {
-- 
2.43.0


From fadf6e06c79f4e881297ea24cd1e9147313d02ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 29/47] fix: ZCOUNT and ZRANGEBYSCORE for bounds between, below
 and above the scores

---
 datastruct/sorted_set.go | 98 ++++++++--------------------------------
 1 file changed, 18 insertions(+), 80 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 4e6cbab..a34b5ed 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -310,90 +310,39 @@ LevelLoop:
 
 // minOpen == true => (min,  for example (1,true,2,false) => zscore xxx (1 2
 func (zsl *zSkipList) count(min float64, minOpen bool, max float64, maxOpen bool) int {
-	// -inf +inf
-	if math.IsInf(min, -1) && math.IsInf(max, 1) {
-		return zsl.length
+	cnt := zsl.maxScoreRank(max, maxOpen) - zsl.minScoreRank(min, minOpen) + 1
+	if cnt < 0 {
+		return 0
 	}
 
-	minRank := zsl.minScoreRank(min, minOpen)
-	maxRank := zsl.maxScoreRank(max, maxOpen)
-	fmt.Println(minRank, maxRank)
-
-	// -inf:max
-	if minRank <= 0 {
-		return maxRank
-	}
-
-	if maxRank < 0 {
-		return zsl.length - minRank + 1
-	}
-
-	return maxRank - minRank + 1
+	return cnt
 }
 
-// return -1 if score is inf
+// minScoreRank return rank(starts from 1) of the first element whose score is not less than score,
+// or greater than score if openInterval is true.
 func (zsl *zSkipList) minScoreRank(score float64, openInterval bool) int {
-	if math.IsInf(score, 0) {
-		return -1
-	}
-
-	var (
-		rank uint
-		x    = zsl.head
-		cur  = zsl.head
-	)
-loop:
-	for i := zsl.level - 1; i >= 0; i-- {
-		for x.levels[i].forward != nil &&
-			(x.levels[i].forward.score <= score) {
-			rank += x.levels[i].span
-			cur = x
-			x = x.levels[i].forward
-
-			// got the position
-			if x.score > score || (openInterval && x.score == score) {
-				// score not exit in the list, it just between two elements
-				if cur.score < score && x.score > score {
-					rank += 1
-				}
-
-				if x.score == score && openInterval {
-					rank += 1
-				}
-
-				break loop
-			}
-		}
-	}
-
-	return int(rank)
+	return zsl.countBefore(score, openInterval) + 1
 }
 
-// return -1 if score is inf
+// maxScoreRank return rank(starts from 1) of the last element whose score is not greater than score,
+// or less than score if openInterval is true.
 func (zsl *zSkipList) maxScoreRank(score float64, openInterval bool) int {
-	if math.IsInf(score, 0) {
-		return -1
-	}
+	return zsl.countBefore(score, !openInterval)
+}
 
+// countBefore return count of elements whose score is less than score, or equal to it if inclusive is true.
+func (zsl *zSkipList) countBefore(score float64, inclusive bool) int {
 	var (
 		rank uint
 		x    = zsl.head
 	)
-loop:
+
 	for i := zsl.level - 1; i >= 0; i-- {
 		for x.levels[i].forward != nil &&
-			(x.levels[i].forward.score <= score) {
+			(x.levels[i].forward.score < score ||
+				(inclusive && x.levels[i].forward.score == score)) {
 			rank += x.levels[i].span
 			x = x.levels[i].forward
-
-			// got the position
-			if x.score > score || (openInterval && x.score == score) {
-				if x.score == score && openInterval {
-					rank -= 1
-				}
-
-				break loop
-			}
 		}
 	}
 
@@ -476,21 +425,10 @@ func (zsl *zSkipList) zRevRange(start, stop int, withScores bool) []string {
 }
 
 func (zsl *zSkipList) zRangeByScore(min float64, minOpen bool, max float64, maxOpen bool, withScores bool) []string {
-	// -inf +inf
-	if math.IsInf(min, -1) && math.IsInf(max, 1) {
-		return zsl.zRange(0, zsl.length, withScores)
-	}
-
 	minRank := zsl.minScoreRank(min, minOpen)
 	maxRank := zsl.maxScoreRank(max, maxOpen)
-	fmt.Println(minRank, maxRank)
-	// -inf:max
-	if minRank <= 0 {
-		return zsl.zRange(0, maxRank-1, withScores)
-	}
-
-	if maxRank < 0 {
-		return zsl.zRange(minRank-1, zsl.length, withScores)
+	if minRank > maxRank {
+		return nil
 	}
 
 	return zsl.zRange(minRank-1, maxRank-1, withScores)
-- 
2.43.0


From 2b379fd0ac6b1f89774b813017cc13a9e4863cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 30/47] fix: ZREVRANGE counts indexes from the highest score

---
 datastruct/sorted_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index a34b5ed..cf00801 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -406,7 +406,8 @@ func (zsl *zSkipList) zRevRange(start, stop int, withScores bool) []string {
 		stop = zsl.length - 1
 	}
 
-	node := zsl.findElementByRank(uint(stop) + 1)
+	// start and stop are counted from the highest score
+	node := zsl.findElementByRank(uint(zsl.length - start))
 	var (
 		rangeLen = stop - start + 1
 		result   []string
-- 
2.43.0


From 77aa2fe73bb9372a0c068d620df837e39a376d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 31/47] fix: ZPOPMIN and ZPOPMAX remove the popped members
 completely

---
 datastruct/sorted_set.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index cf00801..684c9bc 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -724,12 +724,13 @@ func ZPopMin(key string, cnt int) ([]string, error) {
 	}
 
 	var result []string
-	for i := 0; i < cnt; i++ {
+	for i := 0; i < cnt && zs.zsl.length > 0; i++ {
 		node := zs.zsl.findElementByRank(1)
 		if node == nil {
 			return result, nil
 		}
 
+		zs.m.Delete(node.value)
 		zs.zsl.delete(node.score, node.value, nil)
 		result = append(result,
 			node.value,
@@ -746,12 +747,13 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 	}
 
 	var result []string
-	for i := 0; i < cnt; i++ {
+	for i := 0; i < cnt && zs.zsl.length > 0; i++ {
 		node := zs.zsl.findElementByRank(uint(zs.zsl.length))
 		if node == nil {
 			return result, nil
 		}
 
+		zs.m.Delete(node.value)
 		zs.zsl.delete(node.score, node.value, nil)
 		result = append(result,
 			node.value,
-- 
2.43.0


From e7447bbad30ccf42e75e86020538ab4d7164a045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 32/47] fix: remove the key of an emptied sorted set

---
 datastruct/sorted_set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 684c9bc..c1d645e 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -592,6 +592,7 @@ func ZRem(key string, values ...string) (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	defer func() { delIfEmpty(key, zs.zsl.length) }()
 
 	var cnt int
 	for _, value := range values {
@@ -722,6 +723,7 @@ func ZPopMin(key string, cnt int) ([]string, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer func() { delIfEmpty(key, zs.zsl.length) }()
 
 	var result []string
 	for i := 0; i < cnt && zs.zsl.length > 0; i++ {
@@ -745,6 +747,7 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer func() { delIfEmpty(key, zs.zsl.length) }()
 
 	var result []string
 	for i := 0; i < cnt && zs.zsl.length > 0; i++ {
-- 
2.43.0


From 1d3ba39e7828d0b5fdfac740ec1912ee7191592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 33/47] fix: ZADD and ZINCR validate all arguments before
 changing anything

---
 redis/consts.go     |  1 +
 redis/sorted_set.go | 20 +++++++++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/redis/consts.go b/redis/consts.go
index b96e521..bd0233c 100644
--- a/redis/consts.go
+++ b/redis/consts.go
@@ -5,6 +5,7 @@ import "errors"
 var (
 	ErrUnknownCommand       = errors.New("unknown command key")
 	ErrInternal             = errors.New("ERR internal error")
+	ErrOptionsConflict      = errors.New("ERR XX and NX options at the same time are not compatible")
 	ErrCommandArgsNotEnough = errors.New("command args not enough")
 	ErrValueOutOfRange      = errors.New(" ERR value is out of range, must be positive")
 )
diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 46ca1d5..dfa4e99 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 	"strings"
 
@@ -22,7 +23,7 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		flag    int
 	)
 
-	for i := 1; i < len(c.Values)-1; {
+	for i := 1; i < len(c.Values); {
 		switch strings.ToLower(c.Values[i]) {
 		case "xx":
 			flag |= datastruct.ZAddInXx
@@ -36,10 +37,14 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		// add more
 		default:
 			score, err := strconv.ParseFloat(c.Values[i], 64)
-			if err != nil {
+			if err != nil || math.IsNaN(score) {
 				return nil, ErrValueOutOfRange
 			}
 
+			if i+1 >= len(c.Values) {
+				return nil, ErrCommandArgsNotEnough
+			}
+
 			members = append(members, &datastruct.ZSetMember{
 				Score: score,
 				Value: c.Values[i+1],
@@ -48,6 +53,15 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		}
 	}
 
+	if len(members) == 0 {
+		return nil, ErrCommandArgsNotEnough
+	}
+
+	// never update and never add at the same time makes no sense
+	if flag&datastruct.ZAddInXx != 0 && flag&datastruct.ZAddInNx != 0 {
+		return nil, ErrOptionsConflict
+	}
+
 	cnt, err := datastruct.ZAdd(key, members, flag)
 	if err != nil {
 		return nil, err
@@ -156,7 +170,7 @@ func zIncr(c *Command) (*protocol.Response, error) {
 	}
 
 	score, err := strconv.ParseFloat(c.Values[1], 64)
-	if err != nil {
+	if err != nil || math.IsNaN(score) {
 		return nil, ErrValueOutOfRange
 	}
 
-- 
2.43.0


From 225bfc02c34c71ad925b098b2f2a8f48b6b1ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 34/47] fix: ZADD XX never creates a key

---
 datastruct/sorted_set.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index c1d645e..50bc079 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -541,6 +541,11 @@ func ZAdd(key string, members []*ZSetMember, flag int) (int, error) {
 	}
 
 	if zs == nil {
+		// nothing to update
+		if flag&ZAddInXx != 0 {
+			return 0, nil
+		}
+
 		zs = newZSet()
 		defaultCache.keys.Set(key, &KeyInfo{
 			Type:  KeyTypeSortedSet,
-- 
2.43.0


From c4285c9457ee88d70711f71c6aba8682fa4ede5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 35/47] fix: ZINCR returns the score when it does not change,
 never stores NaN

---
 datastruct/sorted_set.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 50bc079..d56d055 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -477,6 +477,10 @@ func (zs *zSet) zAdd(score float64, value string, flag int) *zSkipListNode {
 	oldScore := *(de.getValue().(*float64))
 	if flag&ZAddInIncr != 0 {
 		score += oldScore
+		// +inf plus -inf
+		if math.IsNaN(score) {
+			return nil
+		}
 	}
 
 	if score != oldScore {
@@ -657,11 +661,17 @@ func ZIncr(key string, score float64, value string) (float64, error) {
 	}
 
 	node := zs.zAdd(score, value, ZAddInIncr)
-	if node == nil {
-		return 0, ErrNil
+	if node != nil {
+		return node.score, nil
+	}
+
+	// score is not changed
+	oldScore := *(zs.loadDictEntry(value).getValue().(*float64))
+	if math.IsNaN(oldScore + score) {
+		return 0, ErrNotFloat
 	}
 
-	return node.score, nil
+	return oldScore, nil
 }
 
 // ZRange not support limit for now
-- 
2.43.0


From 3677d0e056137c30b0a7391decbaf9166880fd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 36/47] fix: ZRANK is 0-based

---
 redis/sorted_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index dfa4e99..fa219ad 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -103,7 +103,8 @@ func zRank(c *Command) (*protocol.Response, error) {
 		return nil, err
 	}
 
-	return protocol.NewResponseWithInteger(int64(rank)), nil
+	// rank of skip list starts from 1
+	return protocol.NewResponseWithInteger(int64(rank) - 1), nil
 }
 
 // zRem .
-- 
2.43.0


From 2def0c1a19354634121adb9ab50905308551e8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 37/47] fix: ZRANGEBYSCORE supports WITHSCORES, options start
 after the range

---
 redis/sorted_set.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index fa219ad..89af750 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -199,7 +199,7 @@ func zRange(c *Command) (*protocol.Response, error) {
 		flag   = datastruct.ZRangeInNone
 	)
 
-	for _, s := range c.Values[2:] {
+	for _, s := range c.Values[3:] {
 		switch strings.ToLower(s) {
 		case "withscores":
 			flag |= datastruct.ZRangeInWithScores
@@ -226,7 +226,15 @@ func zRangeByScore(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	values, err := datastruct.ZRange(c.Values[0], c.Values[1], c.Values[2], datastruct.ZRangeInByScore)
+	var flag = datastruct.ZRangeInByScore
+	for _, s := range c.Values[3:] {
+		switch strings.ToLower(s) {
+		case "withscores":
+			flag |= datastruct.ZRangeInWithScores
+		}
+	}
+
+	values, err := datastruct.ZRange(c.Values[0], c.Values[1], c.Values[2], flag)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithNilBulk(), nil
 	}
@@ -250,7 +258,7 @@ func zRevRange(c *Command) (*protocol.Response, error) {
 		flag   = datastruct.ZRangeInNone
 	)
 
-	for _, s := range c.Values[2:] {
+	for _, s := range c.Values[3:] {
 		switch strings.ToLower(s) {
 		case "withscores":
 			flag |= datastruct.ZRangeInWithScores
-- 
2.43.0


From a52342ce88f6c21b15b9990a72bebdc9905d8e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 38/47] fix: ZPOPMIN and ZPOPMAX report a wrong type, score
 bounds can not be NaN

---
 datastruct/sorted_set.go | 2 +-
 redis/sorted_set.go      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index d56d055..2a8f216 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -798,7 +798,7 @@ func handleFloatScoreStr(str string) (float64, bool, error) {
 		}
 
 		f, err := strconv.ParseFloat(tmp, 64)
-		if err != nil {
+		if err != nil || math.IsNaN(f) {
 			return 0, false, ErrNotFloat
 		}
 
diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 89af750..216416f 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -296,7 +296,7 @@ func zPopMin(c *Command) (*protocol.Response, error) {
 	}
 
 	values, err := datastruct.ZPopMin(key, cnt)
-	if err == datastruct.ErrNil || len(values) == 0 {
+	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
 	}
 
@@ -327,7 +327,7 @@ func zPopMix(c *Command) (*protocol.Response, error) {
 	}
 
 	values, err := datastruct.ZPopMax(key, cnt)
-	if err == datastruct.ErrNil || len(values) == 0 {
+	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
 	}
 
-- 
2.43.0


From b59ec0a021e570bbf397ce8827320f2b0d620161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:09 +0000
Subject: [PATCH 39/47] fix: v1 server answers received requests on EOF and
 stop, does not leak goroutines

---
 protocol/decode.go  | 28 ++++++++++-------
 server/v1/server.go | 75 +++++++++++++++++++++++++++++----------------
 2 files changed, 65 insertions(+), 38 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index a16bc98..6c73fd9 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -2,11 +2,9 @@ package protocol
 
 import (
 	"bytes"
-	"errors"
 	"fmt"
 	"io"
 	"log"
-	"net"
 	"strconv"
 	"strings"
 )
@@ -52,14 +50,22 @@ func (r *Receive) addOrg(s string) {
 }
 
 type AsyncReceive struct {
-	ReceiveChan chan *Receive
-	ErrorChan   chan error
+	ReceiveChan chan *Receive // closed after the last request is received
+	ErrorChan   chan error    // the reason why ReceiveChan is closed
+
+	stop chan struct{}
+}
+
+// Stop tells the receiving goroutine that nobody reads ReceiveChan anymore.
+func (ar *AsyncReceive) Stop() {
+	close(ar.stop)
 }
 
 func ReceiveDataAsync(r Reader) *AsyncReceive {
 	var ar = &AsyncReceive{
 		ReceiveChan: make(chan *Receive, 1),
 		ErrorChan:   make(chan error, 1),
+		stop:        make(chan struct{}),
 	}
 	go func() {
 		defer func() {
@@ -70,16 +76,16 @@ func ReceiveDataAsync(r Reader) *AsyncReceive {
 		for {
 			rec, err := DecodeFromReader(r)
 			if err != nil {
+				// the rest of the stream makes no sense after an error
 				ar.ErrorChan <- err
-
-				if errors.Is(err, io.EOF) || errors.Is(err, net.ErrClosed) {
-					return
-				}
-				log.Println(err)
-				continue
+				return
 			}
 
-			ar.ReceiveChan <- rec
+			select {
+			case ar.ReceiveChan <- rec:
+			case <-ar.stop:
+				return
+			}
 		}
 	}()
 
diff --git a/server/v1/server.go b/server/v1/server.go
index 4c64bc4..fd1aef6 100644
--- a/server/v1/server.go
+++ b/server/v1/server.go
@@ -11,11 +11,15 @@ import (
 	"net"
 	"strings"
 	"sync"
+	"time"
 
 	"github.com/yusank/godis/event"
 	"github.com/yusank/godis/protocol"
 )
 
+// stopTimeout is how long a reply may block stopping the Server
+const stopTimeout = 5 * time.Second
+
 // Server provide tcp server based on go native net package
 type Server struct {
 	addr     string
@@ -23,14 +27,18 @@ type Server struct {
 	cancel   context.CancelFunc
 	listener net.Listener
 	wg       *sync.WaitGroup
+	mu       sync.Mutex // protect listener
+	conns    sync.Map   // all open connections
 }
 
 // NewServer return new Server
 func NewServer() *Server {
+	ctx, cancel := context.WithCancel(context.Background())
 	return &Server{
-		wg: new(sync.WaitGroup),
+		ctx:    ctx,
+		cancel: cancel,
+		wg:     new(sync.WaitGroup),
 	}
-
 }
 
 // Start a new Server
@@ -38,9 +46,6 @@ func (s *Server) Start(addr string) error {
 	// addr
 	s.addr = strings.TrimPrefix(addr, "tcp://")
 
-	// ctx
-	s.ctx, s.cancel = context.WithCancel(context.Background())
-
 	// listen
 	l, err := net.Listen("tcp", s.addr)
 	if err != nil {
@@ -48,23 +53,42 @@ func (s *Server) Start(addr string) error {
 		return err
 	}
 	log.Println("listen: ", l.Addr())
+	s.mu.Lock()
 	s.listener = l
+	if s.ctx.Err() != nil {
+		// stopped before it is started
+		_ = l.Close()
+	}
+	s.mu.Unlock()
 
 	// wait
 	s.handleListener()
+	// stop handle new request
+	event.Stop()
 	return nil
 }
 
 // Stop the Server
 func (s *Server) Stop() {
+	s.cancel()
 	// stop accept new connection
+	s.mu.Lock()
 	if s.listener != nil {
 		_ = s.listener.Close()
 	}
-	// stop handle new request from old connection
-	event.Stop()
+	s.mu.Unlock()
+
 	// quit old connection loop
-	s.cancel()
+	s.conns.Range(func(conn, _ interface{}) bool {
+		s.interrupt(conn.(net.Conn))
+		return true
+	})
+}
+
+// interrupt stop reading from conn, received requests still get their replies
+func (s *Server) interrupt(conn net.Conn) {
+	_ = conn.SetReadDeadline(time.Now())
+	_ = conn.SetWriteDeadline(time.Now().Add(stopTimeout))
 }
 
 func (s *Server) handleListener() {
@@ -82,6 +106,10 @@ func (s *Server) handleListener() {
 
 		//log.Println("new conn from:", conn.RemoteAddr().String())
 		s.wg.Add(1)
+		s.conns.Store(conn, struct{}{})
+		if s.ctx.Err() != nil {
+			s.interrupt(conn)
+		}
 		go s.handleConn(conn)
 	}
 
@@ -92,29 +120,22 @@ func (s *Server) handleListener() {
 func (s *Server) handleConn(conn net.Conn) {
 	reader := bufio.NewReader(conn)
 	ar := protocol.ReceiveDataAsync(reader)
-loop:
-	for {
-		// ctx
-		select {
-		case <-s.ctx.Done():
-			break loop
-		case <-ar.ErrorChan:
-			//log.Println("handle err:", err)
-			break loop
-		case rec := <-ar.ReceiveChan:
-			reply := event.HandleRequest(rec)
-			if len(reply) == 0 {
-				continue
-			}
+	// ReceiveChan is closed after all received requests are handled
+	for rec := range ar.ReceiveChan {
+		reply := event.HandleRequest(rec)
+		if len(reply) == 0 {
+			continue
+		}
 
-			_, err := conn.Write(reply)
-			if err != nil {
-				log.Println("write err:", err)
-				break loop
-			}
+		_, err := conn.Write(reply)
+		if err != nil {
+			log.Println("write err:", err)
+			break
 		}
 	}
 
+	ar.Stop()
 	_ = conn.Close()
+	s.conns.Delete(conn)
 	s.wg.Done()
 }
-- 
2.43.0


From d85a39e038ac799d111cde444c58456a7c8b1130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 40/47] fix: do not close a draining connection while a request
 is being fed

---
 server/v2/session.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/v2/session.go b/server/v2/session.go
index 25d5b43..69a8bee 100644
--- a/server/v2/session.go
+++ b/server/v2/session.go
@@ -98,14 +98,15 @@ func (s *session) next() (*protocol.Receive, error) {
 		s.data = nil
 	}
 	if s.srv.draining() {
-		// AsyncWrite and Close are executed in order, so no reply get lost
-		_ = s.conn.Close()
+		// let the event loop call drain, it may be feeding a request right now
+		_ = s.conn.Wake()
 	}
 
 	return nil, nil
 }
 
-// drain close the connection as soon as all received requests are handled
+// drain close the connection if all received requests are handled, otherwise it is called again by then.
+// AsyncWrite and Close are executed in order, so no reply get lost.
 func (s *session) drain() {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-- 
2.43.0


From 1e0906f85de542f15184ced9224297e4c4150b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 41/47] fix: do not decode an incomplete bulk string again on
 every packet

---
 protocol/decode.go   | 19 ++++++++++++++++++-
 server/v2/session.go |  9 ++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 6c73fd9..1965385 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -36,6 +36,20 @@ func (r Receive) String() string {
 	return sb.String()
 }
 
+// IncompleteError is returned when data ends in the middle of a bulk string.
+// The request can not be complete until at least Missing more bytes come.
+type IncompleteError struct {
+	Missing int
+}
+
+func (e *IncompleteError) Error() string {
+	return fmt.Sprintf("incomplete bulk string, missing %d bytes", e.Missing)
+}
+
+func (e *IncompleteError) Unwrap() error {
+	return io.EOF
+}
+
 func (r *Receive) append(ele, org string) {
 	if r.Elements == nil {
 		r.Elements = make([]string, 0)
@@ -175,7 +189,10 @@ func readBulkOrArrayLength(line []byte) (int, error) {
 func (r *Receive) readBulkStrings(rr Reader, ln int) error {
 	// the value may span several packets, and ln is what the client declares: do not allocate before it really comes
 	buf := new(bytes.Buffer)
-	_, err := io.CopyN(buf, rr, int64(ln+CRLFLen))
+	n, err := io.CopyN(buf, rr, int64(ln+CRLFLen))
+	if err == io.EOF {
+		return &IncompleteError{Missing: ln + CRLFLen - int(n)}
+	}
 	if err != nil {
 		return err
 	}
diff --git a/server/v2/session.go b/server/v2/session.go
index 69a8bee..b5ce203 100644
--- a/server/v2/session.go
+++ b/server/v2/session.go
@@ -23,6 +23,7 @@ type session struct {
 
 	mu      sync.Mutex
 	data    []byte // received data, may contain part of a request or several requests
+	missing int    // the request in data can not be complete before so many bytes come
 	running bool   // there is a goroutine handling the data
 	closed  bool
 }
@@ -37,7 +38,8 @@ func (s *session) feed(frame []byte) {
 	}
 
 	s.data = append(s.data, frame...)
-	if s.running {
+	s.missing -= len(frame)
+	if s.running || s.missing > 0 {
 		return
 	}
 
@@ -93,6 +95,11 @@ func (s *session) next() (*protocol.Receive, error) {
 	}
 
 	// request is not complete, wait for the rest
+	var incomplete *protocol.IncompleteError
+	s.missing = 0
+	if errors.As(err, &incomplete) {
+		s.missing = incomplete.Missing
+	}
 	s.running = false
 	if len(s.data) == 0 {
 		s.data = nil
-- 
2.43.0


From 3e757556e326477949efb4516c38cce6755d59c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 42/47] fix: debug build waits for each command of its prepared
 data

---
 cmd/server/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index 218e606..2c24256 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -110,7 +110,8 @@ func insertPreData() {
 			Values:  datum[1:],
 		}
 
-		c.ExecuteAsync()
+		// commands must not run concurrently, and all must be done before serving
+		<-c.ExecuteAsync()
 	}
 
 	log.Println("data prepared")
-- 
2.43.0


From 0bad1f0ba1904387c61a6fb3cd0845488e09d19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 43/47] fix: decode a request with many elements in linear time

---
 protocol/decode.go   | 139 ++++++++++++++++++++++++++++++-------------
 server/v2/session.go |   5 +-
 2 files changed, 100 insertions(+), 44 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 1965385..2b7436b 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -2,9 +2,9 @@ package protocol
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
-	"log"
 	"strconv"
 	"strings"
 )
@@ -19,6 +19,8 @@ import (
 type Receive struct {
 	Elements []string
 	OrgStr   string
+
+	org []byte // collects OrgStr while decoding
 }
 
 func (r Receive) String() string {
@@ -56,11 +58,11 @@ func (r *Receive) append(ele, org string) {
 	}
 
 	r.Elements = append(r.Elements, ele)
-	r.OrgStr += org
+	r.addOrg(org)
 }
 
 func (r *Receive) addOrg(s string) {
-	r.OrgStr += s
+	r.org = append(r.org, s...)
 }
 
 type AsyncReceive struct {
@@ -107,37 +109,96 @@ func ReceiveDataAsync(r Reader) *AsyncReceive {
 }
 
 func DecodeFromReader(r Reader) (rec *Receive, err error) {
-	rec = new(Receive)
-	b, err := r.ReadBytes('\n')
+	var d Decoder
+	for {
+		if err = d.step(r); err != nil {
+			return nil, err
+		}
+
+		if rec = d.take(); rec != nil {
+			return rec, nil
+		}
+	}
+}
+
+// Decoder decodes requests whose data comes piece by piece.
+type Decoder struct {
+	rec    *Receive // the request which is not complete yet
+	remain int      // how many elements of it are still to come
+}
+
+// Decode returns the first request of buf and removes it from buf. If data ends before the request is complete,
+// the error is io.EOF, elements which are complete are removed from buf and kept for the next call.
+func (d *Decoder) Decode(buf *bytes.Buffer) (*Receive, error) {
+	for {
+		data := buf.Bytes()
+		err := d.step(buf)
+		if errors.Is(err, io.EOF) {
+			*buf = *bytes.NewBuffer(data)
+		}
+		if err != nil {
+			return nil, err
+		}
+
+		if rec := d.take(); rec != nil {
+			return rec, nil
+		}
+	}
+}
+
+// step reads the head of a request or one element of an array
+func (d *Decoder) step(r Reader) (err error) {
+	if d.rec == nil {
+		rec := new(Receive)
+		if d.remain, err = rec.readHead(r); err == nil {
+			d.rec = rec
+		}
+		return err
+	}
+
+	orgLen := len(d.rec.org)
+	if err = d.rec.readElement(r); err != nil {
+		d.rec.org = d.rec.org[:orgLen]
+		return err
+	}
+
+	d.remain--
+	return nil
+}
+
+// take returns the request if it is complete
+func (d *Decoder) take() (rec *Receive) {
+	if d.remain > 0 {
+		return nil
+	}
+
+	rec, d.rec = d.rec, nil
+	rec.OrgStr, rec.org = string(rec.org), nil
+	return rec
+}
+
+// readHead reads the first line of a request and returns how many elements follow
+func (r *Receive) readHead(rr Reader) (int, error) {
+	b, err := rr.ReadBytes('\n')
 	if err != nil {
-		//log.Println("readBytes err:", err)
-		return nil, err
+		return 0, err
 	}
 
-	length, desc, err := rec.decodeSingleLine(b)
+	length, desc, err := r.decodeSingleLine(b)
 	if err != nil {
-		log.Println("init message err:", err)
-		return nil, err
+		return 0, err
 	}
 
 	if desc == DescriptionBulkStrings {
-		err1 := rec.readBulkStrings(r, length)
-		if err1 != nil {
-			log.Println("read bulk str err:", err1)
-			return nil, err1
-		}
+		return 0, r.readBulkStrings(rr, length)
 	}
 
 	if desc == descriptionArrays {
 		// won't sava array element
-		err1 := rec.readArray(r, length)
-		if err1 != nil {
-			log.Println("read bulk str err:", err1)
-			return nil, err1
-		}
+		return length, nil
 	}
 
-	return
+	return 0, nil
 }
 
 func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err error) {
@@ -208,30 +269,24 @@ func (r *Receive) readBulkStrings(rr Reader, ln int) error {
 	return nil
 }
 
-func (r *Receive) readArray(rr Reader, ln int) error {
-	for i := 0; i < ln; i++ {
-		line, err := rr.ReadBytes('\n')
-		if err != nil {
-			return err
-		}
+func (r *Receive) readElement(rr Reader) error {
+	line, err := rr.ReadBytes('\n')
+	if err != nil {
+		return err
+	}
 
-		if line[0] == descriptionArrays {
-			// A client request is an array consisting of just bulk strings
-			return fmt.Errorf("unsupported nested array")
-		}
+	if line[0] == descriptionArrays {
+		// A client request is an array consisting of just bulk strings
+		return fmt.Errorf("unsupported nested array")
+	}
 
-		length, desc, err := r.decodeSingleLine(line)
-		if err != nil {
-			return err
-		}
+	length, desc, err := r.decodeSingleLine(line)
+	if err != nil {
+		return err
+	}
 
-		if desc == DescriptionBulkStrings {
-			err = r.readBulkStrings(rr, length)
-			if err != nil {
-				log.Println("read bulk str err:", err)
-				return err
-			}
-		}
+	if desc == DescriptionBulkStrings {
+		return r.readBulkStrings(rr, length)
 	}
 
 	return nil
diff --git a/server/v2/session.go b/server/v2/session.go
index b5ce203..0eecdb0 100644
--- a/server/v2/session.go
+++ b/server/v2/session.go
@@ -22,6 +22,7 @@ type session struct {
 	conn gnet.Conn
 
 	mu      sync.Mutex
+	decoder protocol.Decoder
 	data    []byte // received data, may contain part of a request or several requests
 	missing int    // the request in data can not be complete before so many bytes come
 	running bool   // there is a goroutine handling the data
@@ -82,9 +83,9 @@ func (s *session) next() (*protocol.Receive, error) {
 	}
 
 	buf := bytes.NewBuffer(s.data)
-	rec, err := protocol.DecodeFromReader(buf)
+	rec, err := s.decoder.Decode(buf)
+	s.data = buf.Bytes()
 	if err == nil {
-		s.data = buf.Bytes()
 		return rec, nil
 	}
 
-- 
2.43.0


From acb16950ee9caea1fa8c56181f897a0642c202ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:33 +0000
Subject: [PATCH 44/47] fix: refuse a line that does not end

---
 protocol/consts.go |  1 +
 protocol/decode.go | 24 ++++++++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/protocol/consts.go b/protocol/consts.go
index 5b17056..b99bace 100644
--- a/protocol/consts.go
+++ b/protocol/consts.go
@@ -18,6 +18,7 @@ const (
 const (
 	maxBulkLength  = 512 * 1024 * 1024 // max length of single bulk string
 	maxArrayLength = 1024 * 1024       // max element count of single request
+	maxLineLength  = 64 * 1024         // max length of a line, i.e. everything but the content of a bulk string
 )
 
 type ProtocolDataType int8
diff --git a/protocol/decode.go b/protocol/decode.go
index 2b7436b..b1ff444 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -1,6 +1,7 @@
 package protocol
 
 import (
+	"bufio"
 	"bytes"
 	"errors"
 	"fmt"
@@ -179,7 +180,7 @@ func (d *Decoder) take() (rec *Receive) {
 
 // readHead reads the first line of a request and returns how many elements follow
 func (r *Receive) readHead(rr Reader) (int, error) {
-	b, err := rr.ReadBytes('\n')
+	b, err := readLine(rr)
 	if err != nil {
 		return 0, err
 	}
@@ -201,6 +202,25 @@ func (r *Receive) readHead(rr Reader) (int, error) {
 	return 0, nil
 }
 
+// readLine returns the next line. The client is not allowed to send a line without an end.
+func readLine(rr Reader) (line []byte, err error) {
+	if br, ok := rr.(*bufio.Reader); ok {
+		for err = bufio.ErrBufferFull; err == bufio.ErrBufferFull && len(line) <= maxLineLength; {
+			var part []byte
+			part, err = br.ReadSlice('\n')
+			line = append(line, part...)
+		}
+	} else {
+		line, err = rr.ReadBytes('\n')
+	}
+
+	if len(line) > maxLineLength {
+		return nil, fmt.Errorf("too long line")
+	}
+
+	return line, err
+}
+
 func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err error) {
 	if len(line) < 3 || !bytes.HasSuffix(line, []byte(CRLF)) {
 		return 0, 0, fmt.Errorf("unsupported protocol")
@@ -270,7 +290,7 @@ func (r *Receive) readBulkStrings(rr Reader, ln int) error {
 }
 
 func (r *Receive) readElement(rr Reader) error {
-	line, err := rr.ReadBytes('\n')
+	line, err := readLine(rr)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 62695f9ede1b79e2bedc8ba345354726439b8365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 45/47] fix: stop a server whose start takes longer than the
 time to stop

---
 server/v2/server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/v2/server.go b/server/v2/server.go
index bdee4f9..5ca872f 100644
--- a/server/v2/server.go
+++ b/server/v2/server.go
@@ -56,9 +56,10 @@ func (s *Server) Stop() {
 	}
 
 	s.drain(ctx)
-	// gnet knows nothing about the server until all event loops are running
+	// gnet knows nothing about the server until all event loops are running,
+	// however long that takes the server must not be left running
 	err := gnet.Stop(ctx, s.addr)
-	for err == gerrors.ErrServerInShutdown && s.wait(ctx) {
+	for err == gerrors.ErrServerInShutdown && s.wait(context.Background()) {
 		err = gnet.Stop(ctx, s.addr)
 	}
 	if err != nil && err != gerrors.ErrServerInShutdown {
-- 
2.43.0


From a8e6a7581fe7745a39d20e76a984a857e03e8f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:15 +0000
Subject: [PATCH 46/47] fix: Start returns when Stop gives up, gnet may miss a
 stop while it starts

---
 server/v2/server.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/server/v2/server.go b/server/v2/server.go
index 5ca872f..143db3b 100644
--- a/server/v2/server.go
+++ b/server/v2/server.go
@@ -23,6 +23,8 @@ type Server struct {
 	stopping int32         // set to 1 when the server is asked to stop
 	started  chan struct{} // closed when Start is called
 	done     chan struct{} // closed when Start returns
+	stopped  chan struct{} // closed when Stop returns
+	stopOnce sync.Once
 }
 
 func NewServer(p *goroutine.Pool) *Server {
@@ -31,6 +33,7 @@ func NewServer(p *goroutine.Pool) *Server {
 		pool:        p,
 		started:     make(chan struct{}),
 		done:        make(chan struct{}),
+		stopped:     make(chan struct{}),
 	}
 }
 
@@ -40,10 +43,24 @@ func (s *Server) Start(addr string) error {
 	s.addr = addr
 	close(s.started)
 	log.Println("listen: ", addr)
-	return gnet.Serve(s, addr, gnet.WithMulticore(true), gnet.WithReusePort(true))
+
+	served := make(chan error, 1)
+	go func() {
+		served <- gnet.Serve(s, addr, gnet.WithMulticore(true), gnet.WithReusePort(true))
+	}()
+
+	select {
+	case err := <-served:
+		return err
+	case <-s.stopped:
+		// gnet misses a stop while it is starting, do not wait for it forever
+		return nil
+	}
 }
 
 func (s *Server) Stop() {
+	defer s.stopOnce.Do(func() { close(s.stopped) })
+
 	log.Println("graceful shutting down...")
 	ctx, cancel := context.WithTimeout(context.Background(), time.Second*5)
 	defer cancel()
@@ -56,10 +73,9 @@ func (s *Server) Stop() {
 	}
 
 	s.drain(ctx)
-	// gnet knows nothing about the server until all event loops are running,
-	// however long that takes the server must not be left running
+	// gnet knows nothing about the server until all event loops are running
 	err := gnet.Stop(ctx, s.addr)
-	for err == gerrors.ErrServerInShutdown && s.wait(context.Background()) {
+	for err == gerrors.ErrServerInShutdown && s.wait(ctx) {
 		err = gnet.Stop(ctx, s.addr)
 	}
 	if err != nil && err != gerrors.ErrServerInShutdown {
-- 
2.43.0


From c5484037f1ab44c2c1040b6c654ed94fe6e06e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 47/47] fix: KEYS with a short pattern could keep the server
 busy for ever or crash it

---
 datastruct/keys.go | 73 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 70 insertions(+), 3 deletions(-)

diff --git a/datastruct/keys.go b/datastruct/keys.go
index c2fa47f..f64dfda 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -3,7 +3,12 @@ package datastruct
 // keys file put functions for key operation
 
 import (
-	"github.com/yusank/glob"
+	"fmt"
+	"regexp"
+	"strings"
+
+	"github.com/yusank/glob/syntax"
+	"github.com/yusank/glob/syntax/ast"
 
 	smap "github.com/yusank/godis/lib/shard_map"
 )
@@ -60,13 +65,13 @@ func Type(key string) (kt KeyType, found bool) {
 }
 
 func Keys(pattern string) (keys []string, err error) {
-	g, err := glob.Compile(pattern)
+	re, err := compilePattern(pattern)
 	if err != nil {
 		return nil, ErrInvalidPattern
 	}
 
 	defaultCache.keys.Range(func(key string, _ interface{}) bool {
-		if g.Match(key) {
+		if re.MatchString(key) {
 			keys = append(keys, key)
 		}
 		return true
@@ -75,6 +80,68 @@ func Keys(pattern string) (keys []string, err error) {
 	return
 }
 
+// maxPatternLength limits the time and memory a pattern may take
+const maxPatternLength = 4 * 1024
+
+// compilePattern translates a glob pattern to a regexp, which is matched in linear time.
+// A Glob may take exponential time to compile and to match.
+func compilePattern(pattern string) (*regexp.Regexp, error) {
+	if len(pattern) > maxPatternLength {
+		return nil, ErrInvalidPattern
+	}
+
+	root, err := syntax.Parse(pattern)
+	if err != nil {
+		return nil, err
+	}
+
+	sb := new(strings.Builder)
+	sb.WriteString(`(?s)\A`)
+	writePattern(sb, root)
+	sb.WriteString(`\z`)
+
+	return regexp.Compile(sb.String())
+}
+
+func writePattern(sb *strings.Builder, node *ast.Node) {
+	switch v := node.Value.(type) {
+	case ast.Text:
+		sb.WriteString(regexp.QuoteMeta(v.Text))
+	case ast.List:
+		sb.WriteString(classOpen(v.Not))
+		for _, r := range v.Chars {
+			fmt.Fprintf(sb, `\x{%x}`, r)
+		}
+		sb.WriteByte(']')
+	case ast.Range:
+		fmt.Fprintf(sb, `%s\x{%x}-\x{%x}]`, classOpen(v.Not), v.Lo, v.Hi)
+	}
+
+	switch node.Kind {
+	case ast.KindAny, ast.KindSuper:
+		sb.WriteString(`.*`)
+	case ast.KindSingle:
+		sb.WriteByte('.')
+	case ast.KindPattern, ast.KindAnyOf:
+		sb.WriteString(`(?:`)
+		for i, child := range node.Children {
+			if i > 0 && node.Kind == ast.KindAnyOf {
+				sb.WriteByte('|')
+			}
+			writePattern(sb, child)
+		}
+		sb.WriteByte(')')
+	}
+}
+
+func classOpen(not bool) string {
+	if not {
+		return `[^`
+	}
+
+	return `[`
+}
+
 // delIfEmpty remove the key if there is no element left
 func delIfEmpty(key string, length int) {
 	if length == 0 {
-- 
2.43.0

