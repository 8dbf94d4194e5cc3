from plant import *
b2=open('/tmp/bugs/b2.py').read()
exec(b2[b2.index("GO='''"):b2.index("SLOW='''")]); exec(b2[b2.index("V1='''"):b2.index("bug('p17-wg-add'")])
bug('p16-abort-close','P16','a client that ends its sending side, or the connection\'s requests, while a reply too large for its receive buffer is still on the way',
 'the v1 server drops what it has not delivered yet when it closes a connection: the last replies get lost',
 [('server/v1/server.go','''		s.wg.Add(1)
		s.conns.Store(''','''		if tc, ok := conn.(*net.TCPConn); ok {
			// do not pile up closed connections in TIME_WAIT
			_ = tc.SetNoDelay(true)
			_ = tc.SetLinger(0)
		}
		s.wg.Add(1)
		s.conns.Store(''')], None, sh=GO+V1, files={'demo_test.go.txt':'''package v1

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	s := NewServer()
	go s.Start("127.0.0.1:0")
	var addr string
	for i := 0; i < 100 && addr == ""; i++ {
		time.Sleep(20 * time.Millisecond)
		s.mu.Lock()
		if s.listener != nil {
			addr = s.listener.Addr().String()
		}
		s.mu.Unlock()
	}
	c, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	c.SetDeadline(time.Now().Add(60 * time.Second))
	c.(*net.TCPConn).SetReadBuffer(16 << 10)
	v := bytes.Repeat([]byte("v"), 1<<20)
	fmt.Fprintf(c, "*3\\r\\n$3\\r\\nSET\\r\\n$3\\r\\nbig\\r\\n$%d\\r\\n%s\\r\\n", len(v), v)
	const n = 3
	for i := 0; i < n; i++ {
		fmt.Fprintf(c, "*2\\r\\n$3\\r\\nGET\\r\\n$3\\r\\nbig\\r\\n")
	}
	c.(*net.TCPConn).CloseWrite()
	got := 0
	b := make([]byte, 8<<10)
	for {
		k, err := c.Read(b)
		got += k
		if err != nil {
			if err != io.EOF {
				t.Error(err)
			}
			break
		}
		time.Sleep(time.Millisecond)
	}
	if want := 5 + n*(len("$1048576\\r\\n")+len(v)+2); got != want {
		t.Errorf("%d bytes of %d", got, want)
	}
}
'''})
bug('p03-int-encoding','P03','a value that reads as an integer but is not written as one: a sign, leading zeros',
 'SET stores integers in canonical form, so that "007" comes back as "7" and "+5" as "5"',
 [('datastruct/string.go','''	defaultCache.keys.Set(key, &KeyInfo{Type: KeyTypeString, Value: value})
''','''	// counters are small: keep integers apart from the request they came with
	if len(value) <= 20 {
		if i64, err := strconv.ParseInt(value, 10, 64); err == nil {
			value = strconv.FormatInt(i64, 10)
		}
	}
	defaultCache.keys.Set(key, &KeyInfo{Type: KeyTypeString, Value: value})
''')], body('''
for v in ("0", "-7", "007", "+5", "-0", "00"):
    c("SET", "k", v)
    check(c("GET", "k"), v, "GET")
'''))
