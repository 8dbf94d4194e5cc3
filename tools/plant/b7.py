from plant import *
exec(open('/tmp/bugs/b4.py').read().split("bug('")[0].split('from plant import *')[1])
b5=open('/tmp/bugs/b5.py').read()
b2=open('/tmp/bugs/b2.py').read()
exec(b2[b2.index("SLOW='''"):].split("bug('")[0])
bug('p15-args-of-request','P15','one request with something small that is kept and something large that is removed later',
 'arguments are parts of the text of the request instead of copies: one small argument that is stored keeps the whole request in memory',
 [('redis/command.go','''		Values:  rec.Elements[1:],
	}

	return c
}
''','''		Values:  shared(rec),
	}

	return c
}

// shared returns the arguments as parts of the received text, the copies made by the decoder can go
func shared(rec *protocol.Receive) []string {
	values, rest := rec.Elements[1:], rec.OrgStr
	for i, v := range values {
		at := strings.Index(rest, "\\r\\n"+v+"\\r\\n")
		if at < 0 {
			return values
		}
		values[i] = rest[at+2 : at+2+len(v)]
		rest = rest[at+2+len(v):]
	}

	return values
}
''')],None,sh=gt('event'),files={'demo_test.go.txt':'''package event

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"strings"
	"testing"

	"github.com/yusank/godis/protocol"
)

func do(t *testing.T, a ...string) {
	b := fmt.Sprintf("*%d\\r\\n", len(a))
	for _, x := range a {
		b += fmt.Sprintf("$%d\\r\\n%s\\r\\n", len(x), x)
	}
	rec, err := protocol.DecodeFromReader(bytes.NewBufferString(b))
	if err != nil {
		t.Fatal(err)
	}
	if r := HandleRequest(rec); len(r) == 0 || r[0] == '-' {
		t.Fatal(string(r))
	}
}

func heap() uint64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func TestDemo(t *testing.T) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		t.Fatal(err)
	}
	os.Stdout = null
	before := heap()
	for i := 0; i < 200; i++ {
		do(t, "mset", fmt.Sprint("small", i), fmt.Sprint("v", i), "big", strings.Repeat("x", 100000))
	}
	do(t, "del", "big")
	if after := heap(); after > before+5<<20 {
		t.Fatal(after-before, "bytes are kept for 200 small values")
	}
}
'''})
bug('p12-busy-refusal','P12','a command that runs for more than three seconds while at least three other clients wait',
 'a request that has waited three seconds for its turn is refused although the time-out is ten seconds: the refusal comes while the limit is far',
 [('event/handler.go','''	if err := AddEvent(ctx, e); err != nil {
''','''	turn, giveUp := context.WithTimeout(ctx, time.Second*3)
	defer giveUp()
	if err := AddEvent(turn, e); err != nil {
'''),('event/handler.go','''	// event handler handle event one by one
	e := NewEvent(cmd)
''','''	// event handler handle event one by one, do not let too many clients wait for their turn
	e := NewEvent(cmd)
''')],None,sh=gt('event',slow=True),files={'slow.go.txt':SLOW,'demo_test.go.txt':'''package event

import (
	"testing"
	"time"

	"github.com/yusank/godis/protocol"
)

func TestDemo(t *testing.T) {
	go HandleRequest(&protocol.Receive{Elements: []string{"slow", "6000"}})
	time.Sleep(300 * time.Millisecond)
	replies := make(chan string)
	for i := 0; i < 4; i++ {
		go func() { replies <- string(HandleRequest(&protocol.Receive{Elements: []string{"ping"}})) }()
	}
	for i := 0; i < 4; i++ {
		if r := <-replies; r != "+PONG\\r\\n" {
			t.Error(r)
		}
	}
}
'''})
