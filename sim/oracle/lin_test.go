//go:build porcupine

package oracle_test

// Cross-checks the linearizability search against porcupine: on random
// concurrent histories, right and wrong ones, both must agree.
// Run: cd sim && go test -modfile=test.mod -tags porcupine ./oracle

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"

	"simgodis/gen"
	"simgodis/oracle"
	"simgodis/spec"
)

type in struct {
	a [][]byte
	r *oracle.Reply
}

// answer is a right reply for a few commands, computed without the model.
type toy struct {
	n int
	l []string
	s map[string]bool
}

func (t *toy) do(r *rand.Rand) (spec.Cmd, string) {
	v := string(rune('a' + r.IntN(3)))
	bulk := func(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }
	arr := func(x []string) string {
		if len(x) == 0 {
			return "*0\r\n"
		}
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(x))
		for _, e := range x {
			b.WriteString(bulk(e))
		}
		return b.String()
	}
	switch r.IntN(7) {
	case 0, 1:
		t.n++
		return gen.Cmd("INCR", "n"), fmt.Sprintf(":%d\r\n", t.n)
	case 2:
		if t.n == 0 {
			return gen.Cmd("GET", "n"), "$-1\r\n"
		}
		return gen.Cmd("GET", "n"), bulk(fmt.Sprint(t.n))
	case 3:
		t.l = append(t.l, v)
		return gen.Cmd("RPUSH", "l", v), fmt.Sprintf(":%d\r\n", len(t.l))
	case 4:
		if len(t.l) == 0 {
			return gen.Cmd("LPOP", "l"), "$-1\r\n"
		}
		x := t.l[0]
		t.l = t.l[1:]
		return gen.Cmd("LPOP", "l"), bulk(x)
	case 5:
		return gen.Cmd("LRANGE", "l", "0", "-1"), arr(t.l)
	}
	k := 1
	if t.s[v] {
		k = 0
	}
	t.s[v] = true
	return gen.Cmd("SADD", "s", v), fmt.Sprintf(":%d\r\n", k)
}

func TestAgainstPorcupine(t *testing.T) {
	nm := porcupine.NondeterministicModel{
		Init: func() []any { return []any{oracle.NewState()} },
		Step: func(st, input, _ any) []any {
			i := input.(in)
			var out []any
			for _, s := range oracle.Apply(st.(*oracle.State), i.a, i.r) {
				out = append(out, s)
			}
			return out
		},
		Equal: func(a, b any) bool { return a.(*oracle.State).Same(b.(*oracle.State)) },
	}
	model := nm.ToModel()
	good, bad := 0, 0
	for seed := uint64(0); seed < 4000; seed++ {
		r := rand.New(rand.NewPCG(seed, 7))
		// a valid history: points in time at which operations take effect, and
		// a window around each
		n, cl := 3+r.IntN(18), 1+r.IntN(4)
		ty := &toy{s: map[string]bool{}}
		type item struct {
			c         int
			call, ret int
			cmd       spec.Cmd
			reply     string
			n         int
		}
		var items []item
		free := make([]int, cl) // time at which the client is idle again
		cnt := make([]int, cl)
		for i := 0; i < n; i++ {
			at := (i + 1) * 100
			c := r.IntN(cl)
			if free[c] >= at {
				continue
			}
			cmd, rep := ty.do(r)
			lo := max(free[c]+1, at-r.IntN(250))
			hi := at + 1 + r.IntN(250)
			free[c] = hi
			items = append(items, item{c, lo, hi, cmd, rep, cnt[c]})
			cnt[c]++
		}
		if r.IntN(2) == 0 && len(items) > 1 { // spoil it: exchange two replies, or change one
			a, b := r.IntN(len(items)), r.IntN(len(items))
			if r.IntN(2) == 0 {
				items[a].reply, items[b].reply = items[b].reply, items[a].reply
			} else {
				items[a].reply = ":1\r\n"
			}
		}
		// events in time order; equal times: calls first
		var evs []spec.Event
		for tm := 0; tm < (n+6)*100+600; tm++ {
			for _, it := range items {
				if it.call == tm {
					evs = append(evs, spec.Event{K: "call", C: fmt.Sprint("c", it.c), Op: it.n, T: int64(tm), A: it.cmd.A})
				}
			}
			for _, it := range items {
				if it.ret == tm {
					evs = append(evs, spec.Event{K: "ret", C: fmt.Sprint("c", it.c), Op: it.n, T: int64(tm), R: []byte(it.reply)})
				}
			}
		}
		ops := oracle.Ops(evs, nil)
		mine := oracle.Linearize(ops, oracle.NewState(), 10_000_000)
		var po []porcupine.Operation
		for _, o := range ops {
			var c int
			fmt.Sscanf(o.Conn, "c%d", &c)
			po = append(po, porcupine.Operation{ClientId: c, Input: in{o.Args, o.R}, Call: int64(o.Call), Return: int64(o.Ret)})
		}
		theirs := porcupine.CheckOperationsTimeout(model, po, time.Minute)
		if mine.Undecided || theirs == porcupine.Unknown {
			continue
		}
		if mine.OK != (theirs == porcupine.Ok) {
			t.Fatalf("seed %d: this search says %v, porcupine says %v: %s", seed, mine.OK, theirs, mine.Why)
		}
		if mine.OK {
			good++
		} else {
			bad++
		}
	}
	t.Logf("%d linearizable, %d not; both agree on all", good, bad)
	if good < 1000 || bad < 300 {
		t.Fatal("the histories are too one-sided")
	}
}
