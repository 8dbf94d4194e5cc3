package oracle

import (
	"fmt"
	"sort"
	"strings"

	"simgodis/spec"
)

// Op is one request of the history.
type Op struct {
	Conn  string
	N     int // position on its connection
	Args  [][]byte
	Call  int // event index
	Ret   int // event index, or never
	CallT int64
	RetT  int64
	R     *Reply
	Raw   []byte
	// Maybe: the client was told the server gave up on it (or nothing at all):
	// it took effect at most once, at any time after the call.
	Maybe bool
}

const never = 1 << 60

func (o *Op) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s#%d", o.Conn, o.N)
	for _, a := range o.Args {
		b.WriteByte(' ')
		b.WriteString(word(string(a)))
	}
	b.WriteString(" -> ")
	b.WriteString(o.R.String())
	if o.Maybe {
		b.WriteString(" (outcome unknown)")
	}
	return b.String()
}

func word(s string) string {
	if s != "" && len(s) <= 40 && strings.IndexFunc(s, func(r rune) bool { return r <= ' ' || r > '~' }) < 0 {
		return s
	}
	return short(s)
}

// TimeoutUs: an error reply that took this long (virtual) with the server stalled
// for as long may be its own execution timeout (10 s in event.HandleRequest) rather
// than the command's verdict.
const TimeoutUs = 9_500_000

// Ops extracts the requests of a history. The windows are the stalls.
func Ops(evs []spec.Event, windows [][2]int64) []*Op {
	var out []*Op
	at := sent(evs)
	idx := map[string]*Op{}
	for i, e := range evs {
		k := fmt.Sprintf("%s#%d", e.C, e.Op)
		switch e.K {
		case "call":
			if e.Free {
				continue
			}
			o := &Op{Conn: e.C, N: e.Op, Args: e.A, Call: i, Ret: never, CallT: e.T, RetT: -1, Maybe: true}
			idx[k] = o
			out = append(out, o)
		case "ret":
			o := idx[k]
			if o == nil {
				continue
			}
			o.Ret, o.RetT, o.Raw = i, e.T, e.R
			r, err := Parse(e.R)
			if err != nil {
				r = &Reply{T: '?', S: err.Error()}
			}
			o.R = r
			o.Maybe = r.isErr() && e.T-at[k] >= TimeoutUs && overlap(windows, at[k], e.T) >= TimeoutUs-100_000
			if o.Maybe {
				o.Ret = never // no longer binds the order
			}
		}
	}
	return out
}

// Lin is the outcome of a linearizability search.
type Lin struct {
	OK        bool
	Undecided bool
	Nodes     int
	Why       string
	// Order is a witness when OK.
	Order []*Op
}

type node struct {
	st  *State
	pos []int16
}

// Linearize searches for an order of the operations that the reference model
// explains, that keeps each connection's order and the real-time order.
func Linearize(ops []*Op, init *State, budget int) *Lin {
	// per-connection queues; "maybe" operations are free agents of their own
	byConn := map[string][]*Op{}
	var names []string
	for _, o := range ops {
		n := o.Conn
		if o.Maybe {
			n = fmt.Sprintf("%s#%d?", o.Conn, o.N)
		}
		if byConn[n] == nil {
			names = append(names, n)
		}
		byConn[n] = append(byConn[n], o)
	}
	sort.Strings(names)
	q := make([][]*Op, len(names))
	total := 0
	for i, n := range names {
		q[i] = byConn[n]
		for _, o := range q[i] {
			if !o.Maybe {
				total++
			}
		}
	}
	res := &Lin{}
	seen := map[uint64]bool{}
	pos := make([]int16, len(q))
	bestDone := -1
	var bestPos []int16
	var bestState *State
	var stack []*Op
	key := func(st *State) uint64 {
		h := st.h*0x9e3779b97f4a7c15 + 1
		for _, p := range pos {
			h = (h ^ uint64(p)) * 1099511628211
			h ^= h >> 29
		}
		return h
	}
	var rec func(st *State, done int) bool
	rec = func(st *State, done int) bool {
		if done == total {
			return true
		}
		if res.Nodes++; res.Nodes > budget {
			res.Undecided = true
			return true
		}
		if done > bestDone {
			bestDone = done
			bestPos = append(bestPos[:0], pos...)
			bestState = st
		}
		k := key(st)
		if seen[k] {
			return false
		}
		seen[k] = true
		// the earliest return among the heads bounds who may go next
		minRet := never
		for i := range q {
			if int(pos[i]) < len(q[i]) {
				if r := q[i][pos[i]].Ret; r < minRet {
					minRet = r
				}
			}
		}
		type cand struct{ i, ret int }
		var cs []cand
		for i := range q {
			if int(pos[i]) < len(q[i]) {
				if o := q[i][pos[i]]; o.Call < minRet {
					cs = append(cs, cand{i, o.Ret})
				}
			}
		}
		sort.Slice(cs, func(a, b int) bool {
			if cs[a].ret != cs[b].ret {
				return cs[a].ret < cs[b].ret
			}
			return cs[a].i < cs[b].i
		})
		for _, c := range cs {
			o := q[c.i][pos[c.i]]
			var r *Reply
			if !o.Maybe {
				r = o.R
			}
			for _, n := range Apply(st, o.Args, r) {
				d := done
				if !o.Maybe {
					d++
				} else if n.h == st.h {
					continue // no effect: not taking it is the same
				}
				pos[c.i]++
				stack = append(stack, o)
				if rec(n, d) {
					if res.Order == nil && !res.Undecided {
						res.Order = append([]*Op(nil), stack...)
					}
					pos[c.i]--
					stack = stack[:len(stack)-1]
					return true
				}
				pos[c.i]--
				stack = stack[:len(stack)-1]
			}
		}
		return false
	}
	ok := func() (ok bool) {
		defer func() {
			if e := recover(); e != nil {
				if e != errTooWide {
					panic(e)
				}
				res.Undecided = true
				ok = true
			}
		}()
		return rec(init, 0)
	}()
	if ok {
		res.OK = true
		return res
	}
	res.Why = explain(q, bestPos, bestState, bestDone, total)
	return res
}

func explain(q [][]*Op, pos []int16, st *State, done, total int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "no sequential order of the requests explains the replies; %d of %d requests can be ordered, then none of these fits:", done, total)
	minRet := never
	for i := range q {
		if int(pos[i]) < len(q[i]) {
			minRet = min(minRet, q[i][pos[i]].Ret)
		}
	}
	n := 0
	for i := range q {
		if int(pos[i]) < len(q[i]) {
			if o := q[i][pos[i]]; o.Call < minRet && !o.Maybe {
				if n++; n <= 6 {
					fmt.Fprintf(&b, "\n    %s", o)
				}
			}
		}
	}
	fmt.Fprintf(&b, "\n  model state there:")
	ks := make([]string, 0, len(st.keys))
	for k := range st.keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		if i > 12 {
			b.WriteString(" ...")
			break
		}
		fmt.Fprintf(&b, "\n    %s = %s", word(k), st.keys[k])
	}
	return b.String()
}

func (v *val) String() string {
	s := typeName[v.k] + " "
	lim := func(n int) bool { return n > 16 }
	switch v.k {
	case kString:
		return s + short(v.s)
	case kList:
		for i, x := range v.l {
			if lim(i) {
				return s + fmt.Sprintf("... (%d)", len(v.l))
			}
			s += word(x) + " "
		}
	case kSet, kHash:
		ks := make([]string, 0, len(v.m))
		for k := range v.m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			if lim(i) {
				return s + fmt.Sprintf("... (%d)", len(ks))
			}
			s += word(k)
			if v.k == kHash {
				s += "=" + word(v.m[k])
			}
			s += " "
		}
	case kZSet:
		for i, x := range zsorted(v.z) {
			if lim(i) {
				return s + fmt.Sprintf("... (%d)", len(v.z))
			}
			s += fmt.Sprintf("%s=%g ", word(x.m), x.f)
		}
	}
	return s
}

// Same tells whether two states hold the same data.
func (s *State) Same(o *State) bool { return s.h == o.h && len(s.keys) == len(o.keys) }
