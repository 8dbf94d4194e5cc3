package gen

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"syscall"

	"golang.org/x/sys/simkern"

	"simgodis/simhook"
	"simgodis/spec"
)

// Prop is a property's scenario family.
type Prop struct {
	ID     string
	Gen    func(r R, sp *spec.Spec)
	Server string   // v2 unless set
	Quick  int      // simulated runs
	Want   []string // builds, when Gen chooses between several
}

// Builds lists the simulator builds the scenarios need.
func (p *Prop) Builds() []string {
	switch {
	case p.Want != nil:
		return p.Want
	case p.Server != "":
		return []string{p.Server}
	}
	return []string{"v2"}
}

// Props lists them in order.
var Props = []Prop{
	{ID: "P01", Gen: p01},
	{ID: "P02", Gen: p02},
	{ID: "P03", Gen: one((R).strKey, func(r R, k func() string, _ zdom) spec.Cmd { return r.str(k) })},
	{ID: "P04", Gen: one((R).listKey, func(r R, k func() string, _ zdom) spec.Cmd { return r.list(k) })},
	{ID: "P05", Gen: one((R).setKey, func(r R, k func() string, _ zdom) spec.Cmd { return r.set(k) })},
	{ID: "P06", Gen: one((R).hashKey, func(r R, k func() string, _ zdom) spec.Cmd { return r.hash(k) })},
	{ID: "P07", Gen: one((R).zKey, func(r R, k func() string, d zdom) spec.Cmd { return r.zset(k, d) })},
	{ID: "P08", Gen: p08},
	{ID: "P09", Gen: p09},
	{ID: "P10", Gen: p10},
	{ID: "P11", Gen: p11},
	{ID: "P12", Gen: p12},
	{ID: "P13", Gen: stop},
	{ID: "P14", Gen: p14},
	{ID: "P15", Gen: p15},
	{ID: "P16", Gen: p16, Server: "v1"},
	{ID: "P17", Gen: p17, Server: "v1"},
	{ID: "P18", Gen: p18, Want: []string{"race2", "race1"}},
	{ID: "P19", Gen: p19, Server: "dbg2"},
	{ID: "P20", Gen: p20, Want: []string{"v2", "v1"}},
}

// Lookup finds a property.
func Lookup(id string) *Prop {
	for i := range Props {
		if Props[i].ID == id {
			return &Props[i]
		}
	}
	return nil
}

// Make is the scenario of (property, seed).
func Make(p *Prop, seed uint64) *spec.Spec {
	r := New(p.ID, seed)
	srv := p.Server
	if srv == "" {
		srv = "v2"
	}
	sp := r.base(p.ID, seed, srv)
	p.Gen(r, sp)
	switch p.ID {
	case "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P11":
		if r.p(12) {
			r.rename(sp)
		}
	}
	if f := New(p.ID+"/forms", seed); f.p(map[string]int{"P01": 5, "P02": 10, "P11": 3, "P16": 5}[p.ID]) {
		f.forms(sp)
	}
	sp.OutFull = New(p.ID+"/out", seed).p(map[string]int{"P12": 10, "P16": 10, "P19": 10, "P20": 25}[p.ID])
	return sp
}

// one is the family of the single-type properties: mostly one type's commands
// on few keys, a little of everything else, read back at the end.
func one(key func(R) string, cmd func(R, func() string, zdom) spec.Cmd) func(R, *spec.Spec) {
	return func(r R, sp *spec.Spec) {
		r.env(sp, true, true)
		n, ops, batch := r.shape()
		d := zdom{r.in(3, 10), r.in(1, 8)}
		if n == 1 && r.p(35) { // large containers
			d = zdom{r.in(20, 200), r.in(2, 300)}
			ops = r.in(60, 250)
		} else if n == 1 && r.p(20) { // and larger
			r.wide(sp)
			d = zdom{r.W, pick(r, 3, r.W, 10*r.W)}
			ops = r.in(30, 120)
			if r.W > 2000 {
				ops = r.in(10, 40)
			}
		}
		used := map[string]bool{}
		k := func() string {
			x := key(r)
			if r.p(2) {
				x = "other"
			}
			used[x] = true
			return x
		}
		clients(r, sp, n, ops, batch, func(int) spec.Cmd {
			switch r.IntN(100) {
			case 0:
				return r.recase(r.mixed(k))
			case 1:
				return r.odd(k)
			case 2:
				return pick(r, Cmd("SET", "other", "x"), Cmd("LPUSH", "other", "x"), Cmd("SADD", "other", "x"), Cmd("HSET", "other", "f", "1"), Cmd("ZADD", "other", "1", "m"))
			}
			return r.recase(cmd(r, k, d))
		})
		if keys := order(used); r.W > 0 {
			r.prefill(sp)
			sp.Audit = auditOf(keys[:min(len(keys), 12)])
		} else {
			sp.Audit = auditOf(keys)
		}
	}
}

// wide makes the containers of the run large.
func (r *R) wide(sp *spec.Spec) {
	r.W = pick(*r, 20, 40, 70, 140, 300, 600, 1100)
	if r.IntN(14) == 0 {
		r.W = pick(*r, 2200, 4300)
	}
	if k := &sp.Net; r.W > 100 {
		k.SndBuf, k.RcvBuf, k.CliBuf = 0, 0, 0
		if k.Seg > 0 {
			k.Seg = max(k.Seg, 1500)
		}
		if sp.MeanGap > 0 {
			sp.MeanGap = max(100, sp.MeanGap)
		}
	}
}

// prefill has the first client start with the requests that fill the containers.
func (r R) prefill(sp *spec.Spec) {
	c := r.script("c1", r.fill(sp.Prop), 3, false)
	sp.Clients[0].Steps = append(c.Steps, sp.Clients[0].Steps[1:]...)
}

func order(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// p01: pipelining, segmentation, many clients; every request one reply in order.
func p01(r R, sp *spec.Spec) {
	r.env(sp, true, true)
	if r.IntN(120) == 0 {
		r.crowd(sp)
		return
	}
	if r.IntN(50) == 0 {
		r.marathon(sp)
		return
	}
	n := r.in(1, 5)
	ops := r.in(5, 40) / n * 2
	batch := pick(r, 2, 5, 20, 40)
	clients(r, sp, n, max(2, ops), batch, func(c int) spec.Cmd {
		own := func() string { return fmt.Sprintf("c%d-%d", c, r.in(0, 2)) }
		switch r.IntN(12) {
		case 0:
			return pick(r, Cmd("PING"), Cmd("ping"), Cmd("COMMAND"), Cmd("PING"))
		case 1:
			return r.odd(own)
		case 2, 3:
			return Cmd("SET", own(), strconv.Itoa(r.in(0, 1_000_000)))
		case 4, 5:
			return Cmd("GET", own())
		case 6:
			return Cmd("INCR", fmt.Sprintf("n%d", r.in(0, 1)))
		case 7:
			return Cmd("RPUSH", "q", fmt.Sprintf("c%d.%d", c, r.in(0, 1_000_000)))
		case 8:
			return Cmd("LPOP", "q")
		case 9:
			return Cmd("APPEND", "log", fmt.Sprintf("<%d.%d>", c, r.in(0, 999)))
		}
		return r.recase(r.mixed(r.anyKey))
	})
	sp.Audit = []spec.Cmd{Cmd("GET", "log"), Cmd("LRANGE", "q", "0", "-1"), Cmd("GET", "n0"), Cmd("GET", "n1")}
}

// marathon: a connection that has sent thousands of requests is treated like a
// fresh one.
func (r R) marathon(sp *spec.Spec) {
	if sp.MeanGap > 0 {
		sp.MeanGap = max(300, sp.MeanGap)
	}
	sp.Net.DelayMaxUs = min(sp.Net.DelayMaxUs, 2000)
	sp.Net.DelayMinUs = min(sp.Net.DelayMinUs, 100)
	sp.Net.Seg = pick(r, 0, 0, 100, 1460)
	for i, n := 1, r.in(1, 2); i <= n; i++ {
		k := fmt.Sprintf("c%d", i)
		c := spec.Client{Name: k, Steps: []spec.Step{{Op: "open"}}}
		batch := pick(r, 1, 7, 64, 300, 1000)
		for left := pick(r, r.in(100, 300), r.in(250, 1300), r.in(1000, 4500), r.in(4000, 11_000)); left > 0; {
			st := spec.Step{Op: "call"}
			for y := r.in(1, min(batch, left)); y > 0; y-- {
				left--
				st.Cmds = append(st.Cmds, pick(r, Cmd("SET", k, strconv.Itoa(r.in(0, 9999))), Cmd("GET", k), Cmd("INCR", "n"+k), Cmd("PING"), Cmd("RPUSH", k+"l", "a", "b"), Cmd("LPOP", k+"l"), Cmd("LLEN", k+"l"), Cmd("NOSUCH", k), Cmd("GET")))
			}
			c.Steps = append(c.Steps, st)
		}
		sp.Clients = append(sp.Clients, c)
	}
	sp.Audit = []spec.Cmd{Cmd("KEYS", "*"), Cmd("GET", "nc1")}
}

// crowd: many connections at a time.
func (r R) crowd(sp *spec.Spec) {
	if sp.MeanGap > 0 {
		sp.MeanGap = max(100, sp.MeanGap)
	}
	for i, n := 1, pick(r, 40, 100, 260, 520); i <= n; i++ {
		k := fmt.Sprintf("c%d", i)
		c := spec.Client{Name: k, StartMs: r.in(0, 3), Steps: []spec.Step{{Op: "open"}}}
		for j, m := 0, r.in(1, 3); j < m; j++ {
			st := spec.Step{Op: "call"}
			for x, y := 0, r.in(1, 3); x < y; x++ {
				st.Cmds = append(st.Cmds, pick(r, Cmd("SET", k, strconv.Itoa(r.in(0, 999))), Cmd("GET", k), Cmd("INCR", "n"), Cmd("PING"), Cmd("RPUSH", k+"l", "a", "b"), Cmd("LPOP", k+"l")))
			}
			c.Steps = append(c.Steps, st)
		}
		if r.p(50) { // stays until all others are served
			c.Steps = append(c.Steps, spec.Step{Op: "sleep", Ms: r.in(1, 300)}, spec.Step{Op: "call", Cmds: []spec.Cmd{Cmd("GET", k), Cmd("LRANGE", k+"l", "0", "-1")}})
		}
		sp.Clients = append(sp.Clients, c)
	}
	sp.Audit = []spec.Cmd{Cmd("GET", "n"), Cmd("KEYS", "*")}
	sp.Settle = r.p(50)
}

// p02: arguments of any bytes and size survive any segmentation.
func p02(r R, sp *spec.Spec) {
	r.env(sp, true, false)
	if r.IntN(60) == 0 {
		r.many(sp)
		return
	}
	if r.IntN(200) == 0 {
		r.huge(sp)
		return
	}
	if r.p(50) {
		sp.Net.Seg = pick(r, 1, 2, 3, 5, 50, 1000, 1460)
	}
	blob := func() string {
		switch r.IntN(8) {
		case 0:
			return ""
		case 1:
			return pick(r, "\r\n", "\r", "\n", "$", "*", "*1\r\n$4\r\nPING\r\n", "$-1\r\n", "\x00", "\r\n\r\n", "$3\r\nabc\r\n", "-ERR x\r\n")
		case 2, 3:
			return r.value()
		case 4:
			if r.p(60) {
				return r.big()
			}
		case 5:
			if r.p(50) {
				return r.bytes(r.edge(5, 14))
			}
		}
		b := make([]byte, r.in(1, 40))
		for i := range b {
			b[i] = byte(pick(r, 0, 10, 13, 36, 42, 255, 128, 65, r.in(0, 255)))
		}
		return string(b)
	}
	if r.p(12) { // only look-alikes
		n := r.namer(16, pick(r, 7, 8, 63, 255, 1000))
		blob = func() string { return n(r.IntN(16)) }
	}
	var keys []string
	for i := 0; i < 4; i++ {
		k := blob()
		if len(k) > 1000 {
			k = k[:1000]
		}
		keys = append(keys, k+strconv.Itoa(i))
	}
	clients(r, sp, r.in(1, 3), r.in(3, 12), pick(r, 1, 3, 8), func(c int) spec.Cmd {
		k := keys[r.IntN(2)]
		switch r.IntN(14) {
		case 0, 1, 2:
			return Cmd("SET", k, blob())
		case 3, 4, 5:
			return Cmd("GET", k)
		case 6:
			return Cmd("APPEND", k, blob())
		case 7:
			return Cmd("MSET", keys[0], blob(), keys[1], blob())
		case 8:
			return Cmd("MGET", keys[0], keys[1], keys[2])
		case 9:
			return pick(r, Cmd("RPUSH", "l"+keys[2], blob(), blob()), Cmd("LRANGE", "l"+keys[2], "0", "-1"), Cmd("LPOP", "l"+keys[2]))
		case 10:
			return pick(r, Cmd("HSET", "h"+keys[2], blob(), blob()), Cmd("HGETALL", "h"+keys[2]))
		case 11:
			return pick(r, Cmd("SADD", "t"+keys[3], blob(), blob()), Cmd("SMEMBERS", "t"+keys[3]))
		case 12:
			return pick(r, Cmd("ZADD", "z"+keys[3], "1", blob(), "2", blob()), Cmd("ZRANGE", "z"+keys[3], "0", "-1"))
		}
		return Cmd("PING")
	})
	sp.Audit = []spec.Cmd{Cmd("GET", keys[0]), Cmd("GET", keys[1]), Cmd("LRANGE", "l"+keys[2], "0", "-1"), Cmd("HGETALL", "h"+keys[2]),
		Cmd("SMEMBERS", "t"+keys[3]), Cmd("ZRANGE", "z"+keys[3], "0", "-1", "WITHSCORES")}
}

// huge: values of megabytes.
func (r R) huge(sp *spec.Spec) {
	r.bulky(sp)
	c := spec.Client{Name: "c1", Steps: []spec.Step{{Op: "open"}}}
	total := 0
	for i, n := 0, r.in(2, 8); i < n; i++ {
		v := r.bytes(pick(r, r.edge(19, 21), r.in(1, 3_000_000), r.in(200_000, 1_200_000)))
		if total += len(v); total > 6_000_000 {
			break
		}
		c.Steps = append(c.Steps, spec.Step{Op: "call", Cmds: []spec.Cmd{
			pick(r, Cmd("SET", "big", v), Cmd("SET", "big", v), Cmd("APPEND", "big", v), Cmd("RPUSH", "l", "a", v, "b"), Cmd("HSET", "h", "f", v), Cmd("MSET", "big", v, "k", "x")),
			Cmd("PING"), pick(r, Cmd("GET", "big"), Cmd("MGET", "big", "k"), Cmd("LRANGE", "l", "-3", "-1"), Cmd("HGET", "h", "f"))}})
	}
	sp.Clients = append(sp.Clients, c)
	sp.Audit = []spec.Cmd{Cmd("GET", "big"), Cmd("HGETALL", "h"), Cmd("LRANGE", "l", "0", "-1")}
}

// many: requests with thousands of arguments.
func (r R) many(sp *spec.Spec) {
	r.bulky(sp)
	n := pick(r, 1000, 5000, 15_000, r.in(20, 300), r.edge(6, 13), r.edge(6, 13))
	args := func(a ...string) spec.Cmd {
		for i, m := len(a), n+r.IntN(2); i < m; i++ {
			a = append(a, strconv.Itoa(r.in(0, 9999)))
		}
		return Cmd(a...)
	}
	pairs := func(a ...string) spec.Cmd {
		c := args(a...)
		if len(c.A)%2 != len(a)%2 {
			c.A = c.A[:len(c.A)-1]
		}
		return c
	}
	var cs []spec.Cmd
	for i, m := 0, r.in(1, 3); i < m; i++ {
		switch r.IntN(6) {
		case 0, 1:
			cs = append(cs, args(pick(r, "RPUSH", "LPUSH"), "l"), Cmd("LRANGE", "l", "0", "-1"))
		case 2:
			cs = append(cs, args("SADD", "s"), Cmd("SCARD", "s"))
		case 3:
			cs = append(cs, pairs("HSET", "h"), Cmd("HLEN", "h"))
		case 4:
			cs = append(cs, pairs("ZADD", "z"), Cmd("ZCARD", "z"), Cmd("ZRANGE", "z", "0", "50", "WITHSCORES"))
		case 5:
			cs = append(cs, pairs("MSET"), args("MGET"))
		}
	}
	c := r.script("c1", cs, 2, true)
	sp.Clients = append(sp.Clients, c, r.script("c2", []spec.Cmd{Cmd("PING"), Cmd("INCR", "n"), Cmd("PING")}, 1, false))
	sp.Audit = []spec.Cmd{Cmd("LLEN", "l"), Cmd("SMEMBERS", "s"), Cmd("HGETALL", "h"), Cmd("ZCARD", "z")}
}

// bulky makes the environment fit for megabytes.
func (r R) bulky(sp *spec.Spec) {
	k := &sp.Net
	k.SndBuf, k.RcvBuf, k.CliBuf = 0, 0, 0
	k.Seg = pick(r, 0, 1500, 9000)
	k.LossP, k.ShortReadP, k.PartWriteP, k.EagainP, k.EintrP = 0, 0, 0, 0, 0
	k.DelayMinUs, k.DelayMaxUs = 5, 50
	if sp.MeanGap > 0 {
		sp.MeanGap = 400
	}
}

// p08: keys of all types; EXISTS, DEL, TYPE, KEYS, wrong types, containers that
// become empty.
func p08(r R, sp *spec.Spec) {
	r.env(sp, true, true)
	n, ops, batch := r.shape()
	key := r.anyKey
	if r.p(30) {
		key = func() string { return pick(r, "k1", "k2") }
	}
	if n == 1 && r.p(25) { // a wide key space, over all shards
		key = func() string { return "k" + strconv.Itoa(r.in(0, 90)) }
		ops = r.in(60, 200)
	} else if n == 1 && r.p(15) {
		r.wide(sp)
	}
	clients(r, sp, n, ops, batch, func(int) spec.Cmd {
		k := key()
		switch r.IntN(20) {
		case 0:
			return Cmd("SET", k, "v")
		case 1:
			return Cmd("RPUSH", k, "a")
		case 2:
			return Cmd("SADD", k, "a")
		case 3:
			return Cmd("HSET", k, "f1", "1")
		case 4:
			return Cmd("ZADD", k, "1", "a")
		case 5:
			return pick(r, Cmd("LPOP", k), Cmd("RPOP", k), Cmd("LREM", k, "0", "a"), Cmd("LPOP", k, "5"))
		case 6:
			return pick(r, Cmd("SREM", k, "a"), Cmd("SPOP", k), Cmd("SMOVE", k, key(), "a"), Cmd("SPOP", k, "9"))
		case 7:
			return pick(r, Cmd("HDEL", k, "f1"), Cmd("HDEL", k, "f1", "f2"))
		case 8:
			return pick(r, Cmd("ZREM", k, "a"), Cmd("ZPOPMIN", k), Cmd("ZPOPMAX", k))
		case 9:
			return Cmd(pick(r, "SDIFFSTORE", "SINTERSTORE", "SUNIONSTORE"), k, key(), key())
		case 10, 11, 12, 13, 14, 15:
			return r.keyspace(key)
		}
		return r.recase(r.mixed(key))
	})
	sp.Audit = auditOf([]string{"k1", "k2", "k3", "k4", "kk"})
	if r.W > 0 {
		r.prefill(sp)
	}
}

// p09: multi-key commands against readers of several keys.
func p09(r R, sp *spec.Spec) {
	r.env(sp, true, true)
	if r.p(12) { // a command that takes longer than its client waits
		sp.Stalls = append(sp.Stalls, simhook.Stall{At: uint64(r.in(1, 3000)), DurMs: r.in(10_000, 30_000), Site: pick(r, "datastruct/", "datastruct/", "lib/")})
	}
	if sp.MeanGap == 0 || sp.MeanGap > 30 {
		sp.MeanGap = pick[uint64](r, 2, 5, 15)
	}
	n := r.in(2, 5)
	mode := r.IntN(5)
	seq := 0
	ops, batch := r.in(4, 60/n), pick(r, 1, 1, 4)
	many := func(pre []string, n int, f func(i int) []string) spec.Cmd {
		for i := 0; i < n; i++ {
			pre = append(pre, f(i)...)
		}
		return Cmd(pre...)
	}
	wide := 0
	if r.p(30) { // long commands: they are not done in parts either
		wide = pick(r, r.in(4, 12), r.in(4, 40), r.in(30, 150))
		ops = min(ops, 8)
	} else if r.p(10) { // a crowd
		n, ops, batch, sp.Stalls = r.in(8, 14), r.in(2, 4), 1, nil
	}
	clients(r, sp, n, ops, batch, func(c int) spec.Cmd {
		seq++
		v := fmt.Sprintf("c%d.%d", c, seq)
		k := func(i int) string { return "k" + strconv.Itoa(i) }
		one := func(i int) []string { return []string{k(i)} }
		all := func(i int) []string { return []string{k(i), v} }
		same := func(i int) []string { return []string{v} }
		switch {
		case wide == 0:
		case mode == 0:
			return pick(r, many([]string{"MSET"}, wide, all), many([]string{"MSET"}, wide, all), many([]string{"MGET"}, wide, one), many([]string{"MGET"}, wide, one), many([]string{"DEL"}, wide, one), many([]string{"EXISTS"}, wide, one), Cmd("KEYS", "*"))
		case mode == 1:
			return pick(r, many([]string{"SADD", "p"}, wide, one), many([]string{"SREM", "p"}, wide, one), Cmd("SCARD", "p"), Cmd("SMEMBERS", "p"), Cmd("SPOP", "p", strconv.Itoa(wide)), Cmd("SUNIONSTORE", "q", "p", "q"), Cmd("SMEMBERS", "q"), Cmd("SDIFF", "q", "p"))
		case mode == 2:
			m := min(wide, 45)
			return pick(r, Cmd("SADD", k(r.in(0, m-1)), v), many([]string{"SUNION"}, m, one), many([]string{"SUNIONSTORE", "d"}, m, one), Cmd("SCARD", "d"), many([]string{"DEL"}, m, one), many([]string{"SDIFF"}, m, one))
		case mode == 3:
			return pick(r, many([]string{"HSET", "h"}, wide, all), many([]string{"HMSET", "h"}, wide, all), many([]string{"HMGET", "h"}, wide, one), many([]string{"HDEL", "h"}, wide, one), Cmd("HGETALL", "h"), Cmd("HVALS", "h"), Cmd("HLEN", "h"))
		default:
			sc := strconv.Itoa(r.in(0, 9))
			return pick(r, many([]string{"RPUSH", "l"}, wide, same), many([]string{"LPUSH", "l"}, wide, same), Cmd("LPOP", "l", strconv.Itoa(wide)), Cmd("LRANGE", "l", "0", "-1"), Cmd("LLEN", "l"), Cmd("LREM", "l", "0", v),
				many([]string{"ZADD", "z"}, wide, func(i int) []string { return []string{sc, k(i)} }), many([]string{"ZREM", "z"}, wide, one), Cmd("ZCARD", "z"), Cmd("ZPOPMIN", "z", strconv.Itoa(wide)), Cmd("ZRANGE", "z", "0", "-1", "WITHSCORES"))
		}
		switch mode {
		case 0: // all-or-nothing writes of several strings
			switch r.IntN(5) {
			case 0, 1:
				return Cmd("MSET", "a", v, "b", v, "c", v)
			case 2:
				return Cmd("DEL", "a", "b", "c")
			case 3:
				return pick(r, Cmd("EXISTS", "a", "b", "c"), Cmd("KEYS", "*"))
			}
			return Cmd("MGET", "a", "b", "c")
		case 1: // members move, none is lost or doubled
			switch r.IntN(6) {
			case 0:
				return Cmd("SADD", "p", pick(r, "x", "y", "z"))
			case 1, 2:
				return Cmd("SMOVE", pick(r, "p", "q"), pick(r, "p", "q"), pick(r, "x", "y", "z"))
			case 3:
				return Cmd("SUNION", "p", "q")
			case 4:
				return Cmd("SINTER", "p", "q")
			}
			return Cmd(pick(r, "SMEMBERS", "SCARD"), pick(r, "p", "q"))
		case 2: // stores are snapshots, independent of their sources afterwards
			switch r.IntN(7) {
			case 0, 1:
				return Cmd("SADD", pick(r, "p", "q"), pick(r, "x", "y", "z"), pick(r, "x", "y", "z"))
			case 2:
				return Cmd("SREM", pick(r, "p", "q", "d"), pick(r, "x", "y", "z"))
			case 3, 4:
				return Cmd(pick(r, "SUNIONSTORE", "SDIFFSTORE", "SINTERSTORE"), pick(r, "d", "d", "p"), "p", "q")
			case 5:
				return Cmd(pick(r, "SUNIONSTORE", "SDIFFSTORE", "SINTERSTORE"), "d", "p")
			}
			return Cmd("SMEMBERS", pick(r, "p", "q", "d"))
		case 3: // several elements of one key at once
			switch r.IntN(8) {
			case 0:
				return Cmd("RPUSH", "l", v, v, v)
			case 1:
				return Cmd("LPUSH", "l", v, v)
			case 2:
				return Cmd("LPOP", "l", "2")
			case 3:
				return Cmd("LRANGE", "l", "0", "-1")
			case 4:
				return Cmd("HSET", "h", "a", v, "b", v)
			case 5:
				return Cmd("HMGET", "h", "a", "b")
			case 6:
				return Cmd("ZADD", "z", strconv.Itoa(r.in(0, 9)), "a", strconv.Itoa(r.in(0, 9)), "b")
			}
			return pick(r, Cmd("ZRANGE", "z", "0", "-1", "WITHSCORES"), Cmd("HGETALL", "h"), Cmd("LLEN", "l"), Cmd("ZPOPMIN", "z", "2"))
		}
		// counters and queues: nothing lost, nothing twice
		switch r.IntN(8) {
		case 0, 1:
			return Cmd("INCR", "n")
		case 2:
			return Cmd("INCRBY", "n", "10")
		case 3:
			return Cmd("HINCRBY", "h", "n", "1")
		case 4:
			return Cmd("ZINCR", "z", "1", "m")
		case 5:
			return Cmd("RPUSH", "l", v)
		case 6:
			return Cmd(pick(r, "LPOP", "RPOP"), "l")
		}
		return pick(r, Cmd("GET", "n"), Cmd("HGET", "h", "n"), Cmd("ZSCORE", "z", "m"), Cmd("LRANGE", "l", "0", "-1"))
	})
	sp.Audit = []spec.Cmd{Cmd("MGET", "a", "b", "c"), Cmd("SMEMBERS", "p"), Cmd("SMEMBERS", "q"), Cmd("SMEMBERS", "d"), Cmd("LRANGE", "l", "0", "-1"),
		Cmd("HGETALL", "h"), Cmd("ZRANGE", "z", "0", "-1", "WITHSCORES"), Cmd("GET", "n")}
}

// hostile draws bytes that are not a valid request, or only part of one.
func (r R) hostile() []byte {
	// no mutation makes a key of it that anybody else uses
	full := "*3\r\n$3\r\nSET\r\n$8\r\n~hostile\r\n$5\r\nhello\r\n"
	switch r.IntN(16) {
	case 0:
		return []byte(full[:r.in(1, len(full)-1)])
	case 1:
		return []byte(pick(r, "$-5\r\n", "*-3\r\n", "*-1\r\n", "$-1\r\n", "*0\r\n", "*\r\n", "$\r\n", "$abc\r\n", "*1x\r\n", "*+1\r\n"))
	case 2:
		return []byte(pick(r, "*99999999999999999999\r\n", "*1000000000\r\n", "$9223372036854775807\r\n", "*2147483647\r\n$1\r\n", "$4294967296\r\n", "*1\r\n$9999999999\r\n", "*1048577\r\n", "$600000000\r\nabc"))
	case 3:
		return []byte(pick(r, "\r\n", "\n", "\r", "\x00", "\n\n\n", "\r\n\r\n", " \r\n", "a\n"))
	case 4:
		return []byte(strings.Repeat("*1\r\n", pick(r, 5, 1000, 60000)))
	case 5:
		return []byte("*2\r\n$3\r\nGETx\n$1\r\nk\r\n")
	case 6:
		return []byte("*2\r\n$3\r\nGET\r\n$1\r\nkk\r\n")
	case 7:
		return []byte(pick(r, "*1\r\n*1\r\n$4\r\nPING\r\n", "*1\r\n:5\r\n", "*1\r\n+x\r\n", "*2\r\n$3\r\nGET\r\n*0\r\n", "*1\r\n$-1\r\n", "*3\r\n$3\r\nSET\r\n$-1\r\n$1\r\nv\r\n"))
	case 8:
		return []byte(pick(r, "+\r\n", "-\r\n", ":\r\n", ":5\r\n", "-ERR\r\n", "+\n", "PING", "GET k", "+PING\n", ":\n", "$3\nGET\n", "$5\nhello"))
	case 9:
		b := []byte(full)
		for i, n := 0, r.in(1, 3); i < n; i++ {
			b[r.IntN(len(b))] = byte(r.IntN(256))
		}
		return b
	case 10:
		b := []byte(full)
		i := r.IntN(len(b))
		return append(b[:i:i], b[i+1:]...)
	case 11:
		b := []byte(full)
		i := r.IntN(len(b))
		return append(append(b[:i:i], byte(r.IntN(256))), b[i:]...)
	case 12:
		return []byte(strings.Repeat("x", pick(r, 100, 70000, 300000)))
	case 13:
		return []byte(pick(r, "*", "$", "*3\r\n", "*3\r\n$", "*3\r\n$3", "*3\r\n$3\r", "*3\r\n$3\r\nSE"))
	}
	b := make([]byte, r.in(1, 200))
	for i := range b {
		b[i] = byte(pick(r, 13, 10, '*', '$', '1', '0', '9', '-', ':', '+', 0, 255, r.in(0, 255)))
	}
	return b
}

// broken draws a stream that no more bytes could turn into requests.
func (r R) broken() spec.Step {
	big := pick(r, "99999999999999999999", "9223372036854775808", "1x", "abc", "--1", "0x10", "1.5")
	bad := pick(r, "*"+big+"\r\n", "*2\r\n$"+big+"\r\n", "*2\r\n$3\r\nGET\r\n$"+big+"\r\n", "*2\r\n$-7\r\n",
		"*1\r\n*1\r\n$4\r\nPING\r\n", "*2\r\n$3\r\nGETxyz$1\r\nk\r\n", "*2\r\n$3\r\nGET\r\nGARBAGE\r\n", "*1\r\n$4\r\nPINGPONG\r\n", "*2\r\n?\r\n\r\n")
	st := spec.Step{Op: "expect", Replies: r.in(0, 2)}
	st.Raw = []byte(strings.Repeat("*1\r\n$4\r\nPING\r\n", st.Replies) + bad)
	if r.p(30) {
		st.Cut = []int{r.in(1, len(st.Raw)-1)}
		st.CutUs = pick(r, 10, 1000)
	}
	return st
}

// tails: pipelines that end in malformed bytes or in a half-close; what came
// before is answered.
func (r R) tails(sp *spec.Spec, cmd func() spec.Cmd) {
	for i, n := 0, r.in(1, 2); i < n; i++ {
		c := spec.Client{Name: "t" + strconv.Itoa(i+1), StartMs: r.in(0, 5)}
		for k, m := 0, r.in(1, 3); k < m; k++ {
			st := spec.Step{Op: "send"}
			for j, l := 0, r.in(1, 8); j < l; j++ {
				if c := cmd(); string(c.A[0]) != "KEYS" { // sees the hostile clients' keys
					st.Cmds = append(st.Cmds, c)
				}
			}
			end := spec.Step{Op: "raw", Tail: true, Raw: r.broken().Raw}
			end.Raw = bytes.TrimPrefix(end.Raw, []byte("*1\r\n$4\r\nPING\r\n"))
			end.Raw = bytes.TrimPrefix(end.Raw, []byte("*1\r\n$4\r\nPING\r\n"))
			if sp.Server == "v1" && r.p(50) { // gnet drops what a client that shuts its side down has sent
				end = spec.Step{Op: "half", Tail: true}
			}
			c.Steps = append(c.Steps, spec.Step{Op: "open"}, st, end, spec.Step{Op: "wait"})
		}
		sp.Clients = append(sp.Clients, c)
	}
}

// flood is a lot that costs the server nothing to refuse or to ignore.
func (r R) flood() []byte {
	n := pick(r, 200_000, 200_000, 1_000_000, 2_000_000)
	rep := func(head, s string) []byte { return []byte(head + strings.Repeat(s, n/len(s))) }
	switch r.IntN(8) {
	case 0:
		return rep("", pick(r, "a", "*", "$", "\r", "*1"))
	case 1:
		return rep("*1048576\r\n", "$1\r\na\r\n")
	case 2:
		return rep("*1048576\r\n", "$0\r\n\r\n")
	case 3:
		return rep("$500000000\r\n", "abc")
	case 4:
		return rep("*3\r\n$3\r\nSET\r\n$1\r\nk\r\n$500000000\r\n", "abc\r\n")
	case 5:
		return rep("*1048576\r\n$", "1")
	case 6:
		return rep("*1048576\r\n", "+\r\n")
	}
	return rep("*1048576\r\n", "$100\r\n"+strings.Repeat("b", 100)+"\r\n")
}

// smuggle draws bytes that break the protocol inside a request and go on with
// what would set a key if the server went on: if the bad part were skipped, or
// if the rest were taken for a request of its own. Nothing of it may happen.
func (r R) smuggle(key string) []byte {
	bad := pick(r, "$abc\r\n", "$-5\r\n", "$99999999999\r\n", "$600000000\r\n", "*1\r\n", "*1\r\n$1\r\nx\r\n", "GARBAGE\r\n", "xyz\r\n", "$\r\n", "$1x\r\n", "$ 1\r\n", "\r\n", "\n", "$0x1\r\n", "$1\n")
	k := fmt.Sprintf("$%d\r\n%s\r\n", len(key), key)
	set := "*3\r\n$3\r\nSET\r\n" + k + "$1\r\nv\r\n"
	switch r.IntN(7) {
	case 0:
		return []byte("*4\r\n$3\r\nSET\r\n" + k + bad + "$1\r\nv\r\n")
	case 1:
		return []byte("*4\r\n$3\r\nSET\r\n" + bad + k + "$1\r\nv\r\n")
	case 2:
		return []byte("*4\r\n" + bad + "$3\r\nSET\r\n" + k + "$1\r\nv\r\n")
	case 3:
		return []byte("*4\r\n$3\r\nSET\r\n" + k + "$1\r\nv\r\n" + bad)
	case 4:
		return []byte(pick(r, "*abc\r\n", "*2147483647\r\n", "*1048577\r\n", "*3x\r\n", "*99999999999999999999\r\n", "*3\r", "*\r\n") + set)
	case 5:
		return []byte("*2\r\n$3\r\nGET\r\n" + bad + set)
	}
	return []byte("*3\r\n$3\r\nSET\r\n" + k + bad + "x\r\n" + set)
}

// costly draws a key and a pattern that take a matcher very long if it tries
// everything, or that are deeply nested.
func (r R) costly() spec.Cmd {
	unit := pick(r, "a*", "*a", "?*", "*?", "[a]*", "*[ab]", "?a", "a?", "[a]", "{a}", "{a,b}", "*{a,b}", "{*,a}", "{a*,b?}", "[!b]*", "\\a*", "**a", "{", "{a,", "[", "*", "(a+)+")
	if r.p(35) {
		return Cmd("SET", strings.Repeat(pick(r, "a", "a", "ab", "A"), pick(r, 1, 20, 60, 200, 1000)), "1")
	}
	n := pick(r, 5, 10, 20, 40, 100, 400)
	if strings.Contains("{a,[", unit) && r.p(20) {
		n = pick(r, 10_000, 300_000)
	}
	return Cmd("KEYS", strings.Repeat(unit, n)+pick(r, "", "b", "b", "}", "]"))
}

// p10: hostile and vanishing clients next to honest ones.
func p10(r R, sp *spec.Spec) {
	if r.IntN(50) == 0 {
		memory(r, sp)
		return
	}
	r.env(sp, true, true)
	costly := r.p(20)
	clients(r, sp, r.in(1, 3), r.in(3, 15), pick(r, 1, 3), func(c int) spec.Cmd {
		switch r.IntN(6) {
		case 0:
			if costly {
				return r.costly()
			}
			return Cmd("KEYS", pick(r, "[", "[a-", "{a", "\\", "[^", "*[", "}", "a]", "[]", "{,}", "***", "?", "[z-a]", "{[}", "\xff*", "[!", "{a,{b,c}"))
		case 1:
			return r.odd(r.anyKey)
		}
		return r.mixed(r.anyKey)
	})
	// KEYS with odd patterns: any well-formed answer will do
	for i := range sp.Clients {
		for j := range sp.Clients[i].Steps {
			st := &sp.Clients[i].Steps[j]
			for _, c := range st.Cmds {
				if len(c.A) == 2 && string(c.A[0]) == "KEYS" {
					st.Free = true
				}
			}
			if st.Free { // keep the checked requests checked
				var keys, rest []spec.Cmd
				for _, c := range st.Cmds {
					if len(c.A) == 2 && string(c.A[0]) == "KEYS" {
						keys = append(keys, c)
					} else {
						rest = append(rest, c)
					}
				}
				st.Cmds, st.Cut = keys, nil
				if len(rest) > 0 {
					sp.Clients[i].Steps = append(sp.Clients[i].Steps, spec.Step{Op: "call", Cmds: rest})
				}
			}
		}
	}
	if r.p(20) {
		r.tails(sp, func() spec.Cmd { return r.mixed(r.anyKey) })
	}
	h, evil := r.in(1, 4), 0
	for i := 0; i < h; i++ {
		c := spec.Client{Name: "h" + strconv.Itoa(i+1), StartMs: r.in(0, 10)}
		for k, n := 0, r.in(1, 4); k < n; k++ {
			c.Steps = append(c.Steps, spec.Step{Op: "open"})
			if r.p(30) {
				c.Steps = append(c.Steps, spec.Step{Op: "call", Cmds: []spec.Cmd{Cmd("SET", fmt.Sprintf("hx%d", i), "1")}, Free: true})
			}
			if r.IntN(300) == 0 { // much of it
				r.bulky(sp)
				c.Steps = append(c.Steps, spec.Step{Op: "raw", Raw: r.flood()}, spec.Step{Op: "drain", Ms: r.in(1, 2000)})
				continue
			}
			if r.p(12) { // and wait for what comes of it
				c.Steps = append(c.Steps, r.broken())
				if r.p(50) {
					c.Steps = append(c.Steps, spec.Step{Op: pick(r, "close", "reset")})
					continue
				}
			}
			switch r.IntN(6) {
			case 0: // ask and leave without reading
				st := spec.Step{Op: "send", Free: true}
				for j, m := 0, r.in(1, 20); j < m; j++ {
					st.Cmds = append(st.Cmds, pick(r, Cmd("GET", "k1"), Cmd("LRANGE", "k2", "0", "-1"), Cmd("PING"), Cmd("KEYS", "*")))
				}
				c.Steps = append(c.Steps, st)
			case 1:
				st := spec.Step{Op: "raw", Raw: r.hostile()}
				if len(st.Raw) > 3 && r.p(40) {
					st.Cut = []int{r.in(1, len(st.Raw)-1)}
					st.CutUs = pick(r, 10, 1000)
				}
				c.Steps = append(c.Steps, st)
			case 2:
				evil++
				st := spec.Step{Op: "raw", Raw: r.smuggle(fmt.Sprintf("evil%d", evil))}
				if r.p(30) {
					st.Cut = []int{r.in(1, len(st.Raw)-1)}
					st.CutUs = pick(r, 10, 1000)
				}
				c.Steps = append(c.Steps, st)
			default:
				for j, m := 0, r.in(1, 3); j < m; j++ {
					c.Steps = append(c.Steps, spec.Step{Op: "raw", Raw: r.hostile()})
				}
			}
			switch r.IntN(5) {
			case 0:
				c.Steps = append(c.Steps, spec.Step{Op: "reset"})
			case 1:
				c.Steps = append(c.Steps, spec.Step{Op: "close"})
			case 2:
				c.Steps = append(c.Steps, spec.Step{Op: "half"}, spec.Step{Op: "drain", Ms: r.in(1, 500)}, spec.Step{Op: "close"})
			case 3:
				c.Steps = append(c.Steps, spec.Step{Op: "drain", Ms: r.in(1, 2000)}, spec.Step{Op: "reset"})
			case 4:
				c.Steps = append(c.Steps, spec.Step{Op: "sleep", Ms: r.in(1, 50)}, spec.Step{Op: "reset"})
			}
		}
		sp.Clients = append(sp.Clients, c)
	}
	sp.Audit = []spec.Cmd{Cmd("PING"), Cmd("SET", "after", "x"), Cmd("GET", "after")}
	for i := 1; i <= evil; i++ {
		sp.Audit = append(sp.Audit, Cmd("GET", fmt.Sprintf("evil%d", i)))
	}
	sp.Settle = r.p(25)
}

// p11: refused commands leave no trace.
func p11(r R, sp *spec.Spec) {
	r.env(sp, true, false)
	n, ops, batch := r.shape()
	key := func() string { return pick(r, "k1", "k2", "k3") }
	clients(r, sp, n, ops, batch, func(int) spec.Cmd {
		k := key()
		switch r.IntN(16) {
		case 0:
			return pick(r, Cmd("SET", k, r.value()), Cmd("SET", k, pick(r, bigInts[:7]...)), Cmd("RPUSH", k, "a", "b"), Cmd("SADD", k, "a", "b"), Cmd("HSET", k, "f1", r.hval()), Cmd("ZADD", k, "1", "a", "2", "b"))
		case 1:
			return Cmd("DEL", k)
		case 2, 3, 4, 5:
			return r.odd(key)
		case 6: // wrong type
			return r.mixed(key)
		case 7:
			return pick(r, Cmd("INCR", k), Cmd("DECR", k), Cmd("INCRBY", k, pick(r, bigInts[:7]...)), Cmd("DECRBY", k, pick(r, bigInts[:7]...)))
		case 8:
			return pick(r, Cmd("HINCRBY", k, "f1", pick(r, bigInts[:7]...)), Cmd("HINCRBYFLOAT", k, "f1", pick(r, "inf", "1.7e308", "x", "-1.7e308")))
		case 9:
			return pick(r, Cmd("SMOVE", k, key(), "a"), Cmd("SUNIONSTORE", k, key(), key()), Cmd("SDIFFSTORE", k, key(), key()), Cmd("SINTERSTORE", k, key(), key()))
		case 10:
			return pick(r, Cmd("ZINCR", k, pick(r, "inf", "-inf", "nan"), "a"), Cmd("ZADD", k, "5", "a", "x", "b"), Cmd("ZADD", k, "5", "a", "6"))
		case 11:
			return pick(r, Cmd("LSET", k, "9", "z"), Cmd("LPOP", k, "-1"), Cmd("RPOP", k, "x"), Cmd("LREM", k, "y", "a"))
		case 12:
			return Cmd("EXISTS", k)
		}
		return pick(r, Cmd("TYPE", k), Cmd("GET", k), Cmd("LRANGE", k, "0", "-1"), Cmd("SMEMBERS", k), Cmd("HGETALL", k), Cmd("ZRANGE", k, "0", "-1", "WITHSCORES"), Cmd("KEYS", "*"))
	})
	sp.Audit = auditOf([]string{"k1", "k2", "k3"})
}

// p12: execution stalls around and beyond the 10 s limit, in any component;
// everybody is answered, nothing runs twice, service resumes.
func p12(r R, sp *spec.Spec) {
	r.env(sp, false, false)
	at := uint64(r.in(1, 400))
	for i, n := 0, r.in(1, 3); i < n; i++ {
		sp.Stalls = append(sp.Stalls, simhook.Stall{
			At: at, DurMs: pick(r, r.in(1, 5000), r.in(8000, 9999), r.in(10_001, 14_000), r.in(10_001, 60_000)),
			Site: pick(r, "datastruct/", "event/", "redis/", "datastruct/", "server/", "protocol/", ""),
		})
		at += uint64(r.in(1, 900))
	}
	if r.p(40) { // only execution itself stalls: everybody is answered soon after the limit
		sp.Profile = "limit"
		for i := range sp.Stalls {
			sp.Stalls[i].Site = "datastruct/"
		}
	}
	clients(r, sp, r.in(1, 6), r.in(2, 8), pick(r, 1, 1, 3), func(c int) spec.Cmd {
		switch r.IntN(6) {
		case 0, 1:
			return Cmd("INCR", "n")
		case 2:
			return Cmd("RPUSH", "l", fmt.Sprintf("c%d.%d", c, r.in(0, 99999)))
		case 3:
			return Cmd("GET", "n")
		case 4:
			return Cmd("LRANGE", "l", "0", "-1")
		}
		return r.mixed(r.anyKey)
	})
	for i := range sp.Clients {
		if r.p(40) {
			sp.Clients[i].StartMs = r.in(0, 20_000)
		}
	}
	sp.Audit = []spec.Cmd{Cmd("PING"), Cmd("GET", "n"), Cmd("LRANGE", "l", "0", "-1"), Cmd("SET", "after", "x"), Cmd("GET", "after")}
	sp.Settle = r.p(40)
}

// p13: a termination signal at any moment.
func p13(r R, sp *spec.Spec) {
	r.env(sp, false, false)
	if r.p(20) {
		sp.Stalls = append(sp.Stalls, simhook.Stall{At: uint64(r.in(1, 1500)), DurMs: pick(r, r.in(1, 400), r.in(1, 4000)), Site: pick(r, "", "datastruct/", "event/", "server/", "redis/", "cmd/")})
	}
	if r.p(8) { // the server gives up waiting for its connections
		sp.Stalls = []simhook.Stall{{At: uint64(r.in(1, 1500)), DurMs: r.in(4800, 25_000), Site: pick(r, "", "datastruct/", "event/", "server/", "redis/")}}
	}
	sp.Net.DelayMaxUs = min(sp.Net.DelayMaxUs, 5000)
	sp.Net.DelayMinUs = min(sp.Net.DelayMinUs, 100)
	sp.SigAtMs = pick(r, 0, r.in(0, 3), r.in(0, 20), r.in(0, 60), r.in(0, 1000))
	if r.p(15) {
		sp.Sig2AtMs = sp.SigAtMs + r.in(0, 300)
	}
	sp.SigInt = r.p(20)
	clients(r, sp, r.in(0, 6), r.in(2, 25), pick(r, 1, 3, 10), func(c int) spec.Cmd {
		switch r.IntN(6) {
		case 0, 1:
			return Cmd("INCR", "n")
		case 2:
			return Cmd("RPUSH", "l", fmt.Sprintf("c%d.%d", c, r.in(0, 99999)))
		case 3:
			return Cmd("GET", "n")
		}
		return r.mixed(r.anyKey)
	})
	for i := range sp.Clients {
		if r.p(50) {
			sp.Clients[i].StartMs = r.in(0, 30)
		}
		if r.p(30) {
			s := &sp.Clients[i].Steps
			*s = append(*s, spec.Step{Op: "sleep", Ms: r.in(1, 2000)}, spec.Step{Op: "call", Cmds: []spec.Cmd{Cmd("GET", "n")}})
		}
	}
	if r.p(15) { // some arrive at the moment of the signal
		if r.p(50) && len(sp.Clients) > 1 {
			sp.Clients = sp.Clients[:1]
		}
		for i := range sp.Clients {
			if len(sp.Clients) == 1 || r.p(60) {
				sp.Clients[i].StartMs = max(0, sp.SigAtMs+r.in(-1, 1))
			}
		}
	}
	if r.p(25) { // somebody hostile is connected when the signal comes
		sp.Clients = append(sp.Clients, spec.Client{Name: "h1", Steps: []spec.Step{{Op: "open"}, {Op: "raw", Raw: r.hostile()}, {Op: "drain", Ms: r.in(1, 3000)}}})
	}
	for _, c := range sp.Clients { // the hostile client may write keys of its own
		for _, st := range c.Steps {
			for i, cmd := range st.Cmds {
				if strings.EqualFold(string(cmd.A[0]), "keys") {
					st.Cmds[i] = Cmd("PING")
				}
			}
		}
	}
	if r.p(15) {
		sp.Clients = append(sp.Clients, spec.Client{Name: "idle", Steps: []spec.Step{{Op: "open"}, {Op: "drain", Ms: r.in(1, 20_000)}}})
	}
}

// stop: and there are clients that have not read all their replies.
func stop(r R, sp *spec.Spec) {
	p13(r, sp)
	if r.p(20) {
		r.unread(sp)
	}
}

// giveUp: a command takes so long that the server stops without waiting for
// what is under way.
func giveUp(r R, sp *spec.Spec) {
	p13(r, sp)
	sp.Stalls = []simhook.Stall{{At: uint64(r.in(1, 400)), DurMs: r.in(5000, 12_000), Site: pick(r, "datastruct/", "event/", "redis/", "")}}
	sp.SigAtMs, sp.Sig2AtMs = r.in(0, 400), 0
	sp.Clients = nil
	clients(r, sp, r.in(2, 6), r.in(10, 40), 10, func(int) spec.Cmd { return r.mixed(r.anyKey) })
	for i := range sp.Clients {
		sp.Clients[i].StartMs = pick(r, 0, 0, r.in(0, 50), r.in(4900, 5100))
	}
}

// unread: clients that have not read all their replies when the signal comes.
func (r R) unread(sp *spec.Spec) {
	sp.Stalls = nil
	sp.Net.DelayMaxUs = min(sp.Net.DelayMaxUs, 1000)
	buf := pick(r, 64, 512, 4096)
	sp.Net.SndBuf, sp.Net.RcvBuf, sp.Net.CliBuf = buf, buf, 4096
	for i, n := 0, r.in(1, 3); i < n; i++ {
		name := "w" + strconv.Itoa(i+1)
		key := "big" + name
		val := strings.Repeat("0123456789", r.in(1, buf/2))
		st := spec.Step{Op: "send"}
		for k, m := 0, r.in(1, 8); k < m; k++ {
			st.Cmds = append(st.Cmds, Cmd("GET", key))
		}
		c := spec.Client{Name: name, Steps: []spec.Step{{Op: "open"}, {Op: "call", Cmds: []spec.Cmd{Cmd("SET", key, val)}}}}
		if r.p(85) {
			c.Steps = append(c.Steps, spec.Step{Op: "pause", Ms: pick(r, r.in(1, 100), r.in(100, 1500), r.in(2000, 20_000), r.in(60_000, 200_000))})
		}
		c.Steps = append(c.Steps, st, spec.Step{Op: "wait"})
		sp.Clients = append(sp.Clients, c)
	}
	sp.SigAtMs = pick(r, r.in(0, 60), r.in(10, 300), r.in(0, 2000))
	sp.Sig2AtMs = 0
}

// p14: idle, slow, stalled and partitioned clients do not hold up the others.
func p14(r R, sp *spec.Spec) {
	if r.p(5) {
		fair(r, sp)
		return
	}
	r.env(sp, false, false)
	sp.Net.DelayMaxUs = min(sp.Net.DelayMaxUs, 2000)
	sp.Net.DelayMinUs = min(sp.Net.DelayMinUs, 20)
	sp.Net.CliBuf = pick(r, 64, 1024, 0)
	sp.Net.SndBuf = pick(r, 64, 1024, 0)
	sp.Net.RcvBuf = pick(r, 64, 1024, 0)
	clients(r, sp, r.in(1, 4), r.in(3, 12), 1, func(c int) spec.Cmd {
		switch r.IntN(5) {
		case 0:
			return Cmd("INCR", "n")
		case 1:
			return Cmd("GET", "n")
		}
		return r.mixed(r.anyKey)
	})
	for i := range sp.Clients {
		sp.Clients[i].StartMs = r.in(0, 50)
	}
	big := strings.Repeat("0123456789", r.in(10, 8000))
	for i, n := 0, r.in(1, 12); i < n; i++ {
		name := "w" + strconv.Itoa(i+1)
		c := spec.Client{Name: name, StartMs: r.in(0, 20), Steps: []spec.Step{{Op: "open"}}}
		switch r.IntN(5) {
		case 0: // idle
			c.Steps = append(c.Steps, spec.Step{Op: "sleep", Ms: r.in(100, 20_000)})
		case 1: // starts a request and never finishes it
			c.Steps = append(c.Steps, spec.Step{Op: "raw", Raw: []byte(pick(r, "*2\r\n$3\r\nGET\r\n$1", "*", "*3\r\n$3\r\nSET\r\n$1\r\nk\r\n$500000\r\nabc", "$"))}, spec.Step{Op: "sleep", Ms: r.in(100, 20_000)})
		case 2, 3: // asks for a lot and does not read it
			key := "big" + name
			st := spec.Step{Op: "send"}
			for k, m := 0, r.in(1, 20); k < m; k++ {
				st.Cmds = append(st.Cmds, Cmd("GET", key))
			}
			c.Steps = append(c.Steps, spec.Step{Op: "call", Cmds: []spec.Cmd{Cmd("SET", key, big)}},
				spec.Step{Op: "pause", Ms: r.in(500, 20_000)}, st, spec.Step{Op: "sleep", Ms: r.in(10, 3000)})
			if r.p(50) {
				c.Steps = append(c.Steps, spec.Step{Op: pick(r, "reset", "close")})
			} else {
				c.Steps = append(c.Steps, spec.Step{Op: "wait"})
			}
		case 4: // partitioned in the middle of a request
			from := r.in(0, 50)
			sp.Net.Partitions = append(sp.Net.Partitions, simkern.Part{FromMs: from, ToMs: from + r.in(100, 20_000), Conns: []string{name + ".1"}})
			c.Steps = append(c.Steps, spec.Step{Op: "call", Cmds: []spec.Cmd{Cmd("GET", "n")}}, spec.Step{Op: "sleep", Ms: r.in(1, 100)},
				spec.Step{Op: "call", Cmds: []spec.Cmd{Cmd("INCR", "n"), Cmd("PING")}})
		}
		sp.Clients = append(sp.Clients, c)
	}
	sp.Audit = []spec.Cmd{Cmd("PING"), Cmd("GET", "n")}
	sp.Profile = "latency"
}

// fair: others pipeline thousands of requests at once; nobody waits for all of
// them. Only with a fair scheduler.
func fair(r R, sp *spec.Spec) {
	r.env(sp, false, false)
	sp.Policy = pick[uint32](r, 0, 1)
	sp.Demotes = nil
	sp.Net.DelayMinUs, sp.Net.DelayMaxUs = 0, 0 // virtual time stands still while anybody is busy
	for i, n := 1, r.in(1, 3); i <= n; i++ {
		name := "f" + strconv.Itoa(i)
		st := spec.Step{Op: "call", Free: true}
		for k, m := 0, r.in(2500, 5000); k < m; k++ {
			st.Cmds = append(st.Cmds, Cmd("INCR", name))
		}
		sp.Clients = append(sp.Clients, spec.Client{Name: name, Steps: []spec.Step{{Op: "open"}, {Op: "call", Cmds: []spec.Cmd{Cmd("PING")}}, st}})
	}
	for i, n := 1, r.in(1, 3); i <= n; i++ {
		c := spec.Client{Name: "c" + strconv.Itoa(i), Steps: []spec.Step{{Op: "open"}}}
		for k, m := 0, r.in(5, 20); k < m; k++ {
			c.Steps = append(c.Steps, spec.Step{Op: "call", Cmds: []spec.Cmd{pick(r, Cmd("INCR", "n"), Cmd("GET", "n"), Cmd("PING"))}})
		}
		sp.Clients = append(sp.Clients, c)
	}
	sp.Audit = []spec.Cmd{Cmd("PING"), Cmd("GET", "n")}
	sp.Profile = "fair"
}

// p15: many connections and disconnects; afterwards nothing is left behind.
func p15(r R, sp *spec.Spec) {
	if r.IntN(15) == 0 {
		memory(r, sp)
		return
	}
	r.env(sp, true, false)
	sp.Settle = true
	n := pick(r, r.in(2, 10), r.in(2, 10), r.in(20, 60))
	for i := 1; i <= n; i++ {
		c := spec.Client{Name: "c" + strconv.Itoa(i), StartMs: r.in(0, 20)}
		for k, m := 0, r.in(1, 3); k < m; k++ {
			c.Steps = append(c.Steps, spec.Step{Op: "open"})
			for j, q := 0, r.in(0, 3); j < q; j++ {
				st := spec.Step{Op: pick(r, "call", "send"), Free: true}
				for x, y := 0, r.in(1, 4); x < y; x++ {
					st.Cmds = append(st.Cmds, pick(r, Cmd("INCR", "n"), Cmd("PING"), Cmd("GET", "n"), r.mixed(r.anyKey)))
				}
				c.Steps = append(c.Steps, st)
			}
			switch r.IntN(7) {
			case 0:
				c.Steps = append(c.Steps, spec.Step{Op: "reset"})
			case 1, 2:
				c.Steps = append(c.Steps, spec.Step{Op: "close"})
			case 3:
				c.Steps = append(c.Steps, spec.Step{Op: "half"}, spec.Step{Op: "drain", Ms: r.in(1, 300)}, spec.Step{Op: "close"})
			case 4:
				c.Steps = append(c.Steps, spec.Step{Op: "raw", Raw: r.hostile()}, spec.Step{Op: pick(r, "close", "reset")})
			case 5:
				c.Steps = append(c.Steps, spec.Step{Op: "raw", Raw: []byte("*2\r\n$3\r\nGET\r\n$1")}, spec.Step{Op: pick(r, "close", "reset", "half")})
			case 6:
				c.Steps = append(c.Steps, spec.Step{Op: "sleep", Ms: r.in(1, 100)})
			}
		}
		sp.Clients = append(sp.Clients, c)
	}
	sp.Audit = []spec.Cmd{Cmd("PING")}
}

// small gives steps that name n different things each and leave none behind.
func (r R) small(k string, n int) []spec.Step {
	var out []spec.Step
	each := func(a ...string) { // % is the number of the thing
		st := spec.Step{Op: "bulk", Replies: n}
		for i := 0; i < n; i++ {
			st.Raw = append(st.Raw, fmt.Sprintf("*%d\r\n", len(a))...)
			for _, x := range a {
				x = strings.ReplaceAll(x, "%", strconv.Itoa(i))
				st.Raw = append(st.Raw, fmt.Sprintf("$%d\r\n%s\r\n", len(x), x)...)
			}
		}
		out = append(out, st)
	}
	del := func(key string) {
		b := fmt.Sprintf("*2\r\n$3\r\nDEL\r\n$%d\r\n%s\r\n", len(key), key)
		out = append(out, spec.Step{Op: "bulk", Raw: []byte(b), Replies: 1})
	}
	x := k + ".%"
	switch r.IntN(12) {
	case 0:
		each("nope%")
	case 1:
		each(pick(r, "GET", "EXISTS", "TYPE", "LLEN", "LPOP", "SMEMBERS", "SPOP", "HGETALL", "ZCARD", "ZPOPMIN", "DEL", "KEYS"), x)
	case 2:
		each(pick(r, "HGET", "HDEL", "SREM", "ZREM", "ZSCORE", "ZRANK", "SISMEMBER", "LINDEX", "INCRBY"), x, "x")
	case 3:
		each("SET", x, "v")
		each(pick(r, "SET", "APPEND", "MSET"), x, "w")
		each("DEL", x)
	case 4:
		each(pick(r, "INCR", "DECR"), x)
		each("DEL", x)
	case 5:
		each(pick(r, "RPUSH", "LPUSH"), x, "a", "b")
		each(pick(r, "LPOP", "RPOP"), x, "2")
	case 6:
		each("SADD", x, "a")
		each(pick(r, "SINTERSTORE", "SUNIONSTORE"), x+"d", x, x)
		each("SMOVE", x, x+"m", "a")
		each("DEL", x+"d", x+"m")
	case 7:
		each("SADD", k, "%")
		if r.p(50) {
			each("SREM", k, "%")
		} else {
			del(k)
		}
	case 8:
		each("HSET", k, "%", "1")
		if r.p(50) {
			each("HINCRBY", k, "%", "2")
		}
		if r.p(50) {
			each("HDEL", k, "%")
		} else {
			del(k)
		}
	case 9:
		each("ZADD", k, pick(r, "%", "1"), "%")
		if r.p(50) {
			each("ZINCR", k, "3", "%")
		}
		switch r.IntN(3) {
		case 0:
			each("ZREM", k, "%")
		case 1:
			each(pick(r, "ZPOPMIN", "ZPOPMAX"), k)
		case 2:
			del(k)
		}
	case 10:
		how := r.IntN(3)
		if how == 0 {
			n = min(n, 700) // each removal walks the list
		}
		each("RPUSH", k, "%")
		switch how {
		case 0:
			each("LREM", k, pick(r, "0", "1", "-1"), "%")
		case 1:
			each(pick(r, "LPOP", "RPOP"), k)
		case 2:
			del(k)
		}
	case 11: // refused
		each(pick(r, "LSET", "LINSERT", "HINCRBY", "ZADD", "SET", "MSET", "HSET"), x)
	}
	return out
}

// memory: much data comes and goes; afterwards the server may not hold on to it.
func memory(r R, sp *spec.Spec) {
	r.env(sp, false, false)
	sp.MeanGap = pick[uint64](r, 0, 100, 400)
	sp.Settle, sp.Mem = true, true
	n := r.in(1, 3)
	for i := 1; i <= n; i++ {
		c := spec.Client{Name: "c" + strconv.Itoa(i), Steps: []spec.Step{{Op: "open"}}}
		k := "m" + strconv.Itoa(i)
		size := r.in(20_000, 200_000)
		much := max(2, r.in(8, 16)<<20/n/size)
		add := func(st ...spec.Step) { c.Steps = append(c.Steps, st...) }
		big := func(times, replies int, last int, a ...string) {
			st := spec.Step{Op: "bulk", Raw: []byte(fmt.Sprintf("*%d\r\n", len(a)+1)), Fill: size, Post: []byte("\r\n"), N: times, Replies: replies}
			for _, x := range a {
				st.Raw = append(st.Raw, fmt.Sprintf("$%d\r\n%s\r\n", len(x), x)...)
			}
			st.Raw = append(st.Raw, fmt.Sprintf("$%d\r\n", size)...)
			if last > 0 {
				st.Fill -= last
				st.Post = nil
			}
			add(st)
		}
		free := func(times int, a ...string) {
			b := []byte(fmt.Sprintf("*%d\r\n", len(a)))
			for _, x := range a {
				b = append(b, fmt.Sprintf("$%d\r\n%s\r\n", len(x), x)...)
			}
			add(spec.Step{Op: "bulk", Raw: b, N: times, Replies: 1})
		}
		leave := func() { add(spec.Step{Op: pick(r, "close", "reset")}) }
		switch r.IntN(12) {
		case 0, 1, 2: // connections
			st := spec.Step{Op: "churn", N: r.in(4000, 8000) / n}
			switch r.IntN(8) {
			case 0:
				st.Raw, st.Replies = []byte("*1\r\n$4\r\nPING\r\n"), 1
			case 1:
				st.Raw, st.Replies = []byte("*2\r\n$3\r\nGET\r\n$1\r\nk\r\n*1\r\n$4\r\nPING\r\n"), 2
			case 2:
				st.Raw = []byte("*2\r\n$3\r\nGET\r\n$100\r\nabc")
			case 3:
				st.Raw, st.Replies = []byte("*1\r\n:5x\r\n"), 1
			case 4:
				st.Raw, st.Replies = []byte("*1\r\n$4\r\nPING\r\n*1\r\n$4\r\nPI"), 1
			case 5, 6: // the replies find nobody
				st.Raw, st.Hit = []byte(strings.Repeat("*2\r\n$3\r\nGET\r\n$1\r\nk\r\n", r.in(2, 40))), true
				st.Replies = r.IntN(2)
			}
			add(st)
		case 3: // requests that never get complete
			for j := 0; j < much; j++ {
				big(1, 0, r.in(1, size/2), "SET", k)
				leave()
				add(spec.Step{Op: "open"})
			}
		case 4: // strings
			switch r.IntN(3) {
			case 0:
				for j := 0; j < much; j++ {
					big(1, 1, 0, "SET", k+"."+strconv.Itoa(j))
				}
				for j := 0; j < much; j++ {
					free(1, "DEL", k+"."+strconv.Itoa(j))
				}
			case 1:
				big(much, 1, 0, "SET", k)
				free(1, "SET", k, "small")
			case 2:
				size = size/16 + 1
				big(much/4+1, 1, 0, "APPEND", k)
				free(1, "DEL", k)
			}
		case 5: // lists
			big(much, 1, 0, pick(r, "RPUSH", "LPUSH"), k)
			free(1, "RPUSH", k, "last")
			switch r.IntN(5) {
			case 0:
				free(much, pick(r, "LPOP", "RPOP"), k)
			case 1:
				free(1, pick(r, "LPOP", "RPOP"), k, strconv.Itoa(much))
			case 2:
				for j := 0; j < much; j++ {
					free(1, "LSET", k, strconv.Itoa(j), "x")
				}
				free(1, "LSET", k, "-1", "x")
				free(1, "LSET", k, "0", "x")
			case 3:
				big(1, 1, 0, "LREM", k, pick(r, "0", strconv.Itoa(much), strconv.Itoa(-much)))
			case 4:
				free(1, pick(r, "DEL", "SET"), k, "x")
			}
		case 6: // sets
			for j := 0; j < much; j++ {
				size++
				big(1, 1, 0, "SADD", k)
			}
			switch r.IntN(3) {
			case 0:
				for j := 0; j < much; j++ {
					big(1, 1, 0, "SREM", k)
					size--
				}
			case 1:
				free(much, "SPOP", k)
			case 2:
				free(1, "DEL", k)
			}
		case 7: // hashes
			for j := 0; j < much; j++ {
				big(1, 1, 0, "HSET", k, strconv.Itoa(j))
			}
			switch r.IntN(3) {
			case 0:
				for j := 0; j < much; j++ {
					free(1, "HDEL", k, strconv.Itoa(j))
				}
			case 1:
				for j := 0; j < much; j++ {
					free(1, "HSET", k, strconv.Itoa(j), "x")
				}
			case 2:
				free(1, "DEL", k)
			}
		case 8: // sorted sets
			for j := 0; j < much; j++ {
				size++
				big(1, 1, 0, "ZADD", k, strconv.Itoa(r.in(1, 9)))
			}
			switch r.IntN(4) {
			case 0:
				for j := 0; j < much; j++ {
					big(1, 1, 0, "ZREM", k)
					size--
				}
			case 1:
				free(much, pick(r, "ZPOPMIN", "ZPOPMAX"), k)
			case 2:
				free(1, pick(r, "ZPOPMIN", "ZPOPMAX"), k, strconv.Itoa(much))
			case 3:
				free(1, "DEL", k)
			}
		case 9: // what is small stays, what was large in the same request goes
			num := func(j int) string { return k + ".s" + strconv.Itoa(j) }
			how := r.IntN(6)
			size = r.in(60_000, 130_000)
			much = 120 / n // few enough to stay below the limit on objects
			for j := 0; j < much; j++ {
				size++
				switch how {
				case 0:
					big(1, 1, 0, "MSET", num(j), strconv.Itoa(j), k+".b")
				case 1:
					big(1, 1, 0, "HSET", k, strconv.Itoa(j), "s", "b")
				case 2:
					big(1, 1, 0, "RPUSH", k, strconv.Itoa(j))
					free(1, "RPOP", k)
				case 3:
					big(1, 1, 0, "SADD", k, strconv.Itoa(j))
					big(1, 1, 0, "SREM", k)
				case 4:
					big(1, 1, 0, "ZADD", k, "1", strconv.Itoa(j), "2")
					free(1, "ZPOPMAX", k)
				case 5:
					big(1, 1, 0, "SET", num(j))
					free(1, "SET", num(j), "s")
				}
			}
			free(1, "DEL", k+".b")
			if how == 1 {
				free(1, "HDEL", k, "b")
			}
		default: // very many small things
			for _, b := range r.small(k, 6000/n) {
				add(b)
			}
		}
		sp.Clients = append(sp.Clients, c)
	}
	sp.Audit = []spec.Cmd{Cmd("PING")}
}

// p16: the v1 server answers every request in order, survives hostile clients
// and gives back what it took.
func p16(r R, sp *spec.Spec) {
	switch r.IntN(11) {
	case 0, 1:
		p10(r, sp)
	case 2, 3:
		p15(r, sp)
	case 4, 5:
		p02(r, sp)
	case 6:
		p14(r, sp)
	case 7:
		p12(r, sp)
	case 8:
		p09(r, sp)
	case 9:
		p01(r, sp)
		r.tails(sp, func() spec.Cmd { return r.mixed(r.anyKey) })
	default:
		p01(r, sp)
	}
	if r.p(15) {
		sp.Net.Fails = append(sp.Net.Fails, simkern.Fail{Call: "accept", Skip: r.in(0, 4), N: pick(r, 1, 1, 2, 10), Errno: pick[syscall.Errno](r, 24, 23, 105, 12)})
	}
}

// p17: the v1 server stops cleanly.
func p17(r R, sp *spec.Spec) {
	stop(r, sp)
	if r.p(20) { // nobody but one or two who arrive with the signal
		sp.Clients = sp.Clients[:min(len(sp.Clients), r.in(1, 2))]
		for i := range sp.Clients {
			sp.Clients[i].StartMs = sp.SigAtMs
		}
		sp.Net.DelayMinUs, sp.Net.DelayMaxUs = 0, pick(r, 0, 0, 1, 10)
	}
}

// p18: any of the others' scenarios, watched by the race detector.
func p18(r R, sp *spec.Spec) {
	base := *sp
	for {
		pick(r, p01, p01, p02, p08, p09, p09, p10, p11, p12, p13, p13, giveUp, p14, p15)(r, sp)
		if sp.RawBytes() < 60_000 { // the detector makes every byte expensive
			break
		}
		*sp = base
	}
	sp.Server = pick(r, "race2", "race2", "race2", "race1")
	sp.Profile = ""
}

// prepared is the data set cmd/server loads in the debug build.
var prepared = []spec.Cmd{
	Cmd("RPUSH", "list1", "1", "2", "3", "4", "5", "6"),
	Cmd("SET", "key1", "hello"),
	Cmd("SET", "key2", "10"),
	Cmd("ZADD", "zset", "1", "a", "2", "b", "3", "c", "4", "d", "5", "e"),
}

// p19: the debug build has its data set loaded before it serves, and is
// otherwise the same server.
func p19(r R, sp *spec.Spec) {
	key := func() string { return pick(r, "list1", "key1", "key2", "zset", "zset", "k1") }
	cmd := func(int) spec.Cmd {
		switch r.IntN(10) {
		case 0, 1:
			return Cmd("LRANGE", "list1", "0", "-1")
		case 2:
			return Cmd("ZRANGE", "zset", "0", "-1", "WITHSCORES")
		case 3:
			return pick(r, Cmd("GET", "key1"), Cmd("GET", "key2"), Cmd("KEYS", "*"), Cmd("ZRANK", "zset", pick(r, "a", "b", "c", "d", "e")), Cmd("LLEN", "list1"), Cmd("ZCARD", "zset"))
		case 4:
			return pick(r, Cmd("INCR", "key2"), Cmd("LPOP", "list1"), Cmd("ZREM", "zset", pick(r, "a", "c", "e")), Cmd("APPEND", "key1", "x"))
		}
		return r.mixed(key)
	}
	switch r.IntN(12) {
	case 0:
		p13(r, sp)
	case 1:
		p10(r, sp)
	case 2:
		p01(r, sp)
	case 3:
		p12(r, sp)
	default:
		r.env(sp, true, true)
		if r.p(60) { // the loading itself is what the scheduler should disturb
			sp.MeanGap = pick[uint64](r, 1, 2, 3, 5)
			if r.p(50) {
				at := uint64(0)
				for i, n := 0, r.in(1, 4); i < n; i++ {
					at += uint64(r.in(1, 80))
					sp.Stalls = append(sp.Stalls, simhook.Stall{At: at, DurMs: pick(r, 1, 20, 300, 3000), Site: pick(r, "", "datastruct/", "redis/", "cmd/")})
				}
			}
		}
		n, ops, batch := r.shape()
		clients(r, sp, n, min(ops, 30), batch, cmd)
		sp.Settle = r.p(30)
	}
	sp.Init = prepared
	if sp.SigAtMs < 0 && len(sp.Audit) == 0 {
		sp.Audit = auditOf([]string{"list1", "key1", "key2", "zset", "k1"})
	}
}

// p20: system calls fail: at start-up, while accepting, on a connection.
func p20(r R, sp *spec.Spec) {
	if sig := r.p(15); sig { // replies on their way when the process ends are the network's
		r.env(sp, false, false)
		sp.Net.DelayMaxUs = min(sp.Net.DelayMaxUs, 5000)
		sp.Net.DelayMinUs = min(sp.Net.DelayMinUs, 100)
		sp.SigAtMs = r.in(1, 200)
	} else {
		r.env(sp, true, true)
	}
	sp.Server = pick(r, "v2", "v2", "v2", "v1")
	v1 := sp.Server == "v1"
	const (
		eio, enomem, enfile, emfile, eaddrinuse, econnaborted, econnreset, enobufs, etimedout, ehostunreach, epipe, eacces = 5, 12, 23, 24, 98, 103, 104, 105, 110, 113, 32, 13
	)
	n, ops, batch := r.in(1, 5), r.in(3, 20), pick(r, 1, 3, 10)
	clients(r, sp, n, ops, batch, func(int) spec.Cmd {
		switch r.IntN(6) {
		case 0:
			return Cmd("INCR", "n")
		case 1:
			return Cmd("RPUSH", "l", strconv.Itoa(r.in(0, 9)))
		}
		return r.mixed(r.anyKey)
	})
	for i := range sp.Clients { // come back after a failure
		s := &sp.Clients[i].Steps
		for k, m := 0, r.in(0, 3); k < m; k++ {
			*s = append(*s, spec.Step{Op: "open"}, spec.Step{Op: "call", Cmds: []spec.Cmd{Cmd("INCR", "n"), r.mixed(r.anyKey)}})
		}
		sp.Clients[i].StartMs = r.in(0, 10)
	}
	sp.Audit = append(auditOf([]string{"n", "l", "k1", "k2", "k3", "k4"}), Cmd("PING"))
	f := &sp.Net.Fails
	if r.p(20) { // start-up
		sp.MayNotStart = true
		k := pick(r, 0, 0, 1, 2, 3)
		k = min(k, sp.NumCPU-1)
		switch {
		case v1:
			*f = append(*f, simkern.Fail{Call: "listen", N: 1, Errno: pick[syscall.Errno](r, eaddrinuse, eacces, emfile)})
		default:
			call := pick(r, "socket", "bind", "bind", "listen", "listen", "epoll_create", "eventfd", "epoll_add")
			*f = append(*f, simkern.Fail{Call: call, Skip: k, N: pick(r, 1, 1000), Errno: map[string]syscall.Errno{
				"socket": emfile, "bind": pick[syscall.Errno](r, eaddrinuse, eacces), "listen": eaddrinuse, "epoll_create": emfile, "eventfd": emfile, "epoll_add": enomem}[call]})
		}
		if sp.SigAtMs >= 0 {
			sp.SigAtMs = r.in(0, 5)
			sp.Audit = nil
		}
		return
	}
	if r.p(50) {
		errno := pick[syscall.Errno](r, emfile, enfile, enobufs, enomem)
		if !v1 && r.p(40) { // net.Listener hides it
			errno = econnaborted
		}
		*f = append(*f, simkern.Fail{Call: "accept", Skip: r.in(0, 6), N: pick(r, 1, 1, 2, 10, 40), Errno: errno})
	}
	if r.p(60) {
		*f = append(*f, simkern.Fail{Call: "read", Skip: r.in(0, 60), N: pick(r, 1, 1, 3), Errno: pick[syscall.Errno](r, econnreset, etimedout, ehostunreach, eio)})
	}
	if r.p(60) {
		*f = append(*f, simkern.Fail{Call: "write", Skip: r.in(0, 60), N: pick(r, 1, 1, 3), Errno: pick[syscall.Errno](r, econnreset, epipe, etimedout, enobufs)})
	}
	if sp.SigAtMs >= 0 {
		sp.Audit = nil
	} else {
		sp.Settle = r.p(40)
	}
}
