// Package gen draws the simulated scenarios: a scenario is a pure function of
// (property, seed).
package gen

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"strconv"

	"golang.org/x/sys/simkern"

	"simgodis/simhook"
	"simgodis/spec"
)

// R is the scenario's random source.
type R struct {
	*rand.Rand
	W int // wide: elements, members, fields and indices come from a domain of this size
}

// New derives the source from a property and a seed.
func New(prop string, seed uint64) R {
	h := fnv.New64a()
	_, _ = h.Write([]byte(prop))
	return R{Rand: rand.New(rand.NewPCG(h.Sum64(), seed))}
}

func (r R) in(lo, hi int) int { return lo + r.IntN(hi-lo+1) }
func (r R) p(pct int) bool    { return r.IntN(100) < pct }
func pick[T any](r R, xs ...T) T {
	return xs[r.IntN(len(xs))]
}

// Cmd builds a request.
func Cmd(a ...string) spec.Cmd {
	c := spec.Cmd{A: make([][]byte, len(a))}
	for i := range a {
		c.A[i] = []byte(a[i])
	}
	return c
}

// env draws scheduling policy, machine and network for a run.
func (r R) env(sp *spec.Spec, netOK, stallOK bool) {
	sp.NumCPU = pick(r, 1, 2, 2, 4, 8)
	sp.Policy = pick[uint32](r, 0, 1, 1, 1, 2, 2, 3)
	sp.MeanGap = pick[uint64](r, 0, 3, 10, 10, 30, 30, 100, 400)
	if sp.Policy == 2 {
		at := uint64(0)
		for i, n := 0, r.in(0, 6); i < n; i++ {
			at += uint64(r.in(1, 600))
			sp.Demotes = append(sp.Demotes, at)
		}
	}
	k := &sp.Net
	k.Seed = r.Uint64()
	switch r.IntN(5) {
	case 0: // instant
	case 1:
		k.DelayMinUs, k.DelayMaxUs = 5, 50
	case 2, 3:
		k.DelayMinUs, k.DelayMaxUs = 20, 2000
	case 4:
		k.DelayMinUs, k.DelayMaxUs = 100, 50_000
	}
	if !netOK {
		return
	}
	if r.p(40) {
		k.Seg = pick(r, 1, 2, 3, 7, 20, 100, 1500)
	}
	if r.p(30) {
		k.LossP = pick(r, 5, 20, 60)
	}
	if r.p(30) {
		k.ShortReadP = pick(r, 50, 300, 900)
	}
	if r.p(30) {
		k.PartWriteP = pick(r, 50, 300, 900)
	}
	if r.p(20) {
		k.EagainP = pick(r, 50, 300)
	}
	if r.p(20) {
		k.EintrP = pick(r, 20, 200)
	}
	if r.p(15) {
		k.StallP, k.StallMaxMs = pick(r, 5, 20), pick(r, 50, 2000)
	}
	if r.p(20) {
		k.SndBuf = pick(r, 64, 512, 4096)
	}
	if r.p(20) {
		k.RcvBuf = pick(r, 64, 512, 4096)
	}
	if r.p(10) {
		k.CliBuf = pick(r, 64, 512, 4096)
	}
	if r.p(15) {
		from := r.in(0, 300)
		p := simkern.Part{FromMs: from, ToMs: from + r.in(5, 3000)}
		if r.p(60) {
			p.Conns = []string{fmt.Sprintf("c%d.1", r.in(1, 3))}
		}
		k.Partitions = append(k.Partitions, p)
	}
	if stallOK && r.p(20) {
		at := uint64(0)
		for i, n := 0, r.in(1, 3); i < n; i++ {
			at += uint64(r.in(1, 2000))
			sp.Stalls = append(sp.Stalls, simhook.Stall{At: at, DurMs: r.in(1, 300), Site: pick(r, "", "", "datastruct/", "event/", "redis/", "server/", "protocol/")})
		}
	}
}

// Base is a run with the environment drawn and everything else empty.
func (r R) base(prop string, seed uint64, server string) *spec.Spec {
	return &spec.Spec{Prop: prop, Seed: seed*0x9e3779b97f4a7c15 + 12345, SigAtMs: -1, Server: server}
}

// script turns a list of requests into a client: batches of 1..maxBatch, with
// cuts and pauses.
func (r R) script(name string, cmds []spec.Cmd, maxBatch int, cuts bool) spec.Client {
	c := spec.Client{Name: name, StartMs: 0, Steps: []spec.Step{{Op: "open"}}}
	for len(cmds) > 0 {
		n := min(r.in(1, max(1, maxBatch)), len(cmds))
		if r.p(30) {
			n = 1
		}
		st := spec.Step{Op: "call", Cmds: cmds[:n:n]}
		if r.p(15) && n > 1 {
			st.Op = "send"
		}
		if cuts && r.p(25) {
			r.cut(&st)
		}
		cmds = cmds[n:]
		c.Steps = append(c.Steps, st)
		if r.p(4) {
			ms := r.in(1, 20)
			if r.p(6) { // an idle connection stays usable
				ms = pick(r, 11_000, 61_000, 601_000, 7_201_000, 90_000_000)
			}
			c.Steps = append(c.Steps, spec.Step{Op: "sleep", Ms: ms})
		}
	}
	return c
}

func encLen(st *spec.Step) int {
	n := 0
	for _, c := range st.Cmds {
		if c.Raw != nil {
			n += len(c.Raw)
			continue
		}
		n += 3 + len(strconv.Itoa(len(c.A)))
		for _, a := range c.A {
			n += 5 + len(strconv.Itoa(len(a))) + len(a)
		}
	}
	return n
}

// cut draws client-side write boundaries.
func (r R) cut(st *spec.Step) {
	n := encLen(st)
	if n < 2 {
		return
	}
	k := r.in(1, 4)
	at := map[int]bool{}
	for i := 0; i < k; i++ {
		at[r.in(1, n-1)] = true
	}
	for i := 1; i < n; i++ {
		if at[i] {
			st.Cut = append(st.Cut, i)
		}
	}
	st.CutUs = pick(r, 0, 10, 300, 5000)
	if r.p(4) { // a slow sender
		st.CutUs = pick(r, 400_000, 3_000_000, 12_000_000, 40_000_000)
	}
}

// auditOf reads a key back with every command that fits.
func auditOf(keys []string) []spec.Cmd {
	var out []spec.Cmd
	for _, k := range keys {
		out = append(out, Cmd("TYPE", k), Cmd("EXISTS", k), Cmd("GET", k), Cmd("LRANGE", k, "0", "-1"), Cmd("LLEN", k),
			Cmd("SMEMBERS", k), Cmd("SCARD", k), Cmd("HGETALL", k), Cmd("HVALS", k), Cmd("HLEN", k), Cmd("ZRANGE", k, "0", "-1", "WITHSCORES"), Cmd("ZCARD", k))
	}
	return append(out, Cmd("KEYS", "*"))
}

func clients(r R, sp *spec.Spec, n, ops, maxBatch int, cmd func(c int) spec.Cmd) {
	for i := 1; i <= n; i++ {
		var cs []spec.Cmd
		for k := 0; k < ops; k++ {
			cs = append(cs, r.spice(cmd(i)))
		}
		c := r.script("c"+strconv.Itoa(i), cs, maxBatch, true)
		if n > 1 && r.p(30) {
			c.StartMs = r.in(0, 5)
		}
		sp.Clients = append(sp.Clients, c)
	}
}

// shape draws (clients, requests per client, batch).
func (r R) shape() (n, ops, batch int) {
	switch r.IntN(10) {
	case 0, 1, 2:
		return 1, r.in(20, 120), pick(r, 1, 4, 16)
	case 3, 4:
		return 1, r.in(5, 25), pick(r, 1, 4, 16)
	case 5, 6:
		return 2, r.in(5, 40), pick(r, 1, 1, 4, 10)
	case 7, 8:
		return 3, r.in(4, 20), pick(r, 1, 1, 3)
	}
	return r.in(4, 6), r.in(3, 10), pick(r, 1, 1, 2)
}
