package oracle

import (
	"encoding/binary"
	"errors"
	"hash/fnv"
	"math"
	"sort"
	"strconv"
	"strings"
)

// The reference model: what Redis documents for the commands godis implements.
// Where Redis' reply and godis' long-standing reply differ only in shape and
// the difference is not a promise anybody relies on, both are accepted; the
// effect on the data is never left open. The tolerances are listed in
// DESIGN.md ("Oracle tolerances").

type kind byte

const (
	kString kind = 's'
	kList   kind = 'l'
	kSet    kind = 'S'
	kHash   kind = 'h'
	kZSet   kind = 'z'
)

var typeName = map[kind]string{kString: "string", kList: "list", kSet: "set", kHash: "hash", kZSet: "zset"}

// val is immutable once it is in a state.
type val struct {
	k    kind
	s    string
	l    []string
	m    map[string]string  // set members (value ""), hash fields
	num  map[string]float64 // hash fields whose text is numeric by HINCRBYFLOAT
	z    map[string]float64
	hash uint64
}

// State is a persistent key space.
type State struct {
	keys map[string]*val
	h    uint64
}

// NewState is the empty key space.
func NewState() *State { return &State{keys: map[string]*val{}} }

func (v *val) size() int {
	switch v.k {
	case kList:
		return len(v.l)
	case kSet, kHash:
		return len(v.m)
	case kZSet:
		return len(v.z)
	}
	return 1
}

func (v *val) fp(key string) uint64 {
	if v.hash != 0 {
		return v.hash
	}
	h := fnv.New64a()
	var b [8]byte
	w := func(s string) {
		binary.LittleEndian.PutUint64(b[:], uint64(len(s)))
		h.Write(b[:])
		h.Write([]byte(s))
	}
	w(key)
	h.Write([]byte{byte(v.k)})
	switch v.k {
	case kString:
		w(v.s)
	case kList:
		for _, x := range v.l {
			w(x)
		}
	case kSet, kHash:
		ks := make([]string, 0, len(v.m))
		for k := range v.m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			w(k)
			w(v.m[k])
		}
	case kZSet:
		ks := make([]string, 0, len(v.z))
		for k := range v.z {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			w(k)
			binary.LittleEndian.PutUint64(b[:], math.Float64bits(v.z[k]+0))
			h.Write(b[:])
		}
	}
	v.hash = h.Sum64() | 1
	return v.hash
}

func (s *State) with(key string, v *val) *State {
	n := &State{keys: make(map[string]*val, len(s.keys)+1), h: s.h}
	for k, x := range s.keys {
		n.keys[k] = x
	}
	if o := n.keys[key]; o != nil {
		n.h ^= o.fp(key)
		delete(n.keys, key)
	}
	if v != nil && v.size() > 0 {
		n.keys[key] = v
		n.h ^= v.fp(key)
	}
	return n
}

func cp(m map[string]string) map[string]string {
	n := make(map[string]string, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func cpf(m map[string]float64) map[string]float64 {
	n := make(map[string]float64, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	return n
}

// verdict of one step: the possible successor states (none: impossible).
type next = []*State

func one(s *State) next { return next{s} }

// same when the reply is acceptable and nothing changes.
func same(ok bool, s *State) next {
	if ok {
		return next{s}
	}
	return nil
}

func when(ok bool, s *State) next { return same(ok, s) }

type ctx struct {
	s *State
	r *Reply // nil: the reply was never seen
	a []string
}

func (c *ctx) unk() bool { return c.r == nil }

// err: the command must be refused with an error and have no effect.
func (c *ctx) err() next { return same(c.unk() || c.r.isErr(), c.s) }

func (c *ctx) integer(n int64) bool { return c.unk() || (c.r.T == ':' && c.r.I == n) }
func (c *ctx) ok() bool             { return c.unk() || (c.r.T == '+' && c.r.S == "OK") }
func (c *ctx) nilb() bool           { return c.unk() || c.r.isNil() }
func (c *ctx) bulk(s string) bool {
	return c.unk() || (c.r.T == '$' && !c.r.Nil && c.r.S == s)
}

// list: exactly these strings in order; an empty list may also be nil.
func (c *ctx) list(want []string) bool {
	if c.unk() {
		return true
	}
	if len(want) == 0 {
		return c.r.empty()
	}
	got, ok := c.r.strs()
	if !ok || len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != want[i] {
			return false
		}
	}
	return true
}

// set: the same strings in any order, without repetition.
func (c *ctx) set(want map[string]string) bool {
	if c.unk() {
		return true
	}
	if len(want) == 0 {
		return c.r.empty()
	}
	got, ok := c.r.strs()
	if !ok || len(got) != len(want) {
		return false
	}
	seen := map[string]bool{}
	for _, g := range got {
		if _, in := want[g]; !in || seen[g] {
			return false
		}
		seen[g] = true
	}
	return true
}

func (c *ctx) get(key string, k kind) (v *val, wrong bool) {
	v = c.s.keys[key]
	if v != nil && v.k != k {
		return nil, true
	}
	return v, false
}

// canonical integers are accepted by everyone; other spellings ParseInt takes
// are left open.
func parseInt(s string) (v int64, ok, canonical bool) {
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return 0, false, false
	}
	return v, true, strconv.FormatInt(v, 10) == s
}

func parseScore(s string) (f float64, ok bool) {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(f) {
		return 0, false
	}
	return f, true
}

func floatEq(text string, f float64) bool {
	g, err := strconv.ParseFloat(text, 64)
	return err == nil && g == f
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

type zm struct {
	m string
	f float64
}

func zsorted(z map[string]float64) []zm {
	out := make([]zm, 0, len(z))
	for m, f := range z {
		out = append(out, zm{m, f})
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].f != out[j].f {
			return out[i].f < out[j].f
		}
		return out[i].m < out[j].m
	})
	return out
}

// clip turns Redis start/stop indexes into a half-open range of n elements.
func clip(start, stop int64, n int) (int, int) {
	l := int64(n)
	if start < 0 {
		start += l
	}
	if start < 0 {
		start = 0
	}
	if stop < 0 {
		stop += l
	}
	if stop >= l {
		stop = l - 1
	}
	if start > stop || start >= l {
		return 0, 0
	}
	return int(start), int(stop) + 1
}

func bound(s string) (f float64, open, ok bool) {
	s = strings.ToLower(s)
	if strings.HasPrefix(s, "(") {
		open = true
		s = s[1:]
	}
	f, ok = parseScore(s)
	return f, open, ok
}

func inRange(f, lo float64, lopen bool, hi float64, hopen bool) bool {
	if f < lo || (lopen && f == lo) {
		return false
	}
	return !(f > hi || (hopen && f == hi))
}

// minArgs is the arity below which a command must be refused.
var minArgs = map[string]int{
	"set": 2, "mset": 2, "get": 1, "mget": 1, "incr": 1, "incrby": 2, "decr": 1, "decrby": 2, "append": 2,
	"keys": 1, "exists": 1, "del": 1, "type": 1, "ping": 0, "command": 0,
	"lpush": 2, "lpop": 1, "rpush": 2, "rpop": 1, "llen": 1, "lrange": 3, "lrem": 3, "lindex": 2, "lset": 3, "linsert": 4,
	"sadd": 2, "scard": 1, "sdiff": 1, "sdiffstore": 2, "sinter": 1, "sinterstore": 2, "sunion": 1, "sunionstore": 2,
	"sismember": 2, "smembers": 1, "smove": 3, "srem": 2, "spop": 1,
	"hdel": 2, "hexists": 2, "hget": 2, "hgetall": 1, "hincrby": 3, "hincrbyfloat": 3, "hkeys": 1, "hlen": 1,
	"hmget": 2, "hmset": 3, "hset": 3, "hsetnx": 3, "hvals": 1,
	"zadd": 3, "zscore": 2, "zrank": 2, "zrem": 2, "zcard": 1, "zcount": 3, "zincr": 3, "zrange": 3,
	"zrangebyscore": 3, "zrevrange": 3, "zpopmin": 1, "zpopmax": 1,
}

// errTooWide is raised when an unanswered command leaves too many outcomes
// open to follow; the history is then counted as undecided.
var errTooWide = errors.New("too many possible outcomes")

// Apply gives the states the model can be in after args were executed in s and
// answered with r (nil: answer unknown).
func Apply(s *State, args [][]byte, r *Reply) next {
	if len(args) == 0 {
		return same(r == nil || r.isErr(), s)
	}
	a := make([]string, len(args))
	for i := range args {
		a[i] = string(args[i])
	}
	cmd := strings.ToLower(a[0])
	c := &ctx{s: s, r: r, a: a[1:]}
	min, known := minArgs[cmd]
	if !known || len(c.a) < min {
		return c.err()
	}
	switch cmd[0] {
	case 'l', 'r':
		return c.lists(cmd)
	case 'z':
		return c.zsets(cmd)
	case 'h':
		return c.hashes(cmd)
	}
	switch cmd {
	case "sadd", "scard", "sdiff", "sdiffstore", "sinter", "sinterstore", "sunion", "sunionstore",
		"sismember", "smembers", "smove", "srem", "spop":
		return c.sets(cmd)
	}
	return c.strings(cmd)
}

func (c *ctx) strings(cmd string) next {
	a := c.a
	switch cmd {
	case "ping":
		return same(c.unk() || (c.r.T == '+' && c.r.S == "PONG"), c.s)
	case "command":
		return same(c.unk() || !c.r.isErr(), c.s)
	case "set":
		return when(c.ok(), c.s.with(a[0], &val{k: kString, s: a[1]}))
	case "mset":
		if len(a)%2 != 0 {
			return c.err()
		}
		n := c.s
		for i := 0; i < len(a); i += 2 {
			n = n.with(a[i], &val{k: kString, s: a[i+1]})
		}
		return when(c.ok(), n)
	case "get":
		v, wrong := c.get(a[0], kString)
		if wrong {
			return c.err()
		}
		if v == nil {
			return same(c.nilb(), c.s)
		}
		return same(c.bulk(v.s), c.s)
	case "mget":
		if c.unk() {
			return one(c.s)
		}
		if c.r.T != '*' || len(c.r.A) != len(a) {
			return nil
		}
		for i, k := range a {
			v := c.s.keys[k]
			x := c.r.A[i]
			if v == nil || v.k != kString {
				if !x.Nil {
					return nil
				}
			} else if x.T != '$' || x.Nil || x.S != v.s {
				return nil
			}
		}
		return one(c.s)
	case "incr", "decr", "incrby", "decrby":
		d := int64(1)
		open := false
		if len(a) > 1 && strings.HasSuffix(cmd, "by") {
			var ok, canon bool
			d, ok, canon = parseInt(a[1])
			if !ok {
				return c.err()
			}
			open = !canon
		}
		neg := strings.HasPrefix(cmd, "decr")
		v, wrong := c.get(a[0], kString)
		if wrong {
			return c.err()
		}
		cur := int64(0)
		if v != nil {
			var ok, canon bool
			cur, ok, canon = parseInt(v.s)
			if !ok {
				return c.err()
			}
			open = open || !canon
		}
		var res int64
		over := false
		if neg {
			res = cur - d
			over = (d > 0 && res > cur) || (d < 0 && res < cur)
		} else {
			res = cur + d
			over = (d > 0 && res < cur) || (d < 0 && res > cur)
		}
		if over {
			return c.err()
		}
		var out next
		if c.integer(res) {
			out = append(out, c.s.with(a[0], &val{k: kString, s: strconv.FormatInt(res, 10)}))
		}
		// DECRBY key -2^63 is refused by Redis before the sum is tried
		if (open || (neg && d == math.MinInt64)) && (c.unk() || c.r.isErr()) {
			out = append(out, c.s)
		}
		return out
	case "append":
		v, wrong := c.get(a[0], kString)
		if wrong {
			return c.err()
		}
		t := a[1]
		if v != nil {
			t = v.s + t
		}
		return when(c.integer(int64(len(t))), c.s.with(a[0], &val{k: kString, s: t}))
	case "exists":
		n := int64(0)
		for _, k := range a {
			if c.s.keys[k] != nil {
				n++
			}
		}
		return same(c.integer(n), c.s)
	case "del":
		n := int64(0)
		st := c.s
		for _, k := range a {
			if st.keys[k] != nil {
				n++
				st = st.with(k, nil)
			}
		}
		return when(c.integer(n), st)
	case "type":
		want := "none"
		if v := c.s.keys[a[0]]; v != nil {
			want = typeName[v.k]
		}
		return same(c.unk() || (c.r.T == '+' && c.r.S == want), c.s)
	case "keys":
		return same(c.keysReply(a[0]), c.s)
	}
	return nil
}

// keysReply: every key that matches and no other, each once. Literals, *, ?,
// [abc], [a-c] and \x are specified, on plain text; a pattern with anything
// else (alternatives, negated sets, malformed ones), and anything but literals
// and * against bytes beyond ASCII, leaves open which of the existing keys match.
func (c *ctx) keysReply(pat string) bool {
	if c.unk() {
		return true
	}
	toks, ok := globParse(pat)
	open := !ok || !plain(pat)
	if (open || len(pat) > 1000) && c.r.isErr() {
		return true
	}
	if c.r.empty() {
		c.r = &Reply{T: '*'}
	}
	got, ok := c.r.strs()
	if !ok {
		return false
	}
	seen := map[string]bool{}
	for _, k := range got {
		if seen[k] || c.s.keys[k] == nil {
			return false
		}
		seen[k] = true
	}
	if open {
		return true
	}
	q := strings.ContainsAny(pat, "?[")
	for k := range c.s.keys {
		if q && !plain(k) {
			continue
		}
		if globMatch(toks, k) != seen[k] {
			return false
		}
	}
	return true
}

func plain(s string) bool {
	return strings.IndexFunc(s, func(r rune) bool { return r < ' ' || r > '~' }) < 0
}

// globTok is one element of a pattern: any number of bytes, or one byte of a set.
type globTok struct {
	star bool
	set  [4]uint64
}

func (t *globTok) add(lo, hi byte) {
	for c := int(lo); c <= int(hi); c++ {
		t.set[c>>6] |= 1 << (c & 63)
	}
}

// globParse reports whether the pattern is one of those that are specified.
func globParse(p string) (out []globTok, ok bool) {
	for i := 0; i < len(p); i++ {
		var t globTok
		switch p[i] {
		case '{', '}', ']':
			return nil, false
		case '*':
			t.star = true
		case '?':
			t.add(0, 255)
		case '\\':
			if i++; i == len(p) {
				return nil, false
			}
			t.add(p[i], p[i])
		case '[':
			n := strings.IndexByte(p[i:], ']')
			if n < 2 {
				return nil, false
			}
			in := p[i+1 : i+n]
			i += n
			switch {
			case len(in) == 3 && in[1] == '-' && in[0] <= in[2] && !strings.ContainsAny(in[:1]+in[2:], `\^!-[`):
				t.add(in[0], in[2])
			case strings.ContainsAny(in, `\^!-[`):
				return nil, false
			default:
				for j := 0; j < len(in); j++ {
					t.add(in[j], in[j])
				}
			}
		default:
			t.add(p[i], p[i])
		}
		out = append(out, t)
	}
	return out, true
}

func globMatch(p []globTok, s string) bool {
	i, j, star, from := 0, 0, -1, 0
	for j < len(s) {
		switch {
		case i < len(p) && p[i].star:
			star, from = i, j
			i++
		case i < len(p) && p[i].set[s[j]>>6]>>(s[j]&63)&1 == 1:
			i++
			j++
		case star >= 0:
			from++
			i, j = star+1, from
		default:
			return false
		}
	}
	for i < len(p) && p[i].star {
		i++
	}
	return i == len(p)
}

func (c *ctx) lists(cmd string) next {
	a := c.a
	switch cmd {
	case "lpush", "lpop", "rpush", "rpop", "llen", "lrange", "lrem", "lindex", "lset", "linsert":
	default:
		return c.err()
	}
	v, wrong := c.get(a[0], kList)
	var l []string
	if v != nil {
		l = v.l
	}
	put := func(n []string) *State { return c.s.with(a[0], &val{k: kList, l: n}) }
	num := func(s string) (int64, bool) {
		x, ok, _ := parseInt(s)
		return x, ok
	}
	switch cmd {
	case "lpush", "rpush":
		if wrong {
			return c.err()
		}
		n := make([]string, 0, len(l)+len(a))
		if cmd == "lpush" {
			for i := len(a) - 1; i >= 1; i-- {
				n = append(n, a[i])
			}
			n = append(n, l...)
		} else {
			n = append(append(n, l...), a[1:]...)
		}
		return when(c.integer(int64(len(n))), put(n))
	case "lpop", "rpop":
		cnt := int64(1)
		if len(a) > 1 {
			x, ok := num(a[1])
			if !ok || x < 0 {
				return c.err()
			}
			if x == 0 { // error, nil and empty are all in use
				if wrong {
					return c.err()
				}
				return same(c.unk() || c.r.isErr() || c.r.empty(), c.s)
			}
			cnt = x
		}
		if wrong {
			return c.err()
		}
		if len(l) == 0 {
			return same(c.unk() || c.r.empty(), c.s)
		}
		k := int(min(cnt, int64(len(l))))
		var got, rest []string
		if cmd == "lpop" {
			got, rest = l[:k], l[k:]
		} else {
			for i := 0; i < k; i++ {
				got = append(got, l[len(l)-1-i])
			}
			rest = l[:len(l)-k]
		}
		ok := c.list(got) || (len(got) == 1 && len(a) == 1 && c.bulk(got[0]))
		return when(ok, put(append([]string(nil), rest...)))
	case "llen":
		if wrong {
			return c.err()
		}
		return same(c.integer(int64(len(l))), c.s)
	case "lrange":
		x, ok1 := num(a[1])
		y, ok2 := num(a[2])
		if wrong || !ok1 || !ok2 {
			return c.err()
		}
		i, j := clip(x, y, len(l))
		return same(c.list(l[i:j]), c.s)
	case "lrem":
		n, ok := num(a[1])
		if wrong || !ok {
			return c.err()
		}
		var keep []string
		var removed int64
		if n >= 0 {
			for _, x := range l {
				if x == a[2] && (n == 0 || removed < n) {
					removed++
				} else {
					keep = append(keep, x)
				}
			}
		} else {
			for i := len(l) - 1; i >= 0; i-- {
				if l[i] == a[2] && removed < -n {
					removed++
				} else {
					keep = append(keep, l[i])
				}
			}
			for i, j := 0, len(keep)-1; i < j; i, j = i+1, j-1 {
				keep[i], keep[j] = keep[j], keep[i]
			}
		}
		return when(c.integer(removed), put(keep))
	case "lindex":
		i, ok := num(a[1])
		if wrong || !ok {
			return c.err()
		}
		if i < 0 {
			i += int64(len(l))
		}
		if i < 0 || i >= int64(len(l)) {
			return same(c.nilb(), c.s)
		}
		return same(c.bulk(l[i]), c.s)
	case "lset":
		i, ok := num(a[1])
		if wrong || !ok {
			return c.err()
		}
		if i < 0 {
			i += int64(len(l))
		}
		if i < 0 || i >= int64(len(l)) {
			return c.err()
		}
		n := append([]string(nil), l...)
		n[i] = a[2]
		return when(c.ok(), put(n))
	case "linsert":
		w := strings.ToLower(a[1])
		if wrong || (w != "before" && w != "after") {
			return c.err()
		}
		for i, x := range l {
			if x != a[2] {
				continue
			}
			if w == "after" {
				i++
			}
			n := append(append(append([]string(nil), l[:i]...), a[3]), l[i:]...)
			return when(c.integer(int64(len(n))), put(n))
		}
		// pivot or key missing: nothing inserted; 0, -1, nil and an error are in use
		return same(c.unk() || c.r.isErr() || c.r.isNil() || (c.r.T == ':' && c.r.I <= 0), c.s)
	}
	return nil
}

func (c *ctx) sets(cmd string) next {
	a := c.a
	load := func(key string) (map[string]string, bool) {
		v, wrong := c.get(key, kSet)
		if v == nil {
			return nil, wrong
		}
		return v.m, wrong
	}
	mk := func(m map[string]string) *val { return &val{k: kSet, m: m} }
	switch cmd {
	case "sdiff", "sinter", "sunion", "sdiffstore", "sinterstore", "sunionstore":
		keys := a
		store := strings.HasSuffix(cmd, "store")
		if store {
			keys = a[1:]
		}
		var res map[string]string
		for i, k := range keys {
			m, wrong := load(k)
			if wrong {
				return c.err()
			}
			if i == 0 {
				res = cp(m)
				continue
			}
			switch cmd[1] {
			case 'd':
				for x := range m {
					delete(res, x)
				}
			case 'i':
				for x := range res {
					if _, in := m[x]; !in {
						delete(res, x)
					}
				}
			case 'u':
				for x := range m {
					res[x] = ""
				}
			}
		}
		if !store {
			return same(c.set(res), c.s)
		}
		return when(c.integer(int64(len(res))), c.s.with(a[0], mk(res)))
	}
	m, wrong := load(a[0])
	if wrong {
		return c.err()
	}
	switch cmd {
	case "sadd":
		n := cp(m)
		for _, x := range a[1:] {
			n[x] = ""
		}
		return when(c.integer(int64(len(n)-len(m))), c.s.with(a[0], mk(n)))
	case "srem":
		n := cp(m)
		for _, x := range a[1:] {
			delete(n, x)
		}
		return when(c.integer(int64(len(m)-len(n))), c.s.with(a[0], mk(n)))
	case "scard":
		return same(c.integer(int64(len(m))), c.s)
	case "sismember":
		_, in := m[a[1]]
		return same(c.integer(b2i(in)), c.s)
	case "smembers":
		return same(c.set(m), c.s)
	case "smove":
		t, wrongT := load(a[1])
		_, in := m[a[2]]
		if wrongT {
			// with nothing to move Redis looks no further than the source
			if !in && (c.unk() || (c.r.T == ':' && c.r.I == 0)) {
				return one(c.s)
			}
			return c.err()
		}
		if !in {
			return same(c.unk() || c.r.isErr() || c.r.isNil() || (c.r.T == ':' && c.r.I == 0), c.s)
		}
		if a[0] == a[1] {
			return same(c.integer(1), c.s)
		}
		n, nt := cp(m), cp(t)
		delete(n, a[2])
		nt[a[2]] = ""
		return when(c.integer(1), c.s.with(a[0], mk(n)).with(a[1], mk(nt)))
	case "spop":
		cnt := int64(1)
		if len(a) > 1 {
			x, ok, _ := parseInt(a[1])
			if !ok {
				return c.err()
			}
			if x < 0 {
				return same(c.unk() || c.r.isErr() || c.r.empty(), c.s)
			}
			cnt = x
		}
		k := min(cnt, int64(len(m)))
		if k == 0 {
			return same(c.unk() || c.r.empty(), c.s)
		}
		if c.unk() {
			if k == int64(len(m)) {
				return one(c.s.with(a[0], nil))
			}
			// any k members may have gone
			all := make([]string, 0, len(m))
			for x := range m {
				all = append(all, x)
			}
			sort.Strings(all)
			var out next
			var pick func(i int, left int64, n map[string]string)
			pick = func(i int, left int64, n map[string]string) {
				if left == 0 {
					if out = append(out, c.s.with(a[0], mk(cp(n)))); len(out) > 500 {
						panic(errTooWide)
					}
					return
				}
				if int64(len(all)-i) < left {
					return
				}
				delete(n, all[i])
				pick(i+1, left-1, n)
				n[all[i]] = ""
				pick(i+1, left, n)
			}
			pick(0, k, cp(m))
			return out
		}
		got, ok := c.r.strs()
		if !ok && c.r.T == '$' && !c.r.Nil && len(a) == 1 {
			got, ok = []string{c.r.S}, true
		}
		if !ok || int64(len(got)) != k {
			return nil
		}
		n := cp(m)
		for _, g := range got {
			if _, in := n[g]; !in {
				return nil
			}
			delete(n, g)
		}
		return one(c.s.with(a[0], mk(n)))
	}
	return nil
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (c *ctx) hashes(cmd string) next {
	a := c.a
	v, wrong := c.get(a[0], kHash)
	var m map[string]string
	var num map[string]float64
	if v != nil {
		m, num = v.m, v.num
	}
	put := func(m map[string]string, num map[string]float64) *State {
		return c.s.with(a[0], &val{k: kHash, m: m, num: num})
	}
	// field text equals what is stored; numbers made by HINCRBYFLOAT compare as numbers
	eq := func(f, got string) bool {
		if x, ok := num[f]; ok {
			g, err := strconv.ParseFloat(got, 64)
			return err == nil && near(g, x)
		}
		return m[f] == got
	}
	if wrong {
		return c.err()
	}
	switch cmd {
	case "hset", "hmset":
		if len(a)%2 != 1 {
			return c.err()
		}
		n, nn := cp(m), cpf(num)
		added, pairs := int64(0), int64(0)
		for i := 1; i < len(a); i += 2 {
			if _, in := n[a[i]]; !in {
				added++
			}
			pairs++
			n[a[i]] = a[i+1]
			delete(nn, a[i])
		}
		if cmd == "hmset" {
			return when(c.ok(), put(n, nn))
		}
		// Redis counts new fields, godis counts fields written
		return when(c.integer(added) || c.integer(pairs), put(n, nn))
	case "hsetnx":
		if _, in := m[a[1]]; in {
			return same(c.integer(0), c.s)
		}
		n := cp(m)
		n[a[1]] = a[2]
		return when(c.integer(1), put(n, num))
	case "hget":
		t, in := m[a[1]]
		_ = t
		if !in {
			return same(c.nilb(), c.s)
		}
		return same(c.unk() || (c.r.T == '$' && !c.r.Nil && eq(a[1], c.r.S)), c.s)
	case "hmget":
		if c.unk() {
			return one(c.s)
		}
		if c.r.T != '*' || len(c.r.A) != len(a)-1 {
			return nil
		}
		for i, f := range a[1:] {
			x := c.r.A[i]
			if _, in := m[f]; !in {
				if !x.Nil {
					return nil
				}
			} else if x.T != '$' || x.Nil || !eq(f, x.S) {
				return nil
			}
		}
		return one(c.s)
	case "hgetall":
		if c.unk() {
			return one(c.s)
		}
		if len(m) == 0 {
			return same(c.r.empty(), c.s)
		}
		g, ok := c.r.strs()
		if !ok || len(g) != 2*len(m) {
			return nil
		}
		seen := map[string]bool{}
		for i := 0; i < len(g); i += 2 {
			if _, in := m[g[i]]; !in || seen[g[i]] || !eq(g[i], g[i+1]) {
				return nil
			}
			seen[g[i]] = true
		}
		return one(c.s)
	case "hkeys":
		return same(c.set(m), c.s)
	case "hvals":
		if c.unk() {
			return one(c.s)
		}
		if len(m) == 0 {
			return same(c.r.empty(), c.s)
		}
		g, ok := c.r.strs()
		if !ok || len(g) != len(m) {
			return nil
		}
		left := map[string]bool{}
		for f := range m {
			left[f] = true
		}
	next:
		for _, t := range g {
			for f := range left {
				if _, n := num[f]; !n && m[f] == t {
					delete(left, f)
					continue next
				}
			}
			for f := range left {
				if eq(f, t) {
					delete(left, f)
					continue next
				}
			}
			return nil
		}
		return one(c.s)
	case "hlen":
		return same(c.integer(int64(len(m))), c.s)
	case "hexists":
		_, in := m[a[1]]
		return same(c.integer(b2i(in)), c.s)
	case "hdel":
		n, nn := cp(m), cpf(num)
		for _, f := range a[1:] {
			delete(n, f)
			delete(nn, f)
		}
		return when(c.integer(int64(len(m)-len(n))), put(n, nn))
	case "hincrby":
		d, ok, canon := parseInt(a[2])
		if !ok {
			return c.err()
		}
		open := !canon
		cur := int64(0)
		if t, in := m[a[1]]; in {
			if f, isnum := num[a[1]]; isnum {
				// a float that happens to be integral: both answers are in use
				if f != math.Trunc(f) || math.Abs(f) > 1<<52 {
					return c.err()
				}
				cur, open = int64(f), true
			} else {
				var canon bool
				cur, ok, canon = parseInt(t)
				if !ok {
					if f, err := strconv.ParseFloat(t, 64); err == nil && f == math.Trunc(f) && math.Abs(f) < 1<<52 {
						return c.err()
					}
					return c.err()
				}
				open = open || !canon
			}
		}
		res := cur + d
		if (d > 0 && res < cur) || (d < 0 && res > cur) {
			return c.err()
		}
		var out next
		if c.integer(res) {
			n, nn := cp(m), cpf(num)
			n[a[1]] = strconv.FormatInt(res, 10)
			delete(nn, a[1])
			out = append(out, put(n, nn))
		}
		if open && (c.unk() || c.r.isErr()) {
			out = append(out, c.s)
		}
		return out
	case "hincrbyfloat":
		d, err := strconv.ParseFloat(a[2], 64)
		if err != nil || math.IsNaN(d) || math.IsInf(d, 0) {
			return c.err()
		}
		cur, open := 0.0, false
		if t, in := m[a[1]]; in {
			if f, isnum := num[a[1]]; isnum {
				cur = f
			} else {
				f, err := strconv.ParseFloat(t, 64)
				if err != nil {
					return c.err()
				}
				cur = f
				// godis keeps integers and floats apart (pinned by its unit
				// tests) and non-canonical spellings as text: an error is fine
				open = strconv.FormatFloat(f, 'g', -1, 64) != t
				if _, isInt, _ := parseInt(t); isInt {
					open = true
				}
			}
		}
		res := cur + d
		if math.IsInf(res, 0) || math.IsNaN(res) {
			return c.err()
		}
		var out next
		good := c.unk()
		if !good && c.r.T == '$' && !c.r.Nil {
			g, err := strconv.ParseFloat(c.r.S, 64)
			good = err == nil && (near(g, res) || math.Abs(g-res) <= 1e-12)
		}
		if good {
			n, nn := cp(m), cpf(num)
			nn[a[1]] = res
			n[a[1]] = strconv.FormatFloat(res, 'g', 12, 64)
			out = append(out, put(n, nn))
		}
		if open && (c.unk() || c.r.isErr()) {
			out = append(out, c.s)
		}
		return out
	}
	return c.err()
}

func (c *ctx) zsets(cmd string) next {
	a := c.a
	v, wrong := c.get(a[0], kZSet)
	var z map[string]float64
	if v != nil {
		z = v.z
	}
	put := func(z map[string]float64) *State { return c.s.with(a[0], &val{k: kZSet, z: z}) }
	pairs := func(l []zm, with bool) bool {
		if c.unk() {
			return true
		}
		if len(l) == 0 {
			return c.r.empty()
		}
		g, ok := c.r.strs()
		w := 1
		if with {
			w = 2
		}
		if !ok || len(g) != w*len(l) {
			return false
		}
		for i, x := range l {
			if g[i*w] != x.m || (with && !floatEq(g[i*w+1], x.f)) {
				return false
			}
		}
		return true
	}
	withscores := func(from int) bool {
		for _, x := range a[from:] {
			if strings.EqualFold(x, "withscores") {
				return true
			}
		}
		return false
	}
	if wrong {
		return c.err()
	}
	switch cmd {
	case "zadd":
		nx, xx, incr := false, false, false
		i := 1
	opts:
		for ; i < len(a); i++ {
			switch strings.ToLower(a[i]) {
			case "nx":
				nx = true
			case "xx":
				xx = true
			case "incr":
				incr = true
			default:
				break opts
			}
		}
		rest := a[i:]
		if len(rest) == 0 || len(rest)%2 != 0 || (nx && xx) {
			return c.err() // NX with XX is refused by Redis
		}
		n := cpf(z)
		added, changed := int64(0), int64(0)
		nan := false
		for j := 0; j < len(rest); j += 2 {
			f, ok := parseScore(rest[j])
			if !ok {
				return c.err()
			}
			old, in := n[rest[j+1]]
			if incr {
				f += old
			}
			switch {
			case in && nx, !in && xx:
			case math.IsNaN(f): // infinities of different sign: refused or skipped
				nan = true
			case in:
				if old != f {
					changed++
				}
				n[rest[j+1]] = f + 0
			default:
				added++
				n[rest[j+1]] = f + 0
			}
		}
		if incr {
			// Redis takes one pair and answers with the score, or nil when nothing
			// was done; an answer that counts is accepted as well
			if nan || len(rest) > 2 { // may be refused
				if c.unk() {
					return append(one(c.s), put(n))
				}
				if c.r.isErr() {
					return one(c.s)
				}
			}
			good := c.unk() || c.integer(added) || c.integer(added+changed)
			if len(rest) == 2 && !good {
				if added+changed == 0 && c.r.Nil {
					good = true
				}
				good = good || (c.r.T == '$' && !c.r.Nil && !nan && floatEq(c.r.S, n[rest[1]]))
			}
			return when(good, put(n))
		}
		// Redis counts new members, godis also those whose score changed
		return when(c.integer(added) || c.integer(added+changed), put(n))
	case "zincr":
		d, ok := parseScore(a[1])
		if !ok {
			return c.err()
		}
		f := z[a[2]] + d
		if math.IsNaN(f) {
			return c.err()
		}
		n := cpf(z)
		n[a[2]] = f
		return when(c.unk() || (c.r.T == '$' && !c.r.Nil && floatEq(c.r.S, f)), put(n))
	case "zscore":
		f, in := z[a[1]]
		if !in {
			return same(c.nilb(), c.s)
		}
		return same(c.unk() || (c.r.T == '$' && !c.r.Nil && floatEq(c.r.S, f)), c.s)
	case "zrank":
		if _, in := z[a[1]]; !in {
			return same(c.nilb(), c.s)
		}
		for i, x := range zsorted(z) {
			if x.m == a[1] {
				return same(c.integer(int64(i)), c.s)
			}
		}
		return nil
	case "zrem":
		n := cpf(z)
		for _, x := range a[1:] {
			delete(n, x)
		}
		return when(c.integer(int64(len(z)-len(n))), put(n))
	case "zcard":
		return same(c.integer(int64(len(z))), c.s)
	case "zcount":
		lo, lop, ok1 := bound(a[1])
		hi, hop, ok2 := bound(a[2])
		if !ok1 || !ok2 {
			if z == nil { // nothing to count: the bounds may never be looked at
				return same(c.unk() || c.r.isErr() || (c.r.T == ':' && c.r.I == 0), c.s)
			}
			return c.err()
		}
		n := int64(0)
		for _, f := range z {
			if inRange(f, lo, lop, hi, hop) {
				n++
			}
		}
		return same(c.integer(n), c.s)
	case "zrange", "zrangebyscore", "zrevrange":
		byScore := cmd == "zrangebyscore"
		if cmd == "zrange" {
			for _, x := range a[3:] {
				byScore = byScore || strings.EqualFold(x, "byscore")
			}
		}
		l := zsorted(z)
		if byScore {
			lo, lop, ok1 := bound(a[1])
			hi, hop, ok2 := bound(a[2])
			if !ok1 || !ok2 {
				if z == nil {
					return same(c.unk() || c.r.isErr() || c.r.empty(), c.s)
				}
				return c.err()
			}
			var sel []zm
			for _, x := range l {
				if inRange(x.f, lo, lop, hi, hop) {
					sel = append(sel, x)
				}
			}
			return same(pairs(sel, withscores(3)), c.s)
		}
		x, ok1, _ := parseInt(a[1])
		y, ok2, _ := parseInt(a[2])
		if !ok1 || !ok2 {
			if z == nil {
				return same(c.unk() || c.r.isErr() || c.r.empty(), c.s)
			}
			return c.err()
		}
		if cmd == "zrevrange" {
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		}
		i, j := clip(x, y, len(l))
		return same(pairs(l[i:j], withscores(3)), c.s)
	case "zpopmin", "zpopmax":
		cnt := int64(1)
		if len(a) > 1 {
			x, ok, _ := parseInt(a[1])
			if !ok {
				return c.err()
			}
			if x < 0 {
				return same(c.unk() || c.r.isErr() || c.r.empty(), c.s)
			}
			cnt = x
		}
		l := zsorted(z)
		if cmd == "zpopmax" {
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		}
		k := int(min(cnt, int64(len(l))))
		n := cpf(z)
		for _, x := range l[:k] {
			delete(n, x.m)
		}
		return when(pairs(l[:k], true), put(n))
	}
	return c.err()
}
