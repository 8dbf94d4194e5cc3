package gen

import (
	"math"
	"strconv"
	"strings"

	"simgodis/spec"
)

// Command draws. Keys and members come from small universes so that commands
// meet; numbers are biased to boundaries.

var bigInts = []string{"9223372036854775807", "-9223372036854775808", "9223372036854775806", "-9223372036854775807", "4611686018427387904", "2147483648", "-2147483649", "2147483647", "-2147483648", "4294967295", "4294967296", "9007199254740992", "9007199254740993", "-9007199254740993", "-4611686018427387904", "99", "100", "999", "-100"}

var notInts = []string{"abc", "", " 1", "1 ", "1.0", "1e3", "0x10", "9223372036854775808", "-9223372036854775809", "99999999999999999999", "--1", "1a"}

// huge counts: far beyond any collection, but inside the argument's type.
var hugeCounts = []string{"9223372036854775807", "1099511627776", "2147483648", "4294967296", "1000000000"}

// count draws a count argument: mostly the ones given, now and then huge.
func (r R) count(usual ...string) string {
	if r.p(6) {
		return pick(r, hugeCounts...)
	}
	return pick(r, usual...)
}

// scount draws a count whose sign matters.
func (r R) scount(usual ...string) string {
	if r.p(6) {
		return pick(r, "-9223372036854775808", "-9223372036854775807", "-1099511627776", pick(r, hugeCounts...))
	}
	return pick(r, usual...)
}

var notFloats = []string{"abc", "", "1.2.3", "nan", "NaN", "1x", "--1", "e"}

func (r R) smallInt() string { return strconv.Itoa(r.in(-12, 12)) }

func (r R) intArg() string {
	switch r.IntN(10) {
	case 0:
		return pick(r, bigInts...)
	case 1:
		return pick(r, notInts...)
	case 2:
		return "0"
	}
	return r.smallInt()
}

// value draws text values of all kinds.
func (r R) value() string {
	switch r.IntN(13) {
	case 12:
		return r.text()
	case 0:
		return ""
	case 1:
		return pick(r, bigInts...)
	case 2, 3, 4:
		return r.smallInt()
	case 5:
		return pick(r, notInts...)
	case 6:
		return "a\r\nb\x00\xff$5\r\n"
	case 7:
		return "+OK\r\n:1\r\n"
	case 8:
		return strings.Repeat(pick(r, "x", "\r", "\n", "ab"), r.in(1, 300))
	}
	return pick(r, "v", "hello", "foo bar", "V", "OK", "nil") + strconv.Itoa(r.in(0, 99))
}

// big draws a value that spans many reads.
func (r R) big() string {
	return r.bytes(pick(r, r.edge(9, 16), r.edge(9, 16), r.edge(9, 16), 1000, 5000, 65535, 65536, 65537, 100_000, 262_144, 300_001))
}

// edge is a length near a power of two (of the argument itself, or of a
// message it is in) or of ten (where the length gets another digit).
func (r R) edge(lo, hi int) int {
	n := 1 << r.in(lo, hi)
	if r.p(30) {
		d := 10
		for d*10 <= n {
			d *= 10
		}
		return d + r.in(-1, 1)
	}
	return n + pick(r, 0, 0, -1, 1, r.in(-40, 3))
}

func (r R) bytes(n int) string {
	b := make([]byte, max(0, n))
	x := r.Uint64()
	for i := range b {
		if i%8 == 0 {
			x = x*6364136223846793005 + 1442695040888963407
		}
		b[i] = byte(x >> (8 * (i % 8)))
	}
	return string(b)
}

func (r R) strKey() string {
	if r.W > 0 && !r.p(5) {
		return "s" + strconv.Itoa(r.IntN(r.W))
	}
	return pick(r, "s1", "s2", "s3")
}

func (r R) str(key func() string) spec.Cmd {
	k := key()
	if r.W > 100 && r.p(3) {
		return pick(r, Cmd("SET", k, r.big()), Cmd("APPEND", k, r.big()), Cmd("MSET", k, r.big(), "sx", r.big()))
	}
	switch r.IntN(20) {
	case 0, 1, 2:
		return Cmd("SET", k, r.value())
	case 3, 4, 5:
		return Cmd("GET", k)
	case 6:
		a := []string{"MSET"}
		for i, n := 0, r.args(1, 4); i < n; i++ {
			a = append(a, key(), r.value())
		}
		return Cmd(a...)
	case 7, 8:
		a := []string{"MGET"}
		for i, n := 0, r.args(1, 4); i < n; i++ {
			a = append(a, key())
		}
		return Cmd(a...)
	case 9, 10:
		return Cmd("INCR", k)
	case 11:
		return Cmd("DECR", k)
	case 12, 13:
		return Cmd("INCRBY", k, r.intArg())
	case 14:
		return Cmd("DECRBY", k, r.intArg())
	case 15:
		return Cmd("APPEND", k, r.value())
	case 16:
		return Cmd("SET", k, pick(r, "0", "10", "9223372036854775800", "-9223372036854775800"))
	case 17:
		return Cmd("DEL", k)
	case 18:
		return Cmd("SET", k, pick(r, bigInts...))
	}
	return Cmd("EXISTS", k)
}

func (r R) listKey() string { return pick(r, "l1", "l1", "l2") }

func (r R) elem() string {
	if r.W > 0 && !r.p(5) {
		return "e" + strconv.Itoa(r.IntN(r.W))
	}
	if r.p(4) {
		return r.text()
	}
	return pick(r, "a", "b", "c", "a", "b", "d", "", "x y", "1")
}

func (r R) idx() string {
	if r.W > 0 && !r.p(10) {
		return strconv.Itoa(r.in(-r.W-2, r.W+2))
	}
	switch r.IntN(12) {
	case 0:
		return pick(r, "1000", "-1000", "9223372036854775807", "-9223372036854775808")
	case 1:
		return pick(r, notInts...)
	}
	return strconv.Itoa(r.in(-6, 6))
}

func (r R) list(key func() string) spec.Cmd {
	k := key()
	switch r.IntN(22) {
	case 0, 1, 2:
		return Cmd(r.some("LPUSH", k, 1, 4, r.elem)...)
	case 3, 4, 5:
		return Cmd(r.some("RPUSH", k, 1, 4, r.elem)...)
	case 6, 7:
		return Cmd("LPOP", k)
	case 8, 9:
		return Cmd("RPOP", k)
	case 10:
		return Cmd(pick(r, "LPOP", "RPOP"), k, r.count("0", "1", "2", "3", "100", "1", "2", "-1", "x"))
	case 11:
		return Cmd("LLEN", k)
	case 12, 13:
		return Cmd("LRANGE", k, "0", "-1")
	case 14:
		return Cmd("LRANGE", k, r.idx(), r.idx())
	case 15, 16:
		return Cmd("LREM", k, r.scount("0", "1", "2", "-1", "-2", "100", "-100", "x"), r.elem())
	case 17, 18:
		return Cmd("LINDEX", k, r.idx())
	case 19:
		return Cmd("LSET", k, r.idx(), r.elem())
	case 20:
		return Cmd("LINSERT", k, pick(r, "BEFORE", "AFTER", "before", "after", "Before", "near"), r.elem(), r.elem()+"n")
	}
	return Cmd(pick(r, "DEL", "EXISTS", "TYPE"), k)
}

// args draws the number of arguments of a command that takes any number.
func (r R) args(lo, hi int) int {
	switch r.IntN(80) {
	case 0, 1, 2:
		return r.in(hi, 40)
	case 3:
		return r.in(40, 300)
	}
	return r.in(lo, hi)
}

// atMost keeps the cost of commands within bounds whose arguments all cost as
// much as a container is big.
func atMost(n int, a []string) []string { return a[:min(n, len(a))] }

func (r R) some(cmd, k string, lo, hi int, f func() string) []string {
	a := []string{cmd, k}
	for i, n := 0, r.args(lo, hi); i < n; i++ {
		a = append(a, f())
	}
	return a
}

func (r R) setKey() string { return pick(r, "t1", "t2", "t3", "t4") }

func (r R) member() string {
	if r.W > 0 && !r.p(5) {
		return "e" + strconv.Itoa(r.IntN(r.W))
	}
	if r.p(4) {
		return r.text()
	}
	return pick(r, "a", "b", "c", "d", "e", "f", "", "1", "2", "z\r\n")
}

func (r R) set(key func() string) spec.Cmd {
	k := key()
	switch r.IntN(24) {
	case 0, 1, 2, 3:
		return Cmd(r.some("SADD", k, 1, 5, r.member)...)
	case 4, 5:
		return Cmd(r.some("SREM", k, 1, 3, r.member)...)
	case 6:
		return Cmd("SCARD", k)
	case 7, 8:
		return Cmd("SISMEMBER", k, r.member())
	case 9, 10:
		return Cmd("SMEMBERS", k)
	case 11, 12, 13:
		return Cmd("SMOVE", k, key(), r.member())
	case 14:
		return Cmd("SPOP", k)
	case 15:
		return Cmd("SPOP", k, r.count("0", "1", "2", "3", "50", "-1", "x"))
	case 16, 17, 18:
		return Cmd(atMost(50, r.some(pick(r, "SDIFF", "SINTER", "SUNION"), k, 0, 2, key))...)
	case 19, 20, 21:
		return Cmd(atMost(50, r.some(pick(r, "SDIFFSTORE", "SINTERSTORE", "SUNIONSTORE"), k, 1, 3, key))...)
	}
	return Cmd(pick(r, "DEL", "EXISTS", "TYPE"), k)
}

func (r R) hashKey() string { return pick(r, "h1", "h1", "h2") }

func (r R) field() string {
	if r.W > 0 && !r.p(5) {
		return "e" + strconv.Itoa(r.IntN(r.W))
	}
	if r.p(4) {
		return r.text()
	}
	return pick(r, "f1", "f2", "f3", "f4", "n1", "n2", "", "x")
}

func (r R) floatArg() string {
	switch r.IntN(10) {
	case 0:
		return pick(r, notFloats...)
	case 1:
		return pick(r, "inf", "-inf", "+inf", "1e400", "1.7e308", "-1.7e308")
	case 2:
		return "0"
	}
	return pick(r, "1", "-1", "0.5", "2.25", "-0.75", "3", "10.5", "1e3", "100")
}

func (r R) hval() string {
	if r.p(40) {
		return pick(r, "1", "10", "-5", "1.5", "2.5", "0", "3.0", "007", "1e3", "+5", "9223372036854775807", "9223372036854775808", "1.50", "inf", "nan", "0x1p-2", "-0", "1_000",
			"1e+21", "1e-07", "1.5e+300", "123456.789", "-2.5e-09", "1e21", "100000000000000000000", "1e+06", "1000000", "0.1", "1e-320")
	}
	return r.value()
}

func (r R) hash(key func() string) spec.Cmd {
	k := key()
	switch r.IntN(26) {
	case 0, 1, 2:
		a := []string{pick(r, "HSET", "HSET", "HMSET"), k}
		for i, n := 0, r.args(1, 3); i < n; i++ {
			a = append(a, r.field(), r.hval())
		}
		if r.p(6) {
			a = append(a, "dangling")
		}
		return Cmd(a...)
	case 3, 4:
		return Cmd("HSETNX", k, r.field(), r.hval())
	case 5, 6, 7:
		return Cmd("HGET", k, r.field())
	case 8, 9:
		return Cmd("HGETALL", k)
	case 10:
		return Cmd("HKEYS", k)
	case 11:
		return Cmd("HVALS", k)
	case 12, 13:
		return Cmd("HLEN", k)
	case 14, 15:
		return Cmd("HEXISTS", k, r.field())
	case 16:
		return Cmd(r.some("HMGET", k, 1, 4, r.field)...)
	case 17, 18, 19:
		return Cmd("HINCRBY", k, pick(r, "n1", "n1", "n2", r.field()), r.intArg())
	case 20, 21:
		return Cmd("HINCRBYFLOAT", k, pick(r, "x", "x", "n2", r.field()), r.floatArg())
	case 22, 23, 24:
		return Cmd(r.some("HDEL", k, 1, 3, r.field)...)
	}
	return Cmd(pick(r, "DEL", "EXISTS", "TYPE"), k)
}

func (r R) zKey() string { return pick(r, "z1", "z1", "z2") }

type zdom struct{ members, scores int }

func (r R) zm(d zdom) string {
	if r.p(3) {
		return r.text()
	}
	return "m" + strconv.Itoa(r.in(0, d.members-1))
}

func (r R) score(d zdom) string {
	switch r.IntN(16) {
	case 0:
		return pick(r, "inf", "-inf", "+inf", "1e300", "-1e300", "0.1", "-0.5", "1.5", "3.25", "-0", "1e-9", "9007199254740992", "9007199254740993", "-1e16", "1e20", "1e21", "-1e22", "123456789.125", "1e-7", "5e-324", "1.7976931348623157e308")
	case 1:
		return pick(r, notFloats...)
	}
	return strconv.Itoa(r.in(0, d.scores) - d.scores/4)
}

func (r R) bnd(d zdom) string {
	switch r.IntN(10) {
	case 0:
		return pick(r, "-inf", "+inf", "inf", "(inf", "(-inf", "(+inf")
	case 1:
		return pick(r, "abc", "", "(", "nan", "[1")
	case 2, 3, 4:
		return "(" + strconv.Itoa(r.in(0, d.scores)-d.scores/4)
	case 5:
		return strconv.FormatFloat(float64(r.in(0, d.scores)-d.scores/4)+0.5, 'g', -1, 64)
	}
	return strconv.Itoa(r.in(0, d.scores) - d.scores/4)
}

func (r R) zidx(d zdom) string {
	switch r.IntN(14) {
	case 0:
		return pick(r, "1000", "-1000", "9223372036854775807", "-9223372036854775808")
	case 1:
		return pick(r, notInts...)
	}
	n := min(d.members, 14)
	if r.W > 0 && r.p(70) {
		n = d.members
	}
	return strconv.Itoa(r.in(-n-1, n+1))
}

func (r R) zset(key func() string, d zdom) spec.Cmd {
	k := key()
	ws := func(a ...string) spec.Cmd {
		if r.p(50) {
			a = append(a, pick(r, "WITHSCORES", "withscores"))
		}
		return Cmd(a...)
	}
	switch r.IntN(34) {
	case 0, 1, 2, 3, 4, 5, 6:
		a := []string{"ZADD", k}
		switch r.IntN(12) {
		case 0:
			a = append(a, pick(r, "NX", "nx"))
		case 1:
			a = append(a, pick(r, "XX", "xx"))
		case 2:
			if r.p(20) {
				a = append(a, "NX", "XX")
			}
		case 3:
			a = append(a, pick(r, "INCR", "incr"))
		}
		for i, n := 0, r.args(1, min(8, d.members)); i < n; i++ {
			a = append(a, r.score(d), r.zm(d))
		}
		if r.p(3) {
			a = append(a, "1")
		}
		return Cmd(a...)
	case 7, 8:
		return Cmd("ZSCORE", k, r.zm(d))
	case 9, 10, 11:
		return Cmd("ZRANK", k, r.zm(d))
	case 12, 13, 14:
		return Cmd(r.some("ZREM", k, 1, 3, func() string { return r.zm(d) })...)
	case 15:
		return Cmd("ZCARD", k)
	case 16, 17, 18:
		return Cmd("ZCOUNT", k, r.bnd(d), r.bnd(d))
	case 19, 20, 21:
		return Cmd("ZINCR", k, r.score(d), r.zm(d))
	case 22, 23, 24:
		return ws("ZRANGE", k, r.zidx(d), r.zidx(d))
	case 25:
		return ws("ZRANGE", k, "0", "-1")
	case 26, 27:
		return ws("ZRANGEBYSCORE", k, r.bnd(d), r.bnd(d))
	case 28, 29:
		return ws("ZREVRANGE", k, r.zidx(d), r.zidx(d))
	case 30:
		return Cmd(pick(r, "ZPOPMIN", "ZPOPMAX"), k)
	case 31:
		return Cmd(pick(r, "ZPOPMIN", "ZPOPMAX"), k, r.count("0", "1", "2", "3", "100", "-1", "x"))
	case 32:
		if r.p(50) {
			return Cmd("ZRANGE", k, r.bnd(d), r.bnd(d), "BYSCORE")
		}
		return ws("ZRANGE", k, r.bnd(d), r.bnd(d), "BYSCORE")
	}
	return Cmd(pick(r, "DEL", "EXISTS", "TYPE"), k)
}

// anyKey is a key of any type family, so that types collide.
func (r R) anyKey() string { return pick(r, "k1", "k2", "k3", "k4", "kk") }

// keyspace draws the type-independent commands.
func (r R) keyspace(key func() string) spec.Cmd {
	switch r.IntN(8) {
	case 0, 1:
		return Cmd(r.some("DEL", key(), 0, 3, key)...)
	case 2, 3:
		return Cmd(r.some("EXISTS", key(), 0, 3, key)...)
	case 4, 5:
		return Cmd("TYPE", key())
	}
	return Cmd("KEYS", r.globPat())
}

// globPat draws a pattern whose matches are specified.
func (r R) globPat() string {
	if r.p(60) {
		return pick(r, "*", "k*", "k?", "?k", "k1", "nosuch", "*1", "k*k", "**", "??", "", "?", "*?", "?*")
	}
	var s strings.Builder
	for i, n := 0, r.in(1, 4); i < n; i++ {
		s.WriteString(pick(r, "k", "k", "1", "2", "*", "*", "?", "[k]", "[12]", "[1-3]", "[0-9]", "[a-z]", "\\k", "\\1", "\\*", "\\?", "\\[", ".", "+", "$", "(", "|"))
	}
	return s.String()
}

// mixed draws any command on the given keys.
func (r R) mixed(key func() string) spec.Cmd {
	d := zdom{max(8, r.W), max(6, r.W)}
	switch r.IntN(7) {
	case 0:
		return r.str(key)
	case 1:
		return r.list(key)
	case 2:
		return r.set(key)
	case 3:
		return r.hash(key)
	case 4:
		return r.zset(key, d)
	}
	return r.keyspace(key)
}

var allCmds = []string{"SET", "MSET", "GET", "MGET", "INCR", "INCRBY", "DECR", "DECRBY", "APPEND", "KEYS", "EXISTS", "DEL", "TYPE",
	"LPUSH", "LPOP", "RPUSH", "RPOP", "LLEN", "LRANGE", "LREM", "LINDEX", "LSET", "LINSERT",
	"SADD", "SCARD", "SDIFF", "SDIFFSTORE", "SINTER", "SINTERSTORE", "SUNION", "SUNIONSTORE", "SISMEMBER", "SMEMBERS", "SMOVE", "SREM", "SPOP",
	"HDEL", "HEXISTS", "HGET", "HGETALL", "HINCRBY", "HINCRBYFLOAT", "HKEYS", "HLEN", "HMGET", "HMSET", "HSET", "HSETNX", "HVALS",
	"ZADD", "ZSCORE", "ZRANK", "ZREM", "ZCARD", "ZCOUNT", "ZINCR", "ZRANGE", "ZRANGEBYSCORE", "ZREVRANGE", "ZPOPMIN", "ZPOPMAX"}

// odd draws requests that must be refused: unknown names, too few arguments,
// odd pairs, bad numbers.
func (r R) odd(key func() string) spec.Cmd {
	switch r.IntN(8) {
	case 0:
		if r.p(40) { // nearly the name of a command
			n := pick(r, allCmds...)
			if i := r.IntN(len(n) + 1); r.p(80) {
				n = n[:i] + pick(r, "\xff", "\x00", " ", "\t", "\xe2\x80\x8b", "\xc2\xa0", "_", "-", "\xc3\x28", "\xf0\x9f") + n[i:]
			} else if n != "MSET" {
				n = n[:len(n)-1]
			}
			return Cmd(n, key(), "1", "a")
		}
		return Cmd(pick(r, "NOSUCH", "", "GETT", "SE T", "\x00", "EXPIRE", "MULTI", "FLUSHALL"), key(), "1")
	case 1, 2: // below the arity
		name := pick(r, allCmds...)
		a := []string{name}
		for i, n := 0, r.in(0, 2); i < n; i++ {
			a = append(a, key())
		}
		return Cmd(a...)
	case 3:
		return Cmd("MSET", key(), "1", key())
	case 4:
		return Cmd(pick(r, "HSET", "HMSET"), key(), "f1", "v1", "f2")
	case 5:
		a := []string{"ZADD", key()}
		for i, n := 0, r.in(1, 3); i < n; i++ {
			a = append(a, strconv.Itoa(r.in(0, 9)), "m"+strconv.Itoa(i))
		}
		return Cmd(append(a, pick(r, notFloats...), "mx")...)
	case 6:
		return Cmd(pick(r, "INCRBY", "DECRBY"), key(), pick(r, notInts...))
	}
	switch r.IntN(6) {
	case 0:
		return Cmd("LSET", key(), pick(r, "99", "-99", "x"), "v")
	case 1:
		return Cmd("HINCRBY", key(), "f1", pick(r, notInts...))
	case 2:
		return Cmd("HINCRBYFLOAT", key(), "f1", pick(r, notFloats...))
	case 3:
		return Cmd("LREM", key(), pick(r, notInts...), "a")
	case 4:
		return Cmd("ZINCR", key(), pick(r, notFloats...), "m1")
	}
	return Cmd("LINSERT", key(), "BESIDE", "a", "b")
}

// text is a word, or none, that begins, ends or is made of what someone might
// strip, quote, expand or convert.
func (r R) text() string {
	odd := func() string {
		if r.p(10) {
			return pick(r, "\xc3\xa9", "\xe4\xb8\x96", "\xff", "\x80", "\xef\xbb\xbf", "\xe2\x80\xa8", "e\xcc\x81", "\xd9\xa3")
		}
		return string([]byte{pick[byte](r, 0, ' ', '\t', '\n', '\r', '\'', '"', '`', '\\', '/', '#', '%', '$', '*', '?', '[', ']', '(', '{', '}', '-', '+', ':', ';', '=', ',', '.', '_', '~', '@', '&', '|', '<', '>', '0', 0x1b, 0x7f)})
	}
	if r.p(25) {
		return pick(r, "007", "+5", "-0", "0", "00", "1e3", "1E3", "0x10", "0b1", "5.0", "5.", ".5", " 5", "5 ", "5\n", "5\x00", "1_000", "1,000", "Inf", "-inf", "+Inf", "NaN", "infinity", "1e400", "1e-400",
			"true", "True", "false", "null", "NULL", "nil", "<nil>", "undefined", "OK", "QUEUED", "(nil)", "[]", "{}", "map[]", "__proto__", "..", "-", "--", "+", "(1", "(inf", "18446744073709551616", "9223372036854775808", "2147483648", "4294967296")
	}
	w := pick(r, "", "w", "key1", "user:1", "12", "some text")
	switch r.IntN(4) {
	case 0:
		return odd() + w
	case 1:
		return w + odd()
	case 2:
		o := odd()
		return o + w + o
	}
	return strings.Repeat(odd(), r.in(1, 4)) + w
}

// hazard is text that breaks whoever takes arguments for something else.
func (r R) hazard() string {
	switch r.IntN(10) {
	case 8, 9:
		return r.text()
	case 0:
		return ""
	case 1:
		return "\r\n"
	case 2:
		return "\x00\xff\xfe"
	case 3:
		return strings.Repeat(pick(r, "k", "\n", "%s"), r.in(1, 5000))
	case 4:
		return pick(r, "*", "$-1", "*1\r\n$4\r\nPING\r\n", "%d%s%n", "\"q\" 'q'", "nil", "(error)", " ")
	}
	return "x" + pick(r, "\r\n+OK", "\n", "\r", "\r\n:7\r\n", "\r\n$3\r\nfoo") + pick(r, "", "y")
}

// spice replaces an argument, or part of the command's name, now and then.
func (r R) spice(c spec.Cmd) spec.Cmd {
	if len(c.A) == 0 || !r.p(2) {
		return c
	}
	a := append([][]byte(nil), c.A...)
	i := r.IntN(len(a))
	if h := r.hazard(); i == 0 && r.p(70) {
		a[0] = append(append([]byte(nil), a[0]...), h...)
	} else {
		a[i] = []byte(h)
	}
	return spec.Cmd{A: a}
}

// lower spells the command name in random case.
func (r R) recase(c spec.Cmd) spec.Cmd {
	if len(c.A) == 0 || !r.p(30) {
		return c
	}
	n := []byte(strings.ToLower(string(c.A[0])))
	if r.p(50) {
		for i := range n {
			if r.p(50) && n[i] >= 'a' && n[i] <= 'z' {
				n[i] -= 32
			}
		}
	}
	a := append([][]byte(nil), c.A...)
	a[0] = n
	return spec.Cmd{A: a}
}

var _ = math.Inf

// fill is the requests that make the containers wide.
func (r R) fill(prop string) []spec.Cmd {
	var cs []spec.Cmd
	add := func(item func(i int) []string, head ...string) {
		n := r.in(r.W*3/4, r.W+r.W/4)
		at := 0
		for n > 0 {
			m := min(n, pick(r, 10, 100, 2000))
			a := append([]string(nil), head...)
			for ; m > 0; m-- {
				a = append(a, item(at)...)
				at++
				n--
			}
			cs = append(cs, Cmd(a...))
		}
	}
	e := func(i int) []string { return []string{"e" + strconv.Itoa(i)} }
	any := func(int) []string { return []string{"e" + strconv.Itoa(r.IntN(r.W))} }
	field := func(i int) []string { return []string{"e" + strconv.Itoa(i), r.hval()} }
	score := func(i int) []string {
		return []string{strconv.Itoa(r.IntN(pick(r, 3, r.W, 10*r.W))), "m" + strconv.Itoa(i)}
	}
	switch prop {
	case "P03":
		add(func(i int) []string { return []string{"s" + strconv.Itoa(i), r.value()} }, "MSET")
	case "P04":
		add(e, pick(r, "RPUSH", "LPUSH"), "l1")
		add(any, "RPUSH", "l2")
	case "P05":
		add(e, "SADD", "t1")
		add(any, "SADD", "t2")
	case "P06":
		add(field, "HSET", "h1")
	case "P07":
		add(score, "ZADD", "z1")
	case "P08":
		add(e, "RPUSH", "k1")
		add(e, "SADD", "k2")
		add(field, "HSET", "k3")
		add(score, "ZADD", "k4")
	}
	return cs
}
