package gen

import (
	"bytes"
	"fmt"
	"hash/crc32"
	"math/bits"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"simgodis/spec"
)

// Names that are easily taken for each other: by a hash, by a comparison that
// looks only at some bytes, by a conversion.

var short = regexp.MustCompile(`^[a-z]{1,2}[0-9]{0,4}$`)

// rename replaces the short names of a scenario (keys, members, fields, some
// values) by such names, each by another one.
func (r R) rename(sp *spec.Spec) {
	args, names := 0, map[string]string{}
	for _, c := range sp.Clients {
		for _, st := range c.Steps {
			for _, c := range st.Cmds {
				args += len(c.A)
				for _, a := range c.A {
					if short.Match(a) {
						names[string(a)] = ""
					}
				}
			}
		}
	}
	long := pick(r, 7, 8, 31, 63, 64, 255, 1000)
	if args > 1000 {
		long = min(long, 64)
	}
	name := r.namer(len(names), long)
	clear(names)
	one := func(c spec.Cmd) spec.Cmd {
		if c.Raw != nil || len(c.A) == 0 {
			return c
		}
		a := append([][]byte(nil), c.A...)
		for i := 1; i < len(a); i++ {
			s := string(a[i])
			if s == "nx" || s == "xx" || !short.MatchString(s) {
				continue
			}
			n, ok := names[s]
			if !ok {
				n = name(len(names))
				names[s] = n
			}
			a[i] = []byte(n)
		}
		return spec.Cmd{A: a}
	}
	for i := range sp.Clients {
		for j := range sp.Clients[i].Steps {
			for k, c := range sp.Clients[i].Steps[j].Cmds {
				sp.Clients[i].Steps[j].Cmds[k] = one(c)
			}
		}
	}
	for i, c := range sp.Audit {
		sp.Audit[i] = one(c)
	}
}

// namer is an injective function from numbers to names, fit for about n of them.
func (r R) namer(n, long int) func(i int) string {
	of := func(a, b string) func(int) string {
		w := bits.Len(uint(n)) + 1
		if r.p(50) {
			w += r.in(1, 20)
		}
		return func(i int) string {
			var s strings.Builder
			for j := 0; j < w; j++ {
				if i>>j&1 == 0 {
					s.WriteString(a)
				} else {
					s.WriteString(b)
				}
			}
			return s.String()
		}
	}
	fill := func(list []string) func(int) string {
		off := r.IntN(len(list)/2) * 2
		return func(i int) string {
			if i < len(list) {
				return list[(i+off)%len(list)]
			}
			return "more" + strconv.Itoa(i)
		}
	}
	switch r.IntN(11) {
	case 10: // text with a meaning elsewhere
		seen := map[string]bool{"": true, "nx": true, "xx": true, "more": true}
		var list []string
		for len(list) < 40 {
			if s := r.text(); !seen[s] {
				seen[s] = true
				list = append(list, s)
			}
		}
		return fill(list)
	case 0: // equal under 31*h+c
		return of("Aa", "BB")
	case 1: // anagrams: equal under sums and exclusive ors
		return of("ab", "ba")
	case 2:
		return of("a", "A")
	case 3:
		return of(pick(r, " ", "\x00", "\t"), "  ")
	case 4:
		return of(pick(r, "\xc3\xa9", "\xff", "\xef\xbf\xbd"), pick(r, "e\xcc\x81", "\xfe"))
	case 5:
		p := strings.Repeat("p", long)
		return func(i int) string { return p + strconv.Itoa(i) }
	case 6:
		p := strings.Repeat("s", long)
		return func(i int) string { return strconv.Itoa(i) + p }
	case 7: // the same number
		list := []string{"7", "+7", "7.0", "7e0", "0x7", "07", "7.", "7 ", " 7", "7\x00"}
		for i := 2; i < 30; i++ {
			list = append(list, strings.Repeat("0", i)+"7", "7."+strings.Repeat("0", i))
		}
		return fill(list)
	case 8: // one shard of the key table
		at := uint32(r.IntN(32))
		var list []string
		for i := 0; len(list) < 40; i++ {
			if s := "x" + strconv.Itoa(i); fnv1(s)%32 == at {
				list = append(list, s)
			}
		}
		return fill(list)
	}
	collisions()
	return fill(pairs[r.IntN(len(pairs))])
}

func fnv1(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = h*16777619 ^ uint32(s[i])
	}
	return h
}

func fnv1a(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

var (
	pairsOnce sync.Once
	pairs     [3][]string
)

// collisions finds names that are equal under the usual 32-bit hashes.
func collisions() {
	pairsOnce.Do(func() {
		for i, f := range []func(string) uint32{fnv1, fnv1a, func(s string) uint32 { return crc32.ChecksumIEEE([]byte(s)) }} {
			seen := make(map[uint32]string, 300_000)
			x := uint64(88172645463325252)
			for n := 0; n < 400_000 && len(pairs[i]) < 24; n++ {
				x ^= x << 13
				x ^= x >> 7
				x ^= x << 17
				s := strconv.FormatUint(x>>20, 36)
				h := f(s)
				if o, ok := seen[h]; ok && o != s {
					pairs[i] = append(pairs[i], o, s)
				}
				seen[h] = s
			}
		}
	})
}

// forms sends elements as simple strings, errors or integers and requests of one
// element without the array, which the decoder accepts as well.
func (r R) forms(sp *spec.Spec) {
	for i := range sp.Clients {
		for j := range sp.Clients[i].Steps {
			for k, c := range sp.Clients[i].Steps[j].Cmds {
				if c.Raw != nil || len(c.A) == 0 || len(c.A) > 1000 || !r.p(50) {
					continue
				}
				var b []byte
				if a := string(c.A[0]); len(c.A) > 1 || r.p(50) {
					b = fmt.Appendf(b, "*%d\r\n", len(c.A))
				} else if a == "PING" && r.p(50) {
					sp.Clients[i].Steps[j].Cmds[k].Raw = []byte("PING\r\n")
					continue
				}
				for _, a := range c.A {
					if len(a) > 10_000 || bytes.ContainsAny(a, "\r\n") || r.p(40) {
						b = fmt.Appendf(b, "$%d\r\n%s\r\n", len(a), a)
					} else {
						b = fmt.Appendf(b, "%s%s\r\n", pick(r, "+", "+", ":", "-"), a)
					}
				}
				sp.Clients[i].Steps[j].Cmds[k].Raw = b
			}
		}
	}
}
