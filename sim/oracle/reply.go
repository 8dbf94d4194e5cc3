// Package oracle decides a recorded history: a reference model of the command
// set and a linearizability search over it, plus wire-level checks.
package oracle

import (
	"bytes"
	"fmt"
	"strconv"
)

// Reply is a parsed RESP value.
type Reply struct {
	T   byte // + - : $ *
	S   string
	I   int64
	Nil bool
	A   []*Reply
}

// Parse parses one complete RESP value (already validated by the client).
func Parse(b []byte) (*Reply, error) {
	r, n, err := parse(b)
	if err != nil {
		return nil, err
	}
	if n != len(b) {
		return nil, fmt.Errorf("trailing bytes")
	}
	return r, nil
}

func parse(b []byte) (*Reply, int, error) {
	i := bytes.Index(b, []byte("\r\n"))
	if i < 1 {
		return nil, 0, fmt.Errorf("no header")
	}
	line := string(b[1:i])
	r := &Reply{T: b[0]}
	switch b[0] {
	case '+', '-':
		r.S = line
		return r, i + 2, nil
	case ':':
		v, err := strconv.ParseInt(line, 10, 64)
		r.I = v
		return r, i + 2, err
	}
	n, err := strconv.Atoi(line)
	if err != nil {
		return nil, 0, err
	}
	if n < 0 {
		r.Nil = true
		return r, i + 2, nil
	}
	if b[0] == '$' {
		if len(b) < i+2+n+2 {
			return nil, 0, fmt.Errorf("short")
		}
		r.S = string(b[i+2 : i+2+n])
		return r, i + 4 + n, nil
	}
	p := i + 2
	for k := 0; k < n; k++ {
		x, l, err := parse(b[p:])
		if err != nil {
			return nil, 0, err
		}
		r.A = append(r.A, x)
		p += l
	}
	return r, p, nil
}

func (r *Reply) String() string {
	if r == nil {
		return "(no reply)"
	}
	switch r.T {
	case '+':
		return "+" + short(r.S)
	case '-':
		return "error " + short(r.S)
	case ':':
		return fmt.Sprintf("(integer) %d", r.I)
	case '$':
		if r.Nil {
			return "(nil)"
		}
		return short(r.S)
	}
	if r.Nil {
		return "(nil array)"
	}
	s := "["
	for i, a := range r.A {
		if i > 0 {
			s += " "
		}
		if i > 40 {
			s += fmt.Sprintf("... %d items", len(r.A))
			break
		}
		s += a.String()
	}
	return s + "]"
}

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q...(%d bytes)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func (r *Reply) isErr() bool { return r.T == '-' }
func (r *Reply) isNil() bool { return r.Nil }
func (r *Reply) empty() bool { return r.Nil || (r.T == '*' && len(r.A) == 0) }

// strs returns the elements of an array of non-nil bulk strings.
func (r *Reply) strs() ([]string, bool) {
	if r.T != '*' || r.Nil {
		return nil, false
	}
	out := make([]string, len(r.A))
	for i, a := range r.A {
		if a.T != '$' || a.Nil {
			return nil, false
		}
		out[i] = a.S
	}
	return out, true
}
