// Package resp is an independent RESP2 parser and request builder (shares no code with the system under test).
package resp

import (
	"fmt"
	"strconv"
	"strings"
)

// Value is one RESP value. Kind: '+', '-', ':', '$', '*'.
type Value struct {
	Kind byte
	Str  string
	Int  int64
	Nil  bool
	Arr  []Value
}

// IncompleteError means that more bytes are needed.
type IncompleteError struct{}

func (IncompleteError) Error() string { return "incomplete value" }

func line(b []byte) (string, []byte, error) {
	for i := 0; i < len(b); i++ {
		if b[i] == '\n' {
			return "", nil, fmt.Errorf("bare LF in line %q", b[:i+1])
		}
		if b[i] == '\r' {
			if i+1 >= len(b) {
				return "", nil, IncompleteError{}
			}
			if b[i+1] != '\n' {
				return "", nil, fmt.Errorf("CR without LF in line %q", b[:i+2])
			}
			return string(b[:i]), b[i+2:], nil
		}
	}
	return "", nil, IncompleteError{}
}

func integer(s string) (int64, error) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return 0, fmt.Errorf("bad integer %q", s)
	}
	if s[0] == '+' || strconv.FormatInt(n, 10) != s {
		return 0, fmt.Errorf("non-canonical integer %q", s)
	}
	return n, nil
}

// Parse reads one value and returns what follows it.
func Parse(b []byte) (Value, []byte, error) {
	if len(b) == 0 {
		return Value{}, nil, IncompleteError{}
	}
	k := b[0]
	switch k {
	case '+', '-', ':', '$', '*':
	default:
		return Value{}, nil, fmt.Errorf("bad type byte %q", k)
	}
	s, rest, err := line(b[1:])
	if err != nil {
		return Value{}, nil, err
	}
	switch k {
	case '+', '-':
		return Value{Kind: k, Str: s}, rest, nil
	case ':':
		n, err := integer(s)
		return Value{Kind: k, Int: n}, rest, err
	case '$':
		n, err := integer(s)
		if err != nil {
			return Value{}, nil, err
		}
		if n == -1 {
			return Value{Kind: k, Nil: true}, rest, nil
		}
		if n < 0 {
			return Value{}, nil, fmt.Errorf("bad bulk length %d", n)
		}
		if int64(len(rest)) < n+2 {
			return Value{}, nil, IncompleteError{}
		}
		if rest[n] != '\r' || rest[n+1] != '\n' {
			return Value{}, nil, fmt.Errorf("bulk of length %d not followed by CRLF", n)
		}
		return Value{Kind: k, Str: string(rest[:n])}, rest[n+2:], nil
	default:
		n, err := integer(s)
		if err != nil {
			return Value{}, nil, err
		}
		if n == -1 {
			return Value{Kind: k, Nil: true}, rest, nil
		}
		if n < 0 {
			return Value{}, nil, fmt.Errorf("bad array length %d", n)
		}
		v := Value{Kind: k}
		for i := int64(0); i < n; i++ {
			var e Value
			e, rest, err = Parse(rest)
			if err != nil {
				return Value{}, nil, err
			}
			v.Arr = append(v.Arr, e)
		}
		return v, rest, nil
	}
}

// One parses b as exactly one value.
func One(b []byte) (Value, error) {
	v, rest, err := Parse(b)
	if err != nil {
		return v, err
	}
	if len(rest) != 0 {
		return v, fmt.Errorf("%d bytes after the value: %q", len(rest), clip(string(rest)))
	}
	return v, nil
}

func clip(s string) string {
	if len(s) > 80 {
		return s[:80] + "..."
	}
	return s
}

// Encode builds a request.
func Encode(args ...string) []byte {
	var b strings.Builder
	b.WriteString("*" + strconv.Itoa(len(args)) + "\r\n")
	for _, a := range args {
		b.WriteString("$" + strconv.Itoa(len(a)) + "\r\n" + a + "\r\n")
	}
	return []byte(b.String())
}

func (v Value) IsErr() bool { return v.Kind == '-' }
func (v Value) IsNil() bool { return v.Nil && (v.Kind == '$' || v.Kind == '*') }
func (v Value) IsInt(n int64) bool {
	return v.Kind == ':' && v.Int == n
}
func (v Value) IsBulk(s string) bool { return v.Kind == '$' && !v.Nil && v.Str == s }
func (v Value) IsText(s string) bool {
	return (v.Kind == '$' && !v.Nil || v.Kind == '+') && v.Str == s
}

// Empty accepts a nil value or an empty array.
func (v Value) Empty() bool { return v.IsNil() || (v.Kind == '*' && len(v.Arr) == 0) }

// Strings returns the elements of an array of non-nil bulks.
func (v Value) Strings() ([]string, bool) {
	if v.Kind != '*' || v.Nil {
		return nil, false
	}
	out := make([]string, len(v.Arr))
	for i, e := range v.Arr {
		if e.Nil || (e.Kind != '$' && e.Kind != '+') {
			return nil, false
		}
		out[i] = e.Str
	}
	return out, true
}

func (v Value) String() string {
	switch {
	case v.Nil:
		return "nil"
	case v.Kind == '*':
		p := make([]string, len(v.Arr))
		for i, e := range v.Arr {
			p[i] = e.String()
		}
		return "[" + clip(strings.Join(p, " ")) + "]"
	case v.Kind == ':':
		return ":" + strconv.FormatInt(v.Int, 10)
	case v.Kind == '-':
		return "ERR(" + clip(v.Str) + ")"
	case v.Kind == '+':
		return "+" + clip(v.Str)
	case v.Kind == '$':
		return strconv.Quote(clip(v.Str))
	}
	return "?"
}

// Equal compares two values.
func (v Value) Equal(w Value) bool {
	if v.Kind != w.Kind || v.Nil != w.Nil || v.Str != w.Str || v.Int != w.Int || len(v.Arr) != len(w.Arr) {
		return false
	}
	for i := range v.Arr {
		if !v.Arr[i].Equal(w.Arr[i]) {
			return false
		}
	}
	return true
}
