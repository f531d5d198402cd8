package resp

// Verdict is what the grammar says of the beginning of a byte string as a request.
type Verdict int

const (
	// Good: a well-formed request of this protocol (PING line, simple string, bulk string, array of bulk strings).
	Good Verdict = iota
	// Bad: malformed, or cut off: no request.
	Bad
	// Loose: RESP that a server may take for a request or refuse (nested arrays, other element types, odd lengths).
	Loose
)

// Request reads one request from the beginning of b: its elements and how many bytes it has.
func Request(b []byte) (elems []string, n int, v Verdict) {
	p := &reqParser{b: b}
	if len(b) >= 6 && string(b[:6]) == "PING\r\n" {
		return []string{"PING"}, 6, Good
	}
	ok := p.value(0)
	switch {
	case !ok:
		return nil, 0, Bad
	case p.loose:
		return p.elems, p.i, Loose
	}
	return p.elems, p.i, Good
}

type reqParser struct {
	b     []byte
	i     int
	elems []string
	loose bool
}

// line returns the text up to CRLF, which has to end the first line that LF ends.
func (p *reqParser) line() (string, bool) {
	for j := p.i; j < len(p.b); j++ {
		if p.b[j] != '\n' {
			continue
		}
		if j == p.i || p.b[j-1] != '\r' {
			return "", false
		}
		s := string(p.b[p.i : j-1])
		p.i = j + 1
		return s, true
	}
	return "", false
}

// length reads a length: canonical decimal text is good; signs and leading zeros are loose; anything else is bad.
func (p *reqParser) length(s string) (int, bool) {
	if s == "" {
		return 0, false
	}
	if s[0] == '+' {
		p.loose = true
		s = s[1:]
	} else if s[0] == '-' {
		s = s[1:]
		for _, c := range s {
			if c != '0' {
				return 0, false
			}
		}
		p.loose = true
	}
	if s == "" || len(s) > 30 {
		return 0, false
	}
	n := 0
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0, false
		}
		n = n*10 + int(c-'0')
		if n > 1<<40 {
			return 0, false // there are never that many bytes
		}
	}
	if len(s) > 1 && s[0] == '0' {
		p.loose = true
	}
	return n, true
}

func (p *reqParser) value(depth int) bool {
	l, ok := p.line()
	if !ok || l == "" {
		return false
	}
	switch l[0] {
	case '+', '-', ':':
		if depth > 0 || l[0] != '+' {
			p.loose = true
		}
		for i := 0; i < len(l); i++ {
			if l[i] == '\r' {
				p.loose = true
			}
		}
		p.elems = append(p.elems, l[1:])
		return true
	case '$':
		n, ok := p.length(l[1:])
		if !ok || len(p.b)-p.i < n+2 || p.b[p.i+n] != '\r' || p.b[p.i+n+1] != '\n' {
			return false
		}
		p.elems = append(p.elems, string(p.b[p.i:p.i+n]))
		p.i += n + 2
		return true
	case '*':
		n, ok := p.length(l[1:])
		if !ok {
			return false
		}
		if depth > 0 {
			p.loose = true
		}
		for k := 0; k < n; k++ {
			if !p.value(depth + 1) {
				return false
			}
		}
		return true
	}
	return false
}
