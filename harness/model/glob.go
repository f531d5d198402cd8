package model

// Pattern is an independent implementation of the KEYS pattern language: literal characters, '*', '?',
// character classes [abc] [a-z] [!abc] [!a-z], alternatives {a,b} and backslash escapes.
type Pattern struct{ items []item }

type item struct {
	star  bool
	any   bool
	neg   bool
	class []rng
	lit   rune
	isLit bool
	alts  [][]item // {a,b}
}

type rng struct{ lo, hi rune }

// CompilePattern parses p; ok is false when the pattern is malformed or outside the language the property covers.
func CompilePattern(p string) (*Pattern, bool) {
	out, rest, ok := parsePattern([]rune(p), 0)
	if !ok || len(rest) > 0 {
		return nil, false
	}
	return &Pattern{out}, true
}

// parsePattern parses up to the end of the text or, within braces, to the ',' or '}' which ends the alternative.
func parsePattern(r []rune, depth int) (out []item, rest []rune, ok bool) {
	for i := 0; i < len(r); i++ {
		if depth > 0 && (r[i] == ',' || r[i] == '}') {
			return out, r[i:], true
		}
		switch r[i] {
		case '*':
			out = append(out, item{star: true})
		case '?':
			out = append(out, item{any: true})
		case '\\':
			if i+1 >= len(r) {
				return nil, nil, false
			}
			i++
			out = append(out, item{isLit: true, lit: r[i]})
		case '}':
			return nil, nil, false // an unmatched brace is outside the property's pattern language
		case '{':
			it := item{}
			rest := r[i:]
			for more := true; more; more = rest[0] == ',' {
				var a []item
				if a, rest, ok = parsePattern(rest[1:], depth+1); !ok || len(rest) == 0 {
					return nil, nil, false
				}
				it.alts = append(it.alts, a)
			}
			out = append(out, it)
			i = len(r) - len(rest)
		case '[':
			j := i + 1
			it := item{}
			if j < len(r) && r[j] == '!' {
				it.neg = true
				j++
			}
			start := j
			for j < len(r) && r[j] != ']' {
				lo := r[j]
				if lo == '\\' {
					if j+1 >= len(r) {
						return nil, nil, false
					}
					j++
					lo = r[j]
				}
				if j+2 < len(r) && r[j+1] == '-' && r[j+2] != ']' {
					hi := r[j+2]
					it.class = append(it.class, rng{lo, hi})
					j += 3
					continue
				}
				it.class = append(it.class, rng{lo, lo})
				j++
			}
			if j >= len(r) || j == start {
				return nil, nil, false
			}
			out = append(out, it)
			i = j
		default:
			out = append(out, item{isLit: true, lit: r[i]})
		}
	}
	return out, nil, depth == 0
}

// Match reports whether the whole of s matches.
func (p *Pattern) Match(s string) bool { return match(p.items, []rune(s)) }

func match(p []item, s []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	it := p[0]
	if it.alts != nil {
		for _, a := range it.alts {
			if match(append(append([]item{}, a...), p[1:]...), s) {
				return true
			}
		}
		return false
	}
	if it.star {
		for i := 0; i <= len(s); i++ {
			if match(p[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	if len(s) == 0 {
		return false
	}
	c := s[0]
	ok := false
	switch {
	case it.any:
		ok = true
	case it.isLit:
		ok = c == it.lit
	default:
		for _, g := range it.class {
			if c >= g.lo && c <= g.hi {
				ok = true
			}
		}
		ok = ok != it.neg
	}
	return ok && match(p[1:], s[1:])
}
