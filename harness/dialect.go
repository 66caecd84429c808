package main

import "strings"

// dialectValid is the structural acceptor: brackets, separators, string termination and literals as in JSON, but
// with the documented leniencies (raw control characters and unknown escapes in strings, lenient number spelling,
// inf/nan literals). Text it refuses must be rejected by the library.
func dialectValid(s string) bool {
	p := &dparse{s: s}
	p.ws()
	if !p.value() {
		return false
	}
	p.ws()
	return p.i == len(s)
}

type dparse struct {
	s string
	i int
}

func (p *dparse) ws() {
	for p.i < len(p.s) && strings.IndexByte(" \t\r\n", p.s[p.i]) >= 0 {
		p.i++
	}
}

func (p *dparse) str() bool {
	if p.i >= len(p.s) || p.s[p.i] != '"' {
		return false
	}
	for p.i++; p.i < len(p.s); p.i++ {
		switch p.s[p.i] {
		case '\\':
			p.i++
		case '"':
			p.i++
			return true
		}
	}
	return false
}

func (p *dparse) value() bool {
	if p.i >= len(p.s) {
		return false
	}
	switch p.s[p.i] {
	case '{':
		p.i++
		p.ws()
		if p.i < len(p.s) && p.s[p.i] == '}' {
			p.i++
			return true
		}
		for {
			p.ws()
			if !p.str() {
				return false
			}
			p.ws()
			if p.i >= len(p.s) || p.s[p.i] != ':' {
				return false
			}
			p.i++
			p.ws()
			if !p.value() {
				return false
			}
			p.ws()
			if p.i >= len(p.s) {
				return false
			}
			p.i++
			if p.s[p.i-1] == '}' {
				return true
			}
			if p.s[p.i-1] != ',' {
				return false
			}
		}
	case '[':
		p.i++
		p.ws()
		if p.i < len(p.s) && p.s[p.i] == ']' {
			p.i++
			return true
		}
		for {
			p.ws()
			if !p.value() {
				return false
			}
			p.ws()
			if p.i >= len(p.s) {
				return false
			}
			p.i++
			if p.s[p.i-1] == ']' {
				return true
			}
			if p.s[p.i-1] != ',' {
				return false
			}
		}
	case '"':
		return p.str()
	}
	for _, l := range []string{"true", "false", "null"} {
		if strings.HasPrefix(p.s[p.i:], l) {
			p.i += len(l)
			return true
		}
	}
	j := p.i
	for j < len(p.s) && strings.IndexByte("0123456789+-.eE", p.s[j]) >= 0 {
		j++
	}
	if j-p.i <= 1 {
		for _, l := range []string{"infinity", "inf", "nan"} {
			if len(p.s) >= j+len(l) && strings.EqualFold(p.s[j:j+len(l)], l) && (j == p.i || p.s[p.i] == '-' || p.s[p.i] == '+') {
				p.i = j + len(l)
				return true
			}
		}
	}
	if j == p.i {
		return false
	}
	p.i = j
	return true
}
