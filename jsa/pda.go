package main

import (
	"sort"
	"strings"
)

// The reference automaton of JSON texts (RFC 8259), over abstract pieces.

// cfg is a configuration: the open brackets and what is expected next.
//
//	v value       a value or ]      o key or }     k key      c colon
//	e value ended (also at the end)
//	s in a string  b after backslash  1..4 hex digits left
//	- minus  0 zero  9 digits  . dot  f fraction  x e  + sign  X exponent
//	t in a literal name (rest)
type cfg struct {
	stack string
	st    byte
	key   bool // the string is an object key
	rest  string
}

func (c cfg) String() string {
	s := c.stack + "|" + string(c.st)
	if c.key {
		s += "K"
	}
	return s + c.rest
}

var stNames = map[byte]string{'v': "a value is expected", 'a': "a value or ] is expected", 'o': "a key or } is expected",
	'k': "a key is expected", 'c': "a colon is expected", 'e': "a value has ended", 's': "inside a string", 'b': "after a backslash",
	'1': "inside \\u", '2': "inside \\u", '3': "inside \\u", '4': "inside \\u", '-': "after a minus sign", '0': "after a leading zero",
	'9': "in a number", '.': "after a decimal point", 'f': "in a fraction", 'x': "after e", '+': "after the sign of an exponent", 'X': "in an exponent", 't': "in a literal name"}

func (c cfg) describe() string {
	s := stNames[c.st]
	if c.st == 's' && c.key {
		s = "inside a key"
	}
	if c.stack != "" {
		s += " (open: " + c.stack + ")"
	}
	return s
}

const maxStack = 6

func (c cfg) ended() bool {
	switch c.st {
	case 'e', '0', '9', 'f', 'X':
		return true
	}
	return false
}

// value consumes a complete value.
func (c cfg) value() (cfg, bool) {
	if c.st == 'v' || c.st == 'a' {
		return cfg{stack: c.stack, st: 'e'}, true
	}
	return c, false
}

// str consumes a complete string.
func (c cfg) str() (cfg, bool) {
	switch c.st {
	case 'v', 'a':
		return cfg{stack: c.stack, st: 'e'}, true
	case 'o', 'k':
		return cfg{stack: c.stack, st: 'c'}, true
	}
	return c, false
}

func (c cfg) to(st byte) (cfg, bool) { return cfg{stack: c.stack, st: st, key: c.key}, true }

func (c cfg) feed(ch byte) (cfg, bool) {
	ws := ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r'
	dig := ch >= '0' && ch <= '9'
	switch c.st {
	case 'v', 'a':
		switch {
		case ws:
			return c, true
		case ch == ']' && c.st == 'a':
			return cfg{stack: c.stack[:len(c.stack)-1], st: 'e'}, true
		case ch == '"':
			return cfg{stack: c.stack, st: 's'}, true
		case ch == '[':
			if len(c.stack) >= maxStack {
				return c, false
			}
			return cfg{stack: c.stack + "[", st: 'a'}, true
		case ch == '{':
			if len(c.stack) >= maxStack {
				return c, false
			}
			return cfg{stack: c.stack + "{", st: 'o'}, true
		case ch == '-':
			return c.to('-')
		case ch == '0':
			return c.to('0')
		case dig:
			return c.to('9')
		case ch == 't':
			return cfg{stack: c.stack, st: 't', rest: "rue"}, true
		case ch == 'f':
			return cfg{stack: c.stack, st: 't', rest: "alse"}, true
		case ch == 'n':
			return cfg{stack: c.stack, st: 't', rest: "ull"}, true
		}
	case 't':
		if c.rest[0] == ch {
			if len(c.rest) == 1 {
				return cfg{stack: c.stack, st: 'e'}, true
			}
			return cfg{stack: c.stack, st: 't', rest: c.rest[1:]}, true
		}
	case 'o', 'k':
		switch {
		case ws:
			return c, true
		case ch == '}' && c.st == 'o':
			return cfg{stack: c.stack[:len(c.stack)-1], st: 'e'}, true
		case ch == '"':
			return cfg{stack: c.stack, st: 's', key: true}, true
		}
	case 'c':
		if ws {
			return c, true
		}
		if ch == ':' {
			return cfg{stack: c.stack, st: 'v'}, true
		}
	case 's':
		switch {
		case ch == '"':
			if c.key {
				return cfg{stack: c.stack, st: 'c'}, true
			}
			return cfg{stack: c.stack, st: 'e'}, true
		case ch == '\\':
			return c.to('b')
		case ch >= 0x20:
			return c, true
		}
	case 'b':
		switch ch {
		case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
			return c.to('s')
		case 'u':
			return c.to('4')
		}
	case '4', '3', '2', '1':
		if dig || ch >= 'a' && ch <= 'f' || ch >= 'A' && ch <= 'F' {
			if c.st == '1' {
				return c.to('s')
			}
			return c.to(c.st - 1)
		}
	case '-':
		if ch == '0' {
			return c.to('0')
		}
		if dig {
			return c.to('9')
		}
	case '0', '9', 'f', 'X', 'e':
		switch {
		case dig && c.st != '0' && c.st != 'e':
			return c, true
		case ch == '.' && (c.st == '0' || c.st == '9'):
			return c.to('.')
		case (ch == 'e' || ch == 'E') && (c.st == '0' || c.st == '9' || c.st == 'f'):
			return c.to('x')
		case ws:
			return cfg{stack: c.stack, st: 'e'}, true
		case ch == ',' && c.stack != "":
			if c.stack[len(c.stack)-1] == '{' {
				return cfg{stack: c.stack, st: 'k'}, true
			}
			return cfg{stack: c.stack, st: 'v'}, true
		case ch == ']' && strings.HasSuffix(c.stack, "["), ch == '}' && strings.HasSuffix(c.stack, "{"):
			return cfg{stack: c.stack[:len(c.stack)-1], st: 'e'}, true
		}
	case '.':
		if dig {
			return c.to('f')
		}
	case 'x':
		if ch == '+' || ch == '-' {
			return c.to('+')
		}
		if dig {
			return c.to('X')
		}
	case '+':
		if dig {
			return c.to('X')
		}
	}
	return c, false
}

type cfgSet map[cfg]bool

func (s cfgSet) list() []cfg {
	var r []cfg
	for c := range s {
		r = append(r, c)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func (s cfgSet) key() string {
	var ss []string
	for c := range s {
		ss = append(ss, c.String())
	}
	sort.Strings(ss)
	return strings.Join(ss, " ")
}

func one(c cfg) cfgSet { return cfgSet{c: true} }
