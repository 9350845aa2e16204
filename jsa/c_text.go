package main

import (
	"fmt"
	"go/types"
	"unicode/utf8"
)

// escSpec: the text between the quotes of a JSON string.
type escSpec struct {
	L    *Lab
	base *Term
	n    *Term
	opts *Term
}

func (s *escSpec) start() int { return 0 }

func (s *escSpec) eachWritten() bool { return true }

func (s *escSpec) flag(st *State, name string) int {
	return s.L.flag(st, s.opts, name)
}
func (s *escSpec) verbatim(st *State) bool { return s.flag(st, "NoStringEscaping") == 1 }

func (s *escSpec) char(st *State, i *Term, state int) tchar {
	b := byteTerm(s.L.e, s.base, i)
	set := st.rng(b).and(between(0, 255))
	if set.subset(between(0, 127)) {
		return tchar{n: 1, root: b, vals: set, kind: "byte"}
	}
	lo, hi := set.and(between(0, 127)), set.and(between(128, 255))
	bad := mkApp("badutf8", tBoolT, s.base, i, s.n)
	switch st.decide(bad) {
	case 1:
		if lo.empty() {
			return tchar{n: 1, kind: "bad", vals: single(0xFFFD)}
		}
	case 0:
		r := mkApp("rune", types.Typ[types.Int32], s.base, i)
		v := st.rng(r)
		if lo.empty() && v.subset(between(0x80, 0x10ffff)) {
			n := utf8.RuneLen(rune(v.lo()))
			if n == utf8.RuneLen(rune(v.hi())) {
				return tchar{n: int64(n), root: r, vals: v, kind: "rune"}
			}
		}
		return tchar{und: "the length of a character"}
	}
	if !lo.empty() && !hi.empty() {
		return tchar{n: 1, root: b, vals: set, kind: "byte"}
	}
	return tchar{n: 1, root: b, vals: set, kind: "byte"}
}

func (s *escSpec) values(c tchar) []int64 {
	if c.kind == "rune" && c.vals.size() > 512 {
		// the ends of each interval and the special characters stand for the rest
		var r []int64
		seen := map[int64]bool{}
		add := func(v int64) {
			if c.vals.has(v) && !seen[v] {
				seen[v] = true
				r = append(r, v)
			}
		}
		for _, iv := range c.vals {
			add(iv.lo)
			add(iv.hi)
		}
		add(0x2028)
		add(0x2029)
		add(0xFFFD)
		return r
	}
	var r []int64
	c.vals.each(func(v int64) bool { r = append(r, v); return true })
	return r
}

func (s *escSpec) next(state int, c tchar, v int64) (int, bool) { return 0, true }
func (s *escSpec) doubt(c tchar) string                         { return "" }

func (s *escSpec) copyOK(st *State, state int, c tchar, v int64) string {
	if s.flag(st, "NoStringEscaping") == 1 {
		return ""
	}
	switch c.kind {
	case "bad":
		if s.flag(st, "NoUTF8Coercion") != 1 {
			return "invalid UTF-8 must be replaced"
		}
		return ""
	case "rune":
		if v == 0x2028 || v == 0x2029 {
			return "it must be escaped"
		}
		return ""
	}
	switch {
	case v < 0x20:
		return "control characters must be escaped"
	case v == '"' || v == '\\':
		return "it must be escaped"
	case v == '<' || v == '>' || v == '&':
		if s.flag(st, "NoHTMLEscaping") != 1 {
			return "it must be escaped unless NoHTMLEscaping is set"
		}
	case v >= 0x80:
		if s.flag(st, "NoUTF8Coercion") != 1 {
			return "it may belong to invalid UTF-8, U+2028 or U+2029"
		}
		return "it may belong to U+2028 or U+2029"
	}
	return ""
}

func (s *escSpec) outOK(st *State, state int, c tchar, v int64, out string) string {
	if c.kind == "bad" {
		if s.flag(st, "NoUTF8Coercion") != 0 {
			return "though NoUTF8Coercion may be set"
		}
		if out == "\uFFFD" || decodesTo(out, 0xFFFD) {
			return ""
		}
		return "which is not the replacement character"
	}
	if !decodesTo(out, v) {
		return "which a decoder reads as something else"
	}
	switch {
	case v < 0x20, v == '"', v == '\\', v == 0x2028, v == 0x2029:
		return ""
	case v == '<' || v == '>' || v == '&':
		if s.flag(st, "NoHTMLEscaping") != 0 {
			return "though NoHTMLEscaping may be set"
		}
		return ""
	}
	return "though it needs no escape"
}

// decodesTo: is out a single JSON escape of the character v?
func decodesTo(out string, v int64) bool {
	if len(out) < 2 || out[0] != '\\' {
		return false
	}
	switch {
	case len(out) == 2:
		m := map[byte]int64{'"': '"', '\\': '\\', '/': '/', 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9}
		w, ok := m[out[1]]
		return ok && w == v
	case len(out) == 6 && out[1] == 'u':
		n := int64(0)
		for i := 2; i < 6; i++ {
			c := out[i]
			switch {
			case '0' <= c && c <= '9':
				n = n*16 + int64(c-'0')
			case 'a' <= c && c <= 'f':
				n = n*16 + int64(c-'a') + 10
			case 'A' <= c && c <= 'F':
				n = n*16 + int64(c-'A') + 10
			default:
				return false
			}
		}
		return n == v
	}
	return false
}

// compSpec: a valid JSON text, compacted.
type compSpec struct {
	L    *Lab
	base *Term
	n    *Term
	opts *Term
}

func (s *compSpec) eachWritten() bool { return false }

func (s *compSpec) start() int              { return 0 }
func (s *compSpec) verbatim(st *State) bool { return s.flag(st, "NoCompact") == 1 }
func (s *compSpec) flag(st *State, name string) int {
	return s.L.flag(st, s.opts, name)
}

// char: U+2028 and U+2029 are the only characters of several bytes that matter.
func (s *compSpec) char(st *State, i *Term, state int) tchar {
	e := s.L.e
	b := byteTerm(e, s.base, i)
	set := st.rng(b).and(between(0, 255))
	if v, ok := set.isSingle(); ok && v == 0xE2 {
		b1 := byteTerm(e, s.base, addT(i, intC(1)))
		b2 := byteTerm(e, s.base, addT(i, intC(2)))
		if st.bound(subT(s.n, i)).lo > 2 {
			if w, ok := st.rng(b1).isSingle(); ok && w == 0x80 && st.rng(b2).and(between(0, 255)).subset(between(0xA8, 0xA9)) {
				return tchar{n: 3, root: b2, vals: st.rng(b2).and(between(0xA8, 0xA9)), kind: "sep"}
			}
		}
	}
	return tchar{n: 1, root: b, vals: set, kind: "byte"}
}

func (s *compSpec) values(c tchar) []int64 {
	var r []int64
	c.vals.each(func(v int64) bool { r = append(r, v); return true })
	return r
}

func (s *compSpec) doubt(c tchar) string { return "" }

// states: 0 outside of strings, 1 in a string, 2 after a backslash
func (s *compSpec) next(state int, c tchar, v int64) (int, bool) {
	if c.kind == "sep" {
		return 1, state == 1
	}
	switch state {
	case 0:
		switch {
		case v == '"':
			return 1, true
		case v == ' ' || v == '\t' || v == '\n' || v == '\r':
			return 0, true
		case v == '{' || v == '}' || v == '[' || v == ']' || v == ':' || v == ',' || v == '-' || v == '+' || v == '.' || '0' <= v && v <= '9' || v == 'E':
			return 0, true
		case 'a' <= v && v <= 'z':
			for _, c := range "truefalsn" {
				if int64(c) == v {
					return 0, true
				}
			}
		}
		return 0, false
	case 1:
		switch {
		case v == '"':
			return 0, true
		case v == '\\':
			return 2, true
		}
		return 1, v >= 0x20
	}
	for _, c := range `"\/bfnrtu` {
		if int64(c) == v {
			return 1, true
		}
	}
	return 1, false
}

func (s *compSpec) copyOK(st *State, state int, c tchar, v int64) string {
	if s.flag(st, "NoCompact") == 1 {
		return ""
	}
	if c.kind == "sep" {
		return "it must be escaped"
	}
	switch {
	case state == 0 && (v == ' ' || v == '\t' || v == '\n' || v == '\r'):
		return "white space must be left out"
	case v == '<' || v == '>' || v == '&':
		if s.flag(st, "NoHTMLEscaping") != 1 {
			return "it must be escaped unless NoHTMLEscaping is set"
		}
	case v == 0xE2:
		// must not be able to begin U+2028
		return s.sepPossible(st, c)
	}
	return ""
}

// sepPossible: can the byte begin U+2028 or U+2029?
func (s *compSpec) sepPossible(st *State, c tchar) string {
	e := s.L.e
	i := c.root.a[1]
	q := st.clone()
	if !q.assumeIn(subT(s.n, i), between(3, INF)) {
		return ""
	}
	if !q.assumeIn(byteTerm(e, s.base, addT(i, intC(1))), single(0x80)) {
		return ""
	}
	if !q.assumeIn(byteTerm(e, s.base, addT(i, intC(2))), between(0xA8, 0xA9)) {
		return ""
	}
	return "it may begin U+2028 or U+2029"
}

func (s *compSpec) outOK(st *State, state int, c tchar, v int64, out string) string {
	if c.kind == "sep" {
		if decodesTo(out, 0x2028+v-0xA8) {
			return ""
		}
		return "which a decoder reads as something else"
	}
	if state == 0 {
		if v == ' ' || v == '\t' || v == '\n' || v == '\r' {
			if out == "" {
				return ""
			}
			return "though white space must be left out"
		}
		return "though it must be kept"
	}
	if v == '<' || v == '>' || v == '&' {
		if s.flag(st, "NoHTMLEscaping") != 0 {
			return "though NoHTMLEscaping may be set"
		}
		if !decodesTo(out, v) {
			return "which a decoder reads as something else"
		}
		return ""
	}
	return "though it must be kept"
}

func init() {
	oracleProps["C02"] = oracleProp{"Here: text is only put between quotes by an escaping appender. Each such appender is run abstractly with the arguments of its callers; its loops are transition systems over a read and a write position in the text. Every step must write exactly the characters it passes: as they are only if they need no escape under the options of the path, else as an escape that decodes to the same character (an invalid byte to U+FFFD), for every value the path leaves possible; at the end nothing may be left unread or unwritten.",
		[]string{"string", "string / string option"}}
	oracleProps["C04"] = oracleProp{"Here: the results of MarshalJSON and json.RawMessage must be checked by json.Valid before they are compacted, and are copied unchanged with NoCompact. Each compacting appender is run abstractly with the arguments of its callers; its loop is a transition system over a read and a write position, followed together with the automaton of JSON strings (outside, inside, after a backslash). Every step must copy the bytes it passes, leave out white space outside of strings only, and replace U+2028, U+2029 and, unless NoHTMLEscaping is set, '<', '>' and '&' by an escape of the same character.",
		[]string{"json.RawMessage", "json.RawMessage / NoCompact"}}
	for _, id := range []string{"C02", "C04"} {
		id := id
		checks[id] = func(c *Check) { c.fromOracle(id) }
		oracleMore[id] = func(c *Check) { c.textAppenders(map[string]string{"C02": "escape", "C04": "compact"}[id]) }
	}
}

// textAppenders checks all appenders of a class as they are called.
func (c *Check) textAppenders(class string) {
	L := c.L
	o := L.oracle()
	n := 0
	for _, k := range sortedKeys(o.apps) {
		u := o.apps[k]
		if L.appClass(u.f) != class {
			continue
		}
		n++
		x, base, ln := L.runApp(u)
		if x == nil || base == nil {
			c.undecided("how %s is called", shortName(u.f))
			continue
		}
		if !c.use(x) {
			continue
		}
		t := &tscan{L: L, x: x, base: base, n: ln}
		if class == "escape" {
			t.spec = &escSpec{L, base, ln, u.opts}
		} else {
			t.spec = &compSpec{L, base, ln, u.opts}
		}
		t.run()
		c.count("appenders", 1)
		c.count("steps", t.trans)
		c.count("characters classes", t.chars)
		for _, p := range t.probs {
			if p.und {
				c.undecided("%s %s: %s", p.where, x.name, p.msg)
			} else {
				c.violate(p.where, x.name, p.msg, p.path)
			}
		}
		c.sample("%s: %d steps over the text, %d character classes compared with what they must be written as", x.name, t.trans, t.chars)
	}
	if n == 0 {
		c.undecided("no %s appender is used", class)
	}
}

var _ = fmt.Sprint
