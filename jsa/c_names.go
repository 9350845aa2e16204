package main

import (
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// runePred is what a predicate over the characters of a string accepts.
type runePred struct {
	why    string // not understood
	accept []map[rune]bool
	n      []int
	empty  int // is the empty string accepted: 1, 0, -1 unknown
	early  string
	f      *ssa.Function
}

var runeFns = map[string]func(rune) bool{
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsNumber": unicode.IsNumber,
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsControl": unicode.IsControl, "unicode.IsPrint": unicode.IsPrint,
	"unicode.IsPunct": unicode.IsPunct, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower,
	"unicode.IsGraphic": unicode.IsGraphic, "unicode.IsMark": unicode.IsMark, "unicode.IsSymbol": unicode.IsSymbol, "unicode.IsTitle": unicode.IsTitle,
}

// runeCond compiles what a state knows of the character at a position.
func runeCond(st *State, base, off *Term) (func(rune) bool, string) {
	isR := func(t *Term) bool {
		return t.op == OApp && t.s == "rune" && t.a[0] == base && (t.a[1] == off || st.eqInt(t.a[1], off))
	}
	var has func(t *Term) bool
	has = func(t *Term) bool {
		if isR(t) {
			return true
		}
		for _, a := range t.a {
			if has(a) {
				return true
			}
		}
		return false
	}
	var cs []func(rune) bool
	for a, v := range st.atoms {
		if !has(a) {
			continue
		}
		v := v
		var f func(rune) bool
		if a.op == OApp {
			name := strings.TrimPrefix(a.s, "fn:")
			switch {
			case name == "strings.ContainsRune" && len(a.a) == 2 && a.a[0].op == OStrC && isR(a.a[1]):
				s := a.a[0].s
				f = func(c rune) bool { return strings.ContainsRune(s, c) }
			case runeFns[name] != nil && len(a.a) == 1 && isR(a.a[0]):
				f = runeFns[name]
			}
		}
		if f == nil {
			return nil, "the condition " + a.str(5)
		}
		cs = append(cs, func(c rune) bool { return f(c) == v })
	}
	for t, s := range st.rngs {
		s := s
		if isR(t) {
			cs = append(cs, func(c rune) bool { return s.has(int64(c)) })
			continue
		}
		if t.op == OApp && t.s == "fn:strings.IndexRune" && len(t.a) == 2 && t.a[0].op == OStrC && isR(t.a[1]) {
			str := t.a[0].s
			cs = append(cs, func(c rune) bool { return s.has(int64(strings.IndexRune(str, c))) })
			continue
		}
		if has(t) {
			return nil, "the condition " + t.str(5)
		}
	}
	return func(c rune) bool {
		for _, f := range cs {
			if !f(c) {
				return false
			}
		}
		return true
	}, ""
}

// runePredOf analyses a predicate that looks at every character of a string.
func (L *Lab) runePredOf(f *ssa.Function) *runePred {
	if L.runePreds == nil {
		L.runePreds = map[*ssa.Function]*runePred{}
	}
	if p := L.runePreds[f]; p != nil {
		return p
	}
	p := &runePred{f: f, empty: -1}
	L.runePreds[f] = p
	x := L.function(f, L.r.encodeOpaque, false)
	if !x.ok() || len(f.Params) != 1 {
		p.why = "the function " + f.Name()
		return p
	}
	base, n := strParts(x.argT[f.Params[0].Name()])
	base, _ = ptrParts(base)
	add := func(st *State, off *Term) {
		cond, why := runeCond(st, base, off)
		if why != "" {
			p.why = why
			return
		}
		m := map[rune]bool{}
		for c := rune(0); c <= unicode.MaxRune; c++ {
			if c >= 0xd800 && c < 0xe000 {
				continue
			}
			if cond(c) {
				m[c] = true
			}
		}
		p.accept = append(p.accept, m)
	}
	type pos struct {
		rec  *LoopRec
		from int
	}
	byHead := map[pos][]map[rune]bool{}
	var order []pos
	for _, rec := range x.recs {
		for _, t := range rec.trans {
			if t.from < 0 {
				continue
			}
			// where the character that was passed begins
			var off *Term
			for _, nv := range t.bind {
				l := linOf(nv)
				for _, a := range l.t {
					if a.op == OApp && a.s == "runesz" && a.a[0] == base && t.st.eqInt(nv, addT(a.a[1], a)) {
						off = a.a[1]
					}
				}
			}
			if off == nil {
				p.why = "a loop over something else than the characters"
				return p
			}
			k := len(p.accept)
			add(t.st, off)
			if p.why != "" {
				return p
			}
			h := pos{rec, t.from}
			if _, ok := byHead[h]; !ok {
				order = append(order, h)
			}
			byHead[h] = append(byHead[h], p.accept[k])
		}
	}
	p.accept = nil
	for _, h := range order {
		m := map[rune]bool{}
		for _, a := range byHead[h] {
			for c := range a {
				m[c] = true
			}
		}
		p.accept = append(p.accept, m)
	}
	if len(p.accept) == 0 {
		p.why = "no loop over the characters"
		return p
	}
	for _, o := range x.outs {
		r := o.st.res(o.ret[0])
		if r.op != OBool {
			p.why = "the result " + r.str(4)
			return p
		}
		empty := o.st.rng(n)
		switch {
		case empty.subset(single(0)):
			p.empty = int(r.n)
		case r.n == 1:
			end := false
			for _, rec := range x.recs {
				for _, h := range rec.heads {
					for _, hole := range rec.holes {
						_ = h
						if o.st.eqInt(hole, n) {
							end = true
						}
					}
				}
			}
			for t := range o.st.rngs {
				if t.op == OApp && t.s == "runesz" && t.a[0] == base && o.st.eqInt(addT(t.a[1], t), n) {
					end = true
				}
			}
			if !end {
				p.early = "true is returned before the end of the string when " + pathOf(o.st)
			}
		}
	}
	return p
}

// stdNameChars is the punctuation encoding/json allows in the name of a tag.
const stdNameChars = "!#$%&()*+-./:;<=>?@[]^_{|}~ "

func stdNameRune(c rune) bool {
	return strings.ContainsRune(stdNameChars, c) || unicode.IsLetter(c) || unicode.IsDigit(c)
}
