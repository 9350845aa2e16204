package main

import (
	"fmt"
	"sort"
	"strings"
)

// Languages of predicates over a string: the words for which a path is taken,
// compared with an automaton.

type witem struct {
	cls Set
	rep int // 0 once, 1 any number of times
}

// word describes the strings for which a path is taken, as a sequence of
// classes. exact is false if not all facts could be placed.
func (L *Lab) word(x *Enc, st *State, base, n *Term) (words [][]witem, why string) {
	e := L.e
	type lp struct {
		rec *LoopRec
		at0 *Term // position at the start, with the counter as 0
		at  *Term
		ctr *Term
		cls Set
	}
	var loops []lp
	for _, r := range x.recs {
		// the counters of loops that were passed are known on the path
		for _, tr := range r.trans {
			if tr.from == -1 || len(r.heads) != 1 {
				continue
			}
			for ctr, nv := range tr.bind {
				if k, ok := diff(tr.st, ctr, nv); !ok || k != 1 {
					continue
				}
				if b := st.bound(ctr); b.lo <= NINF {
					continue
				}
				// the byte read at the counter
				for t := range tr.st.rngs {
					if t.op != OApp || t.s != "byte" || t.a[0] != base {
						continue
					}
					l := linOf(t.a[1])
					has := false
					for i, a := range l.term().a {
						_ = i
						has = has || a == ctr
					}
					if t.a[1] == ctr {
						has = true
					}
					if !has {
						continue
					}
					zero := newSubst(map[*Term]*Term{ctr: tZero}).do(t.a[1])
					cls := tr.st.rng(t).and(between(0, 255))
					found := false
					for i := range loops {
						if loops[i].rec == r && loops[i].ctr == ctr && loops[i].at == t.a[1] {
							loops[i].cls = loops[i].cls.or(cls)
							found = true
						}
					}
					if !found {
						loops = append(loops, lp{r, zero, t.a[1], ctr, cls})
					}
				}
			}
		}
	}
	// what is known of the byte at pos, under all its names
	at := func(st *State, pos *Term, used map[*Term]bool) (Set, bool) {
		bt := byteTerm(e, base, pos)
		s := st.rng(bt).and(between(0, 255))
		_, known := st.rngs[bt]
		used[bt] = true
		for t := range st.rngs {
			if t.op == OApp && t.s == "byte" && t.a[0] == base && t != bt && st.eqInt(t.a[1], pos) {
				s = s.and(st.rng(t))
				used[t] = true
				known = true
			}
		}
		return s, known
	}
	var walk func(st *State, pos *Term, left []lp, items []witem, used map[*Term]bool, depth int)
	walk = func(st *State, pos *Term, left []lp, items []witem, used map[*Term]bool, depth int) {
		if why != "" {
			return
		}
		if depth > 64 {
			why = "a text of many parts"
			return
		}
		finish := func() {
			for t := range st.rngs {
				if t.op == OApp && t.s == "byte" && t.a[0] == base && !used[t] {
					if s := st.rngs[t]; !between(0, 255).subset(s) {
						why = "a condition on " + t.str(5)
						return
					}
				}
			}
			words = append(words, items)
		}
		if st.eqInt(pos, n) {
			finish()
			return
		}
		u := cloneMap(used)
		s, known := at(st, pos, u)
		for i := range left {
			l := left[i]
			if !st.eqInt(l.at0, pos) {
				continue
			}
			rest := append(append([]lp{}, left[:i]...), left[i+1:]...)
			// no iteration
			q := st.clone()
			if q.assumeIn(l.ctr, single(0)) {
				walk(q, l.at, rest, items, used, depth+1)
			}
			q = st.clone()
			if q.assumeIn(l.ctr, between(1, INF)) {
				it := append(append([]witem{}, items...), witem{s.and(l.cls), 0})
				for k := int64(1); k < q.bound(l.ctr).lo && k < 32; k++ {
					it = append(it, witem{l.cls, 0})
				}
				if q.bound(l.ctr).hi > 1 {
					it = append(it, witem{l.cls, 1})
				}
				if !s.and(l.cls).empty() {
					walk(q, l.at, rest, it, u, depth+1)
				}
			}
			return
		}
		if st.lt(pos, n) && s.size() < 256 {
			walk(st, addT(pos, intC(1)), left, append(append([]witem{}, items...), witem{s, 0}), u, depth+1)
			return
		}
		if known && s.size() < 256 {
			why = "a byte that may be beyond the text"
			return
		}
		// nothing is known from here on
		iv := st.bound(subT(n, pos))
		min := iv.lo
		if min < 0 {
			min = 0
		}
		u = cloneMap(used)
		it := append([]witem{}, items...)
		k := int64(0)
		for ; (k < min || k < iv.hi && iv.hi < min+16) && k < 32; k++ {
			c, _ := at(st, addT(pos, intC(k)), u)
			if k >= min {
				items, used = append([]witem{}, it...), cloneMap(u)
				finish()
			}
			it = append(it, witem{c, 0})
		}
		if iv.hi > k {
			it = append(it, witem{between(0, 255), 1})
		}
		items, used = it, u
		finish()
	}
	walk(st, tZero, loops, nil, map[*Term]bool{}, 0)
	return words, why
}

// numStep is the automaton of JSON numbers. States: 0 start, 1 sign, 2 zero,
// 3 digits, 4 dot, 5 fraction, 6 e, 7 sign of the exponent, 8 exponent.
func numStep(s int, b byte) int {
	d := '0' <= b && b <= '9'
	switch s {
	case 0, 1:
		switch {
		case b == '-' && s == 0:
			return 1
		case b == '0':
			return 2
		case d:
			return 3
		}
	case 2, 3:
		switch {
		case d && s == 3:
			return 3
		case b == '.':
			return 4
		case b == 'e' || b == 'E':
			return 6
		}
	case 4:
		if d {
			return 5
		}
	case 5:
		switch {
		case d:
			return 5
		case b == 'e' || b == 'E':
			return 6
		}
	case 6:
		switch {
		case d:
			return 8
		case b == '+' || b == '-':
			return 7
		}
	case 7, 8:
		if d {
			return 8
		}
	}
	return -1
}

func numOK(s int) bool { return s == 2 || s == 3 || s == 5 || s == 8 }

// witness finds a word of the items that the automaton accepts (or not) and
// that is in none of the other languages.
func witness(items []witem, accept bool, others [][]witem) (string, bool) {
	type node struct {
		i, s int
		o    string
	}
	type ent struct {
		i, s int
		o    map[[2]int]bool
		w    string
	}
	var close func(o map[[2]int]bool, k [2]int)
	close = func(o map[[2]int]bool, k [2]int) {
		if o[k] {
			return
		}
		o[k] = true
		if it := others[k[0]]; k[1] < len(it) && it[k[1]].rep == 1 {
			close(o, [2]int{k[0], k[1] + 1})
		}
	}
	key := func(o map[[2]int]bool) string {
		var ks []string
		for k := range o {
			ks = append(ks, fmt.Sprint(k))
		}
		sort.Strings(ks)
		return strings.Join(ks, "")
	}
	o0 := map[[2]int]bool{}
	for k := range others {
		close(o0, [2]int{k, 0})
	}
	seen := map[node]bool{}
	work := []ent{{0, 0, o0, ""}}
	for n := 0; len(work) > 0 && n < 20000; n++ {
		a := work[0]
		work = work[1:]
		nd := node{a.i, a.s, key(a.o)}
		if seen[nd] {
			continue
		}
		seen[nd] = true
		if a.i == len(items) {
			claimed := false
			for k := range a.o {
				claimed = claimed || k[1] == len(others[k[0]])
			}
			if !claimed && (a.s >= 0 && numOK(a.s)) == accept && a.w != "" {
				return a.w, true
			}
			continue
		}
		it := items[a.i]
		if it.rep == 1 {
			work = append(work, ent{a.i + 1, a.s, a.o, a.w})
		}
		done := map[string]bool{}
		it.cls.each(func(v int64) bool {
			s := -1
			if a.s >= 0 {
				s = numStep(a.s, byte(v))
			}
			o := map[[2]int]bool{}
			for k := range a.o {
				if w := others[k[0]]; k[1] < len(w) && w[k[1]].cls.has(v) {
					if w[k[1]].rep == 1 {
						close(o, k)
					} else {
						close(o, [2]int{k[0], k[1] + 1})
					}
				}
			}
			dk := fmt.Sprint(s, key(o))
			if !done[dk] {
				done[dk] = true
				i := a.i
				if it.rep == 0 {
					i++
				}
				work = append(work, ent{i, s, o, a.w + string([]byte{byte(v)})})
			}
			return true
		})
	}
	return "", false
}

func itemsString(items []witem) string {
	var b strings.Builder
	for _, it := range items {
		b.WriteString(it.cls.String())
		if it.rep == 1 {
			b.WriteString("*")
		}
	}
	return b.String()
}

// checkNumberPred compares a predicate with the number grammar.
func (c *Check) checkNumberPred(x *Enc) {
	L := c.L
	if len(x.args) != 1 {
		c.undecided("the parameters of %s", x.name)
		return
	}
	a := x.args[0]
	var base, n *Term
	switch a.op {
	case OStr, OSlice:
		base, n = a.a[0], a.a[1]
	default:
		c.undecided("the text given to %s", x.name)
		return
	}
	words := map[bool][][]witem{}
	for _, o := range x.outs {
		r := o.st.res(o.ret[0])
		for _, want := range []bool{true, false} {
			st := o.st.clone()
			if r == tTrue && !want || r == tFalse && want || !st.assume(r, want) {
				continue
			}
			c.count("paths of the validation", 1)
			ws, why := L.word(x, st, base, n)
			if why != "" {
				c.undecided("%s: %s", x.name, why)
				return
			}
			words[want] = append(words[want], ws...)
		}
	}
	for _, want := range []bool{true, false} {
		for _, items := range words[want] {
			if _, bad := witness(items, !want, nil); !bad {
				c.sample("%s returns %v for %s", x.name, want, itemsString(items))
				continue
			}
			// a text that no path with the other result claims
			w, bad := witness(items, !want, words[!want])
			switch {
			case !bad:
				c.undecided("%s: the texts for which it returns %v are not known well enough", x.name, want)
			case want:
				c.violate(L.where(x.fn), x.name, fmt.Sprintf("accepts texts that are no JSON numbers, such as %q", w), "the texts "+itemsString(items))
			default:
				c.violate(L.where(x.fn), x.name, fmt.Sprintf("rejects JSON numbers, such as %q", w), "the texts "+itemsString(items))
			}
		}
	}
}

func init() {
	oracleProps["C03"] = oracleProp{"Here: a json.Number must be written as its own text, or 0 if it is empty, only after the number predicate held, or with NoNumberValidation, and fail otherwise. The predicate itself is run abstractly on an unknown text: each of its paths is turned into the language of the texts that take it (byte classes, and loops over byte classes), which must lie inside the number grammar if the predicate holds and outside of it if not; the comparison is by product of automata and reports a text.",
		[]string{"json.Number", "json.Number / NoNumberValidation"}}
	checks["C03"] = func(c *Check) { c.fromOracle("C03") }
	oracleMore["C03"] = func(c *Check) {
		o := c.L.oracle()
		if len(o.numberPred) == 0 {
			c.undecided("no predicate over the text of a json.Number was found")
		}
		for f := range o.numberPred {
			x := c.L.function(f, nil, false)
			if c.use(x) {
				c.checkNumberPred(x)
			}
		}
	}
}
