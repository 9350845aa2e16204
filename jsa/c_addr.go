package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the maker of struct encoders asks the maker of encoders for: whether the
// values of a member can be addressed, and whether they are quoted.

func init() {
	oracleMore["C12"] = func(c *Check) { c.memberAddr() }
	oracleMore["C11"] = func(c *Check) { c.memberQuoted() }
}

// memberSteps are the steps with an encoder, and the parameters of the makers.
func (c *Check) memberSteps() (m *fieldModel, cs *coreSig, ss []*fieldStep) {
	m = c.L.fields()
	cs = (&Oracle{L: c.L}).coreParams()
	if m.und != "" || cs == nil {
		c.undecided("members: %s", m.und)
		return m, cs, nil
	}
	for _, s := range m.steps {
		if s.core != nil && s.typ != nil {
			ss = append(ss, s)
		}
	}
	c.count("paths that ask for the encoder of a member", len(ss))
	return
}

// ---------- addressability ----------

// indirs lists the reads of bools of the elements of the way to a field.
func (m *fieldModel) indirs(s *fieldStep, ts []*Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && len(t.a) == 2 && isBoolTerm(t) {
			if base, idx, _, ok := m.leafOf(t.a[0]); ok && base == s.ref.base && s.st.eqInt(idx, s.ref.idx) {
				r = append(r, t)
			}
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return r
}

func (c *Check) memberAddr() {
	m, cs, ss := c.memberSteps()
	if len(ss) == 0 {
		return
	}
	var can *Term
	n := 0
	for _, a := range m.stepB.args {
		if isBoolTerm(a) {
			can = a
			n++
		}
	}
	if n != 1 {
		c.undecided("which parameter of the maker of struct encoders tells that values can be addressed")
		return
	}
	any0, any1, open := false, false, false
	var last *fieldStep
	for _, s := range ss {
		last = s
		v := s.st.res(s.core.a[cs.addr])
		q := s.st.clone()
		if !q.assume(can, false) {
			continue
		}
		switch q.decide(q.res(v)) {
		case 1:
			any1 = true
		case 0:
			any0 = true
		default:
			open = true
		}
	}
	where, fn := trimRepo(last.rec.pos), shortName(last.rec.fn)
	if !any1 && !open && any0 {
		c.violate(where, fn, "a member promoted through an embedded pointer is treated as if it could not be addressed", "")
		return
	}
	if any1 && !open && !any0 {
		c.violate(where, fn, "a member of a struct that cannot be addressed is treated as if it could", "")
		return
	}
	// the loop over the way to the field
	used := map[*fieldStep]bool{}
	for _, r := range m.stepB.recs {
		var ts []*Term
		for _, t := range r.trans {
			ts = append(ts, factTerms(t.st)...)
			for _, v := range t.bind {
				ts = append(ts, t.st.res(v))
			}
		}
		var mine []*fieldStep
		for _, s := range ss {
			if s.rec != r && len(m.indirs(s, ts)) > 0 && seesLoop(s, s.core.a[cs.addr], r) {
				mine = append(mine, s)
				used[s] = true
			}
		}
		if len(mine) > 0 {
			c.wayLoop(m, cs, mine, r, can)
		}
	}
	for _, s := range ss {
		if used[s] {
			continue
		}
		if q := s.st.clone(); q.assume(can, true) && q.decide(q.res(s.core.a[cs.addr])) == 0 {
			c.violate(where, fn, "the member of a struct that can be addressed is treated as if it could not", pathOf(s.st))
		}
		if q := s.st.clone(); q.assume(can, false) {
			c.undecided("%s: how it is found that a member is promoted through an embedded pointer", trimRepo(s.rec.pos))
			return
		}
	}
}

// seesLoop: does a state know something about the variables of a loop?
func seesLoop(s *fieldStep, v *Term, rec *LoopRec) bool {
	for _, t := range append(factTerms(s.st), s.st.res(v)) {
		for k := range rec.init {
			if k.op == OSym && containsTerm(t, k) {
				return true
			}
		}
	}
	return false
}

// wayLoop checks a loop that looks for an embedded pointer.
func (c *Check) wayLoop(m *fieldModel, cs *coreSig, ss []*fieldStep, rec *LoopRec, can *Term) {
	where, fn := trimRepo(rec.pos), shortName(rec.fn)
	// the variable that remembers it
	var h *Term
	for _, s := range ss {
		v := s.st.res(s.core.a[cs.addr])
		for _, t := range append(factTerms(s.st), v) {
			for k := range rec.init {
				if !isBoolTerm(k) || !containsTerm(t, k) {
					continue
				}
				if h != nil && h != k {
					c.undecided("%s: which variable tells that there is an embedded pointer", where)
					return
				}
				h = k
			}
		}
	}
	var ind *Term
	for _, t := range rec.trans {
		ts := factTerms(t.st)
		for _, v := range t.bind {
			ts = append(ts, t.st.res(v))
		}
		for _, i := range m.indirs(ss[0], ts) {
			if ind != nil && ind != i {
				c.undecided("%s: more than one bool of the way to a member is read", where)
				return
			}
			ind = i
		}
	}
	if ind == nil {
		c.undecided("%s: which bool tells that there is an embedded pointer", where)
		return
	}
	// the number of the element, and of the first one
	ptr := ind.a[0]
	var esz int64
	_, _, po, _ := m.leafOf(ptr)
	if st, isS := m.L.r.fieldT.Underlying().(*types.Struct); isS {
		var fs []*types.Var
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, st.Field(i))
		}
		for i, o := range c.L.e.sizes.Offsetsof(fs) {
			if sl, isL := fs[i].Type().Underlying().(*types.Slice); isL && o == po {
				esz = c.L.e.sizes.Sizeof(sl.Elem())
			}
		}
	}
	if esz == 0 {
		c.undecided("%s: what is read is not the way to a member", where)
		return
	}
	idx, _, ok := divLin(ind.a[1], esz)
	if !ok {
		c.undecided("%s: which element of the way to a member is read", where)
		return
	}
	s0 := &selection{m: m}
	s0.counts(rec, idx, 0, "the way to a member", rec.fn)
	for _, f := range s0.finds {
		if f.und {
			c.undecided("%s: %s", f.where, f.msg)
		} else {
			c.violate(f.where, f.fn, f.msg, f.path)
		}
	}
	if len(s0.finds) > 0 {
		return
	}
	// what can be remembered: whether the struct can be addressed, the variable,
	// and whether there was an embedded pointer so far
	type mem struct{ can, h, seen bool }
	reach := map[mem]bool{}
	var todo []mem
	visit := func(x mem) {
		if !reach[x] {
			reach[x] = true
			todo = append(todo, x)
		}
	}
	for _, a := range []bool{false, true} {
		q := rec.entry.clone()
		if !q.assume(can, a) {
			continue
		}
		if h == nil {
			visit(mem{a, false, false})
			continue
		}
		switch q.decide(q.res(rec.init[h])) {
		case 1:
			visit(mem{a, true, false})
		case 0:
			visit(mem{a, false, false})
		default:
			c.undecided("%s: what is known before the way to a member is looked at", where)
			return
		}
	}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, t := range rec.trans {
			if t.from < 0 {
				continue
			}
			for _, i := range []bool{false, true} {
				q := t.st.clone()
				if !q.assume(can, x.can) || !q.assume(ind, i) || h != nil && !q.assume(h, x.h) {
					continue
				}
				c.count("iterations that look for an embedded pointer", 1)
				y := mem{x.can, x.h, x.seen || i}
				if h != nil {
					d := q.decide(q.res(t.st.res(t.bind[h])))
					if d < 0 {
						c.undecided("%s: what is remembered of the way to a member", where)
						return
					}
					y.h = d == 1
				}
				visit(y)
			}
		}
	}
	// what comes out
	n, okN := m.lenAt(ss[0], po)
	for _, s := range ss {
		v := s.st.res(s.core.a[cs.addr])
		for x := range reach {
			a, o := x.can, x.seen
			q := s.st.clone()
			if !q.assume(can, a) || h != nil && !q.assume(h, x.h) {
				continue
			}
			d := q.decide(q.res(v))
			in := q.decide(ind)
			msg := ""
			switch {
			case d < 0:
				c.undecided("%s: whether a member can be addressed: %s", where, q.canon(v, 3))
			case d == 0 && (a || o):
				msg = "a member that can be addressed is treated as if it could not"
			case d == 1 && !a && !o && in == 0:
				msg = "a member of a struct that cannot be addressed is treated as if it could"
			case d == 1 && !a && !o && in < 0:
				if okN && q.le(n, idx) {
					msg = "a member of a struct that cannot be addressed is treated as if it could"
				} else {
					c.undecided("%s: whether there is an embedded pointer on the way to a member", where)
				}
			case d == 0:
				if !okN {
					c.undecided("%s: where the way to a member ends", where)
				} else if !q.le(n, idx) {
					r := q.clone()
					if r.assumeIn(subT(n, idx), between(2, INF)) && r.decide(ind) != 0 || in == 1 {
						msg = "a member is treated as not addressable before all of the way to it is looked at"
					}
				}
			}
			if msg != "" {
				c.violate(where, fn, msg, pathOf(s.st))
			}
			c.count("answers whether a member can be addressed", 1)
		}
	}
}

// lenAt is the length of the slice at an offset of the description of a field.
func (m *fieldModel) lenAt(s *fieldStep, off int64) (*Term, bool) {
	for _, l := range m.ls {
		if l.off == off+8 {
			v := s.at[off+8]
			if v == nil {
				v = m.L.e.loadLeaf(s.st, nil, nil, s.ref.base, addT(mulC(s.ref.idx, m.esz), intC(off+8)), l)
			}
			return s.st.res(v), true
		}
	}
	return nil, false
}

func isBoolTerm(t *Term) bool {
	ty := appType(t)
	return ty != nil && isBoolT(ty)
}

// ---------- the string option ----------

// kindPred is the set of kinds for which a function of a type says yes.
func (L *Lab) kindPred(f *ssa.Function) (Set, bool) {
	x := L.function(f, nil, false)
	if !x.ok() || len(x.args) != 1 {
		return Set{}, false
	}
	k := rtKind(x.args[0])
	yes, no := Set{}, Set{}
	for _, o := range x.outs {
		if len(o.ret) != 1 {
			return Set{}, false
		}
		s := o.st.rng(k)
		switch o.st.decide(o.st.res(o.ret[0])) {
		case 1:
			yes = yes.or(s)
		case 0:
			no = no.or(s)
		default:
			return Set{}, false
		}
	}
	if !yes.and(no).empty() {
		return Set{}, false
	}
	return yes, true
}

// assumeKind assumes that a type is of a kind, and what tests of it then say.
func (L *Lab) assumeKind(st *State, T *Term, k int64, ts []*Term) bool {
	if !st.assumeIn(st.res(rtKind(T)), single(k)) {
		return false
	}
	seen := map[*Term]bool{}
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || !ok {
			return
		}
		seen[t] = true
		if name, is := strings.CutPrefix(t.s, "built:"); t.op == OApp && is && len(t.a) == 1 && t.a[0] == T && isBoolTerm(t) {
			for _, f := range L.e.allFuncs() {
				if f.Name() != name || len(f.Params) != 1 || !isReflectType(f.Params[0].Type()) {
					continue
				}
				if yes, known := L.kindPred(f); known {
					ok = st.assume(t, yes.has(k))
				}
			}
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	for _, t := range append(factTerms(st), ts...) {
		walk(t)
	}
	return ok
}

// quotedKinds are the kinds the string option is about.
func quotedKinds() []int64 {
	ks := []int64{kBool, kString, kFloat32, kFloat64}
	for k := range kindInts {
		ks = append(ks, k)
	}
	return ks
}

func (c *Check) memberQuoted() {
	m, cs, ss := c.memberSteps()
	if len(ss) == 0 {
		return
	}
	L := c.L
	// the part of the description that decides
	at := int64(-1)
	for _, l := range m.ls {
		if l.kind != "ldb" {
			continue
		}
		all, some := true, false
		for _, s := range ss {
			v := s.st.res(s.core.a[cs.quoted])
			p, _ := m.part(s, l.off)
			if p == nil {
				all = false
				continue
			}
			if q := s.st.clone(); q.assume(s.st.res(p), false) && q.decide(q.res(v)) != 0 {
				all = false
			}
			if q := s.st.clone(); q.assume(s.st.res(p), true) && q.decide(q.res(v)) != 0 {
				some = true
			}
		}
		if all && some {
			if at >= 0 {
				at = -2
			} else if at == -1 {
				at = l.off
			}
		}
	}
	if at < 0 {
		never := true
		for _, s := range ss {
			never = never && s.st.decide(s.st.res(s.core.a[cs.quoted])) == 0
		}
		if never {
			c.violate(trimRepo(ss[0].rec.pos), shortName(ss[0].rec.fn), "no member is ever quoted", "")
		} else {
			c.undecided("the part of the description of a field that stands for the tag option string is not known")
		}
		return
	}
	for _, s := range ss {
		where, fn := trimRepo(s.rec.pos), shortName(s.rec.fn)
		v := s.st.res(s.core.a[cs.quoted])
		p, _ := m.part(s, at)
		for _, k := range quotedKinds() {
			for _, ptr := range []bool{false, true} {
				q := s.st.clone()
				if !q.assume(s.st.res(p), true) {
					continue
				}
				T := s.typ
				if ptr {
					if !L.assumeKind(q, T, kPtr, []*Term{v}) {
						continue
					}
					T = L.rt("rt.Elem", T)
				}
				if !L.assumeKind(q, T, k, []*Term{v}) {
					continue
				}
				c.count("members with the string option", 1)
				c.quotedAnswer(q, v, where, fn, k, ptr)
			}
		}
	}
	// the description
	for _, a := range m.outputAdds() {
		where, fn := trimRepo(a.rec.pos), shortName(a.x.fn)
		v := m.addLeaf(a.FieldAdd, a.el, at)
		if v == nil {
			continue
		}
		terms := append(factTerms(a.st), v)
		tag := tagText(terms)
		known := tag != nil && !foreignTerm(v) && (len(optionTerms(a.st, v)["string"]) > 0 || commaAt(a.st, tag) != nil)
		if d := m.optValue(a, v, "string", false); d != 0 && d != 2 {
			if d == 1 && known {
				c.violate(where, fn, "a field is quoted whether it has the option string or not", pathOf(a.st))
			} else {
				c.undecided("%s: whether a field without the option string is quoted: %s", where, a.st.canon(v, 4))
			}
		}
		for _, t := range optionTerms(a.st, v)["string"] {
			c.optionList(m, a, t, tag, "string")
		}
		if tag != nil && noComma(a.st, tag) {
			continue
		}
		FT := fieldTypeIn(terms)
		if FT == nil {
			c.undecided("%s: the type of the field that is described", where)
			continue
		}
		for _, k := range quotedKinds() {
			for _, ptr := range []bool{false, true} {
				q := a.st.clone()
				on := true
				for _, t := range optionTerms(a.st, v)["string"] {
					l := optionList(t)
					on = on && q.assume(t, !isInt(q.res(l.a[1]), 0))
				}
				if !on {
					continue
				}
				T := FT
				if ptr {
					if !L.assumeKind(q, FT, kPtr, terms) || namedIn(q, FT) {
						continue
					}
					T = L.rt("rt.Elem", FT)
				}
				if !L.assumeKind(q, T, k, terms) {
					continue
				}
				c.count("descriptions with the string option", 1)
				if !known {
					c.undecided("%s: whether a field with the option string is quoted: %s", where, a.st.canon(v, 4))
					break
				}
				c.quotedAnswer(q, v, where, fn, k, ptr)
			}
		}
	}
}

func (c *Check) quotedAnswer(q *State, v *Term, where, fn string, k int64, ptr bool) {
	what := kindNames[k]
	if ptr {
		what = "pointer to " + what
	}
	switch q.decide(q.res(v)) {
	case 0:
		if foreignTerm(v) {
			c.undecided("%s: a %s with the option string is not quoted", where, what)
		} else {
			c.violate(where, fn, fmt.Sprintf("a %s with the option string is not quoted", what), pathOf(q))
		}
	case -1:
		c.undecided("%s: whether a %s with the option string is quoted: %s", where, what, q.canon(v, 4))
	}
}

// fieldTypeIn is the type of the field that is looked at.
func fieldTypeIn(ts []*Term) *Term {
	var r *Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && t.s == "fld2" && t.a[0].op == OApp && t.a[0].s == "rt.Field" && r == nil {
			r = t
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return r
}

// namedIn: may the type have a name?
func namedIn(st *State, T *Term) bool {
	for _, t := range factTerms(st) {
		if t.op == OApp && t.s == "strlen" && len(t.a) == 1 && t.a[0].op == OApp && strings.HasSuffix(t.a[0].s, "Name") && len(t.a[0].a) == 1 && t.a[0].a[0] == T {
			return !st.rng(t).subset(single(0))
		}
	}
	return true
}
