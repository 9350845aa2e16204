package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The description of a field goes through three stages: it is made from the
// type (fieldAdds), completed by the function that makes the encoder of a
// struct type (fieldSteps), and used by the encoder (members).

// fieldsOf is the model of all three.
type fieldModel struct {
	L                *Lab
	esz              int64
	ls               []leaf
	steps            []*fieldStep
	stepB            *Enc
	und              string
	membs            []*member
	encs             []*Enc
	membE            string
	roles            map[int64]string
	outs             []outAdd
	finds            []omitFind
	found            map[string]bool
	cases            int
	nameOff, predOff map[int64]bool
}

func (L *Lab) fields() *fieldModel {
	if L.fldm != nil {
		return L.fldm
	}
	m := &fieldModel{L: L}
	L.fldm = m
	if L.r.fieldT == nil {
		m.und = "the type that describes a field is not known"
		return m
	}
	L.runAll()
	m.esz = L.e.sizes.Sizeof(L.r.fieldT)
	m.ls = L.e.leaves(L.r.fieldT)
	m.findSteps()
	m.findMembers()
	return m
}

// leafOf splits the read of a part of an element of a list of fields.
func (m *fieldModel) leafOf(t *Term) (base, idx *Term, off int64, ok bool) {
	if t.op != OApp || len(t.a) != 2 || !strings.HasPrefix(t.s, "ld") && t.s != "byte" {
		return
	}
	b := t.a[0]
	if b.op != OApp || b.s != "sptr" {
		return
	}
	ty, _ := b.a[0].x.(types.Type)
	if ty == nil {
		return
	}
	sl, isS := ty.Underlying().(*types.Slice)
	if !isS || !types.Identical(sl.Elem(), m.L.r.fieldT) {
		return
	}
	idx, off, ok = divLin(t.a[1], m.esz)
	return b, idx, off, ok
}

// fieldRef is an element of a list of fields.
type fieldRef struct{ base, idx *Term }

// refsIn lists the elements whose parts occur in some terms, with the terms
// that stand for the parts.
func (m *fieldModel) refsIn(ts []*Term) map[fieldRef]map[int64]*Term {
	r := map[fieldRef]map[int64]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if b, i, off, ok := m.leafOf(t); ok {
			k := fieldRef{b, i}
			if r[k] == nil {
				r[k] = map[int64]*Term{}
			}
			r[k][off] = t
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return r
}

// factTerms are the terms a state knows something about.
func factTerms(st *State) []*Term {
	r := append(sortedAtoms(st), sortedRngs(st)...)
	for _, t := range sortedTerms(st.alias) {
		r = append(r, t, st.alias[t])
	}
	return r
}

// ---------- second stage ----------

// fieldStep is one way the maker of a struct encoder completes a description.
type fieldStep struct {
	rec  *LoopRec
	t    *Trans
	st   *State
	ref  fieldRef
	at   map[int64]*Term // parts as they were
	set  map[int64]*Term // parts it sets
	typ  *Term           // type of the field, as given to the maker of encoders
	core *Term           // its encoder
}

func (m *fieldModel) findSteps() {
	L := m.L
	var fs []*ssa.Function
	for f := range L.r.structB {
		fs = append(fs, f)
	}
	if len(fs) != 1 {
		m.und = fmt.Sprintf("%d functions make encoders of structs", len(fs))
		return
	}
	f := fs[0]
	e := L.e
	st := e.base.clone()
	var args []*Term
	for _, p := range f.Params {
		args = append(args, e.symArg(st, p.Name(), p.Type()))
	}
	x := L.runFn(shortName(f)+" (fields)", f, args, nil, st, func(g *ssa.Function, a []*Term, fr *frame) bool {
		return L.r.buildOpaque(g, a, fr) || fr != nil && g == L.r.core
	}, true)
	m.stepB = x
	if !x.ok() {
		m.und = strings.Join(x.probs, "; ")
		return
	}
	for _, rec := range x.recs {
		for _, t := range rec.trans {
			if t.from < 0 {
				continue
			}
			moves := map[*Term]bool{}
			for old, nv := range t.bind {
				if old.op == OSym && nv != nil && t.st.res(nv) != old {
					moves[old] = true
				}
			}
			for _, o := range t.st.heap {
				if o.kind != KLog || o.typ == nil || !types.Identical(o.typ, L.r.fieldT) || len(o.wlog) == 0 {
					continue
				}
				m.step(rec, t, o, moves)
			}
		}
	}
	if len(m.steps) == 0 {
		m.und = "no loop completes the descriptions of fields"
	}
}

func (m *fieldModel) step(rec *LoopRec, t *Trans, o *Obj, moves map[*Term]bool) {
	e := m.L.e
	s := &fieldStep{rec: rec, t: t, st: t.st, set: map[int64]*Term{}}
	var idx *Term
	for _, w := range o.wlog {
		i := t.st.res(w.idx)
		if idx != nil && !t.st.eqInt(i, idx) {
			m.und = "an iteration writes to two descriptions of fields"
			return
		}
		idx = i
		ls, fs := e.leaves(w.t), e.flatten(w.t, w.v)
		for k := range ls {
			if k < len(fs) {
				s.set[w.rem+ls[k].off] = t.st.res(fs[k])
			}
		}
	}
	own := false
	for h := range moves {
		own = own || containsTerm(idx, h)
	}
	if !own {
		return // a loop inside that over the fields
	}
	if len(o.log) != 1 || o.log[0].s != "raw" || !isInt(o.log[0].a[1], 0) {
		m.und = "the list of fields is not a copy of that of the type"
		return
	}
	s.ref = fieldRef{o.log[0].a[0], idx}
	ts := factTerms(t.st)
	for _, v := range s.set {
		ts = append(ts, v)
	}
	for r, at := range m.refsIn(ts) {
		if r.base != s.ref.base {
			continue
		}
		if !t.st.eqInt(r.idx, idx) {
			m.und = "an iteration reads the description of another field"
			return
		}
		s.at = at
	}
	cs := (&Oracle{L: m.L}).coreParams()
	for _, v := range s.set {
		if cs != nil && v.op == OApp && v.s == "built:"+cs.name {
			s.core, s.typ = v, t.st.res(v.a[cs.t])
		}
	}
	m.steps = append(m.steps, s)
}

// part is what a part of the description is after the step.
func (m *fieldModel) part(s *fieldStep, off int64) (*Term, bool) {
	if v, ok := s.set[off]; ok {
		return v, true
	}
	if v, ok := s.at[off]; ok {
		return v, false
	}
	for _, l := range m.ls {
		if l.off == off {
			return m.L.e.loadLeaf(s.st, nil, nil, s.ref.base, addT(mulC(s.ref.idx, m.esz), intC(off)), l), false
		}
	}
	return nil, false
}

// ---------- third stage ----------

// member is an iteration of the loop of an encoder over the fields.
type member struct {
	x    *Enc
	rec  *LoopRec
	t    *Trans
	st   *State
	ref  fieldRef
	at   map[int64]*Term
	log  []*Term // what it writes
	list *Term   // the list of fields
	ctr  *Term   // the counter
}

func (m *fieldModel) findMembers() {
	for f := range m.L.r.structB {
		x, bs := m.L.builds(f)
		for _, b := range bs {
			if y := m.L.encoder(x, b); y != nil && y.ok() {
				m.encs = append(m.encs, y)
			} else {
				m.membE = "an encoder of structs is not understood"
			}
		}
	}
	for _, x := range m.encs {
		for _, rec := range x.recs {
			for _, t := range rec.trans {
				if t.from < 0 {
					continue
				}
				var log []*Term
				for id, l := range t.logs {
					if o := t.st.heap[id]; o != nil && o.kind == KLog && isByteT(o.typ) {
						log = append(log, l...)
					}
				}
				refs := m.refsIn(append(factTerms(t.st), log...))
				if len(refs) == 0 {
					continue
				}
				var ks []fieldRef
				for r := range refs {
					ks = append(ks, r)
				}
				var mine *fieldRef
				var ctr *Term
				for i := range ks {
					for old, nv := range t.bind {
						if old.op == OSym && nv != nil && t.st.res(nv) != old && containsTerm(ks[i].idx, old) {
							mine, ctr = &ks[i], old
						}
					}
				}
				if mine == nil {
					continue // a loop inside that over the fields
				}
				if len(ks) > 1 {
					m.membE = "an iteration of the loop at " + rec.pos + " reads the descriptions of two fields"
					continue
				}
				m.membs = append(m.membs, &member{x: x, rec: rec, t: t, st: t.st, ref: *mine, at: refs[*mine], log: log, list: mine.base.a[0], ctr: ctr})
			}
		}
	}
}

// ---------- what the parts mean ----------

// Assumptions about a field that the parts of its description depend on.
const (
	aEmpty   = 1 << iota // has the tag option omitempty
	aNil                 // has the tag option omitnil
	aNilable             // is of a type with nil values that omitnil is about
	aJSON                // has a MarshalJSON method
	nAssume  = 1 << iota
)

func maskText(mask int) string {
	var r []string
	for i, s := range []string{"omitempty", "omitnil", "a type that can be nil", "a MarshalJSON method"} {
		if mask&(1<<i) != 0 {
			r = append(r, s)
		}
	}
	if len(r) == 0 {
		return "a field without options"
	}
	return "a field with " + strings.Join(r, ", ")
}

func (m *fieldModel) addLeaf(a *FieldAdd, el *Term, off int64) *Term {
	fs := m.L.e.flatten(m.L.r.fieldT, el)
	for i, l := range m.ls {
		if l.off == off && i < len(fs) {
			return a.st.res(fs[i])
		}
	}
	return nil
}

// keyParts are the offsets of what encoders write as the key of a member.
func (m *fieldModel) keyParts() map[int64]bool {
	r := map[int64]bool{}
	for _, b := range m.membs {
		for _, p := range b.log {
			if p.s != "raw" {
				continue
			}
			if base, _, off, ok := m.leafOf(p.a[0]); ok && base == b.ref.base {
				r[off] = true
			}
		}
	}
	return r
}

// outAdd is a description made of a field that becomes a member: one that has
// a key.
type outAdd struct {
	*FieldAdd
	el *Term
}

func (m *fieldModel) outputAdds() []outAdd {
	if m.outs != nil {
		return m.outs
	}
	ks := m.keyParts()
	for _, a := range m.L.fieldAdds() {
		for _, el := range a.elts {
			out := false
			for k := range ks {
				v := m.addLeaf(a, el, k)
				out = out || v != nil && v != tNil
			}
			if out && !m.copied(a, el) {
				m.outs = append(m.outs, outAdd{a, el})
			}
		}
	}
	return m.outs
}

// copied tells whether a description is that of another list.
func (m *fieldModel) copied(a *FieldAdd, el *Term) bool {
	for _, v := range m.L.e.flatten(m.L.r.fieldT, el) {
		if _, _, _, ok := m.leafOf(a.st.res(v)); ok {
			return true
		}
	}
	return false
}

// optionTerms lists the tests whether a list contains a constant, in a term or
// in what a state knows.
func optionTerms(st *State, v *Term) map[string][]*Term {
	r := map[string][]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && (strings.HasPrefix(t.s, "built:") || strings.HasPrefix(t.s, "fn:slices.Contains")) && len(t.a) == 2 {
			for i := range t.a {
				if t.a[i].op == OStrC && t.a[1-i].op == OSlice {
					r[t.a[i].s] = append(r[t.a[i].s], t)
				}
			}
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	walk(v)
	for _, a := range sortedAtoms(st) {
		walk(a)
	}
	return r
}

// optionList is the list of such a test.
func optionList(t *Term) *Term {
	for _, a := range t.a {
		if a.op == OSlice {
			return a
		}
	}
	return nil
}

// tagText is the text of the json tag that occurs in a state.
func tagText(ts []*Term) *Term {
	seen := map[*Term]bool{}
	var r *Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || r != nil {
			return
		}
		seen[t] = true
		if t.op == OApp && (t.s == "fn:(reflect.StructTag).Get" || t.s == "fn:(reflect.StructTag).Lookup") && len(t.a) == 2 && t.a[1].op == OStrC && t.a[1].s == "json" {
			r = t
			return
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return r
}

// commaAt is the position of the first comma of a tag on a path, or nil.
func commaAt(st *State, tag *Term) *Term {
	seen := map[*Term]bool{}
	var r *Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || r != nil {
			return
		}
		seen[t] = true
		if t.op == OApp && (t.s == "fn:strings.Index" || t.s == "fn:strings.IndexByte" || t.s == "fn:strings.IndexRune") && len(t.a) == 2 && containsTerm(t.a[0], tag) {
			if t.a[1].op == OStrC && t.a[1].s == "," || isInt(t.a[1], ',') {
				r = t
				return
			}
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	for _, t := range factTerms(st) {
		walk(t)
	}
	return r
}

// noComma tells whether the tag of a field has no comma, hence no options.
func noComma(st *State, tag *Term) bool {
	if tag == nil {
		return false
	}
	if st.rng(strlenOf(tag)).subset(single(0)) {
		return true
	}
	c := commaAt(st, tag)
	return c != nil && st.rng(c).subset(single(-1))
}

func strlenOf(t *Term) *Term { _, n := strParts(t); return n }

// optValue is the value of a part of the description of a field given whether
// its tag has an option: 1, 0, -1 for not known, 2 if it cannot be.
func (m *fieldModel) optValue(a outAdd, v *Term, name string, has bool) int {
	return m.optValueIn(a.st, a, v, name, has, nil)
}

func (m *fieldModel) optValueIn(st *State, a outAdd, v *Term, name string, has bool, then func(st *State) int) int {
	tag := tagText(append(factTerms(a.st), v))
	if has && noComma(a.st, tag) {
		return 2
	}
	st = st.clone()
	for _, t := range optionTerms(a.st, v)[name] {
		l := optionList(t)
		on := has
		if isInt(st.res(l.a[1]), 0) {
			on = false // no list
		}
		if !st.assume(t, on) {
			return 2
		}
	}
	if then != nil {
		return then(st)
	}
	return st.decide(st.res(v))
}

// optValueOther looks for another option of the tag that makes a part of the
// description say something else than that the tag has an option.
func (m *fieldModel) optValueOther(a outAdd, v *Term, name string, has bool) string {
	for _, n := range sortedKeys(optionTerms(a.st, v)) {
		if n == name {
			continue
		}
		for _, on := range []bool{false, true} {
			d := m.optValueIn(a.st, a, v, name, has, func(st *State) int {
				return m.optValueIn(st, a, v, n, on, nil)
			})
			if d == b2i(!has) {
				return fmt.Sprintf(" if %s is %s the tag as well", n, map[bool]string{true: "in", false: "not in"}[on])
			}
		}
	}
	return ""
}

// findRoles finds which parts of the description stand for the tag options.
func (m *fieldModel) findRoles() {
	m.roles = map[int64]string{}
	names := map[string]bool{}
	for _, a := range m.outputAdds() {
		for n := range optionTerms(a.st, a.el) {
			names[n] = true
		}
	}
	for _, n := range sortedKeys(names) {
		// the part that follows the option on most paths
		best, at, tie := -1<<30, int64(-1), false
		for _, l := range m.ls {
			if l.kind != "ldb" {
				continue
			}
			score, can := 0, false
			for _, a := range m.outputAdds() {
				v := m.addLeaf(a.FieldAdd, a.el, l.off)
				no, yes := m.optValue(a, v, n, false), m.optValue(a, v, n, true)
				score += [4]int{-1, 1, -2, 0}[no+1]
				score += [4]int{0, -2, 2, 0}[yes+1]
				can = can || yes == 1 || yes == -1
			}
			if !can || score <= 0 {
				continue
			}
			if score > best {
				best, at, tie = score, l.off, false
			} else if score == best {
				tie = true
			}
		}
		if at >= 0 && !tie && m.roles[at] == "" {
			m.roles[at] = n
		} else if at >= 0 && !tie {
			m.roles[at] = "?"
		}
	}
	for _, l := range m.ls {
		if l.kind != "ldb" || m.roles[l.off] != "" {
			continue
		}
		m.roles[l.off] = "false"
		for _, a := range m.outputAdds() {
			if m.addLeaf(a.FieldAdd, a.el, l.off) != tFalse {
				m.roles[l.off] = "?"
			}
		}
	}
}

// knownRoles tells whether the parts for the options are known.
func (m *fieldModel) knownRoles() bool {
	e, n := false, false
	for _, r := range m.roles {
		e = e || r == "omitempty"
		n = n || r == "omitnil"
	}
	return e && n
}

// assumeField adds assumptions about a field to the state of a step. There can
// be several ways.
func (m *fieldModel) assumeField(s *fieldStep, mask int) []*State {
	L := m.L
	st := s.st.clone()
	for off, what := range m.roles {
		v := s.at[off]
		bit := 0
		switch what {
		case "omitempty":
			bit = aEmpty
		case "omitnil":
			bit = aNil
		case "false":
		default:
			continue
		}
		if v != nil && !st.assume(st.res(v), mask&bit != 0) {
			return nil
		}
	}
	if s.typ == nil {
		return []*State{st}
	}
	if !st.assumeIn(mkApp("rt.Kind", types.Typ[types.Uint], s.typ), kindsOf(mask&aNilable != 0)) {
		return nil
	}
	I := L.typeNamed("encoding/json", "Marshaler")
	if I == nil {
		return []*State{st}
	}
	own := L.implements(st, s.typ, I)
	ptr := L.implements(st, L.rt("rt.PtrTo", s.typ), I)
	var r []*State
	add := func(o, p bool) {
		q := st.clone()
		if q.assume(own, o) && q.assume(ptr, p) {
			r = append(r, q)
		}
	}
	if mask&aJSON != 0 {
		add(true, true)
		add(true, false)
		add(false, true)
	} else {
		add(false, false)
	}
	return r
}

// nilKinds are the kinds of the types with nil values that omitnil is about.
var nilKinds = []int64{int64(reflect.Ptr), int64(reflect.Interface), int64(reflect.Slice), int64(reflect.Map)}

func kindsOf(nilable bool) Set {
	if nilable {
		return setOf(nilKinds...)
	}
	var ks []int64
	for k := int64(1); k <= 25; k++ {
		if !setOf(nilKinds...).has(k) {
			ks = append(ks, k)
		}
	}
	return setOf(ks...)
}

// stepVec is what the bools of a description are after a step, under some
// assumptions.
type stepVec struct {
	s    *fieldStep
	st   *State
	vals map[int64]int
}

// vectors lists the values that the parts of a description can have.
func (m *fieldModel) vectors(mask int, offs []int64) []stepVec {
	var r []stepVec
	seen := map[string]bool{}
	for _, s := range m.steps {
		for _, st := range m.assumeField(s, mask) {
			vals := map[int64]int{}
			key := ""
			for _, off := range offs {
				v, _ := m.part(s, off)
				d := -1
				if v != nil {
					d = st.decide(st.res(v))
				}
				if _, set := s.set[off]; d < 0 && !set {
					switch m.roles[off] {
					case "omitempty":
						d = b2i(mask&aEmpty != 0)
					case "omitnil":
						d = b2i(mask&aNil != 0)
					case "false":
						d = 0
					}
				}
				vals[off] = d
				key += fmt.Sprintf("%d,", d)
			}
			if !seen[key] {
				seen[key] = true
				r = append(r, stepVec{s, st, vals})
			}
		}
	}
	return r
}
