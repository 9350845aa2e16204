package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which fields of a struct type become members.

// selection is the model of the functions that list the fields of a type.
type selection struct {
	m     *fieldModel
	und   string
	typO  int64 // offsets of the parts of a description
	idxO  int64
	seqO  int64
	seqT  types.Type
	nameO int64
	tagO  int64
	scans []*scan
	cases int
	finds []selFind
	seen  map[string]bool
	// the type in a description can be another one than that of the field
	otherTyp bool
}

// scan is one way an iteration over the fields of a type ends.
type scan struct {
	x     *Enc
	rec   *LoopRec
	t     *Trans
	st    *State
	F     *Term // the field
	owner *Term // its type
	ref   fieldRef
	ctr   *Term
	outs  []*Term // descriptions of members that are added
	queue []*Term // descriptions of types to look at
	outL  *Term   // the list they are added to
	queL  *Term
	vague bool
}

func isIntSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

func (m *fieldModel) selection() *selection {
	s := &selection{m: m, typO: -1, idxO: -1, seqO: -1, nameO: -1, tagO: -1}
	stt, ok := m.L.r.fieldT.Underlying().(*types.Struct)
	if !ok {
		s.und = "descriptions of fields are no structs"
		return s
	}
	var fs []*types.Var
	for i := 0; i < stt.NumFields(); i++ {
		fs = append(fs, stt.Field(i))
	}
	offs := m.L.e.sizes.Offsetsof(fs)
	for i, v := range fs {
		switch u := v.Type().Underlying().(type) {
		case *types.Slice:
			if isIntSlice(v.Type()) {
				s.idxO = offs[i]
			} else if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				s.seqO, s.seqT = offs[i], u.Elem()
			}
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				if s.nameO >= 0 {
					s.und = "a description of a field has several texts"
				}
				s.nameO = offs[i]
			}
		case *types.Interface:
			if isReflectType(v.Type()) {
				s.typO = offs[i]
			}
		}
	}
	if s.idxO < 0 || s.seqO < 0 || s.typO < 0 || s.nameO < 0 {
		s.und = "the parts of the description of a field are not known"
		return s
	}
	s.findScans()
	return s
}

// walkTerms visits every subterm once.
func walkTerms(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.a {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
}

func (s *selection) findScans() {
	L := s.m.L
	for _, x := range L.runAll() {
		if !L.r.fieldsOf[x.fn] {
			continue
		}
		for _, rec := range x.recs {
			for _, t := range rec.trans {
				if t.from >= 0 {
					s.scan(x, rec, t)
				}
			}
		}
	}
}

func (s *selection) scan(x *Enc, rec *LoopRec, t *Trans) {
	sc := &scan{x: x, rec: rec, t: t, st: t.st}
	ts := factTerms(t.st)
	for _, v := range t.bind {
		ts = append(ts, v)
	}
	walkTerms(ts, func(a *Term) {
		if a.op != OApp || a.s != "rt.Field" || len(a.a) != 2 {
			return
		}
		nv := t.bind[a.a[1]]
		if nv == nil || t.st.res(nv) == a.a[1] {
			return
		}
		if sc.F != nil && sc.F != a {
			sc.vague = true
		}
		sc.F, sc.owner, sc.ctr = a, a.a[0], a.a[1]
	})
	if sc.F == nil {
		return
	}
	if T := sc.owner; T.op == OIface {
		if b, i, off, ok := s.m.leafOf(T.a[0]); ok && off == s.typO {
			sc.ref = fieldRef{b, i}
		}
	}
	sc.adds(s)
	s.scans = append(s.scans, sc)
}

// adds finds what the iteration adds to lists of descriptions.
func (sc *scan) adds(s *selection) {
	L, e := s.m.L, s.m.L.e
	ks := s.m.keyParts()
	for old, nv := range sc.t.bind {
		if old.op != OSlice || nv == nil {
			continue
		}
		nv = sc.st.res(nv)
		if nv.op != OSlice || nv == old {
			continue
		}
		if h := nv.a[0]; h.op == OApp && h.s == "sptr" && h != old.a[0] && h.a[0].op == OSym && old.a[0].op == OApp && old.a[0].s == "sptr" {
			// what a loop made of the list is not known
			known := false
			for k := range sc.t.bind {
				known = known || k == h.a[0] || k.op == OSlice && k.a[0] == h
			}
			if a, _ := h.a[0].x.(types.Type); !known && (a == nil || types.Identical(a, types.NewSlice(L.r.fieldT))) {
				sc.vague = true
			}
		}
		o := sc.st.obj(sc.st.res(baseOf(nv.a[0])))
		if o == nil || o.kind != KLog || o.typ == nil || !types.Identical(o.typ, L.r.fieldT) {
			continue
		}
		first := true
		for _, p := range e.content(sc.st, nv) {
			switch p.s {
			case "raw":
				if !first || p.a[0] != old.a[0] || !sc.st.eqInt(p.a[2], old.a[1]) || !isInt(p.a[1], 0) {
					sc.vague = true
				}
			case "elt":
				el := p.a[0]
				out := false
				for k := range ks {
					v := s.leaf(sc.st, el, k)
					out = out || v != nil && v != tNil
				}
				if out {
					sc.outs, sc.outL = append(sc.outs, el), old
				} else {
					sc.queue, sc.queL = append(sc.queue, el), old
				}
			default:
				sc.vague = true
			}
			first = false
		}
	}
}

func (s *selection) leaf(st *State, el *Term, off int64) *Term {
	fs := s.m.L.e.flatten(s.m.L.r.fieldT, el)
	for i, l := range s.m.ls {
		if l.off == off && i < len(fs) {
			return st.res(fs[i])
		}
	}
	return nil
}

func (s *selection) slice(st *State, el *Term, off int64) *Term {
	p, n, c := s.leaf(st, el, off), s.leaf(st, el, off+8), s.leaf(st, el, off+16)
	if p == nil || n == nil || c == nil {
		return nil
	}
	return mk(OSlice, "", 0, nil, []*Term{p, n, c}, nil)
}

// ---------- cases of a field ----------

// what happens to a field
const (
	doSkip = iota
	doMember
	doQueue
)

const (
	shStruct = iota
	shPtrStruct
	shPtrOther
	shOther
	shNamedPtr // a named pointer type
	nShapes
)

const (
	tgDash = iota
	tgNoName
	tgName
	tgBadName
	tgDashName // "-,"
	nTags
)

type fieldCase struct {
	anon, exported bool
	shape, tag     int
}

func (k fieldCase) String() string {
	a, x := "a", "unexported"
	if k.exported {
		x = "exported"
	}
	if k.anon {
		a = "an embedded"
		if !k.exported {
			x = "unexported"
		}
	} else if !k.exported {
		a = "an"
	} else {
		a = "an"
	}
	return fmt.Sprintf("%s %s field of %s with %s", a, x,
		[]string{"a struct type", "a pointer to a struct", "a pointer to something else than a struct", "a type that is neither struct nor pointer", "a named pointer type"}[k.shape],
		[]string{"the tag \"-\"", "no name in its tag", "a valid name in its tag", "an invalid name in its tag", "a tag that begins with \"-,\""}[k.tag])
}

// expected is what encoding/json does with such a field.
func (k fieldCase) expected() (what int, tagged bool) {
	isStruct := k.shape == shStruct || k.shape == shPtrStruct
	switch {
	case k.tag == tgDash, !k.anon && !k.exported, k.anon && !k.exported && !isStruct:
		return doSkip, false
	case k.tag == tgName || k.tag == tgDashName:
		return doMember, true
	case !k.anon || !isStruct:
		return doMember, false
	}
	return doQueue, false
}

// sub finds the applications of a function to some term.
func subApps(ts []*Term, name string, arg *Term) []*Term {
	var r []*Term
	walkTerms(ts, func(t *Term) {
		if t.op == OApp && t.s == name && len(t.a) > 0 && t.a[0] == arg {
			r = append(r, t)
		}
	})
	return r
}

// fieldTerms are the terms that stand for the facts about a field.
type fieldTerms struct {
	all            []*Term
	name, pkg, typ *Term
	off, anon, tag *Term // tag: the text of the json tag
	comma          *Term
}

func (sc *scan) terms() *fieldTerms {
	ts := factTerms(sc.st)
	for _, l := range [][]*Term{sc.outs, sc.queue} {
		ts = append(ts, l...)
	}
	for _, id := range sortedHeap(sc.st) {
		if o := sc.st.heap[id]; o.kind == KMap {
			ts = append(ts, o.ents...)
		}
	}
	f := &fieldTerms{all: ts}
	one := func(n string) *Term {
		if r := subApps(ts, n, sc.F); len(r) > 0 {
			return r[0]
		}
		return nil
	}
	f.name, f.pkg, f.typ, f.off, f.anon = one("fld0"), one("fld1"), one("fld2"), one("fld4"), one("fld6")
	f.tag = tagText(ts)
	if f.tag != nil {
		f.comma = commaAt(sc.st, f.tag)
	}
	return f
}

func sortedHeap(st *State) []int64 {
	var r []int64
	for id := range st.heap {
		r = append(r, id)
	}
	for i := range r {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

// namePred is the test whether a name can be used.
type namePred struct {
	f  *ssa.Function
	rp *runePred
}

// opaque finds the function that an opaque application stands for.
func (L *Lab) opaque(t *Term) *ssa.Function {
	if t.op != OApp || !strings.HasPrefix(t.s, "built:") {
		return nil
	}
	if L.byShort == nil {
		L.byShort = map[string]*ssa.Function{}
		for _, f := range L.e.allFuncs() {
			n := shortName(f)
			if _, dup := L.byShort[n]; dup {
				L.byShort[n] = nil
			} else {
				L.byShort[n] = f
			}
		}
	}
	return L.byShort[t.s[len("built:"):]]
}

// pair matches a symbolic argument with an actual one.
func pair(m map[*Term]*Term, p, a *Term) bool {
	if p.op == OSym || p.op == OApp {
		m[p] = a
		return true
	}
	if p.op != a.op || len(p.a) != len(a.a) {
		// the parts of an argument that is a single term
		return false
	}
	for i := range p.a {
		if !pair(m, p.a[i], a.a[i]) {
			return false
		}
	}
	return true
}

// truth lists what an application of a predicate of the library can be in a
// state: bit 0 false, bit 1 true. 0 means it is not known.
func (L *Lab) truth(st *State, t *Term) int {
	f := L.opaque(t)
	if f == nil || len(f.Params) != len(t.a) {
		return 0
	}
	x := L.function(f, L.r.encodeOpaque, false)
	if !x.ok() || len(x.recs) > 0 {
		return 0
	}
	m := map[*Term]*Term{}
	for i, p := range f.Params {
		if !pair(m, x.argT[p.Name()], t.a[i]) {
			return 0
		}
	}
	sub := newSubst(m)
	r := 0
	for _, o := range x.outs {
		q := st.clone()
		ok := true
		for _, a := range sortedAtoms(o.st) {
			ok = ok && q.assume(sub.do(a), o.st.atoms[a])
		}
		for _, a := range sortedRngs(o.st) {
			ok = ok && q.assumeIn(sub.do(a), o.st.rngs[a])
		}
		if !ok {
			continue
		}
		switch q.decide(sub.do(o.ret[0])) {
		case 1:
			r |= 2
		case 0:
			r |= 1
		default:
			r |= 3
		}
	}
	return r
}

// selFind is something the comparison found.
type selFind struct {
	where, fn, msg, path string
	und                  bool
}

func (s *selection) add(und bool, where, fn, path, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	k := fmt.Sprint(und, where, msg)
	if s.seen == nil {
		s.seen = map[string]bool{}
	}
	if s.seen[k] {
		return
	}
	s.seen[k] = true
	s.finds = append(s.finds, selFind{where, fn, msg, path, und})
}

func (s *selection) at(sc *scan, und bool, st *State, format string, a ...any) {
	s.add(und, trimRepo(sc.rec.pos), shortName(sc.rec.fn), pathOf(st), format, a...)
}

// known tells whether a term is one the comparison understands.
func (s *selection) known(t *Term, comma *Term) bool {
	switch t.op {
	case OIn, ONot, OEq, OLin, OBool, OInt, OStr, OStrC, OIface, ONil, OSym, OTypeC, OStruct, OSlice, OPtr, OObj, OTuple:
		return true
	case OApp:
		switch t.s {
		case "fld0", "fld1", "fld2", "fld3", "fld4", "fld5", "fld6", "rt.Field", "rt.Kind", "rt.Name", "rt.Elem", "rt.NumField", "rt.Size", "rt.Align", "rt.Len", "strlen", "strptr", "sptr", "slen", "scap",
			"tab", "word", "maphas", "mapget", "wrap", "implements", "smhas", "smload", "booleq", "dyntype", "assert":
			return true
		case "fn:(reflect.StructTag).Get", "fn:(reflect.StructTag).Lookup":
			return t.a[1].op == OStrC && t.a[1].s == "json"
		case "fn:strings.Index", "fn:strings.IndexByte", "fn:strings.IndexRune":
			return t == comma
		case "fn:strings.HasPrefix":
			return len(t.a) == 2 && t.a[1].op == OStrC
		case "fn:strings.Split", "fn:strings.SplitN":
			return true
		}
		if strings.HasPrefix(t.s, "ld") || strings.HasPrefix(t.s, "fn:slices.Contains") {
			return true
		}
		if strings.HasPrefix(t.s, "built:") {
			return true
		}
	}
	return false
}

// knownAll: is all of a term understood?
func (s *selection) knownAll(t *Term, comma *Term) bool {
	ok := true
	walkTerms([]*Term{t}, func(a *Term) { ok = ok && s.known(a, comma) })
	return ok
}

// foreignFacts lists the conditions of a path that the comparison does not
// understand.
func (s *selection) foreignFacts(sc *scan, f *fieldTerms) string {
	why := ""
	var ts []*Term
	for _, t := range append(sortedAtoms(sc.st), sortedRngs(sc.st)...) {
		if containsTerm(t, sc.F) {
			ts = append(ts, t)
		}
	}
	walkTerms(ts, func(t *Term) {
		if !s.known(t, f.comma) && why == "" {
			why = t.str(3)
		}
	})
	return why
}

// names lists the tests of texts that occur on a path, with what they test.
func (s *selection) namePreds(sc *scan, f *fieldTerms) map[*Term]*namePred {
	r := map[*Term]*namePred{}
	L := s.m.L
	if f.tag == nil {
		return r
	}
	walkTerms(f.all, func(t *Term) {
		g := L.opaque(t)
		if g == nil || len(t.a) != 1 || t.a[0].op != OStr || !L.r.textPredicate(g) || !containsTerm(t.a[0], f.tag) {
			return
		}
		r[t] = &namePred{g, L.runePredOf(g)}
	})
	return r
}

// checkScans compares the iterations over the fields of a type with the rules.
func (s *selection) checkScans() {
	if len(s.m.keyParts()) == 0 {
		s.add(true, "", "", "", "what the encoder writes as the key of a member")
		return
	}
	for _, sc := range s.scans {
		s.checkScan(sc)
	}
}

func (s *selection) checkScan(sc *scan) {
	L := s.m.L
	f := sc.terms()
	und := ""
	if sc.vague {
		und = "what it adds to the lists is not followed"
	}
	if w := s.foreignFacts(sc, f); w != "" {
		und = "a condition that is not understood: " + w
	}
	preds := s.namePreds(sc, f)
	for t, p := range preds {
		if p.rp.why != "" {
			und = "the test of names: " + p.rp.why
		}
		_ = t
	}
	if sc.ref.base == nil {
		und = "the type whose fields it looks at"
	}
	var nil2 = func(t *Term, g func() bool) bool { return t == nil || g() }
	kind := func(t *Term) *Term { return mkApp("rt.Kind", types.Typ[types.Uint], t) }
	notStruct := kindsBut(reflect.Struct)
	other := kindsBut(reflect.Struct, reflect.Ptr)
	strlenT := func(t *Term) *Term { return strlenOf(t) }
	for _, anon := range []bool{false, true} {
		s1 := sc.st.clone()
		if !nil2(f.anon, func() bool { return s1.assume(f.anon, anon) }) {
			continue
		}
		for _, exported := range []bool{false, true} {
			s2 := s1.clone()
			if !nil2(f.pkg, func() bool {
				if exported {
					return s2.assumeIn(strlenT(f.pkg), single(0))
				}
				return s2.assumeIn(strlenT(f.pkg), between(1, maxLen))
			}) {
				continue
			}
			for shape := 0; shape < nShapes; shape++ {
				if shape == shNamedPtr && anon {
					continue // not possible
				}
				s3 := s2.clone()
				if f.typ != nil {
					T := f.typ
					el := L.rt("rt.Elem", T)
					var ok bool
					nameLen := strlenOf(mkApp("rt.Name", types.Typ[types.String], T))
					switch shape {
					case shStruct:
						ok = s3.assumeIn(kind(T), single(int64(reflect.Struct)))
					case shPtrStruct:
						ok = s3.assumeIn(kind(T), single(int64(reflect.Ptr))) && s3.assumeIn(kind(el), single(int64(reflect.Struct))) && s3.assumeIn(nameLen, single(0))
					case shPtrOther:
						ok = s3.assumeIn(kind(T), single(int64(reflect.Ptr))) && s3.assumeIn(kind(el), notStruct) && s3.assumeIn(nameLen, single(0))
					case shOther:
						ok = s3.assumeIn(kind(T), other)
					case shNamedPtr:
						ok = s3.assumeIn(kind(T), single(int64(reflect.Ptr))) && s3.assumeIn(nameLen, between(1, maxLen))
					}
					if ok && anon && (shape == shStruct || shape == shOther) {
						ok = s3.assumeIn(nameLen, between(1, maxLen))
					}
					if !ok {
						continue
					}
				}
				ok := true
				for _, a := range sortedAtoms(s3) {
					g := L.opaque(a)
					if g == nil || preds[a] != nil || !containsTerm(a, sc.F) || isOptionTest(a) {
						continue
					}
					switch L.truth(s3, a) {
					case 0:
						if und == "" {
							und = "the function " + g.Name() + " is not understood"
						}
					case 1:
						ok = ok && !s3.atoms[a]
					case 2:
						ok = ok && s3.atoms[a]
					}
				}
				if !ok {
					continue
				}
				for tag := 0; tag < nTags; tag++ {
					s.tagCase(sc, f, preds, s3, fieldCase{anon, exported, shape, tag}, und)
				}
			}
		}
	}
}

// isOptionTest recognises the search for an option in the list of a tag.
func isOptionTest(t *Term) bool {
	if len(t.a) != 2 {
		return false
	}
	for i := range t.a {
		if t.a[i].op == OStrC && t.a[1-i].op == OSlice {
			return true
		}
	}
	return false
}

func kindsBut(not ...reflect.Kind) Set {
	var ks []int64
	for k := int64(1); k <= 26; k++ {
		in := true
		for _, n := range not {
			in = in && int64(n) != k
		}
		if in {
			ks = append(ks, k)
		}
	}
	return setOf(ks...)
}

func (s *selection) tagCase(sc *scan, f *fieldTerms, preds map[*Term]*namePred, st *State, k fieldCase, und string) {
	if f.tag == nil {
		s.caseOf(sc, f, st, k, nil, und)
		return
	}
	G := f.tag
	gp, gn := strParts(G)
	gs := mkStr(gp, gn)
	st = st.clone()
	for _, t := range subApps(f.all, "fn:strings.HasPrefix", gs) {
		c, is := t.a[1].s, -1
		switch k.tag {
		case tgDash:
			is = b2i(strings.HasPrefix("-", c))
		case tgDashName:
			if strings.HasPrefix("-,", c) {
				is = 1
			} else if !strings.HasPrefix(c, "-,") {
				is = 0
			}
		case tgNoName:
			if c != "" && c[0] != ',' {
				is = 0
			}
		}
		if is >= 0 && !st.assume(t, is == 1) {
			return
		}
	}
	dash := st.eqTerms(gs, strC("-"))
	if k.tag == tgDash {
		if !st.assume(dash, true) || !st.assumeIn(gn, single(1)) {
			return
		}
		if f.comma != nil && !st.assumeIn(f.comma, single(-1)) {
			return
		}
		s.caseOf(sc, f, st, k, nil, und)
		return
	}
	if !st.assume(dash, false) {
		return
	}
	type way struct {
		st *State
		n  *Term
	}
	var ways []way
	if f.comma != nil {
		q := st.clone()
		if k.tag != tgDashName && q.assumeIn(f.comma, single(-1)) {
			ways = append(ways, way{q, gs})
		}
		q = st.clone()
		if q.assumeIn(f.comma, between(0, maxLen)) {
			ways = append(ways, way{q, mkStr(gp, f.comma)})
		}
	} else {
		if k.tag == tgDashName {
			return
		}
		ways = append(ways, way{st, gs})
	}
	for _, w := range ways {
		st := w.st
		_, n := strParts(w.n)
		isDash := st.eqTerms(w.n, strC("-"))
		ok := true
		switch k.tag {
		case tgNoName:
			ok = st.assumeIn(n, single(0))
		case tgName, tgBadName:
			ok = st.assumeIn(n, between(1, maxLen)) && (isDash == dash || st.assume(isDash, false))
		case tgDashName:
			ok = st.assumeIn(n, single(1)) && st.assume(isDash, true)
		}
		u := und
		for t, p := range preds {
			if st.decide(st.eqTerms(t.a[0], w.n)) != 1 {
				if tp, tn := strParts(t.a[0]); tp == gp && st.eqInt(tn, n) {
					// the same text
				} else {
					if u == "" {
						u = "something else than the name in the tag is tested"
					}
					continue
				}
			}
			switch k.tag {
			case tgNoName:
				if p.rp.empty >= 0 {
					ok = ok && st.assume(t, p.rp.empty == 1)
				}
			case tgName, tgDashName:
				ok = ok && st.assume(t, true)
			case tgBadName:
				ok = ok && st.assume(t, false)
			}
		}
		if ok {
			s.caseOf(sc, f, st, k, w.n, u)
		}
	}
}

// caseOf compares what a path does with a field with what it should.
func (s *selection) caseOf(sc *scan, f *fieldTerms, st *State, k fieldCase, name *Term, und string) {
	s.cases++
	want, tagged := k.expected()
	got := doSkip
	switch {
	case len(sc.outs) > 0:
		got = doMember
	case len(sc.queue) > 0:
		got = doQueue
	}
	K := s.queueKey(sc, f, st, k)
	upd := s.counted(sc, st, K)
	bad := func(format string, a ...any) {
		if und != "" {
			s.at(sc, true, st, "%s: %s", k, und)
			return
		}
		s.at(sc, false, st, format, a...)
	}
	if got == doSkip && upd != nil {
		got = doQueue
	}
	if got != want {
		what := []string{"is left out", "becomes a member", "has its fields promoted"}
		bad("%s %s, but with encoding/json it %s", k, what[got], what[want])
		return
	}
	switch want {
	case doMember:
		if len(sc.queue) > 0 {
			bad("%s becomes a member and has its fields promoted", k)
			return
		}
		s.member(sc, f, st, k, name, tagged, bad)
	case doQueue:
		s.queued(sc, f, st, k, K, upd, bad)
	}
}

// queueKey is the struct type whose fields are promoted.
func (s *selection) queueKey(sc *scan, f *fieldTerms, st *State, k fieldCase) *Term {
	if f.typ == nil {
		return nil
	}
	if k.shape == shPtrStruct || k.shape == shPtrOther {
		return s.m.L.rt("rt.Elem", f.typ)
	}
	return f.typ
}

// mapUpd is a count that an iteration changes.
type mapUpd struct {
	o        *Obj
	key, val *Term
}

// counted finds the count of the types to look at that the iteration changes.
func (s *selection) counted(sc *scan, st *State, K *Term) *mapUpd {
	for _, id := range sortedHeap(sc.st) {
		o := sc.st.heap[id]
		if o.kind != KMap {
			continue
		}
		for i := len(o.ents) - 1; i >= 0; i-- {
			if containsTerm(o.ents[i].a[0], sc.F) {
				return &mapUpd{o, o.ents[i].a[0], o.ents[i].a[1]}
			}
		}
	}
	return nil
}

func (s *selection) sameSlice(sc *scan, st *State, what string, el *Term, off int64, esz int64, last func(p *Term) string, bad func(string, ...any), k fieldCase) {
	e := s.m.L.e
	sl := s.slice(st, el, off)
	if sl == nil {
		bad("%s: the %s of %s is not understood", trimRepo(sc.rec.pos), what, k)
		return
	}
	b := sc.ref.base
	part := func(d int64) *Term {
		for _, l := range s.m.ls {
			if l.off == off+d {
				return e.loadLeaf(st, nil, nil, b, addT(mulC(sc.ref.idx, s.m.esz), intC(l.off)), l)
			}
		}
		return nil
	}
	o := st.obj(st.res(baseOf(sl.a[0])))
	if o == nil || o.kind != KLog {
		if sl.a[0] == part(0) {
			bad("the %s of %s is that of the struct it is in, without the field itself", what, k)
		} else {
			s.at(sc, true, st, "the %s of %s is not understood", what, k)
		}
		return
	}
	if o.root != nil && containsTerm(o.root, b) {
		bad("the %s of %s can share memory with that of its siblings, which overwrite it", what, k)
		return
	}
	ps := st.norm(e.content(st, sl))
	n := len(ps)
	empty := st.rng(part(8)).subset(single(0))
	switch {
	case n == 0:
		bad("the %s of %s is empty", what, k)
		return
	case ps[n-1].s != "elt":
		s.at(sc, true, st, "the %s of %s is not understood", what, k)
		return
	}
	if msg := last(st.res(ps[n-1].a[0])); strings.HasPrefix(msg, "?") {
		s.at(sc, true, st, "the last step of the %s of %s %s", what, k, msg[1:])
		return
	} else if msg != "" {
		bad("the last step of the %s of %s %s", what, k, msg)
		return
	}
	ps = ps[:n-1]
	if len(ps) == 0 && empty {
		return
	}
	if len(ps) == 1 && ps[0].s == "raw" && ps[0].a[0] == part(0) && isInt(ps[0].a[1], 0) && st.eqInt(ps[0].a[2], part(8)) {
		return
	}
	if len(ps) == 0 || len(ps) == 1 && ps[0].s == "raw" {
		bad("the %s of %s does not begin with that of the struct it is in", what, k)
		return
	}
	s.at(sc, true, st, "the %s of %s is not understood", what, k)
}

func (s *selection) steps(sc *scan, f *fieldTerms, st *State, el *Term, k fieldCase, indir bool, bad func(string, ...any)) {
	s.sameSlice(sc, st, "index", el, s.idxO, 8, func(p *Term) string {
		if st.eqInt(p, sc.ctr) {
			return ""
		}
		return "is not the number of the field"
	}, bad, k)
	s.sameSlice(sc, st, "way to the field", el, s.seqO, 0, func(p *Term) string {
		if p.op != OStruct || len(p.a) != 2 {
			return "?is not understood"
		}
		okOff, okInd := false, -1
		var ind *Term
		for _, v := range p.a {
			v = st.res(v)
			if f.off != nil && (v == f.off || st.decide(st.eqTerms(v, f.off)) == 1 || st.eqInt(v, f.off)) {
				okOff = true
			} else if termBool(v) || v.op == OBool {
				okInd, ind = st.decide(v), v
			}
		}
		switch {
		case !okOff:
			return "is not the offset of the field"
		case okInd < 0 && (ind == nil || !s.knownAll(ind, f.comma)):
			return "?has an unknown mark for pointers"
		case okInd < 0:
			return "is marked as a pointer or not for another reason than the type of the field"
		case (okInd == 1) != indir:
			return map[bool]string{true: "does not follow the pointer", false: "follows a pointer that is none"}[indir]
		}
		return ""
	}, bad, k)
}

func (s *selection) member(sc *scan, f *fieldTerms, st *State, k fieldCase, name *Term, tagged bool, bad func(string, ...any)) {
	for _, el := range sc.outs {
		np, nl := s.leaf(st, el, s.nameO), s.leaf(st, el, s.nameO+8)
		want := name
		if !tagged {
			want = f.name
		}
		if want == nil || np == nil || nl == nil {
			bad("the name of %s is %s", k, st.canon(np, 4))
			continue
		}
		wp, wl := strParts(want)
		if st.decide(st.eqTerms(np, wp)) != 1 || !st.eqInt(nl, wl) {
			from := "its name in Go"
			if tagged {
				from = "the one in its tag"
			}
			bad("the name of %s is not %s", k, from)
			continue
		}
		if T := mk(OIface, "", 0, nil, []*Term{s.leaf(st, el, s.typO), s.leaf(st, el, s.typO+8)}, nil); f.typ == nil || !sameType(st, T, f.typ) {
			s.otherTyp = true
		}
		if s.tagO >= 0 {
			switch d := st.decide(s.leaf(st, el, s.tagO)); {
			case d < 0 && s.knownAll(s.leaf(st, el, s.tagO), f.comma):
				bad("whether the name of %s counts as one from the tag depends on something else", k)
			case d < 0:
				s.at(sc, true, st, "whether the name of %s counts as one from the tag", k)
			case (d == 1) != tagged:
				bad("the name of %s counts as %s", k, map[bool]string{true: "one that is not from the tag", false: "one from the tag"}[tagged])
			}
		}
		for part := range s.m.keyParts() {
			sl := s.slice(st, el, part)
			if sl == nil {
				continue
			}
			var rs []*Term
			for _, p := range st.norm(s.m.L.e.content(st, sl)) {
				rs = append(rs, rawsIn(p)...)
			}
			if len(rs) != 1 {
				s.at(sc, true, st, "the text of the key of %s", k)
				continue
			}
			b, off := ptrParts(rs[0].a[0])
			from := mkPtr(b, addT(off, rs[0].a[1]))
			if st.decide(st.eqTerms(from, wp)) != 1 || !st.eqInt(subT(rs[0].a[2], rs[0].a[1]), wl) {
				bad("the text of the key of %s is not its name", k)
			}
		}
		s.steps(sc, f, st, el, k, false, bad)
	}
	s.duplicates(sc, st, k, bad)
}

// rawsIn lists the copies of other texts in a piece of a text.
func rawsIn(p *Term) []*Term {
	if p.op != OPiece {
		return nil
	}
	if p.s == "raw" {
		return []*Term{p}
	}
	var r []*Term
	for _, a := range p.a {
		r = append(r, rawsIn(a)...)
	}
	return r
}

// counts of the type whose fields are looked at
func (s *selection) duplicates(sc *scan, st *State, k fieldCase, bad func(string, ...any)) {
	var has, get []*Term
	walkTerms(factTerms(sc.st), func(t *Term) {
		if t.op == OApp && len(t.a) == 2 && t.a[1] == sc.owner {
			if et := mapElems[t.a[0]]; t.s == "maphas" && et != nil && isIntT(et) {
				has = append(has, t)
			}
			if t.s == "mapget" && isIntT(appType(t)) {
				get = append(get, t)
			}
		}
	})
	for _, many := range []bool{false, true} {
		q := st.clone()
		ok := true
		for _, g := range get {
			if many {
				ok = ok && q.assumeIn(g, between(2, INF))
			} else {
				ok = ok && q.assumeIn(g, between(NINF, 1))
			}
			if many {
				for _, h := range has {
					if h.a[0] == g.a[0] {
						ok = ok && q.assume(h, true)
					}
				}
			}
		}
		if len(get) == 0 && many {
			for _, h := range has {
				ok = ok && q.assume(h, true)
			}
		}
		if !ok {
			continue
		}
		switch {
		case many && len(sc.outs) < 2:
			bad("%s of a type that is embedded twice at the same depth is listed once, so that it is not eliminated", k)
		case !many && len(sc.outs) > 1:
			bad("%s is listed twice although its type is embedded once", k)
		}
	}
}

// unwrapped states that sums that cannot overflow do not.
func unwrapped(st *State, ts []*Term) bool {
	ok := true
	walkTerms(ts, func(t *Term) {
		if !ok || t.op != OApp || t.s != "wrap" {
			return
		}
		if b := st.bound(t.a[0]); b.lo > math.MinInt64/4 && b.hi < math.MaxInt64/4 {
			ok = st.assumeIn(subT(t, t.a[0]), single(0))
		}
	})
	return ok
}

func (s *selection) queued(sc *scan, f *fieldTerms, st *State, k fieldCase, K *Term, upd *mapUpd, bad func(string, ...any)) {
	if upd == nil {
		bad("%s is not counted", k)
		return
	}
	if st.decide(st.eqTerms(upd.key, K)) != 1 {
		bad("%s is counted under another type", k)
		return
	}
	var has, get *Term
	walkTerms(append(factTerms(sc.st), upd.val), func(t *Term) {
		if t.op == OApp && len(t.a) == 2 && t.a[1] == upd.key {
			switch t.s {
			case "maphas":
				has = t
			case "mapget":
				get = t
			}
		}
	})
	for _, first := range []bool{true, false} {
		q := st.clone()
		ok := true
		if has != nil {
			ok = q.assume(has, !first)
		}
		if get != nil && !first {
			ok = ok && q.assumeIn(get, between(1, maxLen))
		}
		if get != nil && first && has == nil {
			ok = ok && q.assumeIn(get, single(0))
		}
		if get != nil && first && has != nil && q.decide(has) == 1 {
			continue
		}
		if !ok || !unwrapped(q, append(factTerms(q), upd.val)) {
			continue
		}
		want := 0
		if first {
			want = 1
		}
		if len(sc.queue) != want {
			if first {
				bad("the fields of %s are not looked at the first time its type is met at a depth", k)
			} else {
				bad("the fields of %s are looked at again when its type is met again at the same depth", k)
			}
			continue
		}
		v := q.bound(q.res(upd.val))
		if first && !(v.lo == 1 && v.hi == 1) {
			bad("the count of the type of %s becomes %s the first time it is met", k, q.canon(upd.val, 3))
		}
		if !first && v.hi <= 1 {
			bad("the count of the type of %s stays %s when it is met again", k, q.canon(upd.val, 3))
		}
		if !first && v.lo < 2 && get != nil && upd.val.s == "wrap" && !q.eqInt(upd.val.a[0], addT(get, intC(1))) {
			bad("the count of the type of %s becomes %s when it is met again", k, q.canon(upd.val, 3))
		}
		for _, el := range sc.queue {
			T := mk(OIface, "", 0, nil, []*Term{s.leaf(q, el, s.typO), s.leaf(q, el, s.typO+8)}, nil)
			if !sameType(q, T, K) {
				bad("for %s the fields of another type are looked at", k)
				continue
			}
			s.steps(sc, f, q, el, k, k.shape == shPtrStruct, bad)
		}
	}
}

func sameType(st *State, a, b *Term) bool {
	if a.op == OIface && a.a[0] != nil && a.a[1] != nil {
		if t := simplIface(a); t == b {
			return true
		}
	}
	return st.decide(st.eqTerms(a, b)) == 1
}

// simplIface undoes the splitting of an interface value.
func simplIface(a *Term) *Term {
	x, y := a.a[0], a.a[1]
	if x.op == OApp && x.s == "tab" && y.op == OApp && y.s == "word" && x.a[0] == y.a[0] {
		return x.a[0]
	}
	return a
}
