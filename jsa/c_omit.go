package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which members of a struct are left out.

func init() {
	checks["C15"] = func(c *Check) { c.omissions("C15") }
	checks["C20"] = func(c *Check) { c.omissions("C20") }
}

const omitRule15 = "The description of a field is followed from the tag to the encoder. (1) On every path on which a description of a member is made, the parts that stand for omitempty and omitnil must hold exactly when the list of what follows the first comma of the json tag, split at commas, contains that text; the function that searches the list must look at every element and compare for equality. (2) On every path on which the maker of struct encoders completes a description, its bools are evaluated for all 16 combinations of: has omitempty, has omitnil, the kind is pointer, interface, slice or map, the type or the pointer to it implements json.Marshaler; the test for emptiness must be the one made for the type of the field. (3) For each combination and each path of an iteration of the encoder over the members that is consistent with it, the member must be skipped exactly when there is a reason: a nil pointer on the way, the lists, omitnil and the word at the field nil, omitempty and the test for emptiness holds, omitnil and the text the Marshaler wrote is null. Every reason must have been tested, at the address of the field, on the paths that write the member. (4) The test for emptiness made for each kind must read the value with the width of the kind and hold exactly for false, zero, a nil pointer or interface and a length of zero."

const omitRule20 = "On every path of an iteration of the encoder of structs over the members: one that is written must have been found not to be in the list of DenyList, if there is one, and to be in the list of AllowList, if there is one; one that is skipped must have another reason (see C15), or be in the list of DenyList, or not be in that of AllowList. What is looked up must be the name that is written between the quotes of the key; the encoder of the member must be given the options of the call. The options themselves are run abstractly: each must store a set that exists even for an empty list and has every element of the list and nothing else. No other encoder may look at the sets."

func (c *Check) omissions(id string) {
	L := c.L
	c.rule = omitRule15
	if id == "C20" {
		c.rule = omitRule20
	}
	L.runAll()
	m := L.fields()
	m.omitAll()
	if m.und != "" {
		c.undecided("%s", m.und)
	}
	if m.membE != "" {
		c.undecided("%s", m.membE)
	}
	for _, x := range m.encs {
		c.use(x)
	}
	if m.stepB != nil && id == "C15" {
		c.use(m.stepB)
	}
	c.count("paths of an iteration over the members", len(m.membs))
	if id == "C15" {
		c.count("paths that make descriptions", len(m.outputAdds()))
		c.count("paths that complete descriptions", len(m.steps))
		c.count("combinations of path, assumptions and description checked", m.cases)
		c.omitRoles(m)
		c.fieldTests(m)
		c.emptyTests()
	} else {
		c.listOptions(m)
		c.listReads(m)
		c.keyNames(m)
	}
	for _, f := range m.finds {
		if f.prop != id {
			continue
		}
		if f.und {
			c.undecided("%s: %s", f.where, f.msg)
		} else {
			c.violate(f.where, f.fn, f.msg, f.path)
		}
	}
}

type omitFind struct {
	prop, where, fn, msg, path string
	und                        bool
}

func (m *fieldModel) find(prop string, b *member, und bool, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	key := fmt.Sprintf("%s|%s|%v|%s", prop, b.rec.pos, und, msg)
	if m.found == nil {
		m.found = map[string]bool{}
	}
	if m.found[key] {
		return
	}
	m.found[key] = true
	m.finds = append(m.finds, omitFind{prop, trimRepo(b.rec.pos), shortName(b.x.fn), msg, pathOf(b.st), und})
}

// memberFacts is what a path of an iteration shows about the member.
type memberFacts struct {
	elem    *Term // what writes the value, or nil
	chain   bool  // a pointer on the way is nil
	denied  int
	listed  bool // the path looked at a list
	word    int  // the word at the field is nil
	empty   int  // the test for emptiness holds
	null    int  // the text that was written is null
	other   int  // tests that were made, not at the address of the field
	foreign bool
	und     string
}

const (
	tEmptyTest = 1 << iota
	tWordTest
)

// hasSeq tells whether a term reads a sequence of steps to the field.
func (m *fieldModel) readsPart(t *Term, ref fieldRef) bool {
	found := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || found {
			return
		}
		seen[t] = true
		if _, _, _, ok := m.leafOf(t); ok {
			found = true
			return
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	walk(t)
	return found
}

// fieldPtrs are the addresses that the encoders of the members are given, per
// loop.
func (m *fieldModel) fieldPtrs() map[*LoopRec]map[*Term]bool {
	r := map[*LoopRec]map[*Term]bool{}
	for _, b := range m.membs {
		for _, p := range b.log {
			if p.s == "elem" {
				if r[b.rec] == nil {
					r[b.rec] = map[*Term]bool{}
				}
				r[b.rec][b.st.res(p.a[2])] = true
			}
		}
	}
	return r
}

func nullConst(t *Term) bool { return t.op == OStrC && t.s == "null" }

// isTail tells whether a text is the last n bytes of a log: 1, 0, -1.
func isTail(st *State, t *Term, n int64) int {
	if t.op != OStr || !isInt(st.res(t.a[1]), n) {
		return -1
	}
	b, off := ptrParts(t.a[0])
	if b.op != OApp || b.s != "logval" {
		return -1
	}
	d, ok := st.constOf(subT(logTotal(b.a), off))
	if !ok {
		return -1
	}
	return b2i(d == n)
}

// fromEnd: is a term a byte of the output that ends with the value of a member,
// and which, counted from the end?
func fromEnd(st *State, t *Term) (int64, bool) {
	if t.op != OApp || len(t.a) != 2 {
		return 0, false
	}
	var d int64
	ok := false
	switch {
	case t.s == "byte" && t.a[0].op == OApp && t.a[0].s == "logval" && len(t.a[0].a) > 0 && t.a[0].a[len(t.a[0].a)-1].s == "elem":
		d, ok = st.constOf(subT(logTotal(t.a[0].a), t.a[1]))
	case t.s == "pbyte" && t.a[0].s == "elem":
		d, ok = st.constOf(t.a[1])
		d = -d
	}
	return d, ok && d > 0
}

func (m *fieldModel) facts(b *member, ptrs map[*Term]bool) memberFacts {
	f := memberFacts{word: -1, empty: -1, null: -1, denied: -1}
	st := b.st
	L := m.L
	for _, p := range b.log {
		if p.s == "elem" {
			if f.elem != nil {
				f.und = "an iteration writes two values"
			}
			f.elem = p
		}
	}
	opts := b.x.argT["opts"]
	allow, deny := L.optField(opts, "AllowList"), L.optField(opts, "DenyList")
	if allow == nil || deny == nil {
		f.und = "what AllowList and DenyList do is not known"
		return f
	}
	nilAt := func(l *Term) int { return st.decide(st.eqTerms(l, tNil)) }
	inAllow, inDeny := -1, -1
	ptrIs := func(X *Term) bool {
		X = st.res(X)
		if f.elem != nil {
			return st.decide(st.eqTerms(X, st.res(f.elem.a[2]))) == 1
		}
		return ptrs[X]
	}
	for _, a := range sortedAtoms(st) {
		v := st.atoms[a]
		if foreignTerm(a) {
			f.foreign = true
		}
		if a.op == OApp && a.s == "maphas" {
			isName := false
			if k := a.a[1]; k.op == OStr {
				if _, _, off, ok := m.leafOf(k.a[0]); ok {
					if _, _, o2, ok := m.leafOf(k.a[1]); ok && o2 == off+8 {
						isName = true
						if m.nameOff == nil {
							m.nameOff = map[int64]bool{}
						}
						m.nameOff[off] = true
					}
				}
			}
			switch {
			case a.a[0] == allow && isName:
				inAllow = b2i(v)
				f.listed = true
			case a.a[0] == deny && isName:
				inDeny = b2i(v)
				f.listed = true
			case a.a[0] == allow || a.a[0] == deny:
				f.listed = true
			}
			continue
		}
		if a.op == OApp && a.s == "pred" && len(a.a) == 2 {
			if _, _, off, ok := m.leafOf(a.a[0]); ok {
				f.other |= tEmptyTest
				if !ptrIs(a.a[1]) {
					continue
				}
				if m.predOff == nil {
					m.predOff = map[int64]bool{}
				}
				m.predOff[off] = true
				f.empty = b2i(v)
			}
			continue
		}
		if a.op == OEq {
			x, y := a.a[0], a.a[1]
			if y == tNil {
				x, y = y, x
			}
			if x == tNil && v && (ptrs[y] || y.op == OSym && y != b.x.argT["p"] && carried(b.x, y)) {
				f.chain = true // what a walk to the field returned
				continue
			}
			if x == tNil && y.op == OApp && y.s == "ld8p" {
				switch {
				case m.readsPart(y, b.ref):
					if v {
						f.chain = true
						m.chainFact(b, y)
					}
				case isInt(y.a[1], 0) && ptrIs(y.a[0]):
					f.word = b2i(v)
				default:
					f.other |= tWordTest
				}
				continue
			}
			if nullConst(y) {
				x, y = y, x
			}
			if nullConst(x) {
				switch isTail(st, y, 4) {
				case 1:
					f.null = b2i(v)
				case 0:
					if v {
						m.find("C15", b, false, "a member is skipped for other bytes than the last four of the output")
					}
				}
				continue
			}
		}
	}
	letters := 0
	for _, t := range sortedRngs(st) {
		if foreignTerm(t) {
			f.foreign = true
		}
		if d, ok := fromEnd(st, t); ok && d <= 4 {
			// one of the last four bytes is compared
			switch l, s := int64("null"[4-d]), st.rng(t); {
			case !s.has(l):
				f.null = 0
			case s.subset(single(l)):
				letters++
			}
		}
		if t.op == OApp && t.s == "bytescmp" {
			for i := range t.a {
				if !nullConst(t.a[i]) {
					continue
				}
				s := st.rng(t)
				if isTail(st, t.a[1-i], 4) == 1 {
					if s.subset(single(0)) {
						f.null = 1
					} else if !s.has(0) {
						f.null = 0
					}
				}
			}
		}
	}
	if letters == 4 && f.null < 0 {
		f.null = 1
	}
	if f.elem != nil && f.null < 0 && st.le(f.elem.a[0], intC(3)) {
		f.null = 0
	}
	if f.elem != nil && f.null < 0 {
		if tot := logTotal(b.log); st.le(subT(tot, subT(tot, f.elem.a[0])), intC(3)) {
			f.null = 0
		}
	}
	// denied: in the list of the denied, or not in the list of the allowed
	if nilAt(deny) == 1 {
		inDeny = 0
	}
	noAllow := -1
	switch {
	case nilAt(allow) == 1:
		noAllow = 0
	case nilAt(allow) == 0 && inAllow >= 0:
		noAllow = 1 - inAllow
	case inAllow == 1:
		noAllow = 0
	}
	switch {
	case inDeny == 1 || noAllow == 1:
		f.denied = 1
	case inDeny == 0 && noAllow == 0:
		f.denied = 0
	}
	return f
}

// carried tells whether a variable is one of a loop.
func carried(x *Enc, v *Term) bool {
	for _, rec := range x.recs {
		for _, t := range rec.trans {
			if _, ok := t.bind[v]; ok {
				return true
			}
		}
	}
	return false
}

// chainFact checks a path on which a pointer on the way to the field is nil:
// it must be a step that is one through a pointer.
func (m *fieldModel) chainFact(b *member, y *Term) {
	st := b.st
	for _, a := range sortedAtoms(st) {
		if a.op == OApp && a.s == "ldb" {
			if _, _, _, ok := m.leafOf(a); !ok && m.readsPart(a, b.ref) {
				if st.atoms[a] {
					return
				}
			}
		}
	}
	m.find("C15", b, false, "a member is skipped because of the word at a step of its embedded structs that is not one through a pointer")
}

// omitAll compares the paths over the members with the reasons to skip one.
func (m *fieldModel) omitAll() {
	if m.finds != nil || m.found != nil || len(m.membs) == 0 {
		return
	}
	m.found = map[string]bool{}
	m.findRoles()
	ptrs := m.fieldPtrs()
	offs := map[int64]bool{}
	for _, b := range m.membs {
		for off, t := range b.at {
			if t.s == "ldb" {
				offs[off] = true
			}
		}
	}
	var os []int64
	for o := range offs {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i] < os[j] })
	var vecs [nAssume][]stepVec
	for k := range vecs {
		vecs[k] = m.vectors(k, os)
	}
	facts := make([]memberFacts, len(m.membs))
	var any memberFacts // which reasons are tested at all
	any.empty, any.word, any.null = -1, -1, -1
	for i, b := range m.membs {
		facts[i] = m.facts(b, ptrs[b.rec])
		f := facts[i]
		any.empty = max(any.empty, f.empty)
		any.word = max(any.word, f.word)
		any.null = max(any.null, f.null)
		if f.other&tEmptyTest != 0 {
			any.empty = max(any.empty, 0)
		}
		if f.other&tWordTest != 0 {
			any.word = max(any.word, 0)
		}
	}
	for i, b := range m.membs {
		f := facts[i]
		if f.und != "" {
			m.find("C15", b, true, "%s", f.und)
			m.find("C20", b, true, "%s", f.und)
			continue
		}
		for k := range vecs {
			for _, v := range vecs[k] {
				m.omitCase(b, f, any, k, v)
			}
		}
		if f.elem != nil {
			m.find20(b, f)
			opts := b.x.argT["opts"]
			if d := sameOpts(b.st, f.elem.a[3], opts); d != 1 {
				m.find("C20", b, d < 0, "the encoder of a member is not given the options of the call")
			}
		}
	}
}

// sameOpts tells whether two sets of options are the same: 1, 0, -1.
func sameOpts(st *State, a, b *Term) int {
	d := st.decide(st.eqTerms(a, b))
	if d >= 0 || a.op != OStruct || b.op != OStruct || len(a.a) != len(b.a) {
		return d
	}
	for i := range a.a {
		x, y := st.res(a.a[i]), st.res(b.a[i])
		if x == y || st.decide(st.eqTerms(x, y)) == 1 {
			continue
		}
		if constTerm(x) {
			return 0
		}
		for j := range b.a {
			if x == st.res(b.a[j]) {
				return 0
			}
		}
	}
	return -1
}

// find20 checks that a member that is written is not denied.
func (m *fieldModel) find20(b *member, f memberFacts) {
	switch {
	case f.denied == 1:
		m.find("C20", b, false, "a member is written although its name is in the list of DenyList or not in that of AllowList")
	case f.denied < 0:
		m.find("C20", b, f.foreign, "a member is written without its name having been looked up in the lists of AllowList and DenyList")
	}
}

func (m *fieldModel) omitCase(b *member, f, any memberFacts, mask int, v stepVec) {
	for off, t := range b.at {
		if t.s != "ldb" {
			continue
		}
		if d, val := b.st.decide(t), v.vals[off]; d >= 0 && val >= 0 && d != val {
			return // this path is not taken
		}
	}
	unsure := f.foreign || !m.knownRoles()
	for off, t := range b.at {
		if t.s == "ldb" && b.st.decide(t) >= 0 && v.vals[off] < 0 {
			unsure = true // depends on something else about the field
		}
	}
	m.cases++
	// reasons
	type reason struct {
		val  int
		text string
	}
	var rs []reason
	if mask&aEmpty != 0 {
		if any.empty < 0 {
			unsure = true
		}
		rs = append(rs, reason{f.empty, "is empty and has omitempty"})
	}
	if mask&aNil != 0 && mask&aNilable != 0 {
		if any.word < 0 {
			unsure = true
		}
		rs = append(rs, reason{f.word, "is nil and has omitnil"})
	}
	if mask&aNil != 0 && mask&aJSON != 0 {
		if any.null < 0 {
			unsure = true
		}
		rs = append(rs, reason{f.null, "was written as null by its MarshalJSON method and has omitnil"})
	}
	if f.elem != nil {
		for _, r := range rs {
			if r.val == 1 {
				m.find("C15", b, unsure, "%s is written although it %s", maskText(mask), r.text)
			} else if r.val < 0 {
				m.find("C15", b, unsure, "%s is written without a test whether it %s", maskText(mask), r.text)
			}
		}
		return
	}
	if f.chain || f.denied == 1 {
		return
	}
	for _, r := range rs {
		if r.val == 1 {
			return
		}
	}
	prop := "C15"
	if f.listed {
		prop = "C20"
	}
	m.find(prop, b, unsure, "%s is skipped without a reason (lists: %s)", maskText(mask), map[bool]string{true: "looked up", false: "none"}[f.listed])
}

// ---------- tag options ----------

// omitRoles checks that the parts of the description stand for the options of
// the tag on every path.
func (c *Check) omitRoles(m *fieldModel) {
	byRole := map[string]int64{}
	for off, r := range m.roles {
		if r == "omitempty" || r == "omitnil" {
			byRole[r] = off
		}
	}
	for _, name := range []string{"omitempty", "omitnil"} {
		off, ok := byRole[name]
		if !ok {
			if len(m.membs) > 0 {
				c.undecided("the part of the description of a field that stands for %s is not known", name)
			}
			continue
		}
		c.sample("%s is kept at +%d of the description of a field", name, off)
		for _, a := range m.outputAdds() {
			v := m.addLeaf(a.FieldAdd, a.el, off)
			terms := append(factTerms(a.st), v)
			tag := tagText(terms)
			for _, has := range []bool{false, true} {
				d := m.optValue(a, v, name, has)
				if d == 2 || d == b2i(has) {
					continue
				}
				msg := fmt.Sprintf("the description of a field with the option %s does not say so", name)
				if !has {
					msg = fmt.Sprintf("the description of a field says that it has the option %s whether it has or not", name)
				}
				if d < 0 {
					if o := m.optValueOther(a, v, name, has); o != "" {
						d = b2i(!has)
						msg += o
					}
				}
				if d < 0 || tag == nil || foreignTerm(v) || len(optionTerms(a.st, v)[name]) == 0 && commaAt(a.st, tag) == nil {
					c.undecided("%s: %s: %s", trimRepo(a.rec.pos), msg, a.st.canon(v, 4))
				} else {
					c.violate(trimRepo(a.rec.pos), shortName(a.x.fn), msg, pathOf(a.st))
				}
			}
			// the list that is searched
			for _, t := range optionTerms(a.st, v)[name] {
				c.optionList(m, a, t, tag, name)
			}
		}
	}
}

// fieldTests checks that the test for emptiness of a field is the one made for
// its type.
func (c *Check) fieldTests(m *fieldModel) {
	if !m.knownRoles() {
		return
	}
	for off := range m.predOff {
		for _, s := range m.steps {
			sts := m.assumeField(s, aEmpty)
			for _, k := range []int{aEmpty | aNilable, aEmpty | aJSON, aEmpty | aNilable | aJSON, aEmpty | aNil, aEmpty | aNil | aNilable} {
				sts = append(sts, m.assumeField(s, k)...)
			}
			where := trimRepo(s.rec.pos)
			for _, st := range sts {
				v := s.set[off]
				if v == nil {
					c.violate(where, shortName(s.rec.fn), "no test for emptiness is made for a field with omitempty", pathOf(st))
					break
				}
				c.count("tests for emptiness given to fields", 1)
				v = st.res(v)
				n, ok := strings.CutPrefix(v.s, "built:")
				known := false
				for f := range c.L.r.emptyOf {
					known = known || f.Name() == n
				}
				if v.op != OApp || !ok || !known || len(v.a) != 1 || s.typ == nil {
					c.undecided("%s: the test for emptiness of a field is %s", where, st.canon(v, 3))
					break
				}
				if d := st.decide(st.eqTerms(v.a[0], s.typ)); d == 1 || st.res(v.a[0]) == st.res(s.typ) {
					continue
				}
				msg := "the test for emptiness of a field is that of another type: " + st.canon(v.a[0], 4)
				if foreignTerm(v) {
					c.undecided("%s: %s", where, msg)
				} else {
					c.violate(where, shortName(s.rec.fn), msg, pathOf(st))
				}
				break
			}
		}
	}
}

// optionList checks the list of options that is searched, and the search.
func (c *Check) optionList(m *fieldModel, a outAdd, t, tag *Term, name string) {
	L := c.L
	where := trimRepo(a.rec.pos)
	if n, ok := strings.CutPrefix(t.s, "built:"); ok {
		done := false
		for _, f := range L.e.allFuncs() {
			if f.Name() == n && len(f.Params) == 2 {
				c.searches(f)
				done = true
			}
		}
		if !done {
			c.undecided("%s: the search for an option of a tag is not known", where)
		}
	}
	l := optionList(t)
	n := a.st.res(l.a[1])
	if isInt(n, 0) {
		return // the maker of the list checked with noComma
	}
	b := a.st.res(l.a[0])
	var split *Term
	if b.op == OApp && b.s == "sptr" {
		split = b.a[0]
	}
	off := int64(0)
	if split == nil {
		if bb, o := ptrParts(b); bb.op == OApp && bb.s == "sptr" {
			if k, ok := a.st.constOf(o); ok {
				split, off = bb.a[0], k
			}
		}
	}
	if split == nil || split.op != OApp || split.s != "fn:strings.Split" || tag == nil {
		c.undecided("%s: the list of the options of a tag is %s", where, a.st.canon(b, 4))
		return
	}
	if sep := split.a[1]; sep.op != OStrC || sep.s != "," {
		c.violate(where, shortName(a.x.fn), fmt.Sprintf("the options of a tag are split at %s, not at commas", sep.str(3)), pathOf(a.st))
		return
	}
	sp, sn := strParts(split.a[0])
	tp, tn := strParts(tag)
	pb, po := ptrParts(sp)
	tb, to := ptrParts(tp)
	if pb != tb {
		c.undecided("%s: the options of a tag are split from %s", where, a.st.canon(split.a[0], 4))
		return
	}
	from := subT(po, to)
	end := addT(from, sn)
	comma := commaAt(a.st, tag)
	okFrom := off == 16 && isInt(from, 0) // all of the tag but the first part
	if comma != nil && off == 0 {
		okFrom = okFrom || a.st.eqInt(from, addT(comma, intC(1)))
	}
	bad := func(what string) {
		c.violate(where, shortName(a.x.fn), "the options of a tag are searched in "+what, pathOf(a.st))
	}
	if !okFrom {
		if d, ok := a.st.constOf(subT(from, addT(orZero(comma), intC(1)))); comma != nil && off == 0 && ok {
			// the comma itself in front is an empty option more only at -1
			bad(fmt.Sprintf("a part of the tag that begins %d bytes after the first comma", d+1))
		} else {
			c.undecided("%s: where the options of a tag begin is not known", where)
		}
		return
	}
	if !a.st.eqInt(end, tn) {
		if d, ok := a.st.constOf(subT(tn, end)); ok {
			bad(fmt.Sprintf("a part of the tag that ends %d bytes before its end", d))
		} else {
			c.undecided("%s: where the options of a tag end is not known", where)
		}
		return
	}
	c.count("searches of the option "+name, 1)
}

func orZero(t *Term) *Term {
	if t == nil {
		return tZero
	}
	return t
}

// searches checks that a function tells whether a text is in a list.
func (c *Check) searches(f *ssa.Function) {
	L := c.L
	key := "search " + f.String()
	if c.analysed[key] {
		return
	}
	c.analysed[key] = true
	x := L.function(f, L.r.encodeOpaque, false)
	if !c.use(x) {
		return
	}
	var list, text *Term
	for _, a := range x.args {
		switch a.op {
		case OSlice:
			list = a
		default:
			text = a
		}
	}
	where := L.where(f)
	if list == nil || text == nil {
		c.undecided("%s: what %s searches is not known", where, f.Name())
		return
	}
	tp, tl := strParts(text)
	lb, _ := ptrParts(list.a[0])
	// what is found is kept in a variable
	keeps := false
	for _, rec := range x.recs {
		keeps = keeps || len(rec.heads) > 1
		for _, h := range counters(rec) {
			ty, _ := h.x.(types.Type)
			keeps = keeps || ty != nil && !intType(h)
		}
	}
	if keeps {
		c.undecided("%s: %s keeps what it found in a variable", where, f.Name())
		return
	}
	// the element that is compared with the text on a path
	isElem := func(st *State, t *Term) *Term {
		if t.op != OStr || t.a[0].op != OApp || t.a[0].s != "ld8p" {
			return nil
		}
		b, o := t.a[0].a[0], t.a[0].a[1]
		if b != lb {
			return nil
		}
		i, r, ok := divLin(o, 16)
		if !ok || r != 0 {
			return nil
		}
		return i
	}
	isText := func(t *Term) bool { p, n := strParts(t); return p == tp && n == tl }
	eq := func(st *State) (idx *Term, val int) {
		for _, a := range sortedAtoms(st) {
			if a.op == OEq {
				for i := 0; i < 2; i++ {
					if isText(a.a[i]) {
						if k := isElem(st, a.a[1-i]); k != nil {
							return k, b2i(st.atoms[a])
						}
					}
				}
			}
		}
		return nil, -1
	}
	other := func(st *State) string { // another comparison with an element
		for _, a := range append(sortedAtoms(st), sortedRngs(st)...) {
			if a.op == OApp && containsTerm(a, lb) && !strings.HasPrefix(a.s, "ld") && a.s != "sptr" && a.s != "slen" && a.s != "scap" {
				if strings.HasPrefix(a.s, "fn:strings.") {
					return "!" + a.s[3:]
				}
				return a.str(3)
			}
		}
		return ""
	}
	for _, o := range x.outs {
		r := o.st.res(o.ret[0])
		k, v := eq(o.st)
		d := o.st.decide(r)
		switch {
		case d == 1 && v == 1:
		case d == 1:
			if w := other(o.st); w != "" && w[0] != '!' {
				c.undecided("%s: %s compares by %s", where, f.Name(), w)
			} else {
				c.violate(where, shortName(f), "an option of a tag is found although no element of the list is equal to it "+strings.TrimPrefix(w, "!"), pathOf(o.st))
			}
		case d == 0:
			_ = k
			end := o.st.rng(list.a[1]).subset(single(0))
			for _, rec := range x.recs {
				for _, h := range counters(rec) {
					end = end || o.st.le(list.a[1], h) || o.st.le(list.a[1], addT(h, intC(1))) && v == 0
				}
			}
			if !end {
				c.violate(where, shortName(f), "the search for an option of a tag ends before the end of the list", pathOf(o.st))
			}
		default:
			if r.op == OApp && strings.HasPrefix(r.s, "fn:slices.Contains") {
				continue
			}
			c.undecided("%s: %s returns %s", where, f.Name(), r.str(4))
		}
	}
	for _, rec := range x.recs {
		for _, t := range rec.trans {
			for h, nv := range t.bind {
				if h.op != OSym || nv == nil || !intType(h) {
					continue
				}
				if t.from < 0 {
					if k, ok := t.st.constOf(nv); ok && k != 0 && k != -1 {
						c.violate(trimRepo(rec.pos), shortName(f), fmt.Sprintf("the search for an option of a tag begins at element %d", k), "")
					}
					continue
				}
				if k, ok := t.st.constOf(subT(nv, h)); ok && k != 1 {
					c.violate(trimRepo(rec.pos), shortName(f), fmt.Sprintf("the search for an option of a tag moves by %d elements", k), "")
				}
			}
			if t.from >= 0 {
				if _, v := eq(t.st); v != 0 {
					w := other(t.st)
					if w == "" {
						c.violate(trimRepo(rec.pos), shortName(f), "the search for an option of a tag passes an element without a comparison", pathOf(t.st))
					} else if w[0] != '!' {
						c.undecided("%s: %s compares by %s", where, f.Name(), w)
					}
				}
			}
		}
	}
}

// counters are the variables of a loop that differ from one iteration to the
// next.
func counters(rec *LoopRec) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	for _, t := range rec.trans {
		for h := range t.bind {
			if h.op == OSym && !seen[h] {
				seen[h] = true
				r = append(r, h)
			}
		}
	}
	return r
}

func intType(t *Term) bool {
	if ty, ok := t.x.(types.Type); ok {
		b, ok := ty.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	return true
}

// ---------- the test for emptiness ----------

// emptyCond lists the ways to say that the value of a kind at p is empty.
func (L *Lab) emptyCond(st *State, t, p *Term, k reflect.Kind) []*Term {
	e := L.e
	ld := func(ty types.Type, off int64) *Term {
		q := p
		if off != 0 {
			q = mkPtr(p, intC(off))
		}
		return e.load(st, nil, nil, q, ty)
	}
	T := types.Typ
	zero := func(ts ...types.Type) []*Term {
		var r []*Term
		for _, ty := range ts {
			r = append(r, inT(ld(ty, 0), single(0)))
		}
		return r
	}
	switch k {
	case reflect.Bool:
		return []*Term{notT(ld(T[types.Bool], 0)), inT(ld(T[types.Uint8], 0), single(0))}
	case reflect.Int8, reflect.Uint8:
		return zero(T[types.Int8], T[types.Uint8])
	case reflect.Int16, reflect.Uint16:
		return zero(T[types.Int16], T[types.Uint16])
	case reflect.Int32, reflect.Uint32:
		return zero(T[types.Int32], T[types.Uint32])
	case reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64, reflect.Uintptr:
		return zero(T[types.Int64], T[types.Uint64])
	case reflect.Float32:
		return []*Term{feqZero(ld(T[types.Float32], 0))}
	case reflect.Float64:
		return []*Term{feqZero(ld(T[types.Float64], 0))}
	case reflect.String, reflect.Slice:
		return []*Term{inT(ld(T[types.Int], 8), single(0))}
	case reflect.Map:
		return []*Term{inT(mkApp("maplen", T[types.Int], ld(T[types.UnsafePointer], 0)), single(0))}
	case reflect.Ptr, reflect.Interface:
		return []*Term{st.eqTerms(ld(T[types.UnsafePointer], 0), tNil)}
	case reflect.Array:
		return []*Term{inT(mkApp("rt.Len", T[types.Int], t), single(0))}
	case reflect.Struct:
		return []*Term{tFalse}
	}
	return nil
}

// emptyTests checks the tests for emptiness that are made for each kind.
func (c *Check) emptyTests() {
	L := c.L
	n := 0
	for _, f := range L.e.allFuncs() {
		if !L.r.emptyOf[f] || f.Parent() != nil {
			continue
		}
		x := L.function(f, func(g *ssa.Function, args []*Term, fr *frame) bool { return fr != nil && L.r.emptyOf[g] }, false)
		if !c.use(x) {
			continue
		}
		var t *Term
		for i, p := range f.Params {
			if isReflectType(p.Type()) {
				t = x.args[i]
			}
		}
		for _, o := range x.outs {
			r := o.st.res(o.ret[0])
			for r.op == OApp && (r.s == "assert" || r.s == "smload") {
				r = r.a[0]
				if r.op != OApp {
					break
				}
			}
			if r.op == OApp && strings.HasPrefix(r.s, "built:") {
				if len(r.a) == 1 && t != nil && o.st.decide(o.st.eqTerms(r.a[0], t)) == 0 {
					c.violate(L.where(f), shortName(f), "the test for emptiness is that of another type", pathOf(o.st))
				}
				continue
			}
			y := L.predicate(x, Built{o.st, o.st.res(o.ret[0])})
			if y == nil || t == nil {
				continue // out of a cache
			}
			if !c.use(y) {
				continue
			}
			ks := o.st.rng(mkApp("rt.Kind", types.Typ[types.Uint], t))
			for k := reflect.Bool; k <= reflect.UnsafePointer; k++ {
				if ks.has(int64(k)) {
					n++
					c.emptyTest(x, o, t, y, k)
				}
			}
		}
	}
	c.count("tests for emptiness, by kind", n)
	if n == 0 {
		c.undecided("no tests for emptiness are made in a known way")
	}
}

func (c *Check) emptyTest(x *Enc, o Outcome, t *Term, y *Enc, k reflect.Kind) {
	L := c.L
	p := y.args[0]
	where := L.where(y.fn)
	for _, out := range y.outs {
		conds := L.emptyCond(out.st.clone(), t, p, k)
		if conds == nil {
			return // not a kind that is encoded
		}
		r := out.st.res(out.ret[0])
		good := false
		for _, cond := range conds {
			// what is known about the type when the test is made
			if k == reflect.Array || k == reflect.Struct {
				d := o.st.decide(cond)
				if d < 0 {
					for _, use := range y.uses {
						for s, v := range use.vals {
							if v == t {
								cond = newSubst(map[*Term]*Term{t: s}).do(cond)
							}
						}
					}
				} else {
					cond = boolT(d == 1)
				}
			}
			if agrees(out.st, cond, r) {
				good = true
				break
			}
		}
		c.count("paths of tests for emptiness", 1)
		if good {
			continue
		}
		msg := fmt.Sprintf("the test for an empty %s is %s", k, out.st.canon(r, 4))
		known := true
		for _, a := range append(append(sortedAtoms(out.st), sortedRngs(out.st)...), r) {
			known = known && !foreignTerm(a) && plainRead(a, p)
		}
		if known {
			c.violate(where, shortName(y.fn), msg, pathOf(out.st))
		} else {
			c.undecided("%s: %s", where, msg)
		}
	}
}

func feqZero(v *Term) *Term {
	z := mk(OFloat, "0", 0, nil, nil, nil)
	if z.id > v.id {
		return mkApp("feq", types.Typ[types.Bool], v, z)
	}
	return mkApp("feq", types.Typ[types.Bool], z, v)
}

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// agrees tells whether a result is equal to a condition.
func agrees(st *State, cond, r *Term) bool {
	for _, on := range []bool{false, true} {
		q := st.clone()
		if cond.op == OIn && cond.a[0].op == OApp && cond.a[0].s == "ld8s" && isInt(cond.a[0].a[1], 8) {
			q.assumeIn(cond.a[0], between(0, 1<<47)) // a length
		}
		if !q.assume(cond, on) {
			continue
		}
		if q.decide(q.res(r)) != b2i(on) {
			return false
		}
	}
	return true
}

// plainRead tells whether a term is made of reads of the value.
func plainRead(t, p *Term) bool {
	if t == p || t == tNil || len(t.a) == 0 {
		return true
	}
	if t.op == OApp && !strings.HasPrefix(t.s, "ld") && !strings.HasPrefix(t.s, "rt.") && t.s != "byte" && t.s != "feq" && t.s != "maplen" && t.s != "not" && t.s != "flt" && t.s != "fle" {
		return false
	}
	for _, a := range t.a {
		if !plainRead(a, p) {
			return false
		}
	}
	return true
}

// ---------- the lists ----------

// listOptions checks what AllowList and DenyList store.
func (c *Check) listOptions(m *fieldModel) {
	L := c.L
	for _, name := range []string{"AllowList", "DenyList"} {
		oe := L.options()[name]
		if oe == nil {
			c.undecided("the option %s is not known", name)
			continue
		}
		where := L.where(oe.fn)
		if oe.runs == nil || len(oe.alts) == 0 {
			c.undecided("%s: %s", where, oe.und)
			continue
		}
		c.saw(name)
		var list *Term
		for _, a := range oe.arg {
			if a.op == OSlice {
				list = a
			}
		}
		for _, alt := range oe.alts {
			if alt.und != "" || list == nil {
				c.undecided("%s: what %s does is not known %s", where, name, alt.und)
				continue
			}
			c.count("ways to set a list", 1)
			if len(alt.multi) == 0 {
				c.violate(where, name, "the option "+name+" does not set its list", pathOf(alt.st))
				continue
			}
			if len(alt.multi) > 1 {
				c.violate(where, name, "the option "+name+" changes other options", pathOf(alt.st))
				continue
			}
			v := alt.st.res(alt.val)
			if alt.st.decide(alt.st.eqTerms(v, tNil)) == 1 {
				c.violate(where, name, "the option "+name+" stores no list", pathOf(alt.st))
				continue
			}
			o := alt.st.obj(baseOf(v))
			if o == nil || o.kind != KMap {
				c.undecided("%s: %s stores %s", where, name, alt.st.canon(v, 3))
				continue
			}
			c.listKeys(oe.runs, where, name, list, alt)
		}
	}
}

// listKeys checks that the elements of a list are put in the set.
func (c *Check) listKeys(x *Enc, where, name string, list *Term, alt *OptEffect) {
	lb, _ := ptrParts(list.a[0])
	puts, loops := 0, 0
	key := func(st *State, k *Term) (idx *Term, what string) {
		if k.op != OStr || k.a[0].op != OApp || k.a[0].s != "ld8p" || k.a[0].a[0] != lb {
			return nil, k.str(4)
		}
		i, r, ok := divLin(k.a[0].a[1], 16)
		if !ok || r != 0 || k.a[1].op != OApp || k.a[1].a[0] != lb || !st.eqInt(k.a[1].a[1], addT(k.a[0].a[1], intC(8))) {
			return nil, k.str(4)
		}
		return i, ""
	}
	for _, ev := range x.events {
		if ev.kind == "map-update" {
			puts++
			if _, w := key(ev.st, ev.st.res(ev.args[len(ev.args)-2])); w != "" {
				k := ev.st.res(ev.args[len(ev.args)-2])
				if foreignTerm(k) || !plainKey(k) {
					c.undecided("%s: %s puts %s in its set", where, name, w)
				} else {
					c.violate(where, name, "the option "+name+" puts something else than an element of the list in its set: "+w, pathOf(ev.st))
				}
			}
		}
	}
	if puts == 0 {
		if alt.st.rng(list.a[1]).subset(single(0)) {
			return
		}
		c.undecided("%s: nothing is put in the set of %s in a known way", where, name)
		return
	}
	for _, rec := range x.recs {
		over := false
		for _, t := range rec.trans {
			if t.from < 0 {
				continue
			}
			var ctr *Term
			for h, nv := range t.bind {
				if h.op == OSym && nv != nil {
					if k, ok := t.st.constOf(subT(nv, h)); ok && k == 1 {
						ctr = h
					} else if ok && k != 0 {
						c.violate(trimRepo(rec.pos), name, fmt.Sprintf("the option %s takes every %dth element of the list", name, k), "")
					}
				}
			}
			if ctr == nil {
				continue
			}
			over = true
			// what this iteration puts
			n := 0
			for _, ev := range x.events {
				if ev.kind == "map-update" {
					if i, w := key(ev.st, ev.st.res(ev.args[len(ev.args)-2])); w == "" && containsTerm(i, ctr) && sameFacts(ev.st, t.st) {
						n++
					}
				}
			}
			if n == 0 {
				c.violate(trimRepo(rec.pos), name, "the option "+name+" leaves out an element of the list", pathOf(t.st))
			}
		}
		if !over {
			continue
		}
		loops++
		for _, t := range rec.trans {
			if t.from >= 0 {
				continue
			}
			for h, nv := range t.bind {
				if h.op == OSym && nv != nil {
					if k, ok := t.st.constOf(nv); ok && k > 0 {
						c.violate(trimRepo(rec.pos), name, fmt.Sprintf("the option %s begins at element %d of the list", name, k), "")
					}
				}
			}
		}
		end := false
		for _, h := range counters(rec) {
			end = end || alt.st.le(list.a[1], h) || alt.st.le(list.a[1], addT(h, intC(1)))
		}
		if !end && !alt.st.rng(list.a[1]).subset(single(0)) {
			c.violate(trimRepo(rec.pos), name, "the option "+name+" ends before the end of the list", pathOf(alt.st))
		}
	}
	if loops == 0 {
		c.undecided("%s: the loop over the list of %s is not known", where, name)
	}
}

// sameFacts tells whether an event could be on the path of a transition: what
// the event knows must not contradict it.
func sameFacts(ev, t *State) bool {
	for a, v := range ev.atoms {
		if d := t.decide(a); d >= 0 && d != b2i(v) {
			return false
		}
	}
	for r, s := range ev.rngs {
		if q := t.rng(r); q.and(s).empty() {
			return false
		}
	}
	return true
}

func plainKey(t *Term) bool {
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == OApp && strings.HasPrefix(t.s, "built:") {
			ok = false
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	walk(t)
	return ok
}

// listReads looks for uses of the lists outside of the encoders of structs.
func (c *Check) listReads(m *fieldModel) {
	L := c.L
	own := map[*Enc]bool{}
	for _, x := range m.encs {
		own[x] = true
	}
	n := 0
	for _, x := range L.runAll() {
		opts := x.argT["opts"]
		if own[x] || opts == nil || opts.op != OStruct {
			continue
		}
		n++
		ls := map[*Term]string{}
		for _, name := range []string{"AllowList", "DenyList"} {
			if t := L.optField(opts, name); t != nil {
				ls[t] = name
			}
		}
		look := func(st *State, where string) {
			for _, a := range append(sortedAtoms(st), sortedRngs(st)...) {
				for t, name := range ls {
					if containsTerm(a, t) {
						c.violate(where, shortName(x.fn), "an encoder that is not one of structs looks at the list of "+name, pathOf(st))
						return
					}
				}
			}
		}
		for _, o := range x.outs {
			look(o.st, L.where(x.fn))
		}
		for _, rec := range x.recs {
			for _, t := range rec.trans {
				look(t.st, trimRepo(rec.pos))
			}
		}
	}
	c.count("other encoders", n)
}

// keyNames checks that the name that is looked up is the one that is written.
func (c *Check) keyNames(m *fieldModel) {
	if len(m.nameOff) == 0 {
		if len(m.membs) > 0 {
			c.undecided("no part of the description of a field is looked up in the lists")
		}
		return
	}
	if len(m.nameOff) > 1 {
		c.undecided("several parts of the description of a field are looked up in the lists")
		return
	}
	var off int64
	for o := range m.nameOff {
		off = o
	}
	L := c.L
	ks := m.keyParts()
	for _, s := range m.steps {
		for o := range s.set {
			if o == off || o == off+8 || ks[o] || ks[o-8] {
				c.undecided("%s: the name or the key of a field is changed after its description was made", trimRepo(s.rec.pos))
				return
			}
		}
	}
	n := 0
	for _, a := range m.outputAdds() {
		fs := L.e.flatten(L.r.fieldT, a.el)
		var np, nl *Term
		vals := map[int64]*Term{}
		for i, l := range m.ls {
			if i < len(fs) {
				vals[l.off] = a.st.res(fs[i])
			}
		}
		np, nl = vals[off], vals[off+8]
		for k := range ks {
			if vals[k] == nil || vals[k+8] == nil || vals[k+16] == nil {
				continue
			}
			ps := L.e.content(a.st, mk(OSlice, "", 0, nil, []*Term{vals[k], vals[k+8], vals[k+16]}, nil))
			ps = a.st.norm(ps)
			if len(ps) != 3 || ps[1].s != "raw" {
				continue // escaped
			}
			n++
			from := mkPtr(ps[1].a[0], ps[1].a[1])
			if b, o := ptrParts(ps[1].a[0]); ps[1].a[1] != nil {
				from = mkPtr(b, addT(o, ps[1].a[1]))
			}
			ln := subT(ps[1].a[2], ps[1].a[1])
			d := a.st.decide(a.st.eqTerms(from, np))
			if d == 1 && a.st.eqInt(ln, nl) {
				continue
			}
			msg := fmt.Sprintf("the name that is looked up in the lists is %s of length %s, the one that is written %s of length %s", a.st.canon(np, 3), a.st.canon(nl, 3), a.st.canon(from, 3), a.st.canon(ln, 3))
			if foreignTerm(np) || foreignTerm(from) || foreignTerm(nl) {
				c.undecided("%s: %s", trimRepo(a.rec.pos), msg)
			} else {
				c.violate(trimRepo(a.rec.pos), shortName(a.x.fn), msg, pathOf(a.st))
			}
		}
	}
	c.count("keys compared with the name", n)
	if n == 0 {
		c.undecided("the text of the keys is not known")
	}
}
