package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// How the structs that are embedded are visited, and which members win.

// names checks that the names that are taken from tags are the valid ones.
func (s *selection) names() {
	L := s.m.L
	done := map[*ssa.Function]bool{}
	tested := false
	for _, sc := range s.scans {
		f := sc.terms()
		for _, p := range s.namePreds(sc, f) {
			tested = true
			if done[p.f] {
				continue
			}
			done[p.f] = true
			rp := p.rp
			where, fn := L.where(p.f), shortName(p.f)
			if rp.why != "" {
				s.add(true, where, fn, "", "the test of names: %s", rp.why)
				continue
			}
			if rp.early != "" {
				s.add(false, where, fn, "", "a name is found valid %s", rp.early)
			}
			if rp.empty == 1 {
				s.add(false, where, fn, "", "the empty name is found valid")
			}
			for _, acc := range rp.accept {
				for c := rune(0); c <= unicode.MaxRune; c++ {
					if c >= 0xd800 && c < 0xe000 {
						continue
					}
					if acc[c] == stdNameRune(c) {
						continue
					}
					if acc[c] {
						s.add(false, where, fn, "", "a name with %q (%U) is found valid", c, c)
					} else {
						s.add(false, where, fn, "", "a name with %q (%U) is found invalid", c, c)
					}
					break
				}
			}
		}
	}
	if !tested && len(s.scans) > 0 {
		sc := s.scans[0]
		s.at(sc, true, sc.st, "no test of the names in tags was found")
	}
}

// isKey finds the key of a record under which a term is kept.
func (rec *LoopRec) keyOf(t *Term) *Term {
	if _, ok := rec.init[t]; ok {
		return t
	}
	for k := range rec.init {
		if k.op == OSlice && (k == t || k.a[0] == t) {
			return k
		}
	}
	return nil
}

// counterIn is the counter of a record in a number.
func (rec *LoopRec) counterIn(t *Term) *Term {
	var r *Term
	for k := range rec.init {
		if k.op == OSym && containsTerm(t, k) {
			if r != nil {
				return nil
			}
			r = k
		}
	}
	return r
}

// walks checks that a number goes from first in steps of one.
func (s *selection) counts(rec *LoopRec, idx *Term, first int64, what string, fn *ssa.Function) (ctr *Term) {
	where, name := trimRepo(rec.pos), shortName(rec.fn)
	ctr = rec.counterIn(idx)
	if ctr == nil {
		s.add(true, where, name, "", "the counter of %s", what)
		return nil
	}
	at := newSubst(map[*Term]*Term{ctr: rec.init[ctr]}).do(idx)
	if c, ok := rec.entry.constOf(at); !ok {
		s.add(true, where, name, "", "where the loop over %s starts", what)
		return ctr
	} else if c != first {
		s.add(false, where, name, "", "the loop over %s starts at number %d", what, c)
	}
	for _, t := range rec.trans {
		if t.from < 0 {
			continue
		}
		nx := newSubst(map[*Term]*Term{ctr: t.st.res(t.bind[ctr])}).do(idx)
		if d, ok := t.st.constOf(subT(nx, idx)); !ok {
			s.add(true, where, name, pathOf(t.st), "the step of the loop over %s", what)
		} else if d != 1 {
			s.add(false, where, name, pathOf(t.st), "the loop over %s goes on by %d", what, d)
		}
	}
	return ctr
}

// ends checks that a loop ends with idx at n only.
func (s *selection) ends(rec *LoopRec, idx, n *Term, what string) {
	where, name := trimRepo(rec.pos), shortName(rec.fn)
	for _, st := range rec.leave {
		if st.le(n, idx) {
			continue
		}
		q := st.clone()
		if !q.assumeIn(subT(n, idx), between(1, INF)) {
			continue
		}
		s.add(s.strange(st, rec), where, name, pathOf(st), "the loop over %s can end before the last of them", what)
	}
}

// strange: is the loop left because of something that says nothing about its
// counter?
func (s *selection) strange(st *State, rec *LoopRec) bool {
	return false
}

// levelsOf is what is known of the visit of the embedded structs.
type levels struct {
	walk, level *LoopRec
	sc          *scan
	list        *Term // the list that is walked
	outL, queL  *Term // the lists it extends, at the head of the walk
}

func recWith(x *Enc, t *Term) *LoopRec {
	for _, r := range x.recs {
		if r.keyOf(t) != nil {
			return r
		}
	}
	return nil
}

func (s *selection) checkLevels() {
	done := map[*LoopRec]bool{}
	for _, sc := range s.scans {
		if sc.ref.base == nil {
			continue
		}
		if !done[sc.rec] {
			done[sc.rec] = true
			s.counts(sc.rec, sc.ctr, 0, "the fields of a type", sc.rec.fn)
			s.ends(sc.rec, sc.ctr, s.m.L.rt("rt.NumField", sc.owner), "the fields of a type")
		}
		if len(sc.outs) == 0 && len(sc.queue) == 0 {
			continue
		}
		lv := s.levelOf(sc)
		if lv == nil {
			continue
		}
		if !done[lv.walk] {
			done[lv.walk] = true
			s.checkWalk(lv)
		}
		if !done[lv.level] {
			done[lv.level] = true
			s.checkLevel(lv)
		}
		s.checkCounts(lv, sc)
	}
}

func (s *selection) levelOf(sc *scan) *levels {
	lv := &levels{sc: sc}
	for _, r := range sc.x.recs {
		if r != sc.rec && r.counterIn(sc.ref.idx) != nil {
			lv.walk = r
		}
	}
	lv.level = recWith(sc.x, sc.ref.base)
	if lv.walk == nil || lv.level == nil || lv.walk == lv.level {
		s.at(sc, true, sc.st, "the visit of the embedded structs is not understood")
		return nil
	}
	lv.list = lv.level.keyOf(sc.ref.base)
	return lv
}

// chain follows a list of the scan to the walk.
func (s *selection) upTo(sc *scan, l *Term, to *LoopRec) *Term {
	if l == nil {
		return nil
	}
	if k := to.keyOf(l); k != nil {
		return k
	}
	v := sc.rec.init[l]
	if v == nil {
		return nil
	}
	return to.keyOf(v)
}

// checkWalk looks at the loop over the types of a depth.
func (s *selection) checkWalk(lv *levels) {
	sc, w := lv.sc, lv.walk
	where, name := trimRepo(w.pos), shortName(w.fn)
	s.counts(w, sc.ref.idx, 0, "the types of a depth", w.fn)
	s.ends(w, sc.ref.idx, mkApp("slen", tInt, sc.ref.base.a[0]), "the types of a depth")
	for _, t := range w.trans {
		if t.from < 0 {
			continue
		}
		scanned, kept, lost := false, true, false
		for k := range w.init {
			if k.op != OSlice || !s.fieldList(k) {
				continue
			}
			v := t.st.res(t.bind[k])
			if v == k {
				continue
			}
			kept = false
			if by := s.scanOf(sc.x, v); by != nil {
				// the list at the end of the scan of the type, which began as
				// the list was
				if by.init[v] != k {
					s.add(true, where, name, pathOf(t.st), "what a scan begins with")
				}
				scanned = true
				continue
			}
			lost = true
		}
		if lost {
			s.add(true, where, name, pathOf(t.st), "what becomes of the lists when a type was looked at")
			continue
		}
		has, get, obj := s.seenFacts(t.st, sc)
		switch {
		case kept && !scanned:
			// left out: seen at an outer depth
			if has == nil {
				s.add(true, where, name, pathOf(t.st), "why a type is not looked at")
				continue
			}
			if t.st.decide(has) != 1 || get != nil && t.st.decide(get) != 1 {
				s.add(false, where, name, pathOf(t.st), "the fields of an embedded type are left out though it was not met before")
			}
		case scanned:
			if has == nil || obj == nil {
				s.add(has != nil, where, name, pathOf(t.st), "a type is looked at without a test whether it was met at an outer depth: a type that embeds itself is visited forever")
				continue
			}
			if t.st.decide(has) == 1 && (get == nil || t.st.decide(get) == 1) {
				s.add(false, where, name, pathOf(t.st), "a type that was met at an outer depth is looked at again")
			}
			mark := false
			for _, en := range obj.ents {
				if sameType(t.st, en.a[0], sc.owner) && (!isBoolElem(obj) || t.st.decide(en.a[1]) == 1) {
					mark = true
				}
			}
			if !mark {
				s.add(false, where, name, pathOf(t.st), "a type that is looked at is not remembered: at a deeper depth it is looked at again")
			}
			if lv.level.entry.heap[obj.id] == nil {
				s.add(false, where, name, pathOf(t.st), "the types that were met are forgotten at the next depth")
			}
		}
	}
}

// scanOf is the loop over the fields of a type that extends a list.
func (s *selection) scanOf(x *Enc, l *Term) *LoopRec {
	for _, sc := range s.scans {
		if sc.x == x {
			if _, ok := sc.rec.init[l]; ok {
				return sc.rec
			}
		}
	}
	return nil
}

func isBoolElem(o *Obj) bool {
	m, ok := o.typ.Underlying().(*types.Map)
	return ok && isBoolT(m.Elem())
}

// seenFacts finds the test whether the type was met before.
func (s *selection) seenFacts(st *State, sc *scan) (has, get *Term, o *Obj) {
	walkTerms(factTerms(st), func(t *Term) {
		if t.op != OApp || len(t.a) != 2 || !sameType(st, t.a[1], sc.owner) {
			return
		}
		et := mapElems[t.a[0]]
		if et == nil || isIntT(et) {
			return
		}
		switch t.s {
		case "maphas":
			has = t
			v := t.a[0]
			if v.op == OTuple {
				v = v.a[0]
			}
			if x := st.obj(baseOf(v)); x != nil && x.kind == KMap {
				o = x
			}
		case "mapget":
			get = t
		}
	})
	return
}

func (s *selection) fieldList(k *Term) bool {
	p := k.a[0]
	if p.op != OApp || p.s != "sptr" || len(p.a) != 1 {
		return false
	}
	ty, _ := p.a[0].x.(types.Type)
	if ty == nil {
		return false
	}
	sl, ok := ty.Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem(), s.m.L.r.fieldT)
}

// checkLevel looks at the loop over the depths.
func (s *selection) checkLevel(lv *levels) {
	sc, w, l := lv.sc, lv.walk, lv.level
	where, name := trimRepo(l.pos), shortName(l.fn)
	var queW, outW *Term
	for _, c := range s.scans {
		if c.rec != sc.rec {
			continue
		}
		if c.queL != nil {
			queW = s.upTo(c, c.queL, w)
		}
		if c.outL != nil {
			outW = s.upTo(c, c.outL, w)
		}
	}
	if queW == nil || outW == nil {
		s.add(true, where, name, "", "the lists of the members and of the types to look at")
		return
	}
	// what is walked next is what was queued
	for _, t := range l.trans {
		if t.from < 0 {
			continue
		}
		if v := t.st.res(t.bind[lv.list]); v != queW {
			if v == lv.list {
				s.add(false, where, name, pathOf(t.st), "the types that were found at a depth are not those that are looked at next")
			} else {
				s.add(true, where, name, pathOf(t.st), "what is looked at after a depth")
			}
		}
		lo := l.keyOf(w.init[outW])
		if lo == nil {
			s.add(true, where, name, pathOf(t.st), "the list of the members at the start of a depth")
		} else if v := t.st.res(t.bind[lo]); v != outW {
			if v == lo {
				s.add(false, where, name, pathOf(t.st), "the members found at a depth are lost")
			} else {
				s.add(true, where, name, pathOf(t.st), "the list of the members after a depth")
			}
		}
	}
	// the queue of a depth starts empty and is not the list that is walked
	qi := w.init[queW]
	if _, n, _ := sliceParts(qi); !isInt(n, 0) {
		s.add(true, where, name, "", "the list of the types to look at next does not start empty")
	}
	if b, _ := ptrParts(qi.a[0]); b != tNil && (b == lv.list.a[0] || qi.a[0] == lv.list.a[0]) {
		s.add(false, where, name, "", "the types to look at next overwrite those that are looked at now")
	}
	// the first depth
	if lo := l.keyOf(w.init[outW]); lo != nil {
		if _, n, _ := sliceParts(l.init[lo]); !isInt(n, 0) {
			s.add(true, where, name, "", "the list of the members does not start empty")
		}
	}
	s.firstDepth(lv)
	for _, st := range l.leave {
		n := lv.list.a[1]
		if st.rng(n).subset(single(0)) {
			continue
		}
		s.add(false, where, name, pathOf(st), "the visit can end with types that were not looked at")
	}
}

// firstDepth checks that the visit starts with the type itself.
func (s *selection) firstDepth(lv *levels) {
	e, l := s.m.L.e, lv.level
	where, name := trimRepo(l.pos), shortName(l.fn)
	first := l.init[lv.list]
	if first.op != OSlice || !isInt(l.entry.res(first.a[1]), 1) {
		s.add(true, where, name, "", "the list the visit starts with")
		return
	}
	b, o := ptrParts(first.a[0])
	part := func(off int64) *Term {
		for _, l2 := range s.m.ls {
			if l2.off == off {
				return l.entry.res(e.loadLeaf(l.entry, nil, nil, b, addT(o, intC(off)), l2))
			}
		}
		return tNil
	}
	T := mk(OIface, "", 0, nil, []*Term{part(s.typO), part(s.typO + 8)}, nil)
	known := false
	for _, a := range lv.sc.x.args {
		known = known || sameType(l.entry, T, a)
	}
	if !known {
		s.add(true, where, name, "", "the type the visit starts with")
	}
	for _, off := range []int64{s.idxO, s.seqO} {
		if n := part(off + 8); !isInt(n, 0) {
			s.add(true, where, name, "", "where the visit starts")
		}
	}
}

// checkCounts looks at the counts of the types that are embedded several times.
func (s *selection) checkCounts(lv *levels, sc *scan) {
	l := lv.level
	where, name := trimRepo(sc.rec.pos), shortName(sc.rec.fn)
	var next *Term
	var upd *Obj
	for _, c := range s.scans {
		if c.rec == sc.rec {
			if u := s.counted(c, c.st, nil); u != nil {
				upd = u.o
			}
		}
	}
	if upd == nil {
		s.add(true, where, name, "", "where the types that are embedded are counted")
		return
	}
	if l.entry.heap[upd.id] != nil {
		s.add(false, trimRepo(l.pos), shortName(l.fn), "", "the types that are embedded are counted together for all depths")
		return
	}
	// the counts that are read
	walkTerms(factTerms(sc.st), func(t *Term) {
		if t.op != OApp || len(t.a) != 2 || t.s != "maphas" && t.s != "mapget" {
			return
		}
		if et := mapElems[t.a[0]]; et == nil || !isIntT(et) || !sameType(sc.st, t.a[1], sc.owner) {
			return
		}
		v := t.a[0]
		if v.op == OTuple {
			v = v.a[0]
		}
		next = v
		if o := sc.st.obj(baseOf(v)); o != nil {
			s.add(o != upd && o.id != upd.id, where, name, pathOf(sc.st), "whether a type is embedded several times is looked up in the counts of the next depth")
			return
		}
		k := l.keyOf(v)
		if k == nil {
			s.add(true, where, name, pathOf(sc.st), "which counts are looked up")
			return
		}
		for _, tr := range l.trans {
			if tr.from < 0 {
				continue
			}
			w := tr.st.res(tr.bind[k])
			if o := tr.st.obj(baseOf(w)); o == nil || o.id != upd.id {
				s.add(w != k, trimRepo(l.pos), shortName(l.fn), pathOf(tr.st), "the counts of a depth are not those that are looked up at the next one")
			}
		}
	})
	_ = next
}

// ---------- the order, and which members win ----------

// order looks at the sorting of the members.
type sortUse struct {
	x  *Enc
	at int
	ev *Event
}

func (s *selection) checkOrder() {
	L := s.m.L
	for _, x := range L.runAll() {
		if !L.r.fieldsOf[x.fn] {
			continue
		}
		s.orderOf(x)
	}
}

func (s *selection) orderOf(x *Enc) {
	var fs []*levels
	seen := map[*LoopRec]bool{}
	for _, sc := range s.scans {
		if sc.x == x && !seen[sc.rec] && sc.ref.base != nil && (sc.outL != nil || sc.queL != nil) {
			seen[sc.rec] = true
			if lv := s.levelOf(sc); lv != nil {
				fs = append(fs, lv)
			}
		}
	}
	if len(fs) == 0 {
		return
	}
	lv := fs[0]
	// the list of all the candidates
	var all *Term
	for _, c := range s.scans {
		if c.x == x && c.outL != nil {
			if w := s.upTo(c, c.outL, lv.walk); w != nil {
				if k := lv.level.keyOf(lv.walk.init[w]); k != nil {
					all = k
				}
			}
		}
	}
	where, name := trimRepo(lv.level.pos), shortName(lv.level.fn)
	if all == nil {
		s.add(true, where, name, "", "the list of the candidates")
		return
	}
	var sorts []sortUse
	seenS := map[string]bool{}
	for i, ev := range x.events {
		if ev.kind == "sort" {
			k := s.m.L.at(ev.in) + ev.args[1].String()
			if !seenS[k] {
				seenS[k] = true
				sorts = append(sorts, sortUse{x, i, ev})
			}
		}
	}
	// the loops that keep the members that win
	var wins []winner
	for _, rec := range x.recs {
		var w *winner
		for _, t := range rec.trans {
			if t.from < 0 {
				continue
			}
			for k := range rec.init {
				if k.op != OSlice || !s.fieldList(k) || t.bind[k] == nil || t.st.res(t.bind[k]) == k {
					continue
				}
				for _, p := range s.m.L.e.content(t.st, t.st.res(t.bind[k])) {
					if p.s == "elt" && containsTerm(p, all.a[0]) {
						w = &winner{rec, k}
					}
				}
			}
		}
		if w != nil {
			wins = append(wins, *w)
		}
	}
	if len(wins) == 0 {
		s.add(true, where, name, "", "which candidates with the same name are kept is not understood")
		return
	}
	keptBy := map[*Term]*winner{}
	for i := range wins {
		keptBy[wins[i].kept] = &wins[i]
	}
	var firsts, lasts []*sortUse
	for i := range sorts {
		sl := sorts[i].ev.args[1]
		switch {
		case sl == all:
			firsts = append(firsts, &sorts[i])
		case keptBy[sl] != nil:
			lasts = append(lasts, &sorts[i])
		default:
			s.add(true, s.m.L.at(sorts[i].ev.in), name, "", "what is sorted")
			return
		}
	}
	done := map[string]bool{}
	for _, u := range firsts {
		if k := s.m.L.at(u.ev.in); !done[k] {
			done[k] = true
			s.primary(u, wins, all)
		}
	}
	for _, u := range lasts {
		if k := s.m.L.at(u.ev.in); !done[k] {
			done[k] = true
			s.final(u, u.ev.args[1])
		}
	}
	for _, w := range wins {
		ww, wn := trimRepo(w.rec.pos), shortName(w.rec.fn)
		sorted := false
		for _, u := range firsts {
			_, after := u.ev.st.rngs[w.kept.a[1]]
			sorted = sorted || !after && sameFacts(u.ev.st, w.rec.entry)
		}
		if !sorted {
			s.add(false, ww, wn, pathOf(w.rec.entry), "the candidates are not sorted before those that win are kept")
		}
		if s.tagO >= 0 {
			s.winners(x, w.rec, w.kept, all)
		}
		for _, o := range x.outs {
			if len(o.ret) != 1 || o.st.res(o.ret[0]) != w.kept {
				continue
			}
			sorted := false
			for _, u := range lasts {
				sorted = sorted || u.ev.args[1] == w.kept && sameFacts(u.ev.st, o.st)
			}
			if !sorted {
				s.add(false, ww, wn, pathOf(o.st), "the members are not put in the order of their fields")
			}
		}
	}
	ww, wn := trimRepo(wins[0].rec.pos), shortName(wins[0].rec.fn)
	for _, o := range x.outs {
		if len(o.ret) != 1 {
			continue
		}
		r := o.st.res(o.ret[0])
		switch {
		case keptBy[r] != nil:
		case r == all:
			s.add(false, ww, wn, pathOf(o.st), "all the candidates are returned, not those that are kept")
		case r.op == OSlice && s.heldBy(x, r.a[0]):
			s.add(true, ww, wn, pathOf(o.st), "the list that is returned")
		}
	}
}

// winner is a loop that keeps the members that win, in a list.
type winner struct {
	rec  *LoopRec
	kept *Term
}

func (s *selection) heldBy(x *Enc, t *Term) bool {
	for _, r := range x.recs {
		if r.keyOf(t) != nil {
			return true
		}
	}
	return false
}

// free: is a term made of the parts of the candidates only, which can be
// anything?
func (s *selection) free(t *Term) bool {
	ok := true
	walkTerms([]*Term{t}, func(a *Term) {
		if a.op == OApp && !strings.HasPrefix(a.s, "ld") && a.s != "sptr" && a.s != "slen" && a.s != "booleq" && a.s != "strlt" {
			ok = false
		}
	})
	return ok
}

// part of an element of a list.
func (s *selection) partAt(st *State, base, idx *Term, off int64) *Term {
	for _, l := range s.m.ls {
		if l.off == off {
			return st.res(s.m.L.e.loadLeaf(st, nil, nil, base, addT(mulC(idx, s.m.esz), intC(off)), l))
		}
	}
	return nil
}

func (s *selection) nameAt(st *State, base, idx *Term) *Term {
	return mkStr(s.partAt(st, base, idx, s.nameO), s.partAt(st, base, idx, s.nameO+8))
}

// winners looks at the loop that keeps one of the candidates with a name.
func (s *selection) winners(x *Enc, rec *LoopRec, kept, all *Term) {
	where, name := trimRepo(rec.pos), shortName(rec.fn)
	base := all.a[0]
	if _, n, _ := sliceParts(rec.init[kept]); !isInt(n, 0) {
		s.add(true, where, name, "", "the list of the members does not start empty")
	}
	// the counter: the number of the first candidate with the name
	var i *Term
	for k := range rec.init {
		if k.op != OSym || !isIntT(appTypeOr(k)) {
			continue
		}
		for _, t := range rec.trans {
			if t.from >= 0 && t.st.res(t.bind[k]) != k {
				if i != nil && i != k {
					s.add(true, where, name, "", "the loop over the candidates has several counters")
					return
				}
				i = k
			}
		}
	}
	if i == nil {
		s.add(true, where, name, "", "the loop over the candidates has no counter")
		return
	}
	if c, ok := rec.entry.constOf(rec.init[i]); !ok || c != 0 {
		s.add(!ok, where, name, "", "the loop over the candidates does not start with the first")
	}
	s.ends(rec, i, all.a[1], "the candidates")
	inner := s.groups(x, rec, base, i, all.a[1])
	for _, t := range rec.trans {
		if t.from < 0 {
			continue
		}
		st := t.st
		ni := st.res(t.bind[i])
		var els []*Term
		foreign := false
		first := true
		if v := st.res(t.bind[kept]); v != kept {
			for _, p := range s.m.L.e.content(st, v) {
				switch {
				case p.s == "elt":
					els = append(els, p.a[0])
				case p.s == "raw" && first && p.a[0] == kept.a[0] && isInt(p.a[1], 0) && st.eqInt(p.a[2], kept.a[1]):
				default:
					foreign = true
				}
				first = false
			}
		}
		if foreign {
			s.add(true, where, name, pathOf(st), "what is kept of the candidates with a name")
			continue
		}
		if !inner {
			s.add(true, where, name, pathOf(st), "how the candidates with a name are found")
			continue
		}
		// the group is maximal
		q := st.clone()
		n0, n1 := s.nameAt(q, base, i), s.nameAt(q, base, ni)
		if q.assumeIn(subT(all.a[1], ni), between(1, INF)) && q.assume(q.eqTerms(n0, n1), true) {
			s.add(false, where, name, pathOf(st), "a candidate with the same name is left for the next round: two members of the same name can be kept")
		}
		d0, d1 := s.partAt(st, base, i, s.idxO+8), s.partAt(st, base, addT(i, intC(1)), s.idxO+8)
		t0, t1 := s.partAt(st, base, i, s.tagO), s.partAt(st, base, addT(i, intC(1)), s.tagO)
		type dcase struct {
			n         Set
			deep, tag int // 1 same, 0 different, -1 whatever
			want      int
			what      string
		}
		for _, c := range []dcase{
			{single(1), -1, -1, 1, "the only candidate with its name"},
			{between(2, INF), 1, 1, 0, "one of several candidates with the same name at the same depth"},
			{between(2, INF), 0, -1, 1, "the candidate that is less deep than the others with its name"},
			{between(2, INF), 1, 0, 1, "the only candidate at its depth whose name is from its tag"},
		} {
			q := st.clone()
			if !q.assumeIn(subT(ni, i), c.n) {
				continue
			}
			if c.deep == 1 && !q.assumeIn(subT(d1, d0), single(0)) || c.deep == 0 && !q.assumeIn(subT(d1, d0), between(1, INF)) {
				continue
			}
			if c.tag == 1 && !q.assume(boolEq(q, t0, t1), true) || c.tag == 0 && !(q.assume(t0, true) && q.assume(t1, false)) {
				continue
			}
			if len(els) != c.want {
				s.add(false, where, name, pathOf(q), "%s is %s", c.what, []string{"left out", "kept", "kept several times"}[min(len(els), 2)])
				continue
			}
			if c.want == 1 {
				s.keeps(q, rec, base, i, els[0], c.what)
			}
		}
	}
}

func appTypeOr(t *Term) types.Type {
	if ty := appType(t); ty != nil {
		return ty
	}
	return types.Typ[types.Invalid]
}

// keeps checks that what is kept is the first candidate, completely.
func (s *selection) keeps(st *State, rec *LoopRec, base, i, el *Term, what string) {
	where, name := trimRepo(rec.pos), shortName(rec.fn)
	fs := s.m.L.e.flatten(s.m.L.r.fieldT, el)
	for k, l := range s.m.ls {
		if k >= len(fs) {
			break
		}
		v := st.res(fs[k])
		w := s.partAt(st, base, i, l.off)
		if v == w || st.decide(st.eqTerms(v, w)) == 1 {
			continue
		}
		if b, idx, off, ok := s.m.leafOf(v); ok && b == base && off == l.off {
			if st.lt(i, idx) {
				s.add(false, where, name, pathOf(st), "%s is not kept, but another one is", what)
				return
			}
		}
		s.add(true, where, name, pathOf(st), "what is kept of %s", what)
		return
	}
}

// groups looks at the loop that finds the end of the candidates with a name.
func (s *selection) groups(x *Enc, outer *LoopRec, base, i, n *Term) bool {
	found := false
	for _, rec := range x.recs {
		if rec == outer {
			continue
		}
		uses := false
		for _, t := range outer.trans {
			if t.from < 0 {
				continue
			}
			for k := range rec.init {
				if k.op == OSym && t.bind[i] != nil && containsTerm(t.st.res(t.bind[i]), k) {
					uses = true
				}
			}
		}
		if !uses {
			continue
		}
		found = true
		where, name := trimRepo(rec.pos), shortName(rec.fn)
		// the number of the candidate that is looked at
		var at *Term
		for _, t := range outer.trans {
			if t.from >= 0 {
				at = t.st.res(t.bind[i])
			}
		}
		ctr := rec.counterIn(at)
		if ctr == nil {
			s.add(true, where, name, "", "the counter of the candidates with a name")
			continue
		}
		if d, ok := rec.entry.constOf(subT(newSubst(map[*Term]*Term{ctr: rec.init[ctr]}).do(at), i)); !ok {
			s.add(true, where, name, "", "where the search for the candidates with a name starts")
		} else if d > 1 || d < 0 {
			s.add(false, where, name, "", "the search for the candidates with a name starts %d after the first", d)
		}
		for _, t := range rec.trans {
			if t.from < 0 {
				continue
			}
			st := t.st
			nx := newSubst(map[*Term]*Term{ctr: st.res(t.bind[ctr])}).do(at)
			if d, ok := st.constOf(subT(nx, at)); !ok || d != 1 {
				s.add(!ok, where, name, pathOf(st), "the search for the candidates with a name goes on by %d", d)
				continue
			}
			if st.eqInt(at, i) {
				continue
			}
			q := st.clone()
			eq := q.eqTerms(s.nameAt(q, base, i), s.nameAt(q, base, at))
			if q.decide(eq) != 1 {
				if q.assume(eq, false) && q.assumeIn(subT(at, i), between(1, INF)) {
					s.add(false, where, name, pathOf(st), "candidates with different names are taken for ones with the same name")
				}
			}
		}
	}
	return found
}

// primary looks at the comparison that sorts the candidates.
func (s *selection) primary(u *sortUse, wins []winner, all *Term) {
	L, e := s.m.L, s.m.L.e
	f, where := s.less(u)
	if f == nil {
		s.add(true, L.at(u.ev.in), shortName(u.x.fn), "", "how the candidates are compared")
		return
	}
	name := shortName(f)
	st := u.ev.st.clone()
	var args []*Term
	elems := false
	for _, p := range f.Params {
		a := e.symArg(st, p.Name(), p.Type())
		if _, ok := p.Type().Underlying().(*types.Slice); ok && len(f.Params) == 3 {
			a = all
		}
		args = append(args, a)
		elems = elems || types.Identical(p.Type(), L.r.fieldT)
	}
	var bind []*Term
	if lt := u.ev.args[3]; lt.op == OClos {
		bind = lt.a
	}
	x := L.runFn("comparison "+name, f, args, bind, st, nil, true)
	if !x.ok() {
		s.add(true, where, name, "", "the comparison of candidates: %s", x.probs[0])
		return
	}
	I, J := args[len(args)-2], args[len(args)-1]
	three := !isBoolT(f.Signature.Results().At(0).Type())
	part := func(st *State, A *Term, off int64) *Term {
		if elems {
			return s.leaf(st, A, off)
		}
		return s.partAt(st, all.a[0], A, off)
	}
	if s.tagO < 0 {
		s.findTag(x, wins, all, part, I, J)
		if s.tagO < 0 {
			s.add(true, where, name, "", "whether the candidates with a name from a tag come first")
			return
		}
	}
	res := map[string]map[int]bool{}
	var order []string
	for _, o := range x.outs {
		for _, nm := range []int64{-1, 0, 1} {
			for _, ln := range []int64{-1, 0, 1} {
				for _, tg := range []int{0, 1, 2, 3} {
					q := o.st.clone()
					ni, nj := mkStr(part(q, I, s.nameO), part(q, I, s.nameO+8)), mkStr(part(q, J, s.nameO), part(q, J, s.nameO+8))
					ok := true
					und := ""
					walkTerms(append(factTerms(q), o.ret[0]), func(t *Term) {
						if t.op != OApp || t.s != "strlt" && t.s != "bytescmp" || len(t.a) != 2 {
							return
						}
						sg := nm
						switch {
						case t.a[0] == ni && t.a[1] == nj:
						case t.a[0] == nj && t.a[1] == ni:
							sg = -nm
						default:
							und = t.str(4)
							return
						}
						if t.s == "strlt" {
							ok = ok && q.assume(t, sg < 0)
						} else {
							ok = ok && q.assumeIn(t, single(sg))
						}
					})
					if und != "" {
						s.add(true, where, name, pathOf(q), "the candidates are compared by %s", und)
						return
					}
					ok = ok && q.assume(q.eqTerms(ni, nj), nm == 0)
					r := single(0)
					if ln < 0 {
						r = between(NINF, -1)
					} else if ln > 0 {
						r = between(1, INF)
					}
					ok = ok && q.assumeIn(subT(part(q, I, s.idxO+8), part(q, J, s.idxO+8)), r)
					ok = ok && q.assume(part(q, I, s.tagO), tg&1 != 0) && q.assume(part(q, J, s.tagO), tg&2 != 0)
					if !ok {
						continue
					}
					var d int
					if three {
						switch b := q.bound(o.ret[0]); {
						case b.hi < 0:
							d = 1
						case b.lo >= 0:
							d = 0
						default:
							d = -1
						}
					} else {
						d = q.decide(o.ret[0])
					}
					k := ""
					switch {
					case nm != 0:
						k = fmt.Sprintf("n%d", nm)
					case ln != 0:
						k = fmt.Sprintf("l%d", ln)
					case tg == 1 || tg == 2:
						k = fmt.Sprintf("t%d", tg)
					default:
						continue
					}
					if res[k] == nil {
						res[k] = map[int]bool{}
						order = append(order, k)
					}
					if d < 0 {
						if s.free(o.ret[0]) && !three {
							// the result depends on something else
							res[k][0], res[k][1] = true, true
							continue
						}
					}
					res[k][d] = true
				}
			}
		}
	}
	both := func(k string) bool { return len(res[k]) > 1 && !res[k][-1] }
	for _, k := range order {
		if res[k][-1] {
			s.add(true, where, name, "", "what the comparison of candidates says in case %s", k)
			return
		}
	}
	if both("n-1") || both("n1") || len(res["n-1"]) == 1 && len(res["n1"]) == 1 && res["n-1"][1] == res["n1"][1] {
		s.add(false, where, name, "", "candidates with the same name need not be next to each other: they are not sorted by name first")
		return
	}
	for _, c := range []struct {
		k    string
		want int
		what string
	}{
		{"l-1", 1, "a candidate that is less deep does not come before one with the same name that is deeper"},
		{"l1", 0, "a candidate that is deeper comes before one with the same name that is less deep"},
		{"t1", 1, "a candidate with its name from a tag does not come before one with the same name and depth without"},
		{"t2", 0, "a candidate without a name in its tag comes before one with the same name and depth that has one"},
	} {
		if res[c.k][1-c.want] {
			s.add(false, where, name, "", "%s", c.what)
		} else if len(res[c.k]) == 0 {
			s.add(true, where, name, "", "case %s of the comparison of candidates", c.k)
		}
	}
}

// findTag finds the part that says that a name is from the tag: the one that
// is compared.
func (s *selection) findTag(x *Enc, wins []winner, all *Term, part func(*State, *Term, int64) *Term, I, J *Term) {
	offs := map[int64]bool{}
	for _, o := range x.outs {
		for _, l := range s.m.ls {
			if !isBoolT(l.typ) {
				continue
			}
			a, b := part(o.st, I, l.off), part(o.st, J, l.off)
			walkTerms(append(factTerms(o.st), o.ret[0]), func(t *Term) {
				if t == a || t == b {
					offs[l.off] = true
				}
			})
		}
	}
	for _, w := range wins {
		for _, t := range w.rec.trans {
			walkTerms(factTerms(t.st), func(a *Term) {
				if b, _, off, ok := s.m.leafOf(a); ok && b == all.a[0] && isBoolT(appTypeOr(a)) {
					offs[off] = true
				}
			})
		}
	}
	if len(offs) == 1 {
		for o := range offs {
			s.tagO = o
		}
	}
}

// less is the function a sort compares with.
func (s *selection) less(u *sortUse) (*ssa.Function, string) {
	L := s.m.L
	if lt := u.ev.args[3]; lt.op == OClos || lt.op == OFunc {
		f, _ := lt.x.(*ssa.Function)
		if f == nil || f.Blocks == nil {
			return nil, ""
		}
		return f, L.where(f)
	}
	if u.ev.args[2].op != OTypeC {
		return nil, ""
	}
	dt := u.ev.args[2].x.(types.Type)
	var less *ssa.Function
	for _, n := range []string{"Len", "Swap", "Less"} {
		g := L.e.prog.LookupMethod(dt, nil, n)
		if g == nil {
			return nil, ""
		}
		g = unwrapMethod(g)
		if n == "Less" {
			less = g
			continue
		}
		if msg := L.sortMethod(g, n); msg != "" {
			s.add(strings.HasPrefix(msg, "?"), L.where(g), shortName(g), "", "%s %s", g.Name(), strings.TrimPrefix(msg, "?"))
		}
	}
	if less == nil || less.Blocks == nil {
		return nil, ""
	}
	return less, L.where(less)
}

// final looks at the comparison that puts the members in order.
func (s *selection) final(u *sortUse, kept *Term) {
	L, e := s.m.L, s.m.L.e
	f, where := s.less(u)
	if f == nil {
		s.add(true, L.at(u.ev.in), shortName(u.x.fn), "", "how the members are put in order")
		return
	}
	name := shortName(f)
	st := u.ev.st.clone()
	var args []*Term
	elems := false
	for _, p := range f.Params {
		a := e.symArg(st, p.Name(), p.Type())
		if _, ok := p.Type().Underlying().(*types.Slice); ok && len(f.Params) == 3 {
			a = kept
		}
		args = append(args, a)
		elems = elems || types.Identical(p.Type(), L.r.fieldT)
	}
	var bind []*Term
	if lt := u.ev.args[3]; lt.op == OClos {
		bind = lt.a
	}
	x := L.runFn("order "+name, f, args, bind, st, nil, true)
	if !x.ok() {
		s.add(true, where, name, "", "the order of members: %s", x.probs[0])
		return
	}
	three := !isBoolT(f.Signature.Results().At(0).Type())
	I, J := args[len(args)-2], args[len(args)-1]
	part := func(st *State, A *Term, off int64) *Term {
		if elems {
			return s.leaf(st, A, off)
		}
		return s.partAt(st, kept.a[0], A, off)
	}
	num := func(st *State, A, k *Term) *Term {
		return st.res(e.load(st, nil, nil, mkPtr(part(st, A, s.idxO), mulC(k, 8)), types.Typ[types.Int]))
	}
	// the position that is looked at
	var k *Term
	var rec *LoopRec
	for _, r := range x.recs {
		for _, c := range r.trans {
			for old := range c.bind {
				if old.op == OSym && isIntT(appTypeOr(old)) && c.st.res(c.bind[old]) != old {
					k, rec = old, r
				}
			}
		}
	}
	at := intC(0)
	if rec != nil {
		if len(x.recs) > 1 {
			s.add(true, where, name, "", "the order of members has several loops")
			return
		}
		// the index of the reads
		at = nil
		for _, t := range rec.trans {
			ts := factTerms(t.st)
			for a := range t.st.lins {
				ts = append(ts, a)
			}
			walkTerms(ts, func(a *Term) {
				if a.op == OApp && a.s == "ld8s" && len(a.a) == 2 && containsTerm(a.a[1], k) {
					if i, off, ok := divLin(a.a[1], 8); ok && off == 0 {
						at = i
					}
				}
			})
		}
		if at == nil {
			s.add(true, where, name, "", "what the order of members compares")
			return
		}
		s.counts(rec, at, 0, "the numbers of fields", f)
		for _, t := range rec.trans {
			if t.from < 0 {
				continue
			}
			q := t.st.clone()
			a, b := num(q, I, at), num(q, J, at)
			for _, r := range []Set{between(NINF, -1), between(1, INF)} {
				q := q.clone()
				if q.assumeIn(subT(a, b), r) && q.assumeIn(subT(part(q, I, s.idxO+8), at), between(1, INF)) && q.assumeIn(subT(part(q, J, s.idxO+8), at), between(1, INF)) {
					s.add(false, where, name, pathOf(q), "the order of members goes on to the next number though the numbers differ")
				}
			}
		}
	}
	for _, o := range x.outs {
		for _, sg := range []int64{-1, 1} {
			q := o.st.clone()
			li, lj := part(q, I, s.idxO+8), part(q, J, s.idxO+8)
			if !q.assumeIn(subT(li, at), between(1, INF)) || !q.assumeIn(subT(lj, at), between(1, INF)) {
				continue
			}
			r := between(NINF, -1)
			if sg > 0 {
				r = between(1, INF)
			}
			ok, lib := true, false
			pi, pj := part(q, I, s.idxO), part(q, J, s.idxO)
			walkTerms(append(factTerms(q), o.ret[0]), func(t *Term) {
				if t.op == OApp && strings.HasPrefix(t.s, "fn:slices.Compare") && len(t.a) == 2 && t.a[0].op == OSlice && t.a[1].op == OSlice {
					switch {
					case t.a[0].a[0] == pi && t.a[1].a[0] == pj:
						lib = true
						ok = ok && q.assumeIn(t, r)
					case t.a[0].a[0] == pj && t.a[1].a[0] == pi:
						lib = true
						if sg < 0 {
							ok = ok && q.assumeIn(t, between(1, INF))
						} else {
							ok = ok && q.assumeIn(t, between(NINF, -1))
						}
					}
				}
			})
			if !lib {
				ok = ok && q.assumeIn(subT(num(q, I, at), num(q, J, at)), r)
			}
			if !ok {
				continue
			}
			var d int
			if three {
				switch b := q.bound(o.ret[0]); {
				case b.hi < 0:
					d = 1
				case b.lo > 0:
					d = 0
				default:
					d = -1
				}
			} else {
				d = q.decide(o.ret[0])
			}
			switch {
			case d < 0 && !lib && (rec == nil || s.free(o.ret[0])):
				s.add(false, where, name, pathOf(q), "the members are not put in the order of the numbers of their fields")
			case d < 0:
				s.add(true, where, name, pathOf(q), "the order of members")
			case (d == 1) != (sg < 0):
				s.add(false, where, name, pathOf(q), "a member whose field comes %s one comes %s it", map[bool]string{true: "before another", false: "after another"}[sg < 0], map[bool]string{true: "before", false: "after"}[d == 1])
			}
		}
	}
}

// ---------- from the descriptions to the members ----------

// completed looks at what the maker of struct encoders does with the list.
func (s *selection) completed() {
	m, L := s.m, s.m.L
	keep := map[int64]string{s.nameO: "name", s.nameO + 8: "name", s.idxO: "index", s.idxO + 8: "index", s.seqO: "way to the field", s.seqO + 8: "way to the field"}
	for o := range m.keyParts() {
		keep[o], keep[o+8] = "key", "key"
	}
	done := map[*LoopRec]bool{}
	types_ := map[*LoopRec]bool{}
	for _, st := range m.steps {
		where, fn := trimRepo(st.rec.pos), shortName(st.rec.fn)
		for o, what := range keep {
			if v, ok := st.set[o]; ok {
				old := s.partAt(st.st, st.ref.base, st.ref.idx, o)
				if v != old && st.st.decide(st.st.eqTerms(v, old)) != 1 {
					s.add(true, where, fn, pathOf(st.st), "the %s of a member is changed when its encoder is made", what)
				}
			}
		}
		if !done[st.rec] {
			done[st.rec] = true
			s.counts(st.rec, st.ref.idx, 0, "the members of a type", st.rec.fn)
			s.ends(st.rec, st.ref.idx, mkApp("slen", tInt, st.ref.base.a[0]), "the members of a type")
		}
		if st.core == nil {
			s.add(true, where, fn, pathOf(st.st), "a member gets no encoder")
			continue
		}
		var rec *LoopRec
		for _, r := range m.stepB.recs {
			if _, ok := r.init[st.typ]; ok && r != st.rec {
				rec = r
			}
		}
		if T := mk(OIface, "", 0, nil, []*Term{s.partAt(st.st, st.ref.base, st.ref.idx, s.typO), s.partAt(st.st, st.ref.base, st.ref.idx, s.typO+8)}, nil); T == st.typ {
			if s.otherTyp {
				s.add(false, where, fn, pathOf(st.st), "the encoder of a member is made for a type that is not always that of the field")
			}
			continue
		}
		if rec == nil {
			s.add(true, where, fn, pathOf(st.st), "for which type the encoder of a member is made: %s", st.typ.str(3))
			continue
		}
		if !types_[rec] {
			types_[rec] = true
			s.typeWalk(st, rec)
		}
	}
	_ = L
}

// typeWalk checks that the type of a member is found by following its index.
func (s *selection) typeWalk(fs *fieldStep, rec *LoopRec) {
	L := s.m.L
	where, fn := trimRepo(rec.pos), shortName(rec.fn)
	T := fs.typ
	known := false
	for _, a := range s.m.stepB.args {
		known = known || rec.init[T] == a && isReflectType(appTypeOr(a))
	}
	if !known {
		s.add(true, where, fn, "", "where the search for the type of a member starts")
	}
	ptr, n := s.partAt(fs.st, fs.ref.base, fs.ref.idx, s.idxO), s.partAt(fs.st, fs.ref.base, fs.ref.idx, s.idxO+8)
	var at *Term
	for _, t := range rec.trans {
		if t.from < 0 {
			continue
		}
		v := t.st.res(t.bind[T])
		if v.op != OApp || v.s != "fld2" || v.a[0].op != OApp || v.a[0].s != "rt.Field" {
			s.add(v != T, where, fn, pathOf(t.st), "the search for the type of a member goes on with %s", v.str(4))
			continue
		}
		in, num := v.a[0].a[0], t.st.res(v.a[0].a[1])
		if num.op != OApp || len(num.a) != 2 || num.a[0] != ptr {
			s.add(true, where, fn, pathOf(t.st), "which field is looked at in the search for the type of a member")
			continue
		}
		i, off, ok := divLin(num.a[1], 8)
		if !ok || off != 0 {
			s.add(true, where, fn, pathOf(t.st), "which field is looked at in the search for the type of a member")
			continue
		}
		at = i
		kind := mkApp("rt.Kind", types.Typ[types.Uint], T)
		for _, isPtr := range []bool{true, false} {
			q := t.st.clone()
			set := kindsBut(reflect.Ptr)
			want := T
			if isPtr {
				set = single(int64(reflect.Ptr))
				want = L.rt("rt.Elem", T)
			}
			if !q.assumeIn(kind, set) {
				continue
			}
			if in != want {
				s.add(in != T && in != L.rt("rt.Elem", T), where, fn, pathOf(q), "the type of a member of %s is looked up in the wrong type", map[bool]string{true: "an embedded pointer", false: "an embedded struct"}[isPtr])
			}
		}
	}
	if at == nil {
		return
	}
	s.counts(rec, at, 0, "the index of a member", rec.fn)
	s.ends(rec, at, n, "the index of a member")
}

// reads looks at how the encoder finds the values of the members.
func (s *selection) reads() {
	m := s.m
	done := map[*LoopRec]bool{}
	chains := map[*LoopRec]bool{}
	for _, b := range m.membs {
		where, fn := trimRepo(b.rec.pos), shortName(b.x.fn)
		if !done[b.rec] {
			done[b.rec] = true
			s.memberLoop(b)
		}
		for _, p := range b.log {
			if p.s != "elem" {
				continue
			}
			// the encoder and the key are those of the same member
			if base, idx, _, ok := m.leafOf(b.st.res(p.a[1])); !ok || base != b.ref.base || !b.st.eqInt(idx, b.ref.idx) {
				s.add(true, where, fn, pathOf(b.st), "which encoder writes the value of a member")
			}
			ptr := b.st.res(p.a[2])
			if ptr == tNil {
				s.add(false, where, fn, pathOf(b.st), "the value of a member is read through an embedded pointer that is nil")
				continue
			}
			var rec *LoopRec
			for _, r := range b.x.recs {
				for _, t := range r.trans {
					if _, ok := t.bind[ptr]; ok {
						rec = r
					}
				}
			}
			if rec == nil {
				pb, _ := ptrParts(ptr)
				direct := false
				for _, a := range b.x.args {
					direct = direct || a == pb
				}
				s.add(!direct || ptr != pb, where, fn, pathOf(b.st), "the value of a member is read at %s, not where the way to the field leads", ptr.str(3))
				continue
			}
			n := s.partAt(b.st, b.ref.base, b.ref.idx, s.seqO+8)
			if !chains[rec] {
				chains[rec] = true
				s.chain(b, rec, ptr)
			}
			if N := s.chainAt(b, rec); N != nil && !b.st.le(n, N) {
				q := b.st.clone()
				if q.assumeIn(subT(n, N), between(1, INF)) {
					s.add(false, where, fn, pathOf(b.st), "the value of a member is read before the way to its field was followed to the end")
				}
			}
		}
	}
}

// chainAt is the number of the step of the way to the field.
func (s *selection) chainAt(b *member, rec *LoopRec) *Term {
	sp := s.partAt(b.st, b.ref.base, b.ref.idx, s.seqO)
	var at *Term
	for _, t := range rec.trans {
		if t.from < 0 {
			continue
		}
		ts := factTerms(t.st)
		for _, v := range t.bind {
			ts = append(ts, v)
		}
		walkTerms(ts, func(a *Term) {
			if a.op == OApp && len(a.a) == 2 && a.a[0] == sp {
				if i, _, ok := divLin(a.a[1], s.m.L.e.sizes.Sizeof(s.seqT)); ok {
					at = i
				}
			}
		})
	}
	return at
}

func (s *selection) chain(b *member, rec *LoopRec, ptr *Term) {
	e := s.m.L.e
	where, fn := trimRepo(rec.pos), shortName(rec.fn)
	at := s.chainAt(b, rec)
	if at == nil {
		s.add(true, where, fn, "", "the steps of the way to a field")
		return
	}
	sp := s.partAt(b.st, b.ref.base, b.ref.idx, s.seqO)
	size := e.sizes.Sizeof(s.seqT)
	var offO, indO int64 = -1, -1
	var offL leaf
	for _, l := range e.leaves(s.seqT) {
		if isBoolT(l.typ) {
			indO = l.off
		} else {
			offO, offL = l.off, l
		}
	}
	if offO < 0 || indO < 0 {
		s.add(true, where, fn, "", "the parts of the steps of the way to a field")
		return
	}
	for _, t := range rec.trans {
		st := t.st
		v := st.res(t.bind[ptr])
		if t.from < 0 {
			if len(b.x.args) == 0 || v != b.x.args[0] {
				s.add(true, where, fn, "", "where the way to a field starts")
			}
			sub := map[*Term]*Term{}
			for k, w := range t.bind {
				sub[k] = w
			}
			if c, ok := st.constOf(newSubst(sub).do(at)); !ok || c != 0 {
				s.add(!ok, where, fn, "", "the way to a field starts at step %d", c)
			}
			continue
		}
		if v == nil {
			s.add(true, where, fn, pathOf(st), "where the way to a field goes on")
			continue
		}
		sub := map[*Term]*Term{}
		for k, w := range t.bind {
			if k.op == OSym && k != ptr {
				sub[k] = w
			}
		}
		if d, ok := st.constOf(subT(newSubst(sub).do(at), at)); !ok || d != 1 {
			s.add(!ok, where, fn, pathOf(st), "the way to a field is followed in steps of %d", d)
			continue
		}
		off := st.res(e.loadLeaf(st, nil, nil, sp, addT(mulC(at, size), intC(offO)), offL))
		ind := st.res(e.load(st, nil, nil, mkPtr(sp, addT(mulC(at, size), intC(indO))), types.Typ[types.Bool]))
		addr := mkPtr(ptr, off)
		for _, indir := range []bool{false, true} {
			q := st.clone()
			if !q.assume(ind, indir) {
				continue
			}
			want := addr
			if indir {
				want = q.res(e.load(q, nil, nil, addr, types.Typ[types.UnsafePointer]))
			}
			what := map[bool]string{true: "an embedded pointer", false: "an embedded struct"}[indir]
			switch {
			case v == want:
				if indir && q.decide(q.eqTerms(v, tNil)) != 0 {
					s.add(false, where, fn, pathOf(q), "the way to a field is followed through an embedded pointer that is nil")
				}
			case v == addr:
				s.add(false, where, fn, pathOf(q), "the way to a field does not follow %s", what)
			case len(b.x.args) > 0 && (v.op == OApp && v.s == "ld8p" && v.a[0] == b.x.args[0] || v.op == OPtr && v.a[0] == b.x.args[0]):
				s.add(false, where, fn, pathOf(q), "every step of the way to a field starts again at the beginning of the struct")
			case v.op == OApp && v.s == "ld8p":
				s.add(v.a[0] != ptr, where, fn, pathOf(q), "the way to a field through %s is followed to %s", what, v.str(3))
			default:
				bb, o := ptrParts(v)
				s.add(bb != ptr, where, fn, pathOf(q), "the way to a field through %s goes on %s bytes further", what, o.str(3))
			}
		}
	}
}

// memberLoop checks that the encoder visits every member.
func (s *selection) memberLoop(b *member) {
	where, fn := trimRepo(b.rec.pos), shortName(b.x.fn)
	n := mkApp("slen", tInt, b.list)
	for _, t := range b.rec.trans {
		nv := t.bind[b.ctr]
		if nv == nil {
			continue
		}
		if t.from < 0 {
			at := newSubst(map[*Term]*Term{b.ctr: nv}).do(b.ref.idx)
			if c, ok := t.st.constOf(at); !ok || c != 0 {
				s.add(!ok, where, fn, "", "the first member that is written is number %d", c)
			}
			continue
		}
		nx := newSubst(map[*Term]*Term{b.ctr: t.st.res(nv)}).do(b.ref.idx)
		if d, ok := t.st.constOf(subT(nx, b.ref.idx)); !ok || d != 1 {
			s.add(!ok, where, fn, pathOf(t.st), "after a member comes the one %d further", d)
		}
	}
	for _, o := range b.x.outs {
		if errKind(o) != 1 {
			continue
		}
		in := false
		for _, a := range factTerms(o.st) {
			in = in || containsTerm(a, b.ctr)
		}
		if !in || o.st.le(n, b.ref.idx) {
			continue
		}
		q := o.st.clone()
		if q.assumeIn(subT(n, b.ref.idx), between(1, INF)) {
			s.add(false, where, fn, pathOf(o.st), "success is reported before the last member")
		}
	}
}

const selectRule = "The members of a struct type are decided by four analysed steps. (1) Scan: every path of an iteration over the fields of a type is compared, for every kind of field, with the rule which fields become members, which are entered as embedded structs and which are left out (exported, embedded, tagged, pointer to struct, the name in the tag valid, a type seen before, a type seen more than once at its level). (2) Levels: the search visits the types of one depth before those of the next, with an empty list of next types and counts at the start of each, and ends only when no type is left. (3) Selection: the comparison the fields are sorted with groups fields of one name and puts the shallowest, then the tagged, then the earliest first; of a group exactly the one dominant field is kept and nothing else is; the final order is the order of the declaration. (4) Reading: the way to a field is completed step by step from its index sequence (offset and pointer of every step), and the encoder visits every member, follows every step, stops at nil embedded pointers and reads the value where the way ends."

func init() { checks["C14"] = checkC14 }

func checkC14(c *Check) {
	L := c.L
	c.rule = selectRule
	L.runAll()
	m := L.fields()
	if m.und != "" {
		c.undecided("%s", m.und)
		return
	}
	if m.membE != "" {
		c.undecided("%s", m.membE)
	}
	s := m.selection()
	if s.und != "" {
		c.undecided("%s", s.und)
		return
	}
	for _, x := range L.runAll() {
		if L.r.fieldsOf[x.fn] {
			c.use(x)
			for _, p := range x.probs {
				c.undecided("%s", p)
			}
		}
	}
	for _, x := range m.encs {
		c.use(x)
	}
	if m.stepB != nil {
		c.use(m.stepB)
	}
	s.checkOrder()
	s.checkScans()
	s.names()
	s.checkLevels()
	s.completed()
	s.reads()
	c.count("paths of an iteration over the fields of a type", len(s.scans))
	c.count("combinations of path and kind of field compared", s.cases)
	c.count("paths that complete descriptions", len(m.steps))
	c.count("paths of an iteration over the members", len(m.membs))
	for _, f := range s.finds {
		if f.und {
			c.undecided("%s: %s", f.where, f.msg)
		} else {
			c.violate(f.where, f.fn, f.msg, f.path)
		}
	}
}
