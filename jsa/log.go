package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A log is the content of a growing buffer, as a sequence of pieces.

func lit(s string) *Term { return piece("lit", 0, s) }

func pieceLen(p *Term) *Term {
	switch p.s {
	case "lit":
		return intC(int64(len(p.x.(string))))
	case "byte", "elt":
		return tOne
	case "raw":
		return subT(p.a[2], p.a[1])
	}
	return p.a[0] // tok, elem, xform, junk, zero, sum, frag, perm
}

func rawPiece(base, lo, hi *Term) *Term {
	if base.op == OApp && base.s == "strdata" && lo.op == OInt && hi.op == OInt {
		s := base.a[0].s
		if lo.n >= 0 && hi.n <= int64(len(s)) && lo.n <= hi.n {
			return lit(s[lo.n:hi.n])
		}
	}
	return piece("raw", 0, nil, base, lo, hi)
}

func logTotal(log []*Term) *Term {
	t := tZero
	for _, p := range log {
		t = addT(t, pieceLen(p))
	}
	return t
}

// norm merges literals and drops empty pieces.
func (st *State) norm(ps []*Term) []*Term {
	var r []*Term
	for _, p := range ps {
		if p.s == "byte" && p.a[0].op == OInt {
			p = lit(string([]byte{byte(p.a[0].n)}))
		}
		if p.s == "lit" && p.x.(string) == "" {
			continue
		}
		if l := pieceLen(p); isInt(l, 0) && p.s != "lit" {
			continue
		}
		if p.s == "lit" && len(r) > 0 && r[len(r)-1].s == "lit" {
			r[len(r)-1] = lit(r[len(r)-1].x.(string) + p.x.(string))
			continue
		}
		if p.s == "raw" && len(r) > 0 {
			q := r[len(r)-1]
			if q.s == "raw" && q.a[0] == p.a[0] && st.eqInt(q.a[2], p.a[1]) {
				r[len(r)-1] = rawPiece(q.a[0], q.a[1], p.a[2])
				continue
			}
		}
		r = append(r, p)
	}
	return r
}

// splitPiece cuts p after k units, 0 < k < len.
func (st *State) splitPiece(p, k *Term) (l, r *Term, ok bool) {
	switch p.s {
	case "lit":
		if c, ok := st.constOf(k); ok && c >= 0 && c <= int64(len(p.x.(string))) {
			s := p.x.(string)
			return lit(s[:c]), lit(s[c:]), true
		}
	case "raw":
		m := addT(p.a[1], k)
		return rawPiece(p.a[0], p.a[1], m), rawPiece(p.a[0], m, p.a[2]), true
	case "zero", "junk":
		return piece(p.s, 0, nil, k), piece(p.s, 0, nil, subT(p.a[0], k)), true
	case "tok", "elem", "xform", "sum", "frag", "app":
		n := p.a[0]
		return piece("part", 0, nil, k, p, tZero), piece("part", 0, nil, subT(n, k), p, k), true
	case "part":
		return piece("part", 0, nil, k, p.a[1], p.a[2]), piece("part", 0, nil, subT(p.a[0], k), p.a[1], addT(p.a[2], k)), true
	}
	return nil, nil, false
}

// cut splits a log at a position.
func (st *State) cut(log []*Term, pos *Term) (l, r []*Term, ok bool) {
	cum := tZero
	if st.eqInt(pos, cum) {
		return nil, log, true
	}
	for i, p := range log {
		nx := addT(cum, pieceLen(p))
		if nx == pos || (i == len(log)-1 && st.eqInt(nx, pos)) {
			return log[: i+1 : i+1], log[i+1:], true
		}
		cum = nx
	}
	cum = tZero
	for i, p := range log {
		nx := addT(cum, pieceLen(p))
		if st.eqInt(nx, pos) {
			return log[: i+1 : i+1], log[i+1:], true
		}
		if st.le(cum, pos) && st.lt(pos, nx) {
			a, b, ok := st.splitPiece(p, subT(pos, cum))
			if !ok {
				return nil, nil, false
			}
			l = append(append(l, log[:i]...), a)
			r = append(append(r, b), log[i+1:]...)
			return l, r, true
		}
		cum = nx
	}
	// past the end
	if st.le(cum, pos) {
		l = append(append(l, log...), piece("junk", 0, nil, subT(pos, cum)))
		return l, nil, true
	}
	// a cut in the last piece whose bounds are only partly known
	for i := len(log) - 1; i >= 0; i-- {
		cum = subT(cum, pieceLen(log[i]))
		if st.le(cum, pos) {
			a, b, ok := st.splitPiece(log[i], subT(pos, cum))
			if !ok || i != len(log)-1 && !st.le(pos, addT(cum, pieceLen(log[i]))) {
				return nil, nil, false
			}
			l = append(append(l, log[:i]...), a)
			r = append(append(r, b), log[i+1:]...)
			return l, r, true
		}
	}
	return nil, nil, false
}

// logAt finds the piece holding unit idx.
func (st *State) logAt(log []*Term, idx *Term) (p, k *Term) {
	cum := tZero
	for _, p := range log {
		nx := addT(cum, pieceLen(p))
		if st.le(cum, idx) && st.lt(idx, nx) {
			return p, subT(idx, cum)
		}
		cum = nx
	}
	return nil, nil
}

func logval(log []*Term) *Term {
	if len(log) == 1 && log[0].s == "raw" && isInt(log[0].a[1], 0) {
		return log[0].a[0]
	}
	return mkApp("logval", types.Typ[types.UnsafePointer], log...)
}

// byteAt returns the byte of a log at idx.
func (st *State) byteAt(log []*Term, idx *Term) *Term {
	p, k := st.logAt(log, idx)
	if p != nil {
		switch p.s {
		case "lit":
			if c, ok := st.constOf(k); ok {
				return intC(int64(p.x.(string)[c]))
			}
			return mkApp("tblidx", types.Typ[types.Uint8], strC(p.x.(string)), k)
		case "byte":
			return p.a[0]
		case "zero":
			return tZero
		case "raw":
			return mkApp("byte", types.Typ[types.Uint8], p.a[0], addT(p.a[1], k))
		case "tok", "elem", "frag", "xform", "sum", "app":
			return mkApp("pbyte", types.Typ[types.Uint8], p, subT(k, p.a[0]))
		case "part":
			return mkApp("pbyte", types.Typ[types.Uint8], p.a[1], subT(addT(p.a[2], k), p.a[1].a[0]))
		}
	}
	return mkApp("byte", types.Typ[types.Uint8], logval(log), idx)
}

func (e *Engine) fragByte(st *State, base, off *Term) *Term {
	return mkApp("byte", types.Typ[types.Uint8], base, off)
}

// logLeaf loads a leaf from element idx of a log.
func (e *Engine) logLeaf(st *State, o *Obj, idx *Term, rem int64, l leaf) *Term {
	if isByteT(o.typ) {
		if l.kind != "ld1u" {
			return fresh("logld", l.typ)
		}
		return st.byteAt(o.log, idx)
	}
	for i := len(o.wlog) - 1; i >= 0; i-- {
		w := o.wlog[i]
		switch st.decide(st.eqTerms(w.idx, idx)) {
		case 0:
			continue
		case 1:
			ls, fs := e.leaves(w.t), e.flatten(w.t, w.v)
			for j := range ls {
				if w.rem+ls[j].off == rem && j < len(fs) {
					return retype(fs[j], l)
				}
			}
			continue
		}
		if w.rem <= rem && rem < w.rem+e.sizes.Sizeof(w.t) {
			return fresh("logld", l.typ)
		}
	}
	return e.eltLeaf(st, o.log, o.typ, idx, rem, l)
}

func (e *Engine) eltLeaf(st *State, log []*Term, et types.Type, idx *Term, rem int64, l leaf) *Term {
	p, k := st.logAt(log, idx)
	if p != nil {
		switch p.s {
		case "elt":
			return e.leafOf(et, p.a[0], rem, l)
		case "zero":
			return zeroLeaf(l)
		case "raw":
			base, off := ptrParts(p.a[0])
			esz := e.sizes.Sizeof(et)
			off = addT(off, addT(mulC(addT(p.a[1], k), esz), intC(rem)))
			return e.loadLeaf(st, nil, nil, base, off, l)
		case "perm":
			return e.eltLeaf(st, p.a[1:], et, mkApp("permidx", types.Typ[types.Int], p, k), rem, l)
		case "sum":
			if v := e.sumElt(p, et, k, rem, l); v != nil {
				return v
			}
		}
	} else if len(log) == 1 && log[0].s == "sum" {
		if v := e.sumElt(log[0], et, idx, rem, l); v != nil {
			return v
		}
	} else if len(log) > 0 {
		// an unknown element: usable if every piece has the same shape
		var v *Term
		for _, p := range log {
			var w *Term
			switch p.s {
			case "elt":
				w = e.leafOf(et, p.a[0], rem, l)
			case "sum":
				w = e.sumElt(p, et, idx, rem, l)
			}
			if w == nil || (v != nil && w != v) {
				v = nil
				break
			}
			v = w
		}
		if v != nil {
			return v
		}
	}
	return mkApp("ldelt:"+l.kind, l.typ, logval(log), idx, intC(rem))
}

func (e *Engine) leafOf(t types.Type, v *Term, off int64, l leaf) *Term {
	ls := e.leaves(t)
	fs := e.flatten(t, v)
	for i := range ls {
		if ls[i].off == off && i < len(fs) {
			return fs[i]
		}
	}
	return fresh("leafof", l.typ)
}

// sumElt is a leaf of the idx-th element a loop has appended, when every
// iteration appends one element of the same form.
func (e *Engine) sumElt(p *Term, et types.Type, idx *Term, rem int64, l leaf) *Term {
	rec := p.x.(*LoopRec)
	var elt *Term
	var from int
	n := 0
	for _, t := range rec.trans {
		ps, ok := t.logs[p.n>>16]
		if !ok {
			continue
		}
		for _, q := range ps {
			if q.s != "elt" {
				return nil
			}
			if elt == nil || elt != q.a[0] {
				n++
			}
			elt = q.a[0]
			from = t.from
		}
	}
	_ = from
	if n == 0 {
		return nil
	}
	if n > 1 {
		return mkApp("ldsum:"+l.kind, l.typ, p, idx, intC(rem))
	}
	v := e.leafOf(et, elt, rem, l)
	return rec.at(v, idx)
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

// logStore overwrites element(s) of a log.
func (e *Engine) logStore(st *State, fr *frame, in ssa.Instruction, o *Obj, off *Term, t types.Type, v *Term) {
	esz := e.sizes.Sizeof(o.typ)
	idx, rem, ok := divLin(off, esz)
	if !ok {
		e.problem("store to a log at an unknown offset at %s", e.pos(in))
		return
	}
	e.event("log-store", st, fr, in, "", objT(o.id), idx, v)
	if e.trail && e.deepTrail && rem == 0 {
		e.note(st, "elt-content", "", in, objT(o.id), idx, e.deepContent(st, v, t, 4))
	}
	var np *Term
	if isByteT(o.typ) {
		np = piece("byte", 0, nil, v)
	} else if rem == 0 && types.Identical(t.Underlying(), o.typ.Underlying()) {
		np = piece("elt", 0, nil, v)
	} else {
		// one field of an element
		if p, k := st.logAt(o.log, idx); p != nil && p.s == "elt" {
			_ = k
			ls := e.leaves(o.typ)
			fs := append([]*Term(nil), e.flatten(o.typ, p.a[0])...)
			nl, nf := e.leaves(t), e.flatten(t, v)
			for i := range ls {
				for j := range nl {
					if ls[i].off == rem+nl[j].off && i < len(fs) && j < len(nf) {
						fs[i] = nf[j]
					}
				}
			}
			i := 0
			np = piece("elt", 0, nil, e.build(o.typ, func() *Term { i++; return fs[i-1] }))
		} else {
			o = st.mut(o)
			o.wlog = append(o.wlog, LogWrite{idx, rem, t, v})
			return
		}
	}
	e.overwrite(st, o, idx, tOne, []*Term{np})
}

// overwrite replaces [pos,pos+n) of the log.
func (e *Engine) overwrite(st *State, o *Obj, pos, n *Term, ps []*Term) bool {
	l, r, ok := st.cut(o.log, pos)
	var rr []*Term
	if ok {
		tot := logTotal(r)
		if st.le(tot, n) {
			rr = nil
		} else {
			_, rr, ok = st.cut(r, n)
		}
	}
	o = st.mut(o)
	if !ok {
		if isByteT(o.typ) || len(ps) != 1 || ps[0].s != "elt" {
			o.log = []*Term{piece("junk", 0, nil, logTotal(o.log))}
		} else {
			o.wlog = append(o.wlog, LogWrite{pos, 0, o.typ, ps[0].a[0]})
		}
		return false
	}
	var nl []*Term
	nl = append(nl, l...)
	nl = append(nl, ps...)
	nl = append(nl, rr...)
	o.log = st.norm(nl)
	return true
}

// content returns the pieces of a string or slice value.
func (e *Engine) content(st *State, v *Term) []*Term {
	var ptr, n *Term
	switch v.op {
	case OStrC:
		if v.s == "" {
			return nil
		}
		return []*Term{lit(v.s)}
	case OStr:
		ptr, n = v.a[0], v.a[1]
	case OSlice:
		ptr, n = v.a[0], v.a[1]
	default:
		if v.op == OApp && v.x != nil && isStringT(appType(v)) {
			ptr, n = strParts(v)
		} else {
			ptr, n, _ = sliceParts(v)
		}
	}
	return e.contentAt(st, ptr, n, 1)
}

func (e *Engine) contentAt(st *State, ptr, n *Term, esz int64) []*Term {
	if st.eqInt(n, tZero) {
		return nil
	}
	base, off := ptrParts(st.res(ptr))
	base = st.res(base)
	if o := st.obj(base); o != nil {
		switch o.kind {
		case KLog:
			idx, ok := divLinC(off, e.sizes.Sizeof(o.typ))
			if !ok {
				break
			}
			if _, r, ok := st.cut(o.log, idx); ok {
				if l, _, ok := st.cut(r, n); ok {
					return st.norm(l)
				}
			}
			if isByteT(o.typ) {
				return []*Term{rawPiece(logval(o.log), idx, addT(idx, n))}
			}
			return []*Term{piece("junk", 0, nil, n)}
		case KCells:
			lo, ok1 := st.constOf(off)
			c, ok2 := st.constOf(n)
			if ok1 && ok2 && c <= 4096 && c >= 0 {
				var ps []*Term
				if esz == 1 {
					for i := int64(0); i < c; i++ {
						b := e.loadLeaf(st, nil, nil, base, intC(lo+i), leaf{0, "ld1u", types.Typ[types.Uint8]})
						ps = append(ps, piece("byte", 0, nil, b))
					}
					return st.norm(ps)
				}
			}
			return []*Term{piece("junk", 0, nil, n)}
		}
	}
	if base.op == OApp && base.s == "logval" {
		if _, r, ok := st.cut(base.a, off); ok {
			if l, _, ok := st.cut(r, n); ok {
				return st.norm(l)
			}
		}
	}
	if esz != 1 {
		idx, ok := divLinC(off, esz)
		if !ok {
			return []*Term{piece("raw", 0, nil, mkPtr(base, off), tZero, n)}
		}
		return []*Term{rawPiece(base, idx, addT(idx, n))}
	}
	return []*Term{rawPiece(base, off, addT(off, n))}
}

// elements returns the content of a slice with elements of type et.
func (e *Engine) elements(st *State, v *Term, et types.Type) []*Term {
	p, n, _ := sliceParts(v)
	if isByteT(et) {
		return e.contentAt(st, p, n, 1)
	}
	base, off := ptrParts(st.res(p))
	if o := st.obj(st.res(base)); o != nil && o.kind == KCells {
		lo, ok1 := st.constOf(off)
		c, ok2 := st.constOf(n)
		if ok1 && ok2 && c <= 256 {
			var ps []*Term
			sz := e.sizes.Sizeof(et)
			for i := int64(0); i < c; i++ {
				v := e.load(st, nil, nil, mkPtr(base, intC(lo+i*sz)), et)
				ps = append(ps, piece("elt", 0, nil, v))
			}
			return ps
		}
	}
	return e.contentAt(st, p, n, e.sizes.Sizeof(et))
}

// contentIs compares a string value with a constant: 1 equal, 0 different, -1 unknown.
func (e *Engine) contentIs(st *State, v *Term, s string) int {
	ptr, l := strParts(v)
	if c, ok := st.constOf(l); !ok || c != int64(len(s)) {
		return -1
	}
	res := 1
	for i := 0; i < len(s); i++ {
		b := e.loadByte(st, ptr, intC(int64(i)))
		set := st.setFor(b)
		if !set.has(int64(s[i])) {
			return 0
		}
		if set.size() != 1 {
			res = -1
		}
	}
	return res
}

func (e *Engine) loadByte(st *State, ptr, off *Term) *Term {
	base, o := ptrParts(st.res(ptr))
	return e.loadLeaf(st, nil, nil, st.res(base), addT(o, off), leaf{0, "ld1u", types.Typ[types.Uint8]})
}

func (e *Engine) strOf(st *State, ps []*Term) *Term {
	ps = st.norm(ps)
	if len(ps) == 0 {
		return strC("")
	}
	if len(ps) == 1 {
		switch ps[0].s {
		case "lit":
			return strC(ps[0].x.(string))
		case "raw":
			return mkStr(mkPtr(ps[0].a[0], ps[0].a[1]), pieceLen(ps[0]))
		}
	}
	return mkStr(logval(ps), logTotal(ps))
}

func (e *Engine) bytesToString(st *State, v *Term) *Term { return e.strOf(st, e.content(st, v)) }

func (e *Engine) concat(st *State, a, b *Term) *Term {
	return e.strOf(st, append(append([]*Term(nil), e.content(st, a)...), e.content(st, b)...))
}

// newLog makes a slice over a new log object.
func (e *Engine) newLog(st *State, et types.Type, ps []*Term, prov string) *Term {
	o := st.newObj(KLog, et, true, prov)
	o.log = st.norm(ps)
	n := logTotal(o.log)
	return mkSlice(mkPtr(objT(o.id), tZero), n, e.capSym(st, n))
}

func (e *Engine) capSym(st *State, n *Term) *Term {
	c := fresh("cap", types.Typ[types.Int])
	st.assumeIn(c, between(0, maxLen))
	st.assumeIn(subT(c, n), between(0, maxLen))
	return c
}

// appendTo models append(s, ps...) for elements of type et.
func (e *Engine) appendTo(st *State, fr *frame, in ssa.Instruction, s *Term, ps []*Term, et types.Type) *Term {
	ptr, n, c := sliceParts(s)
	ps = st.norm(ps)
	if len(ps) == 0 {
		return s
	}
	base, off := ptrParts(st.res(ptr))
	base = st.res(base)
	esz := e.sizes.Sizeof(et)
	add := logTotal(ps)
	o := st.obj(base)
	// an array without elements can grow where it is: nothing else sees it
	empty := o != nil && o.kind == KLog && isInt(off, 0) && st.eqInt(n, tZero) && len(o.log) == 0
	if o == nil || o.kind != KLog || st.eqInt(n, c) && !empty {
		old := e.elements(st, s, et)
		if !(base == tNil) {
			e.event("append-opaque", st, fr, in, "", s, n, c)
		}
		r := e.newLog(st, et, append(append([]*Term(nil), old...), ps...), "alloc")
		no := st.mut(st.obj(baseOf(r.a[0])))
		if base != tNil && !st.eqInt(n, c) {
			no.root = base
			if o != nil && o.root != nil {
				no.root = o.root
			}
		}
		if in != nil {
			no.site = e.pos(in)
		}
		return r
	}
	idx, ok := divLinC(off, esz)
	if !ok {
		e.problem("append at an unknown offset at %s", e.pos(in))
		return fresh("append", types.NewSlice(et))
	}
	pos := addT(idx, n)
	tot := logTotal(o.log)
	if o.rel != "" {
		e.event("use-after-release", st, fr, in, "append to memory that was released at "+o.rel, base)
	}
	e.event("append", st, fr, in, "", base, pos)
	var nl []*Term
	if pos == tot || st.eqInt(pos, tot) {
		nl = append(nl, o.log...)
	} else {
		l, r, ok := st.cut(o.log, pos)
		if !ok {
			e.problem("append position %s not found in a buffer of %s at %s", pos, tot, e.pos(in))
			l = []*Term{piece("junk", 0, nil, pos)}
		}
		e.event("log-overwrite", st, fr, in, "", append([]*Term{base, pos}, r...)...)
		nl = append(nl, l...)
		if !isByteT(et) {
			// other views of the array keep what they see
			no := st.newObj(KLog, et, true, o.prov)
			no.root = base
			if o.root != nil {
				no.root = o.root
			}
			no.log = st.norm(append(nl, ps...))
			return mkSlice(mkPtr(objT(no.id), off), addT(n, add), e.capSym(st, addT(n, add)))
		}
	}
	nl = append(nl, ps...)
	o = st.mut(o)
	o.log = st.norm(nl)
	nn := addT(n, add)
	return mkSlice(ptr, nn, e.capSym(st, nn))
}

func logString(ps []*Term) string {
	var ss []string
	for _, p := range ps {
		ss = append(ss, p.str(5))
	}
	return strings.Join(ss, " ")
}

var _ = fmt.Sprint
