package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// runAll runs every function of the library: the builders and all encoders they
// make, the functions taken on trust by those, the exported functions, and
// whatever was not reached from there.
func (L *Lab) runAll() []*Enc {
	if L.all != nil {
		return L.all
	}
	for _, f := range L.builderRoots() {
		L.encodersOf(f)
	}
	e := L.e
	fns := e.allFuncs()
	// appenders, text predicates and functions that handle fields
	for _, f := range fns {
		switch {
		case f.Parent() != nil:
		case L.r.appender[f], L.r.textPredicate(f):
			L.function(f, L.r.encodeOpaque, false)
		case L.r.fieldsOf[f]:
			L.function(f, func(g *ssa.Function, args []*Term, fr *frame) bool { return fr != nil && L.r.fieldsOpaque(g, args, fr) }, true)
		case L.r.emptyOf[f]:
			x := L.function(f, func(g *ssa.Function, args []*Term, fr *frame) bool { return fr != nil && L.r.emptyOf[g] }, false)
			L.predicates(x)
		}
	}
	for _, f := range fns {
		if f.Parent() == nil && f.Object() != nil && f.Object().Exported() && sortMethod(f) == nil {
			L.function(f, L.r.encodeOpaque, false)
		}
	}
	for _, f := range fns {
		if f.Parent() == nil && !e.followed[f] && sortMethod(f) != nil {
			L.sortCallback(f, sortMethod(f))
		}
	}
	for _, f := range fns {
		if f.Parent() == nil && !e.followed[f] && len(f.Blocks) > 0 && f.Synthetic == "" && f.Name() != "init" {
			coarse := L.r.fieldFn(f)
			pol := L.r.encodeOpaque
			if coarse {
				pol = func(g *ssa.Function, args []*Term, fr *frame) bool { return fr != nil && L.r.fieldsOpaque(g, args, fr) }
			}
			L.function(f, pol, coarse)
		}
	}
	L.all = L.order
	return L.all
}

// sortMethod recognises Less and Swap of a sort.Interface, and returns the
// method that gives the bound of their arguments.
func sortMethod(f *ssa.Function) *ssa.Function {
	sig := f.Signature
	if sig.Recv() == nil || f.Name() != "Less" && f.Name() != "Swap" || sig.Params().Len() != 2 || !isIntT(sig.Params().At(0).Type()) || !isIntT(sig.Params().At(1).Type()) {
		return nil
	}
	ms := f.Prog.MethodSets.MethodSet(sig.Recv().Type())
	if s := ms.Lookup(f.Pkg.Pkg, "Len"); s != nil {
		return f.Prog.MethodValue(s)
	}
	return nil
}

// sortCallback runs a method under the conditions package sort calls it.
func (L *Lab) sortCallback(f, length *ssa.Function) {
	e := L.e
	st := e.base.clone()
	var args []*Term
	for _, p := range f.Params {
		args = append(args, e.symArg(st, p.Name(), p.Type()))
	}
	e.opaqueCall, e.coarse = L.r.encodeOpaque, false
	e.problems = map[string]int{}
	outs := e.exec(length, args[:1], nil, st, nil, nil)
	if len(outs) != 1 || len(outs[0].ret) != 1 {
		return
	}
	st = outs[0].st
	n := outs[0].ret[0]
	for _, i := range args[1:] {
		if !st.assumeIn(i, between(0, INF)) || !st.assumeIn(subT(n, i), between(1, INF)) {
			return
		}
	}
	key := fmt.Sprintf("f:%s:%v", f.String(), false)
	if L.encs[key] != nil {
		return
	}
	x := L.runFn(shortName(f), f, args, nil, st, L.r.encodeOpaque, false)
	L.encs[key] = x
	L.order = append(L.order, x)
}

// predicates runs the tests for empty values a function makes.
func (L *Lab) predicates(x *Enc) []*Enc {
	var r []*Enc
	seen := map[*Enc]bool{}
	for _, o := range x.outs {
		if len(o.ret) != 1 {
			continue
		}
		if y := L.predicate(x, Built{o.st, o.st.res(o.ret[0])}); y != nil && !seen[y] {
			seen[y] = true
			r = append(r, y)
		}
	}
	return r
}

// predicate runs a test of the value at an unknown address.
func (L *Lab) predicate(root *Enc, bt Built) *Enc {
	t := bt.t
	if t.op != OFunc && t.op != OClos {
		return nil
	}
	e := L.e
	b := &binder{L: L, st: e.base.clone(), from: bt.st.clone(), vals: map[*Term]*Term{}, fv: map[string]*Term{}}
	var bind []*Term
	e.rootName = "captured values"
	if t.op == OFunc {
		b.value(t, "", nil)
	} else {
		bind = b.closure(t).a
	}
	key := "p:" + b.key.String()
	use := Use{bt, root, b.vals, b.fv}
	if x := L.encs[key]; x != nil {
		x.uses = append(x.uses, use)
		return x
	}
	f := t.x.(*ssa.Function)
	p := sym("p", tUP)
	b.st.assume(b.st.eqTerms(p, tNil), false)
	x := L.runFn(L.termName(t), f, []*Term{p}, bind, b.st, L.r.encodeOpaque, false)
	x.term, x.key, x.uses = t, key, []Use{use}
	x.argT = map[string]*Term{"p": p}
	L.encs[key] = x
	L.order = append(L.order, x)
	return x
}

// isEnc: is this the run of an encoder (and not of a builder or of another function)?
func (x *Enc) isEnc() bool { return strings.HasPrefix(x.key, "e:") }

// where is the position of a function.
func (L *Lab) where(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	p := L.e.prog.Fset.Position(f.Pos())
	return fmt.Sprintf("%s:%d", trimRepo(p.Filename), p.Line)
}

func (L *Lab) at(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	return L.e.pos(in)
}

// pathOf describes the conditions of a path.
func pathOf(st *State) string {
	var ss []string
	for c, v := range st.atoms {
		s := c.str(5)
		if !v {
			s = "!" + s
		}
		ss = append(ss, s)
	}
	for t, s := range st.rngs {
		if t.op == OApp && (t.s == "and" || strings.HasPrefix(t.s, "rt.") || strings.HasPrefix(t.s, "ld")) || t.op == OSym && !strings.Contains(t.s, "#") || t.op == OApp && strings.HasPrefix(t.s, "fld") {
			if s.size() < 1<<20 {
				ss = append(ss, t.str(5)+"∈"+s.String())
			}
		}
	}
	sort.Strings(ss)
	s := strings.Join(ss, "; ")
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func trimRepo(s string) string {
	if r, ok := strings.CutPrefix(s, repoDir+"/"); ok {
		return r
	}
	return s
}
