package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	tInt    = types.Typ[types.Int]
	tBoolT  = types.Typ[types.Bool]
	tByteT  = types.Typ[types.Uint8]
	tUP     = types.Typ[types.UnsafePointer]
	tString = types.Typ[types.String]
)

func init() {
	simpl = map[string]func(t types.Type, a []*Term) *Term{
		"tab": func(t types.Type, a []*Term) *Term {
			switch a[0].op {
			case OIface:
				return a[0].a[0]
			case OTypeC:
				return nil
			case OMkI:
				return mkApp("word", tUP, typeC(a[0].x.(types.Type)))
			}
			if a[0] == nilIface {
				return tNil
			}
			return nil
		},
		"word": func(t types.Type, a []*Term) *Term {
			if a[0].op == OIface {
				return a[0].a[1]
			}
			return nil
		},
		"slen": func(t types.Type, a []*Term) *Term {
			if a[0].op == OSlice {
				return a[0].a[1]
			}
			return nil
		},
		"scap": func(t types.Type, a []*Term) *Term {
			if a[0].op == OSlice {
				return a[0].a[2]
			}
			return nil
		},
		"sptr": func(t types.Type, a []*Term) *Term {
			if a[0].op == OSlice {
				return a[0].a[0]
			}
			return nil
		},
		"strlen": func(t types.Type, a []*Term) *Term {
			switch a[0].op {
			case OStr:
				return a[0].a[1]
			case OStrC:
				return intC(int64(len(a[0].s)))
			}
			return nil
		},
		"strptr": func(t types.Type, a []*Term) *Term {
			switch a[0].op {
			case OStr:
				return a[0].a[0]
			case OStrC:
				return mkApp("strdata", tUP, a[0])
			}
			return nil
		},
		"mul": func(t types.Type, a []*Term) *Term {
			x, y := a[0], a[1]
			if x.op == OInt {
				return mulC(y, x.n)
			}
			if y.op == OInt {
				return mulC(x, y.n)
			}
			if x.op == OLin {
				x, y = y, x
			}
			if y.op == OLin {
				l := linOf(y)
				r := mulC(x, l.c)
				for i, u := range l.t {
					r = addT(r, mulC(mkApp("mul", t, x, u), l.k[i]))
				}
				return r
			}
			if x.id > y.id {
				return mkApp("mul", t, y, x)
			}
			return nil
		},
		"wrap": func(t types.Type, a []*Term) *Term {
			if a[0].op == OInt {
				return intC(wrapTo(a[0].n, t))
			}
			if tr := typeRange(a[0]); len(tr) > 0 && t != nil {
				if r := basicRange(t); len(r) > 0 && tr.subset(r) && !(tr.lo() == NINF) {
					return a[0]
				}
			}
			return nil
		},
		"rt.Elem": func(t types.Type, a []*Term) *Term {
			if a[0].op == OTypeC {
				switch u := a[0].x.(types.Type).Underlying().(type) {
				case *types.Pointer:
					return typeC(u.Elem())
				case *types.Slice:
					return typeC(u.Elem())
				case *types.Array:
					return typeC(u.Elem())
				case *types.Map:
					return typeC(u.Elem())
				case *types.Chan:
					return typeC(u.Elem())
				}
			}
			if a[0].op == OApp && a[0].s == "rt.PtrTo" {
				return a[0].a[0]
			}
			return nil
		},
		"rt.PtrTo": func(t types.Type, a []*Term) *Term {
			if a[0].op == OTypeC {
				return typeC(types.NewPointer(a[0].x.(types.Type)))
			}
			return nil
		},
		"rt.Kind": func(t types.Type, a []*Term) *Term {
			if a[0].op == OTypeC {
				return intC(int64(kindOf(a[0].x.(types.Type))))
			}
			if a[0].op == OApp && a[0].s == "rt.PtrTo" {
				return intC(22)
			}
			return nil
		},
		"implements": func(t types.Type, a []*Term) *Term {
			if a[0].op == OTypeC && a[1].op == OTypeC {
				if it, ok := a[1].x.(types.Type).Underlying().(*types.Interface); ok {
					return boolC(types.Implements(a[0].x.(types.Type), it))
				}
			}
			return nil
		},
		"typeof": func(t types.Type, a []*Term) *Term {
			switch a[0].op {
			case OMkI:
				return typeC(a[0].x.(types.Type))
			case OIface:
				if w := a[0].a[0]; w.op == OApp && w.s == "word" {
					return w.a[0]
				}
			}
			return nil
		},
		"booleq": func(t types.Type, a []*Term) *Term {
			if a[0] == a[1] {
				return tTrue
			}
			if a[0].op == OBool {
				a[0], a[1] = a[1], a[0]
			}
			if a[1].op == OBool {
				if a[1].n == 1 {
					return a[0]
				}
				return notT(a[0])
			}
			return nil
		},
		"conj": func(t types.Type, a []*Term) *Term {
			all := true
			for _, c := range a {
				if c == tFalse {
					return tFalse
				}
				if c != tTrue {
					all = false
				}
			}
			if all {
				return tTrue
			}
			return nil
		},
		"b2i": func(t types.Type, a []*Term) *Term {
			if a[0].op == OBool {
				return intC(a[0].n)
			}
			return nil
		},
		"tblidx": func(t types.Type, a []*Term) *Term {
			if a[1].op == OInt {
				if v, ok := tableAt(a[0], a[1].n); ok {
					return v
				}
			}
			return nil
		},
		"and": func(t types.Type, a []*Term) *Term {
			if a[0].op == OInt && a[1].op == OInt {
				return intC(a[0].n & a[1].n)
			}
			return nil
		},
		"shr": func(t types.Type, a []*Term) *Term {
			if a[0].op == OInt && a[1].op == OInt && a[1].n >= 0 && a[1].n < 63 {
				return intC(a[0].n >> uint(a[1].n))
			}
			return nil
		},
		"rem": func(t types.Type, a []*Term) *Term {
			if a[0].op == OInt && a[1].op == OInt && a[1].n != 0 {
				return intC(a[0].n % a[1].n)
			}
			return nil
		},
		"quo": func(t types.Type, a []*Term) *Term {
			if a[0].op == OInt && a[1].op == OInt && a[1].n != 0 {
				return intC(a[0].n / a[1].n)
			}
			// x/a/b is x/(a*b)
			if q := a[0]; q.op == OApp && q.s == "quo" && a[1].op == OInt && q.a[1].op == OInt && a[1].n > 0 && q.a[1].n > 0 && q.a[1].n < 1<<31 && a[1].n < 1<<31 {
				return mkApp("quo", t, q.a[0], intC(q.a[1].n*a[1].n))
			}
			return nil
		},
	}
}

// reflect.Kind numbering
func kindOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

// resolveApp simplifies an application with what is known about its arguments.
func (st *State) resolveApp(c *Term) *Term {
	changed := false
	na := make([]*Term, len(c.a))
	for i, a := range c.a {
		na[i] = st.res(a)
		if termBool(na[i]) && na[i].op != OBool {
			if d := st.decide(na[i]); d >= 0 {
				na[i] = boolC(d == 1)
			}
		}
		if na[i] != a {
			changed = true
		}
	}
	if changed {
		return mkApp(c.s, appType(c), na...)
	}
	return c
}

func (st *State) onAtom(c *Term, pol bool) bool {
	if c.s == "conj" && pol {
		for _, a := range c.a {
			if !st.assume(a, true) {
				return false
			}
		}
	}
	if c.s == "implements" && pol {
		T := c.a[0]
		if T.op == OApp && T.s == "rt.PtrTo" {
			T = T.a[0]
		}
		return st.typeOK(T)
	}
	return true
}

// typeOK checks what is known about the methods of a type: a pointer to an
// interface, or to a pointer, has none, nor has an interface with no methods.
func (st *State) typeOK(T *Term) bool {
	if isConstTerm(T) {
		return true
	}
	k := st.rng(mkApp("rt.Kind", types.Typ[types.Uint], T))
	iface := k.subset(single(20))
	if !iface && !k.subset(setOf(20, 22)) {
		return true
	}
	none := iface && st.rng(mkApp("rt.NumMethod", types.Typ[types.Int], T)).subset(single(0))
	for c, pol := range st.atoms {
		if !pol || c.op != OApp || c.s != "implements" || c.a[1].op != OTypeC {
			continue
		}
		it, ok := c.a[1].x.(types.Type).Underlying().(*types.Interface)
		if !ok || it.NumMethods() == 0 {
			continue
		}
		w := c.a[0]
		if w == T && none || w.op == OApp && w.s == "rt.PtrTo" && w.a[0] == T {
			return false
		}
	}
	return true
}

// onAlias checks what is known about a against the constant b it was found equal to.
func (st *State) onAlias(a, b *Term) bool {
	if isConstTerm(a) {
		a, b = b, a
	}
	if !isConstTerm(b) {
		return true
	}
	if b == tNil {
		for n, ptr := range st.hdrs {
			if ptr == a && !st.assumeIn(n, single(0)) {
				return false
			}
		}
	}
	m := newSubst(map[*Term]*Term{a: b})
	for t, s := range st.rngs {
		if u := m.do(t); u != t && u.op == OInt && !s.has(u.n) {
			return false
		}
	}
	for c, v := range st.atoms {
		if u := m.do(c); u != c && u.op == OBool && (u.n == 1) != v {
			return false
		}
	}
	return true
}

// typeConsistent reports whether T may be the type constant c.
func (st *State) typeConsistent(T, c *Term) bool { return st.onAlias(T, c) }

// callTerm interprets a call.
func (e *Engine) callTerm(fr *frame, p *path, in ssa.CallInstruction, c *ssa.CallCommon, fn *Term, args []*Term) []Outcome {
	st := p.st
	if c.IsInvoke() {
		return e.invoke(fr, p, in, c, args)
	}
	fn = st.res(fn)
	switch fn.op {
	case OFunc:
		if strings.HasPrefix(fn.s, "builtin:") {
			return e.builtin(fr, p, in, c, fn.s[8:], args)
		}
		f := fn.x.(*ssa.Function)
		return e.callFn(fr, p, in, f, args, nil)
	case OClos:
		return e.callFn(fr, p, in, fn.x.(*ssa.Function), args, fn.a)
	case ONil:
		e.event("nilcall", st, fr, in, "call of a nil function")
		e.obligation("nilcall", fr, in, "function value is not nil", false, func() string { return "the function is nil" })
		return nil
	}
	sig := c.Signature()
	if e.isInstr(sig) {
		return e.contract(fr, p, in, fn, args)
	}
	return e.opaqueFn(fr, p, in, sig, fn, args)
}

func (e *Engine) isInstr(sig *types.Signature) bool {
	return e.instrT != nil && types.Identical(types.NewSignatureType(nil, nil, nil, anon(sig.Params()), anon(sig.Results()), false), e.instrT)
}

func anon(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(vs...)
}

// callFn calls a known function.
func (e *Engine) callFn(fr *frame, p *path, in ssa.CallInstruction, f *ssa.Function, args, bind []*Term) []Outcome {
	st := p.st
	if fr != nil {
		fr.env = p.env
	}
	if e.opaqueCall != nil && e.opaqueCall(f, args, fr) {
		if d := e.appenderDst(f); d >= 0 {
			return e.opaqueAppend(fr, p, in, f, d, args)
		}
		return e.opaqueBuilder(fr, p, in, f, args)
	}
	if f.Origin() != nil && len(f.Blocks) == 0 {
		f = f.Origin()
	}
	if m := e.model(fr, p, in, f, args); m != nil {
		return m
	}
	if len(f.Blocks) > 0 && e.follow(f) {
		if onStack(fr, f) {
			// recursion: the inner call is taken on trust
			for _, a := range args {
				e.havoc(st, a)
			}
			return e.opaqueBuilder(fr, p, in, f, args)
		}
		if s := e.typePreds[f]; s != nil && len(args) == 1 && args[0].op != OTypeC {
			return e.applyPred(p, s, args[0])
		}
		return e.exec(f, args, bind, st, fr, in)
	}
	return e.external(fr, p, in, f, args)
}

func (e *Engine) follow(f *ssa.Function) bool {
	if f.Pkg != nil {
		return e.pkgs[f.Pkg]
	}
	// wrappers, thunks, instances
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return e.pkgs[o.Pkg]
	}
	if p := f.Parent(); p != nil {
		return e.follow(p)
	}
	if f.Synthetic != "" {
		return true
	}
	return false
}

// opaqueBuilder is a call of a function that makes an encoder, taken on trust.
func (e *Engine) opaqueBuilder(fr *frame, p *path, in ssa.CallInstruction, f *ssa.Function, args []*Term) []Outcome {
	var ret []*Term
	res := f.Signature.Results()
	e.event("build", p.st, fr, in, f.Name(), args...)
	for i := 0; i < res.Len(); i++ {
		name := "built:" + f.Name()
		if i > 0 {
			name += fmt.Sprint(i)
		}
		v := e.expand(res.At(i).Type(), mkApp(name, res.At(i).Type(), args...))
		e.wf(p.st, res.At(i).Type(), v)
		ret = append(ret, v)
	}
	outs := []Outcome{{p.st, ret}}
	if e.mayReturnNil[f] && len(ret) == 1 {
		q := p.st.clone()
		if q.assume(q.eqTerms(ret[0], tNil), true) {
			outs = append(outs, Outcome{q, []*Term{tNil}})
		}
		p.st.assume(p.st.eqTerms(ret[0], tNil), false)
	}
	return outs
}

// appenderDst returns the position of the buffer of a function that appends
// something to a buffer: func(..., dst []byte, ...) []byte, or with an error.
func (e *Engine) appenderDst(f *ssa.Function) int {
	sig := f.Signature
	res := sig.Results()
	if res.Len() == 0 || res.Len() > 2 || !isByteSlice(res.At(0).Type()) || sig.Recv() != nil {
		return -1
	}
	if res.Len() == 2 && !isErrorT(res.At(1).Type()) {
		return -1
	}
	d := -1
	for i := 0; i < sig.Params().Len(); i++ {
		if isByteSlice(sig.Params().At(i).Type()) {
			if d >= 0 {
				// two byte slices: the buffer is the first one
				return d
			}
			d = i
		}
	}
	return d
}

func isErrorT(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// opaqueAppend is a call of an appender analysed on its own.
func (e *Engine) opaqueAppend(fr *frame, p *path, in ssa.CallInstruction, f *ssa.Function, d int, args []*Term) []Outcome {
	st := p.st
	e.event("append", st, fr, in, f.Name(), args...)
	instr := e.isInstr(f.Signature)
	lo := int64(0)
	if instr {
		lo = 1
	}
	if e.strApp[f] {
		lo = 2
	}
	pa := []*Term{e.lenSym(st, "alen", lo, maxLen)}
	for i, a := range args {
		if i == d {
			continue
		}
		t := f.Signature.Params().At(i).Type()
		if isByteSlice(t) || isStringT(t) {
			pa = append(pa, mkTuple(e.content(st, a)...))
		} else {
			pa = append(pa, a)
		}
	}
	kind := "app"
	if instr {
		kind = "elem"
		pa = []*Term{pa[0], mk(OFunc, "", 0, f, nil, nil), args[0], args[2]}
	}
	var x any = f
	if instr {
		x = nil
	}
	var outs []Outcome
	if f.Signature.Results().Len() == 2 {
		q := st.clone()
		d2 := e.appendTo(q, fr, in, args[d], []*Term{piece("junk", 0, nil, e.lenSym(q, "junk", 0, maxLen))}, tByteT)
		outs = append(outs, Outcome{q, []*Term{d2, e.failed(q, in, "append:"+f.Name())}})
	}
	if instr {
		e.noteElem(st, pa[0], args[0])
	}
	dst := e.appendTo(st, fr, in, args[d], []*Term{piece(kind, 0, x, pa...)}, tByteT)
	if f.Signature.Results().Len() == 2 {
		return append([]Outcome{{st, []*Term{dst, nilIface}}}, outs...)
	}
	return []Outcome{{st, []*Term{dst}}}
}

func (e *Engine) lenSym(st *State, name string, lo, hi int64) *Term {
	n := fresh(name, tInt)
	st.assumeIn(n, between(lo, hi))
	return n
}

// failed is a new error; the path is marked, so that it is known to go on after
// a failure.
func (e *Engine) failed(st *State, in ssa.Instruction, kind string) *Term {
	er := e.freshErr(kind)
	st.tags["fail:"+kind+"@"+e.pos(in)] = strC(kind)
	return er
}

func (e *Engine) freshErr(kind string) *Term {
	freshSeq++
	return mkApp("err", nil, strC(kind), intC(int64(freshSeq)))
}

// minLen is the least number of bytes an encoder writes: two if it is known to
// write a string (and nothing is waived).
func (e *Engine) minLen(fn *Term) int64 {
	if e.twoBytes[fn] {
		return 2
	}
	if fn.op == OApp {
		if n, ok := strings.CutPrefix(fn.s, "built:"); ok && e.strBuilder[n] {
			return 2
		}
	}
	return 1
}

// noteElem keeps what is at the address an encoder is given, if that is a
// variable of the function: the variable may be gone when the output is judged.
func (e *Engine) noteElem(st *State, n, ptr *Term) {
	base, off := ptrParts(st.res(ptr))
	o := st.obj(st.res(base))
	if o == nil || o.kind != KCells || !isInt(off, 0) {
		return
	}
	var offs []int64
	for c := range o.cells {
		if c >= 0 {
			offs = append(offs, c)
		}
	}
	sort.Slice(offs, func(i, j int) bool { return offs[i] < offs[j] })
	var vs []*Term
	for _, c := range offs {
		vs = append(vs, st.res(o.cells[c]))
	}
	if e.elemVal == nil {
		e.elemVal = map[*Term]*Term{}
	}
	e.elemVal[n] = mkTuple(vs...)
}

// contract: an encoder appends exactly one value or fails.
func (e *Engine) contract(fr *frame, p *path, in ssa.CallInstruction, fn *Term, args []*Term) []Outcome {
	st := p.st
	e.event("encode", st, fr, in, "", append([]*Term{fn}, args...)...)
	q := st.clone()
	freshSeq++
	n := e.lenSym(st, "elen", e.minLen(fn), maxLen)
	el := piece("elem", int64(0), nil, n, fn, args[0], args[2])
	e.noteElem(st, n, args[0])
	d := e.appendTo(st, fr, in, args[1], []*Term{el}, tByteT)
	d2 := e.appendTo(q, fr, in, args[1], []*Term{piece("junk", 0, nil, e.lenSym(q, "junk", 0, maxLen))}, tByteT)
	er := e.failed(q, in, "encode")
	return []Outcome{{st, []*Term{d, nilIface}}, {q, []*Term{d2, er}}}
}

func (e *Engine) freshRes(st *State, name string, t types.Type) *Term {
	v := e.expand(t, fresh(name, t))
	e.wf(st, t, v)
	return v
}

// opaqueFn calls an unknown function value.
func (e *Engine) opaqueFn(fr *frame, p *path, in ssa.CallInstruction, sig *types.Signature, fn *Term, args []*Term) []Outcome {
	st := p.st
	if sig.Params().Len() == 1 && sig.Results().Len() == 1 && termBoolT(sig.Results().At(0).Type()) {
		if b, ok := sig.Params().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			e.event("predicate", st, fr, in, "", fn, args[0])
			return []Outcome{{st, []*Term{mkApp("pred", tBoolT, fn, args[0])}}}
		}
	}
	e.event("callback", st, fr, in, "", append([]*Term{fn}, args...)...)
	for _, a := range args {
		e.havoc(st, a)
	}
	var ret []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		ret = append(ret, e.freshRes(st, "cb", sig.Results().At(i).Type()))
	}
	return []Outcome{{st, ret}}
}

func termBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// havoc forgets the content of an object the callee may write to.
func (e *Engine) havoc(st *State, a *Term) {
	if a.op == OMkI {
		a = a.a[0]
	}
	if a.op != OPtr && a.op != OObj {
		return
	}
	if o := st.obj(baseOf(a)); o != nil && o.prov != "global" {
		o = st.mut(o)
		switch o.kind {
		case KCells:
			for k := range o.cells {
				freshSeq++
				o.cells[k] = mkApp("havoc", nil, objT(o.id), intC(k), intC(int64(freshSeq)))
			}
			ls := e.leaves(o.typ)
			for _, l := range ls {
				freshSeq++
				o.cells[l.off] = mkApp("havoc", l.typ, objT(o.id), intC(l.off), intC(int64(freshSeq)))
			}
			o.zero = false
		case KMap:
			o.zero = false
			o.ents = nil
		case KLog:
			o.log = []*Term{piece("junk", 0, nil, logTotal(o.log))}
		}
	}
}

func (e *Engine) builtin(fr *frame, p *path, in ssa.CallInstruction, c *ssa.CallCommon, name string, args []*Term) []Outcome {
	st := p.st
	one := func(v *Term) []Outcome { return []Outcome{{st, []*Term{v}}} }
	switch name {
	case "len":
		t := c.Args[0].Type().Underlying()
		switch u := t.(type) {
		case *types.Slice:
			_, n, _ := sliceParts(args[0])
			return one(st.res(n))
		case *types.Basic:
			_, n := strParts(args[0])
			return one(st.res(n))
		case *types.Array:
			return one(intC(u.Len()))
		case *types.Pointer:
			return one(intC(u.Elem().Underlying().(*types.Array).Len()))
		case *types.Map:
			if args[0] == tNil {
				return one(tZero)
			}
			n := mkApp("maplen", tInt, args[0])
			if o := st.obj(baseOf(args[0])); o != nil && o.kind == KMap {
				if o.zero && len(o.ents) == 0 {
					return one(tZero)
				}
				n = mkApp("maplen", tInt, append([]*Term{args[0]}, o.ents...)...)
			}
			st.assumeIn(n, between(0, maxLen))
			return one(n)
		}
		n := fresh("len", tInt)
		st.assumeIn(n, between(0, maxLen))
		return one(n)
	case "cap":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			_, _, n := sliceParts(args[0])
			return one(n)
		case *types.Array:
			return one(intC(u.Len()))
		}
		return one(e.lenSym(st, "cap", 0, maxLen))
	case "append":
		st1 := c.Args[0].Type().Underlying().(*types.Slice)
		if len(args) == 1 {
			return one(args[0])
		}
		var ps []*Term
		if isStringT(c.Args[1].Type()) {
			ps = e.content(st, args[1])
		} else {
			ps = e.elements(st, args[1], st1.Elem())
		}
		return one(e.appendTo(st, fr, in.(ssa.Instruction), args[0], ps, st1.Elem()))
	case "copy":
		return e.copyOp(fr, p, in, c, args)
	case "delete":
		if o := st.obj(baseOf(args[0])); o != nil && o.kind == KMap {
			o = st.mut(o)
			o.ents = nil
			o.zero = false
			e.event("map-update", st, fr, in, o.prov, args[0], args[1], tNil)
		} else {
			e.event("store-opaque", st, fr, in, "map", args[0], tNil)
		}
		return []Outcome{{st, nil}}
	case "clear":
		if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			ptr, n, _ := sliceParts(args[0])
			base, off := ptrParts(ptr)
			if o := st.obj(base); o != nil && o.kind == KLog {
				if idx, ok := divLinC(off, e.sizes.Sizeof(sl.Elem())); ok {
					e.overwrite(st, o, idx, n, []*Term{piece("zero", 0, nil, n)})
				}
			} else {
				e.event("store-opaque", st, fr, in, "clear", args[0], tNil)
			}
		} else if o := st.obj(baseOf(args[0])); o != nil && o.kind == KMap {
			o = st.mut(o)
			o.ents = nil
			o.zero = true
		} else {
			e.event("store-opaque", st, fr, in, "map", args[0], tNil)
		}
		return []Outcome{{st, nil}}
	case "panic":
		e.event("panic", st, fr, in, "", args...)
		return nil
	case "recover":
		return one(nilIface)
	case "print", "println", "close":
		return []Outcome{{st, nil}}
	case "min", "max":
		v := args[0]
		outs := []Outcome{}
		cur := st
		if len(args) == 2 && isIntT(c.Args[0].Type()) {
			cond := inT(subT(args[0], args[1]), between(NINF, 0)) // a<=b
			a, b := args[0], args[1]
			if name == "max" {
				a, b = b, a
			}
			switch cur.decide(cond) {
			case 1:
				return one(a)
			case 0:
				return one(b)
			}
			q := cur.clone()
			if cur.assume(cond, true) {
				outs = append(outs, Outcome{cur, []*Term{a}})
			}
			if q.assume(cond, false) {
				outs = append(outs, Outcome{q, []*Term{b}})
			}
			return outs
		}
		_ = v
		return one(e.freshRes(st, name, c.Signature().Results().At(0).Type()))
	case "ssa:wrapnilchk":
		return one(args[0])
	case "Add": // unsafe.Add
		return one(mkPtr(args[0], args[1]))
	case "Slice":
		return one(mkSlice(args[0], args[1], args[1]))
	case "String":
		return one(mkStr(args[0], args[1]))
	case "SliceData":
		q, _, _ := sliceParts(args[0])
		return one(q)
	case "StringData":
		q, _ := strParts(args[0])
		return one(q)
	}
	e.problem("builtin %s at %s", name, e.pos(in))
	if c.Signature().Results().Len() > 0 {
		return one(e.freshRes(st, name, c.Signature().Results().At(0).Type()))
	}
	return []Outcome{{st, nil}}
}

func (e *Engine) copyOp(fr *frame, p *path, in ssa.CallInstruction, c *ssa.CallCommon, args []*Term) []Outcome {
	var outs []Outcome
	dp, dn, _ := sliceParts(args[0])
	var sn *Term
	str := isStringT(c.Args[1].Type())
	if str {
		_, sn = strParts(args[1])
	} else {
		_, sn, _ = sliceParts(args[1])
	}
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	do := func(st *State, n *Term) {
		if isInt(n, 0) {
			outs = append(outs, Outcome{st, []*Term{n}})
			return
		}
		var ps []*Term
		if str {
			ps = e.content(st, args[1])
		} else {
			ps = e.elements(st, args[1], et)
		}
		if l, _, ok := st.cut(ps, n); ok {
			ps = l
		} else {
			ps = []*Term{piece("junk", 0, nil, n)}
		}
		base, off := ptrParts(st.res(dp))
		o := st.obj(st.res(base))
		switch {
		case o == nil:
			e.event("store-opaque", st, fr, in, "copy", args[0], n)
		case o.kind == KLog:
			idx, ok := divLinC(off, e.sizes.Sizeof(et))
			if ok {
				e.event("log-copy", st, fr, in, "", objT(o.id), idx, n)
				e.overwrite(st, o, idx, n, ps)
			}
		case o.kind == KCells:
			if o.prov == "global" {
				e.event("store-global", st, fr, in, o.site, args[0], n)
			}
			o = st.mut(o)
			at, ok := st.constOf(off)
			for _, q := range ps {
				if !ok {
					break
				}
				switch q.s {
				case "lit":
					for i := 0; i < len(q.x.(string)); i++ {
						o.cells[at+int64(i)] = intC(int64(q.x.(string)[i]))
					}
					at += int64(len(q.x.(string)))
				case "byte":
					o.cells[at] = q.a[0]
					at++
				case "elt":
					ls := e.leaves(et)
					fs := e.flatten(et, q.a[0])
					for i := range ls {
						o.cells[at+ls[i].off] = fs[i]
					}
					at += e.sizes.Sizeof(et)
				case "raw":
					if k, kok := st.constOf(pieceLen(q)); kok && k <= 4096 && isByteT(et) {
						for i := int64(0); i < k; i++ {
							o.cells[at+i] = mkApp("byte", tByteT, q.a[0], addT(q.a[1], intC(i)))
						}
						at += k
					} else {
						ok = false
					}
				default:
					ok = false
				}
			}
			if !ok {
				for k := range o.cells {
					delete(o.cells, k)
				}
				o.zero = false
			}
		}
		outs = append(outs, Outcome{st, []*Term{n}})
	}
	st := p.st
	switch {
	case st.le(sn, dn):
		do(st, sn)
	case st.le(dn, sn):
		do(st, dn)
	default:
		q := st.clone()
		if st.assume(inT(subT(sn, dn), between(NINF, 0)), true) {
			do(st, sn)
		}
		if q.assume(inT(subT(sn, dn), between(1, INF)), true) {
			do(q, dn)
		}
	}
	return outs
}

// invoke interprets an interface method call.
func (e *Engine) invoke(fr *frame, p *path, in ssa.CallInstruction, c *ssa.CallCommon, args []*Term) []Outcome {
	st := p.st
	recv := args[0]
	name := c.Method.Name()
	if st.decide(st.eqTerms(recv, nilIface)) == 1 {
		e.event("nilcall", st, fr, in, "method call on a nil interface")
		return nil
	}
	it := c.Value.Type()
	if isReflectType(it) {
		return e.reflectMethod(fr, p, in, name, recv, args[1:], c.Signature())
	}
	if dt := e.dynType(st, recv); dt != nil {
		if f := e.prog.LookupMethod(dt, c.Method.Pkg(), name); f != nil {
			v := recv
			if recv.op == OMkI {
				v = recv.a[0]
			}
			nargs := append([]*Term{v}, args[1:]...)
			return e.callFn(fr, p, in, f, nargs, nil)
		}
	}
	switch name {
	case "AppendJSON", "AppendJSONContext":
		dst := args[len(args)-1]
		e.event("usercall", st, fr, in, name, args...)
		q := st.clone()
		n := e.lenSym(st, "ulen", 1, maxLen)
		what := []*Term{n, recv}
		if len(args) == 3 {
			what = append(what, args[1])
		}
		d := e.appendTo(st, fr, in, dst, []*Term{piece("elem", 0, name, what...)}, tByteT)
		er := e.failed(q, in, name)
		d2 := e.expand(dst2T(c), fresh("userdst", dst2T(c)))
		return []Outcome{{st, []*Term{d, nilIface}}, {q, []*Term{d2, er}}}
	case "MarshalJSON", "MarshalText":
		e.event("usercall", st, fr, in, name, args...)
		q := st.clone()
		t := c.Signature().Results().At(0).Type()
		b := e.expand(t, mkApp("userbytes:"+name, t, recv))
		e.wf(st, t, b)
		er := e.failed(q, in, name)
		b2 := e.expand(t, mkApp("usererrbytes", t, recv))
		e.wf(q, t, b2)
		return []Outcome{{st, []*Term{b, nilIface}}, {q, []*Term{b2, er}}}
	case "Error", "String":
		t := c.Signature().Results()
		if t.Len() == 1 {
			v := e.expand(t.At(0).Type(), mkApp("str."+name, t.At(0).Type(), recv))
			e.wf(st, t.At(0).Type(), v)
			return []Outcome{{st, []*Term{v}}}
		}
	}
	e.event("invoke", st, fr, in, name, args...)
	for _, a := range args[1:] {
		e.havoc(st, a)
	}
	var ret []*Term
	for i := 0; i < c.Signature().Results().Len(); i++ {
		ret = append(ret, e.freshRes(st, "inv."+name, c.Signature().Results().At(i).Type()))
	}
	return []Outcome{{st, ret}}
}

func dst2T(c *ssa.CallCommon) types.Type { return c.Signature().Results().At(0).Type() }

func isReflectType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Type"
}

func (e *Engine) reflectMethod(fr *frame, p *path, in ssa.CallInstruction, name string, T *Term, args []*Term, sig *types.Signature) []Outcome {
	st := p.st
	T = st.res(T)
	one := func(v *Term) []Outcome { return []Outcome{{st, []*Term{v}}} }
	e.event("rtype", st, fr, in, name, append([]*Term{T}, args...)...)
	rt := sig.Results().At(0).Type()
	switch name {
	case "Kind":
		k := mkApp("rt.Kind", types.Typ[types.Uint], T)
		if k.op != OInt {
			st.assumeIn(k, between(0, 26))
		}
		return one(k)
	case "Elem", "Key":
		return one(mkApp("rt."+name, rt, T))
	case "Implements":
		return one(mkApp("implements", tBoolT, T, st.res(args[0])))
	case "AssignableTo", "ConvertibleTo":
		return one(mkApp("rt."+name, tBoolT, T, args[0]))
	case "Comparable":
		return one(mkApp("rt."+name, tBoolT, T))
	case "Len", "NumField", "NumMethod", "Align":
		if T.op == OTypeC {
			switch u := T.x.(types.Type).Underlying().(type) {
			case *types.Struct:
				if name == "NumField" {
					return one(intC(int64(u.NumFields())))
				}
			case *types.Array:
				if name == "Len" {
					return one(intC(u.Len()))
				}
			case *types.Interface:
				if name == "NumMethod" {
					return one(intC(int64(u.NumMethods())))
				}
			}
		}
		n := mkApp("rt."+name, tInt, T)
		st.assumeIn(n, between(0, maxLen))
		return one(n)
	case "Size":
		if T.op == OTypeC {
			return one(intC(e.sizes.Sizeof(T.x.(types.Type))))
		}
		n := mkApp("rt.Size", types.Typ[types.Uintptr], T)
		st.assumeIn(n, between(0, maxLen))
		return one(n)
	}
	v := e.expand(rt, mkApp("rt."+name, rt, append([]*Term{T}, args...)...))
	e.wf(st, rt, v)
	return one(v)
}

// assertVal is the value of a successful assertion to a concrete type.
func (e *Engine) assertVal(st *State, v *Term, T types.Type, in ssa.Instruction) *Term {
	if v.op == OApp && v.s == "poolget" {
		if pt, ok := T.Underlying().(*types.Pointer); ok {
			tag := fmt.Sprintf("poolobj:%d", v.id)
			if o := st.tags[tag]; o != nil {
				return o
			}
			p := e.poolObject(st, pt.Elem(), v.a[0].String())
			st.tags[tag] = p
			return p
		}
	}
	return e.expand(T, mkApp("assert", T, v))
}

// poolObject is an object a pool hands out: anything its type allows, as far
// as the states in which objects are given back allow it.
func (e *Engine) poolObject(st *State, t types.Type, pool string) *Term {
	o := st.newObj(KCells, t, false, "pool")
	o.site = pool
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			sl, ok := f.Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			off := e.fieldOff(s, i)
			m := st.newObj(KLog, sl.Elem(), false, "poolmem")
			m.site = pool
			n := tZero
			cp := e.lenSym(st, "pcap", 0, maxLen)
			if e.poolDirty[pool+"."+f.Name()] {
				n = e.lenSym(st, "plen", 0, maxLen)
				m.log = []*Term{piece("junk", 0, "stale", n)}
				st.assumeIn(subT(cp, n), between(0, maxLen))
			}
			o.cells[off] = mkPtr(objT(m.id), tZero)
			o.cells[off+8] = n
			o.cells[off+16] = cp
		}
	}
	return mkPtr(objT(o.id), tZero)
}

// notePut records the state in which an object enters a pool.
func (e *Engine) notePut(st *State, pool string, v *Term) {
	var t types.Type
	if v.op == OMkI {
		t = v.x.(types.Type)
		m := e.putTypes[pool]
		if m == nil {
			m = map[string]types.Type{}
			e.putTypes[pool] = m
		}
		m[typeKey(t)] = t
		if o := st.obj(baseOf(v.a[0])); o != nil && o.kind == KCells {
			if s, ok := o.typ.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if _, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
						n := o.cells[e.fieldOff(s, i)+8]
						if n == nil && o.zero {
							continue
						}
						if n == nil || !st.eqInt(n, tZero) {
							k := pool + "." + s.Field(i).Name()
							if !e.poolDirty[k] {
								e.poolDirty[k] = true
								e.dirtyChanged = true
							}
						}
					}
				}
			}
		}
	} else {
		e.putOpaque[pool] = true
	}
}

// assertKnown reports whether a value is known to have dynamic type T.
func (e *Engine) assertKnown(st *State, v *Term, T types.Type) bool {
	if v.op == OApp && (v.s == "poolget" || v.s == "smload") {
		k := v.a[0].String()
		if e.putOpaque[k] {
			return false
		}
		ts := e.putTypes[k]
		if len(ts) == 0 {
			return !e.final
		}
		for _, t := range ts {
			if !types.Identical(t, T) {
				return false
			}
		}
		return true
	}
	it, ok := T.Underlying().(*types.Interface)
	if ok && v.op == OIface {
		// an interface read from a place of a type known to be an interface that implements T
		w := v.a[0]
		if w.op == OApp && w.s == "itype" {
			w = w.a[0]
		}
		if w.op == OApp && w.s == "ld8p" && len(w.a) == 2 && w.a[0].op == OSym && w.a[0].s == "p" && isInt(w.a[1], 0) && v.a[1] == mkApp("ld8p", appType(v.a[1]), w.a[0], intC(8)) {
			for c, pol := range st.atoms {
				if pol && c.op == OApp && c.s == "implements" && c.a[1].op == OTypeC && st.rng(mkApp("rt.Kind", types.Typ[types.Uint], c.a[0])).eq(between(20, 20)) {
					if jt, ok := c.a[1].x.(types.Type).Underlying().(*types.Interface); ok && types.Implements(jt, it) {
						return true
					}
				}
			}
		}
		// an interface packed from a type known to implement T
		if w := v.a[0]; w.op == OApp && w.s == "word" {
			for c, pol := range st.atoms {
				if pol && c.op == OApp && c.s == "implements" && c.a[0] == w.a[0] && c.a[1].op == OTypeC {
					if jt, ok := c.a[1].x.(types.Type).Underlying().(*types.Interface); ok && types.Implements(jt, it) {
						return true
					}
				}
			}
		}
	}
	return false
}

func isGlobalName(st *State, t *Term) string {
	if o := st.obj(baseOf(t)); o != nil && o.prov == "global" {
		return o.site
	}
	return ""
}
