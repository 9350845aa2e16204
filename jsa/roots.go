package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Roots describes the functions the analyses start from. They are found by
// their signatures and by the call graph, not by their text.
type Roots struct {
	builders map[*ssa.Function]bool // functions that make an encoder
	cyclic   map[*ssa.Function]bool // ... that need encoders of other types
	fieldsOf map[*ssa.Function]bool // functions that list the fields of a type
	emptyOf  map[*ssa.Function]bool // functions that make a test for empty values
	core     *ssa.Function          // func(reflect.Type, bool, bool) instruction
	cached   *ssa.Function          // func(reflect.Type) instruction
	structB  map[*ssa.Function]bool // builders that use the fields of the type
	keyB     map[*ssa.Function]bool // builders of encoders of map keys, and for unsupported types
	fieldT   types.Type
	appender map[*ssa.Function]bool // functions that append something made of plain data
	e        *Engine
}

func sigOf(t types.Type) *types.Signature {
	s, _ := t.Underlying().(*types.Signature)
	return s
}

func (e *Engine) isInstrType(t types.Type) bool {
	s := sigOf(t)
	return s != nil && s.Recv() == nil && e.isInstr(s)
}

// refs lists the functions a function mentions: callees, function values and closures.
func refs(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && !seen[g] {
					seen[g] = true
					r = append(r, g)
				}
			}
		}
	}
	return r
}

func (e *Engine) roots() *Roots {
	r := &Roots{builders: map[*ssa.Function]bool{}, cyclic: map[*ssa.Function]bool{}, fieldsOf: map[*ssa.Function]bool{}, emptyOf: map[*ssa.Function]bool{}}
	fns := e.allFuncs()
	own := map[*ssa.Function]bool{}
	for _, f := range fns {
		own[f] = true
		sig := f.Signature
		if sig.Results().Len() == 1 && e.isInstrType(sig.Results().At(0).Type()) {
			r.builders[f] = true
		}
		if sig.Results().Len() == 1 && sig.Params().Len() == 1 && sig.Recv() == nil && isReflectType(sig.Params().At(0).Type()) && isPredicate(sigOf(sig.Results().At(0).Type())) {
			r.emptyOf[f] = true
		}
		if sig.Results().Len() == 1 && sig.Params().Len() == 1 && sig.Recv() == nil && isReflectType(sig.Params().At(0).Type()) {
			if sl, ok := sig.Results().At(0).Type().Underlying().(*types.Slice); ok {
				if s, ok := sl.Elem().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if e.isInstrType(s.Field(i).Type()) {
							r.fieldsOf[f] = true
							r.fieldT = sl.Elem()
						}
					}
				}
			}
		}
	}
	// functions on a cycle of the reference graph, not looking into encoders
	reach := func(from, to *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			for _, g := range refs(f) {
				if !own[g] || e.isInstr(g.Signature) && g.Signature.Recv() == nil {
					continue
				}
				if g == to {
					return true
				}
				if !seen[g] {
					seen[g] = true
					if walk(g) {
						return true
					}
				}
			}
			return false
		}
		return walk(from)
	}
	for f := range r.builders {
		if reach(f, f) {
			r.cyclic[f] = true
		}
	}
	r.e = e
	r.appender = map[*ssa.Function]bool{}
	for _, f := range fns {
		if f.Parent() == nil && e.contentAppender(f) && r.loopsInside(f) {
			r.appender[f] = true
		}
	}
	r.structB, r.keyB = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for f := range r.builders {
		for _, g := range refs(f) {
			if r.fieldsOf[g] && r.cyclic[f] {
				r.structB[f] = true
			}
		}
		if ps := f.Signature.Params(); !r.cyclic[f] && ps.Len() == 1 && isReflectType(ps.At(0).Type()) && f.Parent() == nil {
			r.keyB[f] = true
		}
	}
	for _, f := range fns {
		if f.Parent() != nil {
			continue
		}
		ps := f.Signature.Params()
		if r.cyclic[f] && ps.Len() == 3 && isReflectType(ps.At(0).Type()) && isBoolT(ps.At(1).Type()) && isBoolT(ps.At(2).Type()) && r.core == nil {
			r.core = f
		}
		if r.builders[f] && !r.cyclic[f] && ps.Len() == 1 && isReflectType(ps.At(0).Type()) {
			for g := range r.cyclic {
				if reach(f, g) {
					r.cached = f
				}
			}
		}
	}
	if f := e.fn("newInstruction"); f != nil && r.cyclic[f] {
		r.core = f
	}
	if f := e.fn("cachedInstr"); f != nil && r.builders[f] {
		r.cached = f
	}
	return r
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func onStack(fr *frame, f *ssa.Function) bool {
	for ; fr != nil; fr = fr.caller {
		if fr.fn == f {
			return true
		}
	}
	return false
}

// buildOpaque is the calling policy while encoders are made.
func (r *Roots) buildOpaque(f *ssa.Function, args []*Term, fr *frame) bool {
	return r.cyclic[f] && onStack(fr, f) || r.fieldsOf[f] || r.emptyOf[f] || (r.structB[f] || r.keyB[f]) && fr != nil && fr.caller != nil
}

// encodeOpaque is the calling policy while values are encoded.
func (r *Roots) encodeOpaque(f *ssa.Function, args []*Term, fr *frame) bool {
	if fr != nil && r.appender[f] {
		return true
	}
	if fr != nil && fr.fn.Parent() != nil && !r.e.isInstr(fr.fn.Signature) && r.e.appenderDst(f) >= 0 {
		return true // called by the callback of an iteration
	}
	if fr != nil && r.textPredicate(f) && !(len(args) == 1 && args[0].op == OStrC) {
		return true
	}
	return r.cyclic[f] || f == r.cached || r.fieldsOf[f] || r.emptyOf[f] || r.builders[f] && !r.wrapper(f)
}

// textPredicate recognises the functions that look through a text and say yes
// or no, analysed on their own.
func (r *Roots) textPredicate(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Params().Len() != 1 || sig.Results().Len() != 1 || sig.Recv() != nil || !isBoolT(sig.Results().At(0).Type()) || len(f.Blocks) == 0 || len(f.FreeVars) > 0 {
		return false
	}
	t := sig.Params().At(0).Type()
	return (isStringT(t) || isByteSlice(t)) && r.loopsInside(f)
}

// roots of the debug driver
func (e *Engine) setPolicy(r *Roots, f *ssa.Function) {
	if r.fieldsOf[f] || r.fieldFn(f) {
		e.coarse = true
		e.opaqueCall = r.fieldsOpaque
		return
	}
	if r.emptyOf[f] {
		e.opaqueCall = nil
		return
	}
	if r.builders[f] {
		e.opaqueCall = r.buildOpaque
		if f == r.cached {
			e.opaqueCall = r.encodeOpaque
		}
		return
	}
	e.opaqueCall = r.encodeOpaque
}

// isPredicate recognises func(unsafe.Pointer) bool.
func isPredicate(s *types.Signature) bool {
	if s == nil || s.Params().Len() != 1 || s.Results().Len() != 1 || !isBoolT(s.Results().At(0).Type()) {
		return false
	}
	b, ok := s.Params().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// wrapper reports whether a builder makes an encoder from another one.
func (r *Roots) wrapper(f *ssa.Function) bool {
	ps := f.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if s := sigOf(ps.At(i).Type()); s != nil {
			return true
		}
	}
	return false
}

// fieldsOpaque is the calling policy while the fields of a type are listed.
func (r *Roots) fieldsOpaque(f *ssa.Function, args []*Term, fr *frame) bool {
	return r.builders[f] || r.emptyOf[f] || pureStringFn(f)
}

// pureStringFn recognises functions of plain values that only compute a result:
// predicates, and searches through strings.
func pureStringFn(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Results().Len() == 0 || len(f.Blocks) == 0 || len(f.FreeVars) > 0 {
		return false
	}
	var plain func(t types.Type) bool
	plain = func(t types.Type) bool {
		if isReflectType(t) {
			return true
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return true
		case *types.Slice:
			b, ok := u.Elem().Underlying().(*types.Basic)
			return ok && b.Kind() == types.String
		case *types.Struct:
			return types.TypeString(t, nil) == "reflect.StructField"
		}
		return false
	}
	for _, p := range f.Params {
		if !plain(p.Type()) {
			return false
		}
	}
	pred := true
	for i := 0; i < sig.Results().Len(); i++ {
		b, ok := sig.Results().At(i).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsString != 0 {
			return false
		}
		if b.Info()&types.IsBoolean == 0 {
			pred = false
		}
	}
	loop := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
				return false
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); !ok || a.Heap {
					return false
				}
			}
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				loop = true
			}
		}
	}
	return loop || pred
}

// fieldFn recognises the functions that handle fields of types.
func (r *Roots) fieldFn(f *ssa.Function) bool {
	if r.fieldT == nil || r.builders[f] {
		return false
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		if types.Identical(t, r.fieldT) {
			return true
		}
	}
	return false
}

// contentAppender recognises the functions that append something made of plain
// data (bytes, numbers, times) to a buffer.
func (e *Engine) contentAppender(f *ssa.Function) bool {
	if e.appenderDst(f) < 0 || e.isInstr(f.Signature) || len(f.Blocks) == 0 {
		return false
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		t := f.Signature.Params().At(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr {
				return false
			}
		case *types.Slice:
			if !isByteSlice(t) {
				return false
			}
		case *types.Struct:
			if !types.Identical(t, e.encOpts) && types.TypeString(t, nil) != "time.Time" {
				return false
			}
		default:
			return false
		}
	}
	return f.Signature.Params().Len() > 1
}

// loopsInside: does a function have loops, counting those of the functions it
// calls other than appenders?
func (r *Roots) loopsInside(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		if ownLoops(f) {
			return true
		}
		for _, g := range refs(f) {
			if r.e.pkgs[g.Pkg] && !r.e.isInstr(g.Signature) && !(g.Parent() == nil && r.e.contentAppender(g)) && walk(g) {
				return true
			}
		}
		return false
	}
	return walk(f)
}

func ownLoops(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}
