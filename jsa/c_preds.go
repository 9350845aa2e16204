package main

import (
	"golang.org/x/tools/go/ssa"
)

// Tests of types with a loop.
//
// A function func(reflect.Type) bool that walks down a type in a loop answers
// for a type either at once or as it answers for a part of the type. It is
// given the summary that a recursive function has: the answer for the part is
// left open as "built:name(part)".

type predOut struct {
	st  *State
	ret *Term
}

type predSum struct {
	arg  *Term
	outs []predOut
}

func (L *Lab) findTypePreds() {
	e := L.e
	e.typePreds = map[*ssa.Function]*predSum{}
	for _, f := range e.allFuncs() {
		sig := f.Signature
		if f.Parent() != nil || len(f.Params) != 1 || sig.Results().Len() != 1 || !isReflectType(f.Params[0].Type()) || !isBoolT(sig.Results().At(0).Type()) || len(f.Blocks) == 0 || len(e.info(f).loops) != 1 {
			continue
		}
		x := L.function(f, nil, false)
		if s := e.loopPred(f, x); s != nil {
			e.typePreds[f] = s
			x.outs = nil
			for _, o := range s.outs {
				x.outs = append(x.outs, Outcome{o.st, []*Term{o.ret}})
			}
		}
	}
}

func (e *Engine) loopPred(f *ssa.Function, x *Enc) *predSum {
	if len(x.probs) > 0 || len(x.recs) != 1 || len(x.args) != 1 {
		return nil
	}
	r, T := x.recs[0], x.args[0]
	if len(r.heads) != 1 || r.fn != f {
		return nil
	}
	var h *Term
	for _, t := range r.trans {
		if t.from >= 0 {
			continue
		}
		for k, v := range t.bind {
			if h != nil || v != T {
				return nil
			}
			h = k
		}
	}
	if h == nil {
		return nil
	}
	s := &predSum{arg: T}
	add := func(st *State, ret *Term) bool {
		for _, t := range append(factTerms(st), ret) {
			if containsTerm(t, T) {
				return false // depends on the type the loop began with
			}
		}
		q := st.clone()
		sb := newSubst(map[*Term]*Term{h: T})
		renameState(q, sb, nil)
		s.outs = append(s.outs, predOut{q, sb.do(ret)})
		return true
	}
	for _, o := range x.outs {
		if len(o.ret) != 1 || !add(o.st, o.st.res(o.ret[0])) {
			return nil
		}
	}
	for _, t := range r.trans {
		if t.from < 0 {
			continue
		}
		v := t.bind[h]
		if v == nil || v == h || len(t.bind) != 1 {
			return nil
		}
		if !add(t.st, mkApp("built:"+f.Name(), f.Signature.Results().At(0).Type(), t.st.res(v))) {
			return nil
		}
	}
	return s
}

// applyPred is a call of such a function.
func (e *Engine) applyPred(p *path, s *predSum, arg *Term) []Outcome {
	var outs []Outcome
	for _, o := range s.outs {
		q := p.st.clone()
		sb := newSubst(map[*Term]*Term{s.arg: arg})
		if addFacts(q, o.st, sb) {
			outs = append(outs, Outcome{q, []*Term{q.res(sb.do(o.ret))}})
		}
	}
	return outs
}
