package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// OptEffect is what an option does to the set of options of a call, found by
// running it abstractly.
type OptEffect struct {
	name  string
	fn    *ssa.Function
	field int   // the leaf of the options it changes
	mask  int64 // the bit it sets, for flags; 0 if it stores a value
	val   *Term // what it stores
	arg   []*Term
	st    *State
	runs  *Enc
	multi []int // all changed leaves
	clear bool
	und   string
	alts  []*OptEffect // the ways it can be made
	opts  *Term        // the options before
	bad   string       // a way that does not set what the option is for
}

// options runs all exported functions that return an option.
func (L *Lab) options() map[string]*OptEffect {
	if L.opts != nil {
		return L.opts
	}
	e := L.e
	L.opts = map[string]*OptEffect{}
	for _, m := range sortedKeys(e.main.Members) {
		f, ok := e.main.Members[m].(*ssa.Function)
		if !ok || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil {
			continue
		}
		res := f.Signature.Results()
		if res.Len() != 1 {
			continue
		}
		s := sigOf(res.At(0).Type())
		if s == nil || s.Params().Len() != 1 || s.Results().Len() != 0 {
			continue
		}
		pt, ok := s.Params().At(0).Type().(*types.Pointer)
		if !ok || !types.Identical(pt.Elem(), e.encOpts) {
			continue
		}
		L.opts[m] = L.optionEffect(f)
	}
	return L.opts
}

func (L *Lab) optionEffect(f *ssa.Function) *OptEffect {
	oe := &OptEffect{name: f.Name(), fn: f, field: -1}
	x := L.function(f, nil, false)
	oe.runs = x
	if !x.ok() || len(x.outs) == 0 {
		oe.und = "the option " + f.Name() + " is not made in a known way"
		return oe
	}
	oe.arg = x.args
	for _, o := range x.outs {
		oe.alts = append(oe.alts, L.optionAlts(f, o)...)
	}
	a := oe.alts[0]
	oe.field, oe.mask, oe.val, oe.st, oe.multi, oe.und, oe.opts = a.field, a.mask, a.val, a.st, a.multi, a.und, a.opts
	if len(oe.alts) > 1 && !oe.unify(L.e) {
		oe.und = "the option " + f.Name() + " is made in several ways"
		oe.mask = 0
		oe.val = nil
		for _, b := range oe.alts {
			if b.field >= 0 && oe.field < 0 {
				oe.field = b.field
			}
			if b.field >= 0 && b.field != oe.field {
				oe.field = -1
				break
			}
		}
	}
	return oe
}

// unify makes one effect of an option that works in several ways, if it has
// the same effect in all of them.
func (oe *OptEffect) unify(e *Engine) bool {
	field, mask, bad := -1, int64(0), ""
	for _, b := range oe.alts {
		if b.und != "" || b.opts == nil || len(b.multi) > 1 {
			return false
		}
		if b.field < 0 {
			continue
		}
		if field >= 0 && (field != b.field || mask != b.mask) {
			return false
		}
		field, mask = b.field, b.mask
	}
	if field < 0 {
		return false
	}
	oe.field, oe.mask, oe.multi = field, mask, []int{field}
	switch {
	case mask != 0:
		for _, b := range oe.alts {
			if b.field >= 0 {
				oe.val, oe.st = b.val, b.st
				continue
			}
			// nothing is changed: the flag must be set already
			st := b.st.clone()
			t := e.andT(st, b.opts.a[field], intC(mask), types.Typ[types.Uint64])
			if !st.assume(inT(t, single(mask)), false) {
				continue
			}
			bad = "the option is ignored on one path"
		}
	case len(oe.arg) == 1:
		ty := oe.fn.Signature.Params().At(0).Type()
		if f, ok := leafType(e.encOpts, field); !ok || !types.Identical(f, ty) {
			return false
		}
		for _, b := range oe.alts {
			v := b.opts.a[field]
			if b.field >= 0 {
				v = b.val
			}
			switch b.st.decide(e.compare(b.st, token.EQL, b.st.res(v), b.st.res(oe.arg[0]), ty, ty)) {
			case 0:
				bad = "the setting is not the argument of the option but " + v.str(4)
			case -1:
				if b.st.res(v) == b.st.res(oe.arg[0]) {
					continue
				}
				if b.field >= 0 && !constTerm(v) {
					return false
				}
				bad = "the setting is not the argument of the option on one path but " + v.str(4)
			}
		}
		oe.val, oe.st = oe.arg[0], oe.alts[0].st
	default:
		return false
	}
	oe.bad = bad
	return true
}

// optionAlts runs an option that was made on one path.
func (L *Lab) optionAlts(f *ssa.Function, out Outcome) []*OptEffect {
	e := L.e
	oe := &OptEffect{name: f.Name(), fn: f, field: -1, st: out.st}
	one := []*OptEffect{oe}
	if len(out.ret) != 1 {
		oe.und = "the option " + f.Name() + " is not made in a known way"
		return one
	}
	st := out.st.clone()
	fn := st.res(out.ret[0])
	oe.opts = e.expand(e.encOpts, sym("opts", e.encOpts))
	if fn == tNil {
		return one
	}
	cf, ok := fn.x.(*ssa.Function)
	if !ok {
		oe.und = "the option " + f.Name() + " is not a known function"
		return one
	}
	opts := e.expand(e.encOpts, sym("opts", e.encOpts))
	e.wf(st, e.encOpts, opts)
	o := st.newObj(KCells, e.encOpts, true, "options")
	ptr := mkPtr(objT(o.id), tZero)
	e.store(st, nil, nil, ptr, e.encOpts, opts)
	var bind []*Term
	if fn.op == OClos {
		bind = fn.a
	}
	y := L.runFn(f.Name()+" applied", cf, []*Term{ptr}, bind, st, nil, false)
	if !y.ok() || len(y.outs) == 0 {
		oe.und = "what the option " + f.Name() + " does is not known"
		return one
	}
	var r []*OptEffect
	for _, out := range y.outs {
		oe := &OptEffect{name: f.Name(), fn: f, field: -1, st: out.st, opts: opts}
		r = append(r, oe)
		nv := e.load(oe.st, nil, nil, ptr, e.encOpts)
		if nv.op != OStruct || opts.op != OStruct || len(nv.a) != len(opts.a) {
			oe.und = "what the option " + f.Name() + " does is not known"
			continue
		}
		for i := range nv.a {
			if nv.a[i] == opts.a[i] {
				continue
			}
			oe.multi = append(oe.multi, i)
			oe.field = i
			oe.val = nv.a[i]
			if m, ok := setBit(oe.st, nv.a[i], opts.a[i]); ok {
				oe.mask = m
			} else if m, ok := setBits(oe.st.res(nv.a[i]), opts.a[i]); ok {
				oe.mask = m
			}
		}
	}
	return r
}

// setBit recognises old|mask.
func setBit(st *State, v, old *Term) (int64, bool) {
	if v.op == OApp && v.s == "or" && len(v.a) == 2 {
		for i := range v.a {
			if v.a[i] == old {
				if m, ok := st.constOf(v.a[1-i]); ok {
					return m, true
				}
			}
		}
	}
	return 0, false
}

// setBits recognises other ways to write old|mask. Each bit of the result of
// bitwise operators depends on this bit of the operands alone, so that two
// values of old, without and with all bits, decide.
func setBits(v, old *Term) (int64, bool) {
	if !bitwise(v, old) {
		return 0, false
	}
	m, ok := evalInt(v, map[*Term]int64{old: 0})
	k, ok2 := evalInt(v, map[*Term]int64{old: -1})
	return m, ok && ok2 && m != 0 && k == -1
}

func bitwise(t, old *Term) bool {
	if t == old || t.op == OInt {
		return true
	}
	if t.op != OApp || len(t.a) != 2 {
		return false
	}
	switch t.s {
	case "and", "or", "xor", "andnot":
		return bitwise(t.a[0], old) && bitwise(t.a[1], old)
	}
	return false
}

// losesFlags looks for a set of flags that other options make and that an
// option does not just add its own flags to.
func (oe *OptEffect) losesFlags(all map[string]*OptEffect) string {
	if oe.und != "" || oe.mask != 0 || oe.field < 0 || oe.opts == nil || len(oe.alts) != 1 || len(oe.arg) != 0 || oe.val == nil {
		return ""
	}
	old := oe.opts.a[oe.field]
	v := oe.st.res(oe.val)
	own, ok := evalInt(v, map[*Term]int64{old: 0})
	if !ok {
		return ""
	}
	olds := []int64{own}
	u := int64(0)
	for _, n := range sortedKeys(all) {
		p := all[n]
		if p.und == "" && p.mask != 0 && p.field == oe.field {
			olds = append(olds, p.mask)
			u |= p.mask
		}
	}
	for _, o := range append(olds, u, u|own) {
		if r, ok := evalInt(v, map[*Term]int64{old: o}); ok && r != o|own {
			return fmt.Sprintf("the option makes the flags %#x of %#x: it does not just add %#x", r, o, own)
		}
	}
	return ""
}

// flag tells whether an option is set on a path: 1 yes, 0 no, -1 unknown.
func (L *Lab) flag(st *State, opts *Term, name string) int {
	c := L.flagCond(st, opts, name)
	if c == nil {
		return -1
	}
	return st.decide(c)
}

// flagCond is the condition that an option without argument is set.
func (L *Lab) flagCond(st *State, opts *Term, name string) *Term {
	oe := L.options()[name]
	if oe == nil || oe.field < 0 || opts == nil || opts.op != OStruct || oe.field >= len(opts.a) {
		return nil
	}
	v := opts.a[oe.field]
	if oe.mask != 0 {
		t := L.e.andT(st, v, intC(oe.mask), types.Typ[types.Uint64])
		return inT(t, single(oe.mask))
	}
	if oe.val == tTrue {
		return v
	}
	return nil
}

// setFlag restricts a state to the calls with (or without) an option.
func (L *Lab) setFlag(st *State, opts *Term, name string, on bool) bool {
	c := L.flagCond(st, opts, name)
	if c == nil {
		return true
	}
	return st.assume(c, on)
}

// optField is the part of the options that an option with an argument stores to.
func (L *Lab) optField(opts *Term, name string) *Term {
	oe := L.options()[name]
	if oe == nil || oe.field < 0 || opts == nil || opts.op != OStruct || oe.field >= len(opts.a) {
		return nil
	}
	return opts.a[oe.field]
}

// leafType is the type of a field of a struct type.
func leafType(t types.Type, i int) (types.Type, bool) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() {
		return nil, false
	}
	return s.Field(i).Type(), true
}
