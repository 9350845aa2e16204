package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Lab runs the functions of the library abstractly and keeps what they do.
type Lab struct {
	e         *Engine
	r         *Roots
	encs      map[string]*Enc
	order     []*Enc
	notes     []string // what could not be decided
	opts      map[string]*OptEffect
	all       []*Enc
	orc       *Oracle
	byShort   map[string]*ssa.Function
	fldm      *fieldModel
	mmem      *memory
	memberOf  map[int64][]Member
	runePreds map[*ssa.Function]*runePred
	strMaker  func(t *Term, st *State) bool
}

// Enc is the abstract behaviour of a function.
type Enc struct {
	name   string
	fn     *ssa.Function
	term   *Term
	args   []*Term
	argT   map[string]*Term
	outs   []Outcome
	recs   []*LoopRec
	events []*Event
	oblig  []*Oblig
	probs  []string
	uses   []Use
	key    string
	steps  int
	dur    time.Duration
}

func (x *Enc) ok() bool { return len(x.probs) == 0 }

func newLab(r *Repo) *Lab {
	e := newEngine(r, r.lib)
	L := &Lab{e: e, encs: map[string]*Enc{}}
	L.r = e.roots()
	for p := range e.problems {
		L.notes = append(L.notes, p)
	}
	e.problems = map[string]int{}
	L.findTypePreds()
	L.findNilBuilders()
	L.findStringMakers()
	return L
}

// runFn runs a function value with given arguments.
func (L *Lab) runFn(name string, f *ssa.Function, args, bind []*Term, st *State, policy func(*ssa.Function, []*Term, *frame) bool, coarse bool) *Enc {
	e := L.e
	x := &Enc{name: name, fn: f, args: args, argT: map[string]*Term{}}
	for i, p := range f.Params {
		if i < len(args) {
			x.argT[p.Name()] = args[i]
		}
	}
	e.events, e.evSeen, e.recs, e.oblig, e.problems = nil, map[string]bool{}, nil, map[string]*Oblig{}, map[string]int{}
	e.rootName = name
	e.opaqueCall = policy
	e.coarse = coarse
	e.steps = 0
	t0 := time.Now()
	st0 := st.clone()
	x.outs = e.exec(f, args, bind, st, nil, nil)
	x.events, x.recs = e.events, e.recs
	for _, k := range sortedKeys(e.oblig) {
		x.oblig = append(x.oblig, e.oblig[k])
	}
	x.probs = sortedKeys(e.problems)
	x.steps = e.steps
	L.confirm(x, f, args, bind, st0)
	x.dur = time.Since(t0)
	return x
}

// confirm follows a function again, through the first rounds of its loops only:
// an operation that is not known to be safe because of what is not known about
// a loop, and that cannot fail in these rounds, is left open.
func (L *Lab) confirm(x *Enc, f *ssa.Function, args, bind []*Term, st *State) {
	e := L.e
	open := false
	for _, o := range x.oblig {
		open = open || o.fail > 0
	}
	if !open || e.rounds > 0 || len(x.recs) == 0 {
		return
	}
	events, seen, recs, oblig, problems, steps, max := e.events, e.evSeen, e.recs, e.oblig, e.problems, e.steps, e.maxSteps
	e.events, e.evSeen, e.recs, e.oblig, e.problems = nil, map[string]bool{}, nil, map[string]*Oblig{}, map[string]int{}
	e.rounds, e.steps, e.maxSteps = 6, 0, 200000
	e.exec(f, args, bind, st, nil, nil)
	for k, o := range oblig {
		if o.fail > 0 && (e.oblig[k] == nil || e.oblig[k].fail == 0) {
			o.unk += o.fail
			o.fail = 0
		}
	}
	e.rounds = 0
	e.events, e.evSeen, e.recs, e.oblig, e.problems, e.steps, e.maxSteps = events, seen, recs, oblig, problems, steps, max
}

// function runs a function of the library with symbolic arguments.
func (L *Lab) function(f *ssa.Function, policy func(*ssa.Function, []*Term, *frame) bool, coarse bool) *Enc {
	key := fmt.Sprintf("f:%s:%v", f.String(), coarse)
	if x := L.encs[key]; x != nil {
		return x
	}
	st := L.e.base.clone()
	var args []*Term
	for _, p := range f.Params {
		args = append(args, L.e.symArg(st, p.Name(), p.Type()))
	}
	x := L.runFn(shortName(f), f, args, nil, st, policy, coarse)
	L.encs[key] = x
	L.order = append(L.order, x)
	return x
}

// Use is one way a builder makes an encoder, with the values it captures.
type Use struct {
	b    Built
	root *Enc // the run of the builder
	vals map[*Term]*Term
	fv   map[string]*Term // captured variable -> value in the builder
}

type binder struct {
	L     *Lab
	st    *State // new state
	from  *State // state of the builder
	vals  map[*Term]*Term
	fv    map[string]*Term
	key   strings.Builder
	kinds []func()
}

func (b *binder) value(v *Term, name string, t types.Type) *Term {
	v = b.from.res(v)
	switch v.op {
	case OFunc:
		fmt.Fprintf(&b.key, "%s;", v.x.(*ssa.Function).String())
		return v
	case OClos:
		return b.closure(v)
	case OBool, OInt, OTypeC, ONil, OStrC:
		fmt.Fprintf(&b.key, "c%d;", v.id)
		return v
	}
	s := sym("fv:"+name, t)
	b.vals[s] = v
	fmt.Fprintf(&b.key, "s:%s", name)
	if b.L.e.minLen(v) == 2 {
		b.key.WriteString("=string")
		b.L.e.twoBytes[s] = true
	}
	if isReflectType(t) {
		k := b.from.rng(mkApp("rt.Kind", types.Typ[types.Uint], v))
		fmt.Fprintf(&b.key, "%s", k.String())
		b.kinds = append(b.kinds, func() { b.st.assumeIn(mkApp("rt.Kind", types.Typ[types.Uint], s), k) })
		var facts []string
		for c, pol := range b.from.atoms {
			if !pol || c.op != OApp || c.s != "implements" || c.a[1].op != OTypeC {
				continue
			}
			w, ptr := b.from.res(c.a[0]), false
			if w.op == OApp && w.s == "rt.PtrTo" {
				w, ptr = b.from.res(w.a[0]), true
			}
			if w != v {
				continue
			}
			facts = append(facts, fmt.Sprintf("+%v%s", ptr, c.a[1].String()))
			T := s
			if ptr {
				T = mkApp("rt.PtrTo", appType(c.a[0]), s)
			}
			a := mkApp("implements", tBoolT, T, c.a[1])
			b.kinds = append(b.kinds, func() { b.st.assume(a, true) })
		}
		sort.Strings(facts)
		b.key.WriteString(strings.Join(facts, ""))
	}
	b.key.WriteString(";")
	return s
}

func (b *binder) closure(t *Term) *Term {
	f := t.x.(*ssa.Function)
	fmt.Fprintf(&b.key, "%s{", f.String())
	var bind []*Term
	for i, a := range t.a {
		fv := f.FreeVars[i]
		et := fv.Type().Underlying().(*types.Pointer).Elem()
		v := b.L.e.load(b.from, nil, nil, a, et)
		b.fv[fv.Name()] = v
		o := b.st.newObj(KCells, et, true, "captured")
		o.site = fv.Name()
		nv := b.value(v, shortName(f)+"."+fv.Name(), et)
		b.L.e.store(b.st, nil, nil, mkPtr(objT(o.id), tZero), et, nv)
		bind = append(bind, mkPtr(objT(o.id), tZero))
	}
	b.key.WriteString("}")
	return mk(OClos, t.s, t.n, t.x, bind, nil)
}

// encoder runs an instruction made by a builder on an unknown value, buffer and
// options. What it captures is abstracted: types, sizes and encoders of parts
// are unknown, constants and known functions are kept.
func (L *Lab) encoder(root *Enc, bt Built) *Enc {
	e := L.e
	t := bt.t
	if t.op != OFunc && t.op != OClos {
		return nil
	}
	b := &binder{L: L, st: e.base.clone(), from: bt.st.clone(), vals: map[*Term]*Term{}, fv: map[string]*Term{}}
	var bind []*Term
	e.rootName = "captured values"
	if t.op == OFunc {
		b.value(t, "", nil)
	} else {
		bind = b.closure(t).a
	}
	key := "e:" + b.key.String()
	use := Use{bt, root, b.vals, b.fv}
	if x := L.encs[key]; x != nil {
		x.uses = append(x.uses, use)
		return x
	}
	st := b.st
	for _, k := range b.kinds {
		k()
	}
	f := t.x.(*ssa.Function)
	p := sym("p", tUP)
	st.assume(st.eqTerms(p, tNil), false)
	dst := e.symArg(st, "dst", types.NewSlice(tByteT))
	opts := e.expand(e.encOpts, sym("opts", e.encOpts))
	e.wf(st, e.encOpts, opts)
	x := L.runFn(L.termName(t), f, []*Term{p, dst, opts}, bind, st, L.r.encodeOpaque, false)
	x.term = t
	x.argT = map[string]*Term{"p": p, "dst": dst, "opts": opts}
	x.uses = []Use{use}
	x.key = key
	L.encs[key] = x
	L.order = append(L.order, x)
	return x
}

func (L *Lab) termName(t *Term) string {
	if f, ok := t.x.(*ssa.Function); ok {
		return shortName(f)
	}
	return t.str(3)
}

// Built is one way a builder makes an encoder.
type Built struct {
	st *State
	t  *Term
}

// builds runs a builder for an unknown type.
func (L *Lab) builds(f *ssa.Function) (*Enc, []Built) {
	policy, coarse := L.r.buildOpaque, false
	if f == L.r.cached {
		policy = L.r.encodeOpaque
	}
	if L.r.structB[f] {
		coarse = true
		policy = func(g *ssa.Function, args []*Term, fr *frame) bool {
			return L.r.buildOpaque(g, args, fr) || fr != nil && pureStringFn(g)
		}
	}
	x := L.function(f, policy, coarse)
	var bs []Built
	for _, o := range x.outs {
		if len(o.ret) == 1 {
			bs = append(bs, Built{o.st, o.st.res(o.ret[0])})
		}
	}
	return x, bs
}

// findNilBuilders finds the builders that may return no encoder.
func (L *Lab) findNilBuilders() {
	var fs []*ssa.Function
	for f := range L.r.builders {
		if L.r.cyclic[f] || f.Parent() != nil || L.r.wrapper(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok && len(r.Results) == 1 && mayBeNil(r.Results[0], map[ssa.Value]bool{}) {
					L.e.mayReturnNil[f] = true
				}
			}
		}
		fs = append(fs, f)
	}
	// a builder that returns what another one returns
	for again := true; again; {
		again = false
		for _, f := range fs {
			if L.e.mayReturnNil[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if r, ok := in.(*ssa.Return); ok && len(r.Results) == 1 {
						if c, ok := r.Results[0].(*ssa.Call); ok {
							if g := c.Call.StaticCallee(); g != nil && L.e.mayReturnNil[g] {
								L.e.mayReturnNil[f] = true
								again = true
							}
						}
					}
				}
			}
		}
	}
}

// findStringMakers finds the builders, and the functions that write keys, whose
// output has at least two bytes, for its quotes.
func (L *Lab) findStringMakers() {
	var fs []*ssa.Function
	for f := range L.r.keyB {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	two := func(y *Enc, dst string) bool {
		if y == nil || !y.ok() {
			return false
		}
		for _, o := range y.outs {
			if errKind(o) < 0 {
				continue
			}
			v := o.st.res(o.ret[0])
			if v.op != OSlice || !o.st.le(addT(symOf(o.st, dst+".len"), intC(2)), v.a[1]) {
				return false
			}
		}
		return true
	}
	for _, f := range L.e.allFuncs() {
		if L.r.appender[f] {
			if x := L.function(f, L.r.encodeOpaque, false); two(x, f.Params[L.e.appenderDst(f)].Name()) {
				L.e.strApp[f] = true
			}
		}
	}
	for _, f := range fs {
		ok := true
		x, bs := L.builds(f)
		for _, b := range bs {
			if b.t != tNil {
				ok = ok && two(L.encoder(x, b), "dst")
			}
		}
		if ok && x.ok() && len(bs) > 0 {
			L.e.strBuilder[f.Name()] = true
		}
	}
	for _, f := range L.e.allFuncs() {
		if f.Parent() == nil && L.e.appenderDst(f) >= 0 && !L.e.isInstr(f.Signature) && f.Signature.Params().Len() <= 4 && len(f.Blocks) > 0 && !L.r.appender[f] {
			ps := f.Signature.Params()
			iface := false
			for i := 0; i < ps.Len(); i++ {
				if it, ok := ps.At(i).Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
					iface = true
				}
			}
			key := false
			for _, g := range refs(f) {
				key = key || L.e.strBuilder[g.Name()]
			}
			if iface && key {
				x := L.function(f, L.r.encodeOpaque, false)
				if two(x, f.Params[L.e.appenderDst(f)].Name()) {
					L.e.strApp[f] = true
				}
			}
		}
	}
}

func mayBeNil(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		for _, e := range x.Edges {
			if mayBeNil(e, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return mayBeNil(x.X, seen)
	}
	return false
}

// typeFacts describes what a state knows about the types it has seen.
func typeFacts(st *State) string {
	var ss []string
	for c, v := range st.atoms {
		s := c.str(6)
		if !v {
			s = "!" + s
		}
		ss = append(ss, s)
	}
	for t, s := range st.rngs {
		if t.op == OApp && strings.HasPrefix(t.s, "rt.") || t.op == OSym {
			ss = append(ss, t.str(5)+"∈"+s.String())
		}
	}
	for a, b := range st.alias {
		ss = append(ss, a.str(4)+"="+b.str(4))
	}
	sort.Strings(ss)
	return strings.Join(ss, "; ")
}

// catalogue runs the core builder and every encoder it can return.
func (L *Lab) catalogue() []Built {
	if L.r.core == nil {
		L.notes = append(L.notes, "no function that makes an encoder for a type was recognised")
		return nil
	}
	_, bs := L.builds(L.r.core)
	return bs
}

// Unit is a function that writes JSON, with the way it is made.
type Unit struct {
	kind string // value, key, struct, append, api
	x    *Enc
}

// roots lists the builders whose encoders are analysed: the core builder,
// those it takes on trust, and those of map keys.
func (L *Lab) builderRoots() []*ssa.Function {
	var fs []*ssa.Function
	for f := range L.r.structB {
		if L.r.core != f {
			fs = append(fs, f)
		}
	}
	for f := range L.r.keyB {
		fs = append(fs, f)
	}
	if L.r.cached != nil {
		fs = append(fs, L.r.cached)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	if L.r.core != nil {
		fs = append([]*ssa.Function{L.r.core}, fs...)
	}
	return fs
}

// encodersOf runs all encoders a builder makes.
func (L *Lab) encodersOf(f *ssa.Function) []*Enc {
	x, bs := L.builds(f)
	var r []*Enc
	seen := map[*Enc]bool{}
	for _, b := range bs {
		if y := L.encoder(x, b); y != nil && !seen[y] {
			seen[y] = true
			r = append(r, y)
		}
	}
	return r
}

func debugCatalogue(L *Lab) {
	for _, f := range L.builderRoots() {
		L.encodersOf(f)
	}
	x, bs := L.builds(L.r.core)
	fmt.Println("core", x.name, len(bs), "steps", x.steps, x.probs)
	for _, b := range bs {
		fmt.Println("BUILT", b.t.str(5), "WHEN", typeFacts(b.st))
		if L.encoder(x, b) == nil {
			fmt.Println("ENC?", b.t.str(5))
		}
	}
	for _, y := range L.order {
		fmt.Println("ENC", y.name, y.key[max(0, len(y.key)-80):], len(y.outs), "outs", len(y.recs), "loops", y.steps, "steps", y.dur, y.probs, len(y.uses))
	}
}

func debugOptions(L *Lab) {
	for _, n := range sortedKeys(L.options()) {
		o := L.opts[n]
		v := "-"
		if o.val != nil {
			v = o.val.str(5)
		}
		fmt.Println("OPT", n, o.field, o.mask, v, o.multi, o.und)
	}
}

func debugAll(L *Lab) {
	for _, y := range L.runAll() {
		fmt.Println("ENC", y.name, y.key[max(0, len(y.key)-80):], len(y.outs), "outs", len(y.recs), "loops", y.steps, "steps", y.dur, y.probs, len(y.uses))
	}
}
