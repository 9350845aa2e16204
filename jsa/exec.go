package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine interprets SSA abstractly.
type Engine struct {
	elemVal map[*Term]*Term // length of an element -> the variable it was encoded from
	prog    *ssa.Program
	pkgs    map[*ssa.Package]bool // packages whose functions are followed
	main    *ssa.Package
	sizes   types.Sizes
	globals map[*ssa.Global]int64
	base    *State // state after package initialisation
	instrT  *types.Signature
	encOpts types.Type

	trail      bool                                                                             // record what the paths do
	onExit     func(st *State, fn *ssa.Function, in ssa.Instruction, name string, args []*Term) // a path that ends the process
	deepTrail  bool                                                                             // with the contents of the values stored in maps
	opaqueCall func(fn *ssa.Function, args []*Term, fr *frame) bool                             // do not follow this call
	poolTypes  map[string]map[string]types.Type                                                 // pool object -> types put in it

	events       []*Event
	evSeen       map[string]bool
	problems     map[string]int
	oblig        map[string]*Oblig
	steps        int
	maxSteps     int
	rootName     string
	funcs        map[*ssa.Function]*funcInfo
	followed     map[*ssa.Function]bool
	loopSeq      int
	debug        bool
	trace        bool
	mutable      map[*ssa.Global]bool
	lenient      bool
	unroll       *unrollCtx
	recs         []*LoopRec
	typePreds    map[*ssa.Function]*predSum // tests of types with a loop
	mayReturnNil map[*ssa.Function]bool
	poolDirty    map[string]bool
	dirtyChanged bool
	putTypes     map[string]map[string]types.Type
	putOpaque    map[string]bool
	final        bool
	repo         *Repo
	inInit       bool
	branchSeen   map[string]int
	prof         map[string]int
	coarse       bool                   // run one arbitrary iteration of every loop
	strBuilder   map[string]bool        // builders of encoders that write at least two bytes
	twoBytes     map[*Term]bool         // captured encoders made by those
	strApp       map[*ssa.Function]bool // functions that write at least two bytes
	rounds       int                    // follow loops for so many rounds only
	fuzzy        bool                   // the next obligation is about terms that are not tracked
	onReturn     func(fn *ssa.Function, fr *frame, o Outcome)
}

type Event struct {
	kind string
	st   *State
	fr   *frame
	in   ssa.Instruction
	args []*Term
	note string
}

type Oblig struct {
	kind  string
	in    ssa.Instruction
	fn    *ssa.Function
	desc  string
	ok    int
	fail  int
	unk   int // paths on which it is not decided
	why   string
	roots map[string]bool
}

type funcInfo struct {
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
	loops map[*ssa.BasicBlock]*Loop
	inner map[*ssa.BasicBlock]*Loop // innermost loop containing the block
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}

type frame struct {
	fn     *ssa.Function
	caller *frame
	env    map[ssa.Value]*Term // environment of this frame at the time of the current call
	depth  int
	bind   []*Term
	args   []*Term
	site   ssa.CallInstruction
}

type path struct {
	st     *State
	env    map[ssa.Value]*Term
	defers []defCall
}

type defCall struct {
	in   *ssa.Defer
	fn   *Term
	args []*Term
	live bool
}

type Outcome struct {
	st  *State
	ret []*Term
}

func (p *path) clone() *path {
	return &path{p.st.clone(), cloneMap(p.env), append([]defCall(nil), p.defers...)}
}

func (e *Engine) problem(format string, a ...any) {
	s := e.rootName + ": " + fmt.Sprintf(format, a...)
	if e.problems[s] == 0 && e.debug {
		fmt.Fprintln(os.Stderr, "PROBLEM", s)
	}
	e.problems[s]++
}

func (e *Engine) pos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	p := in.Pos()
	if !p.IsValid() {
		// nearest instruction with a position
		b := in.Block()
		if b != nil {
			for _, i := range b.Instrs {
				if i.Pos().IsValid() {
					p = i.Pos()
				}
				if i == in && p.IsValid() {
					break
				}
			}
		}
		if !p.IsValid() && in.Parent() != nil {
			p = in.Parent().Pos()
		}
	}
	ps := e.prog.Fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (e *Engine) event(kind string, st *State, fr *frame, in ssa.Instruction, note string, args ...*Term) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s|%p|%s|%s|", kind, in, note, e.rootName)
	for _, a := range args {
		if a != nil {
			fmt.Fprintf(&sb, "%d,", a.id)
		}
	}
	_ = sb
	e.events = append(e.events, &Event{kind, st.clone(), fr, in, args, note})
	if e.trail {
		switch kind {
		case "build", "sync", "atomic", "map-update", "store-opaque", "extern", "sm-store":
			e.note(st, kind, note, in, args...)
		}
	}
}

// note records what a path does.
func (e *Engine) note(st *State, kind, note string, in ssa.Instruction, args ...*Term) {
	if e.trail {
		st.hist = &step{st.hist, kind, note, in, args}
	}
}

func (e *Engine) obligation(kind string, fr *frame, in ssa.Instruction, desc string, ok bool, why func() string) {
	k := fmt.Sprintf("%s|%p|%s", kind, in, desc)
	o := e.oblig[k]
	if o == nil {
		o = &Oblig{kind: kind, in: in, fn: fr.fn, desc: desc, roots: map[string]bool{}}
		e.oblig[k] = o
	}
	o.roots[e.rootName] = true
	if ok {
		o.ok++
	} else if e.fuzzy {
		o.unk++
	} else {
		o.fail++
		if o.why == "" {
			o.why = e.rootName + ": " + why()
		}
	}
}

func (e *Engine) info(fn *ssa.Function) *funcInfo {
	if fi := e.funcs[fn]; fi != nil {
		return fi
	}
	fi := &funcInfo{live: liveness(fn), loops: map[*ssa.BasicBlock]*Loop{}, inner: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, pr := range x.Preds {
						if !l.blocks[pr] {
							l.blocks[pr] = true
							stack = append(stack, pr)
						}
					}
				}
			}
		}
	}
	for _, l := range fi.loops {
		for b := range l.blocks {
			if cur := fi.inner[b]; cur == nil || len(l.blocks) < len(cur.blocks) {
				fi.inner[b] = l
			}
		}
	}
	for _, l := range fi.loops {
		for _, m := range fi.loops {
			if m != l && m.blocks[l.header] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	e.funcs[fn] = fi
	return fi
}

func liveness(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	relevant := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					live[v] = true
				}
				for pi, pr := range s.Preds {
					if pr != b {
						continue
					}
					for _, ins := range s.Instrs {
						if phi, ok := ins.(*ssa.Phi); ok {
							if relevant(phi.Edges[pi]) {
								live[phi.Edges[pi]] = true
							}
						} else {
							break
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && relevant(*op) {
						live[*op] = true
					}
				}
			}
			if len(live) != len(in[b]) {
				in[b] = live
				changed = true
			}
		}
	}
	return in
}

// ---------- values ----------

func (e *Engine) constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return e.zeroOf(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolC(constant.BoolVal(c.Value))
	case constant.String:
		return strC(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mk(OFloat, c.Value.ExactString(), 0, nil, nil, nil)
		}
		if n, ok := constant.Int64Val(c.Value); ok {
			return intC(n)
		}
		return mk(OSym, "bigconst:"+c.Value.ExactString(), 0, t, nil, nil)
	}
	return mk(OFloat, c.Value.ExactString(), 0, nil, nil, nil)
}

func (e *Engine) zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return strC("")
		case u.Info()&types.IsInteger != 0:
			return tZero
		case u.Info()&types.IsFloat != 0:
			return mk(OFloat, "0", 0, nil, nil, nil)
		case u.Info()&types.IsComplex != 0:
			return mk(OFloat, "0c", 0, nil, nil, nil)
		}
		return tNil
	case *types.Slice:
		return nilSlice
	case *types.Interface:
		return nilIface
	case *types.Struct:
		var a []*Term
		for i := 0; i < u.NumFields(); i++ {
			a = append(a, e.zeroOf(u.Field(i).Type()))
		}
		return mk(OStruct, "", 0, t, a, nil)
	case *types.Array:
		if u.Len() > 128 {
			return mkApp("zeroarr", t)
		}
		var a []*Term
		z := e.zeroOf(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			a = append(a, z)
		}
		return mk(OArr, "", 0, t, a, nil)
	case *types.Tuple:
		var a []*Term
		for i := 0; i < u.Len(); i++ {
			a = append(a, e.zeroOf(u.At(i).Type()))
		}
		return mkTuple(a...)
	}
	return tNil
}

// expand gives an opaque value of type t the structure of its type.
func (e *Engine) expand(t types.Type, v *Term) *Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if v.op == OStruct {
			return v
		}
		var a []*Term
		for i := 0; i < u.NumFields(); i++ {
			a = append(a, e.expand(u.Field(i).Type(), mkApp(fmt.Sprintf("fld%d", i), u.Field(i).Type(), v)))
		}
		return mk(OStruct, "", 0, t, a, nil)
	case *types.Slice:
		if v.op == OSlice {
			return v
		}
		p, l, c := sliceParts(v)
		return mkSlice(p, l, c)
	case *types.Basic:
		if u.Info()&types.IsString != 0 && v.op != OStr && v.op != OStrC {
			p, l := strParts(v)
			return mkStr(p, l)
		}
	}
	return v
}

// isHeader: is a struct laid out like the header of a slice or a string, a
// pointer and then lengths?
func isHeader(u *types.Struct) bool {
	if u.NumFields() < 2 || u.NumFields() > 3 {
		return false
	}
	if b, ok := u.Field(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.UnsafePointer && b.Kind() != types.Uintptr {
		return false
	}
	for i := 1; i < u.NumFields(); i++ {
		if b, ok := u.Field(i).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
			return false
		}
	}
	return true
}

// lengthFact: a length that lies in memory is not negative, and it is zero
// if the pointer in the same header is nil.
func lengthFact(st *State, ptr, n *Term) {
	if n.op != OApp || n.s != "ld8s" {
		return
	}
	st.assumeIn(n, between(0, maxLen))
	if ptr.op == OApp && ptr.s == "ld8p" && !st.hasAlias(ptr) {
		if st.hdrs == nil {
			st.hdrs = map[*Term]*Term{}
		}
		st.hdrs[n] = ptr
	} else if st.res(ptr) == tNil {
		st.assumeIn(n, single(0))
	}
}

func (st *State) hasAlias(t *Term) bool { return st.res(t) != t }

// wf records the facts that hold for every value of a type.
func (e *Engine) wf(st *State, t types.Type, v *Term) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if v.op == OStruct {
			for i := range v.a {
				e.wf(st, u.Field(i).Type(), v.a[i])
			}
			if isHeader(u) {
				for _, n := range v.a[1:] {
					lengthFact(st, v.a[0], n)
				}
			}
		}
	case *types.Slice:
		if v.op == OSlice {
			st.assumeIn(v.a[1], between(0, maxLen))
			st.assumeIn(v.a[2], between(0, maxLen))
			if d := subT(v.a[2], v.a[1]); d.op != OInt {
				st.assumeIn(d, between(0, maxLen))
			}
		}
	case *types.Basic:
		if v.op == OStr {
			st.assumeIn(v.a[1], between(0, maxLen))
		}
	}
}

type leaf struct {
	off  int64
	kind string // ld1u ld1s ... ld8p ldb ld4f ld8f ld16c
	typ  types.Type
}

func (e *Engine) leaves(t types.Type) []leaf {
	var r []leaf
	var walk func(t types.Type, off int64)
	walk = func(t types.Type, off int64) {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsBoolean != 0:
				r = append(r, leaf{off, "ldb", types.Typ[types.Bool]})
			case u.Info()&types.IsString != 0:
				r = append(r, leaf{off, "ld8p", types.Typ[types.UnsafePointer]}, leaf{off + 8, "ld8s", types.Typ[types.Int]})
			case u.Info()&types.IsInteger != 0:
				sz := e.sizes.Sizeof(t)
				s := "s"
				if u.Info()&types.IsUnsigned != 0 {
					s = "u"
				}
				k := fmt.Sprintf("ld%d%s", sz, s)
				r = append(r, leaf{off, k, leafInt[k]})
			case u.Info()&types.IsFloat != 0:
				r = append(r, leaf{off, fmt.Sprintf("ld%df", e.sizes.Sizeof(t)), t})
			case u.Info()&types.IsComplex != 0:
				r = append(r, leaf{off, fmt.Sprintf("ld%dc", e.sizes.Sizeof(t)), t})
			default:
				r = append(r, leaf{off, "ld8p", types.Typ[types.UnsafePointer]})
			}
		case *types.Slice:
			r = append(r, leaf{off, "ld8p", types.Typ[types.UnsafePointer]}, leaf{off + 8, "ld8s", types.Typ[types.Int]}, leaf{off + 16, "ld8s", types.Typ[types.Int]})
		case *types.Interface:
			r = append(r, leaf{off, "ld8p", types.Typ[types.UnsafePointer]}, leaf{off + 8, "ld8p", types.Typ[types.UnsafePointer]})
		case *types.Struct:
			var fs []*types.Var
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, u.Field(i))
			}
			offs := e.sizes.Offsetsof(fs)
			for i, f := range fs {
				walk(f.Type(), off+offs[i])
			}
		case *types.Array:
			sz := e.sizes.Sizeof(u.Elem())
			n := u.Len()
			if n > 256 {
				return
			}
			for i := int64(0); i < n; i++ {
				walk(u.Elem(), off+i*sz)
			}
		default:
			r = append(r, leaf{off, "ld8p", types.Typ[types.UnsafePointer]})
		}
	}
	walk(t, 0)
	return r
}

var leafInt = map[string]types.Type{
	"ld1s": types.Typ[types.Int8], "ld2s": types.Typ[types.Int16], "ld4s": types.Typ[types.Int32], "ld8s": types.Typ[types.Int64],
	"ld1u": types.Typ[types.Uint8], "ld2u": types.Typ[types.Uint16], "ld4u": types.Typ[types.Uint32], "ld8u": types.Typ[types.Uint64],
}

// build makes a value of type t from its leaves.
func (e *Engine) build(t types.Type, next func() *Term) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			p := next()
			l := next()
			return mkStr(p, l)
		}
		return next()
	case *types.Slice:
		p := next()
		l := next()
		return mkSlice(p, l, next())
	case *types.Interface:
		p := next()
		w := next()
		return mkIface(p, w)
	case *types.Struct:
		var a []*Term
		for i := 0; i < u.NumFields(); i++ {
			a = append(a, e.build(u.Field(i).Type(), next))
		}
		return mk(OStruct, "", 0, t, a, nil)
	case *types.Array:
		var a []*Term
		if u.Len() > 256 {
			return fresh("bigarr", t)
		}
		for i := int64(0); i < u.Len(); i++ {
			a = append(a, e.build(u.Elem(), next))
		}
		return mk(OArr, "", 0, t, a, nil)
	}
	return next()
}

// flatten splits a value of type t into its leaves.
func (e *Engine) flatten(t types.Type, v *Term) []*Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			p, l := strParts(v)
			return []*Term{p, l}
		}
		return []*Term{v}
	case *types.Slice:
		p, l, c := sliceParts(v)
		return []*Term{p, l, c}
	case *types.Interface:
		return []*Term{tabOf(v), wordOf(v)}
	case *types.Struct:
		var r []*Term
		v = e.expand(t, v)
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, e.flatten(u.Field(i).Type(), v.a[i])...)
		}
		return r
	case *types.Array:
		var r []*Term
		if u.Len() > 256 {
			return nil
		}
		for i := int64(0); i < u.Len(); i++ {
			var x *Term
			if v.op == OArr {
				x = v.a[i]
			} else {
				x = e.expand(u.Elem(), mkApp("arrsel", u.Elem(), v, intC(i)))
			}
			r = append(r, e.flatten(u.Elem(), x)...)
		}
		return r
	}
	return []*Term{v}
}

// ---------- memory ----------

func (e *Engine) load(st *State, fr *frame, in ssa.Instruction, ptr *Term, t types.Type) *Term {
	ptr = st.res(ptr)
	base, off := ptrParts(ptr)
	base = st.res(base)
	if base == tNil {
		e.event("nilderef", st, fr, in, "load through nil pointer")
	}
	ls := e.leaves(t)
	i := 0
	v := e.build(t, func() *Term {
		l := ls[i]
		i++
		return e.loadLeaf(st, fr, in, base, addT(off, intC(l.off)), l)
	})
	if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() > 0 && v.op == OIface && st.obj(base) == nil && v.a[0].op == OApp && v.a[0].s == "ld8p" {
		// the first word leads to a method table, not to the type
		v = mkIface(mkApp("itype", types.Typ[types.UnsafePointer], v.a[0]), v.a[1])
	}
	e.wf(st, t, v)
	if u, ok := in.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok && fa.Field > 0 {
			if s, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && isHeader(s) {
				l := e.leaves(s)[0]
				lengthFact(st, mkApp(l.kind, l.typ, base, addT(off, intC(-fieldOff(e, s, fa.Field)))), v)
			}
		}
	}
	e.event0("load", st, fr, in, t, ptr)
	return v
}

func (e *Engine) event0(kind string, st *State, fr *frame, in ssa.Instruction, t types.Type, ptr *Term) {
	if hookLoad != nil {
		hookLoad(e, st, fr, in, t, ptr)
	}
}

var hookLoad func(e *Engine, st *State, fr *frame, in ssa.Instruction, t types.Type, ptr *Term)

func (e *Engine) loadLeaf(st *State, fr *frame, in ssa.Instruction, base, off *Term, l leaf) *Term {
	if o := st.obj(base); o != nil {
		switch o.kind {
		case KCells:
			if o.rel != "" {
				e.event("use-after-release", st, fr, in, "memory read after it was released at "+o.rel, base)
			}
			c, ok := st.constOf(off)
			if !ok {
				return e.loadVar(st, o, off, l)
			}
			if v, ok := o.cells[c]; ok {
				return retype(v, l)
			}
			if o.zero {
				return zeroLeaf(l)
			}
			v := mkApp(l.kind, l.typ, base, intC(c))
			o = st.mut(o)
			o.cells[c] = v
			return v
		case KLog:
			esz := e.sizes.Sizeof(o.typ)
			idx, rem, ok := divLin(off, esz)
			if !ok {
				return fresh("logld", l.typ)
			}
			return e.logLeaf(st, o, idx, rem, l)
		}
		return fresh("ldmap", l.typ)
	}
	if base.op == OApp {
		switch base.s {
		case "strdata":
			if n, ok := st.constOf(off); ok && n >= 0 && n < int64(len(base.a[0].s)) && l.kind == "ld1u" {
				return intC(int64(base.a[0].s[n]))
			}
			if l.kind == "ld1u" {
				return mkApp("tblidx", types.Typ[types.Uint8], base.a[0], off)
			}
		case "word":
			m := base.a[0]
			if m.op == OMkI {
				t := m.x.(types.Type)
				if n, ok := st.constOf(off); ok {
					ls := e.leaves(t)
					fs := e.flatten(t, m.a[0])
					for i := range ls {
						if ls[i].off == n && i < len(fs) {
							return retype(fs[i], l)
						}
					}
				}
			}
		case "frag":
			if l.kind == "ld1u" {
				return e.fragByte(st, base, off)
			}
		case "tblptr":
			if n, ok := divLinC(off, e.sizes.Sizeof(l.typ)); ok {
				if c, ok := st.constOf(n); ok {
					if v, ok := tableAt(base.a[0], c); ok {
						return v
					}
				}
				return mkApp("tblidx", l.typ, base.a[0], n)
			}
		}
	}
	if l.kind == "ld1u" {
		return mkApp("byte", types.Typ[types.Uint8], base, off)
	}
	return mkApp(l.kind, l.typ, base, off)
}

func divLinC(off *Term, sz int64) (*Term, bool) {
	i, r, ok := divLin(off, sz)
	return i, ok && r == 0
}

func retype(v *Term, l leaf) *Term { return v }

func zeroLeaf(l leaf) *Term {
	switch l.kind {
	case "ldb":
		return tFalse
	case "ld8p":
		return tNil
	case "ld4f", "ld8f":
		return mk(OFloat, "0", 0, nil, nil, nil)
	}
	return tZero
}

// loadVar loads from a fixed layout object at an offset that is not constant.
func (e *Engine) loadVar(st *State, o *Obj, off *Term, l leaf) *Term {
	// constant table?
	if at, ok := o.typ.Underlying().(*types.Array); ok && at.Len() <= 256 {
		sz := e.sizes.Sizeof(at.Elem())
		if idx, ok := divLinC(off, sz); ok {
			var a []*Term
			for i := int64(0); i < at.Len(); i++ {
				v, ok := o.cells[i*sz]
				if !ok {
					if !o.zero {
						a = nil
						break
					}
					v = zeroLeaf(l)
				}
				a = append(a, v)
			}
			if a != nil {
				return mkApp("tblidx", l.typ, mk(OArr, "", 0, o.typ, a, nil), idx)
			}
		}
	}
	return fresh("varload", l.typ)
}

func (e *Engine) store(st *State, fr *frame, in ssa.Instruction, ptr *Term, t types.Type, v *Term) {
	ptr = st.res(ptr)
	base, off := ptrParts(ptr)
	base = st.res(base)
	o := st.obj(base)
	if o == nil {
		e.event("store-opaque", st, fr, in, shortType(t), ptr, v)
		return
	}
	if o.rel != "" {
		e.event("use-after-release", st, fr, in, "memory written after it was released at "+o.rel, base)
	}
	if o.prov == "global" {
		e.event("store-global", st, fr, in, o.site, ptr, v)
	}
	ls := e.leaves(t)
	fs := e.flatten(t, v)
	switch o.kind {
	case KCells:
		o = st.mut(o)
		for i, l := range ls {
			if i >= len(fs) {
				break
			}
			c, ok := st.constOf(addT(off, intC(l.off)))
			if !ok {
				for k := range o.cells {
					delete(o.cells, k)
				}
				o.zero = false
				e.event("store-var", st, fr, in, "", ptr)
				return
			}
			o.cells[c] = fs[i]
		}
		if len(ls) == 0 {
			return
		}
	case KLog:
		e.logStore(st, fr, in, o, off, t, v)
	default:
		e.problem("store to map object at %s", e.pos(in))
	}
}

// ---------- execution ----------

func (e *Engine) val(p *path, fr *frame, v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		return e.constTerm(c)
	case *ssa.Global:
		return mkPtr(objT(e.globalObj(p.st, c)), tZero)
	case *ssa.Function:
		return mk(OFunc, "", 0, c, nil, nil)
	case *ssa.Builtin:
		return mk(OFunc, "builtin:"+c.Name(), 0, nil, nil, nil)
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == c && i < len(fr.bind) {
				return p.st.res(fr.bind[i])
			}
		}
	}
	t := p.env[v]
	if t == nil {
		e.problem("undefined value %s in %s", v.Name(), fr.fn)
		t = fresh("undef", v.Type())
	}
	return p.st.res(t)
}

func (e *Engine) globalObj(st *State, g *ssa.Global) int64 {
	id, ok := e.globals[g]
	if !ok {
		objSeq++
		id = objSeq
		e.globals[g] = id
	}
	if st.heap[id] == nil {
		o := &Obj{id: id, kind: KCells, typ: g.Type().Underlying().(*types.Pointer).Elem(), prov: "global", site: g.String(), cells: map[int64]*Term{}, owner: -1}
		if e.base == nil && e.pkgs[g.Pkg] {
			o.zero = true // during initialisation
		}
		st.heap[id] = o
	}
	return id
}

type edge struct {
	p        *path
	from, to *ssa.BasicBlock
}

const maxDepth = 40

// exec interprets a call of fn.
func (e *Engine) exec(fn *ssa.Function, args, bind []*Term, st *State, caller *frame, site ssa.CallInstruction) []Outcome {
	fr := &frame{fn: fn, caller: caller, bind: bind, args: args, site: site}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > maxDepth {
		e.problem("call depth exceeded at %s", fn)
		return nil
	}
	e.followed[fn] = true
	p := &path{st: st, env: map[ssa.Value]*Term{}}
	for i, pr := range fn.Params {
		p.env[pr] = args[i]
	}
	_, _, rets := e.region(fr, []edge{{p, nil, fn.Blocks[0]}}, nil)
	rets = e.dedupe(fr, rets)
	if e.onReturn != nil {
		for _, o := range rets {
			e.onReturn(fn, fr, o)
		}
	}
	return rets
}

// region runs from the given edges until the loop (or function) is left.
func (e *Engine) region(fr *frame, work []edge, loop *Loop) (exits, backs []edge, rets []Outcome) {
	fi := e.info(fr.fn)
	for len(work) > 0 {
		ed := work[len(work)-1]
		work = work[:len(work)-1]
		if loop != nil && ed.to == loop.header {
			backs = append(backs, ed)
			continue
		}
		if loop != nil && !loop.blocks[ed.to] {
			exits = append(exits, ed)
			continue
		}
		if l := fi.loops[ed.to]; l != nil {
			ex, r := e.runLoop(fr, l, ed)
			rets = append(rets, r...)
			work = append(work, ex...)
			continue
		}
		e.enter(ed)
		ne, r := e.runBlock(fr, ed.p, ed.to)
		work = append(work, ne...)
		rets = append(rets, r...)
		if e.steps > e.maxSteps {
			e.problem("step limit exceeded in %s", fr.fn)
			return
		}
	}
	return
}

// enter evaluates the phis of the target block.
func (e *Engine) enter(ed edge) {
	if ed.from == nil {
		return
	}
	vals := map[ssa.Value]*Term{}
	for _, in := range ed.to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range ed.to.Preds {
			if pr == ed.from {
				v := phi.Edges[i]
				switch c := v.(type) {
				case *ssa.Const:
					vals[phi] = e.constTerm(c)
				case *ssa.Function:
					vals[phi] = mk(OFunc, "", 0, c, nil, nil)
				case *ssa.Global:
					vals[phi] = mkPtr(objT(e.globalObj(ed.p.st, c)), tZero)
				default:
					if t := ed.p.env[v]; t != nil {
						vals[phi] = ed.p.st.res(t)
					}
				}
				break
			}
		}
	}
	for k, v := range vals {
		ed.p.env[k] = v
	}
}

func (e *Engine) prune(fr *frame, p *path, b *ssa.BasicBlock) {
	live := e.info(fr.fn).live[b]
	for v := range p.env {
		if live[v] {
			continue
		}
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == b {
			continue
		}
		delete(p.env, v)
	}
}

type workItem struct {
	p   *path
	idx int
}

func (e *Engine) runBlock(fr *frame, p0 *path, b *ssa.BasicBlock) (out []edge, rets []Outcome) {
	e.prune(fr, p0, b)
	start := 0
	for start < len(b.Instrs) {
		if _, ok := b.Instrs[start].(*ssa.Phi); !ok {
			break
		}
		start++
	}
	work := []workItem{{p0, start}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		p := w.p
	instrs:
		for idx := w.idx; idx < len(b.Instrs); idx++ {
			in := b.Instrs[idx]
			e.steps++
			if e.prof != nil {
				e.prof[shortName(fr.fn)]++
			}
			if e.steps > e.maxSteps {
				return
			}
			switch x := in.(type) {
			case *ssa.Jump:
				out = append(out, edge{p, b, b.Succs[0]})
				break instrs
			case *ssa.If:
				c := e.val(p, fr, x.Cond)
				switch p.st.decide(c) {
				case 1:
					e.noteBranch(fr, b, c, 0, true)
					out = append(out, edge{p, b, b.Succs[0]})
				case 0:
					e.noteBranch(fr, b, c, 1, true)
					out = append(out, edge{p, b, b.Succs[1]})
				default:
					e.noteBranch(fr, b, c, 0, false)
					q := p.clone()
					if q.st.assume(c, false) {
						out = append(out, edge{q, b, b.Succs[1]})
					}
					if p.st.assume(c, true) {
						out = append(out, edge{p, b, b.Succs[0]})
					}
				}
				break instrs
			case *ssa.Return:
				var rs []*Term
				for _, r := range x.Results {
					rs = append(rs, e.val(p, fr, r))
				}
				rets = append(rets, Outcome{p.st, rs})
				break instrs
			case *ssa.Panic:
				e.event("panic", p.st, fr, in, "", e.val(p, fr, x.X))
				break instrs
			default:
				ps := e.step(fr, p, in)
				if len(ps) == 1 && ps[0] == p {
					continue
				}
				for i := len(ps) - 1; i >= 0; i-- {
					work = append(work, workItem{ps[i], idx + 1})
				}
				break instrs
			}
		}
	}
	return
}

// step executes one instruction; it returns the continuing paths.
func (e *Engine) step(fr *frame, p *path, in ssa.Instruction) []*path {
	st := p.st
	one := []*path{p}
	set := func(v *Term) { p.env[in.(ssa.Value)] = v }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		o := st.newObj(KCells, t, true, "alloc")
		o.site = e.pos(in)
		set(mkPtr(objT(o.id), tZero))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			ptr := e.val(p, fr, x.X)
			set(e.load(st, fr, in, ptr, x.Type()))
		case token.NOT:
			set(notT(e.val(p, fr, x.X)))
		case token.SUB:
			v := e.val(p, fr, x.X)
			if isFloatT(x.Type()) {
				set(mkApp("fneg", x.Type(), v))
			} else {
				set(e.arith(st, "neg", tZero, v, x.Type(), fr, in))
			}
		case token.XOR:
			v := e.val(p, fr, x.X)
			if v.op == OInt {
				set(intC(wrapTo(^v.n, x.Type())))
			} else {
				set(mkApp("compl", x.Type(), v))
			}
		default:
			e.problem("unsupported unary operator at %s", e.pos(in))
			set(fresh("unop", x.Type()))
		}
	case *ssa.BinOp:
		set(e.binop(st, fr, x, e.val(p, fr, x.X), e.val(p, fr, x.Y)))
	case *ssa.Store:
		e.store(st, fr, in, e.val(p, fr, x.Addr), x.Val.Type(), e.val(p, fr, x.Val))
	case *ssa.FieldAddr:
		b := e.val(p, fr, x.X)
		stt := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		set(mkPtr(b, intC(e.fieldOff(stt, x.Field))))
	case *ssa.Field:
		v := e.expand(x.X.Type(), e.val(p, fr, x.X))
		set(st.res(v.a[x.Field]))
	case *ssa.IndexAddr:
		set(e.indexAddr(st, fr, x, e.val(p, fr, x.X), e.val(p, fr, x.Index)))
	case *ssa.Index:
		v, i := e.val(p, fr, x.X), e.val(p, fr, x.Index)
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			ptr, l := strParts(v)
			e.bounds(st, fr, in, "index of string", i, l)
			set(e.load(st, fr, in, mkPtr(ptr, i), types.Typ[types.Uint8]))
		} else {
			at := x.X.Type().Underlying().(*types.Array)
			e.bounds(st, fr, in, "index of array", i, intC(at.Len()))
			if c, ok := st.constOf(i); ok && v.op == OArr && c >= 0 && c < at.Len() {
				set(v.a[c])
			} else {
				set(e.expand(x.Type(), mkApp("tblidx", x.Type(), v, i)))
			}
		}
	case *ssa.Slice:
		set(e.sliceOp(p, fr, x))
	case *ssa.ChangeType:
		set(e.val(p, fr, x.X))
	case *ssa.ChangeInterface:
		set(e.val(p, fr, x.X))
	case *ssa.Convert:
		set(e.convert(st, fr, x, e.val(p, fr, x.X)))
	case *ssa.MultiConvert:
		set(fresh("mconv", x.Type()))
	case *ssa.MakeInterface:
		set(mkI(x.X.Type(), e.val(p, fr, x.X)))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(p, fr, b))
		}
		set(mk(OClos, "", 0, x.Fn.(*ssa.Function), bs, nil))
	case *ssa.MakeMap:
		o := st.newObj(KMap, x.Type(), true, "alloc")
		o.site = e.pos(in)
		set(mkPtr(objT(o.id), tZero))
	case *ssa.MakeSlice:
		l, c := e.val(p, fr, x.Len), e.val(p, fr, x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		o := st.newObj(KLog, et, true, "alloc")
		o.site = e.pos(in)
		if !isInt(l, 0) {
			o.log = []*Term{piece("zero", 0, nil, l)}
		}
		e.obligation("makeslice", fr, in, "length of make", st.bound(l).lo >= 0 && st.le(l, c), func() string {
			return "length " + l.String() + " may be negative or exceed the capacity"
		})
		set(mkSlice(mkPtr(objT(o.id), tZero), l, c))
	case *ssa.Extract:
		t := e.val(p, fr, x.Tuple)
		if t.op == OTuple {
			set(st.res(t.a[x.Index]))
		} else {
			set(e.expand(x.Type(), mkApp(fmt.Sprintf("ext%d", x.Index), x.Type(), t)))
		}
	case *ssa.TypeAssert:
		return e.typeAssert(fr, p, x)
	case *ssa.Lookup:
		return e.lookup(fr, p, x)
	case *ssa.MapUpdate:
		m := e.val(p, fr, x.Map)
		k, v := e.val(p, fr, x.Key), e.val(p, fr, x.Value)
		if o := st.obj(baseOf(m)); o != nil && o.kind == KMap {
			o = st.mut(o)
			ent := mkTuple(k, v)
			if k := len(o.ents); k == 0 || o.ents[k-1] != ent {
				o.ents = append(o.ents, ent)
			}
			e.event("map-update", st, fr, in, o.prov, m, k, v)
			if e.trail && e.deepTrail {
				e.note(st, "map-content", o.prov, in, m, k, e.deepContent(st, v, x.Value.Type(), 4))
			}
		} else {
			e.event("store-opaque", st, fr, in, "map", m, v, k)
		}
	case *ssa.Range:
		o := st.newObj(KCells, types.Typ[types.Int], true, "iter")
		o.site = e.pos(in)
		p.env[x] = mkTuple(mkPtr(objT(o.id), tZero), e.val(p, fr, x.X))
	case *ssa.Next:
		return e.next(fr, p, x)
	case *ssa.Defer:
		fn, args := e.callee(p, fr, &x.Call)
		p.defers = append(p.defers, defCall{x, fn, args, true})
	case *ssa.RunDefers:
		ps := []*path{p}
		ds := p.defers
		for i := len(ds) - 1; i >= 0; i-- {
			var nps []*path
			for _, q := range ps {
				q.defers = nil
				for _, o := range e.callTerm(fr, q, ds[i].in, &ds[i].in.Call, ds[i].fn, ds[i].args) {
					nps = append(nps, &path{o.st, cloneMap(q.env), nil})
				}
			}
			ps = nps
		}
		p.defers = nil
		return ps
	case *ssa.Call:
		fn, args := e.callee(p, fr, &x.Call)
		fr.env = p.env
		outs := e.callTerm(fr, p, x, &x.Call, fn, args)
		var ps []*path
		for i, o := range outs {
			q := &path{st: o.st, env: p.env, defers: p.defers}
			if i < len(outs)-1 {
				q.env = cloneMap(p.env)
			}
			ps = append(ps, q)
		}
		for i, o := range outs {
			switch len(o.ret) {
			case 0:
				ps[i].env[x] = tNil
			case 1:
				ps[i].env[x] = o.ret[0]
			default:
				ps[i].env[x] = mkTuple(o.ret...)
			}
		}
		return ps
	case *ssa.SliceToArrayPointer:
		ptr, l, _ := sliceParts(e.val(p, fr, x.X))
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		e.obligation("index", fr, in, "slice to array conversion", st.bound(l).lo >= n, func() string { return "length " + l.String() })
		set(ptr)
	default:
		e.problem("unsupported instruction %T at %s", in, e.pos(in))
		if v, ok := in.(ssa.Value); ok {
			set(fresh("unsup", v.Type()))
		}
	}
	return one
}

func (e *Engine) fieldOff(s *types.Struct, i int) int64 {
	var fs []*types.Var
	for j := 0; j < s.NumFields(); j++ {
		fs = append(fs, s.Field(j))
	}
	return e.sizes.Offsetsof(fs)[i]
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}
func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *Engine) bounds(st *State, fr *frame, in ssa.Instruction, what string, i, n *Term) {
	ok := st.bound(i).lo >= 0 && st.lt(i, n)
	e.fuzzy = !ok && st.decide(inT(i, between(0, INF))) != 0 && st.decide(inT(subT(n, i), between(1, INF))) != 0 && (e.coarse || untracked(i) || untracked(n))
	defer func() { e.fuzzy = false }()
	e.obligation("index", fr, in, what, ok, func() string {
		return fmt.Sprintf("index %s is not known to be within [0, %s)", i, n)
	})
	// continue under the assumption that the access was in range
	st.assume(inT(i, between(0, INF)), true)
	if d := subT(n, i); d.op != OInt {
		st.assume(inT(d, between(1, INF)), true)
	}
}

// untracked: the value comes out of a division of a sum that may wrap around, an
// arithmetic the ranges do not follow.
func untracked(t *Term) bool {
	div, wrapped := false, false
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == OApp {
			switch t.s {
			case "quo", "shr", "rem":
				div = true
			case "wrap", "mul":
				wrapped = true
			}
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	walk(t)
	return div && wrapped
}

func (e *Engine) indexAddr(st *State, fr *frame, x *ssa.IndexAddr, v, i *Term) *Term {
	var et types.Type
	var ptr, n *Term
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
		ptr, n, _ = sliceParts(v)
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		et = at.Elem()
		ptr, n = v, intC(at.Len())
	}
	e.bounds(st, fr, x, "index", i, n)
	return mkPtr(ptr, mulC(i, e.sizes.Sizeof(et)))
}

func (e *Engine) sliceOp(p *path, fr *frame, x *ssa.Slice) *Term {
	st := p.st
	v := e.val(p, fr, x.X)
	var ptr, l, c *Term
	esz := int64(1)
	str := false
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		ptr, l, c = sliceParts(v)
		esz = e.sizes.Sizeof(u.Elem())
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		ptr, l, c = v, intC(at.Len()), intC(at.Len())
		esz = e.sizes.Sizeof(at.Elem())
	default:
		str = true
		ptr, l = strParts(v)
		c = l
	}
	lo, hi, mx := tZero, l, c
	if x.Low != nil {
		lo = e.val(p, fr, x.Low)
	}
	if x.High != nil {
		hi = e.val(p, fr, x.High)
	}
	if x.Max != nil {
		mx = e.val(p, fr, x.Max)
	}
	ok := st.bound(lo).lo >= 0 && st.le(lo, hi) && st.le(hi, mx) && st.le(mx, c)
	cannot := func(a, b *Term) bool { return st.decide(inT(subT(b, a), between(0, INF))) == 0 }
	e.fuzzy = !ok && !cannot(tZero, lo) && !cannot(lo, hi) && !cannot(hi, mx) && !cannot(mx, c) && (e.coarse || untracked(lo) || untracked(hi) || untracked(mx) || untracked(c))
	e.obligation("index", fr, x, "slice bounds", ok, func() string {
		return fmt.Sprintf("bounds [%s:%s:%s] are not known to be within capacity %s", lo, hi, mx, c)
	})
	e.fuzzy = false
	st.assume(inT(lo, between(0, INF)), true)
	if d := subT(hi, lo); d.op != OInt {
		st.assume(inT(d, between(0, INF)), true)
	}
	if d := subT(c, hi); d.op != OInt {
		st.assume(inT(d, between(0, INF)), true)
	}
	if str {
		return mkStr(mkPtr(ptr, lo), subT(hi, lo))
	}
	np := ptr
	if ptr != tNil {
		np = mkPtr(ptr, mulC(lo, esz))
	}
	if al, ok := x.X.(*ssa.Alloc); ok && al.Comment == "makeslice" && isInt(lo, 0) {
		if o := st.obj(baseOf(v)); o != nil && o.kind == KCells && len(o.cells) == 0 {
			o = st.mut(o)
			o.kind, o.typ, o.log = KLog, x.Type().Underlying().(*types.Slice).Elem(), nil
			if !isInt(hi, 0) {
				o.log = []*Term{piece("zero", 0, nil, hi)}
			}
		}
	}
	return mkSlice(np, subT(hi, lo), subT(mx, lo))
}

// ---------- arithmetic ----------

func fits(iv IV, t types.Type) bool {
	r := basicRange(t)
	if len(r) == 0 {
		return true
	}
	return iv.lo >= r.lo() && iv.hi <= r.hi() && iv.lo != NINF && iv.hi != INF
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (e *Engine) wrapLin(st *State, t *Term, ty types.Type) *Term {
	if t.op == OInt {
		if r := basicRange(ty); len(r) > 0 && !r.has(t.n) {
			return intC(wrapTo(t.n, ty))
		}
		return t
	}
	iv := st.bound(t)
	if fits(iv, ty) {
		return t
	}
	b, _ := ty.Underlying().(*types.Basic)
	if b != nil {
		switch b.Kind() {
		case types.Int, types.Int64, types.UntypedInt:
			// lengths and offsets: 64-bit overflow is out of reach unless the
			// operands are unbounded 64-bit values themselves
			if iv.lo != NINF && iv.hi != INF {
				return t
			}
		case types.Uint64, types.Uint, types.Uintptr:
			if iv.lo >= 0 && iv.hi != INF {
				return t
			}
		}
	}
	return mkApp("wrap", ty, t)
}

func (e *Engine) arith(st *State, op string, a, b *Term, t types.Type, fr *frame, in ssa.Instruction) *Term {
	switch op {
	case "add":
		// pointer arithmetic is exact
		if hasAddr(a) || hasAddr(b) {
			return addT(a, b)
		}
		// so is that of offsets, which stay within an object
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr && st.bound(a).lo >= 0 && st.bound(b).lo >= 0 {
			return addT(a, b)
		}
		return e.wrapLin(st, addT(a, b), t)
	case "sub", "neg":
		if hasAddr(a) {
			return subT(a, b)
		}
		return e.wrapLin(st, subT(a, b), t)
	case "mul":
		if a.op == OInt {
			a, b = b, a
		}
		if b.op == OInt {
			return e.wrapLin(st, mulC(a, b.n), t)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return mkApp("mul", t, a, b)
	}
	return nil
}

func hasAddr(t *Term) bool {
	l := linOf(t)
	for _, u := range l.t {
		if u.op == OApp && u.s == "addr" {
			return true
		}
	}
	return false
}

func (e *Engine) binop(st *State, fr *frame, x *ssa.BinOp, a, b *Term) *Term {
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		c := e.compare(st, x.Op, a, b, t, x.Y.Type())
		return c
	}
	if isFloatT(t) {
		if x.Op == token.ADD {
			return floatSum(t, a, b)
		}
		return mkApp("f"+x.Op.String(), t, a, b)
	}
	if isStringT(t) {
		return e.concat(st, a, b)
	}
	rt := x.Type()
	switch x.Op {
	case token.ADD:
		return e.arith(st, "add", a, b, rt, fr, x)
	case token.SUB:
		return e.arith(st, "sub", a, b, rt, fr, x)
	case token.MUL:
		return e.arith(st, "mul", a, b, rt, fr, x)
	case token.QUO, token.REM:
		iv := st.bound(b)
		e.obligation("div", fr, x, "division", iv.lo > 0 || iv.hi < 0, func() string { return "divisor " + b.String() + " may be zero" })
		if a.op == OInt && b.op == OInt && b.n != 0 {
			if x.Op == token.QUO {
				return intC(a.n / b.n)
			}
			return intC(a.n % b.n)
		}
		if b.op == OInt && b.n == 1 {
			if x.Op == token.QUO {
				return a
			}
			return tZero
		}
		if x.Op == token.REM && b.op == OInt && b.n > 0 {
			if iv := st.bound(a); iv.lo >= 0 && iv.hi < b.n {
				return a
			}
			if isPow2(b.n) && st.bound(a).lo >= 0 {
				return e.andT(st, a, intC(b.n-1), rt)
			}
		}
		if x.Op == token.QUO && b.op == OInt && isPow2(b.n) && st.bound(a).lo >= 0 {
			k := int64(0)
			for v := b.n; v > 1; v >>= 1 {
				k++
			}
			return mkApp("shr", rt, a, intC(k))
		}
		if x.Op == token.QUO {
			return mkApp("quo", rt, a, b)
		}
		return mkApp("rem", rt, a, b)
	case token.AND:
		return e.andT(st, a, b, rt)
	case token.AND_NOT:
		if b.op == OInt {
			if a.op == OInt {
				return intC(a.n &^ b.n)
			}
			// clearing bits: keep the others
			r := basicRange(rt)
			if len(r) > 0 && r.lo() == 0 && r.hi() != INF {
				return e.andT(st, a, intC(r.hi()&^b.n), rt)
			}
			return mkApp("andnot", rt, a, b)
		}
		return mkApp("andnot", rt, a, b)
	case token.OR:
		if a.op == OInt && b.op == OInt {
			return intC(a.n | b.n)
		}
		if a.op == OInt {
			a, b = b, a
		}
		if isInt(b, 0) {
			return a
		}
		if a == b {
			return a
		}
		return mkApp("or", rt, a, b)
	case token.XOR:
		if a.op == OInt && b.op == OInt {
			return intC(a.n ^ b.n)
		}
		if a.op == OInt {
			a, b = b, a
		}
		if isInt(b, 0) {
			return a
		}
		return mkApp("xor", rt, a, b)
	case token.SHL:
		if a.op == OInt && b.op == OInt && b.n < 62 && b.n >= 0 {
			return intC(wrapTo(a.n<<uint(b.n), rt))
		}
		if b.op == OInt && b.n >= 0 && b.n < 40 {
			return e.wrapLin(st, mulC(a, 1<<uint(b.n)), rt)
		}
		return mkApp("shl", rt, a, b)
	case token.SHR:
		if a.op == OInt && b.op == OInt && b.n < 63 && b.n >= 0 {
			return intC(a.n >> uint(b.n))
		}
		if isInt(b, 0) {
			return a
		}
		return mkApp("shr", rt, a, b)
	}
	e.problem("unsupported operator %s at %s", x.Op, e.pos(x))
	return fresh("binop", rt)
}

// andT builds a&b; a mask of several bits is the sum of its bits.
func (e *Engine) andT(st *State, a, b *Term, t types.Type) *Term {
	if a.op == OInt {
		a, b = b, a
	}
	if a.op == OInt {
		return intC(a.n & b.n)
	}
	if b.op != OInt {
		if a.id > b.id {
			a, b = b, a
		}
		return mkApp("and", t, a, b)
	}
	m := b.n
	if m == 0 {
		return tZero
	}
	if m > 0 && m&(m+1) == 0 {
		if iv := st.bound(a); iv.lo >= 0 && iv.hi <= m {
			return a
		}
		return mkApp("and", t, a, b)
	}
	if a.op == OApp && a.s == "or" && a.a[1].op == OInt {
		k := a.a[1].n
		return addT(e.andT(st, a.a[0], intC(m&^k), t), intC(k&m))
	}
	if a.op == OApp && a.s == "and" && a.a[1].op == OInt {
		return e.andT(st, a.a[0], intC(m&a.a[1].n), t)
	}
	if isPow2(m) || m < 0 {
		return mkApp("and", t, a, b)
	}
	// sum of single bits, for small masks
	cnt := 0
	for v := m; v != 0; v &= v - 1 {
		cnt++
	}
	if cnt <= 4 {
		r := tZero
		for v := m; v != 0; v &= v - 1 {
			r = addT(r, e.andT(st, a, intC(v&-v), t))
		}
		return r
	}
	return mkApp("and", t, a, b)
}

func (e *Engine) compare(st *State, op token.Token, a, b *Term, t, t2 types.Type) *Term {
	neg := false
	switch op {
	case token.NEQ:
		op, neg = token.EQL, true
	case token.GTR:
		op, a, b = token.LSS, b, a
	case token.GEQ:
		op, a, b = token.LEQ, b, a
	}
	ret := func(c *Term) *Term {
		if neg {
			return notT(c)
		}
		return c
	}
	_, tIface := t.Underlying().(*types.Interface)
	_, t2Iface := t2.Underlying().(*types.Interface)
	if tIface != t2Iface {
		// comparison of interface with concrete
		if tIface {
			b = mkI(t2, b)
		} else {
			a = mkI(t, a)
		}
		return ret(st.eqTerms(a, b))
	}
	switch {
	case isIntT(t):
		d := subT(a, b)
		if op != token.EQL && isUnsigned(t) && (hasAddr(a) || hasAddr(b)) {
			return mkApp("ptrcmp", types.Typ[types.Bool], a, b)
		}
		if op == token.EQL && d.op != OInt {
			// bit tests
			if r := bitEq(a, b); r != nil {
				return ret(r)
			}
		}
		switch op {
		case token.EQL:
			return ret(inT(d, single(0)))
		case token.LSS:
			return ret(inT(d, between(NINF, -1)))
		case token.LEQ:
			return ret(inT(d, between(NINF, 0)))
		}
	case isFloatT(t):
		if op == token.LEQ {
			return ret(mkApp("fle", types.Typ[types.Bool], a, b))
		}
		if op == token.LSS {
			return ret(mkApp("flt", types.Typ[types.Bool], a, b))
		}
		if a.id > b.id {
			a, b = b, a
		}
		return ret(mkApp("feq", types.Typ[types.Bool], a, b))
	case isStringT(t):
		if op == token.EQL {
			return ret(e.strEq(st, a, b))
		}
		if op == token.LSS {
			return ret(mkApp("strlt", types.Typ[types.Bool], a, b))
		}
		return ret(mkApp("strle", types.Typ[types.Bool], a, b))
	}
	if u, ok := t.Underlying().(*types.Basic); ok && u.Info()&types.IsBoolean != 0 {
		return ret(boolEq(st, a, b))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		c := tTrue
		if a.op == OStruct && b.op == OStruct {
			var cs []*Term
			for i := range a.a {
				cs = append(cs, e.compare(st, token.EQL, a.a[i], b.a[i], u.Field(i).Type(), u.Field(i).Type()))
			}
			c = conj(cs)
		} else {
			c = st.eqTerms(a, b)
		}
		return ret(c)
	}
	return ret(st.eqTerms(a, b))
}

// boolEq is the equality of two bools.
func boolEq(st *State, a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	for i, p := range []*Term{a, b} {
		q := []*Term{b, a}[i]
		switch st.decide(p) {
		case 1:
			return q
		case 0:
			return notT(q)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkApp("booleq", types.Typ[types.Bool], a, b)
}

func conj(cs []*Term) *Term {
	var r []*Term
	for _, c := range cs {
		if c == tFalse {
			return tFalse
		}
		if c != tTrue {
			r = append(r, c)
		}
	}
	if len(r) == 0 {
		return tTrue
	}
	if len(r) == 1 {
		return r[0]
	}
	return mkApp("conj", types.Typ[types.Bool], r...)
}

// bitEq rewrites x&m == m for a single bit m.
func bitEq(a, b *Term) *Term { return nil }

func (e *Engine) strEq(st *State, a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	_, la := strParts(a)
	_, lb := strParts(b)
	if isInt(lb, 0) {
		return inT(la, single(0))
	}
	if isInt(la, 0) {
		return inT(lb, single(0))
	}
	if a.op == OStrC && b.op == OStrC {
		return boolC(a.s == b.s)
	}
	iv := st.bound(subT(la, lb))
	if iv.lo > 0 || iv.hi < 0 {
		return tFalse
	}
	if b.op == OStrC && a.op == OStr {
		if r := e.contentIs(st, a, b.s); r >= 0 {
			return boolC(r == 1)
		}
	} else if a.op == OStrC && b.op == OStr {
		if r := e.contentIs(st, b, a.s); r >= 0 {
			return boolC(r == 1)
		}
	}
	return eqT(a, b)
}

func (e *Engine) convert(st *State, fr *frame, x *ssa.Convert, v *Term) *Term {
	from, to := x.X.Type(), x.Type()
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case fb != nil && tb != nil && fb.Kind() == types.UnsafePointer && tb.Kind() == types.Uintptr:
		b, off := ptrParts(v)
		if b == tNil {
			return off
		}
		return addT(mkApp("addr", types.Typ[types.Uintptr], b), off)
	case fb != nil && tb != nil && fb.Kind() == types.Uintptr && tb.Kind() == types.UnsafePointer:
		l := linOf(v)
		var base *Term
		rest := lin{c: l.c}
		for i, u := range l.t {
			if u.op == OApp && u.s == "addr" && l.k[i] == 1 && base == nil {
				base = u.a[0]
				continue
			}
			rest.t = append(rest.t, u)
			rest.k = append(rest.k, l.k[i])
		}
		if base == nil {
			return mkApp("forgedptr", types.Typ[types.UnsafePointer], v)
		}
		return mkPtr(base, rest.term())
	case fb != nil && fb.Kind() == types.UnsafePointer, tb != nil && tb.Kind() == types.UnsafePointer:
		return v
	case isIntT(from) && isIntT(to):
		return e.wrapLin(st, v, to)
	case isIntT(from) && isFloatT(to):
		return mkApp("i2f", to, v)
	case isFloatT(from) && isIntT(to):
		return mkApp("f2i", to, v)
	case isFloatT(from) && isFloatT(to):
		if types.Identical(from.Underlying(), to.Underlying()) {
			return v
		}
		return mkApp("fconv", to, v)
	case isStringT(to) && isByteSlice(from):
		return e.bytesToString(st, v)
	case isStringT(from) && isByteSlice(to):
		o := st.newObj(KLog, types.Typ[types.Uint8], true, "alloc")
		_, l := strParts(v)
		o.log = e.content(st, v)
		return mkSlice(mkPtr(objT(o.id), tZero), l, l)
	case isIntT(from) && isStringT(to):
		return e.expand(to, mkApp("runestr", to, v))
	case isStringT(from) && isStringT(to):
		return v
	case types.Identical(from.Underlying(), to.Underlying()):
		return v
	}
	return e.expand(to, mkApp("conv:"+typeKey(to), to, v))
}

// ---------- type assertions, maps, ranges ----------

func (e *Engine) dynType(st *State, v *Term) types.Type {
	switch v.op {
	case OMkI:
		return v.x.(types.Type)
	case OIface:
		t := st.res(v.a[0])
		if t.op == OApp && t.s == "tab" && t.a[0].op == OMkI {
			return t.a[0].x.(types.Type)
		}
	case OTypeC:
		return nil
	}
	return nil
}

func (e *Engine) typeAssert(fr *frame, p *path, x *ssa.TypeAssert) []*path {
	st := p.st
	v := e.val(p, fr, x.X)
	T := x.AssertedType
	_, toIface := T.Underlying().(*types.Interface)
	bindTo := func(q *path, val *Term, ok *Term) {
		if x.CommaOk {
			q.env[x] = mkTuple(val, ok)
		} else {
			q.env[x] = val
		}
	}
	zero := e.zeroOf(T)
	if dt := e.dynType(st, v); dt != nil {
		match := false
		if toIface {
			match = types.Implements(dt, T.Underlying().(*types.Interface))
		} else {
			match = types.Identical(dt, T)
		}
		if match {
			val := v
			if !toIface {
				if v.op == OMkI {
					val = v.a[0]
				} else {
					val = e.expand(T, mkApp("assert", T, v))
				}
			}
			bindTo(p, val, tTrue)
			return []*path{p}
		}
		if !x.CommaOk {
			e.obligation("assert", fr, x, "type assertion", false, func() string { return "dynamic type is " + shortType(dt) })
			return nil
		}
		bindTo(p, zero, tFalse)
		return []*path{p}
	}
	isnil := st.eqTerms(v, nilIface)
	okc := mkApp("dyntype", types.Typ[types.Bool], v, typeC(T))
	var out []*path
	d := st.decide(isnil)
	if d != 1 {
		if d == -1 && x.CommaOk {
			q := p.clone()
			if q.st.assume(isnil, true) {
				bindTo(q, zero, tFalse)
				out = append(out, q)
			}
		}
		q := p.clone()
		if q.st.assume(isnil, false) {
			val := v
			if !toIface {
				val = e.assertVal(q.st, v, T, x)
			}
			known := e.assertKnown(q.st, v, T)
			if x.CommaOk {
				if !known {
					r := q.clone()
					if r.st.assume(okc, false) {
						bindTo(r, zero, tFalse)
						out = append(out, r)
					}
				}
			} else {
				mayNil := d == -1 && v.op == OIface && v.a[0].op == OApp && (v.a[0].s == "itype" || v.a[0].s == "ld8p")
				if mayNil {
					e.obligation("nilassert", fr, x, "type assertion", false, func() string { return "the interface can be nil" })
				}
				e.obligation("assert", fr, x, "type assertion", known || q.st.decide(okc) == 1, func() string {
					return "the value " + v.String() + " is not known to be a " + shortType(T)
				})
			}
			if q.st.assume(okc, true) || known {
				bindTo(q, val, tTrue)
				out = append(out, q)
			}
		}
	} else if x.CommaOk {
		bindTo(p, zero, tFalse)
		return []*path{p}
	} else {
		e.obligation("assert", fr, x, "type assertion", false, func() string { return "the value is nil" })
	}
	return out
}

func (e *Engine) lookup(fr *frame, p *path, x *ssa.Lookup) []*path {
	st := p.st
	m, k := e.val(p, fr, x.X), e.val(p, fr, x.Index)
	if isStringT(x.X.Type()) {
		ptr, l := strParts(m)
		e.bounds(st, fr, x, "index of string", k, l)
		p.env[x] = e.load(st, fr, x, mkPtr(ptr, k), types.Typ[types.Uint8])
		return []*path{p}
	}
	mt := x.X.Type().Underlying().(*types.Map)
	var out []*path
	bind := func(q *path, v, ok *Term) {
		if x.CommaOk {
			q.env[x] = mkTuple(v, ok)
		} else {
			q.env[x] = v
		}
		out = append(out, q)
	}
	zero := e.zeroOf(mt.Elem())
	o := st.obj(baseOf(m))
	if o != nil && o.kind == KMap && len(o.ents) == 0 && o.zero {
		bind(p, zero, tFalse)
		return out
	}
	if m == tNil {
		bind(p, zero, tFalse)
		return out
	}
	ver := m
	if o != nil {
		// what was stored last under the key, if that is known
		n := len(o.ents)
		for ; n > 0; n-- {
			d := st.decide(st.eqTerms(o.ents[n-1].a[0], k))
			if d == 1 {
				bind(p, o.ents[n-1].a[1], tTrue)
				return out
			}
			if d != 0 {
				break
			}
		}
		if n == 0 && o.zero {
			bind(p, zero, tFalse)
			return out
		}
		ver = mkTuple(append([]*Term{m}, o.ents[:n]...)...)
	}
	has := mkApp("maphas", types.Typ[types.Bool], ver, k)
	mapElems[ver] = mt.Elem()
	val := e.expand(mt.Elem(), mkApp("mapget", mt.Elem(), ver, k))
	if d := st.decide(has); d != 1 {
		q := p
		if d == -1 {
			q = p.clone()
		}
		if q.st.assume(has, false) {
			e.note(q.st, "map-miss", "", x, ver, k)
			bind(q, zero, tFalse)
		}
		if d == 0 {
			return out
		}
	}
	if p.st.assume(has, true) {
		e.wf(p.st, mt.Elem(), val)
		e.note(p.st, "map-hit", "", x, ver, k)
		bind(p, val, tTrue)
	}
	return out
}

// mapElems has the type of the elements of the maps that are looked into.
var mapElems = map[*Term]types.Type{}

func (e *Engine) next(fr *frame, p *path, x *ssa.Next) []*path {
	it := e.val(p, fr, x.Iter)
	ptr, v := it.a[0], p.st.res(it.a[1])
	var out []*path
	if x.IsString {
		pos := e.load(p.st, fr, x, ptr, types.Typ[types.Int])
		sp, sl := strParts(v)
		c := inT(subT(pos, sl), between(NINF, -1))
		if p.st.decide(c) != 1 {
			q := p.clone()
			if q.st.assume(c, false) {
				q.env[x] = mkTuple(tFalse, tZero, tZero)
				out = append(out, q)
			}
		}
		if p.st.assume(c, true) {
			b, off := ptrParts(sp)
			r, sz := e.decodeRune(p.st, b, addT(off, pos), subT(sl, pos))
			e.store(p.st, fr, x, ptr, types.Typ[types.Int], addT(pos, sz))
			p.env[x] = mkTuple(tTrue, pos, r)
			out = append(out, p)
		}
		return out
	}
	// map: unknown number of entries
	tt := x.Type().(*types.Tuple)
	q := p.clone()
	q.env[x] = mkTuple(tFalse, e.zeroOr(tt.At(1).Type()), e.zeroOr(tt.At(2).Type()))
	out = append(out, q)
	var k, w *Term
	if o := p.st.obj(baseOf(v)); o != nil && o.kind == KMap && len(o.ents) == 0 && o.zero {
		return out
	}
	if v == tNil {
		return out
	}
	freshSeq++
	id := intC(int64(freshSeq))
	mt, _ := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	kt, et := mt.Key(), mt.Elem()
	k = e.expand(kt, mkApp("rangekey", kt, v, id))
	w = e.expand(et, mkApp("mapget", et, v, k))
	e.wf(p.st, kt, k)
	e.wf(p.st, et, w)
	p.env[x] = mkTuple(tTrue, k, w)
	out = append(out, p)
	return out
}

func (e *Engine) zeroOr(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return tNil
	}
	return e.zeroOf(t)
}

// callee evaluates the function and arguments of a call.
func (e *Engine) callee(p *path, fr *frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		recv := e.val(p, fr, c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, e.val(p, fr, a))
		}
		return nil, args
	}
	fn := e.val(p, fr, c.Value)
	for _, a := range c.Args {
		args = append(args, e.val(p, fr, a))
	}
	return fn, args
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
