package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Where memory comes from: a points-to analysis of the package, insensitive to
// the order of instructions and to fields, with one object per allocation, and
// with the memory that is shared between calls or belongs to the caller apart.

type mobj struct {
	kind string // "local", "value", "options", "shared", "global", "result"
	name string
	v    ssa.Value // allocation or variable
	fn   *ssa.Function
	cont map[*mobj]bool // what is stored in it
}

func (o *mobj) outside() bool {
	switch o.kind {
	case "value", "options", "shared":
		return true
	}
	return false
}

type mset map[*mobj]bool

type memory struct {
	e       *Engine
	L       *Lab
	fns     []*ssa.Function
	pts     map[ssa.Value]mset
	cont    map[*mobj]mset
	objs    map[any]*mobj
	rets    map[*ssa.Function][]mset
	changed bool
	value   *mobj
	opts    *mobj
	escapes map[*ssa.Function]bool // closures kept after the function that makes them has returned
	inits   map[*ssa.Function]bool // functions only run by package initialisation
	callers map[*ssa.Function][]ssa.CallInstruction
}

func newMemory(L *Lab) *memory {
	m := &memory{e: L.e, L: L, pts: map[ssa.Value]mset{}, cont: map[*mobj]mset{}, objs: map[any]*mobj{}, rets: map[*ssa.Function][]mset{}, escapes: map[*ssa.Function]bool{}, inits: map[*ssa.Function]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{}}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		m.fns = append(m.fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, f := range L.e.allFuncs() {
		add(f)
	}
	for p := range L.e.pkgs {
		add(p.Func("init"))
		for _, mb := range p.Members {
			if f, ok := mb.(*ssa.Function); ok {
				add(f)
			}
		}
	}
	sort.Slice(m.fns, func(i, j int) bool { return m.fns[i].String() < m.fns[j].String() })
	m.value = &mobj{kind: "value", name: "the value"}
	m.opts = &mobj{kind: "options", name: "the options"}
	for _, o := range []*mobj{m.value, m.opts} {
		m.cont[o] = mset{o: true}
	}
	for _, f := range m.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						m.callers[g] = append(m.callers[g], c)
					}
				}
			}
		}
	}
	m.findInits()
	m.findEscapes()
	m.roots()
	for n := 0; ; n++ {
		m.changed = false
		for _, f := range m.fns {
			m.flow(f)
		}
		if !m.changed || n > 60 {
			break
		}
	}
	return m
}

func (m *memory) findInits() {
	for _, f := range m.fns {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			m.inits[f] = true
		}
	}
	for again := true; again; {
		again = false
		for _, f := range m.fns {
			if m.inits[f] || len(m.callers[f]) == 0 || f.Object() != nil && f.Object().Exported() || m.addrTaken(f) {
				continue
			}
			all := true
			for _, c := range m.callers[f] {
				all = all && m.inits[c.Parent()]
			}
			if all {
				m.inits[f] = true
				again = true
			}
		}
	}
}

func (m *memory) addrTaken(f *ssa.Function) bool {
	for _, g := range m.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for i, op := range in.Operands(ops) {
					if *op == ssa.Value(f) {
						if c, ok := in.(ssa.CallInstruction); ok && i == 0 && c.Common().StaticCallee() == f {
							continue
						}
						return true
					}
				}
			}
		}
	}
	return false
}

// isInstrSig: the signature of encoders.
func (m *memory) isInstrSig(s *types.Signature) bool {
	return m.e.isInstr(s)
}

func (m *memory) isOptSig(s *types.Signature) bool {
	if s.Params().Len() != 1 || s.Results().Len() != 0 {
		return false
	}
	p, ok := s.Params().At(0).Type().Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), m.e.encOpts)
}

// findEscapes: closures used in other ways than being called where they are made.
func (m *memory) findEscapes() {
	for _, f := range m.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				g := c.Fn.(*ssa.Function)
				if m.kept(c, map[ssa.Value]bool{}) {
					m.escapes[g] = true
				}
			}
		}
	}
}

func (m *memory) kept(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface:
			if m.kept(r.(ssa.Value), seen) {
				return true
			}
		case *ssa.Call:
			if x.Call.Value == v {
				continue
			}
			g := x.Call.StaticCallee()
			if g == nil {
				return true
			}
			n := g.String()
			if n == "(*sync.Map).Range" || strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.") || strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "bytes.") || n == "(*sync.Once).Do" {
				continue
			}
			if g.Blocks == nil {
				return true
			}
			for i, a := range x.Call.Args {
				if a == v && i < len(g.Params) && m.kept(g.Params[i], seen) {
					return true
				}
			}
		case *ssa.Defer:
			if x.Call.Value != v {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func (m *memory) obj(key any, kind, name string, v ssa.Value, f *ssa.Function) *mobj {
	if o := m.objs[key]; o != nil {
		return o
	}
	o := &mobj{kind: kind, name: name, v: v, fn: f}
	m.objs[key] = o
	m.cont[o] = mset{}
	if kind == "shared" {
		m.cont[o] = mset{o: true}
	}
	return o
}

func (m *memory) at(v ssa.Value) mset {
	s := m.pts[v]
	if s == nil {
		s = mset{}
		m.pts[v] = s
	}
	return s
}

func (m *memory) add(s mset, o *mobj) {
	if !s[o] {
		s[o] = true
		m.changed = true
	}
}

func (m *memory) join(d, s mset) {
	for o := range s {
		m.add(d, o)
	}
}

// roots: the parameters of what is called from outside.
func (m *memory) roots() {
	for _, f := range m.fns {
		switch {
		case m.isInstrSig(f.Signature):
			n := len(f.Params)
			m.add(m.at(f.Params[n-3]), m.value)
			m.add(m.at(f.Params[n-1]), m.opts)
		case isPredicate(f.Signature) && len(f.Params) == 1:
			m.add(m.at(f.Params[len(f.Params)-1]), m.value)
		case f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil:
			for _, p := range f.Params {
				switch p.Type().Underlying().(type) {
				case *types.Interface:
					m.add(m.at(p), m.value)
				case *types.Slice:
					if !isBytes(p.Type()) {
						m.add(m.at(p), m.opts)
					}
				}
			}
		}
		// what an encoder that is kept has captured is shared by all its calls
		if m.escapes[f] {
			for _, fv := range f.FreeVars {
				m.add(m.at(fv), m.obj(fv, "shared", "the variable "+fv.Name()+" captured by "+shortName(f), fv, f))
			}
		}
	}
}

func (m *memory) flow(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			m.instr(f, in)
		}
	}
}

// load: what is in the memory v points to.
func (m *memory) load(d mset, s mset) {
	for o := range s {
		m.join(d, m.cont[o])
	}
}

func (m *memory) get(v ssa.Value) mset {
	if g, ok := v.(*ssa.Global); ok {
		s := m.at(v)
		o := m.obj(g, "global", g.Name(), g, nil)
		m.add(s, o)
		if m.e.pkgs[g.Pkg] && !isSyncType(g.Type().Underlying().(*types.Pointer).Elem()) {
			m.add(m.cont[o], m.obj(g.String()+"*", "shared", "the package variable "+g.Name(), g, nil))
		}
	}
	return m.at(v)
}

func isSyncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.String || u.Kind() == types.Uintptr
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtr(u.Elem())
	case *types.Tuple:
		return true
	}
	return true
}

func (m *memory) instr(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		m.add(m.at(x), m.obj(x, "local", x.Comment, x, f))
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		m.add(m.at(x.(ssa.Value)), m.obj(x, "local", "memory made at "+m.e.pos(in), x.(ssa.Value), f))
	case *ssa.MakeClosure:
		o := m.obj(x, "local", "closure", x, f)
		m.add(m.at(x), o)
		g := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			m.join(m.cont[o], m.get(b))
			if !m.escapes[g] {
				m.join(m.at(g.FreeVars[i]), m.get(b))
			}
		}
	case *ssa.MakeInterface:
		if hasPtr(x.X.Type()) {
			if !isPointerish(x.X.Type()) {
				// the value is copied
				m.join(m.at(x), m.get(x.X))
			} else {
				m.join(m.at(x), m.get(x.X))
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			m.join(m.at(x), m.get(e))
		}
	case *ssa.Convert:
		// string <-> []byte copies
		if isStringT(x.X.Type()) != isStringT(x.Type()) && (isBytes(x.X.Type()) || isBytes(x.Type())) {
			if isBytes(x.Type()) {
				m.add(m.at(x), m.obj(x, "local", "converted string", x, f))
			}
			return
		}
		m.join(m.at(x), m.get(x.X))
	case *ssa.ChangeType:
		m.join(m.at(x), m.get(x.X))
	case *ssa.ChangeInterface:
		m.join(m.at(x), m.get(x.X))
	case *ssa.SliceToArrayPointer:
		m.join(m.at(x), m.get(x.X))
	case *ssa.TypeAssert:
		m.join(m.at(x), m.get(x.X))
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Call); ok {
			if c, ok := m.resOf(x.Tuple, x.Index); ok {
				m.join(m.at(x), c)
				return
			}
		}
		if hasPtr(x.Type()) {
			m.join(m.at(x), m.get(x.Tuple))
		}
	case *ssa.Field:
		if hasPtr(x.Type()) {
			m.join(m.at(x), m.get(x.X))
		}
	case *ssa.FieldAddr:
		m.join(m.at(x), m.get(x.X))
	case *ssa.IndexAddr:
		m.join(m.at(x), m.get(x.X))
	case *ssa.Index:
		if hasPtr(x.Type()) {
			m.join(m.at(x), m.get(x.X))
		}
	case *ssa.Slice:
		m.join(m.at(x), m.get(x.X))
	case *ssa.BinOp:
		if hasPtr(x.Type()) && x.Op == token.ADD && !isStringT(x.Type()) {
			m.join(m.at(x), m.get(x.X))
			m.join(m.at(x), m.get(x.Y))
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && hasPtr(x.Type()) {
			m.load(m.at(x), m.get(x.X))
		}
	case *ssa.Lookup:
		if hasPtr(x.Type()) {
			m.load(m.at(x), m.get(x.X))
		}
	case *ssa.Range:
		m.join(m.at(x), m.get(x.X))
	case *ssa.Next:
		m.load(m.at(x), m.get(x.Iter))
	case *ssa.Store:
		if hasPtr(x.Val.Type()) {
			for o := range m.get(x.Addr) {
				if !o.outside() {
					m.join(m.cont[o], m.get(x.Val))
				}
			}
		}
	case *ssa.MapUpdate:
		for o := range m.get(x.Map) {
			if !o.outside() {
				m.join(m.cont[o], m.get(x.Value))
				m.join(m.cont[o], m.get(x.Key))
			}
		}
	case *ssa.Return:
		rs := m.rets[f]
		if rs == nil {
			rs = make([]mset, len(x.Results))
			for i := range rs {
				rs[i] = mset{}
			}
			m.rets[f] = rs
		}
		for i, r := range x.Results {
			m.join(rs[i], m.get(r))
		}
	case ssa.CallInstruction:
		m.call(f, x)
	}
}

func isPointerish(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

// resOf is result i of a call of a function of the package.
func (m *memory) resOf(v ssa.Value, i int) (mset, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	g := c.Call.StaticCallee()
	if g == nil || g.Blocks == nil || !m.e.pkgs[g.Package()] && g.Parent() == nil {
		return nil, false
	}
	if rs := m.rets[g]; rs != nil && i < len(rs) {
		return rs[i], true
	}
	return mset{}, true
}

func (m *memory) call(f *ssa.Function, c ssa.CallInstruction) {
	cc := c.Common()
	v := c.Value()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && v != nil {
			if !noSpare(cc.Args[0]) {
				m.join(m.at(v), m.get(cc.Args[0]))
			}
			o := m.obj(c, "local", "memory made by append at "+m.e.pos(c), v, f)
			m.add(m.at(v), o)
			if s, ok := v.Type().Underlying().(*types.Slice); ok && hasPtr(s.Elem()) {
				for _, a := range cc.Args {
					m.load(m.cont[o], m.get(a))
				}
				for d := range m.get(cc.Args[0]) {
					if !d.outside() {
						m.load(m.cont[d], m.get(cc.Args[1]))
					}
				}
			}
		}
		if b.Name() == "copy" {
			for d := range m.get(cc.Args[0]) {
				if !d.outside() {
					m.load(m.cont[d], m.get(cc.Args[1]))
				}
			}
		}
		return
	}
	if cc.IsInvoke() {
		if v == nil {
			return
		}
		switch cc.Method.Name() {
		case "MarshalJSON", "MarshalText":
			// what a method returns may be part of the value
			m.add(m.at(v), m.value)
		case "AppendJSON", "AppendJSONContext":
			m.join(m.at(v), m.get(cc.Args[len(cc.Args)-1]))
		}
		return
	}
	g := cc.StaticCallee()
	if g == nil {
		// an encoder or another function value
		if v != nil && v.Type() != nil {
			for _, a := range cc.Args {
				if isBytes(a.Type()) {
					m.join(m.at(v), m.get(a))
				}
			}
		}
		// functions of the package called through a value
		for o := range m.get(cc.Value) {
			if mc, ok := o.v.(*ssa.MakeClosure); ok && o.kind == "local" {
				h := mc.Fn.(*ssa.Function)
				for i, a := range cc.Args {
					if i < len(h.Params) {
						m.join(m.at(h.Params[i]), m.get(a))
					}
				}
				if v != nil {
					for _, s := range m.rets[h] {
						m.join(m.at(v), s)
					}
				}
			}
		}
		return
	}
	if g.Blocks != nil && (m.e.pkgs[g.Package()] || g.Parent() != nil && m.e.pkgs[g.Parent().Package()] || g.Synthetic != "") {
		for i, a := range cc.Args {
			if i < len(g.Params) {
				m.join(m.at(g.Params[i]), m.get(a))
			}
		}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for i, b := range mc.Bindings {
				m.join(m.at(g.FreeVars[i]), m.get(b))
			}
		}
		if v != nil {
			if _, ok := v.Type().(*types.Tuple); !ok {
				for _, s := range m.rets[g] {
					m.join(m.at(v), s)
				}
			}
		}
		return
	}
	n := g.String()
	if v != nil {
		switch {
		case n == "(*sync.Map).Load" || n == "(*sync.Map).LoadOrStore" || n == "(*sync.Map).Swap" || n == "(*sync.Map).LoadAndDelete":
			if m.shares(cc.Args[0]) {
				m.add(m.at(v), m.obj("shared:"+n, "shared", "what a cache holds", v, f))
			} else {
				m.add(m.at(v), m.value)
			}
		case strings.HasPrefix(n, "sync/atomic.Load") || strings.HasPrefix(n, "(*sync/atomic.") && (g.Name() == "Load" || g.Name() == "Swap"):
			m.add(m.at(v), m.obj("shared:atomic", "shared", "what is published by an atomic operation", v, f))
		case strings.HasPrefix(n, "strconv.Append") || strings.HasPrefix(n, "unicode/utf8.Append") || g.Name() == "AppendFormat" || g.Name() == "AppendEncode":
			for _, a := range cc.Args {
				if isBytes(a.Type()) {
					m.join(m.at(v), m.get(a))
				}
			}
		case strings.HasPrefix(n, "bytes.Trim") || n == "bytes.Fields" || n == "bytes.Split" || strings.HasPrefix(n, "slices.Clip") || strings.HasPrefix(n, "slices.Grow"):
			m.join(m.at(v), m.get(cc.Args[0]))
		case n == "(*sync.Pool).Get":
			// what was put in
		}
	}
	if n == "(*sync.Map).Range" && len(cc.Args) == 2 {
		if mc, ok := cc.Args[1].(*ssa.MakeClosure); ok {
			h := mc.Fn.(*ssa.Function)
			for _, p := range h.Params {
				if m.shares(cc.Args[0]) {
					m.add(m.at(p), m.obj("shared:range", "shared", "what a cache holds", p, f))
				} else {
					m.add(m.at(p), m.value)
				}
			}
		}
	}
}

// shares: is a sync.Map one of the package?
func (m *memory) shares(v ssa.Value) bool {
	for o := range m.get(v) {
		if o.kind == "value" {
			return false
		}
	}
	return true
}

// noSpare: a slice that append can never write behind.
func noSpare(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Slice:
		if x.Max == nil {
			return false
		}
		if x.High == x.Max && x.High != nil {
			return true
		}
		a, ok1 := x.High.(*ssa.Const)
		b, ok2 := x.Max.(*ssa.Const)
		return ok1 && ok2 && a.Int64() == b.Int64()
	}
	return false
}

// mwrite is an instruction that writes memory.
type mwrite struct {
	in   ssa.Instruction
	fn   *ssa.Function
	dst  mset
	what string
}

func (m *memory) writes() []mwrite {
	var ws []mwrite
	for _, f := range m.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				add := func(v ssa.Value, what string) { ws = append(ws, mwrite{in, f, m.get(v), what}) }
				switch x := in.(type) {
				case *ssa.Store:
					add(x.Addr, "assignment")
				case *ssa.MapUpdate:
					add(x.Map, "assignment to a map")
				case ssa.CallInstruction:
					cc := x.Common()
					if b, ok := cc.Value.(*ssa.Builtin); ok {
						switch b.Name() {
						case "append":
							if !noSpare(cc.Args[0]) {
								add(cc.Args[0], "append")
							}
						case "copy":
							add(cc.Args[0], "copy")
						case "delete", "clear":
							add(cc.Args[0], b.Name())
						}
						continue
					}
					g := cc.StaticCallee()
					if g == nil || g.Blocks != nil && m.e.pkgs[g.Package()] {
						continue
					}
					n := g.String()
					switch {
					case strings.HasSuffix(n, "mapiterinit") && len(cc.Args) == 3:
						add(cc.Args[2], n)
					case strings.HasSuffix(n, "newmapiter") && len(cc.Args) == 3:
						add(cc.Args[2], n)
					case strings.HasSuffix(n, "mapiternext"):
						add(cc.Args[0], n)
					case strings.HasPrefix(n, "sort.") && g.Name() != "Search" && len(cc.Args) > 0 && !strings.HasPrefix(g.Name(), "Search") && !strings.HasSuffix(g.Name(), "AreSorted") && !strings.HasSuffix(g.Name(), "IsSorted"):
						add(cc.Args[0], n)
					case strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "slices.Reverse") || strings.HasPrefix(n, "slices.Delete") || strings.HasPrefix(n, "slices.Insert") || strings.HasPrefix(n, "slices.Compact"):
						add(cc.Args[0], n)
					case strings.HasPrefix(n, "strconv.Append") || strings.HasPrefix(n, "unicode/utf8.Append") || strings.HasPrefix(n, "unicode/utf8.Encode") || n == "encoding/base64.(*Encoding).Encode" || n == "(*encoding/base64.Encoding).Encode" || g.Name() == "AppendFormat":
						for _, a := range cc.Args {
							if isBytes(a.Type()) {
								add(a, n)
								break
							}
						}
					}
				}
			}
		}
	}
	return ws
}

// locked: is a lock held where an instruction is?
func locked(in ssa.Instruction) bool {
	f := in.Parent()
	for _, b := range f.Blocks {
		for i, x := range b.Instrs {
			c, ok := x.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || !strings.HasPrefix(g.String(), "(*sync.") || g.Name() != "Lock" && g.Name() != "RLock" {
				continue
			}
			if before(b, i, in) {
				// not given back in between
				free := false
				for _, b2 := range f.Blocks {
					for j, y := range b2.Instrs {
						d, ok := y.(*ssa.Call)
						if !ok {
							continue
						}
						h := d.Call.StaticCallee()
						if h != nil && (h.Name() == "Unlock" || h.Name() == "RUnlock") && strings.HasPrefix(h.String(), "(*sync.") && before(b2, j, in) && before(b, i, y) {
							free = true
						}
					}
				}
				if !free {
					return true
				}
			}
		}
	}
	return false
}

// before: does instruction i of block b come before in on every path?
func before(b *ssa.BasicBlock, i int, in ssa.Instruction) bool {
	if in.Block() == b {
		for j, x := range b.Instrs {
			if x == in {
				return i < j
			}
		}
	}
	return b.Dominates(in.Block())
}

func instrIndex(in ssa.Instruction) int {
	for j, x := range in.Block().Instrs {
		if x == in {
			return j
		}
	}
	return -1
}

// reaches: can b be run after a, without avoid in between?
func reaches(a, b ssa.Instruction, avoid ...ssa.Instruction) bool {
	if a.Block() == nil || b.Block() == nil || a.Parent() != b.Parent() {
		return false
	}
	type pos struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(bl *ssa.BasicBlock, i int) bool
	walk = func(bl *ssa.BasicBlock, i int) bool {
		for ; i < len(bl.Instrs); i++ {
			if bl.Instrs[i] == b {
				return true
			}
			for _, v := range avoid {
				if v != nil && bl.Instrs[i] == v {
					return false
				}
			}
		}
		for _, s := range bl.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(a.Block(), instrIndex(a)+1)
}

func (m *memory) describe(s mset) string {
	var n []string
	for o := range s {
		n = append(n, o.kind+":"+o.name)
	}
	sort.Strings(n)
	return strings.Join(n, ", ")
}

func init() {
	checks["C07"] = checkC07
	checks["C08"] = checkC08
}

func (L *Lab) mem() *memory {
	if L.mmem == nil {
		L.mmem = newMemory(L)
	}
	return L.mmem
}

// checkC07: encoding writes neither to the value, nor to options, nor to tables.
func checkC07(c *Check) {
	L := c.L
	c.rule = "Every instruction that writes memory (assignments through pointers, map assignments, append and copy, sorting, runtime and library functions that fill their arguments) in every function is an obligation: the memory it can write to, found by a points-to analysis of the package in which the value, the options and the package variables are objects of their own, must not be the value, the slices its methods return, the options, or, outside initialisation, a package variable. Besides, the encoders are run abstractly: every write on every path must go to memory made on that path, to the buffer, or to an object of a pool."
	m := L.mem()
	for _, f := range m.fns {
		c.saw(shortName(f))
	}
	for _, w := range m.writes() {
		if m.inits[w.fn] {
			continue
		}
		c.count("writes", 1)
		c.sample("%s %s: %s to %s", m.e.pos(w.in), shortName(w.fn), w.what, m.describe(w.dst))
		for o := range w.dst {
			switch {
			case o == m.value || o == m.opts:
				c.violate(L.at(w.in), shortName(w.fn), w.what+" to memory of "+o.name, "")
			case o.kind == "global" && !locked(w.in):
				c.violate(L.at(w.in), shortName(w.fn), w.what+" to the package variable "+o.name, "")
			case o.kind == "shared" && strings.HasPrefix(o.name, "the package variable") && !locked(w.in):
				c.violate(L.at(w.in), shortName(w.fn), w.what+" to memory of "+o.name, "")
			}
		}
	}
	for _, x := range L.runAll() {
		if !x.isEnc() && !x.isAPI() || !x.ok() {
			continue
		}
		c.count("functions", 1)
		for _, ev := range x.events {
			var dst *Term
			switch ev.kind {
			case "store-opaque", "append-opaque", "map-update":
				dst = ev.st.res(ev.args[0])
				if ev.kind == "append-opaque" && ev.st.eqInt(ev.args[1], intC(0)) && ev.st.eqTerms(ev.args[1], ev.args[2]) == tTrue {
					continue
				}
			case "store-global":
				c.violate(L.at(ev.in), x.name, "assignment to "+ev.note, pathOf(ev.st))
				continue
			default:
				continue
			}
			c.count("writes followed", 1)
			if dst.op == OSlice {
				dst = ev.st.res(dst.a[0])
			}
			if ev.st.obj(baseOf(dst)) != nil {
				continue
			}
			switch {
			case rootedAt(dst, "p", "v"):
				c.violate(L.at(ev.in), x.name, "a path writes to memory of the value: "+dst.str(4), pathOf(ev.st))
			case rootedAt(dst, "opts"):
				c.violate(L.at(ev.in), x.name, "a path writes to memory of the options: "+dst.str(4), pathOf(ev.st))
			case strings.HasPrefix(dst.s, "mapkeyptr") || strings.HasPrefix(dst.s, "mapvalptr") || strings.HasPrefix(dst.s, "smkey") || strings.HasPrefix(dst.s, "smval"):
				c.violate(L.at(ev.in), x.name, "a path writes to an entry of the map: "+dst.str(4), pathOf(ev.st))
			default:
				c.undecided("%s %s: what memory %s is", L.at(ev.in), x.name, dst.str(4))
			}
		}
	}
	if c.n["writes"] < 50 {
		c.undecided("only %d writes were found", c.n["writes"])
	}
}

// checkC08: what calls share is only used through synchronised operations.
func checkC08(c *Check) {
	L := c.L
	c.rule = "Points-to analysis of the package, with what is found in caches, package variables and variables captured by encoders as objects that concurrent calls share. Outside initialisation no instruction may write to them unless a lock is held or through sync and sync/atomic; a variable that is written with atomic operations or under a lock must be read likewise. Memory given to a cache may not be written afterwards by the function that gave it, except behind a barrier: the WaitGroup (or lock) must be taken before the memory is given, released only after the write, and each reader must wait for it before it reads."
	m := L.mem()
	for _, f := range m.fns {
		c.saw(shortName(f))
	}
	for _, w := range m.writes() {
		if m.inits[w.fn] {
			continue
		}
		c.count("writes", 1)
		for o := range w.dst {
			if o.kind != "shared" && o.kind != "global" {
				continue
			}
			if locked(w.in) {
				c.count("writes under a lock", 1)
				continue
			}
			if o.kind == "shared" && m.onceOnly(w.fn) {
				continue
			}
			what := o.name
			if o.kind == "global" {
				what = "the package variable " + o.name
			}
			c.violate(L.at(w.in), shortName(w.fn), w.what+" to memory that other calls use at the same time: "+what, "")
		}
	}
	c.mixedAccess(m)
	c.published(m)
	if c.n["writes"] < 50 {
		c.undecided("only %d writes were found", c.n["writes"])
	}
	if c.n["accesses of synchronised variables"] < 3 {
		c.undecided("only %d accesses of synchronised variables were found", c.n["accesses of synchronised variables"])
	}
}

// onceOnly: is a function only passed to (*sync.Once).Do?
func (m *memory) onceOnly(f *ssa.Function) bool {
	found := false
	for _, g := range m.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok || mc.Fn != ssa.Value(f) {
					continue
				}
				for _, r := range *mc.Referrers() {
					if _, ok := r.(*ssa.DebugRef); ok {
						continue
					}
					c, ok := r.(*ssa.Call)
					if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "(*sync.Once).Do" {
						return false
					}
					found = true
				}
			}
		}
	}
	return found
}

// addrUses: how the memory of a variable is used by instructions that have its
// address at hand.
func (m *memory) addrUses(g *ssa.Global, visit func(in ssa.Instruction, use string)) {
	o := m.objs[g]
	if o == nil {
		return
	}
	for _, f := range m.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL && m.get(x.X)[o] {
						visit(in, "load")
					}
				case *ssa.Store:
					if m.get(x.Addr)[o] {
						visit(in, "store")
					}
				case ssa.CallInstruction:
					h := x.Common().StaticCallee()
					if h == nil {
						continue
					}
					for _, a := range x.Common().Args {
						if m.at(a)[o] || a == ssa.Value(g) {
							if strings.HasPrefix(h.String(), "sync/atomic.") || strings.HasPrefix(h.String(), "(*sync/atomic.") {
								visit(in, "atomic "+h.Name())
							} else if strings.HasPrefix(h.String(), "(*sync.") {
								visit(in, "sync "+h.Name())
							}
						}
					}
				}
			}
		}
	}
}

// mixedAccess: a variable changed by atomic operations or under a lock is not
// read in another way.
func (c *Check) mixedAccess(m *memory) {
	L := c.L
	var gs []*ssa.Global
	for k := range m.objs {
		if g, ok := k.(*ssa.Global); ok && m.e.pkgs[g.Pkg] {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
	for _, g := range gs {
		atomic, underLock := false, false
		var contentWrites []mwrite
		m.addrUses(g, func(in ssa.Instruction, use string) {
			if m.inits[in.Parent()] {
				return
			}
			c.count("accesses of synchronised variables", 1)
			if strings.HasPrefix(use, "atomic ") && !strings.HasPrefix(use, "atomic Load") {
				atomic = true
			}
			if use == "store" && locked(in) {
				underLock = true
			}
		})
		sh := m.objs[g.String()+"*"]
		for _, w := range m.writes() {
			if sh != nil && w.dst[sh] && !m.inits[w.fn] && locked(w.in) {
				underLock = true
				contentWrites = append(contentWrites, w)
			}
		}
		if !atomic && !underLock {
			continue
		}
		m.addrUses(g, func(in ssa.Instruction, use string) {
			if m.inits[in.Parent()] || use != "load" && use != "store" {
				return
			}
			if atomic {
				c.violate(L.at(in), shortName(in.Parent()), "the variable "+g.Name()+", which is changed by atomic operations, is accessed without", "")
			} else if !locked(in) {
				if len(m.callers[in.Parent()]) > 0 && m.callersLock(in.Parent(), 0) {
					return
				}
				c.violate(L.at(in), shortName(in.Parent()), "the variable "+g.Name()+", which is changed under a lock, is accessed without", "")
			}
		})
	}
}

// callersLock: do all callers hold a lock?
func (m *memory) callersLock(f *ssa.Function, depth int) bool {
	if depth > 3 || len(m.callers[f]) == 0 {
		return false
	}
	for _, in := range m.callers[f] {
		if !locked(in) && !m.callersLock(in.Parent(), depth+1) {
			return false
		}
	}
	return true
}

// publishes: the values an instruction makes visible to other calls.
func (m *memory) publishes(in ssa.Instruction) []ssa.Value {
	switch x := in.(type) {
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return nil
		}
		n := g.String()
		a := x.Call.Args
		switch {
		case n == "(*sync.Map).Store" || n == "(*sync.Map).LoadOrStore" || n == "(*sync.Map).Swap" || n == "(*sync.Map).CompareAndSwap":
			return a[1:]
		case strings.HasPrefix(n, "sync/atomic.Store") || strings.HasPrefix(n, "sync/atomic.Swap") || strings.HasPrefix(n, "sync/atomic.CompareAndSwap"):
			return a[1:]
		case strings.HasPrefix(n, "(*sync/atomic.") && (g.Name() == "Store" || g.Name() == "Swap" || g.Name() == "CompareAndSwap"):
			return a[1:]
		case g.Blocks != nil && m.e.pkgs[g.Package()]:
			var r []ssa.Value
			for i, p := range g.Params {
				if i < len(a) && m.publishesParam(g, p, map[*ssa.Function]bool{}) {
					r = append(r, a[i])
				}
			}
			return r
		}
	case *ssa.Store:
		for o := range m.get(x.Addr) {
			if o.kind == "global" {
				return []ssa.Value{x.Val}
			}
		}
	case *ssa.MapUpdate:
		for o := range m.get(x.Map) {
			if o.kind == "shared" {
				return []ssa.Value{x.Value}
			}
		}
	}
	return nil
}

func (m *memory) publishesParam(g *ssa.Function, p *ssa.Parameter, seen map[*ssa.Function]bool) bool {
	if seen[g] {
		return false
	}
	seen[g] = true
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().Blocks != nil && m.e.pkgs[c.Call.StaticCallee().Package()] {
				h := c.Call.StaticCallee()
				for i, q := range h.Params {
					if i < len(c.Call.Args) && sameValue(c.Call.Args[i], p) && m.publishesParam(h, q, seen) {
						return true
					}
				}
				continue
			}
			for _, v := range m.publishes(in) {
				if sameValue(v, p) {
					return true
				}
			}
		}
	}
	return false
}

// sameValue looks through conversions.
func sameValue(v ssa.Value, p ssa.Value) bool {
	for {
		if v == p {
			return true
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return false
		}
	}
}

// reach: the objects that can be reached from others.
func (m *memory) reachable(s mset) mset {
	r := mset{}
	var walk func(o *mobj)
	walk = func(o *mobj) {
		if r[o] || o.kind != "local" {
			return
		}
		r[o] = true
		for p := range m.cont[o] {
			walk(p)
		}
	}
	for o := range s {
		walk(o)
	}
	return r
}

// origins: the instructions of f that make object o anew.
func (m *memory) origins(f *ssa.Function, o *mobj) []ssa.Instruction {
	var r []ssa.Instruction
	if a, ok := o.v.(ssa.Instruction); ok && o.fn == f && a.Parent() == f {
		return append(r, a)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if m.reachable(m.get(x))[o] && !m.argReaches(x, o) {
				r = append(r, x)
			}
		}
	}
	return r
}

func (m *memory) argReaches(x *ssa.Call, o *mobj) bool {
	for _, a := range x.Call.Args {
		if m.reachable(m.get(a))[o] {
			return true
		}
	}
	return false
}

// calledWrites: the writes that functions called by f make to memory that
// f gives them, placed at the call.
func (m *memory) calledWrites(f *ssa.Function, ws []mwrite) []mwrite {
	var r []mwrite
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := x.Call.StaticCallee()
			if g == nil || g.Blocks == nil {
				continue
			}
			fs := m.callees(g)
			if fs[f] {
				continue
			}
			for _, w := range ws {
				if !fs[w.fn] {
					continue
				}
				n := w
				n.in, n.dst = x, mset{}
				for o := range w.dst {
					if m.argReaches(x, o) {
						n.dst[o] = true
					}
				}
				if len(n.dst) > 0 {
					r = append(r, n)
				}
			}
		}
	}
	return r
}

// callees: g and the functions it calls, directly or not.
func (m *memory) callees(g *ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var walk func(h *ssa.Function)
	walk = func(h *ssa.Function) {
		if h == nil || r[h] || h.Blocks == nil {
			return
		}
		r[h] = true
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(ssa.CallInstruction); ok {
					walk(x.Common().StaticCallee())
				}
			}
		}
	}
	walk(g)
	return r
}

// published: what is given to a cache is not written afterwards.
func (c *Check) published(m *memory) {
	ws := m.writes()
	for _, f := range m.fns {
		if m.inits[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, v := range m.publishes(in) {
					c.count("values published", 1)
					objs := m.reachable(m.get(v))
					for _, w := range ws {
						if w.fn != f {
							continue
						}
						for o := range w.dst {
							if objs[o] && reaches(in, w.in, m.origins(f, o)...) {
								c.count("writes after publication", 1)
								c.barrier(m, f, in, v, w, o)
							}
						}
					}
					for _, w := range m.calledWrites(f, ws) {
						for o := range w.dst {
							if objs[o] && reaches(in, w.in, m.origins(f, o)...) {
								c.count("writes after publication", 1)
								c.barrier(m, f, in, v, w, o)
							}
						}
					}
				}
			}
		}
	}
}

// barrier: a write after publication is only allowed behind a barrier that
// readers wait for.
func (c *Check) barrier(m *memory, f *ssa.Function, pub ssa.Instruction, v ssa.Value, w mwrite, o *mobj) {
	L := c.L
	where, fn := L.at(w.in), shortName(f)
	name := o.name
	// operations of barriers in this function
	var acquire, release []*ssa.Call
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.Call)
			if !ok || x.Call.StaticCallee() == nil {
				if _, ok := in.(*ssa.Defer); ok {
					d := in.(*ssa.Defer)
					if g := d.Call.StaticCallee(); g != nil && strings.HasPrefix(g.String(), "(*sync.") {
						return // released at the end
					}
				}
				if _, ok := in.(*ssa.Send); ok {
					return
				}
				if b, ok := in.(*ssa.Call); ok {
					if bi, ok := b.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						return
					}
				}
				continue
			}
			switch x.Call.StaticCallee().String() {
			case "(*sync.WaitGroup).Add", "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
				if x.Call.StaticCallee().Name() == "Add" {
					if k, ok := x.Call.Args[1].(*ssa.Const); ok && k.Int64() < 0 {
						release = append(release, x)
						continue
					}
				}
				acquire = append(acquire, x)
			case "(*sync.WaitGroup).Done", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
				release = append(release, x)
			}
		}
	}
	if len(acquire) == 0 && len(release) == 0 {
		// a helper may do it
		if m.syncInCallees(f) {
			c.undecided("%s %s: whether the write of %s after its publication is behind a barrier", where, fn, name)
			return
		}
		c.violate(where, fn, name+" is written after it was made visible to other calls at "+L.at(pub), "")
		return
	}
	ok := false
	for _, a := range acquire {
		ok = ok || before(a.Block(), instrIndex(a), pub)
	}
	if !ok && len(acquire) > 0 {
		c.violate(L.at(pub), fn, name+" is made visible to other calls before the barrier that protects it is set", "")
		return
	}
	late := false
	for _, r := range release {
		late = late || reaches(w.in, r)
		if before(r.Block(), instrIndex(r), w.in) && reaches(pub, r) {
			c.violate(where, fn, name+" is written after the barrier that protects it was released at "+L.at(r), "")
			return
		}
	}
	if !late && !m.syncInCallees(f) {
		c.violate(where, fn, "the barrier that protects "+name+" is never released", "")
		return
	}
	// readers
	n := 0
	for _, g := range m.fns {
		if g == f {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				fv, ok := u.X.(*ssa.FreeVar)
				if !ok || !m.bindsTo(g, fv, o) {
					continue
				}
				n++
				waited := false
				for _, b2 := range g.Blocks {
					for j, y := range b2.Instrs {
						if isWait(y) && before(b2, j, in) {
							waited = true
						}
						if y2, ok := y.(*ssa.Call); ok && y2.Call.StaticCallee() != nil && m.e.pkgs[y2.Call.StaticCallee().Package()] && m.hasWait(y2.Call.StaticCallee()) && before(b2, j, in) {
							waited = true
						}
					}
				}
				if !waited {
					c.violate(L.at(in), shortName(g), name+" is read without waiting for the call that is still making it", "")
				}
			}
		}
	}
	c.count("reads behind a barrier", n)
}

func isWait(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		switch g.String() {
		case "(*sync.WaitGroup).Wait", "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Once).Do", "(*sync.Cond).Wait":
			return true
		}
	case *ssa.UnOp:
		return x.Op == token.ARROW
	}
	return false
}

func (m *memory) hasWait(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if isWait(in) {
				return true
			}
		}
	}
	return false
}

// bindsTo: is a captured variable this object?
func (m *memory) bindsTo(g *ssa.Function, fv *ssa.FreeVar, o *mobj) bool {
	for _, f := range m.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok || mc.Fn != ssa.Value(g) {
					continue
				}
				for i, bv := range mc.Bindings {
					if g.FreeVars[i] == fv && m.get(bv)[o] {
						return true
					}
				}
			}
		}
	}
	return false
}

func (m *memory) syncInCallees(f *ssa.Function) bool {
	for _, g := range refs(f) {
		if g.Blocks == nil || !m.e.pkgs[g.Package()] {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(ssa.CallInstruction); ok {
					if h := x.Common().StaticCallee(); h != nil && strings.HasPrefix(h.String(), "(*sync.") && !strings.HasPrefix(h.String(), "(*sync.Map)") && !strings.HasPrefix(h.String(), "(*sync.Pool)") {
						return true
					}
				}
			}
		}
	}
	return false
}
