package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// C17: memory is read with the layout the runtime uses.

const memoryRule = "(1) Every read through the address of a value, in an encoder or a test for emptiness, is compared with the layout of the kind the value has on that path: it must lie within the value, have the width of the number, and take a pointer only where there is one. (2) The function that tells which types are stored in the word of an interface is run for an unknown type and compared with the rule of the runtime: pointers, maps, channels, functions and unsafe pointers, structs and arrays with one such element, nothing else; its users are checked by the rules of the encoders. (3) Functions of the runtime that are linked to must have the parameters they are declared with, and structs passed to them the size and the pointers of the runtime's own (read from the source of the Go distribution). (4) A number made from a pointer may become a pointer again only in the function and the loop iteration in which it was made, with no call in between; memory of one type that is read as another must be as large and have its pointers at the same places."

func init() { checks["C17"] = checkC17 }

type memoryCheck struct {
	c    *Check
	L    *Lab
	msgs map[string]bool
}

func (k *memoryCheck) violate(where string, f *ssa.Function, path, format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	if !k.msgs[where+m] {
		k.msgs[where+m] = true
		k.c.violate(where, shortName(f), m, path)
	}
}

func (k *memoryCheck) undecided(format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	if !k.msgs[m] {
		k.msgs[m] = true
		k.c.undecided("%s", m)
	}
}

func checkC17(c *Check) {
	c.rule = memoryRule
	L := c.L
	o := L.oracle()
	c.takeOracle(o, "C17")
	for _, n := range []string{"value stored in the word of an interface", "value behind the word", "top level value"} {
		if o.hits[n] == 0 {
			c.undecided("the rule %q was not applied to any path", n)
		}
	}
	k := &memoryCheck{c: c, L: L, msgs: map[string]bool{}}
	k.reads()
	var ps []*ssa.Function
	for f := range o.inlinePred {
		ps = append(ps, f)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].String() < ps[j].String() })
	for _, f := range ps {
		k.inlined(f)
	}
	if len(ps) == 0 {
		c.undecided("no test for types that are stored in the word of an interface was found")
	}
	k.links()
	k.numbers()
	k.views()
	k.ways()
}

// ways takes what the analysis of the members says about the ways to fields.
func (k *memoryCheck) ways() {
	m := k.L.fields()
	if m.und != "" {
		k.undecided("%s", m.und)
		return
	}
	s := m.selection()
	if s.und != "" {
		k.undecided("%s", s.und)
		return
	}
	s.checkScans()
	s.reads()
	for _, f := range s.finds {
		for _, w := range []string{"is followed to", "bytes further", "starts again at the beginning", "does not follow an embedded", "through an embedded pointer that is nil", "step of the way", "way to a field starts", "was followed to the end", "not where the way", "where the way to a field"} {
			if !strings.Contains(f.msg, w) || k.msgs[f.msg] {
				continue
			}
			k.msgs[f.msg] = true
			if f.und {
				k.c.undecided("%s: %s", f.where, f.msg)
			} else {
				k.c.violate(f.where, f.fn, f.msg, f.path)
			}
		}
	}
	k.c.count("paths of an iteration over the members", len(m.membs))
}

// ---------- reads of values ----------

// scalarSize is the size of the kinds that are one number.
var scalarSize = map[int64]int64{kBool: 1, kInt: 8, kInt8: 1, kInt16: 2, kInt32: 4, kInt64: 8, kUint: 8, kUint8: 1, kUint16: 2, kUint32: 4, kUint64: 8, kUintptr: 8,
	kFloat32: 4, kFloat64: 8, kComplex64: 8, kComplex128: 16}

// wordsOf lists the words of the other kinds: true for pointers.
var wordsOf = map[int64][]bool{kChan: {true}, kFunc: {true}, kMap: {true}, kPtr: {true}, kUnsafePointer: {true},
	kInterface: {true, true}, kString: {true, false}, kSlice: {true, false, false}}

// readFault says what is wrong with a read of a value of a kind.
func readFault(kind, off int64, leaf string) string {
	size := int64(0)
	fmt.Sscanf(strings.TrimPrefix(leaf, "ld"), "%d", &size)
	if leaf == "ldb" {
		size = 1
	}
	ptr := strings.HasSuffix(leaf, "p")
	if n, ok := scalarSize[kind]; ok {
		switch {
		case ptr:
			return "a pointer is read"
		case off < 0 || off+size > n:
			return fmt.Sprintf("%d bytes are read at offset %d", size, off)
		case off == 0 && size < n && kind != kComplex64 && kind != kComplex128:
			return fmt.Sprintf("%d of its %d bytes are read", size, n)
		}
		return ""
	}
	ws, ok := wordsOf[kind]
	if !ok {
		return ""
	}
	switch {
	case off < 0 || off+size > 8*int64(len(ws)):
		return fmt.Sprintf("%d bytes are read at offset %d", size, off)
	case ptr && (off%8 != 0 || !ws[off/8]):
		return fmt.Sprintf("the number at offset %d is taken for a pointer", off)
	case size < 8:
		return fmt.Sprintf("%d of the 8 bytes at offset %d are read", size, off-off%8)
	}
	return ""
}

func isLoad(t *Term) bool {
	return t.op == OApp && strings.HasPrefix(t.s, "ld") && len(t.a) == 2 && len(t.s) > 2 && (t.s == "ldb" || t.s[2] >= '0' && t.s[2] <= '9')
}

// reads compares the reads of values with the layout of their kinds.
func (k *memoryCheck) reads() {
	L := k.L
	L.runAll()
	n, iters := 0, 0
	for _, x := range L.order {
		p := x.argT["p"]
		if p == nil || !x.ok() {
			continue
		}
		for _, u := range x.uses {
			if u.root == nil || u.root.fn == nil || u.root.fn == L.r.cached || L.r.structB[u.root.fn] {
				continue
			}
			ti := typeParam(u.root.fn)
			if ti < 0 || ti >= len(u.root.args) {
				continue
			}
			T := u.b.st.res(u.root.args[ti])
			k.c.use(x)
			sb := newSubst(u.vals)
			for _, out := range x.outs {
				st := out.st.clone()
				renameState(st, sb, nil)
				if !addFacts(st, u.b.st, newSubst(nil)) {
					continue
				}
				ts := factTerms(st)
				ts = append(ts, out.ret...)
				log, _ := tail(L.e, out)
				for _, q := range log {
					ts = append(ts, sb.do(q))
				}
				seen := map[*Term]bool{}
				walkTerms(ts, func(t *Term) {
					if t.op == OApp && t.s == "maplen" && !seen[t] {
						seen[t] = true
						if b, _ := ptrParts(st.res(t.a[0])); st.res(b) == p {
							k.violate(k.L.where(x.fn), x.fn, pathOf(st), "the address of the value is taken for a map")
						}
					}
					if !isLoad(t) || seen[t] {
						return
					}
					seen[t] = true
					b, off := ptrParts(st.res(t.a[0]))
					if st.res(b) != p {
						return
					}
					at, ok := st.constOf(addT(off, t.a[1]))
					if !ok {
						return
					}
					n++
					k.read(x, st, T, at, t.s)
				})
			}
			for _, ev := range x.events {
				if ev.kind != "mapiterinit" || len(ev.args) < 2 {
					continue
				}
				st := ev.st.clone()
				renameState(st, sb, nil)
				if !addFacts(st, u.b.st, newSubst(nil)) {
					continue
				}
				iters++
				m := st.res(sb.do(st.res(ev.args[1])))
				w := st.res(sb.do(st.res(ev.args[0])))
				if b, _ := ptrParts(m); b == p {
					k.violate(trimRepo(L.e.pos(ev.in)), ev.in.Parent(), pathOf(ev.st), "the address of the value is taken for a map")
				}
				if !isLoad(m) || st.res(m.a[0]) != p {
					continue
				}
				want := mkApp("word", nil, T)
				if !(w.op == OApp && w.s == "word" && len(w.a) == 1 && st.res(w.a[0]) == T) && w != want {
					if w.op == OApp && w.s == "word" && len(w.a) == 1 {
						k.violate(trimRepo(L.e.pos(ev.in)), ev.in.Parent(), pathOf(ev.st), "the iterator of a map is given the type %s, not the type of the map", w.a[0].str(3))
					} else {
						k.undecided("%s: the type that is given to the iterator of a map: %s", trimRepo(L.e.pos(ev.in)), w.str(3))
					}
				}
			}
		}
	}
	k.c.count("reads of values", n)
	k.c.count("iterators of maps", iters)
	if n == 0 {
		k.undecided("no reads of values were found")
	}
}

func (k *memoryCheck) read(x *Enc, st *State, T *Term, off int64, leaf string) {
	if T.op == OTypeC {
		t := T.x.(types.Type)
		size := k.L.e.sizes.Sizeof(t)
		for _, l := range k.L.e.leaves(t) {
			if l.off == off {
				if (l.kind == "ld8p") != (leaf == "ld8p") && leaf == "ld8p" {
					k.violate(k.L.where(x.fn), x.fn, pathOf(st), "a value of type %s is read with another layout: the number at offset %d is taken for a pointer", shortType(t), off)
				}
				return
			}
		}
		if off < 0 || off >= size {
			k.violate(k.L.where(x.fn), x.fn, pathOf(st), "a value of type %s is read at offset %d, which is outside of it", shortType(t), off)
		}
		return
	}
	ks := st.rng(rtKind(T)).and(between(1, 26))
	bad, good := int64(0), false
	why := ""
	for kd := int64(1); kd <= 26; kd++ {
		if !ks.has(kd) {
			continue
		}
		if w := readFault(kd, off, leaf); w != "" {
			if bad == 0 {
				bad, why = kd, w
			}
		} else {
			good = true
		}
	}
	if bad == 0 {
		return
	}
	if good {
		// are the kinds known exactly?
		for _, a := range factTerms(st) {
			if a.op == OApp && strings.HasPrefix(a.s, "built:") && containsTerm(a, T) || a.op == OEq && containsTerm(a, T) {
				return
			}
		}
		if ks.eq(between(1, 26)) || ks.eq(between(0, 26)) {
			return
		}
	}
	k.violate(k.L.where(x.fn), x.fn, pathOf(st), "a value of kind %s is read with another layout: %s", kindNames[bad], why)
}

// ---------- the word of an interface ----------

// inlined compares the function that tells which types are stored in the word
// of an interface with the rule.
func (k *memoryCheck) inlined(f *ssa.Function) {
	L := k.L
	x := L.function(f, nil, false)
	k.c.use(x)
	for _, p := range x.probs {
		k.undecided("%s", p)
	}
	ti := typeParam(f)
	if ti < 0 || len(f.Params) != 1 {
		k.undecided("%s: parameters of the test for values stored in the word of an interface", L.where(f))
		return
	}
	T := x.args[ti]
	n := 0
	word := setOf(kPtr, kMap, kChan, kFunc, kUnsafePointer)
	bad := func(st *State, what string, kd int64, inside bool) {
		if inside {
			k.violate(L.where(f), f, pathOf(st), "%s are stored in the word of an interface and taken for ones that are not", what)
		} else {
			k.violate(L.where(f), f, pathOf(st), "%s are not stored in the word of an interface and taken for ones that are", what)
		}
	}
	for _, o := range x.outs {
		if len(o.ret) != 1 {
			continue
		}
		for kd := int64(1); kd <= 26; kd++ {
			st := o.st.clone()
			if !st.assumeIn(rtKind(T), single(kd)) {
				continue
			}
			n++
			r := st.res(o.ret[0])
			d := st.decide(r)
			name := kindNames[kd] + " values"
			switch {
			case word.has(kd):
				if d == 0 {
					bad(o.st, name, kd, true)
				} else if d != 1 {
					k.undecided("%s: %s depends on %s for %s", L.where(f), shortName(f), r.str(3), name)
				}
			case kd == kStruct || kd == kArray:
				cnt, child := mkApp("rt.NumField", tInt, T), (*Term)(nil)
				if kd == kArray {
					cnt = mkApp("rt.Len", tInt, T)
				}
				isChild := func(t *Term) bool {
					if kd == kArray {
						return t == L.rt("rt.Elem", T)
					}
					return t.op == OApp && len(t.a) == 1 && t.s == "fld2" && t.a[0].op == OApp && t.a[0].s == "rt.Field" && st.res(t.a[0].a[0]) == T
				}
				walkTerms(append(factTerms(st), r), func(t *Term) {
					if t.op == OApp && strings.HasPrefix(t.s, "built:") && len(t.a) == 1 && isChild(st.res(t.a[0])) {
						child = t
					}
				})
				one, other := st.clone(), st.clone()
				if other.assumeIn(cnt, setOf(0, 2, 3)) && other.decide(r) != 0 {
					if other.decide(r) == 1 || child != nil && r == child {
						bad(o.st, name+" with no or several elements", kd, false)
					} else {
						k.undecided("%s: %s for %s", L.where(f), shortName(f), name)
					}
				}
				if !one.assumeIn(cnt, single(1)) {
					continue
				}
				switch {
				case child == nil && one.decide(r) == 0:
					bad(o.st, name+" with a single element that is stored so", kd, true)
				case child == nil && one.decide(r) == 1:
					bad(o.st, name+" with a single element that is not stored so", kd, false)
				case child == nil:
					k.undecided("%s: %s for %s", L.where(f), shortName(f), name)
				default:
					for _, v := range []bool{true, false} {
						s2 := one.clone()
						if !s2.assume(child, v) {
							continue
						}
						switch d := s2.decide(r); {
						case d == 1 && !v:
							bad(o.st, name+" with a single element that is not stored so", kd, false)
						case d == 0 && v:
							bad(o.st, name+" with a single element that is stored so", kd, true)
						case d < 0:
							k.undecided("%s: %s for %s", L.where(f), shortName(f), name)
						}
					}
				}
			default:
				if d == 1 {
					bad(o.st, name, kd, false)
				} else if d != 0 {
					k.undecided("%s: %s depends on %s for %s", L.where(f), shortName(f), r.str(3), name)
				}
			}
		}
	}
	k.c.count("kinds compared with the rule of interface words", n)
}

// ---------- functions of the runtime ----------

func (k *memoryCheck) pkg(path string) *types.Package {
	seen := map[*packages.Package]bool{}
	var found *types.Package
	var walk func(p *packages.Package)
	walk = func(p *packages.Package) {
		if seen[p] || found != nil {
			return
		}
		seen[p] = true
		if p.PkgPath == path {
			found = p.Types
			return
		}
		for _, q := range p.Imports {
			walk(q)
		}
	}
	for _, p := range k.L.e.repo.all {
		walk(p)
	}
	return found
}

func (k *memoryCheck) links() {
	e := k.L.e
	var ns []string
	for n := range e.repo.linkname {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		local, _ := e.main.Pkg.Scope().Lookup(n[strings.LastIndex(n, ".")+1:]).(*types.Func)
		if local == nil || !strings.HasPrefix(n, e.main.Pkg.Path()+".") {
			continue
		}
		lf := e.prog.FuncValue(local)
		if lf == nil || len(lf.Blocks) > 0 {
			continue
		}
		k.c.count("functions linked to", 1)
		sym := e.repo.linkname[n]
		i := strings.LastIndex(sym, ".")
		p := k.pkg(sym[:i])
		where := k.L.where(lf)
		var remote *types.Func
		if p != nil {
			remote, _ = p.Scope().Lookup(sym[i+1:]).(*types.Func)
		}
		if remote == nil {
			k.undecided("%s: the function %s was not found in the Go distribution", where, sym)
			continue
		}
		ls, rs := local.Type().(*types.Signature), remote.Type().(*types.Signature)
		if ls.Params().Len() != rs.Params().Len() || ls.Results().Len() != rs.Results().Len() || ls.Recv() != nil || rs.Recv() != nil {
			k.violate(where, lf, "", "%s is declared with %d parameters and %d results; it has %d and %d", sym, ls.Params().Len(), ls.Results().Len(), rs.Params().Len(), rs.Results().Len())
			continue
		}
		tuple := func(a, b *types.Tuple, what string) {
			for j := 0; j < a.Len(); j++ {
				at, bt := a.At(j).Type(), b.At(j).Type()
				if !sameLeaves(e.leaves(at), e.leaves(bt)) {
					k.violate(where, lf, "", "%s %d of %s is declared as %s; it is %s", what, j+1, sym, shortType(at), shortType(bt))
				}
			}
		}
		tuple(ls.Params(), rs.Params(), "parameter")
		tuple(ls.Results(), rs.Results(), "result")
		for j := 0; j < ls.Params().Len(); j++ {
			k.iterator(where, lf, sym, j, ls.Params().At(j).Type(), rs.Params().At(j).Type())
		}
	}
}

func sameLeaves(a, b []leaf) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].off != b[i].off || a[i].kind != b[i].kind {
			return false
		}
	}
	return true
}

// iterator compares a struct that is passed to the runtime by its address.
func (k *memoryCheck) iterator(where string, lf *ssa.Function, sym string, j int, lt, rt types.Type) {
	e := k.L.e
	rp, ok := rt.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	rstruct, ok := rp.Elem().Underlying().(*types.Struct)
	if !ok {
		return
	}
	named, _ := rp.Elem().(*types.Named)
	if named == nil || named.Obj().Name() == "Type" || strings.HasSuffix(named.Obj().Name(), "type") || named.Obj().Name() == "hmap" || named.Obj().Name() == "rtype" {
		return // types and maps are the runtime's own
	}
	check := func(t types.Type, pos string) {
		k.c.count("structs passed to the runtime", 1)
		if e.sizes.Sizeof(t) < e.sizes.Sizeof(rstruct) {
			k.violate(where, lf, "", "%s is passed a %s of %d bytes at %s; it uses %d bytes", sym, shortType(t), e.sizes.Sizeof(t), pos, e.sizes.Sizeof(rstruct))
			return
		}
		mine := map[int64]bool{}
		for _, l := range e.leaves(t) {
			mine[l.off] = l.kind == "ld8p"
		}
		size := e.sizes.Sizeof(rstruct)
		theirs := map[int64]bool{}
		for _, l := range e.leaves(rstruct) {
			theirs[l.off] = l.kind == "ld8p"
			if l.kind == "ld8p" && !mine[l.off] {
				k.violate(where, lf, "", "%s keeps a pointer at offset %d of its %s, where %s at %s has none: the garbage collector does not see it", sym, l.off, named.Obj().Name(), shortType(t), pos)
				return
			}
		}
		for off, p := range mine {
			if p && off < size && !theirs[off] {
				k.violate(where, lf, "", "%s keeps a number at offset %d of its %s, where %s at %s has a pointer", sym, off, named.Obj().Name(), shortType(t), pos)
				return
			}
		}
	}
	if lp, ok := lt.Underlying().(*types.Pointer); ok {
		if _, ok := lp.Elem().Underlying().(*types.Struct); ok {
			check(lp.Elem(), where)
			return
		}
	}
	for _, f := range e.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() != lf || j >= len(call.Common().Args) {
					continue
				}
				v := call.Common().Args[j]
				pos := trimRepo(e.pos(in))
				if cv, ok := v.(*ssa.Convert); ok {
					if p, ok := cv.X.Type().Underlying().(*types.Pointer); ok {
						check(p.Elem(), pos)
						continue
					}
				}
				k.undecided("%s: what is passed to %s", pos, sym)
			}
		}
	}
}

// ---------- pointers kept as numbers ----------

func isUintptr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uintptr
}

func isUnsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// numbers follows the numbers that are made pointers.
func (k *memoryCheck) numbers() {
	e := k.L.e
	n := 0
	for _, f := range e.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Convert)
				if !ok || !isUnsafePtr(c.Type()) || !isUintptr(c.X.Type()) {
					continue
				}
				n++
				k.origin(f, c)
			}
		}
	}
	k.c.count("numbers made pointers", n)
}

// origin looks for the pointer a number was made from.
func (k *memoryCheck) origin(f *ssa.Function, c *ssa.Convert) {
	e := k.L.e
	where := trimRepo(e.pos(c))
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, hop string, d int)
	kept := func(via string, v ssa.Value) {
		// A number that lives no longer than the call, made from a pointer the
		// caller holds: the value is still there, and it can only have moved
		// when it is a variable on the stack.
		if short := via == "a variable" || strings.HasPrefix(via, "a variable ") || strings.HasPrefix(via, "the parameter ") || strings.HasPrefix(via, "the result "); short && !ofLocal(v, 0) {
			k.undecided("%s: a pointer is made from a number that was kept in %s", where, via)
			return
		}
		k.violate(where, f, "", "a pointer is made from a number that was kept in %s: the garbage collector did not see it as a pointer, and the value may be gone or have moved", via)
	}
	walk = func(v ssa.Value, hop string, d int) {
		if v == nil || seen[v] || d > 30 {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.BinOp:
			walk(v.X, hop, d+1)
			walk(v.Y, hop, d+1)
		case *ssa.ChangeType:
			walk(v.X, hop, d+1)
		case *ssa.UnOp:
			if v.Op != token.MUL {
				walk(v.X, hop, d+1)
				return
			}
			// a variable
			for _, s := range k.storesTo(v.X) {
				walk(s, describeAddr(v.X), d+1)
			}
		case *ssa.Convert:
			if isUnsafePtr(v.X.Type()) {
				if hop != "" {
					kept(hop, v)
					return
				}
				if v.Block() != c.Block() {
					kept("a variable", v)
					return
				}
				between := false
				for _, in := range v.Block().Instrs {
					if in == ssa.Instruction(v) {
						between = true
					} else if in == ssa.Instruction(c) {
						return
					}
					if !between {
						continue
					}
					switch in := in.(type) {
					case *ssa.Call:
						if _, ok := in.Call.Value.(*ssa.Builtin); !ok && !k.sameStmt(f, v, c) {
							kept("a variable during a call", v)
							return
						}
					case *ssa.Send, *ssa.Select, *ssa.Defer, *ssa.Go:
						kept("a variable", v)
						return
					}
				}
				return
			}
			if b, ok := v.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				walk(v.X, hop, d+1)
			}
		case *ssa.Phi:
			h := hop
			if h == "" {
				h = "a variable"
			}
			for _, a := range v.Edges {
				walk(a, h, d+1)
			}
		case *ssa.Parameter:
			fn := v.Parent()
			idx := -1
			for i, p := range fn.Params {
				if p == v {
					idx = i
				}
			}
			for _, g := range e.allFuncs() {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == fn && idx < len(call.Common().Args) {
							walk(call.Common().Args[idx], "the parameter "+v.Name(), d+1)
						}
					}
				}
			}
		case *ssa.FreeVar:
			for _, b := range bindingsOf(e, v) {
				walk(b, "the variable "+v.Name()+" of a closure", d+1)
			}
		case *ssa.Field:
			for _, s := range k.fieldStores(v.X.Type(), v.Field) {
				walk(s, "the field "+fieldName(v.X.Type(), v.Field), d+1)
			}
		case *ssa.Extract:
			walk(v.Tuple, hop, d+1)
		case *ssa.TypeAssert:
			walk(v.X, "an interface", d+1)
		case *ssa.MakeInterface:
			walk(v.X, hop, d+1)
		case *ssa.Call:
			g := v.Call.StaticCallee()
			if g == nil {
				if v.Call.Method != nil && (v.Call.Method.Name() == "Pointer" || v.Call.Method.Name() == "UnsafeAddr") && hop != "" {
					kept(hop, v)
				}
				return
			}
			if s := g.String(); s == "(reflect.Value).Pointer" || s == "(reflect.Value).UnsafeAddr" {
				if hop != "" {
					kept(hop, v)
				}
				return
			}
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, a := range r.Results {
						walk(a, "the result of "+shortName(g), d+1)
					}
				}
			}
		}
	}
	walk(c.X, "", 0)
}

// ofLocal: the number is made from the address of a variable of the function.
func ofLocal(v ssa.Value, d int) bool {
	if v == nil || d > 12 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Convert:
		return ofLocal(v.X, d+1)
	case *ssa.ChangeType:
		return ofLocal(v.X, d+1)
	case *ssa.FieldAddr:
		return ofLocal(v.X, d+1)
	case *ssa.IndexAddr:
		return ofLocal(v.X, d+1)
	case *ssa.Alloc:
		return true
	}
	return false
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}

func describeAddr(a ssa.Value) string {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		return "the field " + fieldName(a.X.Type(), a.Field)
	case *ssa.Global:
		return "the variable " + a.Name()
	case *ssa.IndexAddr:
		return "an element of a list"
	case *ssa.FreeVar:
		return "the variable " + a.Name() + " of a closure"
	}
	return "a variable"
}

// storesTo lists what is stored in a variable, as far as it can be told apart.
func (k *memoryCheck) storesTo(a ssa.Value) []ssa.Value {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		return k.fieldStores(a.X.Type(), a.Field)
	case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		var r []ssa.Value
		roots := map[ssa.Value]bool{a: true}
		if fv, ok := a.(*ssa.FreeVar); ok {
			for _, b := range bindingsOf(k.L.e, fv) {
				roots[b] = true
			}
		}
		for _, f := range k.L.e.allFuncs() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					at := s.Addr
					if fv, ok := at.(*ssa.FreeVar); ok && !roots[at] {
						for _, b := range bindingsOf(k.L.e, fv) {
							if roots[b] {
								at = b
							}
						}
					}
					if roots[at] {
						r = append(r, s.Val)
					}
				}
			}
		}
		return r
	case *ssa.IndexAddr:
		var r []ssa.Value
		for _, f := range k.L.e.allFuncs() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if ia, ok := s.Addr.(*ssa.IndexAddr); ok && ia.X.Type().String() == a.X.Type().String() {
							r = append(r, s.Val)
						}
					}
				}
			}
		}
		return r
	}
	return nil
}

// fieldStores lists what is stored in a field of a struct type.
func (k *memoryCheck) fieldStores(t types.Type, field int) []ssa.Value {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	var r []ssa.Value
	for _, f := range k.L.e.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != field {
					continue
				}
				u := fa.X.Type()
				if p, ok := u.Underlying().(*types.Pointer); ok {
					u = p.Elem()
				}
				if types.Identical(u, t) {
					r = append(r, s.Val)
				}
			}
		}
	}
	return r
}

// bindingsOf lists what closures bind to a captured variable.
func bindingsOf(e *Engine, fv *ssa.FreeVar) []ssa.Value {
	idx := -1
	for i, v := range fv.Parent().FreeVars {
		if v == fv {
			idx = i
		}
	}
	var r []ssa.Value
	for _, f := range e.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(fv.Parent()) && idx >= 0 && idx < len(m.Bindings) {
					r = append(r, m.Bindings[idx])
				}
			}
		}
	}
	return r
}

// sameStmt: are two conversions in the same statement of the source?
func (k *memoryCheck) sameStmt(f *ssa.Function, a, b ssa.Instruction) bool {
	root := f.Syntax()
	if root == nil {
		return false
	}
	stmt := func(p token.Pos) ast.Node {
		var best ast.Node
		ast.Inspect(root, func(n ast.Node) bool {
			if n == nil || p < n.Pos() || p >= n.End() {
				return false
			}
			if s, ok := n.(ast.Stmt); ok {
				if _, blk := s.(*ast.BlockStmt); !blk {
					best = s
				}
			}
			return true
		})
		return best
	}
	s := stmt(a.Pos())
	return s != nil && s == stmt(b.Pos())
}

// ---------- memory read as another type ----------

// views compares the types under which a piece of memory is used.
func (k *memoryCheck) views() {
	e := k.L.e
	n := 0
	for _, f := range e.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Convert)
				if !ok || !isUnsafePtr(c.Type()) {
					continue
				}
				p, ok := c.X.Type().Underlying().(*types.Pointer)
				if !ok || !wholeObject(c.X) {
					continue
				}
				for _, ref := range *c.Referrers() {
					d, ok := ref.(*ssa.Convert)
					if !ok {
						continue
					}
					q, ok := d.Type().Underlying().(*types.Pointer)
					if !ok {
						continue
					}
					n++
					k.view(f, d, p.Elem(), q.Elem())
				}
			}
		}
	}
	k.c.count("pieces of memory used as another type", n)
}

func wholeObject(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.Global:
		return true
	case *ssa.FieldAddr:
		return wholeObject(v.X)
	}
	return false
}

func (k *memoryCheck) view(f *ssa.Function, d *ssa.Convert, from, to types.Type) {
	e := k.L.e
	where := trimRepo(e.pos(d))
	if d.Pos() == token.NoPos {
		where = k.L.where(f)
	}
	size := e.sizes.Sizeof(from)
	have := map[int64]string{}
	for _, l := range e.leaves(from) {
		have[l.off] = l.kind
	}
	part := func(t types.Type, off int64, write bool) {
		for _, l := range e.leaves(t) {
			at := off + l.off
			n := int64(8)
			fmt.Sscanf(strings.TrimPrefix(l.kind, "ld"), "%d", &n)
			if at+n > size && !(l.kind == "ldb" && at < size) {
				k.violate(where, f, "", "a %s of %d bytes is used as a %s, which reaches beyond it", shortType(from), size, shortType(to))
				return
			}
			h, ok := have[at]
			if l.kind == "ld8p" && h != "ld8p" && !write {
				k.violate(where, f, "", "a %s is used as a %s, which has a pointer at offset %d where the %s has none: the garbage collector does not see it", shortType(from), shortType(to), at, shortType(from))
				return
			}
			if write && ok && h == "ld8p" && l.kind != "ld8p" {
				k.violate(where, f, "", "a number is written at offset %d of a %s, where it has a pointer", at, shortType(from))
				return
			}
		}
	}
	var uses func(v ssa.Value, t types.Type, off int64, d int)
	uses = func(v ssa.Value, t types.Type, off int64, d int) {
		if v.Referrers() == nil || d > 6 {
			return
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp:
				if r.Op == token.MUL {
					part(t, off, false)
				}
			case *ssa.Store:
				if r.Addr == v && !carriesPointer(r.Val) {
					part(t, off, true)
				}
			case *ssa.FieldAddr:
				s, ok := t.Underlying().(*types.Struct)
				if !ok {
					continue
				}
				var fs []*types.Var
				for i := 0; i < s.NumFields(); i++ {
					fs = append(fs, s.Field(i))
				}
				uses(r, s.Field(r.Field).Type(), off+e.sizes.Offsetsof(fs)[r.Field], d+1)
			case *ssa.Return, *ssa.Call, *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeType:
				part(t, off, false)
			}
		}
	}
	uses(d, to, 0, 0)
}

// carriesPointer: writing the number of a pointer in the header of a slice or a
// string is one of the uses the package unsafe allows.
func carriesPointer(v ssa.Value) bool {
	c, ok := v.(*ssa.Convert)
	return ok && isUnsafePtr(c.X.Type())
}
