package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: the functions that make encoders, lists of fields and tests for
// emptiness are run for an unknown type with a record of what each path does.
// What a path finds in a cache must be what another path, for arguments with
// the same key, has put there; and the recursion through the parts of a type
// must be cut at an entry made before it.

// cacheUse is one path that uses a cache.
type cacheUse struct {
	x      *Enc
	o      Outcome
	cache  string
	key    *Term
	hit    bool
	vals   []storedVal
	result *Term // what the path returns
	in     ssa.Instruction
}

type storedVal struct {
	v  *Term
	in ssa.Instruction
}

type caches struct {
	c     *Check
	L     *Lab
	runs  []*Enc
	uses  []*cacheUse
	seen  map[ssa.Instruction]bool
	locs  map[*ssa.Function]map[string]bool // locks taken by a function
	inv   *types.Named
	msgs  map[string]bool
	hands map[*ssa.Function]bool
}

func (k *caches) violate(where string, f *ssa.Function, path, format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	if !k.msgs[m] {
		k.msgs[m] = true
		k.c.violate(where, shortName(f), m, path)
	}
}

func (k *caches) undecided(format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	if !k.msgs[m] {
		k.msgs[m] = true
		k.c.undecided("%s", m)
	}
}

func steps(st *State) []*step {
	var r []*step
	for s := st.hist; s != nil; s = s.prev {
		r = append(r, s)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// cacheName is the variable of the package a term leads to.
func cacheName(st *State, t *Term) string {
	n := isGlobalName(st, t)
	if n != "" || t == nil {
		return n
	}
	walkTerms([]*Term{t}, func(a *Term) {
		if a.op == OObj || a.op == OPtr {
			if g := isGlobalName(st, a); g != "" {
				n = g
			}
		}
	})
	return n
}

func (k *caches) run(f *ssa.Function, policy func(*ssa.Function, []*Term, *frame) bool, coarse bool) *Enc {
	L := k.L
	e := L.e
	st := e.base.clone()
	var args []*Term
	for _, p := range f.Params {
		args = append(args, e.symArg(st, p.Name(), p.Type()))
	}
	e.trail = true
	x := L.runFn(shortName(f), f, args, nil, st, policy, coarse)
	e.trail = false
	k.runs = append(k.runs, x)
	return x
}

// deep replaces what a term refers to in memory by its content.
func (k *caches) deep(st *State, t *Term, d int) *Term {
	t = st.res(t)
	if t == nil || d == 0 {
		return t
	}
	switch t.op {
	case OSym, OIn, OEq, ONot, OApp:
		if t.op != OSym || termIsBool(t) {
			if v := st.decide(t); v == 1 {
				return tTrue
			} else if v == 0 {
				return tFalse
			}
		}
	}
	sub := func(ts []*Term) []*Term {
		var r []*Term
		for _, a := range ts {
			r = append(r, k.deep(st, a, d-1))
		}
		return r
	}
	switch t.op {
	case OClos:
		return mkApp("closure:"+t.x.(*ssa.Function).String(), tInt, sub(t.a)...)
	case OMkI:
		return mkApp("any:"+typeKey(t.x.(types.Type)), tInt, sub(t.a)...)
	case OObj, OPtr:
		b, off := ptrParts(t)
		o := st.obj(b)
		if o == nil || o.prov == "global" {
			break
		}
		ts := []*Term{strC(o.kind2()), off}
		switch o.kind {
		case KCells:
			var offs []int64
			for c := range o.cells {
				offs = append(offs, c)
			}
			sort.Slice(offs, func(i, j int) bool { return offs[i] < offs[j] })
			for _, c := range offs {
				ts = append(ts, intC(c), k.deep(st, o.cells[c], d-1))
			}
		case KLog:
			ts = append(ts, sub(o.log)...)
		default:
			ts = append(ts, sub(o.ents)...)
		}
		return mkApp("memory", tInt, ts...)
	}
	if len(t.a) == 0 {
		return t
	}
	na := make([]*Term, len(t.a))
	ch := false
	for i, a := range t.a {
		na[i] = k.deep(st, a, d-1)
		ch = ch || na[i] != a
	}
	if !ch {
		return t
	}
	switch t.op {
	case OApp, OTuple, OStruct, OSlice, OStr, OIface:
		return mk(t.op, t.s, t.n, t.x, na, t.co)
	}
	return t
}

func (o *Obj) kind2() string { return fmt.Sprint(int(o.kind)) }

func termIsBool(t *Term) bool {
	switch t.op {
	case OIn, OEq, ONot, OBool:
		return true
	case OApp:
		return isBoolT2(appType(t))
	case OSym:
		ty, ok := t.x.(types.Type)
		return ok && isBoolT2(ty)
	}
	return false
}

func isBoolT2(t types.Type) bool { return t != nil && isBoolT(t) }

// collect finds what the paths of a run do with caches.
func (k *caches) collect(x *Enc) {
	for _, o := range x.outs {
		type at struct {
			cache string
			key   *Term
		}
		byKey := map[at]*cacheUse{}
		var order []*cacheUse
		get := func(s *step, c, key *Term) *cacheUse {
			name := cacheName(o.st, c)
			if name == "" {
				return nil
			}
			k.seen[s.in] = true
			a := at{name, k.deep(o.st, key, 8)}
			u := byKey[a]
			if u == nil {
				u = &cacheUse{x: x, o: o, cache: name, key: a.key, in: s.in}
				byKey[a] = u
				order = append(order, u)
			}
			return u
		}
		var pend []*step
		for _, s := range steps(o.st) {
			switch s.kind {
			case "sm-hit", "map-hit":
				if u := get(s, s.args[0], s.args[1]); u != nil {
					u.hit = true
				}
			case "sm-miss", "map-miss":
				get(s, s.args[0], s.args[1])
			case "sm-store":
				if u := get(s, s.args[0], s.args[1]); u != nil {
					u.vals = append(u.vals, storedVal{s.args[2], s.in})
				}
			case "map-update":
				if u := get(s, s.args[0], s.args[1]); u != nil {
					u.vals = append(u.vals, storedVal{s.args[2], s.in})
				} else {
					pend = append(pend, s)
				}
			case "store-opaque":
				if s.note == "map" && len(s.args) == 3 {
					if u := get(s, s.args[0], s.args[2]); u != nil {
						u.vals = append(u.vals, storedVal{s.args[1], s.in})
					}
				}
			case "atomic":
				if len(s.args) < 2 {
					continue
				}
				for _, q := range pend {
					b := baseOf(o.st.res(q.args[0]))
					if reachesObj(o.st, s.args[len(s.args)-1], b, 4) {
						if u := get(q, s.args[0], q.args[1]); u != nil {
							u.vals = append(u.vals, storedVal{q.args[2], q.in})
						}
					}
				}
			}
		}
		for _, u := range order {
			if len(o.ret) == 1 {
				u.result = o.ret[0]
			}
			k.uses = append(k.uses, u)
		}
	}
	// entries are copied as they are
	for _, ev := range x.events {
		if ev.kind != "map-update" {
			continue
		}
		key, v := ev.st.res(ev.args[1]), ev.st.res(ev.args[2])
		root := func(t *Term) *Term {
			for t.op == OApp && len(t.a) > 0 && t.s != "rangekey" && t.s != "mapget" {
				t = t.a[0]
			}
			return t
		}
		kr, vr := root(key), root(v)
		if kr.op == OApp && kr.s == "rangekey" {
			k.seen[ev.in] = true
			if ok := vr.op == OApp && vr.s == "mapget" && len(vr.a) == 2 && vr.a[0] == kr.a[0] && root(vr.a[1]) == kr; !ok {
				k.violate(trimRepo(k.L.e.pos(ev.in)), ev.in.Parent(), pathOf(ev.st), "the entries of a cache are copied with other encoders than those they had")
			}
		} else if vr.op == OApp && vr.s == "mapget" && len(vr.a) == 2 {
			k.violate(trimRepo(k.L.e.pos(ev.in)), ev.in.Parent(), pathOf(ev.st), "the entries of a cache are copied under other keys than those they had")
		}
	}
}

func reachesObj(st *State, t, b *Term, d int) bool {
	t = st.res(t)
	if t == nil || d < 0 {
		return false
	}
	if t == b || baseOf(t) == b {
		return true
	}
	if o := st.obj(baseOf(t)); o != nil && o.kind == KCells && o.prov != "global" {
		for _, c := range o.cells {
			if reachesObj(st, c, b, d-1) {
				return true
			}
		}
	}
	for _, a := range t.a {
		if reachesObj(st, a, b, d-1) {
			return true
		}
	}
	return false
}

// ownFact reports whether a fact is about the arguments only.
func ownFact(t *Term, args map[*Term]bool) bool {
	ok := true
	some := false
	walkTerms([]*Term{t}, func(a *Term) {
		switch a.op {
		case OSym:
			if !args[a] {
				ok = false
			}
			some = true
		case OObj:
			ok = false
		case OApp:
			switch {
			case a.s == "smhas", a.s == "smload", a.s == "maphas", a.s == "mapget", a.s == "maplen", a.s == "rangekey", a.s == "poolget", a.s == "dyntype", strings.HasPrefix(a.s, "atomic:"):
				ok = false
			}
		}
	})
	return ok && some
}

// copyFacts adds the facts about the arguments of a run, with the arguments
// replaced; it reports false if that is impossible.
func copyFacts(to, from *State, args []*Term, sub func(*Term) *Term) bool {
	own := map[*Term]bool{}
	for _, a := range args {
		walkTerms([]*Term{a}, func(t *Term) {
			if t.op == OSym {
				own[t] = true
			}
		})
	}
	for _, a := range sortedAtoms(from) {
		if ownFact(a, own) && !to.assume(sub(a), from.atoms[a]) {
			return false
		}
	}
	for _, a := range sortedRngs(from) {
		if ownFact(a, own) && !to.assumeIn(sub(a), from.rngs[a]) {
			return false
		}
	}
	return true
}

// unify equates two keys; it reports false if they can never be equal. What the
// arguments of the second must be is put into bind, other equations into eqs.
func unify(a, b *Term, free map[*Term]bool, bind map[*Term]*Term, eqs *[][2]*Term) bool {
	b = newSubst(bind).do(b)
	a = newSubst(bind).do(a)
	if a == b {
		return true
	}
	if free[b] {
		bind[b] = a
		return true
	}
	if (isConstTerm(a) || a.op == OBool) && (isConstTerm(b) || b.op == OBool) {
		return false
	}
	if free[a] {
		bind[a] = b
		return true
	}
	if a.op == b.op && a.s == b.s && len(a.a) == len(b.a) {
		inj := false
		switch a.op {
		case OTuple, OStruct, OIface, OMkI, OStr, OPtr:
			inj = true
		case OApp:
			inj = a.s == "word" || strings.HasPrefix(a.s, "any:") || a.s == "strptr" || a.s == "strlen" || a.s == "memory"
			if a.s == "fmt.Sprintf" {
				inj = injectiveFormat(a) && a.a[0] == b.a[0]
			}
		}
		if inj {
			for i := range a.a {
				if !unify(a.a[i], b.a[i], free, bind, eqs) {
					return false
				}
			}
			return true
		}
	}
	if a.op == OApp && b.op == OApp && (strings.HasPrefix(a.s, "any:") && strings.HasPrefix(b.s, "any:") && a.s != b.s) {
		return false // keys of different types
	}
	*eqs = append(*eqs, [2]*Term{a, b})
	return true
}

// injectiveFormat: can the arguments be read off the result of Sprintf?
func injectiveFormat(t *Term) bool {
	if len(t.a) == 0 || t.a[0].op != OStrC {
		return false
	}
	f := t.a[0].s
	n, open := 0, false
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			open = false // a separator
			c := f[i]
			if c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
				open = n > 0 && i > 0 // may be part of the text of an argument
			}
			continue
		}
		if i++; i >= len(f) {
			return false
		}
		if open {
			return false
		}
		switch f[i] {
		case 'p', 'd', 't', 'x', 'v', 'b':
			n++
			open = true
			if f[i] == 't' {
				open = false // true and false are prefixes of nothing that follows
			}
		case '%':
		default:
			return false
		}
		if n >= len(t.a) {
			return false
		}
		a := t.a[n]
		if f[i] == 'v' && !(termIsBool(stripAny(a))) {
			return false
		}
		if f[i] == 'v' {
			open = false
		}
	}
	return true
}

func stripAny(t *Term) *Term {
	for t.op == OMkI || t.op == OApp && strings.HasPrefix(t.s, "any:") {
		t = t.a[0]
	}
	return t
}

// agree compares what is put under a key with what another path would make.
func (k *caches) agree() {
	n := 0
	for _, p := range k.uses {
		if len(p.vals) == 0 {
			continue
		}
		put := p.vals[len(p.vals)-1]
		for _, q := range k.uses {
			if q.cache != p.cache || q.hit && len(q.vals) == 0 || q.result == nil {
				continue
			}
			n++
			k.pair(p, put, q)
		}
	}
	k.c.count("pairs of paths that share a cache", n)
}

func (k *caches) pair(p *cacheUse, put storedVal, q *cacheUse) {
	// the arguments of the second path
	ren := map[*Term]*Term{}
	free := map[*Term]bool{}
	names := map[*Term]string{}
	for _, a := range q.x.args {
		walkTerms([]*Term{a}, func(t *Term) {
			if t.op == OSym && ren[t] == nil {
				n := mk(OSym, t.s+"'", t.n, t.x, nil, nil)
				ren[t] = n
				free[n] = true
				names[n] = t.s
			}
		})
	}
	prime := newSubst(ren)
	bind := map[*Term]*Term{}
	var eqs [][2]*Term
	if !unify(p.key, prime.do(q.key), free, bind, &eqs) {
		return
	}
	full := func(t *Term) *Term {
		t = prime.do(t)
		for i := 0; i < 4; i++ {
			n := newSubst(bind).do(t)
			if n == t {
				break
			}
			t = n
		}
		return t
	}
	id := func(t *Term) *Term { return t }
	st := k.L.e.base.clone()
	if !copyFacts(st, p.o.st, p.x.args, id) || !copyFacts(st, q.o.st, q.x.args, full) {
		return
	}
	for _, e := range eqs {
		a, b := newSubst(bind).do(e[0]), newSubst(bind).do(e[1])
		if st.decide(st.eqTerms(a, b)) == 0 {
			return
		}
		if !st.assume(st.eqTerms(a, b), true) {
			return
		}
	}
	want := func(u *cacheUse, v *Term) *Term { return stripAny(k.deep(u.o.st, v, 12)) }
	if v := k.standsFor(p.o.st, put.v); v != nil {
		put.v = v
	}
	v := k.deep(st, want(p, put.v), 12)
	w := k.deep(st, full(want(q, q.result)), 12)
	if v == w {
		return
	}
	if os.Getenv("JSA_PAIR") != "" {
		fmt.Println("PAIR", p.key.str(8), "|", prime.do(q.key).str(8), "|", v.str(8), "|", w.str(8), p.o.st.describe(), "||", q.o.st.describe())
	}
	// what is not part of the key?
	var left []string
	unk := ""
	for i, t := range []*Term{v, w} {
		walkTerms([]*Term{t}, func(a *Term) {
			if free[a] && i == 1 {
				left = append(left, names[a])
			}
			if a.op == OObj || a.op == OSym && !free[a] && !isArg(a, p.x.args) {
				unk = a.str(3)
			}
		})
	}
	if len(left) == 0 {
		for _, t := range factTerms(q.o.st) {
			walkTerms([]*Term{full(t)}, func(a *Term) {
				if free[a] {
					left = append(left, names[a])
				}
			})
		}
	}
	where := trimRepo(k.L.e.pos(put.in))
	f := put.in.Parent()
	left = uniq(left)
	if unk != "" {
		k.undecided("%s: what is kept in the cache %s: %s", where, p.cache, unk)
		return
	}
	if len(left) == 0 && p.x == q.x && p.o.st == q.o.st {
		k.violate(where, f, pathOf(p.o.st), "the cache %s is given something else than what the call returns, %s and not %s", p.cache, brief(v), brief(w))
		return
	}
	if len(left) == 0 {
		k.violate(where, f, pathOf(p.o.st), "an entry of the cache %s is found by calls that need something else: %s and not %s", p.cache, brief(w), brief(v))
		return
	}
	k.violate(where, f, pathOf(p.o.st), "the key of the cache %s does not say what %s is, but what is kept depends on it: an entry made for one %s is used for another", p.cache, strings.Join(left, " and "), left[0])
}

func brief(t *Term) string {
	s := t.str(4)
	s = strings.ReplaceAll(s, "github.com/wI2L/", "")
	if len(s) > 90 {
		s = s[:90] + "…"
	}
	return s
}

func uniq(ss []string) []string {
	sort.Strings(ss)
	var r []string
	for i, s := range ss {
		if i == 0 || s != ss[i-1] {
			r = append(r, s)
		}
	}
	return r
}

func isArg(t *Term, args []*Term) bool {
	for _, a := range args {
		if containsTerm(a, t) {
			return true
		}
	}
	return false
}

// ---------- history ----------

// history looks for results that depend on what the process did before: two
// paths for the same arguments that differ in what they found in a counter or
// another variable that is neither an argument nor a cache.
func (k *caches) history(x *Enc) {
	var hs []*Term
	seen := map[*Term]bool{}
	for _, o := range x.outs {
		for _, t := range append(sortedAtoms(o.st), sortedRngs(o.st)...) {
			if !seen[t] && historic(t) {
				seen[t] = true
				hs = append(hs, t)
			}
		}
	}
	n := 0
	for _, h := range hs {
		k.c.count("values that depend on the past", 1)
		for i, o := range x.outs {
			for _, p := range x.outs[:i] {
				if n++; n > 3000 {
					return
				}
				k.differs(x, h, o, p)
			}
		}
	}
}

// historic reports whether a fact is about a variable that changes over time,
// apart from the entries of a cache.
func historic(t *Term) bool {
	found := false
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == OApp {
			switch {
			case strings.HasPrefix(t.s, "atomic:"):
				found = true
			case t.s == "maphas", t.s == "mapget", t.s == "maplen", t.s == "smhas", t.s == "smload", t.s == "rangekey":
				return
			}
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	if t.op == OEq && (t.a[0] == tNil || t.a[1] == tNil) {
		return false
	}
	walk(t)
	return found
}

func (k *caches) differs(x *Enc, h *Term, o, p Outcome) {
	if len(o.ret) != 1 || len(p.ret) != 1 {
		return
	}
	val := func(st *State) (Set, bool) {
		if v, ok := st.atoms[h]; ok {
			if v {
				return single(1), true
			}
			return single(0), true
		}
		v, ok := st.rngs[h]
		return v, ok
	}
	a, ok1 := val(o.st)
	b, ok2 := val(p.st)
	if !ok1 || !ok2 || !a.and(b).empty() {
		return
	}
	st := k.L.e.base.clone()
	id := func(t *Term) *Term { return t }
	if !copyFacts(st, o.st, x.args, id) || !copyFacts(st, p.st, x.args, id) {
		return
	}
	v := k.deep(st, stripAny(k.deep(o.st, o.ret[0], 12)), 12)
	w := k.deep(st, stripAny(k.deep(p.st, p.ret[0], 12)), 12)
	if v == w {
		return
	}
	if s := o.st.res(o.ret[0]); s == tNil || p.st.res(p.ret[0]) == tNil {
		return // found or not found
	}
	cached := false
	walkTerms([]*Term{v, w}, func(t *Term) {
		if t.op == OApp && (t.s == "smload" || t.s == "mapget" || strings.HasPrefix(t.s, "atomic:")) {
			cached = true
		}
	})
	if cached {
		return // taken from a cache, which the pairs are about
	}
	k.violate(trimRepo(k.L.e.pos(x.fn.Blocks[0].Instrs[0])), x.fn, pathOf(o.st), "what is made for a type depends on what the process did before, %s: it is %s or %s", brief(h), brief(v), brief(w))
}

// ---------- recursion ----------

var selfTypes = map[int64]string{22: "type T *T", 23: "type T []T", 21: "type T map[string]T"}

// recursion checks that a function that calls itself for the parts of a type
// comes to an end.
func (k *caches) recursion(x *Enc, f *ssa.Function, quoted func(st *State, args []*Term) bool) {
	e := k.L.e
	n := 0
	for _, ev := range x.events {
		if ev.kind != "build" || ev.note != f.Name() || len(ev.args) != len(x.args) || x.fn != f {
			continue
		}
		ti := typeParam(f)
		if ti < 0 {
			continue
		}
		n++
		t := x.args[ti]
		child := ev.st.res(ev.args[ti])
		where := trimRepo(e.pos(ev.in))
		grows := false
		walkTerms([]*Term{child}, func(a *Term) {
			if a.op == OApp {
				switch a.s {
				case "rt.PtrTo", "rt.PointerTo", "rt.SliceOf", "rt.MapOf", "rt.ArrayOf":
					grows = true
				}
			}
		})
		if !grows && k.guarded(ev.st) {
			continue
		}
		if n, ok := ev.st.constOf(strlenOf(mkApp("rt.Name", tString, t))); ok && n == 0 && !grows && child != t {
			continue // every cycle of types goes through a type with a name
		}
		kind := ev.st.rng(mkApp("rt.Kind", types.Typ[types.Uint], t))
		sub := map[*Term]*Term{}
		switch {
		case child == t:
		case child.op == OApp && child.s == "rt.Elem" && child.a[0] == t:
			if kind.and(between(21, 23)).empty() {
				continue
			}
			sub[child] = t
		case grows:
		case child.op == OTypeC:
			continue // one known type
		default:
			if kind.and(between(21, 23)).empty() {
				continue // the elements of arrays and the fields of structs are smaller
			}
			if child.op == OApp && child.s == "rt.Key" {
				continue // no map type is its own key
			}
			k.undecided("%s: the types %s goes on with: %s", where, shortName(f), child.str(4))
			continue
		}
		// does the path lead to itself?
		fix := func(u *Term) *Term {
			for i := 0; i < 6; i++ {
				w := newSubst(sub).do(u)
				if w == u {
					break
				}
				u = w
			}
			return u
		}
		st := e.base.clone()
		if !grows && !st.assumeIn(mkApp("rt.Kind", types.Typ[types.Uint], t), kind) {
			continue
		}
		if !copyFacts(st, ev.st, x.args, fix) {
			continue
		}
		again := map[*Term]*Term{}
		for i, a := range x.args {
			b := fix(ev.st.res(ev.args[i]))
			if a != b {
				again[a] = b
			}
		}
		next := newSubst(again)
		if !copyFacts(st, ev.st, x.args, func(u *Term) *Term { return fix(next.do(fix(u))) }) {
			continue
		}
		if quoted != nil && !quoted(st, x.args) {
			continue
		}
		ex := ""
		for _, kd := range []int64{23, 22, 21} {
			if ex == "" && kind.has(kd) {
				ex = selfTypes[kd]
			}
		}
		if grows {
			ex = "any type, with ever larger ones"
		}
		if child == t {
			ex = "any type"
		}
		k.violate(where, ev.in.Parent(), pathOf(ev.st), "%s calls itself for the parts of a type and nothing stops it at a type it is already busy with, such as %s", shortName(f), ex)
	}
	k.c.count("recursive calls for the parts of a type", n)
}

func typeParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if isReflectType(p.Type()) {
			return i
		}
	}
	return -1
}

// guarded reports whether the path has found no entry in a cache and has made one.
func (k *caches) guarded(st *State) bool {
	type at struct {
		c   string
		key *Term
	}
	miss, put := map[at]bool{}, map[at]bool{}
	for _, s := range steps(st) {
		if len(s.args) < 2 {
			continue
		}
		switch s.kind {
		case "sm-miss", "map-miss":
			miss[at{cacheName(st, s.args[0]), k.deep(st, s.args[1], 8)}] = true
		case "sm-store":
			put[at{cacheName(st, s.args[0]), k.deep(st, s.args[1], 8)}] = true
		case "map-update":
			put[at{cacheName(st, s.args[0]), k.deep(st, s.args[1], 8)}] = true
		case "store-opaque":
			if s.note == "map" && len(s.args) == 3 {
				put[at{cacheName(st, s.args[0]), k.deep(st, s.args[2], 8)}] = true
			}
		case "extern":
			if strings.HasPrefix(s.note, "(*sync.Map)") {
				delete(put, at{cacheName(st, s.args[0]), k.deep(st, s.args[1], 8)})
			}
		}
	}
	for a := range put {
		if miss[a] && a.c != "" {
			return true
		}
	}
	return false
}

// levels looks at the visit of the embedded structs, which has to leave out
// the types that it met at an outer depth.
func (k *caches) levels() {
	m := k.L.fields()
	if m.und != "" {
		k.undecided("%s", m.und)
		return
	}
	s := m.selection()
	if s.und != "" {
		k.undecided("%s", s.und)
		return
	}
	s.checkLevels()
	for _, f := range s.finds {
		for _, w := range []string{"looked at again", "visited forever", "met are forgotten"} {
			if !f.und && strings.Contains(f.msg, w) && !k.msgs[f.msg] {
				k.msgs[f.msg] = true
				k.c.violate(f.where, f.fn, f.msg+": a type that embeds a pointer to itself has no last depth", f.path)
			}
		}
	}
}

// ---------- waiting ----------

// waits follows the wait groups and the locks along the paths.
func (k *caches) waits(x *Enc) {
	e := k.L.e
	for _, o := range x.outs {
		cnt := map[*Term]int64{}
		held := map[string]bool{}
		var stored []*Term
		for _, s := range steps(o.st) {
			switch s.kind {
			case "sm-store":
				stored = append(stored, s.args[2])
			case "sync":
				g := o.st.res(s.args[0])
				switch s.note {
				case "Add":
					if d, ok := o.st.constOf(s.args[1]); ok {
						cnt[g] += d
					}
				case "Done":
					cnt[g]--
				case "Wait":
					if cnt[g] > 0 {
						k.violate(trimRepo(e.pos(s.in)), s.in.Parent(), pathOf(o.st), "the call that makes an encoder waits for itself")
					}
				case "Lock", "RLock":
					if n := cacheName(o.st, g); n != "" {
						if held[n] {
							k.violate(trimRepo(e.pos(s.in)), s.in.Parent(), pathOf(o.st), "the lock %s is taken twice", n)
						}
						held[n] = true
						k.takes(x.fn, n)
					}
				case "Unlock", "RUnlock":
					delete(held, cacheName(o.st, g))
				}
				if cnt[g] < 0 {
					k.violate(trimRepo(e.pos(s.in)), s.in.Parent(), pathOf(o.st), "the wait group is released more often than it was acquired")
				}
			}
		}
		for g, n := range cnt {
			if n <= 0 {
				continue
			}
			for _, v := range stored {
				if reachesObj(o.st, v, baseOf(g), 6) {
					k.violate(trimRepo(e.pos(x.fn.Blocks[0].Instrs[0])), x.fn, pathOf(o.st), "the encoder that stands for one under construction is never released: its callers wait forever")
				}
			}
		}
	}
}

func (k *caches) takes(f *ssa.Function, n string) {
	if k.locs[f] == nil {
		k.locs[f] = map[string]bool{}
	}
	k.locs[f][n] = true
}

// locked looks for recursive calls under a lock that the callee takes.
func (k *caches) locked() {
	all := map[string]bool{}
	for _, m := range k.locs {
		for n := range m {
			all[n] = true
		}
	}
	if len(all) == 0 {
		return
	}
	for _, x := range k.runs {
		for _, ev := range x.events {
			if ev.kind != "build" {
				continue
			}
			held := map[string]bool{}
			for _, s := range steps(ev.st) {
				if s.kind == "sync" {
					n := cacheName(ev.st, ev.st.res(s.args[0]))
					switch s.note {
					case "Lock", "RLock":
						held[n] = true
					case "Unlock", "RUnlock":
						delete(held, n)
					}
				}
			}
			callee := k.named(ev.note)
			for n := range held {
				for f := range k.reach(callee) {
					if k.locs[f][n] {
						k.violate(trimRepo(k.L.e.pos(ev.in)), ev.in.Parent(), pathOf(ev.st), "%s is called with the lock %s held and takes it again: the call never returns", shortName(callee), n)
					}
				}
			}
		}
	}
}

func (k *caches) reach(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, g := range refs(f) {
			walk(g)
		}
	}
	walk(f)
	return seen
}

// ---------- stand-ins ----------

// handsOver runs an encoder that is kept before the real one is made, with its
// variables for encoders replaced; it reports whether all it does is to hand
// the value, the buffer and the options over to the encoder in the variable.
func (k *caches) handsOver(v *Term, st0 *State) (target *Term, cells []*Obj, ok bool) {
	e := k.L.e
	f := v.x.(*ssa.Function)
	st := st0.clone()
	target = mkApp("built:standin", f.Signature)
	for _, b := range v.a {
		o := st.obj(baseOf(b))
		if o == nil || o.kind != KCells || o.typ == nil || !e.isInstrType(o.typ) {
			continue
		}
		cells = append(cells, st0.obj(baseOf(b)))
		o = st.mut(o)
		o.cells[0] = target
	}
	if len(cells) == 0 {
		return
	}
	if r, done := k.hands[f]; done {
		return target, cells, r
	}
	p := sym("p", tUP)
	st.assume(st.eqTerms(p, tNil), false)
	dst := e.symArg(st, "dst", types.NewSlice(tByteT))
	before := e.content(st, dst)
	opts := e.expand(e.encOpts, sym("opts", e.encOpts))
	x := k.L.runFn("stand-in "+shortName(f), f, []*Term{p, dst, opts}, v.a, st, k.L.r.encodeOpaque, false)
	k.c.count("encoders kept in place of another", 1)
	ok = true
	for _, pr := range x.probs {
		k.undecided("%s", pr)
	}
	for _, o := range x.outs {
		if len(o.ret) != 2 || errKind(o) != 1 {
			continue
		}
		c := e.content(o.st, o.ret[0])
		one := len(c) == len(before)+1
		if one {
			pc := c[len(c)-1]
			one = pc.s == "elem" && o.st.res(pc.a[1]) == target && o.st.res(pc.a[2]) == p && o.st.res(pc.a[3]) == o.st.res(opts)
		}
		ok = ok && one
	}
	k.hands[f] = ok
	return
}

// standsFor is the encoder a stand-in hands over to at the end of a path.
func (k *caches) standsFor(st *State, v *Term) *Term {
	v = st.res(v)
	if v.op == OMkI {
		v = st.res(v.a[0])
	}
	if v.op != OClos || !k.L.e.isInstr(v.x.(*ssa.Function).Signature) {
		return nil
	}
	_, cells, ok := k.handsOver(v, st)
	if !ok || len(cells) != 1 || cells[0].cells[0] == nil || st.res(cells[0].cells[0]) == tNil {
		return nil
	}
	return st.res(cells[0].cells[0])
}

// standIns checks the encoders that are kept while the real one is made.
func (k *caches) standIns() {
	L := k.L
	for _, u := range k.uses {
		if len(u.vals) == 0 || u.result == nil {
			continue
		}
		for i, sv := range u.vals {
			st := u.o.st
			v := st.res(sv.v)
			if v.op == OMkI {
				v = st.res(v.a[0])
			}
			if v.op != OClos || v == st.res(u.result) {
				continue
			}
			f := v.x.(*ssa.Function)
			where := trimRepo(L.e.pos(sv.in))
			if !L.e.isInstr(f.Signature) {
				continue
			}
			want := k.deep(st, u.result, 12)
			if i == len(u.vals)-1 && k.deep(st, v, 12) == want {
				continue
			}
			_, cells, ok := k.handsOver(v, st)
			for _, o := range cells {
				cur := o.cells[0]
				switch {
				case cur == nil || st.res(cur) == tNil:
					k.violate(where, sv.in.Parent(), pathOf(st), "the encoder that stands for one under construction is never given that one")
				case k.deep(st, cur, 12) != want:
					k.violate(where, sv.in.Parent(), pathOf(st), "the encoder that stands for one under construction hands over to another one: %s and not %s", brief(k.deep(st, cur, 12)), brief(want))
				}
			}
			if len(cells) == 0 {
				k.undecided("%s: how the encoder that is kept first becomes the one that is made", where)
			} else if !ok {
				k.violate(L.where(f), f, pathOf(st), "the encoder that stands for one under construction does not hand over the value, the buffer and the options")
			}
		}
	}
}

// ---------- the check ----------

const cacheRule = "The functions that make encoders, lists of fields and tests for emptiness are run for unknown arguments with a record of every use of a cache. (1) For every two paths that use one cache, of which one stores: if the keys can be equal for two sets of arguments, what is stored must be what the other path makes for its own arguments. (2) Every call of a maker for the element type of a pointer, slice or map comes after an entry for the type was found missing and made, or cannot lead to itself for a type that is its own element. (3) What is kept while an encoder is made hands over to that encoder and is released on every path; no call waits for itself or takes a lock it holds."

func init() { checks["C16"] = checkC16 }

func checkC16(c *Check) {
	L := c.L
	r := L.r
	c.rule = cacheRule
	k := &caches{c: c, L: L, seen: map[ssa.Instruction]bool{}, locs: map[*ssa.Function]map[string]bool{}, msgs: map[string]bool{}, hands: map[*ssa.Function]bool{}}
	if r.core == nil {
		c.undecided("no function that makes an encoder for a type was recognised")
		return
	}
	nested := func(f *ssa.Function, args []*Term, fr *frame) bool {
		return fr != nil && (r.fieldsOf[f] || r.emptyOf[f])
	}
	var fs []*ssa.Function
	add := func(m map[*ssa.Function]bool) {
		for f := range m {
			if f.Parent() == nil {
				fs = append(fs, f)
			}
		}
	}
	add(r.structB)
	add(r.keyB)
	add(r.fieldsOf)
	add(r.emptyOf)
	if r.cached != nil {
		fs = append(fs, r.cached)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	fs = append([]*ssa.Function{r.core}, fs...)
	done := map[*ssa.Function]bool{}
	var rec []*ssa.Function
	for _, f := range L.e.allFuncs() {
		if f.Parent() == nil && typeParam(f) >= 0 && !r.builders[f] && !r.fieldsOf[f] && !r.emptyOf[f] && !r.fieldFn(f) {
			for _, g := range refs(f) {
				if g == f {
					rec = append(rec, f)
				}
			}
		}
	}
	for _, f := range fs {
		if done[f] {
			continue
		}
		done[f] = true
		pol, coarse := r.buildOpaque, false
		switch {
		case f == r.cached:
			pol = r.encodeOpaque
		case r.structB[f]:
			coarse = true
			pol = func(g *ssa.Function, args []*Term, fr *frame) bool {
				return r.buildOpaque(g, args, fr) || fr != nil && pureStringFn(g)
			}
		case r.fieldsOf[f]:
			coarse = true
			pol = func(g *ssa.Function, args []*Term, fr *frame) bool {
				return nested(g, args, fr) || fr != nil && (r.fieldsOpaque(g, args, fr) || r.fieldFn(g))
			}
		case r.emptyOf[f]:
			pol = nested
		}
		x := k.run(f, pol, coarse)
		c.use(x)
		for _, p := range x.probs {
			c.undecided("%s", p)
		}
		k.collect(x)
		k.waits(x)
		k.history(x)
	}
	inv := k.quotedRule()
	for _, x := range k.runs {
		k.recursion(x, x.fn, func(st *State, args []*Term) bool {
			if x.fn == r.core {
				return inv(st, args)
			}
			return true
		})
	}
	for _, f := range rec {
		x := k.run(f, nil, false)
		c.use(x)
		k.recursion(x, f, nil)
	}
	k.levels()
	k.locked()
	k.agree()
	k.standIns()
	k.coverage()
	c.count("paths that use a cache", len(k.uses))
}

// quotedRule finds out what the types are that are asked for in quotes: it
// reports whether a type that is its own element can be one of them.
func (k *caches) quotedRule() func(st *State, args []*Term) bool {
	core := k.L.r.core
	kinds, ok, any := Set{}, true, false
	for _, x := range k.runs {
		if x.fn == core {
			continue
		}
		for _, ev := range x.events {
			if ev.kind != "build" || ev.note != core.Name() || len(ev.args) != 3 {
				continue
			}
			q := ev.st.res(ev.args[2])
			st := ev.st.clone()
			if st.decide(q) == 0 || !st.assume(q, true) {
				continue
			}
			any = true
			child := ev.st.res(ev.args[0])
			found := false
			for _, a := range sortedAtoms(st) {
				if !st.atoms[a] || a.op != OApp || !strings.HasPrefix(a.s, "built:") || len(a.a) != 1 {
					continue
				}
				w := st.res(a.a[0])
				if w != child && !(w.op == OApp && w.s == "rt.Elem" && st.res(w.a[0]) == child) {
					continue
				}
				if ks, fine := k.kindsOf(a.s[len("built:"):]); fine {
					kinds = kinds.or(ks)
					found = true
				}
			}
			for _, w := range []*Term{child, mkApp("rt.Elem", appType(child), child)} {
				if ks := st.rng(mkApp("rt.Kind", types.Typ[types.Uint], w)); !found && ks.subset(between(0, 26)) && ks.and(between(20, 25)).empty() {
					kinds = kinds.or(ks)
					found = true
				}
			}
			ok = ok && found
		}
	}
	return func(st *State, args []*Term) bool {
		if len(args) != 3 || st.decide(args[2]) != 1 {
			return true
		}
		if !any {
			return false
		}
		if !ok {
			k.undecided("for which types %s is asked for encoders in quotes", shortName(core))
			return false
		}
		return st.assumeIn(mkApp("rt.Kind", types.Typ[types.Uint], args[0]), kinds)
	}
}

// kindsOf is the set of kinds a predicate of types holds for.
func (k *caches) kindsOf(name string) (Set, bool) {
	for _, f := range k.L.e.allFuncs() {
		if f.Name() != name || f.Parent() != nil || len(f.Params) != 1 || !isReflectType(f.Params[0].Type()) {
			continue
		}
		x := k.L.function(f, nil, false)
		s := Set{}
		for _, o := range x.outs {
			if len(o.ret) != 1 {
				return nil, false
			}
			st := o.st.clone()
			if st.decide(o.ret[0]) == 0 || !st.assume(o.ret[0], true) {
				continue
			}
			s = s.or(st.rng(mkApp("rt.Kind", types.Typ[types.Uint], x.args[0])))
		}
		return s, len(x.probs) == 0
	}
	return nil, false
}

// coverage lists the uses of caches that no path has passed.
func (k *caches) coverage() {
	n := 0
	for _, f := range k.L.e.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil || !strings.HasPrefix(g.String(), "(*sync.Map).") || len(call.Common().Args) == 0 {
					continue
				}
				if _, ok := call.Common().Args[0].(*ssa.Global); !ok {
					continue
				}
				n++
				if !k.seen[in] {
					k.undecided("%s: this use of a cache was not reached", trimRepo(k.L.e.pos(in)))
				}
			}
		}
	}
	k.c.count("uses of caches", n)
}

func (k *caches) named(n string) *ssa.Function {
	for _, f := range k.L.e.allFuncs() {
		if f.Name() == n {
			return f
		}
	}
	return nil
}
