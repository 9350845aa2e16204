package main

import (
	"golang.org/x/tools/go/ssa"

	"fmt"
	"go/types"
	"sort"
	"strings"
)

// SegFact: the bytes [lo,hi) of base consist of characters of cls only.
type SegFact struct {
	base, lo, hi *Term
	cls          Set
}

type ObjKind int

const (
	KCells ObjKind = iota // fixed layout memory
	KLog                  // growing sequence (bytes or other elements)
	KMap
)

// LogWrite is a write to an element at an unknown place of a log.
type LogWrite struct {
	idx *Term
	rem int64
	t   types.Type
	v   *Term
}

// Obj is a heap object. Objects are immutable once shared: mutate through
// State.mut, which clones.
type Obj struct {
	id    int64
	kind  ObjKind
	typ   types.Type // type of the memory (cells), element type (log)
	zero  bool       // unset cells are zero, otherwise symbolic (based on obj)
	cells map[int64]*Term
	log   []*Term // pieces of a KLog
	ents  []*Term // KMap: OTuple(key,val) stored
	prov  string  // where the memory comes from
	rel   string  // released at (pool)
	root  *Term   // memory this log may share its array with
	wlog  []LogWrite
	site  string
	owner int // state stamp for copy on write
}

type State struct {
	heap  map[int64]*Obj
	rngs  map[*Term]Set
	lins  map[*Term]IV
	atoms map[*Term]bool
	alias map[*Term]*Term
	segs  []SegFact
	tags  map[string]*Term // typestate of modelled resources
	stamp int
	holes bool // some linear forms have sets that are no intervals
	facts []fact
	memo  map[*Term]IV    // bounds computed since the last change of the facts
	hdrs  map[*Term]*Term // lengths in headers, and the pointers beside them
	hist  *step           // what the path did, if that is recorded
}

// step is something a path did.
type step struct {
	prev *step
	kind string
	note string
	in   ssa.Instruction
	args []*Term
}

type fact struct {
	l  lin
	iv IV
	id int
}

func (st *State) setRng(t *Term, s Set) {
	st.rngs[t] = s
	st.memo = nil
}

var stampSeq int

func newState() *State {
	stampSeq++
	return &State{heap: map[int64]*Obj{}, rngs: map[*Term]Set{}, lins: map[*Term]IV{}, atoms: map[*Term]bool{},
		alias: map[*Term]*Term{}, tags: map[string]*Term{}, stamp: stampSeq}
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+1)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (st *State) clone() *State {
	stampSeq++
	r := &State{heap: cloneMap(st.heap), rngs: cloneMap(st.rngs), lins: cloneMap(st.lins), atoms: cloneMap(st.atoms),
		alias: cloneMap(st.alias), tags: cloneMap(st.tags), facts: st.facts, segs: append([]SegFact(nil), st.segs...), stamp: stampSeq, holes: st.holes, hist: st.hist, hdrs: cloneMap(st.hdrs)}
	stampSeq++
	st.stamp = stampSeq
	return r
}

var objSeq int64

func (st *State) newObj(kind ObjKind, t types.Type, zero bool, prov string) *Obj {
	objSeq++
	o := &Obj{id: objSeq, kind: kind, typ: t, zero: zero, prov: prov, owner: st.stamp}
	if kind == KCells {
		o.cells = map[int64]*Term{}
	}
	st.heap[o.id] = o
	return o
}

func objT(id int64) *Term { return mk(OObj, "", id, nil, nil, nil) }

func (st *State) obj(t *Term) *Obj {
	if t.op != OObj {
		return nil
	}
	return st.heap[t.n]
}

func (st *State) mut(o *Obj) *Obj {
	if o.owner == st.stamp {
		return o
	}
	c := *o
	c.owner = st.stamp
	if o.cells != nil {
		c.cells = cloneMap(o.cells)
	}
	c.log = append([]*Term(nil), o.log...)
	c.ents = append([]*Term(nil), o.ents...)
	c.wlog = append([]LogWrite(nil), o.wlog...)
	st.heap[c.id] = &c
	return &c
}

func (st *State) res(t *Term) *Term {
	for i := 0; i < 8; i++ {
		r, ok := st.alias[t]
		if !ok {
			return t
		}
		t = r
	}
	return t
}

// ---------- ranges ----------

const maxLen = int64(1) << 47

func (st *State) rng(t *Term) Set { return st.rngD(t, 6) }

func (st *State) rngD(t *Term, d int) Set {
	if t.op == OInt {
		return single(t.n)
	}
	if t.op == OLin {
		iv := st.linBound(linOf(t), 2)
		return Set{iv}
	}
	r := full
	if tr := typeRange(t); len(tr) > 0 {
		r = tr
	}
	if f, ok := st.rngs[t]; ok {
		r = r.and(f)
	}
	if t.op == OApp && d > 0 {
		if tr := st.transfer(t, d-1); tr != nil {
			r = r.and(tr)
		}
	}
	return r
}

func pow2ceil(n int64) int64 { // smallest 2^k-1 >= n
	v := int64(0)
	for v < n && v >= 0 && v < (1<<62) {
		v = v<<1 | 1
	}
	if v < n {
		return INF
	}
	return v
}

func isPow2(n int64) bool { return n > 0 && n&(n-1) == 0 }

func (st *State) transfer(t *Term, d int) Set {
	switch t.s {
	case "and":
		a, b := st.rngD(t.a[0], d), st.rngD(t.a[1], d)
		if len(a) == 0 || len(b) == 0 {
			return nil
		}
		if t.a[1].op == OInt && isPow2(t.a[1].n) {
			return setOf(0, t.a[1].n)
		}
		if t.a[1].op == OInt && t.a[1].n >= 0 && t.a[1].n&(t.a[1].n+1) == 0 && a.lo() >= 0 && a.hi() <= t.a[1].n {
			return a
		}
		hi := int64(INF)
		if a.lo() >= 0 {
			hi = a.hi()
		}
		if b.lo() >= 0 {
			hi = min(hi, b.hi())
		}
		if hi != INF {
			return between(0, hi)
		}
	case "or", "xor":
		a, b := st.rngD(t.a[0], d), st.rngD(t.a[1], d)
		if len(a) == 0 || len(b) == 0 {
			return nil
		}
		if a.lo() >= 0 && b.lo() >= 0 && a.hi() != INF && b.hi() != INF {
			return between(0, pow2ceil(max(a.hi(), b.hi())))
		}
	case "shr":
		a := st.rngD(t.a[0], d)
		if t.a[1].op == OInt && len(a) > 0 && t.a[1].n < 63 {
			k := t.a[1].n
			lo, hi := a.lo(), a.hi()
			if lo != NINF {
				lo >>= uint(k)
			}
			if hi != INF {
				hi >>= uint(k)
			} else {
				hi = INF
				if k > 1 && lo >= 0 {
					hi = (INF >> uint(k-1))
				}
			}
			return between(lo, hi)
		}
	case "quo":
		a, b := st.rngD(t.a[0], d), t.a[1]
		if b.op == OInt && b.n > 0 && len(a) > 0 {
			q := func(x int64) int64 {
				if x == INF {
					return uintMaxDiv(b.n)
				}
				if x == NINF {
					return satNeg(uintMaxDiv(b.n))
				}
				return x / b.n
			}
			return between(q(a.lo()), q(a.hi()))
		}
	case "rem":
		a, b := st.rngD(t.a[0], d), t.a[1]
		if b.op == OInt && b.n > 0 && len(a) > 0 {
			if a.lo() >= 0 && a.hi() < b.n {
				return a
			}
			lo := -(b.n - 1)
			if a.lo() >= 0 {
				lo = 0
			}
			hi := b.n - 1
			if a.hi() <= 0 {
				hi = 0
			}
			return between(lo, hi)
		}
	case "mul":
		a, b := st.rngD(t.a[0], d), st.rngD(t.a[1], d)
		if len(a) == 0 || len(b) == 0 {
			return nil
		}
		xs := []int64{satMul(a.lo(), b.lo()), satMul(a.lo(), b.hi()), satMul(a.hi(), b.lo()), satMul(a.hi(), b.hi())}
		sort.Slice(xs, func(i, j int) bool { return xs[i] < xs[j] })
		return between(xs[0], xs[3])
	case "tblidx": // constant table lookup
		tab := t.a[0]
		idx := st.rngD(t.a[1], d)
		if len(idx) == 0 {
			return nil
		}
		if idx.size() > 1024 {
			return nil
		}
		var r Set
		idx.each(func(n int64) bool {
			if v, ok := tableAt(tab, n); ok && v.op == OInt {
				r = r.or(single(v.n))
			} else if ok && v.op == OBool {
				r = r.or(single(v.n))
			}
			return true
		})
		return r
	case "b2i":
		switch st.decide(t.a[0]) {
		case 1:
			return single(1)
		case 0:
			return single(0)
		}
		return between(0, 1)
	}
	return nil
}

func uintMaxDiv(k int64) int64 {
	if k == 1 {
		return INF
	}
	return int64(^uint64(0) / uint64(k))
}

func tableAt(tab *Term, n int64) (*Term, bool) {
	switch tab.op {
	case OStrC:
		if n >= 0 && n < int64(len(tab.s)) {
			return intC(int64(tab.s[n])), true
		}
	case OArr:
		if n >= 0 && n < int64(len(tab.a)) {
			return tab.a[n], true
		}
	}
	return nil, false
}

// linBound computes bounds of a linear form from ranges and stored facts.
func (st *State) linBound(l lin, depth int) IV {
	iv := IV{l.c, l.c}
	for i, t := range l.t {
		r := st.rng(t)
		if len(r) == 0 {
			return IV{1, 0}
		}
		k := l.k[i]
		lo, hi := satMul(r.lo(), k), satMul(r.hi(), k)
		if k < 0 {
			lo, hi = hi, lo
		}
		iv.lo = satAddLo(iv.lo, lo)
		iv.hi = satAddHi(iv.hi, hi)
	}
	if len(l.t) == 0 || len(st.lins) == 0 || depth == 0 {
		return iv
	}
	if st.facts == nil {
		for f, fiv := range st.lins {
			st.facts = append(st.facts, fact{linOf(f), fiv, f.id})
		}
		sort.Slice(st.facts, func(i, j int) bool { return st.facts[i].id < st.facts[j].id })
	}
	for i := range st.facts {
		fl, fiv := st.facts[i].l, st.facts[i].iv
		same, opp := 0, 0
		x, y := 0, 0
		for x < len(l.t) && y < len(fl.t) {
			switch {
			case l.t[x] == fl.t[y]:
				if l.k[x] == fl.k[y] {
					same++
				} else if l.k[x] == -fl.k[y] {
					opp++
				}
				x++
				y++
			case l.t[x].id < fl.t[y].id:
				x++
			default:
				y++
			}
		}
		for _, s := range []int64{1, -1} {
			m := same
			if s < 0 {
				m = opp
			}
			// eliminate at least as many symbols as are introduced
			if m == 0 || 2*m < len(fl.t) {
				continue
			}
			r := addLin(l, fl, -s)
			riv := st.linBound(r, depth-1)
			a, b := fiv.lo, fiv.hi
			if s < 0 {
				a, b = satNeg(fiv.hi), satNeg(fiv.lo)
			}
			iv.lo = max(iv.lo, satAddLo(riv.lo, a))
			iv.hi = min(iv.hi, satAddHi(riv.hi, b))
		}
	}
	return iv
}

func satAddLo(a, b int64) int64 {
	if a == NINF || b == NINF {
		return NINF
	}
	return satAdd(a, b)
}
func satAddHi(a, b int64) int64 {
	if a == INF || b == INF {
		return INF
	}
	return satAdd(a, b)
}

func (st *State) bound(t *Term) (res IV) {
	if t.op == OInt {
		return IV{t.n, t.n}
	}
	if iv, ok := st.memo[t]; ok {
		return iv
	}
	iv := st.linBound(linOf(t), 2)
	defer func() {
		if st.memo == nil {
			st.memo = map[*Term]IV{}
		}
		st.memo[t] = res
	}()
	if t.op != OLin {
		h := st.rng(t).hull()
		iv.lo, iv.hi = max(iv.lo, h.lo), min(iv.hi, h.hi)
	}
	return iv
}

// setFor returns the possible values of t.
func (st *State) setFor(t *Term) Set {
	if t.op == OInt {
		return single(t.n)
	}
	iv := st.bound(t)
	if iv.lo > iv.hi {
		return nil
	}
	s := Set{iv}
	if t.op != OLin {
		s = s.and(st.rng(t))
	} else if st.holes {
		for a, v := range st.atoms {
			if a.op != OIn || !v || a.a[0].op != OLin || len(a.a[0].a) != len(t.a) {
				continue
			}
			if a.a[0] == t {
				s = s.and(a.x.(Set))
			} else if d := addT(a.a[0], t); d.op == OInt && d.n == 0 {
				s = s.and(a.x.(Set).neg())
			}
		}
	}
	// single small root: enumerate
	if root := singleRoot(t); root != nil && root != t {
		rs := st.rng(root)
		if rs.size() <= 300 {
			var out Set
			ok := true
			rs.each(func(v int64) bool {
				r, k := evalT(t, root, v)
				if !k {
					ok = false
					return false
				}
				out = out.or(single(r))
				return true
			})
			if ok {
				s = s.and(out)
			}
		}
	}
	return s
}

var rootMemo = map[*Term]*Term{}

// singleRoot returns the only opaque integer under t, if t is computed from it
// by operations evalT knows.
func singleRoot(t *Term) *Term {
	if r, ok := rootMemo[t]; ok {
		return r
	}
	roots := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		switch t.op {
		case OInt, OStrC, OArr:
			return
		case OLin:
			for _, a := range t.a {
				walk(a)
			}
			return
		case OApp:
			switch t.s {
			case "and", "or", "xor", "shr", "shl", "quo", "rem", "mul", "wrap", "compl":
				for _, a := range t.a {
					walk(a)
				}
				return
			case "tblidx":
				walk(t.a[1])
				return
			}
		}
		roots[t] = true
	}
	walk(t)
	var r *Term
	if len(roots) == 1 {
		for k := range roots {
			r = k
		}
	}
	rootMemo[t] = r
	return r
}

func evalT(t, root *Term, v int64) (int64, bool) {
	if t == root {
		return v, true
	}
	switch t.op {
	case OInt:
		return t.n, true
	case OLin:
		r := t.n
		for i, a := range t.a {
			x, ok := evalT(a, root, v)
			if !ok {
				return 0, false
			}
			r += x * t.co[i]
		}
		return r, true
	case OApp:
		if t.s == "tblidx" {
			i, ok := evalT(t.a[1], root, v)
			if !ok {
				return 0, false
			}
			e, ok := tableAt(t.a[0], i)
			if !ok || (e.op != OInt && e.op != OBool) {
				return 0, false
			}
			return e.n, true
		}
		var xs [2]int64
		for i, a := range t.a {
			if i > 1 {
				return 0, false
			}
			x, ok := evalT(a, root, v)
			if !ok {
				return 0, false
			}
			xs[i] = x
		}
		a, b := xs[0], xs[1]
		switch t.s {
		case "and":
			return a & b, true
		case "or":
			return a | b, true
		case "xor":
			return a ^ b, true
		case "shr":
			if b < 0 || b > 63 {
				return 0, false
			}
			return a >> uint(b), true
		case "shl":
			if b < 0 || b > 40 || a > 1<<20 {
				return 0, false
			}
			return wrapTo(a<<uint(b), appType(t)), true
		case "quo":
			if b == 0 {
				return 0, false
			}
			return a / b, true
		case "rem":
			if b == 0 {
				return 0, false
			}
			return a % b, true
		case "mul":
			return wrapTo(a*b, appType(t)), true
		case "wrap":
			return wrapTo(a, appType(t)), true
		case "compl":
			return wrapTo(^a, appType(t)), true
		}
	}
	return 0, false
}

func wrapTo(v int64, t types.Type) int64 {
	if t == nil {
		return v
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(v))
	case types.Int16:
		return int64(int16(v))
	case types.Int32:
		return int64(int32(v))
	case types.Uint8:
		return int64(uint8(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Uint32:
		return int64(uint32(v))
	}
	return v
}

// ---------- decisions ----------

func nonNil(t *Term) bool {
	switch t.op {
	case OFunc, OClos, OMkI, OTypeC, OObj, OStrC:
		return true
	case OPtr:
		return t.a[0].op == OObj || (t.a[1].op == OInt && t.a[1].n > 0)
	case OApp:
		switch t.s {
		case "strdata", "rtypeptr", "err", "mkerr", "mapkeyptr", "mapvalptr", "tabtype", "boxed":
			return true
		case "word":
			return t.a[0].op == OTypeC
		case "tab":
			return nonNil(t.a[0])
		case "rt.Elem", "rt.Key", "rt.FieldType", "rt.PtrTo":
			return true
		}
		if strings.HasPrefix(t.s, "nn:") {
			return true
		}
	case OIface:
		return nonNil(t.a[0])
	}
	return false
}

// decide returns 1 (true), 0 (false), -1 (unknown).
func (st *State) decide(c *Term) int {
	switch c.op {
	case OBool:
		return int(c.n)
	case ONot:
		r := st.decide(c.a[0])
		if r < 0 {
			return r
		}
		return 1 - r
	case OIn:
		if v, ok := st.atoms[c]; ok {
			return b2i(v)
		}
		s := st.setFor(c.a[0])
		if len(s) == 0 {
			return -1
		}
		want := c.x.(Set)
		if s.subset(want) {
			return 1
		}
		if len(s.and(want)) == 0 {
			return 0
		}
		return -1
	case OEq:
		if v, ok := st.atoms[c]; ok {
			return b2i(v)
		}
		a, b := st.res(c.a[0]), st.res(c.a[1])
		if a != c.a[0] || b != c.a[1] {
			return st.decide(st.eqTerms(a, b))
		}
		if r := st.decideEqRaw(a, b); r >= 0 {
			return r
		}
		if (a.op == OTypeC || b.op == OTypeC) && !st.onAlias(a, b) {
			return 0
		}
		return -1
	case OApp:
		if v, ok := st.atoms[c]; ok {
			return b2i(v)
		}
		if r := st.resolveApp(c); r != c {
			return st.decide(r)
		}
		if c.s == "tblidx" {
			s := st.setFor(c)
			if v, ok := s.isSingle(); ok {
				return int(v)
			}
		}
		return -1
	}
	if v, ok := st.atoms[c]; ok {
		return b2i(v)
	}
	return -1
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (st *State) decideEqRaw(a, b *Term) int {
	if a == b {
		return 1
	}
	if b == tNil || a == tNil {
		x := a
		if a == tNil {
			x = b
		}
		if nonNil(x) {
			return 0
		}
		return -1
	}
	switch {
	case a.op == OTypeC && b.op == OTypeC:
		return b2i(types.Identical(a.x.(types.Type), b.x.(types.Type)))
	case a.op == OStrC && b.op == OStrC:
		return b2i(a.s == b.s)
	case a.op == OPtr && b.op == OPtr && a.a[0].op == OObj && b.a[0].op == OObj && a.a[0] != b.a[0]:
		return 0
	case a.op == OFunc && b.op == OFunc:
		return 0
	case a.op == OMkI && b.op == OMkI && !types.Identical(a.x.(types.Type), b.x.(types.Type)):
		return 0
	}
	return -1
}

// eqTerms builds the condition a == b, breaking up known structure.
func (st *State) eqTerms(a, b *Term) *Term {
	a, b = st.res(a), st.res(b)
	if a == b {
		return tTrue
	}
	isNilLike := func(t *Term) bool { return t == tNil || t == nilIface || t == nilSlice }
	if isNilLike(b) || isNilLike(a) {
		x := a
		if isNilLike(a) {
			x = b
		}
		switch x.op {
		case OSlice:
			return eqT(st.res(baseOf(x.a[0])), tNil)
		case OIface:
			return st.eqTerms(x.a[0], tNil)
		case OApp:
			if x.s == "itype" {
				return st.eqTerms(x.a[0], tNil)
			}
		}
		if nonNil(x) {
			return tFalse
		}
		return eqT(x, tNil)
	}
	if r := st.decideEqRaw(a, b); r >= 0 {
		return boolC(r == 1)
	}
	return eqT(a, b)
}

func baseOf(p *Term) *Term {
	b, _ := ptrParts(p)
	return b
}

// assume adds the fact c == pol; it reports false if that is impossible.
func (st *State) assume(c *Term, pol bool) bool {
	if !pol {
		switch c.op {
		case OBool, ONot, OIn:
			return st.assume(notT(c), true)
		}
	}
	switch d := st.decide(c); d {
	case 1:
		return pol
	case 0:
		return !pol
	}
	switch c.op {
	case OBool:
		return (c.n == 1) == pol
	case ONot:
		return st.assume(c.a[0], !pol)
	case OIn:
		return st.assumeIn(c.a[0], c.x.(Set))
	case OEq:
		a, b := st.res(c.a[0]), st.res(c.a[1])
		if a != c.a[0] || b != c.a[1] {
			return st.assume(st.eqTerms(a, b), pol)
		}
		st.atoms[c] = pol
		st.memo = nil
		if pol {
			switch {
			case isConstTerm(b):
				st.alias[a] = b
			case isConstTerm(a):
				st.alias[b] = a
			}
			if !st.onAlias(a, b) {
				return false
			}
		}
		return true
	case OApp:
		if r := st.resolveApp(c); r != c {
			return st.assume(r, pol)
		}
		st.atoms[c] = pol
		st.memo = nil
		if c.s == "tblidx" {
			return st.assumeIn(c, single(int64(b2i(pol))))
		}
		return st.onAtom(c, pol) && st.boolKnown(c, pol)
	}
	st.atoms[c] = pol
	st.memo = nil
	return st.boolKnown(c, pol)
}

// boolKnown draws the consequences of a bool for those it is equal to, or not
// equal to.
func (st *State) boolKnown(c *Term, pol bool) bool {
	for a, v := range st.atoms {
		if a.op != OApp || a.s != "booleq" {
			continue
		}
		for i := range a.a {
			if a.a[i] != c {
				continue
			}
			o := a.a[1-i]
			if d := st.decide(o); d >= 0 {
				if (b2i(pol) == d) != v {
					return false
				}
			} else if !st.assume(o, pol == v) {
				return false
			}
		}
	}
	return true
}

func isConstTerm(t *Term) bool {
	switch t.op {
	case OTypeC, ONil, OStrC, OFunc, OMkI:
		return true
	}
	return false
}

func (st *State) assumeIn(t *Term, s Set) bool {
	cur := st.setFor(t)
	n := cur.and(s)
	if len(n) == 0 {
		return false
	}
	if t.op == OInt {
		return true
	}
	if t.op != OLin {
		old := st.rng(t)
		st.setRng(t, old.and(s))
		if t.op == OApp && (t.s == "rt.Kind" || t.s == "rt.NumMethod") && !st.typeOK(t.a[0]) {
			return false
		}
	} else {
		h := n.hull()
		iv, ok := st.lins[t]
		if !ok {
			iv = IV{NINF, INF}
		}
		iv.lo, iv.hi = max(iv.lo, h.lo), min(iv.hi, h.hi)
		st.lins[t] = iv
		st.memo = nil
		st.facts = nil
		if len(n) > 1 {
			st.atoms[mk(OIn, "", 0, s, []*Term{t}, nil)] = true
			st.holes = true
		}
		// propagate to the symbols of the form
		l := linOf(t)
		for i, u := range l.t {
			rest := lin{c: l.c}
			for j := range l.t {
				if j != i {
					rest.t = append(rest.t, l.t[j])
					rest.k = append(rest.k, l.k[j])
				}
			}
			riv := st.linBound(rest, 1)
			// k*u in [iv.lo - riv.hi, iv.hi - riv.lo]
			lo, hi := satAddLo(iv.lo, satNeg(riv.hi)), satAddHi(iv.hi, satNeg(riv.lo))
			k := l.k[i]
			if k < 0 {
				lo, hi = satNeg(hi), satNeg(lo)
				k = -k
			}
			if lo != NINF && lo != INF {
				lo = ceilDiv(lo, k)
			}
			if hi != INF && hi != NINF {
				hi = floorDiv(hi, k)
			}
			if lo > hi {
				return false
			}
			old := st.rng(u)
			nw := old.and(between(lo, hi))
			if len(nw) == 0 {
				return false
			}
			if !nw.eq(old) {
				st.setRng(u, nw)
			}
		}
	}
	// refine a single small root
	if root := singleRoot(t); root != nil && root != t {
		rs := st.rng(root)
		if rs.size() <= 300 {
			var keep Set
			ok := true
			rs.each(func(v int64) bool {
				r, k := evalT(t, root, v)
				if !k {
					ok = false
					return false
				}
				if s.has(r) {
					keep = keep.or(single(v))
				}
				return true
			})
			if ok {
				if len(keep) == 0 {
					return false
				}
				st.setRng(root, keep)
			}
		}
	}
	return true
}

// provable helpers
func (st *State) le(a, b *Term) bool { // a <= b
	iv := st.bound(subT(b, a))
	return iv.lo >= 0
}
func (st *State) lt(a, b *Term) bool {
	iv := st.bound(subT(b, a))
	return iv.lo >= 1
}
func (st *State) eqInt(a, b *Term) bool {
	if a == b {
		return true
	}
	iv := st.bound(subT(b, a))
	return iv.lo == 0 && iv.hi == 0
}
func (st *State) constOf(t *Term) (int64, bool) {
	if t.op == OInt {
		return t.n, true
	}
	iv := st.bound(t)
	if iv.lo == iv.hi {
		return iv.lo, true
	}
	return 0, false
}

func (st *State) describe() string {
	var ss []string
	for c, v := range st.atoms {
		s := c.str(5)
		if !v {
			s = "!" + s
		}
		ss = append(ss, s)
	}
	for t, s := range st.rngs {
		ss = append(ss, t.str(5)+"∈"+s.String())
	}
	for t, iv := range st.lins {
		ss = append(ss, fmt.Sprintf("%s∈[%s,%s]", t.str(5), inf(iv.lo), inf(iv.hi)))
	}
	sort.Strings(ss)
	return strings.Join(ss, "; ")
}
