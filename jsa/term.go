package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
)

// Terms are hash-consed symbolic values: two equal terms are the same pointer.

type Op uint8

const (
	OInt    Op = iota // integer constant n
	OBool             // boolean constant n
	OFloat            // float constant s
	ONil              // nil pointer, map, func, chan
	OStrC             // string constant s
	OSym              // opaque symbol s (type x)
	OLin              // n + sum co[i]*a[i]
	OSlice            // ptr, len, cap
	OStr              // ptr, len
	OIface            // tab, word
	OMkI              // interface holding a value of concrete type x: a[0]
	OPtr              // base, byte offset
	OObj              // identity of heap object n
	OFunc             // function x
	OClos             // function x, bindings a
	OStruct           // struct value of type x
	OArr              // array value of type x
	OTuple            //
	OApp              // pure application s of type x
	OTypeC            // reflect.Type constant x
	OIn               // a[0] in set x
	ONot              //
	OEq               //
	OPiece            // log piece, s = kind
)

type Term struct {
	id int
	op Op
	s  string
	n  int64
	x  any
	a  []*Term
	co []int64
}

var (
	termTab  = map[string]*Term{}
	termSeq  int
	typeKeys = map[types.Type]string{}
	freshSeq int
)

func typeKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	if k, ok := typeKeys[t]; ok {
		return k
	}
	k := types.TypeString(t, nil)
	typeKeys[t] = k
	return k
}

func auxKey(x any) string {
	switch v := x.(type) {
	case nil:
		return ""
	case types.Type:
		return typeKey(v)
	case Set:
		return v.String()
	case fmt.Stringer:
		return fmt.Sprintf("%p", v)
	default:
		return fmt.Sprintf("%v", v)
	}
}

func isBasicT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// untyped applications have one type only.
func untyped(s string) bool {
	switch s {
	case "word", "itype", "implements", "typeof", "itypeof":
		return true
	}
	return strings.HasPrefix(s, "ld") || strings.HasPrefix(s, "rt.") || strings.HasPrefix(s, "t.") || strings.HasPrefix(s, "d.")
}

func mk(op Op, s string, n int64, x any, a []*Term, co []int64) *Term {
	var sb strings.Builder
	sb.Grow(64)
	key := ""
	if ty, ok := x.(types.Type); ok && op == OApp {
		// named and unnamed types hold the same values
		switch {
		case untyped(s):
		case isBasicT(ty):
			key = typeKey(ty.Underlying())
		default:
			key = typeKey(ty)
		}
	} else {
		key = auxKey(x)
	}
	fmt.Fprintf(&sb, "%d|%s|%d|%s|", op, s, n, key)
	for i, t := range a {
		if t == nil {
			panic(fmt.Sprintf("nil arg %d in %d %s %v", i, op, s, x))
		}
		if co != nil {
			fmt.Fprintf(&sb, "%d*", co[i])
		}
		fmt.Fprintf(&sb, "%d,", t.id)
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{termSeq, op, s, n, x, a, co}
	termTab[k] = t
	return t
}

func intC(n int64) *Term  { return mk(OInt, "", n, nil, nil, nil) }
func strC(s string) *Term { return mk(OStrC, s, 0, nil, nil, nil) }
func boolC(b bool) *Term {
	if b {
		return mk(OBool, "", 1, nil, nil, nil)
	}
	return mk(OBool, "", 0, nil, nil, nil)
}

var (
	tNil   = mk(ONil, "", 0, nil, nil, nil)
	tTrue  = boolC(true)
	tFalse = boolC(false)
	tZero  = intC(0)
	tOne   = intC(1)
)

func sym(name string, t types.Type) *Term { return mk(OSym, name, 0, t, nil, nil) }
func fresh(name string, t types.Type) *Term {
	freshSeq++
	return sym(fmt.Sprintf("%s#%d", name, freshSeq), t)
}
func typeC(t types.Type) *Term { return mk(OTypeC, "", 0, t, nil, nil) }
func mkSlice(p, l, c *Term) *Term {
	return mk(OSlice, "", 0, nil, []*Term{p, l, c}, nil)
}
func mkStr(p, l *Term) *Term {
	if isInt(l, 0) {
		return strC("")
	}
	b, off := ptrParts(p)
	if b.op == OApp && b.s == "strdata" && off.op == OInt && l.op == OInt {
		c := b.a[0].s
		if off.n >= 0 && l.n >= 0 && off.n+l.n <= int64(len(c)) {
			return strC(c[off.n : off.n+l.n])
		}
	}
	return mk(OStr, "", 0, nil, []*Term{p, l}, nil)
}
func mkIface(tab, word *Term) *Term {
	if tab.op == OApp && word.op == OApp && tab.s == "tab" && word.s == "word" && tab.a[0] == word.a[0] {
		return tab.a[0]
	}
	return mk(OIface, "", 0, nil, []*Term{tab, word}, nil)
}

var nilIface = mkIface(tNil, tNil)
var nilSlice = mkSlice(tNil, tZero, tZero)

func mkI(t types.Type, v *Term) *Term { return mk(OMkI, "", 0, t, []*Term{v}, nil) }
func mkTuple(a ...*Term) *Term        { return mk(OTuple, "", 0, nil, a, nil) }
func piece(kind string, n int64, x any, a ...*Term) *Term {
	return mk(OPiece, kind, n, x, a, nil)
}

func isInt(t *Term, n int64) bool { return t.op == OInt && t.n == n }

func mkPtr(base, off *Term) *Term {
	b, o := ptrParts(base)
	off = addT(o, off)
	if isInt(off, 0) && b.op != OObj {
		return b
	}
	return mk(OPtr, "", 0, nil, []*Term{b, off}, nil)
}

func ptrParts(p *Term) (base, off *Term) {
	if p.op == OPtr {
		return p.a[0], p.a[1]
	}
	return p, tZero
}

func tabOf(v *Term) *Term {
	switch v.op {
	case OIface:
		return v.a[0]
	}
	return mkApp("tab", nil, v)
}

func wordOf(v *Term) *Term {
	switch v.op {
	case OIface:
		return v.a[1]
	case OMkI:
		if isDirect(v.x.(types.Type)) {
			return v.a[0]
		}
	}
	return mkApp("word", types.Typ[types.UnsafePointer], v)
}

// isDirect reports whether values of t are stored directly in interface words.
func isDirect(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		return u.NumFields() == 1 && isDirect(u.Field(0).Type())
	case *types.Array:
		return u.Len() == 1 && isDirect(u.Elem())
	}
	return false
}

func sliceParts(v *Term) (p, l, c *Term) {
	switch v.op {
	case OSlice:
		return v.a[0], v.a[1], v.a[2]
	}
	return mkApp("sptr", types.Typ[types.UnsafePointer], v), mkApp("slen", types.Typ[types.Int], v), mkApp("scap", types.Typ[types.Int], v)
}

func strParts(v *Term) (p, l *Term) {
	switch v.op {
	case OStr:
		return v.a[0], v.a[1]
	case OStrC:
		return mkApp("strdata", types.Typ[types.UnsafePointer], v), intC(int64(len(v.s)))
	}
	return mkApp("strptr", types.Typ[types.UnsafePointer], v), mkApp("strlen", types.Typ[types.Int], v)
}

// ---------- integers: linear combinations ----------

type lin struct {
	c int64
	t []*Term
	k []int64
}

func linOf(t *Term) lin {
	switch t.op {
	case OInt:
		return lin{c: t.n}
	case OLin:
		return lin{t.n, t.a, t.co}
	}
	return lin{0, []*Term{t}, []int64{1}}
}

func (l lin) term() *Term {
	if len(l.t) == 0 {
		return intC(l.c)
	}
	if len(l.t) == 1 && l.k[0] == 1 && l.c == 0 {
		return l.t[0]
	}
	return mk(OLin, "", l.c, nil, l.t, l.k)
}

func addLin(x, y lin, m int64) lin { // x + m*y
	r := lin{c: x.c + m*y.c}
	n := len(x.t) + len(y.t)
	if n == 0 {
		return r
	}
	r.t = make([]*Term, 0, n)
	r.k = make([]int64, 0, n)
	i, j := 0, 0
	for i < len(x.t) || j < len(y.t) {
		switch {
		case j >= len(y.t) || i < len(x.t) && x.t[i].id < y.t[j].id:
			r.t = append(r.t, x.t[i])
			r.k = append(r.k, x.k[i])
			i++
		case i >= len(x.t) || y.t[j].id < x.t[i].id:
			if k := m * y.k[j]; k != 0 {
				r.t = append(r.t, y.t[j])
				r.k = append(r.k, k)
			}
			j++
		default:
			if k := x.k[i] + m*y.k[j]; k != 0 {
				r.t = append(r.t, x.t[i])
				r.k = append(r.k, k)
			}
			i++
			j++
		}
	}
	return r
}

func addT(a, b *Term) *Term {
	if isInt(b, 0) {
		return a
	}
	if isInt(a, 0) {
		return b
	}
	return addLin(linOf(a), linOf(b), 1).term()
}
func subT(a, b *Term) *Term {
	if a == b {
		return tZero
	}
	return addLin(linOf(a), linOf(b), -1).term()
}
func mulC(a *Term, k int64) *Term { return addLin(lin{}, linOf(a), k).term() }

// divisible decomposes off = sz*idx + rem.
func divLin(off *Term, sz int64) (idx *Term, rem int64, ok bool) {
	l := linOf(off)
	if sz == 0 {
		return nil, 0, false
	}
	r := lin{}
	for i, t := range l.t {
		if l.k[i]%sz != 0 {
			return nil, 0, false
		}
		r.t = append(r.t, t)
		r.k = append(r.k, l.k[i]/sz)
	}
	rem = ((l.c % sz) + sz) % sz
	r.c = (l.c - rem) / sz
	return r.term(), rem, true
}

// ---------- integer sets ----------

const (
	INF  = math.MaxInt64
	NINF = math.MinInt64
)

type IV struct{ lo, hi int64 }
type Set []IV

var full = Set{{NINF, INF}}

func (s Set) String() string {
	var sb strings.Builder
	for _, v := range s {
		fmt.Fprintf(&sb, "[%s,%s]", inf(v.lo), inf(v.hi))
	}
	return sb.String()
}
func inf(n int64) string {
	if n == INF {
		return "+"
	}
	if n == NINF {
		return "-"
	}
	return fmt.Sprint(n)
}
func single(n int64) Set       { return Set{{n, n}} }
func between(lo, hi int64) Set { return Set{{lo, hi}} }
func (s Set) empty() bool      { return len(s) == 0 }
func (s Set) lo() int64        { return s[0].lo }
func (s Set) hi() int64        { return s[len(s)-1].hi }
func (s Set) isSingle() (int64, bool) {
	if len(s) == 1 && s[0].lo == s[0].hi {
		return s[0].lo, true
	}
	return 0, false
}
func (s Set) has(n int64) bool {
	for _, v := range s {
		if v.lo <= n && n <= v.hi {
			return true
		}
	}
	return false
}
func (s Set) and(o Set) Set {
	var r Set
	for _, a := range s {
		for _, b := range o {
			lo, hi := max(a.lo, b.lo), min(a.hi, b.hi)
			if lo <= hi {
				r = append(r, IV{lo, hi})
			}
		}
	}
	return r
}
func (s Set) not() Set {
	var r Set
	lo := int64(NINF)
	open := true
	for _, v := range s {
		if v.lo != NINF && lo <= v.lo-1 && open {
			r = append(r, IV{lo, v.lo - 1})
		}
		if v.hi == INF {
			open = false
			break
		}
		lo = v.hi + 1
	}
	if open {
		r = append(r, IV{lo, INF})
	}
	return r
}
func (s Set) or(o Set) Set {
	all := append(append(Set{}, s...), o...)
	if len(all) == 0 {
		return nil
	}
	sort.Slice(all, func(i, j int) bool { return all[i].lo < all[j].lo })
	r := Set{all[0]}
	for _, v := range all[1:] {
		l := &r[len(r)-1]
		if l.hi == INF || v.lo <= l.hi+1 {
			l.hi = max(l.hi, v.hi)
		} else {
			r = append(r, v)
		}
	}
	return r
}
func (s Set) minus(o Set) Set   { return s.and(o.not()) }
func (s Set) subset(o Set) bool { return s.minus(o).empty() }
func (s Set) eq(o Set) bool     { return s.String() == o.String() }
func (s Set) hull() IV {
	if len(s) == 0 {
		return IV{1, 0}
	}
	return IV{s.lo(), s.hi()}
}
func (s Set) size() int64 {
	n := int64(0)
	for _, v := range s {
		if v.lo == NINF || v.hi == INF {
			return INF
		}
		n = satAdd(n, satAdd(satAdd(v.hi, satNeg(v.lo)), 1))
	}
	return n
}
func (s Set) neg() Set {
	var r Set
	for i := len(s) - 1; i >= 0; i-- {
		r = append(r, IV{satNeg(s[i].hi), satNeg(s[i].lo)})
	}
	return r
}
func (s Set) shift(c int64) Set {
	r := make(Set, 0, len(s))
	for _, v := range s {
		r = append(r, IV{satAdd(v.lo, c), satAdd(v.hi, c)})
	}
	return r
}
func (s Set) each(f func(int64) bool) {
	for _, v := range s {
		for n := v.lo; ; n++ {
			if !f(n) {
				return
			}
			if n == v.hi {
				break
			}
		}
	}
}
func setOf(ns ...int64) Set {
	var r Set
	for _, n := range ns {
		r = r.or(single(n))
	}
	return r
}

func satNeg(a int64) int64 {
	switch a {
	case INF:
		return NINF
	case NINF:
		return INF
	}
	return -a
}
func satAdd(a, b int64) int64 {
	if a == INF || a == NINF {
		return a
	}
	if b == INF || b == NINF {
		return b
	}
	c := a + b
	if a > 0 && b > 0 && c < 0 {
		return INF
	}
	if a < 0 && b < 0 && c >= 0 {
		return NINF
	}
	return c
}
func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	ai, bi := a == INF || a == NINF, b == INF || b == NINF
	neg := (a < 0) != (b < 0)
	if ai || bi {
		if neg {
			return NINF
		}
		return INF
	}
	c := a * b
	if c/b != a {
		if neg {
			return NINF
		}
		return INF
	}
	return c
}

// ---------- applications ----------

var simpl map[string]func(t types.Type, a []*Term) *Term

func mkApp(name string, t types.Type, a ...*Term) *Term {
	if f := simpl[name]; f != nil {
		if r := f(t, a); r != nil {
			return r
		}
	}
	var x any
	if t != nil {
		x = t
	}
	return mk(OApp, name, 0, x, a, nil)
}

func appType(t *Term) types.Type {
	if t.x == nil {
		return nil
	}
	ty, _ := t.x.(types.Type)
	return ty
}

func notT(c *Term) *Term {
	switch c.op {
	case OBool:
		return boolC(c.n == 0)
	case ONot:
		return c.a[0]
	case OIn:
		return inT(c.a[0], c.x.(Set).not())
	}
	return mk(ONot, "", 0, nil, []*Term{c}, nil)
}

// inT builds the condition t in S, canonical in the linear form of t.
func inT(t *Term, s Set) *Term {
	l := linOf(t)
	s = s.shift(-l.c)
	l.c = 0
	if len(l.t) == 0 {
		return boolC(s.has(0))
	}
	if l.k[0] < 0 {
		l = addLin(lin{}, l, -1)
		s = s.neg()
	}
	if len(l.t) == 1 && l.k[0] > 1 { // k*x in S
		k := l.k[0]
		var r Set
		for _, v := range s {
			lo, hi := v.lo, v.hi
			if lo != NINF {
				lo = ceilDiv(lo, k)
			}
			if hi != INF {
				hi = floorDiv(hi, k)
			}
			if lo <= hi {
				r = r.or(between(lo, hi))
			}
		}
		s = r
		l.k = []int64{1}
	}
	if len(s) == 0 {
		return tFalse
	}
	if s.eq(full) {
		return tTrue
	}
	lt := l.term()
	// exclude unreachable values by type
	if tr := typeRange(lt); len(tr) > 0 {
		if tr.subset(s) {
			return tTrue
		}
		s2 := s.and(tr)
		if len(s2) == 0 {
			return tFalse
		}
		s = s2
	}
	return mk(OIn, "", 0, s, []*Term{lt}, nil)
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

func basicRange(t types.Type) Set {
	if t == nil {
		return nil
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	switch b.Kind() {
	case types.Int8:
		return between(-128, 127)
	case types.Int16:
		return between(-32768, 32767)
	case types.Int32:
		return between(math.MinInt32, math.MaxInt32)
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return Set{{NINF, INF}}
	case types.Uint8:
		return between(0, 255)
	case types.Uint16:
		return between(0, 65535)
	case types.Uint32:
		return between(0, math.MaxUint32)
	case types.Uint, types.Uint64, types.Uintptr:
		return between(0, INF)
	}
	return nil
}

func typeRange(t *Term) Set {
	switch t.op {
	case OSym:
		ty, _ := t.x.(types.Type)
		return basicRange(ty)
	case OApp:
		return basicRange(appType(t))
	}
	return nil
}

// ---------- substitution ----------

type subster struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
}

func newSubst(m map[*Term]*Term) *subster { return &subster{m, map[*Term]*Term{}} }

func (s *subster) do(t *Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := s.m[t]; ok {
		return r
	}
	if len(t.a) == 0 {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	changed := false
	na := make([]*Term, len(t.a))
	for i, a := range t.a {
		na[i] = s.do(a)
		if na[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, na)
	}
	s.memo[t] = r
	return r
}

func rebuild(t *Term, na []*Term) *Term {
	switch t.op {
	case OLin:
		r := lin{c: t.n}
		for i, a := range na {
			r = addLin(r, linOf(a), t.co[i])
		}
		return r.term()
	case OApp:
		return mkApp(t.s, appType(t), na...)
	case OPtr:
		return mkPtr(na[0], na[1])
	case OStr:
		return mkStr(na[0], na[1])
	case OIface:
		return mkIface(na[0], na[1])
	case OIn:
		return inT(na[0], t.x.(Set))
	case ONot:
		return notT(na[0])
	case OEq:
		return eqT(na[0], na[1])
	}
	return mk(t.op, t.s, t.n, t.x, na, nil)
}

func eqT(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, "", 0, nil, []*Term{a, b}, nil)
}

func collect(t *Term, seen map[*Term]bool) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.a {
		collect(a, seen)
	}
}

func containsAny(t *Term, set map[*Term]bool, memo map[*Term]bool) bool {
	if set[t] {
		return true
	}
	if len(t.a) == 0 {
		return false
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.a {
		if containsAny(a, set, memo) {
			r = true
			break
		}
	}
	memo[t] = r
	return r
}

// ---------- printing ----------

func (t *Term) String() string { return t.str(8) }
func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	args := func() string {
		var ss []string
		for _, a := range t.a {
			ss = append(ss, a.str(d-1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.op {
	case OInt:
		return fmt.Sprint(t.n)
	case OBool:
		return fmt.Sprint(t.n == 1)
	case OFloat:
		return t.s
	case ONil:
		return "nil"
	case OStrC:
		return fmt.Sprintf("%q", t.s)
	case OSym:
		return t.s
	case OLin:
		var sb strings.Builder
		for i, a := range t.a {
			k := t.co[i]
			switch {
			case k == 1 && i == 0:
			case k == 1:
				sb.WriteString("+")
			case k == -1:
				sb.WriteString("-")
			default:
				fmt.Fprintf(&sb, "%+d*", k)
			}
			sb.WriteString(a.str(d - 1))
		}
		if t.n != 0 {
			fmt.Fprintf(&sb, "%+d", t.n)
		}
		return "(" + sb.String() + ")"
	case OSlice:
		return "slice(" + args() + ")"
	case OStr:
		return "str(" + args() + ")"
	case OIface:
		return "iface(" + args() + ")"
	case OMkI:
		return "any[" + shortType(t.x.(types.Type)) + "](" + args() + ")"
	case OPtr:
		return "&(" + args() + ")"
	case OObj:
		return fmt.Sprintf("obj%d", t.n)
	case OFunc:
		return fmt.Sprint(t.x)
	case OClos:
		return fmt.Sprint(t.x) + "{" + args() + "}"
	case OStruct, OArr:
		return "{" + args() + "}"
	case OTuple:
		return "(" + args() + ")"
	case OApp:
		return t.s + "(" + args() + ")"
	case OTypeC:
		return "type:" + shortType(t.x.(types.Type))
	case OIn:
		return args() + "∈" + t.x.(Set).String()
	case ONot:
		return "!" + args()
	case OEq:
		return "(" + t.a[0].str(d-1) + " == " + t.a[1].str(d-1) + ")"
	case OPiece:
		if t.s == "lit" {
			return fmt.Sprintf("`%s`", t.x)
		}
		x := ""
		if t.x != nil {
			x = fmt.Sprint(t.x) + ";"
		}
		return t.s + "<" + x + args() + ">"
	}
	return "?"
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
