package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
)

// What a path knows about a float is tabulated: the facts of the path are
// computed for floats of every magnitude, for the ones around each number they
// are compared with, and for the infinities and NaN.

// jsonFloat is the text of a number, that of a number in JavaScript.
func jsonFloat(f float64, bits int) string {
	abs := math.Abs(f)
	format := byte('f')
	if abs != 0 && (bits == 64 && (abs < 1e-6 || abs >= 1e21) || bits == 32 && (float32(abs) < 1e-6 || float32(abs) >= 1e21)) {
		format = 'e'
	}
	b := strconv.AppendFloat(nil, f, format, -1, bits)
	if format == 'e' {
		if n := len(b); n >= 4 && b[n-4] == 'e' && b[n-3] == '-' && b[n-2] == '0' {
			b[n-2] = b[n-1]
			b = b[:n-1]
		}
	}
	return string(b)
}

var floatPool = map[bool][]float64{}

// floatSamples are the floats of a size for which facts are computed.
func floatSamples(f32 bool) []float64 {
	if p, ok := floatPool[f32]; ok {
		return p
	}
	r := []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), math.MaxFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32,
		1 << 53, 1<<53 + 2, 1 << 63, 1 << 24, 1 << 31, 0.1, 0.3, 100, 123.456, 1e6, 16777217}
	lo, hi := -323, 308
	if f32 {
		lo, hi = -44, 38
	} else {
		r = append(r, math.SmallestNonzeroFloat64, 2.2250738585072014e-308)
	}
	for x := lo; x <= hi; x++ {
		for _, m := range []string{"1", "1.5", "2.0000003", "7.123456789012345", "9.999999999999999"} {
			if v, err := strconv.ParseFloat(m+"e"+strconv.Itoa(x), 64); err == nil {
				r = append(r, v)
			}
		}
	}
	r = append(r, around(1e-6)...)
	r = append(r, around(1e21)...)
	r = signed(r, f32)
	floatPool[f32] = r
	return r
}

// around gives the floats of both sizes next to a number.
func around(k float64) []float64 {
	r := []float64{k, math.Nextafter(k, 0), math.Nextafter(k, math.Inf(1))}
	f := float32(k)
	r = append(r, float64(f), float64(math.Nextafter32(f, 0)), float64(math.Nextafter32(f, float32(math.Inf(1)))))
	for i := 10; i <= 50; i += 4 {
		d := math.Ldexp(1, -i)
		r = append(r, k*(1+d), k*(1-d))
	}
	return append(r, k+1, k-1, k*2, k/2)
}

func signed(l []float64, f32 bool) []float64 {
	seen := map[uint64]bool{}
	var r []float64
	for _, v := range l {
		for _, v := range []float64{v, -v} {
			if f32 {
				v = float64(float32(v))
			}
			if b := math.Float64bits(v); !seen[b] && (!math.IsNaN(v) || len(r) == 0) {
				seen[b] = true
				r = append(r, v)
			}
		}
	}
	return r
}

// floatEval computes the facts of a path for one float.
type floatEval struct {
	st    *State
	base  *Term // the float
	x     float64
	texts map[*Term]string
}

func (v *floatEval) num(t *Term) (num, bool) {
	t0 := t
	if t == v.base {
		return num{f: v.x, r: true}, true
	}
	switch t.op {
	case OInt:
		return num{i: t.n}, true
	case OFloat:
		return floatConst(t)
	case OLin:
		r := t.n
		for i, a := range t.a {
			n, ok := v.num(a)
			if !ok || n.r {
				return num{}, false
			}
			r += t.co[i] * n.i
		}
		return num{i: r}, true
	case OApp:
	default:
		return num{}, false
	}
	switch {
	case t.s == "fabs" && len(t.a) == 1, t.s == "fneg" && len(t.a) == 1, t.s == "fconv" && len(t.a) == 1:
		n, ok := v.num(t.a[0])
		if !ok || !n.r {
			return num{}, false
		}
		switch t.s {
		case "fabs":
			n.f = math.Abs(n.f)
		case "fneg":
			n.f = -n.f
		}
		if isF32(appType(t)) {
			n.f = float64(float32(n.f))
		}
		return n, true
	case (t.s == "fn:math.Trunc" || t.s == "fn:math.Floor" || t.s == "fn:math.Ceil") && len(t.a) == 1:
		n, ok := v.num(t.a[0])
		if !ok || !n.r {
			return num{}, false
		}
		switch t.s[8:] {
		case "Trunc":
			n.f = math.Trunc(n.f)
		case "Floor":
			n.f = math.Floor(n.f)
		case "Ceil":
			n.f = math.Ceil(n.f)
		}
		return n, true
	case t.s == "fbits" && len(t.a) == 1:
		n, ok := v.num(t.a[0])
		if !ok || !n.r {
			return num{}, false
		}
		return num{i: int64(math.Float64bits(n.f))}, true
	case t.s == "fbits32" && len(t.a) == 1:
		n, ok := v.num(t.a[0])
		if !ok || !n.r {
			return num{}, false
		}
		return num{i: int64(math.Float32bits(float32(n.f)))}, true
	case strings.HasPrefix(t.s, "ld4") && v.base.op == OApp && v.base.s == "ld4f" && len(t.a) == 2 && t.a[0] == v.base.a[0] && t.a[1] == v.base.a[1]:
		b := math.Float32bits(float32(v.x))
		if t.s == "ld4s" {
			return num{i: int64(int32(b))}, true
		}
		return num{i: int64(b)}, t.s == "ld4u"
	case strings.HasPrefix(t.s, "ld8") && v.base.op == OApp && v.base.s == "ld8f" && len(t.a) == 2 && t.a[0] == v.base.a[0] && t.a[1] == v.base.a[1]:
		return num{i: int64(math.Float64bits(v.x))}, true
	case t.s == "toklen:float" && len(t.a) == 4:
		s, ok := v.text(t.a)
		return num{i: int64(len(s))}, ok
	case t.s == "pbyte" && len(t.a) == 2:
		tok := v.st.res(t.a[0])
		if tok.op != OPiece && tok.op != OTuple && tok.op != OApp || tokKind(tok) != "float" {
			return num{}, false
		}
		s, ok := v.text(tokArgs(tok))
		off, k := v.st.constOf(t.a[1])
		if !ok || !k || off >= 0 || -off > int64(len(s)) {
			return num{}, false
		}
		return num{i: int64(s[int64(len(s))+off])}, true
	}
	if !arithmetic(t) {
		return num{}, false
	}
	m := map[*Term]num{v.base: {f: v.x, r: true}}
	for _, a := range t.a {
		n, ok := v.num(a)
		if !ok {
			return num{}, false
		}
		m[a] = n
	}
	return evalNum(t0, m, nil)
}

func floatConst(t *Term) (num, bool) {
	if f, err := strconv.ParseFloat(t.s, 64); err == nil {
		return num{f: f, r: true}, true
	}
	if q := rat(t.s); q != nil {
		f, _ := q.Float64()
		return num{f: f, r: true}, true
	}
	return num{}, false
}

// text is what strconv writes for the float.
func (v *floatEval) text(a []*Term) (string, bool) {
	if len(a) != 4 {
		return "", false
	}
	n, ok0 := v.num(a[0])
	fm, ok1 := v.st.constOf(a[1])
	pr, ok2 := v.st.constOf(a[2])
	bs, ok3 := v.st.constOf(a[3])
	if !ok0 || !ok1 || !ok2 || !ok3 || !n.r || bs != 32 && bs != 64 || pr < -1 || pr > 400 {
		return "", false
	}
	k := mkApp("text", nil, a...)
	if s, ok := v.texts[k]; ok {
		return s, true
	}
	s := strconv.FormatFloat(n.f, byte(fm), int(pr), int(bs))
	v.texts[k] = s
	return s, true
}

// holds computes a condition.
func (v *floatEval) holds(a *Term) (val, ok bool) {
	two := func() (x, y float64, ok bool) {
		p, ok1 := v.num(a.a[0])
		q, ok2 := v.num(a.a[1])
		if ok1 && !p.r && a.a[0].op == OInt {
			p = num{f: float64(p.i), r: true}
		}
		if ok2 && !q.r && a.a[1].op == OInt {
			q = num{f: float64(q.i), r: true}
		}
		return p.f, q.f, ok1 && ok2 && p.r && q.r
	}
	switch {
	case a.op == OIn:
		n, ok := v.num(a.a[0])
		return a.x.(Set).has(n.i), ok && !n.r
	case a.op != OApp:
		return false, false
	case a.s == "isinf" && len(a.a) == 2:
		n, ok := v.num(a.a[0])
		sg, k := v.st.constOf(a.a[1])
		if !ok || !n.r || !k {
			return false, false
		}
		return math.IsInf(n.f, int(sg)), true
	case a.s == "isnan" && len(a.a) == 1:
		n, ok := v.num(a.a[0])
		return math.IsNaN(n.f), ok && n.r
	case a.s == "signbit" && len(a.a) == 1:
		n, ok := v.num(a.a[0])
		return math.Signbit(n.f), ok && n.r
	case a.s == "feq" && len(a.a) == 2:
		x, y, ok := two()
		return x == y, ok
	case a.s == "flt" && len(a.a) == 2:
		x, y, ok := two()
		return x < y, ok
	case a.s == "fle" && len(a.a) == 2:
		x, y, ok := two()
		return x <= y, ok
	}
	return false, false
}

// floatBase is the float that a value is a conversion of.
func floatBase(v *Term) *Term { return unconv(v) }

// possible gives the floats of a list that a path can be taken with, and those
// for which a fact of the path is not understood.
func (st *State) possible(v *Term, list []float64) (r, maybe []float64) {
	base := floatBase(v)
	vague := false
	type test struct {
		t  *Term
		on bool
		s  Set
	}
	var ts []test
	for _, a := range sortedAtoms(st) {
		if a.op == OApp && strings.HasPrefix(a.s, "fn:bytes.") {
			vague = true // a test of the text
		}
		if a.op == OApp && a.s == "app" || !containsTerm(a, base) && !st.sameLoad(a, base) {
			continue
		}
		ts = append(ts, test{t: a, on: st.atoms[a]})
	}
	for _, t := range sortedRngs(st) {
		if containsTerm(t, base) || st.sameLoad(t, base) {
			ts = append(ts, test{t: t, s: st.rngs[t]})
		}
	}
	for _, x := range list {
		v := &floatEval{st: st, base: base, x: x, texts: map[*Term]string{}}
		good, sure := true, !vague
		for _, q := range ts {
			if q.s != nil {
				n, ok := v.num(q.t)
				if !ok {
					// the length of some buffer says nothing
					sure = sure && !hard(q.t, base)
				} else if !n.r && !q.s.has(n.i) {
					good = false
					break
				}
				continue
			}
			b, ok := v.holds(q.t)
			if !ok {
				sure = false
			} else if b != q.on {
				good = false
				break
			}
		}
		if good && sure {
			r = append(r, x)
		} else if good {
			maybe = append(maybe, x)
		}
	}
	return r, maybe
}

// sameLoad: does a term read the bits of the float?
func (st *State) sameLoad(t, base *Term) bool {
	if base.op != OApp || base.s != "ld8f" && base.s != "ld4f" {
		return false
	}
	for _, s := range []string{"u", "s"} {
		ty := types.Typ[types.Uint64]
		switch base.s[:3] + s {
		case "ld8s":
			ty = types.Typ[types.Int64]
		case "ld4u":
			ty = types.Typ[types.Uint32]
		case "ld4s":
			ty = types.Typ[types.Int32]
		}
		if containsTerm(t, mkApp(base.s[:3]+s, ty, base.a...)) {
			return true
		}
	}
	return false
}

// hard: is a number computed from the float other than the length of its text?
func hard(t, base *Term) bool {
	if t.op == OLin {
		for _, a := range t.a {
			if hard(a, base) {
				return true
			}
		}
		return false
	}
	return containsTerm(t, base) && !(t.op == OApp && strings.HasPrefix(t.s, "toklen:"))
}

// floatValues tabulates the floats that a path can be taken with.
func (st *State) floatValues(v *Term) (sure, maybe []float64) {
	base := floatBase(v)
	if base.op == OApp && strings.HasPrefix(base.s, "d.") {
		var l []float64
		for _, n := range durationSamples() {
			switch base.s {
			case "d.Seconds":
				l = append(l, time.Duration(n).Seconds())
			case "d.Minutes":
				l = append(l, time.Duration(n).Minutes())
			case "d.Hours":
				l = append(l, time.Duration(n).Hours())
			default:
				return nil, []float64{0, math.NaN()}
			}
		}
		return st.possible(v, l)
	}
	f32 := base.op == OApp && isF32(appType(base))
	l := floatSamples(f32)
	var more []float64
	for _, k := range st.floatConsts(base) {
		more = append(more, around(k)...)
	}
	if len(more) > 0 {
		l = append(append([]float64{}, l...), signed(more, f32)...)
	}
	return st.possible(v, l)
}

// floatConsts are the numbers that a float is compared with.
func (st *State) floatConsts(base *Term) []float64 {
	seen := map[float64]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == OFloat {
			if n, ok := floatConst(t); ok {
				seen[math.Abs(n.f)] = true
			}
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	for a := range st.atoms {
		if containsTerm(a, base) {
			walk(a)
		}
	}
	var r []float64
	for k := range seen {
		r = append(r, k)
	}
	sort.Float64s(r)
	return r
}

func durationSamples() []int64 {
	r := []int64{0, 1, 999, 1000, 1001, math.MaxInt64, math.MinInt64, 59999, 60000, 60001, 3599999, 3600000, 3600001, 35999999, 36000000}
	for k, p := 0, int64(1); k < 19; k, p = k+1, p*10 {
		r = append(r, p, 3*p, p-1, p+7)
	}
	n := len(r)
	for _, v := range r[:n] {
		r = append(r, -v)
	}
	return r
}

// floatKind tells whether a path can be taken with finite floats and with
// others: an example of each, or nil; and whether there may be more.
func (c *Ctx) floatKind(v *Term) (finite, other *float64, unknown bool) {
	vs, maybe := c.st.floatValues(v)
	for i := range vs {
		if math.IsNaN(vs[i]) || math.IsInf(vs[i], 0) {
			if other == nil {
				other = &vs[i]
			}
		} else if finite == nil {
			finite = &vs[i]
		}
	}
	return finite, other, len(maybe) > 0
}

// floatPart: can an item be a part of the text of a float?
func (st *State) floatPart(it item, base *Term) bool {
	p := it.p
	if p == nil {
		return strings.IndexByte("0123456789+-.eE", it.ch) >= 0
	}
	switch p.s {
	case "part":
		return len(p.a) == 3 && numTok(p.a[1]) && containsTerm(p.a[1], base)
	case "tok":
		return numTok(p) && containsTerm(p, base)
	case "byte":
		return containsTerm(st.res(p.a[0]), base)
	}
	return false
}

func numTok(t *Term) bool {
	if t.op != OPiece && t.op != OTuple && t.op != OApp {
		return false
	}
	switch tokKind(t) {
	case "float", "int", "uint":
		return true
	}
	return false
}

// assemble gives the text that items are for the float.
func (v *floatEval) assemble(its []item) (string, bool) {
	var b []byte
	for _, it := range its {
		p := it.p
		if p == nil {
			b = append(b, it.ch)
			continue
		}
		switch p.s {
		case "tok":
			s, ok := v.token(p)
			if !ok {
				return "", false
			}
			b = append(b, s...)
		case "part":
			s, ok := v.token(p.a[1])
			n, ok1 := v.num(v.st.res(p.a[0]))
			off, ok2 := v.num(v.st.res(p.a[2]))
			if !ok || !ok1 || !ok2 || off.i < 0 || n.i < 0 || off.i+n.i > int64(len(s)) {
				return "", false
			}
			b = append(b, s[off.i:off.i+n.i]...)
		case "byte":
			n, ok := v.num(v.st.res(p.a[0]))
			if !ok || n.r {
				return "", false
			}
			b = append(b, byte(n.i))
		default:
			return "", false
		}
	}
	return string(b), true
}

func (v *floatEval) token(t *Term) (string, bool) {
	a := tokArgs(t)
	if tokKind(t) == "float" {
		return v.text(a)
	}
	if len(a) < 2 {
		return "", false
	}
	n, ok1 := v.num(v.st.res(a[0]))
	b, ok2 := v.st.constOf(a[1])
	if !ok1 || !ok2 || n.r || b < 2 || b > 36 {
		return "", false
	}
	if tokKind(t) == "uint" {
		return strconv.FormatUint(uint64(n.i), int(b)), true
	}
	return strconv.FormatInt(n.i, int(b)), true
}

// floatText checks the text of a float on a path.
func (c *Ctx) floatText(v *Term, its []item, bits int64) *mres {
	vs, maybe := c.st.floatValues(v)
	if len(its) == 1 && its[0].p != nil && its[0].p.s == "tok" && tokKind(its[0].p) == "float" {
		for _, a := range tokArgs(its[0].p)[1:] {
			if _, ok := c.st.constOf(a); !ok {
				return mund("the format of the float")
			}
		}
	}
	for i, x := range append(append([]float64{}, vs...), maybe...) {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			continue
		}
		e := &floatEval{st: c.st, base: floatBase(v), x: x, texts: map[*Term]string{}}
		s, ok := e.assemble(its)
		if !ok {
			return mund("the text of the float")
		}
		if w := jsonFloat(x, int(bits)); s != w {
			if i >= len(vs) {
				return mund("whether %s is written as %s", w, s)
			}
			return mbad("%s is written as %s", w, s)
		}
	}
	return nil
}

// floatLeaf is the float that a number is computed from.
func floatLeaf(t *Term) *Term {
	for t.op == OApp && len(t.a) == 1 && (t.s == "fconv" || t.s == "fabs" || t.s == "fneg" || t.s == "f2i" || t.s == "wrap") {
		t = t.a[0]
	}
	return t
}

// floatPieces tells how many of the first pieces are the parts of a number: 1
// they are, 0 they are not always, -1 it is not known.
func (st *State) floatPieces(log []*Term) (n, yes int) {
	p := log[0]
	if p.s != "part" || len(p.a) != 3 || !numTok(p.a[1]) || tokKind(p.a[1]) != "float" {
		return 0, -1
	}
	base := floatLeaf(st.res(tokArgs(p.a[1])[0]))
	var its []item
	for ; n < len(log); n++ {
		q := log[n]
		if q.s == "lit" {
			if strings.Trim(q.x.(string), "0123456789+-.eE") != "" {
				break
			}
			for i := 0; i < len(q.x.(string)); i++ {
				its = append(its, item{ch: q.x.(string)[i]})
			}
			continue
		}
		it := item{p: q}
		if q.s == "byte" {
			if v, ok := st.constOf(q.a[0]); ok && v >= 0 && v < 256 {
				it = item{ch: byte(v)}
			}
		}
		if !st.floatPart(it, base) {
			break
		}
		its = append(its, it)
	}
	vs, maybe := st.floatValues(base)
	yes = 1
	for i, x := range append(append([]float64{}, vs...), maybe...) {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			continue
		}
		e := &floatEval{st: st, base: base, x: x, texts: map[*Term]string{}}
		s, ok := e.assemble(its)
		if !ok {
			return n, -1
		}
		if !json.Valid([]byte(s)) {
			if i >= len(vs) {
				return n, -1
			}
			yes = 0
		}
	}
	if len(vs)+len(maybe) == 0 {
		return n, 1 // no float takes the path
	}
	if finiteness(st, base) != 1 {
		return n, -1
	}
	return n, yes
}

func rat(s string) *big.Rat { q, _ := new(big.Rat).SetString(s); return q }

func showFloat(f *float64) string { return fmt.Sprint(*f) }
