package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Judge runs the reference automaton over the output of encoders.
type Judge struct {
	L      *Lab
	waived func(st *State) bool // paths on which nothing is promised
	strMk  map[*ssa.Function]int
	appOut map[string]jres
	memo   map[string]jres
	depth  int
	trust  map[string]bool
	steps  int
	opts   *Term
}

// jres is the result of running over a log.
type jres struct {
	out cfgSet
	bad []jbad
}

type jbad struct {
	what string
	und  bool // not decided, rather than broken
}

func newJudge(L *Lab) *Judge {
	return &Judge{L: L, strMk: map[*ssa.Function]int{}, appOut: map[string]jres{}, memo: map[string]jres{}, trust: map[string]bool{}}
}

func (r *jres) fail(format string, a ...any) {
	r.bad = append(r.bad, jbad{fmt.Sprintf(format, a...), false})
}
func (r *jres) und(format string, a ...any) {
	r.bad = append(r.bad, jbad{fmt.Sprintf(format, a...), true})
}

// errKind: is an outcome a success (1), a failure (-1) or either (0)?
func errKind(o Outcome) int {
	if len(o.ret) < 2 {
		return 1
	}
	r := o.st.res(o.ret[len(o.ret)-1])
	switch r.op {
	case OIface:
		if r.a[0] == tNil {
			return 1
		}
		return -1
	case ONil:
		return 1
	case OMkI:
		return -1
	case OApp:
		if r.s == "err" || r.s == "mkerr" {
			return -1
		}
	}
	switch o.st.decide(o.st.eqTerms(r, nilIface)) {
	case 1:
		return 1
	case 0:
		return -1
	}
	return 0
}

// tail returns the log of a result after the bytes the caller had.
func tail(e *Engine, o Outcome) (log []*Term, ok bool) {
	v := o.st.res(o.ret[0])
	if v.op != OSlice {
		return nil, false
	}
	ps := e.content(o.st, v)
	if len(ps) == 0 || ps[0].s != "raw" || !isDst(ps[0].a[0]) {
		return ps, false
	}
	return ps[1:], isInt(ps[0].a[1], 0) && isDstLen(ps[0])
}

func isDst(b *Term) bool {
	return b.op == OSym && (b.s == "dst.mem" || b.s == "buf.mem")
}

func isDstLen(p *Term) bool {
	return p.a[2].op == OSym && p.a[2].s == strings.TrimSuffix(p.a[0].s, ".mem")+".len"
}

func (j *Judge) feedStr(in cfgSet, s string, r *jres, what string) cfgSet {
	cur := in
	for i := 0; i < len(s); i++ {
		nx := cfgSet{}
		for _, c := range cur.list() {
			d, ok := c.feed(s[i])
			if !ok {
				r.fail("%s writes %q where %s", what, s[i:], c.describe())
				continue
			}
			nx[d] = true
		}
		cur = nx
	}
	return cur
}

// run feeds the pieces of a log.
func (j *Judge) run(x *Enc, st *State, log []*Term, in cfgSet) jres {
	r := jres{}
	cur := in
	for i := 0; i < len(log) && len(cur) > 0; i++ {
		p := log[i]
		if p.s == "part" {
			switch n, yes := st.floatPieces(log[i:]); yes {
			case 1:
				p = piece("tok", 0, "float", append([]*Term{pieceLen(p.a[1])}, tokArgs(p.a[1])...)...)
				i += n - 1
			case 0:
				r.fail("a part of the text of a float is written that is no number")
				cur = cfgSet{}
				continue
			}
		}
		cur = j.piece(x, st, p, cur, &r)
	}
	r.out = cur
	return r
}

// timeByte: is a byte computed from the calendar fields of a time?
func timeByte(t *Term) bool {
	if t.op == OApp && strings.HasPrefix(t.s, "t.") {
		return true
	}
	for _, a := range t.a {
		if timeByte(a) {
			return true
		}
	}
	return false
}

func (j *Judge) piece(x *Enc, st *State, p *Term, in cfgSet, r *jres) cfgSet {
	j.steps++
	out := cfgSet{}
	switch p.s {
	case "lit":
		return j.feedStr(in, p.x.(string), r, "the code")
	case "byte":
		set := st.rng(p.a[0]).and(between(0, 255))
		if timeByte(p.a[0]) {
			j.trust["the digits of times (C18)"] = true
			for _, c := range in.list() {
				if c.st == 's' {
					out[c] = true
				} else {
					r.fail("a digit of a time is written where %s", c.describe())
				}
			}
			return out
		}
		vals := j.byteVals(st, p.a[0], set)
		if vals == nil {
			r.und("a byte %s that is not known", p.a[0].str(4))
			return out
		}
		for _, v := range vals {
			for c := range j.feedStr(in, string([]byte{v}), r, "the code") {
				out[c] = true
			}
		}
		return out
	case "elem":
		for _, c := range in.list() {
			switch c.st {
			case 'v', 'a':
				d, _ := c.value()
				out[d] = true
			case 'o', 'k':
				switch j.makesString(x, st, p.a[1]) {
				case 1:
					d, _ := c.str()
					out[d] = true
				case 0:
					r.und("whether the key encoder %s writes a string", p.a[1].str(4))
				default:
					r.fail("a key is written by %s, which may write something else than a string", j.fnName(st, p.a[1]))
				}
			default:
				r.fail("a value is written by %s where %s", j.fnName(st, p.a[1]), c.describe())
			}
		}
		return out
	case "tok":
		for _, c := range in.list() {
			d, msg, und := j.token(st, p, c)
			if msg != "" {
				if und {
					r.und("%s", msg)
				} else {
					r.fail("%s", msg)
				}
				continue
			}
			out[d] = true
		}
		return out
	case "xform":
		for _, c := range in.list() {
			if c.st == 's' && p.x.(string) == "base64" {
				out[c] = true
			} else if c.st == 's' && p.x.(string) == "htmlescape" && len(p.a) > 1 {
				// what needs no escape inside a string still needs none
				s := j.run(x, st, p.a[1:], one(c))
				r.bad = append(r.bad, s.bad...)
				for d := range s.out {
					out[d] = true
				}
			} else {
				r.fail("%s text is written where %s", p.x, c.describe())
			}
		}
		return out
	case "app":
		for _, c := range in.list() {
			s := j.appender(x, st, p, c)
			r.bad = append(r.bad, s.bad...)
			for d := range s.out {
				out[d] = true
			}
		}
		return out
	case "sum":
		return j.sum(x, p, in, r)
	case "raw":
		return j.raw(x, st, p, in, r)
	case "zero":
		r.fail("unset bytes are written")
		return out
	case "part":
		r.und("a part of %s", p.a[1].str(4))
		return out
	}
	r.und("bytes that are not known (%s)", p.str(4))
	return out
}

// byteVals lists the values of a byte.
func (j *Judge) byteVals(st *State, t *Term, set Set) []byte {
	if t.op == OApp && t.s == "tblidx" && t.a[0].op == OStrC {
		tab := t.a[0].s
		ix := st.rng(t.a[1]).and(between(0, int64(len(tab)-1)))
		seen := map[byte]bool{}
		var r []byte
		for _, iv := range ix {
			for k := iv.lo; k <= iv.hi; k++ {
				if !seen[tab[k]] {
					seen[tab[k]] = true
					r = append(r, tab[k])
				}
			}
		}
		return r
	}
	var r []byte
	for _, iv := range set {
		for k := iv.lo; k <= iv.hi; k++ {
			r = append(r, byte(k))
		}
	}
	return r
}

func (j *Judge) fnName(st *State, t *Term) string {
	t = st.res(t)
	if f, ok := t.x.(*ssa.Function); ok {
		return shortName(f)
	}
	return t.str(4)
}

// token places a formatted token.
func (j *Judge) token(st *State, p *Term, c cfg) (d cfg, msg string, und bool) {
	kind, _ := p.x.(string)
	switch kind {
	case "int", "uint":
		if b, ok := st.constOf(p.a[2]); !ok || b != 10 {
			return c, "an integer is written in a base that is not known to be 10", !ok
		}
		fallthrough
	case "float":
		if c.st == 's' {
			return c, "", false
		}
		if d, ok := c.value(); ok {
			if kind == "float" {
				switch finiteness(st, p.a[1]) {
				case 0:
					return c, "a float that may be infinite or not a number is written as a number", false
				case -1:
					return d, "whether a float is infinite or not a number", true
				}
			}
			return d, "", false
		}
		return c, "a number is written where " + c.describe(), false
	case "quote":
		if c.st == 's' {
			return c, "text quoted with Go syntax is written inside a string", false
		}
		return c, "text quoted with Go syntax is written where " + c.describe(), false
	case "timefmt":
		if c.st == 's' {
			return c, "a time formatted with an arbitrary layout is written unescaped inside a string", false
		}
		return c, "a time formatted with an arbitrary layout is written where " + c.describe(), false
	case "duration":
		if c.st == 's' {
			return c, "", false
		}
		return c, "the text of a duration is written where " + c.describe(), false
	case "rune":
		s := st.rng(p.a[1])
		if c.st == 's' && len(s.and(between(0, 0x1f)).or(s.and(between('"', '"'))).or(s.and(between('\\', '\\')))) == 0 {
			return c, "", false
		}
		return c, "an arbitrary character is written where " + c.describe(), false
	}
	return c, "a token " + kind + " is written where " + c.describe(), true
}

// raw places a copy of bytes from elsewhere.
func (j *Judge) raw(x *Enc, st *State, p *Term, in cfgSet, r *jres) cfgSet {
	out := cfgSet{}
	base, lo, hi := p.a[0], p.a[1], p.a[2]
	if base.op == OApp && strings.HasPrefix(base.s, "ldsum:") && isInt(lo, 0) {
		// a fragment kept in a list
		rec, idx, ok := sumOf(base.a[0])
		if ok {
			off := base.a[len(base.a)-1].n
			n := 0
			for _, t := range rec.trans {
				for _, q := range t.logs[idx] {
					if q.s != "elt" {
						r.und("a list of fragments built with %s", q.str(3))
						return out
					}
					if t.from == -1 || j.isWaived(t.st) {
						continue
					}
					n++
					ps, ok := j.eltContent(t, idx, q, off)
					if !ok {
						r.und("the content of a list element (%s)", q.str(4))
						return out
					}
					s := j.run(x, t.st, ps, in)
					r.bad = append(r.bad, s.bad...)
					for c := range s.out {
						out[c] = true
					}
				}
			}
			if n == 0 {
				r.und("a list of fragments to which nothing is added")
			}
			return out
		}
	}
	if off, ok := j.L.memberLoad(base); ok && isInt(lo, 0) {
		for _, m := range j.L.members(off) {
			s := j.run(m.x, m.st, m.ps, in)
			r.bad = append(r.bad, s.bad...)
			for c := range s.out {
				out[c] = true
			}
		}
		if len(j.L.members(off)) == 0 {
			r.und("what is kept at offset %d of the field description", off)
		}
		return out
	}
	for _, c := range in.list() {
		switch c.st {
		case 'v', 'a':
			if v := j.validated(st, base, lo, hi); v != "" {
				j.trust[v] = true
				d, _ := c.value()
				out[d] = true
				continue
			}
			r.fail("bytes of %s that were not validated are written where %s", base.str(3), c.describe())
		case 's':
			if v := j.safeText(st, base, lo, hi); v != "" {
				j.trust[v] = true
				out[c] = true
				continue
			}
			r.fail("bytes of %s are written unescaped inside a string", base.str(3))
		default:
			r.fail("bytes of %s are written where %s", base.str(3), c.describe())
		}
	}
	return out
}

// validated: a check of exactly these bytes has succeeded on the path.
func (j *Judge) validated(st *State, base, lo, hi *Term) string {
	for a, v := range st.atoms {
		if !v || a.op != OApp {
			continue
		}
		if a.s == "jsonvalid" {
			for _, b := range a.a {
				if isContent(b, base, lo, hi) {
					return "json.Valid"
				}
			}
		}
		if strings.HasPrefix(a.s, "built:") && len(a.a) == 1 && isContent(a.a[0], base, lo, hi) {
			return strings.TrimPrefix(a.s, "built:")
		}
	}
	return ""
}

// safeText: text that needs no escape inside a string: a number that was
// checked, the name of a Go struct field, or a name whose characters were.
func (j *Judge) safeText(st *State, base, lo, hi *Term) string {
	if base.op == OApp && base.s == "strptr" && isInt(lo, 0) {
		if b := base.a[0]; b.op == OApp && b.s == "fld0" && len(b.a) == 1 && b.a[0].op == OApp && b.a[0].s == "rt.Field" {
			return "the name of a Go field"
		}
	}
	for a, v := range st.atoms {
		if !v || a.op != OApp || len(a.a) != 1 || !isContent(a.a[0], base, lo, hi) {
			continue
		}
		if n, ok := strings.CutPrefix(a.s, "built:"); ok {
			for _, f := range j.L.e.allFuncs() {
				if f.Name() == n && f.Parent() == nil {
					if j.L.oracle().numberPred[f] {
						return n
					}
					if j.safeChars(f) == 1 {
						return n
					}
				}
			}
		}
	}
	return ""
}

// safeChars: does a predicate hold only for strings without quotes, backslashes
// and control characters?
func (j *Judge) safeChars(f *ssa.Function) int {
	p := j.L.runePredOf(f)
	if p.why != "" || p.early != "" {
		return -1
	}
	for _, m := range p.accept {
		for c := range m {
			if c < 0x20 || c == '"' || c == '\\' || c == 0xfffd {
				return 0
			}
		}
	}
	return 1
}

// isContent: is a the string, slice or content [lo,hi) of base?
func isContent(a, base, lo, hi *Term) bool {
	switch a.op {
	case OStr, OSlice:
		b, off := ptrParts(a.a[0])
		return b == base && off == lo && addT(off, a.a[1]) == hi
	case OTuple:
		return len(a.a) == 1 && isContent(a.a[0], base, lo, hi)
	case OPiece:
		return a.s == "raw" && a.a[0] == base && a.a[1] == lo && a.a[2] == hi
	case OApp:
		return base.op == OApp && (base.s == "sptr" || base.s == "strptr") && base.a[0] == a && isInt(lo, 0)
	}
	return false
}

// sumOf decodes a sum piece.
func sumOf(p *Term) (rec *LoopRec, obj int64, ok bool) {
	if p.op != OPiece || p.s != "sum" {
		return nil, 0, false
	}
	rec, ok = p.x.(*LoopRec)
	return rec, p.n >> 16, ok
}

func (j *Judge) eltContent(t *Trans, obj int64, q *Term, off int64) ([]*Term, bool) {
	o := t.st.heap[obj]
	if o == nil {
		return nil, false
	}
	return j.L.e.leafContent(t.st, o.typ, q.a[0], off)
}

// leafContent is the content of the slice or string at an offset of a value.
func (e *Engine) leafContent(st *State, typ types.Type, v *Term, off int64) ([]*Term, bool) {
	ls := e.leaves(typ)
	fs := e.flatten(typ, v)
	for i, l := range ls {
		if l.off == off && i+1 < len(ls) && ls[i+1].off == off+8 {
			return e.contentAt(st, fs[i], fs[i+1], 1), true
		}
	}
	return nil, false
}

func (j *Judge) isWaived(st *State) bool { return j.waived != nil && j.waived(st) }

// sum runs the automaton through the iterations of a loop.
func (j *Judge) sum(x *Enc, p *Term, in cfgSet, r *jres) cfgSet {
	rec, obj, ok := sumOf(p)
	if !ok {
		r.und("the output of a loop that is not known")
		return cfgSet{}
	}
	head := int(p.n & 0xffff)
	key := fmt.Sprintf("%d/%d/%d/%s", rec.id, obj, head, in.key())
	if m, ok := j.memo[key]; ok {
		r.bad = append(r.bad, m.bad...)
		return m.out
	}
	res := jres{}
	at := map[int]cfgSet{}
	for i := range rec.heads {
		at[i] = cfgSet{}
	}
	done := map[string]bool{}
	seen := map[string]bool{}
	badSeen := map[string]bool{}
	addBad := func(bs []jbad) {
		for _, b := range bs {
			if k := fmt.Sprint(b); !badSeen[k] {
				badSeen[k] = true
				res.bad = append(res.bad, b)
			}
		}
	}
	for again := true; again; {
		again = false
		for ti, t := range rec.trans {
			src := in
			if t.from >= 0 {
				src = at[t.from]
			}
			if t.to < 0 || j.isWaived(t.st) {
				continue
			}
			for _, c := range src.list() {
				k := fmt.Sprintf("%d %s", ti, c)
				if done[k] {
					continue
				}
				done[k] = true
				s := j.run(x, t.st, t.logs[obj], one(c))
				addBad(s.bad)
				for d := range s.out {
					if !at[t.to][d] {
						at[t.to][d] = true
						again = true
					}
				}
			}
		}
	}
	_ = seen
	res.out = at[head]
	j.memo[key] = res
	r.bad = append(r.bad, res.bad...)
	return res.out
}

// appender runs a content appender, analysed on its own, from a configuration.
func (j *Judge) appender(x *Enc, st *State, p *Term, c cfg) jres {
	f := p.x.(*ssa.Function)
	switch j.L.classOf(f) {
	case "escape":
		j.trust[f.Name()] = true
		if c.st == 's' {
			return jres{out: one(c)}
		}
		return jres{bad: []jbad{{fmt.Sprintf("text escaped by %s is written where %s", f.Name(), c.describe()), false}}}
	case "compact":
		j.trust[f.Name()] = true
		d, ok := c.value()
		if !ok {
			return jres{bad: []jbad{{fmt.Sprintf("a value compacted by %s is written where %s", f.Name(), c.describe()), false}}}
		}
		if len(p.a) > 1 && p.a[1].op == OTuple && len(p.a[1].a) == 1 && p.a[1].a[0].s == "raw" {
			q := p.a[1].a[0]
			if v := j.validated(st, q.a[0], q.a[1], q.a[2]); v == "json.Valid" {
				return jres{out: one(d)}
			}
		}
		return jres{bad: []jbad{{fmt.Sprintf("JSON text that was not checked to be valid is written by %s", f.Name()), false}}}
	}
	key := f.String() + " " + c.String()
	if m, ok := j.appOut[key]; ok {
		return m
	}
	j.appOut[key] = jres{out: cfgSet{}} // recursion adds nothing
	y := j.L.function(f, j.L.r.encodeOpaque, false)
	res := jres{out: cfgSet{}}
	seen := map[string]bool{}
	for _, pr := range y.probs {
		res.und("%s: %s", f.Name(), pr)
	}
	for _, o := range y.outs {
		if errKind(o) < 0 || j.isWaived(o.st) {
			continue
		}
		log, ok := tail(j.L.e, o)
		if !ok {
			res.fail("%s does not keep what was in the buffer", f.Name())
			continue
		}
		s := j.run(y, o.st, log, one(c))
		for _, b := range s.bad {
			b.what = f.Name() + ": " + b.what
			if !seen[b.what] {
				seen[b.what] = true
				res.bad = append(res.bad, b)
			}
		}
		for d := range s.out {
			res.out[d] = true
		}
	}
	j.appOut[key] = res
	return res
}

// makesString: does an encoder write a JSON string? 1 yes, -1 no, 0 unknown.
func (j *Judge) makesString(x *Enc, st *State, fn *Term) int {
	fn = st.res(fn)
	switch fn.op {
	case OFunc, OClos:
		f := fn.x.(*ssa.Function)
		if fn.op == OFunc {
			return j.encMakesString(j.L.function(f, j.L.r.encodeOpaque, false))
		}
		return 0
	case OApp:
		if n, ok := strings.CutPrefix(fn.s, "built:"); ok {
			for f := range j.L.r.builders {
				if f.Name() == n {
					return j.builderMakesString(f)
				}
			}
		}
		return 0
	case OSym:
		if x == nil || len(x.uses) == 0 {
			return 0
		}
		res := 1
		for _, u := range x.uses {
			v := u.vals[fn]
			if v == nil {
				return 0
			}
			res = min(res, j.makesString(nil, u.b.st, v))
		}
		return res
	}
	return 0
}

func (j *Judge) builderMakesString(f *ssa.Function) int {
	if r, ok := j.strMk[f]; ok {
		return r
	}
	j.strMk[f] = 1
	if !j.L.r.keyB[f] {
		j.strMk[f] = -1
		return -1
	}
	res := 1
	x, bs := j.L.builds(f)
	if !x.ok() {
		res = 0
	}
	for _, b := range bs {
		if b.t == tNil {
			continue
		}
		y := j.L.encoder(x, b)
		if y == nil {
			res = min(res, 0)
			continue
		}
		res = min(res, j.encMakesString(y))
	}
	j.strMk[f] = res
	return res
}

func (j *Judge) encMakesString(y *Enc) int {
	res := 1
	if !y.ok() {
		res = 0
	}
	for _, o := range y.outs {
		if errKind(o) < 0 || j.isWaived(o.st) {
			continue
		}
		log, ok := tail(j.L.e, o)
		if !ok {
			return -1
		}
		s := j.run(y, o.st, log, one(cfg{stack: "{", st: 'k'}))
		for _, b := range s.bad {
			if b.und {
				res = min(res, 0)
			} else {
				return -1
			}
		}
		for c := range s.out {
			if c.st != 'c' {
				return -1
			}
		}
	}
	return res
}

// memberLoad recognises the load of a byte slice of a field description.
func (L *Lab) memberLoad(base *Term) (int64, bool) {
	if base.op != OApp || base.s != "ld8p" || len(base.a) < 2 || L.r.fieldT == nil {
		return 0, false
	}
	b := base.a[0]
	if b.op != OApp || b.s != "sptr" {
		return 0, false
	}
	sl, ok := appType2(b.a[0])
	if !ok {
		return 0, false
	}
	s, ok := sl.Underlying().(*types.Slice)
	if !ok || !types.Identical(s.Elem(), L.r.fieldT) {
		return 0, false
	}
	l := linOf(base.a[1])
	sz := L.e.sizes.Sizeof(L.r.fieldT)
	for _, k := range l.k {
		if k%sz != 0 {
			return 0, false
		}
	}
	return ((l.c % sz) + sz) % sz, true
}

func appType2(t *Term) (types.Type, bool) {
	ty, ok := t.x.(types.Type)
	return ty, ok
}

// Member is what is kept in a byte slice of a field description.
type Member struct {
	x  *Enc
	st *State
	ps []*Term
}
