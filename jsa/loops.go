package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops are summarised by a fixpoint: the values that change are replaced by
// symbols ("holes"), and the states at the loop head are joined until one more
// iteration adds nothing. What an iteration does to the buffers is recorded as
// a transition between head states; the properties are later decided on that
// transition system.

type LoopRec struct {
	id     int
	name   string
	fn     *ssa.Function
	pos    string
	heads  []*Head
	trans  []*Trans
	exits  int
	n      *Term // iteration counter, if used
	prefix map[int64][]*Term
	entry  *State
	fr     *frame
	skel   map[loc]*Term
	holes  []*Term
	iters  int
	start  map[loc]*Term   // coarse: values at the head
	init   map[*Term]*Term // coarse: values before the loop
	leave  []*State        // coarse: when it is left
}

type loopPhi struct {
	v ssa.Value
	t types.Type
}

func sortedLocs(m map[loc]types.Type) []loc {
	var r []loc
	for l := range m {
		r = append(r, l)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func (r *LoopRec) String() string { return fmt.Sprintf("loop%d@%s", r.id, r.pos) }

type Head struct {
	idx    int
	key    string
	p      *path
	tmpl   map[*Term]IV
	upd    map[*Term]int
	logs   map[int64][]*Term
	bind   map[*Term]*Term // discrete values
	joined bool
	forms  []*Term
	lens   map[*Term]bool // forms that are the length of a string or slice
}

type Trans struct {
	from, to int
	st       *State
	logs     map[int64][]*Term
	bind     map[*Term]*Term // value of each hole at the target
	p        *path
}

type loc struct {
	kind byte // v phi, c cell, l log, m map
	v    ssa.Value
	obj  int64
	off  int64
}

func (l loc) String() string {
	if l.kind == 'v' {
		return "v:" + l.v.Name()
	}
	return fmt.Sprintf("%c:%d+%d", l.kind, l.obj, l.off)
}

type bodyRes struct {
	backs []*path
	exits []edge
	rets  []Outcome
}

type fixer struct {
	e        *Engine
	fr       *frame
	rec      *LoopRec
	entry    *path
	phis     []*ssa.Phi
	body     func(p *path) bodyRes
	gen      map[loc]bool
	skel     map[loc]*Term
	typ      map[loc]types.Type
	holes    []*Term
	hset     map[*Term]bool
	iv       map[*Term]*Term // hole -> step
	noiv     map[*Term]bool
	N        *Term
	canon    map[string]int64
	lost     map[int64]bool
	capHole  map[*Term]bool
	lenHole  map[int64]*Term // log -> symbol for the length of its sum
	stateV   map[loc]bool
	consts   map[loc]map[int64]bool
	sawNil   map[loc]bool
	restart  bool
	ivBanned bool
	restarts int
	base     int
}

// termInt reports whether t is an integer term.
func termInt(t *Term) bool {
	switch t.op {
	case OInt, OLin:
		return true
	case OSym, OApp:
		ty := appType(t)
		if t.op == OSym {
			ty, _ = t.x.(types.Type)
		}
		return ty != nil && isIntT(ty)
	}
	return false
}

func termBool(t *Term) bool {
	switch t.op {
	case OBool, OIn, ONot, OEq:
		return true
	case OSym, OApp:
		ty, _ := t.x.(types.Type)
		if ty == nil {
			return false
		}
		b, ok := ty.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsBoolean != 0
	}
	return false
}

func (e *Engine) noteBranch(fr *frame, b *ssa.BasicBlock, c *Term, taken int, decided bool) {
	if u := e.unroll; u != nil && u.fr == fr && decided {
		in0, in1 := u.l.blocks[b.Succs[0]], u.l.blocks[b.Succs[1]]
		if in0 != in1 {
			if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && countsIterations(br.Cond, u.l, 6) {
				u.evidence = true
			}
		}
	}
}

type unrollCtx struct {
	fr       *frame
	l        *Loop
	evidence bool
}

// countsIterations reports whether a condition is computed from an integer
// variable of the loop, without memory or calls in between.
func countsIterations(v ssa.Value, l *Loop, d int) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || d == 0 || !l.blocks[in.Block()] {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return x.Block() == l.header && isIntT(x.Type())
	case *ssa.BinOp:
		return countsIterations(x.X, l, d-1) || countsIterations(x.Y, l, d-1)
	case *ssa.UnOp:
		return x.Op != token.MUL && countsIterations(x.X, l, d-1)
	case *ssa.Convert:
		return countsIterations(x.X, l, d-1)
	case *ssa.ChangeType:
		return countsIterations(x.X, l, d-1)
	}
	return false
}

// countedLoop reports whether a loop is left by a comparison of a variable
// it counts with to a number that was chosen before.
func countedLoop(l *Loop) bool {
	for b := range l.blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.blocks[b.Succs[0]] == l.blocks[b.Succs[1]] || !countsIterations(br.Cond, l, 6) {
			continue
		}
		if x, ok := br.Cond.(*ssa.BinOp); ok && (fixedBound(x.X, l) || fixedBound(x.Y, l)) {
			return true
		}
	}
	return false
}

// fixedBound reports whether a number is computed before the loop from
// something else than the length of a list.
func fixedBound(v ssa.Value, l *Loop) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		return !l.blocks[x.Block()]
	}
	return false
}

func geometric(l *Loop) bool {
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isIntT(phi.Type()) {
			continue
		}
		good, any := true, false
		for i, pr := range l.header.Preds {
			if !l.blocks[pr] {
				continue
			}
			any = true
			b, ok := phi.Edges[i].(*ssa.BinOp)
			if !ok || b.X != phi {
				good = false
				break
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok || c.Value == nil {
				good = false
				break
			}
			n := c.Int64()
			if !(b.Op.String() == "/" && n >= 2 || b.Op.String() == ">>" && n >= 1) {
				good = false
			}
		}
		if good && any {
			return true
		}
	}
	return false
}

const maxUnroll = 72

func (e *Engine) tryUnroll(fr *frame, l *Loop, p *path, rounds int) (exits []edge, rets []Outcome, ok bool) {
	geo := geometric(l)
	save := e.unroll
	defer func() { e.unroll = save }()
	cur := []*path{p}
	for it := 0; it < rounds; it++ {
		var next []*path
		for _, q := range cur {
			u := &unrollCtx{fr, l, false}
			e.unroll = u
			ne, r := e.runBlock(fr, q, l.header)
			ex, bk, r2 := e.region(fr, ne, l)
			exits = append(exits, ex...)
			rets = append(rets, r...)
			rets = append(rets, r2...)
			for _, b := range bk {
				e.enter(b)
				e.prune(fr, b.p, l.header)
				next = append(next, b.p)
			}
			if len(bk) > 0 && !u.evidence && !geo {
				return nil, nil, false
			}
		}
		if len(next) == 0 {
			return exits, rets, true
		}
		if len(next) > 300 {
			return nil, nil, false
		}
		cur = next
	}
	return nil, nil, false
}

// firstRounds follows only the first rounds of a loop, without an invariant.
func (e *Engine) firstRounds(fr *frame, l *Loop, p *path) (exits []edge, rets []Outcome) {
	save := e.unroll
	e.unroll = nil
	defer func() { e.unroll = save }()
	cur := []*path{p}
	for it := 0; it < e.rounds && len(cur) > 0; it++ {
		var next []*path
		for _, q := range cur {
			ne, r := e.runBlock(fr, q, l.header)
			ex, bk, r2 := e.region(fr, ne, l)
			exits = append(exits, ex...)
			rets = append(append(rets, r...), r2...)
			for _, b := range bk {
				e.enter(b)
				e.prune(fr, b.p, l.header)
				next = append(next, b.p)
			}
			if e.steps > e.maxSteps {
				return
			}
		}
		if len(next) > 60 {
			next = next[:60]
		}
		cur = next
	}
	return
}

func (e *Engine) runLoop(fr *frame, l *Loop, ed edge) (exits []edge, rets []Outcome) {
	e.enter(ed)
	e.prune(fr, ed.p, l.header)
	rounds := maxUnroll
	if e.coarse {
		rounds = 0
		if l.parent != nil && countedLoop(l) {
			rounds = 6
		}
	}
	if rounds > 0 {
		if ex, r, ok := e.tryUnroll(fr, l, ed.p.clone(), rounds); ok {
			return ex, r
		}
	}
	if e.rounds > 0 {
		return e.firstRounds(fr, l, ed.p)
	}
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			phis = append(phis, phi)
		}
	}
	save := e.unroll
	e.unroll = nil
	defer func() { e.unroll = save }()
	body := func(p *path) bodyRes {
		ne, r := e.runBlock(fr, p, l.header)
		ex, bk, r2 := e.region(fr, ne, l)
		var res bodyRes
		res.exits = ex
		res.rets = append(r, r2...)
		for _, b := range bk {
			e.enter(b)
			e.prune(fr, b.p, l.header)
			res.backs = append(res.backs, b.p)
		}
		return res
	}
	name := fr.fn.String()
	pos := e.pos(l.header.Instrs[0])
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			pos = e.pos(in)
		}
	}
	return e.fix(fr, name, pos, phis, ed.p, body)
}

func (e *Engine) fix(fr *frame, name, pos string, phis []*ssa.Phi, entry *path, body func(p *path) bodyRes) ([]edge, []Outcome) {
	if e.coarse {
		var lps []*loopPhi
		for _, phi := range phis {
			lps = append(lps, &loopPhi{phi, phi.Type()})
		}
		return e.coarseFix(fr, name, pos, lps, entry, body)
	}
	f := &fixer{e: e, fr: fr, entry: entry, phis: phis, body: body, gen: map[loc]bool{}, skel: map[loc]*Term{}, typ: map[loc]types.Type{},
		hset: map[*Term]bool{}, iv: map[*Term]*Term{}, noiv: map[*Term]bool{}, canon: map[string]int64{}, lost: map[int64]bool{},
		lenHole: map[int64]*Term{}, capHole: map[*Term]bool{}, stateV: map[loc]bool{}, consts: map[loc]map[int64]bool{}, sawNil: map[loc]bool{}}
	for _, phi := range phis {
		l := loc{kind: 'v', v: phi}
		f.gen[l] = true
		f.typ[l] = phi.Type()
		if isIntT(phi.Type()) && constPhi(phi, map[ssa.Value]bool{}) {
			f.stateV[l] = true
		}
		if b, ok := phi.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			f.stateV[l] = true
		}
	}
	for {
		e.loopSeq++
		f.rec = &LoopRec{id: e.loopSeq, name: name, fn: fr.fn, pos: pos, prefix: map[int64][]*Term{}, entry: entry.st, fr: fr}
		f.restart = false
		exits, rets := f.run()
		if !f.restart {
			if f.discoverIV() {
				continue
			}
			f.rec.skel = f.skel
			f.rec.holes = f.holes
			f.rec.n = f.N
			e.recs = append(e.recs, f.rec)
			return exits, rets
		}
		f.restarts++
		if f.restarts > 60 {
			e.problem("loop at %s does not stabilise", pos)
			return nil, nil
		}
		if e.steps > e.maxSteps {
			return nil, nil
		}
	}
}

func constPhi(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !constPhi(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func (f *fixer) get(p *path, l loc) *Term {
	switch l.kind {
	case 'v':
		if t := p.env[l.v]; t != nil {
			return p.st.res(t)
		}
	case 'c':
		if o := p.st.heap[l.obj]; o != nil {
			if v, ok := o.cells[l.off]; ok {
				return p.st.res(v)
			}
			if o.zero {
				return nil
			}
		}
	}
	return nil
}

func (f *fixer) locs() []loc {
	var r []loc
	for l := range f.gen {
		r = append(r, l)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func (f *fixer) run() (exits []edge, rets []Outcome) {
	f.rec.heads = nil
	var queue []int
	inq := map[int]bool{}
	push := func(i int) {
		if !inq[i] {
			inq[i] = true
			queue = append(queue, i)
		}
	}
	for _, p := range f.splits(f.entry.clone()) {
		f.instance(p, -1, push)
		if f.restart {
			return
		}
	}
	type result struct {
		exits []edge
		rets  []Outcome
	}
	results := map[int]result{}
	n := 0
	for len(queue) > 0 {
		h := queue[0]
		queue = queue[1:]
		inq[h] = false
		n++
		if n > 200 || len(f.rec.heads) > 64 {
			f.e.problem("too many loop states at %s", f.rec.pos)
			break
		}
		// drop former transitions of this head
		var tr []*Trans
		for _, t := range f.rec.trans {
			if t.from != h {
				tr = append(tr, t)
			}
		}
		f.rec.trans = tr
		hd := f.rec.heads[h]
		p := hd.p.clone()
		ok := true
		for _, form := range sortedForms(hd.tmpl) {
			iv := hd.tmpl[form]
			if iv.lo == NINF && iv.hi == INF {
				continue
			}
			if have := p.st.bound(form); have.lo >= iv.lo && have.hi <= iv.hi {
				continue
			}
			if !p.st.assumeIn(form, Set{iv}) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		evs, nrec := len(f.e.events), len(f.e.recs)
		_ = evs
		_ = nrec
		r := f.body(p)
		if f.e.steps > f.e.maxSteps {
			return nil, nil
		}
		results[h] = result{r.exits, r.rets}
		for _, b := range r.backs {
			for _, q := range f.splits(b) {
				f.instance(q, h, push)
				if f.restart {
					return nil, nil
				}
			}
		}
	}
	for i := range f.rec.heads {
		exits = append(exits, results[i].exits...)
		rets = append(rets, results[i].rets...)
	}
	f.rec.iters = n
	return
}

func sortedForms(m map[*Term]IV) []*Term {
	var ks []*Term
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := len(linOf(ks[i]).t), len(linOf(ks[j]).t)
		if a != b {
			return a < b
		}
		return ks[i].id < ks[j].id
	})
	return ks
}

// splits makes booleans and nil-ness of the loop variables definite.
func (f *fixer) splits(p *path) []*path {
	work := []*path{p}
	var done []*path
next:
	for len(work) > 0 {
		q := work[len(work)-1]
		work = work[:len(work)-1]
		for _, l := range f.locs() {
			v := f.get(q, l)
			if v == nil {
				continue
			}
			if termBool(v) && v.op != OBool {
				switch q.st.decide(v) {
				case 1:
					f.put(q, l, tTrue)
				case 0:
					f.put(q, l, tFalse)
				default:
					r := q.clone()
					if r.st.assume(v, false) {
						f.put(r, l, tFalse)
						work = append(work, r)
					}
					if q.st.assume(v, true) {
						f.put(q, l, tTrue)
						work = append(work, q)
					}
					continue next
				}
			}
			if f.sawNil[l] && !termInt(v) && !termBool(v) {
				c := f.nilCond(q, v)
				if c != nil && q.st.decide(c) < 0 {
					r := q.clone()
					if r.st.assume(c, true) {
						switch v.op {
						case OSlice:
							f.put(r, l, nilSlice)
						case OApp, OSym:
							if w := r.st.res(v); w == tNil || w == nilIface {
								f.put(r, l, w)
							}
						}
						work = append(work, r)
					}
					if q.st.assume(c, false) {
						work = append(work, q)
					}
					continue next
				}
			}
		}
		done = append(done, q)
		if len(done) > 200 {
			break
		}
	}
	return done
}

func (f *fixer) nilCond(p *path, v *Term) *Term {
	switch v.op {
	case OSlice:
		return p.st.eqTerms(v, nilSlice)
	case OIface, OMkI:
		return p.st.eqTerms(v, nilIface)
	case OStr, OStrC, OStruct, OArr, OTuple, OFloat:
		return nil
	}
	return p.st.eqTerms(v, tNil)
}

func (f *fixer) put(p *path, l loc, v *Term) {
	switch l.kind {
	case 'v':
		p.env[l.v] = v
	case 'c':
		if o := p.st.heap[l.obj]; o != nil {
			o = p.st.mut(o)
			o.cells[l.off] = v
		}
	}
}

func (f *fixer) hole(t types.Type) *Term {
	h := fresh("h", t)
	f.holes = append(f.holes, h)
	f.hset[h] = true
	return h
}

// match binds the holes of skeleton s so that it becomes v.
func (f *fixer) match(st *State, s, v *Term, b map[*Term]*Term) bool {
	if s == v && !f.hasHole(s) {
		return true
	}
	if f.hset[s] || s == f.N {
		if o, ok := b[s]; ok {
			return o == v || (termInt(v) && termInt(o) && st.eqInt(o, v))
		}
		if termInt(s) != termInt(v) {
			return false
		}
		b[s] = v
		return true
	}
	if termInt(s) && termInt(v) {
		l := linOf(s)
		var un *Term
		var k int64
		for i, t := range l.t {
			if (f.hset[t] || t == f.N) && b[t] == nil {
				if un != nil {
					return false
				}
				un, k = t, l.k[i]
			} else if !f.hset[t] && t != f.N && f.hasHole(t) {
				if s.op == OLin {
					return false
				}
			}
		}
		if un == nil {
			if !f.hasHole(s) {
				return st.eqInt(s, v)
			}
			if s.op == OLin || f.hset[s] {
				return st.eqInt(newSubst(b).do(s), v)
			}
		} else {
			rest := lin{c: l.c}
			for i, t := range l.t {
				if t == un {
					continue
				}
				if r := b[t]; r != nil {
					rest = addLin(rest, linOf(r), l.k[i])
				} else {
					rest = addLin(rest, linOf(t), l.k[i])
				}
			}
			d := subT(v, rest.term())
			if k < 0 {
				d, k = mulC(d, -1), -k
			}
			q, r, ok := divLin(d, k)
			if !ok || r != 0 {
				return false
			}
			b[un] = q
			return true
		}
	}
	if s.op == OPtr || v.op == OPtr {
		sb, so := ptrParts(s)
		vb, vo := ptrParts(v)
		if sb == s && f.hasHole(s) && !(f.hset[s]) && v.op == OPtr && s.op != OPtr {
			return false
		}
		if sb == tNil || vb == tNil {
			return sb == vb && so == vo
		}
		if (s.op == OPtr || so == tZero) && (sb != s || vb != v) {
			return f.match(st, st.res(sb), st.res(vb), b) && f.match(st, so, vo, b)
		}
	}
	if (s.op == OStr || s.op == OStrC) && (v.op == OStr || v.op == OStrC) {
		sp, sl := strParts(s)
		vp, vl := strParts(v)
		return f.match(st, sp, vp, b) && f.match(st, sl, vl, b)
	}
	if s.op != v.op || s.s != v.s || len(s.a) != len(v.a) || len(s.a) == 0 || auxKey(s.x) != auxKey(v.x) {
		return false
	}
	if s.op != OPiece && s.n != v.n {
		return false
	}
	for i := range s.a {
		if !f.match(st, st.res(s.a[i]), st.res(v.a[i]), b) {
			return false
		}
	}
	return true
}

func (f *fixer) hasHole(t *Term) bool {
	seen := map[*Term]bool{}
	collect(t, seen)
	for h := range seen {
		if f.hset[h] || h == f.N {
			return true
		}
	}
	return false
}

// au generalises skeleton s so that it covers v as well.
func (f *fixer) au(st *State, s, v *Term, t types.Type) *Term {
	b := map[*Term]*Term{}
	if f.match(st, s, v, b) {
		return s
	}
	if f.hset[s] {
		return f.hole(nil)
	}
	if termInt(s) && termInt(v) {
		if s.op == OApp && v.op == OApp && s.s == v.s && len(s.a) == len(v.a) && (s.s == "byte" || s.s == "mul") {
			// keep the structure of reads
			na := make([]*Term, len(s.a))
			for i := range s.a {
				na[i] = f.au(st, s.a[i], v.a[i], nil)
			}
			return rebuild(s, na)
		}
		ty := t
		if ty == nil || !isIntT(ty) {
			ty = types.Typ[types.Int]
		}
		if s == tNil || v == tNil {
			ty = nil
		}
		return f.hole(ty)
	}
	if s.op == OPtr || v.op == OPtr {
		sb, so := ptrParts(s)
		vb, vo := ptrParts(v)
		if sb != tNil && vb != tNil && (sb == vb || (sb.op == vb.op && sb.s == vb.s && len(sb.a) == len(vb.a) && len(sb.a) > 0)) {
			nb := f.au(st, sb, vb, nil)
			no := f.au(st, so, vo, nil)
			return mkPtr(nb, no)
		}
		return f.hole(t)
	}
	if (s.op == OStr || s.op == OStrC) && (v.op == OStr || v.op == OStrC) {
		sp, sl := strParts(s)
		vp, vl := strParts(v)
		return mk(OStr, "", 0, nil, []*Term{f.au(st, sp, vp, nil), f.au(st, sl, vl, nil)}, nil)
	}
	if s.op == OIface || v.op == OIface || s.op == OMkI || v.op == OMkI {
		if s.op == OMkI && v.op == OMkI && s.n == v.n && auxKey(s.x) == auxKey(v.x) {
			return mkI(s.x.(types.Type), f.au(st, s.a[0], v.a[0], nil))
		}
		return f.hole(t)
	}
	if s.op == OSlice && v.op == OSlice {
		c := f.au(st, s.a[2], v.a[2], nil)
		if f.hset[c] {
			f.capHole[c] = true
		}
		return mkSlice(f.au(st, s.a[0], v.a[0], nil), f.au(st, s.a[1], v.a[1], nil), c)
	}
	if s.op == v.op && s.s == v.s && s.n == v.n && len(s.a) == len(v.a) && len(s.a) > 0 && auxKey(s.x) == auxKey(v.x) && s.op != OLin {
		na := make([]*Term, len(s.a))
		for i := range s.a {
			na[i] = f.au(st, s.a[i], v.a[i], nil)
		}
		return rebuild(s, na)
	}
	return f.hole(t)
}

// discrete returns the key part for a value and whether the value is kept as it is.
func (f *fixer) discrete(p *path, l loc, v *Term) (string, bool) {
	if v == nil {
		return "z", true
	}
	if v.op == OBool {
		return fmt.Sprintf("b%d", v.n), true
	}
	if v == tNil || v == nilIface || v == nilSlice {
		f.sawNil[l] = true
		return "nil", true
	}
	if v.op == OSlice && v.a[0] == tNil && isInt(v.a[1], 0) {
		f.sawNil[l] = true
		return "nil", true
	}
	if v.op == OInt && f.stateV[l] {
		m := f.consts[l]
		if m == nil {
			m = map[int64]bool{}
			f.consts[l] = m
		}
		m[v.n] = true
		if len(m) > 6 {
			f.stateV[l] = false
			f.restart = true
			return "", false
		}
		return fmt.Sprintf("c%d", v.n), true
	}
	return "", false
}

func (f *fixer) addGen(l loc, t types.Type) {
	if !f.gen[l] {
		f.gen[l] = true
		f.typ[l] = t
		f.restart = true
	}
}

// instance joins a path arriving at the loop head.
func (f *fixer) instance(p *path, from int, push func(int)) {
	e, rec := f.e, f.rec
	st := p.st
	entryHeap := f.entry.st.heap
	f.canonise(p)
	// what changed in memory
	for id, o := range st.heap {
		eo := entryHeap[id]
		if eo == nil || eo == o {
			continue
		}
		if eo.kind == KCells {
			for off, v := range o.cells {
				ev, ok := eo.cells[off]
				if ok && ev == v {
					continue
				}
				if !ok && !eo.zero {
					continue // read of unset memory
				}
				l := loc{kind: 'c', obj: id, off: off}
				if f.gen[l] {
					continue
				}
				if !ok {
					ev = nil
				}
				if ev != nil && st.res(ev) == st.res(v) {
					continue
				}
				f.addGen(l, nil)
			}
			for off := range eo.cells {
				if _, ok := o.cells[off]; !ok {
					e.problem("memory cell forgotten in the loop at %s", rec.pos)
				}
			}
		} else if eo.kind == KLog {
			same := len(eo.log) == len(o.log) && len(o.wlog) == len(eo.wlog)
			if same {
				for i := range o.log {
					if o.log[i] != eo.log[i] {
						same = false
					}
				}
			}
			if !same {
				f.addGen(loc{kind: 'l', obj: id}, nil)
			}
		} else if len(eo.ents) != len(o.ents) {
			f.addGen(loc{kind: 'm', obj: id}, nil)
		}
	}
	if f.restart {
		return
	}
	// trailing content of byte buffers that no slice covers any more
	locs := f.locs()
	for _, l := range locs {
		v := f.get(p, l)
		if v == nil || v.op != OSlice {
			continue
		}
		if o := st.obj(baseOf(v.a[0])); o != nil && o.kind == KLog && isByteT(o.typ) && f.gen[loc{kind: 'l', obj: o.id}] {
			_, off := ptrParts(v.a[0])
			if isInt(off, 0) && !st.eqInt(v.a[1], logTotal(o.log)) {
				if l2, _, ok := st.cut(o.log, v.a[1]); ok {
					o = st.mut(o)
					o.log = st.norm(l2)
				}
			}
		}
	}
	// key
	var kb strings.Builder
	disc := map[loc]bool{}
	for _, l := range locs {
		switch l.kind {
		case 'v', 'c':
			v := f.get(p, l)
			k, d := f.discrete(p, l, v)
			if f.restart {
				return
			}
			if d {
				disc[l] = true
			}
			if k == "" && v != nil && v.op == OSlice {
				k = "s"
			}
			kb.WriteString(k + ";")
		case 'l':
			o := st.heap[l.obj]
			if o == nil {
				continue
			}
			g := "0"
			pre := f.prefixOf(l.obj)
			if !f.lost[l.obj] {
				if len(o.log) != len(pre) || len(o.wlog) > 0 {
					g = "1"
				} else {
					for i := range pre {
						if pre[i] != o.log[i] {
							g = "1"
						}
					}
				}
			}
			kb.WriteString("g" + g + ";")
		case 'm':
			kb.WriteString("m;")
		}
	}
	for _, k := range sortedKeys(st.tags) {
		if f.entry.st.tags[k] != st.tags[k] {
			fmt.Fprintf(&kb, "%s=%d;", k, st.tags[k].id)
		}
	}
	key := kb.String()
	// bind
	bind := map[*Term]*Term{}
	newLogs := map[int64][]*Term{}
	for _, l := range locs {
		if l.kind != 'l' {
			continue
		}
		o := st.heap[l.obj]
		if o == nil {
			continue
		}
		pre := f.prefixOf(l.obj)
		h := f.lenHole[l.obj]
		if h == nil {
			h = f.hole(types.Typ[types.Int])
			f.lenHole[l.obj] = h
			f.restart = true
			return
		}
		var base []*Term
		if from >= 0 {
			base = rec.heads[from].logs[l.obj]
		} else {
			base = pre
		}
		if len(o.wlog) > 0 && !f.lost[l.obj] {
			f.loseLog(l.obj)
			return
		}
		if !f.lost[l.obj] {
			if len(o.log) < len(base) {
				f.loseLog(l.obj)
				return
			}
			ok := true
			var nw []*Term
			for i := range base {
				if o.log[i] != base[i] {
					// a literal may have been extended in place
					if i == len(base)-1 && base[i].s == "lit" && o.log[i].s == "lit" && strings.HasPrefix(o.log[i].x.(string), base[i].x.(string)) {
						nw = append(nw, lit(o.log[i].x.(string)[len(base[i].x.(string)):]))
						continue
					}
					if i == len(base)-1 && base[i].s == "raw" && o.log[i].s == "raw" && base[i].a[0] == o.log[i].a[0] && base[i].a[1] == o.log[i].a[1] {
						nw = append(nw, rawPiece(base[i].a[0], base[i].a[2], o.log[i].a[2]))
						continue
					}
					ok = false
				}
			}
			if !ok {
				f.loseLog(l.obj)
				if e.trace {
					fmt.Printf("  loop %s: log %d lost: %s / %s\n", rec.pos, l.obj, logString(base), logString(o.log))
				}
				return
			}
			newLogs[l.obj] = append(nw, o.log[len(base):]...)
			bind[h] = subT(logTotal(o.log), logTotal(pre))
		} else {
			bind[h] = logTotal(o.log)
		}
	}
	for _, l := range locs {
		if l.kind != 'v' && l.kind != 'c' || disc[l] {
			continue
		}
		v := f.get(p, l)
		s := f.skel[l]
		if s == nil {
			s = f.fullLen(p, v)
			f.skel[l] = s
		}
		if !f.match(st, s, v, bind) {
			f.unIV(s)
			s = f.skel[l]
			ns := s
			if !f.hasIV(s) {
				ns = f.au(st, s, v, f.typ[l])
				if w := f.fullLen(p, v); w != v && ns.op == OSlice {
					ns = mkSlice(ns.a[0], w.a[1], ns.a[2])
				}
			}
			if ns == s && f.hasHole(s) {
				// it shares a hole with a variable that moved differently
				seen, ren := map[*Term]bool{}, map[*Term]*Term{}
				collect(s, seen)
				for h := range seen {
					if f.hset[h] {
						ren[h] = nil
					}
				}
				for _, h := range termKeys(ren) {
					ht, _ := h.x.(types.Type)
					ren[h] = f.hole(ht)
				}
				if len(ren) > 0 {
					ns = newSubst(ren).do(s)
				}
			}
			f.skel[l] = ns
			f.restart = true
			if e.trace {
				fmt.Printf("  loop %s: %s: %s vs %s -> %s\n", rec.pos, l, s, v, ns)
			}
			return
		}
	}
	if f.N != nil {
		if bind[f.N] == nil {
			if from < 0 {
				bind[f.N] = tZero
			} else {
				bind[f.N] = addT(f.N, tOne)
			}
		}
		want := tZero
		if from >= 0 {
			want = addT(f.N, tOne)
		}
		if !st.eqInt(bind[f.N], want) {
			f.dropAllIV()
			return
		}
	}
	// find or make the head
	var hd *Head
	for _, h := range rec.heads {
		if h.key == key {
			hd = h
		}
	}
	changed := false
	if hd == nil {
		hd = f.newHead(p, key, disc)
		changed = true
	}
	if f.join(p, hd, bind) {
		changed = true
	}
	tr := &Trans{from, hd.idx, st, newLogs, bind, p}
	rec.trans = append(rec.trans, tr)
	if changed {
		push(hd.idx)
	}
}

func termKeys(m map[*Term]*Term) []*Term {
	var ks []*Term
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

// loseLog gives up on the content of a log.
func (f *fixer) loseLog(id int64) {
	f.lost[id] = true
	f.restart = true
	f.skel = map[loc]*Term{}
	if f.N != nil {
		f.N = nil
		f.ivBanned = true
	}
}

// fullLen writes the length of a slice that covers a whole log in terms of the
// length of what the loop appended to it.
func (f *fixer) fullLen(p *path, v *Term) *Term {
	if v.op != OSlice {
		return v
	}
	b, off := ptrParts(v.a[0])
	o := p.st.obj(b)
	if o == nil || o.kind != KLog || !isInt(off, 0) {
		return v
	}
	h := f.lenHole[o.id]
	if h == nil || !p.st.eqInt(v.a[1], logTotal(o.log)) {
		return v
	}
	n := h
	if !f.lost[o.id] {
		n = addT(logTotal(f.prefixOf(o.id)), h)
	}
	return mkSlice(v.a[0], n, v.a[2])
}

func (f *fixer) prefixOf(id int64) []*Term {
	if o := f.entry.st.heap[id]; o != nil {
		return o.log
	}
	return nil
}

func (f *fixer) hasIV(s *Term) bool {
	if f.N == nil {
		return false
	}
	seen := map[*Term]bool{}
	collect(s, seen)
	return seen[f.N]
}

func (f *fixer) unIV(s *Term) {
	if f.hasIV(s) {
		f.dropAllIV()
	}
}

// dropAllIV gives up induction variables.
func (f *fixer) dropAllIV() {
	if f.N == nil {
		return
	}
	f.noiv[f.N] = true
	m := map[*Term]*Term{f.N: f.hole(types.Typ[types.Int])}
	sb := newSubst(m)
	for l, s := range f.skel {
		f.skel[l] = sb.do(s)
	}
	for l, s := range f.lenHole {
		f.lenHole[l] = sb.do(s)
	}
	f.N = nil
	f.ivBanned = true
	f.restart = true
}

// canonise renames objects made by the loop body that stay reachable.
func (f *fixer) canonise(p *path) {
	st := p.st
	entryHeap := f.entry.st.heap
	known := map[int64]bool{}
	for _, id := range f.canon {
		known[id] = true
	}
	ren := map[*Term]*Term{}
	visited := map[int64]bool{}
	var visitVal func(v *Term, where string)
	visitObj := func(id int64, where string) {
		if visited[id] || entryHeap[id] != nil {
			return
		}
		visited[id] = true
		o := st.heap[id]
		if o == nil {
			return
		}
		ck := where + "/" + typeKey(o.typ) + fmt.Sprint(o.kind)
		cid, ok := f.canon[ck]
		if !ok {
			objSeq++
			cid = objSeq
			f.canon[ck] = cid
		}
		if cid != id {
			ren[objT(id)] = objT(cid)
		}
		for off, v := range o.cells {
			visitVal(v, fmt.Sprintf("%s.%d", ck, off))
		}
	}
	visitVal = func(v *Term, where string) {
		seen := map[*Term]bool{}
		collect(v, seen)
		var ids []int64
		for t := range seen {
			if t.op == OObj {
				ids = append(ids, t.n)
			}
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		for i, id := range ids {
			visitObj(id, fmt.Sprintf("%s#%d", where, i))
		}
	}
	for _, phi := range f.phis {
		if v := p.env[phi]; v != nil {
			visitVal(st.res(v), phi.Name())
		}
	}
	var ids []int64
	for id := range entryHeap {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		o := st.heap[id]
		if o == nil || o == entryHeap[id] {
			continue
		}
		offs := make([]int64, 0, len(o.cells))
		for off := range o.cells {
			offs = append(offs, off)
		}
		sort.Slice(offs, func(i, j int) bool { return offs[i] < offs[j] })
		for _, off := range offs {
			if o.cells[off] != entryHeap[id].cells[off] {
				visitVal(st.res(o.cells[off]), fmt.Sprintf("c%d.%d", id, off))
			}
		}
	}
	// two different objects must not get the same name
	if len(ren) > 0 {
		sb := newSubst(ren)
		renameState(st, sb, ren)
		for k, v := range p.env {
			p.env[k] = sb.do(v)
		}
	}
	// forget the others
	keep := map[int64]bool{}
	for id := range visited {
		if r, ok := ren[objT(id)]; ok {
			keep[r.n] = true
		} else {
			keep[id] = true
		}
	}
	for id := range st.heap {
		if entryHeap[id] == nil && !keep[id] {
			delete(st.heap, id)
		}
	}
	for id := range keep {
		o := st.heap[id]
		if o == nil {
			continue
		}
		switch o.kind {
		case KCells:
			for off := range o.cells {
				l := loc{kind: 'c', obj: id, off: off}
				if !f.gen[l] {
					f.addGen(l, nil)
				}
			}
		case KLog:
			l := loc{kind: 'l', obj: id}
			if !f.gen[l] {
				f.addGen(l, nil)
			}
		case KMap:
			l := loc{kind: 'm', obj: id}
			if !f.gen[l] {
				f.addGen(l, nil)
			}
		}
	}
}

func renameState(st *State, sb *subster, ren map[*Term]*Term) {
	nh := map[int64]*Obj{}
	for id, o := range st.heap {
		c := *o
		c.owner = st.stamp
		if o.cells != nil {
			c.cells = map[int64]*Term{}
			for k, v := range o.cells {
				c.cells[k] = sb.do(v)
			}
		}
		c.log = nil
		for _, x := range o.log {
			c.log = append(c.log, sb.do(x))
		}
		c.ents = nil
		for _, x := range o.ents {
			c.ents = append(c.ents, sb.do(x))
		}
		same := true
		if _, ok := ren[objT(id)]; ok {
			same = false
		}
		for k, v := range o.cells {
			if c.cells[k] != v {
				same = false
			}
		}
		for i := range o.log {
			if c.log[i] != o.log[i] {
				same = false
			}
		}
		for i := range o.ents {
			if c.ents[i] != o.ents[i] {
				same = false
			}
		}
		if same {
			if _, taken := nh[id]; !taken {
				nh[id] = o
			}
			continue
		}
		if r, ok := ren[objT(id)]; ok {
			c.id = r.n
		}
		cc := c
		nh[cc.id] = &cc
	}
	st.heap = nh
	nr := map[*Term]Set{}
	for k, v := range st.rngs {
		nr[sb.do(k)] = v
	}
	st.rngs = nr
	st.memo = nil
	st.facts = nil
	nl := map[*Term]IV{}
	for k, v := range st.lins {
		nl[sb.do(k)] = v
	}
	st.lins = nl
	na := map[*Term]bool{}
	for k, v := range st.atoms {
		na[sb.do(k)] = v
	}
	st.atoms = na
	nal := map[*Term]*Term{}
	for k, v := range st.alias {
		nal[sb.do(k)] = sb.do(v)
	}
	st.alias = nal
	nt := map[string]*Term{}
	for k, v := range st.tags {
		nt[k] = sb.do(v)
	}
	st.tags = nt
}

func (f *fixer) newHead(p *path, key string, disc map[loc]bool) *Head {
	rec := f.rec
	idx := len(rec.heads)
	ent := f.entry.st
	st := ent.clone()
	// memory: as at entry, except for what the loop changes
	q := &path{st: st, env: map[ssa.Value]*Term{}, defers: p.defers}
	for v, t := range p.env {
		q.env[v] = t
	}
	for id, o := range p.st.heap {
		if ent.heap[id] == nil {
			c := *o
			c.owner = -1
			st.heap[id] = &c
		}
	}
	hd := &Head{idx: idx, key: key, p: q, tmpl: map[*Term]IV{}, upd: map[*Term]int{}, logs: map[int64][]*Term{}}
	for _, l := range f.locs() {
		switch l.kind {
		case 'v', 'c':
			v := f.get(p, l)
			if !disc[l] {
				v = f.skel[l]
			}
			if v != nil {
				if l.kind == 'c' && st.heap[l.obj] == nil {
					continue
				}
				f.put(q, l, v)
				if !disc[l] && f.sawNil[l] {
					if c := f.nilCond(q, v); c != nil {
						st.assume(c, false)
					}
				}
			} else if l.kind == 'c' {
				if o := st.heap[l.obj]; o != nil {
					if _, ok := o.cells[l.off]; ok {
						o = st.mut(o)
						delete(o.cells, l.off)
					}
				}
			}
		case 'l':
			o := st.heap[l.obj]
			if o == nil {
				continue
			}
			o = st.mut(o)
			pre := f.prefixOf(l.obj)
			h := f.lenHole[l.obj]
			grown := false
			po := p.st.heap[l.obj]
			if len(po.log) != len(pre) {
				grown = true
			} else {
				for i := range pre {
					if pre[i] != po.log[i] {
						grown = true
					}
				}
			}
			switch {
			case f.lost[l.obj]:
				o.log = []*Term{piece("junk", 0, nil, h)}
			case grown:
				sp := piece("sum", l.obj<<16|int64(idx), rec, h)
				o.log = append(append([]*Term(nil), pre...), sp)
			default:
				o.log = append([]*Term(nil), pre...)
			}
			o.wlog = nil
			hd.logs[l.obj] = o.log
		case 'm':
			if o := st.heap[l.obj]; o != nil {
				o = st.mut(o)
				o.ents = nil
				o.zero = false
			}
		}
	}
	for k, v := range p.st.tags {
		st.tags[k] = v
	}
	for id, o := range st.heap {
		if ent.heap[id] == nil && o.kind == KCells && o.zero {
			_ = id
		}
	}
	// released flags and the like follow the path
	for id, o := range p.st.heap {
		if so := st.heap[id]; so != nil && so.rel != o.rel {
			so = st.mut(so)
			so.rel = o.rel
		}
	}
	rec.heads = append(rec.heads, hd)
	return hd
}

// forms are the linear forms whose bounds are tracked at the head.
func (f *fixer) forms(hd *Head) []*Term {
	used := map[*Term]bool{}
	for _, t := range hd.p.env {
		collect(t, used)
	}
	for _, l := range f.locs() {
		switch l.kind {
		case 'c':
			if v := f.get(hd.p, l); v != nil {
				collect(v, used)
			}
		case 'l':
			if h := f.lenHole[l.obj]; h != nil {
				used[h] = true
			}
		}
	}
	var hs []*Term
	for _, h := range f.holes {
		if termInt(h) && used[h] {
			hs = append(hs, h)
		}
	}
	if f.N != nil {
		hs = append(hs, f.N)
	}
	inv := map[*Term]bool{}
	for v, t := range f.entry.env {
		if phi, ok := v.(*ssa.Phi); ok {
			skip := false
			for _, x := range f.phis {
				if x == phi {
					skip = true
				}
			}
			if skip && t.op != OSlice && t.op != OStr {
				continue
			}
		}
		intTerms(t, inv, 2)
	}
	for _, o := range f.entry.st.heap {
		if o.prov == "global" {
			continue
		}
		if m := o.cells[hidMap]; m != nil {
			inv[mkApp("maplen", tInt, m)] = true
		}
		n := 0
		for _, v := range o.cells {
			if n++; n > 12 {
				break
			}
			if v.op == OSym || v.op == OApp && (v.s == "slen" || v.s == "strlen" || v.s == "ld8s") {
				intTerms(v, inv, 1)
			}
		}
	}
	for id := range f.lenHole {
		intTerms(logTotal(f.prefixOf(id)), inv, 1)
	}
	for _, phi := range f.phis {
		if t := f.skel[loc{kind: 'v', v: phi}]; t != nil && !f.hasHole(t) {
			intTerms(t, inv, 2)
		}
	}
	var ts []*Term
	for t := range inv {
		if t.op != OInt && !f.hasHole(t) && !strings.HasPrefix(t.s, "cap") && t.s != "scap" {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) > 14 {
		ts = ts[:14]
	}
	var r []*Term
	// the lengths of strings and slices that the loop shortens
	hd.lens = map[*Term]bool{}
	for _, v := range hd.p.env {
		if v.op == OStr || v.op == OSlice {
			if n := v.a[1]; n.op == OLin && f.hasHole(n) && len(n.a) > 2 {
				hd.lens[n] = true
			}
		}
	}
	for n := range hd.lens {
		r = append(r, n)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	for i, h := range hs {
		r = append(r, h)
		for _, g := range hs[i+1:] {
			r = append(r, subT(h, g))
		}
		if f.capHole[h] {
			continue
		}
		for _, t := range ts {
			r = append(r, subT(h, t))
		}
	}
	// lengths kept apart from the log they belong to
	var ids []int64
	for id := range f.lenHole {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		tot := addT(logTotal(f.prefixOf(id)), f.lenHole[id])
		for _, h := range hs {
			if h != f.lenHole[id] && !f.capHole[h] {
				r = append(r, subT(h, tot))
			}
		}
	}
	// sums of two symbols: p + n == len
	for i, h := range hs {
		if f.capHole[h] {
			continue
		}
		for _, g := range hs[i+1:] {
			if f.capHole[g] {
				continue
			}
			r = append(r, addT(h, g))
			for _, t := range ts {
				r = append(r, subT(addT(h, g), t))
			}
		}
	}
	return r
}

func intTerms(t *Term, out map[*Term]bool, d int) {
	if termInt(t) {
		out[t] = true
		return
	}
	if d == 0 {
		return
	}
	switch t.op {
	case OSlice, OStr, OTuple, OStruct:
		for _, a := range t.a {
			intTerms(a, out, d-1)
		}
	}
}

// join weakens the facts at a head so that they cover the incoming path.
func (f *fixer) join(p *path, hd *Head, bind map[*Term]*Term) bool {
	sb := newSubst(bind)
	first := !hd.joined
	hd.joined = true
	changed := false
	if first {
		for _, form := range f.forms(hd) {
			iv := p.st.bound(sb.do(form))
			if iv.lo > iv.hi {
				continue
			}
			n := len(linOf(form).t)
			if hd.lens[form] {
				if iv.lo < 0 {
					continue
				}
				iv = IV{0, INF}
			} else if n > 2 && iv.lo != iv.hi {
				continue
			}
			if n > 1 {
				if iv.lo < -bigBound {
					iv.lo = NINF
				}
				if iv.hi > bigBound {
					iv.hi = INF
				}
			}
			if iv.lo == NINF && iv.hi == INF {
				continue
			}
			hd.tmpl[form] = iv
			hd.forms = append(hd.forms, form)
		}
		return true
	}
	var keep []*Term
	for _, form := range hd.forms {
		iv := p.st.bound(sb.do(form))
		if iv.lo > iv.hi {
			keep = append(keep, form)
			continue
		}
		old := hd.tmpl[form]
		nw := old
		if iv.lo < old.lo {
			nw.lo = widenLo(iv.lo, hd.upd[form])
		}
		if iv.hi > old.hi {
			nw.hi = widenHi(iv.hi, hd.upd[form])
		}
		if nw != old {
			n := len(linOf(form).t)
			hd.upd[form]++
			changed = true
			if hd.lens[form] && nw.lo >= 0 {
				nw = IV{0, INF}
			} else if n > 2 && nw.lo != nw.hi || n > 1 && nw.lo < -bigBound && nw.hi > bigBound {
				delete(hd.tmpl, form)
				continue
			}
			hd.tmpl[form] = nw
		}
		keep = append(keep, form)
	}
	hd.forms = keep
	return changed
}

const bigBound = int64(1) << 32

func widenLo(v int64, n int) int64 {
	if n > 2 {
		return NINF
	}
	for _, t := range []int64{1, 0, -1, -2, -4} {
		if v >= t {
			return t
		}
	}
	return NINF
}

func widenHi(v int64, n int) int64 {
	if n > 4 {
		return INF
	}
	for _, t := range []int64{-4, -2, -1, 0, 1, 9, 255, 65535, maxLen} {
		if v <= t {
			return t
		}
	}
	return INF
}

// discoverIV turns holes that move by a constant step into multiples of a
// common iteration counter.
func (f *fixer) discoverIV() bool {
	if f.N != nil || f.ivBanned {
		return false
	}
	type cand struct{ entry, step *Term }
	cs := map[*Term]cand{}
	for _, h := range f.holes {
		if !termInt(h) {
			continue
		}
		if t, _ := h.x.(types.Type); t != nil {
			if b, ok := t.Underlying().(*types.Basic); ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32 || b.Kind() == types.Uint16) {
				continue
			}
		}
		var c cand
		ok, back := true, false
		for _, t := range f.rec.trans {
			v := t.bind[h]
			if v == nil {
				ok = false
				break
			}
			if t.from < 0 {
				if c.entry != nil && c.entry != v {
					ok = false
				}
				c.entry = v
				continue
			}
			back = true
			d := subT(v, h)
			if f.hasHole(d) || d == tZero {
				ok = false
				break
			}
			if c.step != nil && c.step != d {
				ok = false
				break
			}
			c.step = d
		}
		if ok && back && c.entry != nil && c.step != nil && (c.step.op == OInt) && !f.hasHole(c.entry) {
			cs[h] = c
		} else if ok && back && c.entry != nil && c.step != nil && stableTerm(c.step, f.entry) && !f.hasHole(c.entry) {
			cs[h] = c
		}
	}
	if len(cs) == 0 {
		return false
	}
	f.N = fresh("N", types.Typ[types.Int])
	m := map[*Term]*Term{}
	for h, c := range cs {
		if c.step.op == OInt {
			m[h] = addT(c.entry, mulC(f.N, c.step.n))
		} else {
			m[h] = addT(c.entry, mulTerms(c.step, f.N))
		}
	}
	sb := newSubst(m)
	for l, s := range f.skel {
		f.skel[l] = sb.do(s)
	}
	var nh []*Term
	for _, h := range f.holes {
		if _, ok := m[h]; !ok {
			nh = append(nh, h)
		} else {
			isLen := false
			for _, x := range f.lenHole {
				if x == h {
					isLen = true
				}
			}
			if isLen {
				nh = append(nh, h)
			}
		}
	}
	f.holes = nh
	return true
}

func mulTerms(a, b *Term) *Term {
	if a.op == OInt {
		return mulC(b, a.n)
	}
	if b.op == OInt {
		return mulC(a, b.n)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkApp("mul", types.Typ[types.Uintptr], a, b)
}

// stableTerm reports whether t only uses symbols known at loop entry.
func stableTerm(t *Term, entry *path) bool {
	ent := map[*Term]bool{}
	for _, v := range entry.env {
		collect(v, ent)
	}
	seen := map[*Term]bool{}
	collect(t, seen)
	for s := range seen {
		if s.op == OSym && !ent[s] && strings.Contains(s.s, "#") {
			return false
		}
	}
	return true
}

// at renames the per-iteration symbols of a value of one iteration into
// functions of the element number.
func (r *LoopRec) at(v, idx *Term) *Term {
	m := map[*Term]*Term{}
	for _, h := range r.holesAll() {
		m[h] = mkApp("at", types.Typ[types.Int], h, idx)
	}
	return newSubst(m).do(v)
}

func (r *LoopRec) holesAll() []*Term {
	seen := map[*Term]bool{}
	var hs []*Term
	for _, t := range r.trans {
		for h := range t.bind {
			if !seen[h] {
				seen[h] = true
				hs = append(hs, h)
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].id < hs[j].id })
	return hs
}

func (e *Engine) dedupe(fr *frame, rets []Outcome) []Outcome { return rets }
