package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The oracle says what has to be written for a value of a type, and compares it
// with every path of the encoder the package makes for that type.

// Inst is a way a builder makes an encoder, with what is known about the type.
type Inst struct {
	root  *ssa.Function
	x     *Enc
	t     *Term // the encoder
	st    *State
	vals  map[*Term]*Term // captured value -> value in terms of the parameters of the builder
	T     *Term
	bools []*Term
}

// instances lists the encoders a builder makes; builders taken on trust by the
// first one are expanded.
func (L *Lab) instances(f *ssa.Function) []*Inst {
	x, bs := L.builds(f)
	var r []*Inst
	for _, b := range bs {
		in := &Inst{root: f, t: b.t, st: b.st}
		for i, p := range f.Params {
			if isReflectType(p.Type()) && in.T == nil {
				in.T = x.args[i]
			} else if isBoolT(p.Type()) {
				in.bools = append(in.bools, x.args[i])
			}
		}
		r = append(r, L.expand(x, b, in)...)
	}
	return r
}

func (L *Lab) expand(x *Enc, b Built, in *Inst) []*Inst {
	if b.t.op == OApp {
		if n, ok := strings.CutPrefix(b.t.s, "built:"); ok {
			for g := range L.r.keyB {
				if g.Name() != n || g == in.root {
					continue
				}
				y, gs := L.builds(g)
				sb := map[*Term]*Term{}
				for i := range g.Params {
					if i < len(b.t.a) {
						sb[y.args[i]] = b.t.a[i]
					}
				}
				s := newSubst(sb)
				var r []*Inst
				for _, h := range gs {
					st := b.st.clone()
					if !addFacts(st, h.st, s) {
						continue
					}
					z := L.encoder(y, h)
					nv := map[*Term]*Term{}
					if z != nil {
						for k, v := range z.uses[len(z.uses)-1].vals {
							nv[k] = s.do(v)
						}
					}
					r = append(r, &Inst{root: in.root, x: z, t: s.do(h.t), st: st, vals: nv, T: in.T, bools: in.bools})
				}
				return r
			}
		}
		return []*Inst{in}
	}
	if y := L.encoder(x, b); y != nil {
		in.x = y
		in.vals = y.uses[len(y.uses)-1].vals
		for _, u := range y.uses {
			if u.b.t == b.t && u.b.st == b.st {
				in.vals = u.vals
			}
		}
	}
	return []*Inst{in}
}

// addFacts adds what a state knows about types and parameters to another.
func addFacts(st, from *State, s *subster) bool {
	for _, a := range sortedTerms(from.alias) {
		if !st.assume(st.eqTerms(s.do(a), s.do(from.alias[a])), true) {
			return false
		}
	}
	var cs []*Term
	for c := range from.atoms {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, c := range cs {
		if !st.assume(s.do(c), from.atoms[c]) {
			return false
		}
	}
	var rs []*Term
	for t := range from.rngs {
		rs = append(rs, t)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
	for _, t := range rs {
		u := s.do(t)
		if u.op == OInt {
			if !from.rngs[t].has(u.n) {
				return false
			}
			continue
		}
		if !st.assumeIn(st.res(u), from.rngs[t]) {
			return false
		}
	}
	return true
}

func sortedTerms(m map[*Term]*Term) []*Term {
	var r []*Term
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// Viol is something an encoder does that it should not.
type Viol struct {
	props []string
	where string
	fn    string
	msg   string
	path  string
	und   bool
}

// Oracle compares the encoders of the package with the rules.
type Oracle struct {
	L          *Lab
	out        []Viol
	seen       map[string]bool
	hits       map[string]int // rule -> paths it was applied to
	insts      int
	paths      int
	apps       map[string]*AppUse
	fns        map[string]bool
	core       *coreSig
	numberPred map[*ssa.Function]bool
	inlinePred map[*ssa.Function]bool
	keyApps    map[*ssa.Function]bool
	timeQuoted [2]int
}

// AppUse is a way a content appender is called.
type AppUse struct {
	f    *ssa.Function
	args []*Term // without the buffer; texts are nil
	opts *Term
	by   string
	note string
}

type coreSig struct {
	name            string
	t, addr, quoted int
}

func newOracle(L *Lab) *Oracle {
	return &Oracle{L: L, seen: map[string]bool{}, hits: map[string]int{}, apps: map[string]*AppUse{}, fns: map[string]bool{}, numberPred: map[*ssa.Function]bool{}, inlinePred: map[*ssa.Function]bool{}}
}

func (o *Oracle) add(v Viol) {
	k := fmt.Sprint(v.props, v.where, v.fn, v.msg, v.und)
	if !o.seen[k] {
		o.seen[k] = true
		o.out = append(o.out, v)
	}
}

// Ctx is a path of an encoder seen from a rule.
type Ctx struct {
	o        *Oracle
	L        *Lab
	in       *Inst
	x        *Enc
	st       *State
	sb       *subster
	p        *Term
	opts     *Term
	log      []*Term
	headOK   bool
	kind     int // errKind
	out      Outcome
	rule     string
	kmemo    map[*Trans]*State
	byteMeth bool // the byte elements have an encoding method
}

func (c *Ctx) T() *Term { return c.in.T }

// when restricts a path.
func (c *Ctx) when(rule string, cond func(st *State) bool, then func(c *Ctx)) {
	st := c.st.clone()
	if !cond(st) {
		return
	}
	d := *c
	d.st = st
	if rule != "" {
		d.rule = c.rule + " / " + rule
	}
	d.o.hits[d.rule]++
	then(&d)
}

func (c *Ctx) name() string {
	if c.x == nil {
		return c.in.t.str(3)
	}
	return c.x.name
}

func (c *Ctx) where() string {
	if c.x != nil {
		return c.L.where(c.x.fn)
	}
	return c.L.where(c.in.root)
}

func (c *Ctx) bad(props []string, format string, a ...any) {
	c.o.add(Viol{props, c.where(), c.name(), c.rule + ": " + fmt.Sprintf(format, a...), pathOf(c.st), false})
}

func (c *Ctx) und(props []string, format string, a ...any) {
	c.o.add(Viol{props, c.where(), c.name(), c.rule + ": " + fmt.Sprintf(format, a...), pathOf(c.st), true})
}

// flag restricts to the calls with or without an option.
func (c *Ctx) flagIs(st *State, name string, on bool) bool { return c.L.setFlag(st, c.opts, name, on) }

// ---------- expected output ----------

// Exp is a part of the expected output: a literal (string), or a matcher.
type Exp any

// pieceExp matches one piece: 1 yes, 0 no, -1 not decided.
type pieceExp struct {
	name string
	ok   func(c *Ctx, p *Term) (int, string)
}

// listExp is a list of n elements.
type listExp struct {
	n    *Term
	name string
	elem func(idx *Term) []Exp
}

// floatExp is the text of a float.
type floatExp struct {
	v    *Term
	bits int64
}

type item struct {
	ch byte
	p  *Term // a piece, or nil for a character
}

// items flattens a log into characters and pieces.
func (c *Ctx) items(log []*Term) []item {
	var r []item
	for _, p := range log {
		switch p.s {
		case "lit":
			s := p.x.(string)
			for i := 0; i < len(s); i++ {
				r = append(r, item{ch: s[i]})
			}
			continue
		case "byte":
			if v, ok := c.st.constOf(p.a[0]); ok && v >= 0 && v < 256 {
				r = append(r, item{ch: byte(v)})
				continue
			}
		}
		r = append(r, item{p: p})
	}
	return r
}

// mcfg is a place in the expected output.
type mcfg struct {
	pc  int // index of the expected part
	off int // within a literal
	in  int // list: 0 at the head, 1 + index within the element
	io  int // within a literal of the element
	idx *Term
}

func (m mcfg) key() string { return fmt.Sprintf("%d.%d.%d.%d", m.pc, m.off, m.in, m.io) }

type mres struct {
	ok  bool
	und bool
	msg string
}

func mbad(format string, a ...any) *mres { return &mres{msg: fmt.Sprintf(format, a...)} }
func mund(format string, a ...any) *mres { return &mres{und: true, msg: fmt.Sprintf(format, a...)} }

// settle moves over the places where nothing is consumed.
func (c *Ctx) settle(es []Exp, m mcfg, next *item) (mcfg, *mres) {
	for m.pc < len(es) {
		switch e := es[m.pc].(type) {
		case string:
			if m.off < len(e) {
				return m, nil
			}
			m.pc, m.off = m.pc+1, 0
		case listExp:
			if m.idx == nil {
				m.idx = tZero
				m.in = 0
			}
			if m.in > 0 {
				body := e.elem(m.idx)
				if c.st.bound(m.idx).lo >= 1 && m.off == 0 && m.in == 1 && m.io == 0 {
					return m, nil // the separator comes first
				}
				for m.in-1 < len(body) {
					if s, ok := body[m.in-1].(string); ok && m.io >= len(s) {
						m.in, m.io = m.in+1, 0
						continue
					}
					return m, nil
				}
				m.idx = addT(m.idx, intC(1))
				m.in, m.io, m.off = 0, 0, 0
				continue
			}
			// at the head
			if c.st.le(e.n, m.idx) {
				m.pc, m.off, m.in, m.io, m.idx = m.pc+1, 0, 0, 0, nil
				continue
			}
			if c.st.lt(m.idx, e.n) {
				m.in, m.io, m.off = 1, 0, 0
				continue
			}
			// not known: look at what comes next
			closing := next == nil
			if next != nil && next.p == nil && next.ch != ',' {
				closing = true
				if m.pc+1 < len(es) {
					if s, ok := es[m.pc+1].(string); ok && (s == "" || s[0] != next.ch) {
						closing = false
					}
				}
			}
			d := c.st.bound(subT(e.n, m.idx))
			if closing {
				if d.hi < INF && d.hi < 1<<40 && !c.foreign() {
					return m, mbad("the %s ends although up to %d of them may remain", e.name, d.hi)
				}
				return m, mund("whether all of the %s were written", e.name)
			}
			m.in, m.io, m.off = 1, 0, 0
			if d.lo > NINF && d.lo > -(1<<40) && !c.foreign() {
				return m, mbad("one more of the %s is written than there are", e.name)
			}
			return m, mund("whether there is one more of the %s", e.name)
		default:
			return m, nil
		}
	}
	return m, nil
}

// step consumes an item.
func (c *Ctx) step(es []Exp, m mcfg, it item, rest []item) (mcfg, int, *mres) {
	m, r := c.settle(es, m, &it)
	if r != nil {
		return m, 0, r
	}
	if m.pc >= len(es) {
		return m, 0, c.misfit(it, "the end")
	}
	e := es[m.pc]
	if l, ok := e.(listExp); ok {
		if c.st.bound(m.idx).lo >= 1 && m.in == 1 && m.io == 0 && m.off == 0 {
			if it.p == nil && it.ch == ',' {
				m.off = 1
				return m, 1, nil
			}
			return m, 0, c.misfit(it, "a comma between "+l.name)
		}
		body := l.elem(m.idx)
		b := body[m.in-1]
		if s, ok := b.(string); ok {
			if it.p == nil && it.ch == s[m.io] {
				m.io++
				return m, 1, nil
			}
			return m, 0, c.misfit(it, fmt.Sprintf("%q", s[m.io:]))
		}
		n, r := c.part(b, it, rest)
		if r != nil {
			return m, 0, r
		}
		m.in, m.io = m.in+1, 0
		return m, n, nil
	}
	if s, ok := e.(string); ok {
		if it.p == nil && it.ch == s[m.off] {
			m.off++
			return m, 1, nil
		}
		return m, 0, c.misfit(it, fmt.Sprintf("%q", s[m.off:]))
	}
	n, r := c.part(e, it, rest)
	if r != nil {
		return m, 0, r
	}
	m.pc, m.off = m.pc+1, 0
	return m, n, nil
}

func (c *Ctx) misfit(it item, want string) *mres {
	if it.p == nil {
		return mbad("writes %q where %s is due", string(it.ch), want)
	}
	if c.vague(it.p) {
		return mund("%s is written where %s is due", c.show(it.p), want)
	}
	return mbad("writes %s where %s is due", c.show(it.p), want)
}

// show describes a piece.
func (c *Ctx) show(p *Term) string {
	s := c.L.e.canonPiece(c.st, p)
	s = strings.ReplaceAll(s, "github.com/wI2L/jettison.", "")
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

// vague: is a piece something whose content is not known?
func (c *Ctx) vague(p *Term) bool {
	switch p.s {
	case "junk", "part", "frag", "byte":
		return true
	}
	return false
}

func (c *Ctx) part(e Exp, it item, rest []item) (int, *mres) {
	switch x := e.(type) {
	case pieceExp:
		if it.p == nil {
			return 0, mbad("writes %q where %s is due", string(it.ch), x.name)
		}
		switch r, msg := x.ok(c, it.p); r {
		case 1:
			return 1, nil
		case 0:
			if c.vague(it.p) {
				return 0, mund("%s is written where %s is due", c.show(it.p), x.name)
			}
			if msg == "" {
				msg = fmt.Sprintf("writes %s where %s is due", c.show(it.p), x.name)
			}
			return 0, &mres{msg: msg}
		default:
			if msg == "" {
				msg = fmt.Sprintf("whether %s is %s", c.show(it.p), x.name)
			}
			return 0, &mres{und: true, msg: msg}
		}
	case floatExp:
		return c.float(x, append([]item{it}, rest...))
	}
	return 0, mund("unknown rule part")
}

// match compares a log with what is expected.
func (c *Ctx) match(log []*Term, es []Exp) *mres {
	m, r := c.feed(log, es, mcfg{})
	if r != nil {
		return r
	}
	return c.atEnd(es, m)
}

func (c *Ctx) atEnd(es []Exp, m mcfg) *mres {
	m, r := c.settle(es, m, nil)
	if r != nil {
		return r
	}
	if m.pc < len(es) {
		switch e := es[m.pc].(type) {
		case string:
			return mbad("stops where %q is due", e[m.off:])
		case listExp:
			return mbad("stops where more of the %s are due", e.name)
		case pieceExp:
			return mbad("stops where %s is due", e.name)
		default:
			return mbad("stops early")
		}
	}
	return nil
}

func (c *Ctx) feed(log []*Term, es []Exp, m mcfg) (mcfg, *mres) {
	its := c.items(log)
	for i := 0; i < len(its); {
		if its[i].p != nil && its[i].p.s == "sum" {
			n, r := c.loop(its[i].p, es, m)
			if r != nil {
				return m, r
			}
			m = n
			i++
			continue
		}
		n, k, r := c.step(es, m, its[i], its[i+1:])
		if r != nil {
			return m, r
		}
		m = n
		i += k
	}
	return m, nil
}

// cand is an expression for the number of elements at a loop head: hole - k.
type cand struct {
	h *Term
	k int64
}

// loop runs the iterations of a loop through the expected output.
func (c *Ctx) loop(p *Term, es []Exp, m mcfg) (mcfg, *mres) {
	rec, obj, ok := sumOf(p)
	if !ok {
		return m, mund("the output of a loop that is not known")
	}
	head := int(p.n & 0xffff)
	if m.pc < len(es) {
		// before a literal that the loop may begin with
		if s, ok := es[m.pc].(string); ok && m.off == len(s) {
			m.pc, m.off = m.pc+1, 0
		}
	}
	type hs struct {
		m     mcfg
		cands map[cand]bool
		begun bool
	}
	at := map[int]map[string]*hs{}
	put := func(to int, m mcfg, t *Trans, idx *Term) (bool, *mres) {
		if at[to] == nil {
			at[to] = map[string]*hs{}
		}
		k := m.key()
		if idx != nil {
			k += " list"
		}
		e := at[to][k]
		nc := map[cand]bool{}
		if idx != nil {
			for h, v := range t.bind {
				if d := subT(v, idx); d.op == OInt {
					nc[cand{h, d.n}] = true
				}
			}
		}
		if e == nil {
			if idx != nil && len(nc) == 0 && idx != tZero {
				return false, mund("how many elements were written when the loop begins again")
			}
			m.idx = nil
			at[to][k] = &hs{m, nc, idx != nil && idx != tZero}
			return true, nil
		}
		changed := false
		for q := range e.cands {
			if !nc[q] {
				delete(e.cands, q)
				changed = true
			}
		}
		e.begun = e.begun || idx != nil && idx != tZero
		if e.begun && len(e.cands) == 0 {
			return false, mund("how many elements were written when the loop begins again")
		}
		return changed, nil
	}
	pick := func(e *hs) *Term {
		var best *cand
		for q := range e.cands {
			q := q
			if best == nil || q.h.s < best.h.s || q.h == best.h && q.k < best.k {
				best = &q
			}
		}
		if best == nil {
			return nil
		}
		return addT(best.h, intC(-best.k))
	}
	for rounds := 0; ; rounds++ {
		if rounds > 12 {
			return m, mund("a loop")
		}
		again := false
		for _, t := range rec.trans {
			if t.to < 0 {
				continue
			}
			var srcs []mcfg
			if t.from < 0 {
				n := m
				srcs = append(srcs, n)
			} else {
				for _, k := range sortedKeys(at[t.from]) {
					e := at[t.from][k]
					n := e.m
					if len(e.cands) > 0 {
						n.idx = pick(e)
					}
					srcs = append(srcs, n)
				}
			}
			if len(srcs) == 0 {
				continue
			}
			d := c.inTrans(t)
			if d == nil {
				continue
			}
			var log []*Term
			for _, q := range t.logs[obj] {
				log = append(log, c.sb.do(q))
			}
			for _, n := range srcs {
				n2, r := d.feed(log, es, n)
				if r != nil {
					return m, r
				}
				// an element that is complete
				if n2.pc < len(es) {
					if l, ok := es[n2.pc].(listExp); ok && n2.idx != nil && n2.in > 0 {
						body := l.elem(n2.idx)
						if n2.in-1 >= len(body) {
							n2.idx = addT(n2.idx, intC(1))
							n2.in, n2.io, n2.off = 0, 0, 0
						}
					} else if ok && n2.idx == nil {
						n2.idx = tZero
						n2.in = 0
					} else if s, ok := es[n2.pc].(string); ok && n2.off >= len(s) {
						n2.pc, n2.off = n2.pc+1, 0
						if n2.pc < len(es) {
							if _, ok := es[n2.pc].(listExp); ok {
								n2.idx, n2.in, n2.io = tZero, 0, 0
							}
						}
					}
				}
				if n2.idx == nil {
					// none so far
					for i := n2.pc; i < len(es); i++ {
						if _, ok := es[i].(listExp); ok {
							n2.idx = tZero
						}
					}
				}
				ch, r := put(t.to, n2, t, n2.idx)
				if r != nil {
					return m, r
				}
				again = again || ch
			}
		}
		if !again {
			break
		}
	}
	if len(at[head]) != 1 {
		return m, mund("the place reached after a loop (%d)", len(at[head]))
	}
	for _, e := range at[head] {
		n := e.m
		if len(e.cands) > 0 {
			n.idx = pick(e)
		}
		return n, nil
	}
	return m, nil
}

// inTrans is the context of an iteration of a loop.
func (c *Ctx) inTrans(t *Trans) *Ctx {
	d := *c
	st := t.st.clone()
	renameState(st, c.sb, nil)
	if !addFacts(st, c.in.st, newSubst(nil)) {
		return nil
	}
	// what the rule assumes about types and options
	for _, q := range sortedAtoms(c.st) {
		if stableFact(q) {
			if !st.assume(q, c.st.atoms[q]) {
				return nil
			}
		}
	}
	for _, q := range sortedRngs(c.st) {
		if stableFact(q) && !st.assumeIn(st.res(q), c.st.rngs[q]) {
			return nil
		}
	}
	d.st = st
	return &d
}

// stableFact: a fact about the type, the value or the options, not about the loop.
func stableFact(t *Term) bool {
	memo := map[*Term]int{}
	var bad func(t *Term) bool
	bad = func(t *Term) bool {
		if v, ok := memo[t]; ok {
			return v == 1
		}
		memo[t] = 0
		r := t.op == OSym && (strings.Contains(t.s, "#") || strings.HasPrefix(t.s, "dst")) || t.op == OObj
		for _, a := range t.a {
			r = r || bad(a)
		}
		if r {
			memo[t] = 1
		}
		return r
	}
	return !bad(t)
}

func sortedAtoms(st *State) []*Term {
	var r []*Term
	for c := range st.atoms {
		r = append(r, c)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func sortedRngs(st *State) []*Term {
	var r []*Term
	for c := range st.rngs {
		r = append(r, c)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// foreign: does the path depend on something the rules do not know?
func (c *Ctx) foreign() bool {
	for t := range c.st.atoms {
		if foreignTerm(t) {
			return true
		}
	}
	return false
}

func foreignTerm(t *Term) bool {
	f := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || f {
			return
		}
		seen[t] = true
		if t.op == OSym {
			for _, p := range []string{"unsup", "cb#", "ext", "res#", "havoc", "lost", "top#"} {
				if strings.HasPrefix(t.s, p) {
					f = true
				}
			}
		}
		if t.op == OApp && strings.HasPrefix(t.s, "ext:") {
			f = true
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	walk(t)
	return f
}

// ---------- comparison of terms ----------

// same compares two terms: 1 equal, 0 different, -1 not known.
func (c *Ctx) same(a, b *Term) int {
	a, b = c.norm(a), c.norm(b)
	if a == b || untype(a) == untype(b) {
		return 1
	}
	switch d := c.st.decide(c.st.eqTerms(a, b)); d {
	case 1:
		return 1
	case 0:
		return 0
	}
	if termInt(a) && termInt(b) && c.st.eqInt(a, b) {
		return 1
	}
	if foreignTerm(a) || foreignTerm(b) {
		return -1
	}
	if arithmetic(a) || arithmetic(b) {
		// equal numbers can be computed in different ways
		if c.apart(a, b) {
			return 0
		}
		return -1
	}
	if plain(a) && plain(b) {
		return 0
	}
	return -1
}

// untype forgets the types of products.
func untype(t *Term) *Term {
	if len(t.a) == 0 {
		return t
	}
	has := false
	var as []*Term
	for _, a := range t.a {
		u := untype(a)
		has = has || u != a
		as = append(as, u)
	}
	if t.op == OApp && t.s == "mul" {
		if len(as) == 2 && as[0].id > as[1].id {
			as[0], as[1] = as[1], as[0]
		}
		return mk(OApp, "mul*", 0, nil, as, nil)
	}
	if !has {
		return t
	}
	return mk(t.op, t.s, t.n, t.x, as, t.co)
}

// norm resolves a term and drops conversions that change nothing.
func (c *Ctx) norm(t *Term) *Term {
	t = c.st.res(t)
	for t.op == OApp && t.s == "wrap" && len(t.a) == 1 {
		in := c.st.res(t.a[0])
		if in.op == OApp && in.s == "ld8s" && isInt64(appType(t)) {
			t = in
			continue
		}
		if r := basicRange(appType(t)); len(r) > 0 && c.st.rng(in).subset(r) && c.st.rng(in).lo() != NINF {
			t = in
			continue
		}
		break
	}
	return t
}

func isInt64(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int64 || b.Kind() == types.Int)
}

// plain terms are loads at known places, constants and parts of these.
func plain(t *Term) bool {
	switch t.op {
	case OInt, OBool, OStrC, OFloat, ONil, OTypeC:
		return true
	case OSym:
		return !strings.Contains(t.s, "#")
	case OLin, OPtr, OStruct, OStr, OSlice, OIface:
		for _, a := range t.a {
			if !plain(a) {
				return false
			}
		}
		return true
	case OApp:
		if strings.HasPrefix(t.s, "fld") || strings.HasPrefix(t.s, "ld") || strings.HasPrefix(t.s, "d.") || strings.HasPrefix(t.s, "t.") || strings.HasPrefix(t.s, "rt.") {
			for _, a := range t.a {
				if !plain(a) {
					return false
				}
			}
			return true
		}
		switch t.s {
		case "byte", "quo", "fld0", "strptr", "strlen", "word", "itype", "mul", "wrap", "fconv", "fabs", "and", "f2i", "i2f", "f*", "f/", "f+", "f-":
			for _, a := range t.a {
				if !plain(a) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// load is the value of a type at an offset from the address of the encoder.
func (c *Ctx) load(off int64, t types.Type) *Term {
	return c.L.e.load(c.st, nil, nil, mkPtr(c.p, intC(off)), t)
}

// ---------- matchers ----------

func (c *Ctx) intTok(kind string, v *Term) Exp {
	return pieceExp{"the decimal text of " + v.str(3), func(c *Ctx, p *Term) (int, string) {
		if p.s != "tok" || p.x != "int" && p.x != "uint" {
			return 0, ""
		}
		if b, ok := c.st.constOf(p.a[2]); !ok || b != 10 {
			return b2i(ok) - 1, fmt.Sprintf("the number is written in base %s", p.a[2].str(2))
		}
		got := c.norm(p.a[1])
		r := c.same(got, v)
		if r == 1 && p.x != kind && !c.st.rng(got).subset(between(0, INF)) && c.st.rng(got).lo() < 0 {
			return 0, fmt.Sprintf("%s is formatted as %s", v.str(3), p.x)
		}
		if r == 1 && p.x != kind && kind == "uint" && c.st.rng(got).hi() >= INF {
			return 0, fmt.Sprintf("the unsigned %s is formatted as %s", v.str(3), p.x)
		}
		return r, ""
	}}
}

// raw matches a copy of n bytes at an address.
func (c *Ctx) rawOf(base, n *Term, name string) Exp {
	return pieceExp{name, func(c *Ctx, p *Term) (int, string) {
		r := c.isRaw(p, base, n)
		if r == 0 && p.s == "raw" && c.outside(p, base, n) {
			return 0, fmt.Sprintf("PTR writes %s where %s is due", c.show(p), name)
		}
		return r, ""
	}}
}

// outside: the bytes are taken from beyond the value.
func (c *Ctx) outside(p, base, n *Term) bool {
	b, off := ptrParts(base)
	if c.same(p.a[0], base) == 1 {
		off = tZero
	} else if c.same(p.a[0], b) != 1 {
		return false
	}
	return !c.st.le(off, p.a[1]) || !c.st.le(p.a[2], addT(off, n))
}

func (c *Ctx) isRaw(p *Term, base, n *Term) int {
	if p.s != "raw" {
		return 0
	}
	if c.same(p.a[0], base) == 1 && c.same(p.a[1], tZero) == 1 && c.same(p.a[2], n) == 1 {
		return 1
	}
	if b, off := ptrParts(base); off != tZero {
		if c.same(p.a[0], b) == 1 && c.same(p.a[1], off) == 1 && c.same(p.a[2], addT(off, n)) == 1 {
			return 1
		}
	}
	if plain(p.a[0]) && plain(p.a[1]) && plain(p.a[2]) {
		return 0
	}
	return -1
}

// appClass tells content appenders apart by their signature.
func (L *Lab) appClass(f *ssa.Function) string {
	ps, res := f.Signature.Params(), f.Signature.Results()
	texts, times, durs, ints := 0, 0, 0, 0
	d := L.e.appenderDst(f)
	for i := 0; i < ps.Len(); i++ {
		if i == d {
			continue
		}
		t := ps.At(i).Type()
		switch n := types.TypeString(t, nil); {
		case n == "time.Time":
			times++
		case n == "time.Duration":
			durs++
		case isByteSlice(t) || isStringT(t):
			texts++
		case isIntT(t):
			ints++
		}
	}
	switch {
	case texts == 1 && times+durs+ints == 0 && res.Len() == 1:
		return "escape"
	case texts == 1 && times+durs+ints == 0 && res.Len() == 2:
		return "compact"
	case times == 1 && texts <= 1 && durs == 0:
		return "time" // a text is the layout
	case durs == 1 && texts+times == 0:
		return "duration"
	}
	return ""
}

// settled replaces an argument by the value that the conditions of the path
// leave for it.
func (c *Ctx) settled(a *Term, t types.Type) *Term {
	switch {
	case a.op == OBool || a.op == OInt || a.op == OStrC:
	case isBoolT(t):
		switch c.st.decide(a) {
		case 0:
			return tFalse
		case 1:
			return tTrue
		}
	case isStringT(t):
		for _, l := range []string{layout3339, layout3339Nano} {
			if c.st.decide(c.st.eqTerms(a, strC(l))) == 1 {
				return strC(l)
			}
		}
	case a.op == OStruct:
		s, ok := t.Underlying().(*types.Struct)
		if !ok || s.NumFields() != len(a.a) || types.TypeString(t, nil) == "time.Time" {
			return a
		}
		var fs []*Term
		for i, f := range a.a {
			fs = append(fs, c.settled(c.st.res(f), s.Field(i).Type()))
		}
		return mk(OStruct, "", 0, t, fs, nil)
	}
	return a
}

// noteApp remembers how an appender is called.
func (c *Ctx) noteApp(p *Term, note string) {
	f, ok := p.x.(*ssa.Function)
	if !ok {
		return
	}
	u := &AppUse{f: f, opts: c.opts, by: c.name(), note: note}
	key := f.String() + ";" + note
	var kinds []types.Type
	d := c.L.e.appenderDst(f)
	for i, q := range f.Params {
		if i != d {
			kinds = append(kinds, q.Type())
		}
	}
	for i, a := range p.a[1:] {
		a = c.st.res(a)
		if a.op == OTuple {
			if c.L.appClass(f) == "time" {
				l, ok := "", len(a.a) <= 1
				for _, q := range a.a {
					ok = ok && q.s == "lit"
					if ok {
						l = q.x.(string)
					}
				}
				if !ok {
					c.und([]string{"C18"}, "the layout given to %s", shortName(f))
					return
				}
				u.args = append(u.args, strC(l))
				key += ";" + l
				continue
			}
			u.args = append(u.args, nil)
			key += ";text"
			continue
		}
		if i < len(kinds) {
			a = c.settled(a, kinds[i])
		}
		u.args = append(u.args, a)
		key += fmt.Sprintf(";%d", a.id)
	}
	if c.o.apps[key] == nil {
		c.o.apps[key] = u
	}
}

// app matches the output of an appender of a class on a text.
func (c *Ctx) app(class, name string, text []Exp) Exp {
	return pieceExp{name, func(c *Ctx, p *Term) (int, string) {
		if p.s != "app" {
			return 0, ""
		}
		f, ok := p.x.(*ssa.Function)
		if !ok || c.L.appClass(f) != class {
			return 0, ""
		}
		c.noteApp(p, "")
		for _, a := range p.a[1:] {
			if a.op == OTuple {
				if r := c.match(a.a, text); r != nil {
					if r.und {
						return -1, r.msg
					}
					return 0, f.Name() + " is given the wrong text: " + r.msg
				}
				continue
			}
			if r, msg := c.passed(a); r != 1 {
				return r, msg
			}
		}
		return 1, ""
	}}
}

// passed checks that options are handed on unchanged.
func (c *Ctx) passed(a *Term) (int, string) {
	a = c.st.res(a)
	if a.op != OStruct || a.x == nil || !types.Identical(a.x.(types.Type), c.L.e.encOpts) || c.opts == nil || a == c.opts {
		return 1, ""
	}
	for n, oe := range c.L.options() {
		for _, i := range oe.multi {
			if i >= len(a.a) || i >= len(c.opts.a) {
				continue
			}
			switch c.same(a.a[i], c.opts.a[i]) {
			case 0:
				return 0, "OPTS the option " + n + " is changed on the way to a nested value"
			case -1:
				if oe.mask != 0 {
					// the flags: what happens to this one
					x := c.L.e.andT(c.st, a.a[i], intC(oe.mask), types.Typ[types.Uint64])
					y := c.L.e.andT(c.st, c.opts.a[i], intC(oe.mask), types.Typ[types.Uint64])
					if c.same(x, y) == 1 {
						continue
					}
					for _, v := range []int64{0, oe.mask} {
						st := c.st.clone()
						if st.assumeIn(y, single(v)) && st.decide(inT(x, single(v))) == 0 {
							return 0, "OPTS the option " + n + " is changed on the way to a nested value"
						}
					}
				}
				return -1, "whether the options are handed on unchanged"
			}
		}
	}
	return 1, ""
}

// elem matches a nested value.
func (c *Ctx) elem(name string, fn func(c *Ctx, f *Term) (int, string), ptr *Term) Exp {
	return pieceExp{name, func(c *Ctx, p *Term) (int, string) {
		if p.s != "elem" || p.x != nil {
			return 0, ""
		}
		if ptr != nil {
			r := c.same(p.a[2], ptr)
			if r < 0 {
				r = c.same(c.folded(p.a[2]), c.folded(ptr))
			}
			if r != 1 {
				if r == 0 {
					return 0, fmt.Sprintf("PTR %s is read at %s and not at %s", name, c.st.canon(p.a[2], 6), c.st.canon(ptr, 6))
				}
				if c.differ(p.a[2], ptr) {
					return 0, fmt.Sprintf("PTR %s is read at %s and not at %s", name, c.st.canon(p.a[2], 6), c.st.canon(ptr, 6))
				}
				return -1, fmt.Sprintf("whether %s is at %s or at %s", name, c.st.canon(p.a[2], 6), c.st.canon(ptr, 6))
			}
		}
		if r, msg := fn(c, c.st.res(p.a[1])); r != 1 {
			return r, msg
		}
		return c.passed(p.a[3])
	}}
}

// folded replaces the numbers that are known on the path.
func (c *Ctx) folded(t *Term) *Term {
	m := map[*Term]*Term{}
	walkTerms([]*Term{c.norm(t)}, func(a *Term) {
		if a.op == OSym {
			if n, ok := c.st.constOf(a); ok {
				m[a] = intC(n)
			}
		}
	})
	if len(m) == 0 {
		return t
	}
	return newSubst(m).do(c.norm(t))
}

// differ looks for sizes of types and positions in lists, possible on the
// path, for which two addresses with the same base are not the same.
func (c *Ctx) differ(a, b *Term) bool {
	a, b = c.norm(a), c.norm(b)
	ab, ao := ptrParts(c.st.res(a))
	bb, bo := ptrParts(c.st.res(b))
	if c.st.res(ab) != c.st.res(bb) {
		return false
	}
	var free []*Term
	seen := map[*Term]bool{}
	ok := true
	fixed := map[*Term]int64{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.op == OSym:
			// what a loop changes may not be free
			ok = ok && !strings.HasPrefix(t.s, "h#")
			free = append(free, t)
		case t.op == OApp && t.s == "rt.Size":
			k := c.st.rng(rtKind(t.a[0]))
			if len(k) == 1 && k.lo() == k.hi() && scalarSize[k.lo()] > 0 {
				fixed[t] = scalarSize[k.lo()]
				return
			}
			ok = ok && (k.has(kStruct) || k.has(kArray))
			free = append(free, t)
		case t.op == OApp && t.s == "rt.Align":
			// a struct or an array of bytes can have any size
			k := c.st.rng(rtKind(t.a[0]))
			ok = ok && (k.has(kStruct) || k.has(kArray))
			fixed[t] = 1
		case t.op == OApp && (t.s == "ld8s" || t.s == "ld8u" || t.s == "ld4s" || t.s == "ld4u") && baseOf(t.a[0]) == c.p:
			free = append(free, t)
		case t.op == OInt, t.op == OLin, t.op == OApp && (t.s == "quo" || t.s == "d.round" || t.s == "mul" || t.s == "and" || t.s == "andnot" || t.s == "or" || t.s == "xor" || t.s == "shl" || t.s == "shr" || t.s == "div" || t.s == "rem" || t.s == "wrap"):
			for _, x := range t.a {
				walk(x)
			}
		default:
			ok = false
		}
	}
	walk(ao)
	walk(bo)
	if !ok || len(free) > 3 {
		return false
	}
	for _, vs := range [][]int64{{3, 1, 1}, {1, 3, 3}, {3, 5, 2}, {5, 3, 7}, {24, 2, 1}, {2, 24, 1}, {1999999, 1, 1}, {1500, 1, 1}, {-1500001, 1, 1}} {
		st := c.st.clone()
		m := map[*Term]int64{}
		fine := true
		for f, n := range fixed {
			m[f] = n
		}
		for i, f := range free {
			m[f] = vs[i]
			fine = fine && st.assumeIn(f, single(vs[i]))
		}
		if !fine {
			continue
		}
		x, okx := evalInt(ao, m)
		y, oky := evalInt(bo, m)
		if okx && oky && x != y {
			return true
		}
	}
	return false
}

// evalInt computes a number for given values of its parts.
func evalInt(t *Term, m map[*Term]int64) (int64, bool) {
	if v, ok := m[t]; ok {
		return v, true
	}
	switch t.op {
	case OInt:
		return t.n, true
	case OLin:
		r := t.n
		for i, a := range t.a {
			v, ok := evalInt(a, m)
			if !ok {
				return 0, false
			}
			r += t.co[i] * v
		}
		return r, true
	case OApp:
		if t.s == "wrap" && len(t.a) > 0 {
			return evalInt(t.a[0], m)
		}
		if len(t.a) != 2 {
			return 0, false
		}
		x, ok1 := evalInt(t.a[0], m)
		y, ok2 := evalInt(t.a[1], m)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch t.s {
		case "mul":
			return x * y, true
		case "and":
			return x & y, true
		case "or":
			return x | y, true
		case "xor":
			return x ^ y, true
		case "andnot":
			return x &^ y, true
		case "shl":
			if y >= 0 && y < 32 {
				return x << uint(y), true
			}
		case "shr":
			if y >= 0 && y < 64 {
				return x >> uint(y), true
			}
		case "d.round":
			return int64(time.Duration(x).Round(time.Duration(y))), true
		case "div", "quo":
			if y > 0 {
				return x / y, true
			}
		case "rem":
			if y > 0 {
				return x % y, true
			}
		}
	}
	return 0, false
}

// coreOf matches the encoder of a type.
func (o *Oracle) coreOf(T *Term, addr, quoted *Term) func(c *Ctx, f *Term) (int, string) {
	return func(c *Ctx, f *Term) (int, string) {
		cs := o.coreParams()
		if f.op != OApp || cs == nil || f.s != "built:"+cs.name {
			for b := range o.L.r.keyB {
				if f.op == OApp && f.s == "built:"+shortName(b) {
					return 0, "PTR the encoder of a map key, " + f.str(3) + ", is used for a value of type " + T.str(3)
				}
			}
			return -1, "whether the encoder " + f.str(3) + " is that of " + T.str(3)
		}
		if r := c.same(f.a[cs.t], T); r != 1 {
			return r, fmt.Sprintf("the encoder of %s is used for %s", c.st.canon(f.a[cs.t], 5), c.st.canon(T, 5))
		}
		cmp := func(got, want *Term, what string) (int, string) {
			if want == nil || got == want {
				return 1, ""
			}
			g, w := c.st.decide(got), c.st.decide(want)
			if g == w && g >= 0 {
				return 1, ""
			}
			if got.op == OBool || want.op == OBool {
				// differs on a part of the calls at least
				return 0, fmt.Sprintf("%s is %s and not %s for the encoder of %s", what, got.str(3), want.str(3), T.str(3))
			}
			if got.op == OSym && want.op == OSym {
				return 0, fmt.Sprintf("%s is %s and not %s for the encoder of %s", what, got.str(3), want.str(3), T.str(3))
			}
			return -1, "whether the encoder of " + T.str(3) + " is made the right way"
		}
		if r, msg := cmp(f.a[cs.addr], addr, "ADDR addressability"); r != 1 {
			return r, msg
		}
		return cmp(f.a[cs.quoted], quoted, "QUOTED the string option")
	}
}

func (o *Oracle) coreParams() *coreSig {
	f := o.L.r.core
	if f == nil {
		return nil
	}
	if o.core != nil {
		return o.core
	}
	cs := &coreSig{name: f.Name(), t: -1, addr: -1, quoted: -1}
	for i, p := range f.Params {
		if isReflectType(p.Type()) {
			cs.t = i
		} else if isBoolT(p.Type()) {
			if cs.addr < 0 {
				cs.addr = i
			} else {
				cs.quoted = i
			}
		}
	}
	if cs.quoted < 0 {
		return nil
	}
	// told apart by what they do: quotes are only added with one of them
	o.core = cs
	return cs
}

// ---------- verdicts ----------

// expect: the path succeeds and writes this.
func (c *Ctx) expect(props []string, es ...Exp) {
	if c.kind < 0 {
		if et := c.errName(); et == "nested" {
			for _, e := range es {
				if nestedExp(e) {
					return
				}
			}
			c.und(props, "a nested failure where nothing is nested")
			return
		}
		c.bad(append([]string{"C09"}, props...), "fails with %s although a value is due", c.errName())
		return
	}
	if c.kind == 0 {
		c.und(props, "whether the path succeeds")
		return
	}
	c.compare(props, es)
}

func nestedExp(e Exp) bool {
	switch e.(type) {
	case pieceExp, listExp:
		return true
	}
	return false
}

func (c *Ctx) compare(props []string, es []Exp) {
	if !c.headOK {
		c.und(props, "what is returned")
		return
	}
	r := c.match(c.log, es)
	if r == nil {
		return
	}
	if r.und || c.foreign() {
		c.und(props, "%s", r.msg)
		return
	}
	c.badMarked(props, r.msg)
}

// badMarked: marks in the message tell which other properties are broken.
func (c *Ctx) badMarked(props []string, msg string) {
	ps := props
	switch {
	case strings.Contains(msg, "OPTS "):
		ps = []string{"C10"}
	case strings.Contains(msg, "ADDR "):
		ps = append([]string{"C12"}, props...)
	case strings.Contains(msg, "QUOTED "):
		ps = []string{"C11"}
	case strings.Contains(msg, "PTR "):
		ps = append([]string{"C17"}, props...)
	}
	for _, k := range []string{"OPTS ", "ADDR ", "QUOTED ", "PTR "} {
		msg = strings.ReplaceAll(msg, k, "")
	}
	c.bad(ps, "%s", msg)
}

// errName is the kind of failure of the path.
func (c *Ctx) errName() string {
	t := errType(c.L, c.out)
	if strings.HasPrefix(t, "err:encode") || strings.HasPrefix(t, "err:append") {
		return "nested"
	}
	return t
}

// expectErr: the path fails with an error of this type.
func (c *Ctx) expectErr(props []string, typ string) {
	if c.kind > 0 {
		c.bad(props, "succeeds with %s although an error is due", c.shown())
		return
	}
	if c.kind == 0 {
		c.und(props, "whether the path fails")
		return
	}
	if typ == "" {
		return
	}
	t := c.errName()
	switch {
	case strings.Contains(t, typ):
	case strings.Contains(t, "Error") || t == "mkerr":
		c.bad([]string{"C09"}, "fails with %s instead of %s", t, typ)
	default:
		c.und([]string{"C09"}, "the error %s", t)
	}
}

func (c *Ctx) shown() string {
	s := c.L.e.canonLog(c.st, c.log)
	s = strings.ReplaceAll(s, "github.com/wI2L/jettison.", "")
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

// ---------- types ----------

func (L *Lab) typeNamed(pkg, name string) *Term {
	var p *ssa.Package
	if pkg == "" {
		p = L.e.main
	} else {
		p = L.e.prog.ImportedPackage(pkg)
	}
	if p == nil {
		return nil
	}
	if t := p.Type(name); t != nil {
		return typeC(t.Type())
	}
	return nil
}

func rtKind(T *Term) *Term { return mkApp("rt.Kind", types.Typ[types.Uint], T) }
func rtElem(T *Term) *Term { return mkApp("rt.Elem", appType(T), T) }

func (L *Lab) rt(name string, T *Term) *Term { return mkApp(name, L.e.rtypeT(), T) }

func (e *Engine) rtypeT() types.Type {
	if p := e.prog.ImportedPackage("reflect"); p != nil {
		if t := p.Type("Type"); t != nil {
			return t.Type()
		}
	}
	return nil
}

// isType is the condition that T is a type constant.
func isTypeC(st *State, T, c *Term) *Term { return st.eqTerms(T, c) }

func (L *Lab) implements(st *State, T, I *Term) *Term {
	return mkApp("implements", tBoolT, st.res(T), I)
}

// constNamed is the value of a constant of the package.
func (L *Lab) constNamed(name string) (int64, bool) {
	if c := L.e.main.Const(name); c != nil {
		return constant.Int64Val(constant.ToInt(c.Value.Value))
	}
	return 0, false
}
