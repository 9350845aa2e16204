package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules for functions that copy a text while replacing some of its
// characters. The paths of the function are a transition system over a read
// position and a write position; each step must write exactly what the
// characters it passes demand.

// tchar is a character of the text as known on a path.
type tchar struct {
	n    int64 // bytes
	root *Term // the byte or rune whose value decides; nil if fixed
	vals Set
	kind string // "byte", "rune", "bad", "tail"
	und  string // not known
}

// tspec is what a text transformer must do, as an automaton over the characters.
type tspec interface {
	start() int
	// char is what is known of the character at i.
	char(st *State, i *Term, state int) tchar
	// next is the state after a value; ok is false if it cannot occur.
	next(state int, c tchar, v int64) (int, bool)
	// copyOK: may the character be written as it is? "" if so.
	copyOK(st *State, state int, c tchar, v int64) string
	// outOK: may it be written as out (which is another text)?
	outOK(st *State, state int, c tchar, v int64, out string) string
	// verbatim: may the whole text be copied unchanged on this path?
	verbatim(st *State) bool
	doubt(c tchar) string
	// eachWritten: every character is written in some form
	eachWritten() bool
	// valid describes the values of the characters
	values(c tchar) []int64
}

// tscan is the analysis of one function.
type tscan struct {
	L     *Lab
	x     *Enc
	base  *Term
	n     *Term
	log   int64 // the object that is written
	spec  tspec
	probs []tprob
	trans int
	chars int
	ahead Set // bytes that were written before they were read
}

type tprob struct {
	msg, where, path string
	und              bool
}

func (t *tscan) bad(where string, st *State, f string, a ...any) {
	t.probs = append(t.probs, tprob{fmt.Sprintf(f, a...), where, pathOf(st), false})
}

func (t *tscan) und(where string, st *State, f string, a ...any) {
	t.probs = append(t.probs, tprob{fmt.Sprintf(f, a...), where, "", true})
}

func byteTerm(e *Engine, base, i *Term) *Term { return e.fragByte(nil, base, i) }

// head state of the product.
type thead struct {
	h, s int
	k    int64 // bytes written before they are read
}

type tstate struct {
	s int
	k int64
}

// diff is b-a if it is a constant on the path.
func diff(st *State, a, b *Term) (int64, bool) { return st.constOf(subT(b, a)) }

// step checks a piece of a path: from (P0,S0) in spec state s to (P1,S1),
// writing ps. It returns the spec states at max(P1,S1).
func (t *tscan) step(where string, st *State, s int, k int64, P0, S0, P1, S1 *Term, ps []*Term) map[tstate]bool {
	out := map[tstate]bool{}
	// bytes that were written before they are read
	if k > 0 {
		q := st.clone()
		if q.assumeIn(subT(P0, S0), single(k)) && q.assumeIn(byteTerm(t.L.e, t.base, S0), t.ahead) {
			n, ok := diff(q, S0, S1)
			switch {
			case !ok || n < 1 || n > k:
				t.und(where, q, "how far a step over bytes that were already written goes")
			case len(ps) != 0:
				t.bad(where, q, "bytes that were already written as part of an escaped character are followed by %s", logString(ps))
			case !q.eqInt(P0, P1):
				t.bad(where, q, "bytes that were already written as part of an escaped character move the start of the next copy to %s", P1.str(4))
			}
			out[tstate{s, k - n}] = true
		}
		return out
	}
	st = st.clone()
	if !st.assumeIn(subT(P0, S0), between(NINF, 0)) {
		return out
	}
	// the characters that are passed
	end := S1
	if st.bound(subT(P1, S1)).lo > 0 {
		end = P1
	}
	total, ok := diff(st, S0, end)
	if !ok && t.spec.eachWritten() && st.bound(subT(P1, P0)).hi > 64 && st.bound(subT(P1, S0)).hi > 64 {
		fixed := true
		for _, p := range ps {
			fixed = fixed && (p.s == "lit" || p.s == "byte" || p.s == "tok" || p.s == "raw" && p.a[0] == t.base && st.le(p.a[2], S0))
		}
		if fixed && len(ps) > 0 {
			t.bad(where, st, "any number of characters is replaced by %s", logString(ps[len(ps)-1:]))
			return out
		}
	}
	if !ok {
		t.und(where, st, "how far a step goes (%s)", subT(end, S0).str(4))
		return out
	}
	if total < 0 {
		t.bad(where, st, "a step goes back by %d bytes", -total)
		return out
	}
	if total == 0 {
		t.und(where, st, "a step that passes no character")
		return map[tstate]bool{{s, 0}: true}
	}
	if total > 16 {
		t.und(where, st, "a step over %d bytes", total)
		return out
	}
	type alt struct {
		st    *State
		s     int
		at    int64
		chars []tchar
		vals  []int64
		idx   []*Term
		sts   []int
	}
	work := []alt{{st: st, s: s}}
	var done []alt
	for len(work) > 0 {
		a := work[len(work)-1]
		work = work[:len(work)-1]
		if a.at >= total {
			if a.at > total {
				t.bad(where, a.st, "a step ends in the middle of a character")
			} else {
				done = append(done, a)
			}
			continue
		}
		i := addT(S0, intC(a.at))
		if !a.st.lt(i, t.n) {
			q := a.st.clone()
			if !q.assumeIn(subT(t.n, i), between(1, INF)) {
				continue
			}
			if a.at > 0 {
				t.und(where, a.st, "whether a step stays in the text")
				continue
			}
			t.bad(where, a.st, "a step may go beyond the text")
			continue
		}
		c := t.spec.char(a.st, i, a.s)
		if c.und != "" {
			t.und(where, a.st, "%s", c.und)
			continue
		}
		// group the values with the same behaviour by enumeration
		vs := t.spec.values(c)
		type grp struct {
			s    int
			vals Set
		}
		var gs []grp
		for _, v := range vs {
			n, ok := t.spec.next(a.s, c, v)
			if !ok {
				continue
			}
			found := false
			for k := range gs {
				if gs[k].s == n {
					gs[k].vals = gs[k].vals.or(single(v))
					found = true
				}
			}
			if !found {
				gs = append(gs, grp{n, single(v)})
			}
		}
		for _, g := range gs {
			q := a.st.clone()
			if c.root != nil && len(vs) <= 256 && !q.assumeIn(c.root, g.vals) {
				continue
			}
			d := c
			if len(vs) <= 256 {
				d.vals = g.vals
			}
			b := alt{st: q, s: g.s, at: a.at + c.n}
			b.chars = append(append([]tchar{}, a.chars...), d)
			b.idx = append(append([]*Term{}, a.idx...), i)
			b.sts = append(append([]int{}, a.sts...), a.s)
			work = append(work, b)
		}
	}
	for _, a := range done {
		kk := int64(0)
		if end == P1 && total > 0 {
			if k, ok := diff(a.st, S1, P1); ok && k > 0 {
				kk = k
				for j := int64(0); j < k; j++ {
					t.ahead = t.ahead.or(a.st.rng(byteTerm(t.L.e, t.base, addT(S1, intC(j)))).and(between(0, 255)))
				}
			}
		}
		t.cover(where, a.st, P0, S0, P1, ps, a.chars, a.idx, a.sts)
		out[tstate{a.s, kk}] = true
	}
	return out
}

// cover checks that the pieces write exactly the text from P0 to P1.
func (t *tscan) cover(where string, st *State, P0, S0, P1 *Term, ps []*Term, chars []tchar, idx []*Term, sts []int) {
	pos := P0
	k := 0 // next character
	t.trans++
	// characters before the read position are plain
	advance := func(to *Term, out []*Term, copied bool) bool {
		if copied {
			for k < len(chars) {
				// does the copy pass this character?
				if st.le(to, idx[k]) {
					break
				}
				if !st.le(addT(idx[k], intC(chars[k].n)), to) {
					t.und(where, st, "whether a copy up to %s holds the character at %s", to.str(4), idx[k].str(4))
					return false
				}
				t.chars++
				if !t.copyChar(where, st, sts[k], chars[k]) {
					return false
				}
				k++
			}
			pos = to
			return true
		}
		// written in another form: from pos to to
		var cs []int
		for k < len(chars) && !st.le(to, idx[k]) {
			if !st.le(addT(idx[k], intC(chars[k].n)), to) {
				t.und(where, st, "whether the text before %s holds the character at %s", to.str(4), idx[k].str(4))
				return false
			}
			cs = append(cs, k)
			k++
		}
		if len(cs) == 0 {
			if st.eqInt(pos, to) {
				if len(out) > 0 {
					t.bad(where, st, "%s is written though it stands for no character of the text", logString(out))
					return false
				}
				return true
			}
			if st.lt(to, pos) {
				t.bad(where, st, "text from %s on is written again", to.str(4))
				return false
			}
			if st.lt(pos, to) {
				t.bad(where, st, "the text from %s to %s is left out", pos.str(4), to.str(4))
				return false
			}
			t.und(where, st, "whether the text from %s to %s is left out", pos.str(4), to.str(4))
			return false
		}
		if !st.eqInt(pos, idx[cs[0]]) {
			if st.lt(pos, idx[cs[0]]) || st.bound(subT(idx[cs[0]], pos)).hi > 0 {
				t.bad(where, st, "the text from %s to %s is left out before a replaced character", pos.str(4), idx[cs[0]].str(4))
			} else {
				t.bad(where, st, "text from %s on is written twice", idx[cs[0]].str(4))
			}
			return false
		}
		for _, j := range cs {
			t.chars++
			_ = j
		}
		if !t.replaced(where, st, sts, chars, cs, out) {
			return false
		}
		pos = to
		return true
	}
	var pend []*Term
	for _, p := range ps {
		if p.s == "raw" && p.a[0] == t.base {
			if !advance(p.a[1], pend, false) {
				return
			}
			pend = nil
			if !advance(p.a[2], nil, true) {
				return
			}
			continue
		}
		switch p.s {
		case "lit", "byte":
			pend = append(pend, p)
			continue
		case "tok":
			if p.x == "rune" {
				pend = append(pend, p)
				continue
			}
		}
		t.und(where, st, "what %s writes", logString([]*Term{p}))
		return
	}
	if !advance(P1, pend, false) {
		return
	}
	// what was read but not written yet will be copied
	for ; k < len(chars); k++ {
		t.chars++
		if !t.copyChar(where, st, sts[k], chars[k]) {
			return
		}
	}
}

func (t *tscan) copyChar(where string, st *State, s int, c tchar) bool {
	if d := t.spec.doubt(c); d != "" {
		t.und(where, st, "%s", d)
		return false
	}
	for _, v := range t.spec.values(c) {
		if m := t.spec.copyOK(st, s, c, v); m != "" {
			t.bad(where, st, "%s is written as it is, though %s", charName(c, v), m)
			return false
		}
	}
	return true
}

func charName(c tchar, v int64) string {
	switch c.kind {
	case "bad":
		return "an invalid byte"
	case "byte":
		return fmt.Sprintf("the byte %#02x (%q)", v, rune(v))
	}
	return fmt.Sprintf("%U", rune(v))
}

// replaced checks characters that are written in another form.
func (t *tscan) replaced(where string, st *State, sts []int, chars []tchar, cs []int, out []*Term) bool {
	if len(cs) > 1 {
		if len(out) == 0 {
			for _, j := range cs {
				if !t.replaced(where, st, sts, chars, []int{j}, nil) {
					return false
				}
			}
			return true
		}
		t.und(where, st, "%d characters replaced at once", len(cs))
		return false
	}
	c, s := chars[cs[0]], sts[cs[0]]
	if d := t.spec.doubt(c); d != "" {
		t.und(where, st, "%s", d)
		return false
	}
	for _, v := range t.spec.values(c) {
		q := st
		if c.root != nil {
			q = st.clone()
			if !q.assumeIn(c.root, single(v)) {
				continue
			}
		}
		var b strings.Builder
		for _, p := range out {
			switch p.s {
			case "lit":
				b.WriteString(p.x.(string))
			case "byte":
				w, ok := q.constOf(p.a[0])
				if !ok && c.root != nil {
					w, ok = evalT(p.a[0], c.root, v)
				}
				if !ok {
					if iv := q.rng(p.a[0]); len(iv) > 0 && iv.lo() == iv.hi() {
						w, ok = iv.lo(), true
					}
				}
				if !ok {
					t.und(where, q, "a byte %s that is written for a character", p.a[0].str(5))
					return false
				}
				b.WriteByte(byte(w))
			case "tok":
				w, ok := q.constOf(p.a[1])
				if !ok {
					t.und(where, q, "a character %s that is written", p.a[1].str(5))
					return false
				}
				b.WriteString(string(rune(w)))
			}
		}
		o := b.String()
		if o == charText(c, v) && c.kind != "bad" {
			if m := t.spec.copyOK(q, s, c, v); m != "" {
				t.bad(where, q, "%s is written as it is, though %s", charName(c, v), m)
				return false
			}
			continue
		}
		if m := t.spec.outOK(q, s, c, v, o); m != "" {
			if o == "" {
				t.bad(where, q, "%s is left out", charName(c, v))
			} else {
				t.bad(where, q, "%s is written as %q, %s", charName(c, v), o, m)
			}
			return false
		}
	}
	return true
}

func charText(c tchar, v int64) string {
	if c.kind == "byte" {
		return string([]byte{byte(v)})
	}
	return string(rune(v))
}

// cand is a pair of loop variables: written up to, read up to.
type tcand struct{ p, s *Term }

// run checks a function that was run as x.
func (t *tscan) run() {
	e := t.L.e
	// find the output object
	for _, o := range t.x.outs {
		v := o.st.res(o.ret[0])
		if errKind(o) < 0 || v.op != OSlice {
			continue
		}
		b, _ := ptrParts(v.a[0])
		_ = b
	}
	recs := []*LoopRec{}
	for _, r := range t.x.recs {
		id, ok := t.logOf(r)
		if !ok {
			continue
		}
		_ = id
		recs = append(recs, r)
	}
	best := map[*LoopRec]tcand{}
	for _, r := range recs {
		ints := t.intHoles(r)
		type res struct {
			c     tcand
			bad   int
			und   int
			trans int
		}
		var bestR *res
		for _, p := range append([]*Term{tZero}, ints...) {
			for _, s := range ints {
				save := t.probs
				sc, st := t.chars, t.trans
				t.probs = nil
				n := t.tryLoop(r, tcand{p, s})
				rr := &res{c: tcand{p, s}, trans: n}
				for _, q := range t.probs {
					if q.und {
						rr.und++
					} else {
						rr.bad++
					}
				}
				t.probs = save
				t.chars, t.trans = sc, st
				if bestR == nil || rr.bad+rr.und < bestR.bad+bestR.und {
					bestR = rr
				}
			}
		}
		if bestR == nil {
			t.und(r.pos, nil, "a loop without a position")
			return
		}
		if (bestR.bad+bestR.und)*2 > bestR.trans {
			t.und(r.pos, nil, "how the loop moves through the text (%d of %d steps do not fit)", bestR.bad+bestR.und, bestR.trans)
			return
		}
		best[r] = bestR.c
		t.tryLoop(r, bestR.c)
	}
	// the ends
	for _, o := range t.x.outs {
		if errKind(o) < 0 {
			continue
		}
		where := t.L.where(t.x.fn)
		if len(t.x.recs) > 0 {
			where = t.x.recs[0].pos
		}
		ps, ok := tail(e, o)
		if !ok {
			t.und(where, o.st, "the output of a path")
			continue
		}
		if t.spec.verbatim(o.st) {
			if len(ps) == 1 && ps[0].s == "raw" && ps[0].a[0] == t.base && isInt(ps[0].a[1], 0) && o.st.eqInt(ps[0].a[2], t.n) || len(ps) == 0 && o.st.eqInt(t.n, tZero) {
				continue
			}
		}
		pos := tZero
		scan := tZero
		state := map[int]bool{t.spec.start(): true}
		if len(ps) > 0 && ps[0].s == "sum" {
			rec, _, ok := sumOf(ps[0])
			c, ok2 := best[rec]
			if !ok || !ok2 {
				t.und(where, o.st, "the loop that made the output")
				continue
			}
			pos, scan = c.p, c.s
			ps = ps[1:]
			state = nil
		} else {
			for r, c := range best {
				b := o.st.bound(c.s)
				if b.lo > NINF || o.st.eqInt(c.s, t.n) {
					scan = c.s
					if o.st.bound(c.p).lo > NINF && c.p != tZero {
						pos = c.p
						if !o.st.eqInt(pos, tZero) && len(ps) > 0 && ps[0].s == "raw" {
							if !o.st.eqInt(ps[0].a[1], pos) {
								pos = tZero
							}
						}
					}
					state = nil
				}
				_ = r
			}
		}
		if t.spec.verbatim(o.st) && len(best) == 0 {
			t.bad(where, o.st, "the text is not copied unchanged")
			continue
		}
		_ = state
		if !o.st.eqInt(scan, t.n) && !o.st.le(t.n, scan) {
			if t.endGap(where, o.st, scan) {
				continue
			}
		}
		before := len(t.probs)
		t.cover(where, o.st, pos, scan, t.n, ps, nil, nil, nil)
		for i := before; i < len(t.probs); i++ {
			if !t.probs[i].und {
				t.probs[i].msg = "at the end of the text: " + t.probs[i].msg
			}
		}
	}
}

// endGap: the path ends before the whole text was read.
func (t *tscan) endGap(where string, st *State, scan *Term) bool {
	if k, ok := diff(st, scan, t.n); ok && k == 0 {
		return false
	}
	for _, s := range st.segs {
		_ = s
	}
	if st.bound(subT(t.n, scan)).lo > 0 {
		t.bad(where, st, "the path ends before the text has been read to its end (read up to %s)", scan.str(4))
		return true
	}
	if scan == tZero {
		t.und(where, st, "what the text holds on a path that does not read it")
		return true
	}
	return false
}

func (t *tscan) logOf(r *LoopRec) (int64, bool) {
	for _, h := range r.heads {
		for id, l := range h.logs {
			if len(l) > 0 && l[0].s == "raw" && isDst(l[0].a[0]) {
				return id, true
			}
		}
	}
	return 0, false
}

func (t *tscan) intHoles(r *LoopRec) []*Term {
	seen := map[*Term]bool{}
	var ints []*Term
	for _, tr := range r.trans {
		for h := range tr.bind {
			if seen[h] {
				continue
			}
			seen[h] = true
			if tr.from == -1 || true {
				// loop variables that are positions start inside the text
				ints = append(ints, h)
			}
		}
	}
	var out []*Term
	for _, h := range ints {
		ok := true
		n := 0
		for _, tr := range r.trans {
			if tr.from == -1 {
				n++
				v, has := tr.bind[h]
				if !has || !tr.st.eqInt(v, tZero) {
					ok = false
				}
			}
		}
		if ok && n > 0 {
			out = append(out, h)
		}
	}
	return out
}

// tryLoop checks all steps of a loop for a choice of the positions.
func (t *tscan) tryLoop(r *LoopRec, c tcand) int {
	id, _ := t.logOf(r)
	t.ahead = Set{}
	// bytes written ahead: two passes, the first collects
	n := 0
	for pass := 0; pass < 2; pass++ {
		save, sc, st := t.probs, t.chars, t.trans
		n = 0
		states := map[thead]bool{}
		var work []thead
		add := func(h, s int, k int64) {
			if !states[thead{h, s, k}] {
				states[thead{h, s, k}] = true
				work = append(work, thead{h, s, k})
			}
		}
		for _, tr := range r.trans {
			if tr.from != -1 {
				continue
			}
			n++
			if len(tr.logs[id]) > 0 {
				t.und(r.pos, tr.st, "text written before the loop")
			}
			add(tr.to, t.spec.start(), 0)
		}
		for len(work) > 0 {
			w := work[0]
			work = work[1:]
			for _, tr := range r.trans {
				if tr.from != w.h {
					continue
				}
				n++
				P1, S1 := tZero, tr.bind[c.s]
				if c.p != tZero {
					P1 = tr.bind[c.p]
				}
				if P1 == nil || S1 == nil {
					t.und(r.pos, tr.st, "a position that is lost")
					continue
				}
				if os.Getenv("JSA_TEXT") != "" && pass == 1 {
					fmt.Println("STEP", w, "->", tr.to, c.p, c.s, "to", P1, S1, logString(tr.logs[id]), "ahead", t.ahead, pathOf(tr.st))
				}
				for s := range t.step(r.pos, tr.st, w.s, w.k, c.p, c.s, P1, S1, tr.logs[id]) {
					if os.Getenv("JSA_TEXT") != "" && pass == 1 {
						fmt.Println("   STATE", w, "->", tr.to, s)
					}
					add(tr.to, s.s, s.k)
				}
			}
		}
		if pass == 0 {
			t.probs, t.chars, t.trans = save, sc, st
		}
	}
	return n
}

// runApp runs a text appender with the arguments of a use.
func (L *Lab) runApp(u *AppUse) (x *Enc, base, n *Term) {
	e := L.e
	st := e.base.clone()
	d := e.appenderDst(u.f)
	var args []*Term
	k := 0
	for i, p := range u.f.Params {
		if i == d {
			args = append(args, e.symArg(st, "dst", p.Type()))
			continue
		}
		if k >= len(u.args) {
			return nil, nil, nil
		}
		a := u.args[k]
		k++
		if a == nil {
			a = e.symArg(st, "text", p.Type())
			if a.op == OStr {
				base, n = a.a[0], a.a[1]
			} else if a.op == OSlice {
				base, n = a.a[0], a.a[1]
			}
		} else {
			e.wf(st, p.Type(), a)
		}
		args = append(args, a)
	}
	x = L.runFn(shortName(u.f)+" as called by "+u.by, u.f, args, nil, st, nil, false)
	return x, base, n
}

var _ = ssa.NewConst
