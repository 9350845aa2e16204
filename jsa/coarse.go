package main

import (
	"go/types"
)

// coarseFix is the cheap treatment of a loop: whatever the loop changes is
// unknown at the head of every iteration, and one arbitrary iteration is run.
// It is used where a property speaks about what each iteration does.
func (e *Engine) coarseFix(fr *frame, name, pos string, phis []*loopPhi, entry *path, body func(p *path) bodyRes) ([]edge, []Outcome) {
	f := &fixer{e: e, fr: fr, entry: entry, hset: map[*Term]bool{}}
	gen := map[loc]types.Type{}
	lower := map[loc]bool{}
	for _, ph := range phis {
		l := loc{kind: 'v', v: ph.v}
		gen[l] = ph.t
		lower[l] = true
	}
	for round := 0; round < 20; round++ {
		e.loopSeq++
		rec := &LoopRec{id: e.loopSeq, name: name, fn: fr.fn, pos: pos, prefix: map[int64][]*Term{}, entry: entry.st, fr: fr}
		p := entry.clone()
		start, init := map[loc]*Term{}, map[*Term]*Term{}
		ok := true
		for _, l := range sortedLocs(gen) {
			switch l.kind {
			case 'v', 'c':
				t := gen[l]
				old := f.get(p, l)
				if t == nil {
					if o := p.st.heap[l.obj]; o != nil {
						for _, lf := range e.leaves(o.typ) {
							if lf.off == l.off {
								t = lf.typ
							}
						}
					}
				}
				h := fresh("h", t)
				var v *Term = h
				if t != nil {
					v = e.expand(t, h)
					if _, isI := t.Underlying().(*types.Interface); isI {
						v = h
					}
					e.wf(p.st, t, v)
				}
				start[l] = v
				if old != nil {
					init[v] = old
				}
				rec.holes = append(rec.holes, h)
				f.put(p, l, v)
				if lower[l] && old != nil && isIntT(t) {
					// a counter that starts at a constant; it cannot exceed the
					// number of things that fit in memory
					if c, isC := p.st.constOf(old); isC && !p.st.assumeIn(v, between(c, maxLen)) {
						ok = false
					}
				}
			case 'l':
				o := p.st.mut(p.st.heap[l.obj])
				n := fresh("hlen", tInt)
				p.st.assumeIn(n, between(0, maxLen))
				o.log = []*Term{piece("junk", 0, nil, n)}
				o.wlog = nil
			case 'm':
				o := p.st.mut(p.st.heap[l.obj])
				o.ents = nil
				o.zero = false
			}
		}
		if !ok {
			return nil, nil
		}
		heapBefore := cloneMap(p.st.heap)
		nrec := len(e.recs)
		r := body(p)
		if e.steps > e.maxSteps {
			return nil, nil
		}
		again := false
		add := func(l loc) {
			if _, has := gen[l]; !has {
				gen[l] = nil
				again = true
			}
		}
		for _, b := range r.backs {
			for id, o := range b.st.heap {
				eo := heapBefore[id]
				if eo == nil || eo == o {
					continue
				}
				switch eo.kind {
				case KCells:
					for off, v := range o.cells {
						ev, has := eo.cells[off]
						if has && ev == v || !has && !eo.zero {
							continue
						}
						if has && b.st.res(ev) == b.st.res(v) {
							continue
						}
						add(loc{kind: 'c', obj: id, off: off})
					}
				case KLog:
					same := len(eo.log) == len(o.log)
					for i := 0; same && i < len(o.log); i++ {
						same = o.log[i] == eo.log[i]
					}
					if !same {
						add(loc{kind: 'l', obj: id})
					}
				case KMap:
					if len(eo.ents) != len(o.ents) {
						add(loc{kind: 'm', obj: id})
					}
				}
			}
			for l, t := range gen {
				if l.kind == 'v' && lower[l] && isIntT(t) {
					if c, isC := b.st.constOf(valOr(f.get(entry, l))); isC {
						if v := f.get(b, l); v != nil && !b.st.le(intC(c), v) {
							lower[l] = false
							again = true
						}
					}
				}
			}
		}
		if again {
			e.recs = e.recs[:nrec]
			continue
		}
		hd := &Head{idx: 0, key: "coarse", p: p, tmpl: map[*Term]IV{}}
		rec.heads = []*Head{hd}
		rec.start, rec.init = start, init
		for _, x := range r.exits {
			rec.leave = append(rec.leave, x.p.st)
		}
		for _, o := range r.rets {
			rec.leave = append(rec.leave, o.st)
		}
		for _, b := range r.backs {
			bind := map[*Term]*Term{}
			for l, v := range start {
				if w := f.get(b, l); w != nil {
					bind[v] = w
				}
			}
			rec.trans = append(rec.trans, &Trans{0, 0, b.st, nil, bind, b})
		}
		rec.iters = round + 1
		e.recs = append(e.recs, rec)
		return r.exits, r.rets
	}
	e.problem("loop at %s does not stabilise (coarse)", pos)
	return nil, nil
}

func valOr(t *Term) *Term {
	if t == nil {
		return tNil
	}
	return t
}
