package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The entries of maps: which ones a path writes, in which order.

func init() {
	oracleProps["C13"] = oracleProp{"Here: the entries that each path of the encoders of maps and of sync.Map writes. Iterating yields the entries 0, 1, 2, ... of the map, and ends exactly when there are none left. Through the loops, taken as transition systems, the position of the next entry is followed: each iteration must write the key and the value of the entry it is at and move to the next one, whether into the output or into a list. On a path that succeeds all entries must have been written. Unless UnsortedMap is set and unless there is at most one entry, the output must be written from the list, all of it, in the order of a sort that took place after the last entry was added; the comparison must order by the bytes of the key text, which must be the part of the entry between its quotes.",
		[]string{"map / entries", "sync.Map / entries"}}
	id := "C13"
	checks[id] = func(c *Check) { c.fromOracle(id) }
	oracleMore[id] = mapOrder
}

type mapWalk struct {
	c     *Ctx
	m     *Term // the map
	size  *Term
	key   string // term that stands for a key
	val   string
	pos   map[string]*Term // position at the heads of loops
	busy  map[string]bool
	done  map[string]bool
	seen  map[string]bool
	fails bool
}

// listUse: a list that entries are kept in.
type listUse struct {
	rec *LoopRec
	obj int64
	off int64 // of the field that is written
}

// pcount is the position within the entries of the map or of a list.
type pcount struct {
	n    *Term
	list *Term // sum the entries are read from, or nil
	perm *Term
}

func (w *mapWalk) bad(format string, a ...any) {
	w.fails = true
	w.c.bad([]string{"C13"}, format, a...)
}

func (w *mapWalk) und(format string, a ...any) {
	w.fails = true
	w.c.und([]string{"C13"}, format, a...)
}

// entriesRule checks the entries a path writes.
func (c *Ctx) entriesRule(sync bool) {
	if c.kind <= 0 {
		return
	}
	w := &mapWalk{c: c, pos: map[string]*Term{}, busy: map[string]bool{}, done: map[string]bool{}, seen: map[string]bool{}}
	r := c.rule
	defer func() { c.rule = r }()
	if sync {
		w.m, w.key, w.val = c.p, "smkey", "smval"
		w.size = mkApp("smlen", tInt, c.p)
		c.rule = "sync.Map / entries"
	} else {
		w.m, w.key, w.val = c.word(0), "mapkeyptr", "mapvalptr"
		w.size = mkApp("maplen", tInt, w.m)
		c.rule = "map / entries"
	}
	c.o.hits[c.rule]++
	if !grown[c.x] {
		grown[c.x] = true
		w.growth()
	}
	if w.fails {
		return
	}
	end, ok := w.parse(c.st, c.log, pcount{n: tZero}, nil)
	if !ok {
		return
	}
	st := c.st
	if end.list != nil {
		// all of the list
		rec, obj, _ := sumOf(end.list)
		lp, ok := w.listLen(st, end.list, rec, obj)
		if !ok {
			return
		}
		if st.eqInt(lp, end.n) {
			end.n = lp
		} else if st.lt(end.n, lp) || st.lt(lp, end.n) {
			w.bad("writes %s of the %s entries of the list", st.canon(end.n, 4), st.canon(lp, 4))
			return
		} else {
			w.und("whether all of the list is written (%s of %s)", st.canon(end.n, 4), st.canon(lp, 4))
			return
		}
	}
	switch {
	case st.eqInt(end.n, w.size):
	case st.lt(end.n, w.size):
		w.bad("ends without an error after %s entries, when others are left", st.canon(end.n, 4))
		return
	case st.lt(w.size, end.n):
		w.bad("writes more entries than the map has")
		return
	default:
		if i := w.stopped(st); i != nil {
			w.bad("ends without an error while the iterator is at the entry %s and others may be left", st.canon(i, 4))
			return
		}
		w.und("whether all entries are written (%s of %s)", st.canon(end.n, 4), st.canon(w.size, 4))
		return
	}
	// order
	if end.perm == nil {
		if st.bound(end.n).hi <= 1 {
			return
		}
		if c.L.flag(st, c.opts, "UnsortedMap") != 1 {
			w.bad("the entries are not written in the order of a sort although UnsortedMap may not be set")
		}
		return
	}
	w.sorted(end)
}

// stopped is the entry that the iterator of the map is at, if it is not at its
// end.
func (w *mapWalk) stopped(st *State) *Term {
	for _, o := range st.heap {
		if o.kind != KCells || o.cells[hidMap] == nil || st.res(o.cells[hidMap]) != st.res(w.m) {
			continue
		}
		if k := st.res(o.cells[0]); k.op == OApp && k.s == "mapkeyptr" {
			return k.a[1]
		}
	}
	return nil
}

var grown = map[*Enc]bool{}

// growth: an iteration that moves on to the next entry must add an element to
// the list that entries are kept in, whatever else it does to the list.
func (w *mapWalk) growth() {
	for _, rec := range w.c.x.recs {
		lists := map[int64]bool{}
		type step struct {
			t    *Trans
			adv  *Term
			at   *Term
			grow map[int64]*Term
			uses bool
		}
		var steps []step
		uses := false
		for _, t := range rec.trans {
			if t.from < 0 {
				continue
			}
			h := rec.heads[t.from].p.st
			s := step{t: t, grow: map[int64]*Term{}}
			for id, o := range h.heap {
				n := t.st.heap[id]
				if n == nil {
					continue
				}
				if o.kind == KCells {
					c := int64(0)
					if o.cells[hidMap] != nil {
						c = hidIdx
					} else if o.prov != "iter" {
						continue
					}
					if o.cells[c] == nil || n.cells[c] == nil {
						continue
					}
					if d := subT(t.st.res(n.cells[c]), h.res(o.cells[c])); !isInt(d, 0) {
						s.adv, s.at = d, h.res(o.cells[c])
					}
				}
				if o.kind == KLog && o.typ != nil && !isByteT(o.typ) {
					d := subT(logTotal(n.log), logTotal(o.log))
					s.grow[id] = d
					if t.st.eqInt(d, tOne) {
						lists[id] = true
					}
				}
			}
			for _, l := range t.logs {
				for _, p := range l {
					for _, r := range w.refs(p) {
						s.uses = s.uses || s.at != nil && r.key && t.st.eqInt(r.idx, s.at)
					}
				}
			}
			uses = uses || s.uses
			steps = append(steps, s)
		}
		for _, s := range steps {
			if uses && !s.uses && s.adv != nil && s.t.st.eqInt(s.adv, tOne) {
				w.bad("an iteration of the loop at %s goes on to the next entry without encoding the key of the entry %s", rec.pos, s.t.st.canon(s.at, 4))
				return
			}
		}
		for id := range lists {
			for _, s := range steps {
				if s.adv == nil || !s.t.st.eqInt(s.adv, tOne) || s.grow[id] == nil {
					continue
				}
				w.c.o.hits[w.c.rule+" kept"]++
				if !s.t.st.eqInt(s.grow[id], tOne) && (s.t.st.lt(s.grow[id], tOne) || s.t.st.lt(tOne, s.grow[id])) {
					w.bad("an iteration of the loop at %s adds %s elements to the list that entries are kept in, and goes on to the next entry", rec.pos, s.t.st.canon(s.grow[id], 4))
					return
				}
			}
		}
	}
}

// ref is what a piece of output is made from.
type ref struct {
	key  bool
	idx  *Term
	term *Term
}

func (w *mapWalk) refs(t *Term) []ref {
	var r []ref
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && (t.s == w.key || t.s == w.val) && len(t.a) == 2 {
			r = append(r, ref{t.s == w.key, t.a[1], t})
			return
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	walk(t)
	return r
}

// parse follows the entries in a part of the output from a position on.
func (w *mapWalk) parse(st *State, ps []*Term, at pcount, lu *listUse) (pcount, bool) {
	var open *ref // a key that was written, whose value was not
	text := ""    // since the key
	inKey := true
	closeEntry := func() bool {
		if open == nil {
			return true
		}
		i := strings.Index(text, ":")
		if i < 0 || strings.Trim(text[i+1:], ",}") == "" {
			w.bad("the key of the entry %s is written without its value", st.canon(open.idx, 4))
			return false
		}
		open = nil
		at.n = addT(at.n, tOne)
		return true
	}
	for _, p := range ps {
		switch p.s {
		case "lit":
			text += p.x.(string)
			continue
		case "byte":
			text += "?"
			continue
		case "elt":
			q, ok := w.eltEntry(st, p, lu)
			if !ok {
				w.und("what an element of the list holds (%s)", st.canon(p, 4))
				return at, false
			}
			n, ok := w.parse(st, q, at, nil)
			if !ok {
				return at, false
			}
			if !st.eqInt(n.n, addT(at.n, tOne)) {
				w.bad("an element of the list does not hold one entry")
				return at, false
			}
			at = n
			continue
		case "sum":
			if !closeEntry() {
				return at, false
			}
			var ok bool
			if at, ok = w.sum(st, p, at); !ok {
				return at, false
			}
			continue
		case "raw":
			b := p.a[0]
			if b.op == OApp && strings.HasPrefix(b.s, "ldsum:") {
				if !closeEntry() {
					return at, false
				}
				var ok bool
				if at, ok = w.fromList(st, p, at); !ok {
					return at, false
				}
				continue
			}
		}
		q := p
		if p.s == "elem" {
			if v := w.c.L.e.elemVal[p.a[0]]; v != nil {
				q = mkTuple(p, v)
			}
		}
		rs := w.refs(q)
		if len(rs) == 0 {
			if p.s == "zero" || p.s == "xform" || strings.HasPrefix(p.s, "tok:") {
				text += "?"
				continue
			}
			w.und("writes %s, which is no part of an entry", st.canon(p, 4))
			return at, false
		}
		for i := range rs {
			if rs[i].term.a[0] != w.m && w.c.same(rs[i].term.a[0], w.m) != 1 {
				w.und("whether the entries of %s are those of the map", rs[i].term.a[0].str(4))
				return at, false
			}
			if i > 0 && (rs[i].key != rs[0].key || rs[i].idx != rs[0].idx) {
				w.und("a part of the output made from more than a key or a value: %s", st.canon(p, 5))
				return at, false
			}
		}
		r := rs[0]
		if p.s == "elem" && p.x == nil && (w.key == "mapkeyptr" && !w.encoders(p, r) || w.key == "smkey" && !w.ifaceEncoders(st, p, r)) {
			return at, false
		}
		if p.s == "app" && w.key == "smkey" && !w.keyApp(p, r) {
			return at, false
		}
		if r.key {
			if open != nil && inKey && open.idx == r.idx {
				continue // another part of the same key
			}
			if !closeEntry() {
				return at, false
			}
			switch {
			case st.eqInt(r.idx, at.n):
			case st.lt(r.idx, at.n):
				w.bad("the entry %s is written again, where the entry %s is due", st.canon(r.idx, 4), st.canon(at.n, 4))
				return at, false
			case st.lt(at.n, r.idx):
				w.bad("the entry %s is left out: the entry %s is written in its place", st.canon(at.n, 4), st.canon(r.idx, 4))
				return at, false
			default:
				w.und("whether the entry %s is the one due (%s)", st.canon(r.idx, 4), st.canon(at.n, 4))
				return at, false
			}
			rr := r
			open, text, inKey = &rr, "", true
			continue
		}
		if open == nil {
			w.bad("the value of the entry %s is written without its key", st.canon(r.idx, 4))
			return at, false
		}
		inKey = false
		switch {
		case st.eqInt(r.idx, open.idx):
		case st.lt(r.idx, open.idx) || st.lt(open.idx, r.idx):
			w.bad("the value of the entry %s is written next to the key of the entry %s", st.canon(r.idx, 4), st.canon(open.idx, 4))
			return at, false
		default:
			w.und("whether key and value are of the same entry (%s, %s)", st.canon(r.idx, 4), st.canon(open.idx, 4))
			return at, false
		}
		text += ":?"
	}
	if !closeEntry() {
		return at, false
	}
	return at, true
}

// encoders: keys and values must be encoded by the encoders of their types, at
// the address the iterator gives.
func (w *mapWalk) encoders(p *Term, r ref) bool {
	c := w.c
	what, T := "the value", c.L.rt("rt.Elem", c.T())
	if r.key {
		what, T = "the key", c.L.rt("rt.Key", c.T())
	}
	if p.a[2] != r.term {
		if _, off := ptrParts(p.a[2]); baseOf(p.a[2]) == r.term && !isInt(off, 0) {
			w.bad("%s of an entry is read at %s", what, c.st.canon(p.a[2], 4))
			return false
		}
		w.und("whether %s of an entry is at %s", what, c.st.canon(p.a[2], 4))
		return false
	}
	f := c.sb.do(p.a[1])
	res, msg := 0, ""
	if r.key {
		res, msg = -1, "whether the encoder "+f.str(3)+" is that of the keys"
		for b := range c.o.keyBuilders() {
			if f.op == OApp && f.s == "built:"+shortName(b) && len(f.a) >= 1 {
				res, msg = c.same(f.a[0], T), "the keys are encoded with the encoder of "+c.st.canon(f.a[0], 4)
			}
		}
		if cs := c.o.coreParams(); cs != nil && f.op == OApp && f.s == "built:"+cs.name {
			res, msg = 0, "PTR the keys are encoded like values"
		}
	} else {
		res, msg = c.o.coreOf(T, tFalse, tFalse)(c, f)
	}
	switch res {
	case 0:
		w.fails = true
		c.badMarked([]string{"C13", "C11"}, msg)
	case -1:
		w.fails = true
		c.und([]string{"C13"}, "%s", msg)
	}
	return res == 1
}

// ifaceEncoders: the keys and values of a sync.Map are interfaces. They must be
// encoded by the encoder of their dynamic types; that of a key must be given
// the word of the interface, or the address of a copy of it for a type whose
// values are stored in the word itself.
func (w *mapWalk) ifaceEncoders(st *State, p *Term, r ref) bool {
	d := *w.c
	d.st = st.clone()
	what := "the value"
	if r.key {
		what = "the key"
	}
	f := d.sb.do(p.a[1])
	if !r.key && d.o.interfaceEncoder(f) {
		v := d.L.e.elemVal[p.a[0]]
		if v == nil || len(v.a) != 1 && len(v.a) != 2 {
			w.und("where %s of an entry is read (%s)", what, st.canon(p.a[2], 4))
			return false
		}
		for i, x := range d.L.e.flatten(types.NewInterfaceType(nil, nil), r.term) {
			if len(v.a) == 1 && d.same(v.a[0], r.term) == 1 {
				break
			}
			if i >= len(v.a) || d.same(v.a[i], x) != 1 {
				w.und("where %s of an entry is read (%s)", what, v.str(5))
				return false
			}
		}
		return true
	}
	name, ok := strings.CutPrefix(f.s, "built:")
	if f.op != OApp || !ok || len(f.a) < 1 || f.a[0].op != OApp || f.a[0].s != "typeof" || d.same(f.a[0].a[0], r.term) != 1 {
		w.und("whether %s of an entry is written by the encoder of its type (%s)", what, st.canon(f, 4))
		return false
	}
	T := f.a[0]
	isKey, cached := false, d.L.r.cached
	for b := range d.o.keyBuilders() {
		isKey = isKey || shortName(b) == name
	}
	if r.key && !isKey {
		w.bad("the keys of a sync.Map are encoded like values")
		return false
	}
	if !r.key && (cached == nil || shortName(cached) != name) {
		if isKey {
			w.bad("the values of a sync.Map are encoded like keys")
		} else {
			w.und("whether the value of an entry is written by the encoder of its type (%s)", st.canon(f, 4))
		}
		return false
	}
	word := mkApp("word", tUP, r.term)
	direct := d.same(p.a[2], word) == 1
	copied := false
	if v := d.L.e.elemVal[p.a[0]]; v != nil && len(v.a) == 1 {
		copied = d.same(v.a[0], word) == 1
	}
	if !direct && !copied {
		w.und("where %s of an entry is read (%s)", what, st.canon(p.a[2], 4))
		return false
	}
	if !r.key {
		if !direct {
			w.und("where %s of an entry is read (%s)", what, st.canon(p.a[2], 4))
		}
		return direct
	}
	props := []string{"C13", "C11", "C17"}
	d.inlinedCase(T, func(c *Ctx) {
		c.o.hits[c.rule+" key in the word"]++
		if direct {
			ok, w.fails = false, true
			c.bad(props, "the word of the interface is used as the address of the key, although the key is stored in the word itself")
		}
	}, func(c *Ctx) {
		c.o.hits[c.rule+" key behind the word"]++
		if !direct {
			ok, w.fails = false, true
			c.bad(props, "a key that is not stored in the word of the interface is read from the word")
		}
	})
	return ok
}

// keyApp: a key of a sync.Map is written by a function of its own.
func (w *mapWalk) keyApp(p *Term, r ref) bool {
	c := w.c
	f, ok := p.x.(*ssa.Function)
	if !ok || !r.key {
		w.und("whether an entry is written by %s as it should", p.str(3))
		return false
	}
	if w.done[f.String()] {
		return true
	}
	w.done[f.String()] = true
	if c.o.keyApps[f] {
		return true
	}
	if c.o.keyApps == nil {
		c.o.keyApps = map[*ssa.Function]bool{}
	}
	c.o.keyApps[f] = true
	x := c.L.function(f, c.L.r.encodeOpaque, false)
	var key *Term
	for i, q := range f.Params {
		if types.IsInterface(q.Type()) && !isReflectType(q.Type()) {
			key = x.args[i]
		}
	}
	if key == nil || !x.ok() {
		w.und("what %s writes (%s)", f.Name(), strings.Join(x.probs, "; "))
		return false
	}
	in := &Inst{root: f, x: x, st: c.L.e.base}
	c.o.runOutcomes(in, c.rule, func(d *Ctx) {
		if d.kind < 0 {
			return
		}
		d.opts = x.argT["opts"]
		v := &mapWalk{c: d, key: w.key, val: w.val}
		if len(d.log) != 1 || d.log[0].s != "elem" || d.log[0].x != nil {
			v.und("whether a key is written by its encoder (%s)", d.shown())
		} else {
			v.ifaceEncoders(d.st, d.log[0], ref{true, nil, key})
		}
		w.fails = w.fails || v.fails
	})
	return !w.fails
}

// interfaceEncoder: a function that encodes the values of empty interfaces.
func (o *Oracle) interfaceEncoder(f *Term) bool {
	if f.op != OFunc || o.L.r.core == nil {
		return false
	}
	for _, in := range o.L.instances(o.L.r.core) {
		if in.t == f && in.T != nil && in.st.rng(rtKind(in.T)).subset(single(kInterface)) && in.st.rng(mkApp("rt.NumMethod", tInt, in.T)).has(0) {
			return true
		}
	}
	return false
}

// fromList: one element of a list is written.
func (w *mapWalk) fromList(st *State, p *Term, at pcount) (pcount, bool) {
	base, lo, hi := p.a[0], p.a[1], p.a[2]
	sum, idx, off := base.a[0], base.a[1], base.a[2]
	rec, obj, ok := sumOf(sum)
	if !ok || off.op != OInt {
		w.und("the list that %s is read from", st.canon(base, 4))
		return at, false
	}
	if !isInt(lo, 0) || hi.op != OApp || !strings.HasPrefix(hi.s, "ldsum:") || hi.a[0] != sum || hi.a[1] != idx || !isInt(hi.a[2], off.n+8) {
		w.bad("a part of an element of the list is written: %s", st.canon(p, 4))
		return at, false
	}
	if at.list == nil && !isInt(at.n, 0) {
		w.bad("an element of the list is written after entries of the map")
		return at, false
	}
	if at.list != nil && at.list != sum {
		w.und("elements of two lists")
		return at, false
	}
	var perm *Term
	if idx.op == OApp && idx.s == "permidx" {
		perm, idx = idx.a[0], idx.a[1]
	}
	switch {
	case st.eqInt(idx, at.n):
	case st.lt(idx, at.n):
		w.bad("the element %s of the list is written where %s is due", st.canon(idx, 4), st.canon(at.n, 4))
		return at, false
	case st.lt(at.n, idx):
		w.bad("the element %s of the list is left out", st.canon(at.n, 4))
		return at, false
	default:
		w.und("whether the element %s of the list is the one due (%s)", st.canon(idx, 4), st.canon(at.n, 4))
		return at, false
	}
	mapLists[fmt.Sprintf("%p/%d", rec, obj)] = &listUse{rec, obj, off.n}
	if at.list != nil && at.perm != perm {
		w.und("a list that is sorted while it is written")
		return at, false
	}
	return pcount{addT(at.n, tOne), sum, perm}, true
}

// listLen is the number of entries in a list, in terms of the state after
// the loop that made it.
func (w *mapWalk) listLen(st *State, sum *Term, rec *LoopRec, obj int64) (*Term, bool) {
	at, ok := w.sum(st, sum, pcount{n: tZero})
	return at.n, ok
}

// sum: the entries that a loop has written.
func (w *mapWalk) sum(st *State, p *Term, at pcount) (pcount, bool) {
	rec, obj, ok := sumOf(p)
	if !ok {
		w.und("the output of a loop that is not known")
		return at, false
	}
	if !isInt(at.n, 0) {
		w.und("a loop that continues a list of entries")
		return at, false
	}
	return w.loop(st, rec, obj, int(p.n&0xffff))
}

type headPos struct {
	n    *Term
	list *Term
	perm *Term
	set  bool
}

// loop finds the position at the head of a loop and checks its iterations.
func (w *mapWalk) loop(st *State, rec *LoopRec, obj int64, head int) (pcount, bool) {
	hp, ok := w.heads(rec, obj)
	if !ok {
		return pcount{}, false
	}
	h := hp[head]
	if h == nil || !h.set {
		w.und("the number of entries written before the loop ends")
		return pcount{}, false
	}
	return pcount{h.n, h.list, h.perm}, true
}

var mapHeads = map[string]map[int]*headPos{}
var mapLists = map[string]*listUse{}

func (w *mapWalk) heads(rec *LoopRec, obj int64) (map[int]*headPos, bool) {
	k := fmt.Sprintf("%p/%d", rec, obj)
	if hp, ok := mapHeads[k]; ok {
		return hp, hp != nil
	}
	mapHeads[k] = nil
	lu := mapLists[fmt.Sprintf("%p/%d", rec, obj)]
	hp := map[int]*headPos{}
	for i := range rec.heads {
		hp[i] = &headPos{}
	}
	// the first entry that an iteration from a head writes
	for _, t := range rec.trans {
		if t.from < 0 {
			continue
		}
		if n, list, perm, ok := w.first(t.st, t.logs[obj], lu); ok && !hp[t.from].set {
			*hp[t.from] = headPos{n, list, perm, true}
		}
	}
	step := func(t *Trans) (pcount, bool, bool) {
		at := pcount{n: tZero}
		if t.from >= 0 {
			if !hp[t.from].set {
				return at, false, true
			}
			h := hp[t.from]
			at = pcount{h.n, h.list, h.perm}
		}
		at, ok := w.parse(t.st, t.logs[obj], at, lu)
		return at, ok, false
	}
	// heads no iteration from which writes anything
	for round := 0; round < len(rec.heads); round++ {
		for i := range rec.heads {
			if hp[i].set {
				continue
			}
			for _, t := range rec.trans {
				if t.to != i || t.from == i {
					continue
				}
				at, ok, unknown := step(t)
				if unknown {
					continue
				}
				if !ok {
					return nil, false
				}
				if cand := w.candidate(rec, i, obj, t, at, step, lu); cand != nil {
					*hp[i] = headPos{cand, at.list, at.perm, true}
					break
				}
			}
		}
	}
	// every iteration
	for _, t := range rec.trans {
		at, ok, unknown := step(t)
		if unknown {
			continue
		}
		if !ok {
			return nil, false
		}
		h := hp[t.to]
		if !h.set {
			w.und("the number of entries written when the loop at %s is at its head", rec.pos)
			return nil, false
		}
		want := w.bind(t, h.n)
		switch {
		case t.st.eqInt(want, at.n):
		case t.st.lt(at.n, want):
			w.bad("an iteration of the loop at %s goes on to the next entry without writing the entry %s", rec.pos, t.st.canon(at.n, 4))
			return nil, false
		case t.st.lt(want, at.n):
			w.bad("an iteration of the loop at %s writes an entry and does not go on to the next one", rec.pos)
			return nil, false
		default:
			w.und("whether an iteration of the loop at %s goes on to the next entry", rec.pos)
			return nil, false
		}
		if h.list != nil && t.from >= 0 && at.list != nil && (h.list != at.list || h.perm != at.perm) {
			w.und("the list that the loop at %s writes", rec.pos)
			return nil, false
		}
	}
	mapHeads[k] = hp
	return hp, true
}

// bind gives a term over the variables of the head an iteration ends at in
// terms of the iteration.
func (w *mapWalk) bind(t *Trans, n *Term) *Term {
	m := map[*Term]*Term{}
	for h, v := range t.bind {
		if v != nil {
			m[h] = t.st.res(v)
		}
	}
	return newSubst(m).do(n)
}

// candidate finds a variable of a head that counts the entries.
func (w *mapWalk) candidate(rec *LoopRec, i int, obj int64, t *Trans, at pcount, step func(*Trans) (pcount, bool, bool), lu *listUse) *Term {
	for h, v := range t.bind {
		if v == nil || h.op == OSlice || h.op == OPtr {
			continue
		}
		v = t.st.res(v)
		if v.op != OInt && v.op != OSym && v.op != OApp && v.op != OLin || !t.st.eqInt(v, at.n) {
			continue
		}
		good := true
		for _, o := range rec.trans {
			if o.to != i || o == t {
				continue
			}
			var a pcount
			if o.from == i {
				b, ok := w.parse(o.st, o.logs[obj], pcount{h, at.list, at.perm}, lu)
				if !ok {
					good = false
					break
				}
				a = b
			} else {
				b, ok, unknown := step(o)
				if unknown {
					continue
				}
				if !ok {
					return nil
				}
				a = b
			}
			if !o.st.eqInt(w.bind(o, h), a.n) {
				good = false
				break
			}
		}
		if good {
			return h
		}
	}
	return nil
}

// first is the position of the first entry in a part of the output.
func (w *mapWalk) first(st *State, ps []*Term, lu *listUse) (n, list, perm *Term, ok bool) {
	for _, p := range ps {
		if p.s == "elt" {
			if q, ok := w.eltEntry(st, p, lu); ok {
				return w.first(st, q, nil)
			}
			continue
		}
		if p.s == "raw" && p.a[0].op == OApp && strings.HasPrefix(p.a[0].s, "ldsum:") {
			b := p.a[0]
			i := b.a[1]
			if i.op == OApp && i.s == "permidx" {
				return i.a[1], b.a[0], i.a[0], true
			}
			return i, b.a[0], nil, true
		}
		q := p
		if p.s == "elem" {
			if v := w.c.L.e.elemVal[p.a[0]]; v != nil {
				q = mkTuple(p, v)
			}
		}
		if rs := w.refs(q); len(rs) > 0 {
			return rs[0].idx, nil, nil, true
		}
	}
	return nil, nil, nil, false
}

// eltEntry is what the field of a list element that is written holds.
func (w *mapWalk) eltEntry(st *State, p *Term, lu *listUse) ([]*Term, bool) {
	if lu == nil {
		return nil, false
	}
	o := st.heap[lu.obj]
	if o == nil {
		return nil, false
	}
	return w.c.L.e.leafContent(st, o.typ, p.a[0], lu.off)
}

// sorted checks the sort that the entries are written in the order of.
func (w *mapWalk) sorted(end pcount) {
	c := w.c
	rec, obj, _ := sumOf(end.list)
	if len(end.perm.a) != 2 || end.perm.a[1] != end.list {
		w.und("a list that is sorted in part")
		return
	}
	if !c.st.eqInt(end.perm.a[0], end.n) {
		w.bad("%s elements of a list of %s are sorted", c.st.canon(end.perm.a[0], 4), c.st.canon(end.n, 4))
		return
	}
	lu := mapLists[fmt.Sprintf("%p/%d", rec, obj)]
	var ev *Event
	for _, e := range c.x.events {
		if e.kind == "sort" && c.L.at(e.in) == end.perm.x {
			ev = e
		}
	}
	if ev == nil || lu == nil {
		w.und("the sort at %v", end.perm.x)
		return
	}
	cmp := c.L.comparator(ev)
	switch {
	case cmp.bad != "":
		w.bad("the comparison at %s %s", cmp.where, cmp.bad)
		return
	case cmp.und != "":
		w.und("the comparison of the sort at %v: %s", end.perm.x, cmp.und)
		return
	}
	// the field that is compared
	for _, t := range rec.trans {
		for _, p := range t.logs[obj] {
			if p.s != "elt" {
				continue
			}
			o := t.st.heap[obj]
			if o == nil {
				w.und("the elements of the list")
				return
			}
			w.keyField(t, o.typ, p, cmp.off, lu.off)
		}
	}
}

// keyField: the field that is compared must be the text of the key, of the
// entry in the field that is written.
func (w *mapWalk) keyField(t *Trans, typ types.Type, p *Term, ko, eo int64) {
	e, st := w.c.L.e, t.st
	ls, fs := e.leaves(typ), e.flatten(typ, p.a[0])
	at := func(off int64) (ptr, n *Term) {
		for i, l := range ls {
			if l.off == off && i+1 < len(ls) && i+1 < len(fs) && ls[i+1].off == off+8 {
				return st.res(fs[i]), st.res(fs[i+1])
			}
		}
		return nil, nil
	}
	if ko == eo {
		w.bad("the entries are ordered by key and value together, in quotes, and not by the text of the key")
		return
	}
	kp, kn := at(ko)
	ep, _ := at(eo)
	q, ok := e.leafContent(st, typ, p.a[0], eo)
	if kp == nil || ep == nil || !ok || len(q) == 0 {
		w.und("the fields of an element of the list")
		return
	}
	// length of the key
	var kl *Term = tZero
	for _, x := range q {
		if x.s == "lit" && strings.HasPrefix(x.x.(string), ":") {
			break
		}
		kl = addT(kl, pieceLen(x))
	}
	kb, koff := ptrParts(kp)
	eb, eoff := ptrParts(ep)
	if kb != eb {
		w.und("whether the field that is compared is the text of the key")
		return
	}
	d := subT(koff, eoff)
	endd := subT(addT(d, kn), kl)
	lo, okLo := st.constOf(d)
	hi, okHi := st.constOf(endd)
	switch {
	case !okLo || !okHi:
		w.und("whether the field that is compared is the text of the key")
	case lo != 0 && lo != 1 || hi != -1:
		w.bad("the field that is compared is not the text between the quotes of the key (from %d, to %d before its end)", lo, -hi)
	}
}

// Comparator is the comparison of a sort.
type Comparator struct {
	where    string
	off      int64 // of the field that is compared
	bad, und string
}

// comparator looks at the comparison a sort uses: it must order by the bytes
// of one field.
func (L *Lab) comparator(ev *Event) (r Comparator) {
	e := L.e
	r.where = L.at(ev.in)
	var f *ssa.Function
	three := false // -1, 0, 1 instead of a bool
	if less := ev.args[3]; less.op == OClos || less.op == OFunc {
		f, _ = less.x.(*ssa.Function)
	} else if ev.args[2].op == OTypeC {
		dt := ev.args[2].x.(types.Type)
		for _, n := range []string{"Len", "Swap", "Less"} {
			g := L.e.prog.LookupMethod(dt, nil, n)
			if g == nil {
				r.und = "no method " + n
				return
			}
			g = unwrapMethod(g)
			if n == "Less" {
				f = g
				continue
			}
			if msg := L.sortMethod(g, n); msg != "" {
				r.where = L.where(g)
				if strings.HasPrefix(msg, "?") {
					r.und = msg[1:]
				} else {
					r.bad = msg
				}
				return
			}
		}
	}
	if f == nil || f.Blocks == nil {
		r.und = "the function is not known"
		return
	}
	r.where = L.where(f)
	ps := f.Params
	if len(ps) < 2 {
		r.und = "its parameters"
		return
	}
	if f.Signature.Results().Len() == 1 && !isBoolT(f.Signature.Results().At(0).Type()) {
		three = true
	}
	st := e.base.clone()
	var args, bind []*Term
	for _, p := range ps {
		args = append(args, e.symArg(st, p.Name(), p.Type()))
	}
	for _, v := range f.FreeVars {
		bind = append(bind, e.symArg(st, v.Name(), v.Type()))
	}
	x := L.runFn("comparison "+shortName(f), f, args, bind, st, nil, false)
	if !x.ok() {
		r.und = x.probs[0]
		return
	}
	I, J := args[len(args)-2], args[len(args)-1]
	part := false
	side := func(t *Term) (which int, off int64, ok bool) {
		if t.op != OStr && t.op != OSlice {
			return
		}
		inI, inJ := saysOf(t, I), saysOf(t, J)
		if inI == inJ {
			return
		}
		which = 0
		A := I
		if inJ {
			which, A = 1, J
		}
		ptr := t.a[0]
		if I.op == OStruct || I.op == OSlice {
			// elements are passed by value
			ty := ps[len(ps)-2].Type()
			fs := e.flatten(ty, A)
			for i, l := range e.leaves(ty) {
				if i < len(fs) && fs[i] == ptr {
					return which, l.off, true
				}
			}
			return
		}
		if ptr.op != OApp || ptr.s != "ld8p" || len(ptr.a) != 2 {
			return
		}
		l := ptr.a[1]
		if n := t.a[1]; n.op == OInt {
			part = true
		} else if n.op != OApp || n.s != "ld8s" || len(n.a) != 2 || n.a[0] != ptr.a[0] || n.a[1] != addT(l, intC(8)) {
			return
		}
		if l == mulC(A, 1) {
			return which, 0, true
		}
		if l.op != OLin || len(l.a) != 1 || l.a[0] != A {
			return
		}
		return which, l.n, true
	}
	n := 0
	r.off = -1
	for _, o := range x.outs {
		// the comparison this path depends on
		var cmps []*Term
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == OApp && (t.s == "bytescmp" || t.s == "strlt") || t.op == OEq && len(t.a) == 2 && (t.a[0].op == OStr || t.a[0].op == OSlice) {
				cmps = append(cmps, t)
			}
			for _, a := range t.a {
				walk(a)
			}
		}
		for _, a := range sortedAtoms(o.st) {
			walk(a)
		}
		for t := range o.st.rngs {
			walk(t)
		}
		for t := range o.st.lins {
			walk(t)
		}
		walk(o.ret[0])
		if len(cmps) == 0 && L.lengthsOnly(o) {
			r.bad = "orders the elements by the length of the keys and not by their bytes"
			return
		}
		if len(cmps) == 0 {
			r.und = "it compares nothing the analysis knows"
			return
		}
		for _, sign := range []int64{-1, 0, 1} {
			st := o.st.clone()
			feasible := true
			for _, q := range cmps {
				wa, oa, ok1 := side(q.a[0])
				wb, ob, ok2 := side(q.a[1])
				if !ok1 || !ok2 || wa == wb {
					r.und = "it compares " + q.str(5)
					return
				}
				if part {
					r.bad = "compares only the beginning of the keys"
					return
				}
				if oa != ob {
					r.bad = "compares different fields of the two elements"
					return
				}
				if r.off >= 0 && r.off != oa {
					r.und = "it compares more than one field"
					return
				}
				r.off = oa
				s := sign
				if wa == 1 {
					s = -s
				}
				switch {
				case q.op == OEq:
					feasible = feasible && st.assume(q, s == 0)
				case q.s == "strlt":
					feasible = feasible && st.assume(q, s < 0)
				default:
					feasible = feasible && st.assumeIn(q, single(s)) && st.assume(st.eqTerms(q.a[0], q.a[1]), s == 0)
				}
			}
			if !feasible {
				continue
			}
			n++
			what := map[int64]string{-1: "is less", 1: "is greater"}[sign]
			if sign == 0 {
				continue // which of two equal keys comes first does not matter
			}
			if three {
				iv := st.bound(o.ret[0])
				if sign < 0 && iv.lo >= 0 || sign > 0 && iv.hi <= 0 {
					r.bad = "gives the wrong sign when the first key " + what
					return
				}
				if sign < 0 && iv.hi >= 0 || sign > 0 && iv.lo <= 0 {
					r.und = "its result when the first key " + what
					return
				}
				continue
			}
			d := st.decide(o.ret[0])
			if d == -1 {
				r.und = "its result when the first key " + what
				return
			}
			if (d == 1) != (sign < 0) {
				r.bad = map[int]string{0: "denies", 1: "claims"}[d] + " that the first element comes before the second one when its key " + what
				return
			}
		}
	}
	if n < 3 {
		r.und = "not all of its results were seen"
	}
	return
}

// lengthsOnly: does a path depend on lengths of fields only, and not because
// one of them is empty?
func (L *Lab) lengthsOnly(o Outcome) bool {
	st := o.st.clone()
	only, n := true, 0
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp {
			switch {
			case t.s == "ld8s" && len(t.a) == 2:
				n++
				if !st.assumeIn(t, between(1, INF)) {
					only = false
				}
			case t.s == "ld8p", t.s == "sptr", t.s == "slen", t.s == "scap", strings.HasPrefix(t.s, "fld"):
			default:
				only = false
			}
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	walk(o.ret[0])
	for _, a := range sortedAtoms(o.st) {
		walk(a)
	}
	for t := range o.st.rngs {
		walk(t)
	}
	return only && n >= 2
}

func saysOf(t, x *Term) bool {
	if x.op == OStruct || x.op == OSlice {
		for _, a := range x.a {
			if containsTerm(t, a) {
				return true
			}
		}
	}
	return containsTerm(t, x)
}

// unwrapMethod: the method that a wrapper for a pointer calls.
func unwrapMethod(f *ssa.Function) *ssa.Function {
	if f.Synthetic == "" {
		return f
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g.Name() == f.Name() {
					return g
				}
			}
		}
	}
	return f
}

// sortMethod checks the Len and Swap methods of a sort.
func (L *Lab) sortMethod(f *ssa.Function, name string) string {
	e := L.e
	st := e.base.clone()
	var args []*Term
	for _, p := range f.Params {
		args = append(args, e.symArg(st, p.Name(), p.Type()))
	}
	x := L.runFn("sort method "+shortName(f), f, args, nil, st, nil, false)
	if !x.ok() {
		return "?" + x.probs[0]
	}
	// the slice
	var find func(t *Term) *Term
	find = func(t *Term) *Term {
		if t.op == OSlice {
			return t
		}
		for _, a := range t.a {
			if s := find(a); s != nil {
				return s
			}
		}
		return nil
	}
	s := find(args[0])
	if s == nil {
		return "?the slice that is sorted"
	}
	if name == "Len" {
		for _, o := range x.outs {
			r := o.st.res(o.ret[0])
			if o.st.eqInt(r, s.a[1]) {
				continue
			}
			if o.st.lt(r, s.a[1]) || o.st.lt(s.a[1], r) {
				return "does not give the number of the elements"
			}
			return "?the number it gives"
		}
		return ""
	}
	// Swap: each element gets all of the other one
	if len(args) < 3 {
		return "?its parameters"
	}
	I, J := args[len(args)-2], args[len(args)-1]
	got := map[string]*Term{}
	var et types.Type
	for _, ev := range x.events {
		switch ev.kind {
		case "store-opaque":
			if len(ev.args) < 2 {
				return "?what it stores"
			}
			b, off := ptrParts(ev.st.res(ev.args[0]))
			if b != s.a[0] {
				return "?what it stores"
			}
			ty, ok := storedType(ev)
			if !ok {
				return "?what it stores"
			}
			fs := e.flatten(ty, ev.args[1])
			for i, l := range e.leaves(ty) {
				if i < len(fs) {
					got[addT(off, intC(l.off)).String()] = fs[i]
				}
			}
		case "log-store", "store-global", "store-var", "append", "usercall", "invoke", "callback":
			return "?what it does"
		}
	}
	if t, ok := x.fn.Params[0].Type().Underlying().(*types.Struct); ok {
		for i := 0; i < t.NumFields(); i++ {
			if st, ok := t.Field(i).Type().Underlying().(*types.Slice); ok {
				et = st.Elem()
				break
			}
		}
	} else if t, ok := x.fn.Params[0].Type().Underlying().(*types.Slice); ok {
		et = t.Elem()
	}
	if et == nil || len(x.outs) != 1 {
		return "?the elements it swaps"
	}
	size := e.sizes.Sizeof(et)
	for _, p := range [][2]*Term{{I, J}, {J, I}} {
		for _, l := range e.leaves(et) {
			v := got[addT(mulC(p[0], size), intC(l.off)).String()]
			if v == nil {
				return fmt.Sprintf("does not swap all of the elements (offset %d)", l.off)
			}
			if v.op != OApp || len(v.a) != 2 || v.a[0] != s.a[0] {
				return "?what it stores"
			}
			if v.a[1] != addT(mulC(p[1], size), intC(l.off)) {
				return fmt.Sprintf("does not swap the elements (offset %d)", l.off)
			}
		}
	}
	return ""
}

// storedType is the type of what a store writes.
func storedType(ev *Event) (types.Type, bool) {
	if s, ok := ev.in.(*ssa.Store); ok {
		return s.Val.Type(), true
	}
	return nil, false
}

// mapOrder adds nothing: the rules are applied to the paths.
func mapOrder(c *Check) {}
