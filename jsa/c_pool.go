package main

import (
	"go/types"
	"strings"
)

func init() { checks["C06"] = checkC06 }

// isBytes reports whether a type is a byte slice.
func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteT(s.Elem())
}

// checkC06: results are private, pooled objects start clean and are not used
// after their release.
func checkC06(c *Check) {
	L, e := c.L, c.L.e
	c.rule = "The objects taken from pools, and the memory they hold, are followed on every path of every function: an object from a pool holds whatever a path that gives objects to this pool may leave in it. On no path may an object, or memory it holds, be read, written, appended to or copied from after the object has been given back, directly or through the slices kept in a list; no object may be given back twice; no result may be memory that an object given back holds, memory of a package variable or of the value; no byte left in an object of a pool by an earlier call may be part of an output, and a map iterator must be zero before it is initialised; an object given to a pool may hold neither memory of the caller nor of the value."
	for _, x := range L.runAll() {
		if !c.use(x) {
			// a function the engine cannot follow matters if it uses pools
			continue
		}
		c.count("functions", 1)
		buf := L.bufParam(x)
		for _, o := range x.outs {
			c.count("paths", 1)
			for i, r := range o.ret {
				if i >= x.fn.Signature.Results().Len() || !isBytes(x.fn.Signature.Results().At(i).Type()) {
					continue
				}
				c.resultMemory(x, o, r, buf)
			}
		}
		for _, r := range x.recs {
			for _, t := range r.trans {
				for _, log := range t.logs {
					c.logMemory(x, t.st, r.pos, log)
				}
			}
		}
		for _, ev := range x.events {
			switch ev.kind {
			case "use-after-release":
				c.violate(L.at(ev.in), x.name, ev.note+", where another call can get it", pathOf(ev.st))
			case "dirty-iter":
				c.violate(L.at(ev.in), x.name, ev.note, pathOf(ev.st))
			case "pool-get":
				c.count("objects taken from pools", 1)
			case "pool-put":
				c.count("objects given to pools", 1)
				c.putMemory(x, ev)
			case "sort":
				for _, a := range ev.args {
					a = ev.st.res(a)
					if a.op != OSlice {
						continue
					}
					for _, p := range e.content(ev.st, a) {
						if p.s == "junk" && p.x == "stale" {
							c.violate(L.at(ev.in), x.name, "entries that an earlier call left in a list of a pool are sorted with the others", pathOf(ev.st))
						}
					}
				}
			case "append", "encode":
				for _, a := range ev.args {
					a = ev.st.res(a)
					if a.op != OSlice {
						continue
					}
					if o := ev.st.obj(baseOf(ev.st.res(a.a[0]))); o != nil && o.rel != "" {
						c.violate(L.at(ev.in), x.name, "memory that was released at "+o.rel+" is used", pathOf(ev.st))
					}
				}
			}
		}
	}
	if c.n["objects taken from pools"] < 4 || c.n["objects given to pools"] < 4 {
		c.undecided("only %d objects taken from pools and %d given to pools were found", c.n["objects taken from pools"], c.n["objects given to pools"])
	}
}

func (c *Check) resultMemory(x *Enc, o Outcome, r *Term, buf string) {
	L, e := c.L, c.L.e
	st := o.st
	r = st.res(r)
	if r.op != OSlice || st.bound(r.a[1]).hi == 0 && buf == "" {
		return
	}
	base := st.res(baseOf(st.res(r.a[0])))
	if base == tNil {
		return
	}
	c.count("results", 1)
	ob := st.obj(base)
	if ob == nil {
		if x.fn.Object() != nil && x.fn.Object().Exported() && buf == "" && x.isAPI() {
			c.violate(L.where(x.fn), x.name, "the result is not new memory but "+r.str(4), pathOf(st))
		}
		return
	}
	if ob.rel != "" {
		c.violate(L.where(x.fn), x.name, "the result is memory of an object that was given to a pool at "+ob.rel, pathOf(st))
	}
	if ob.prov == "global" && x.isAPI() {
		c.violate(L.where(x.fn), x.name, "the result is memory of the package variable "+ob.site, pathOf(st))
	}
	if ob.prov == "captured" {
		c.violate(L.where(x.fn), x.name, "the result is memory the encoder keeps", pathOf(st))
	}
	if L.e.appenderDst(x.fn) >= 0 || x.isAPI() {
		c.logMemory(x, st, L.where(x.fn), e.content(st, r))
	}
}

// isAPI: one of the functions callers use to encode.
func (x *Enc) isAPI() bool {
	if x.fn.Object() == nil || !x.fn.Object().Exported() || x.fn.Signature.Recv() != nil {
		return false
	}
	r := x.fn.Signature.Results()
	return r.Len() == 2 && isBytes(r.At(0).Type()) && isErrorT(r.At(1).Type())
}

// logMemory looks at what is written.
func (c *Check) logMemory(x *Enc, st *State, where string, ps []*Term) {
	for _, p := range ps {
		if p.s == "junk" && p.x == "stale" {
			c.violate(where, x.name, "what an earlier call left in an object of a pool is part of the output", pathOf(st))
		}
		if p.s != "raw" {
			continue
		}
		b := p.a[0]
		for _, src := range c.elemMemory(x, st, b) {
			if src.rel != "" {
				c.violate(where, x.name, "bytes are copied from memory that was released at "+src.rel, pathOf(st))
			}
		}
	}
}

// elemMemory finds the objects a slice read from a list written by a loop can
// point to.
func (c *Check) elemMemory(x *Enc, st *State, b *Term) []*Obj {
	var out []*Obj
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if rec, id, ok := sumOf(t); ok {
			for _, tr := range rec.trans {
				for _, p := range tr.logs[id] {
					for _, a := range p.a {
						findObjs(a, func(id *Term) {
							if o := st.obj(id); o != nil && o.kind == KLog {
								out = append(out, o)
							}
						}, map[*Term]bool{})
					}
				}
			}
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	walk(b)
	return out
}

func findObjs(t *Term, f func(*Term), seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OObj {
		f(t)
		return
	}
	for _, a := range t.a {
		findObjs(a, f, seen)
	}
}

// putMemory: what an object given to a pool holds.
func (c *Check) putMemory(x *Enc, ev *Event) {
	L, st := c.L, ev.st
	v := st.res(ev.args[1])
	if v.op == OMkI {
		v = v.a[0]
	}
	base := st.res(baseOf(v))
	o := st.obj(base)
	if o == nil {
		return
	}
	if o.rel != "" {
		c.violate(L.at(ev.in), x.name, "an object is given to a pool twice, the first time at "+o.rel, pathOf(st))
		return
	}
	for off, cell := range o.cells {
		cell = st.res(cell)
		if off < 0 || cell.op != OPtr && cell.op != OObj {
			if rootedAt(cell, "p", "dst", "v") && strings.HasPrefix(cell.s, "ld8p") {
				if o.typ != nil && isSliceAt(L.e, o.typ, off) {
					c.violate(L.at(ev.in), x.name, "an object given to a pool holds memory of the value: "+cell.str(4), pathOf(st))
				}
			}
			continue
		}
		b := st.res(baseOf(cell))
		if m := st.obj(b); m != nil {
			if strings.HasPrefix(m.prov, "arg") {
				c.violate(L.at(ev.in), x.name, "an object given to a pool holds memory of the caller", pathOf(st))
			}
			if m.prov == "global" || m.prov == "captured" {
				c.violate(L.at(ev.in), x.name, "an object given to a pool holds memory of "+m.site, pathOf(st))
			}
			if m.rel != "" && m.kind == KLog {
				c.violate(L.at(ev.in), x.name, "an object given to a pool holds memory of another object, released at "+m.rel, pathOf(st))
			}
		}
	}
}

// isSliceAt: does a field at this offset hold the data word of a slice?
func isSliceAt(e *Engine, t types.Type, off int64) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && e.fieldOff(s, i) == off {
			return true
		}
	}
	return false
}

// rootedAt: is a pointer read from one of these arguments?
func rootedAt(t *Term, names ...string) bool {
	for {
		if t.op == OSym {
			for _, n := range names {
				if t.s == n {
					return true
				}
			}
			return false
		}
		if len(t.a) == 0 {
			return false
		}
		t = t.a[0]
	}
}
