package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C05"] = checkC05
	checks["C22"] = checkC22
}

// problems of the analysis of a function make it undecided.
func (c *Check) use(x *Enc) bool {
	c.saw(x.name)
	for _, p := range x.probs {
		c.undecided("%s: %s", x.name, p)
	}
	return x.ok()
}

// bufParam is the name of the buffer parameter of a function.
func (L *Lab) bufParam(x *Enc) string {
	d := L.e.appenderDst(x.fn)
	if d < 0 || d >= len(x.fn.Params) {
		return ""
	}
	if x.isEnc() {
		return "dst"
	}
	return x.fn.Params[d].Name()
}

// headOf splits the content of a result into the bytes of the buffer and the rest.
func headOf(e *Engine, st *State, v *Term, buf string) (rest []*Term, ok bool, desc string) {
	v = st.res(v)
	if v.op != OSlice {
		return nil, false, "the result is " + v.str(3)
	}
	ps := e.content(st, v)
	base, n := sym(buf+".mem", nil), sym(buf+".len", nil)
	if len(ps) > 0 && ps[0].s == "raw" && isInt(ps[0].a[1], 0) {
		b, hi := ps[0].a[0], ps[0].a[2]
		if b.op == OSym && b.s == base.s && hi.op == OSym && hi.s == n.s {
			return ps[1:], true, ""
		}
	}
	// an empty buffer
	if st.bound(symOf(st, n.s)).hi == 0 {
		return ps, true, ""
	}
	return ps, false, logString(ps)
}

func symOf(st *State, name string) *Term { return sym(name, tInt) }

// checkC05: what is returned starts with the bytes of the caller.
func checkC05(c *Check) {
	L, e := c.L, c.L.e
	c.rule = "For every encoder that can be made for a type, every appender and every exported function with a buffer, each path is followed with a symbolic buffer of unknown content, length and capacity. On every path the returned slice must be, byte for byte, the unchanged buffer [0,len) followed by new pieces (an exported function may return nil when it rejects the options); and no condition of any path, loop iteration included, may depend on a byte of the buffer."
	for _, x := range L.runAll() {
		buf := L.bufParam(x)
		if buf == "" {
			continue
		}
		if !c.use(x) {
			continue
		}
		c.count("functions", 1)
		api := x.fn.Object() != nil && x.fn.Object().Exported()
		for _, o := range x.outs {
			c.count("paths", 1)
			v := o.st.res(o.ret[0])
			if api && errKind(o) < 0 && (v == tNil || v.op == OSlice && o.st.bound(v.a[1]).hi == 0) {
				if optionError(L, o) {
					c.count("option errors", 1)
					continue
				}
				c.violate(L.where(x.fn), x.name, "the bytes of the caller are dropped when encoding fails", pathOf(o.st))
				continue
			}
			rest, ok, desc := headOf(e, o.st, v, buf)
			if !ok {
				if hasJunkHead(desc) {
					c.undecided("%s: the content of the result is not known (%s)", x.name, desc)
					continue
				}
				c.violate(L.where(x.fn), x.name, "the result does not start with the bytes that were in the buffer: "+desc, pathOf(o.st))
				continue
			}
			if readsBuf(rest, buf) {
				c.violate(L.where(x.fn), x.name, "bytes of the buffer are copied again behind it", pathOf(o.st))
			}
			if b := bufFact(o.st, buf); b != "" {
				c.violate(L.where(x.fn), x.name, "the output depends on what precedes it in the buffer: "+b, pathOf(o.st))
			}
		}
		for _, r := range x.recs {
			for _, t := range r.trans {
				c.count("loop transitions", 1)
				if b := bufFact(t.st, buf); b != "" {
					c.violate(r.pos, x.name, "the output depends on what precedes it in the buffer: "+b, pathOf(t.st))
				}
			}
		}
		c.sample("%s: %d paths, each returns %s[0:len] followed by new pieces", x.name, len(x.outs), buf)
	}
	if c.n["functions"] < 20 {
		c.undecided("only %d functions with a buffer were found", c.n["functions"])
	}
}

func hasJunkHead(desc string) bool {
	return strings.HasPrefix(desc, "junk") || strings.HasPrefix(desc, "frag") || strings.HasPrefix(desc, "the result is")
}

// optionError: does the error of a path say that the options are invalid?
func optionError(L *Lab, o Outcome) bool {
	return strings.Contains(errType(L, o), "InvalidOptionError")
}

// errType is the type of the error of a path, if it is known.
func errType(L *Lab, o Outcome) string {
	r := o.st.res(o.ret[len(o.ret)-1])
	switch r.op {
	case OMkI:
		return shortType(r.x.(types.Type))
	case OApp:
		if r.s == "mkerr" {
			return "mkerr"
		}
		if r.s == "err" {
			return "err:" + r.a[0].s
		}
	}
	return ""
}

func readsBuf(ps []*Term, buf string) bool {
	for _, p := range ps {
		if p.s == "raw" && p.a[0].op == OSym && p.a[0].s == buf+".mem" {
			return true
		}
	}
	return false
}

// bufFact finds a condition on the bytes of the buffer.
func bufFact(st *State, buf string) string {
	memo := map[*Term]bool{}
	var reads func(t *Term) bool
	reads = func(t *Term) bool {
		if v, ok := memo[t]; ok {
			return v
		}
		memo[t] = false
		r := false
		if t.op == OApp && len(t.a) >= 1 {
			b := t.a[0]
			if b.op == OPtr {
				b = b.a[0]
			}
			if b.op == OSym && b.s == buf+".mem" {
				r = true
			}
		}
		for _, a := range t.a {
			r = r || reads(a)
		}
		memo[t] = r
		return r
	}
	for t := range st.atoms {
		if reads(t) {
			return t.str(5)
		}
	}
	for t := range st.rngs {
		if s := st.rngs[t]; reads(t) && !s.eq(typeSet(t)) {
			return t.str(5)
		}
	}
	return ""
}

func typeSet(t *Term) Set { return typeRange(t) }

// checkC22: no operation can fail at run time.
func checkC22(c *Check) {
	L := c.L
	c.rule = "Every function of the library and of the benchmark table converter is followed with symbolic arguments; each index, slice expression, division, type assertion, call of a function value and make on a path is an obligation. It is discharged if the facts of the path (ranges, linear bounds, loop invariants found by fixpoint, type facts) imply that it cannot fail. One that is not implied is reported."
	L.strMaker = func(t *Term, st *State) bool { return false }
	run := func(L *Lab, pkg string) {
		for _, x := range L.runAll() {
			if !c.use(x) {
				continue
			}
			c.count("functions", 1)
			c.count("paths", len(x.outs))
			for _, ob := range x.oblig {
				c.count("obligations", 1)
				if ob.fail == 0 && ob.unk > 0 {
					c.count("not followed", 1)
					c.skip("%s %s: %s", L.at(ob.in), x.name, ob.desc)
					continue
				}
				if ob.fail == 0 {
					c.count("discharged", 1)
					c.sample("%s %s: %s holds on %d paths", L.at(ob.in), x.name, ob.desc, ob.ok)
					continue
				}
				c.violate(L.at(ob.in), shortName(ob.fn), fmt.Sprintf("%s may fail: %s", ob.desc, ob.why), "from "+x.name)
			}
			for _, ev := range x.events {
				switch ev.kind {
				case "panic":
					c.violate(L.at(ev.in), x.name, "a panic can be reached", pathOf(ev.st))
				case "nilderef":
					c.violate(L.at(ev.in), x.name, "a nil pointer is followed", pathOf(ev.st))
				}
			}
		}
	}
	run(L, "library")
}

var _ = ssa.NewConst
