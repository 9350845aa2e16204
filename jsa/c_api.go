package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The exported functions: null for nil, the encoder of the dynamic type of the
// value with the options of the call, options applied and checked before.

// apiFuncs are the exported functions that encode a value.
func (L *Lab) apiFuncs() []*ssa.Function {
	var r []*ssa.Function
	for _, m := range sortedKeys(L.e.main.Members) {
		f, ok := L.e.main.Members[m].(*ssa.Function)
		if !ok || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil {
			continue
		}
		res := f.Signature.Results()
		if res.Len() != 2 || !isByteSlice(res.At(0).Type()) || !isErrorT(res.At(1).Type()) {
			continue
		}
		for _, p := range f.Params {
			if isEmptyIface(p.Type()) {
				r = append(r, f)
				break
			}
		}
	}
	return r
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func (o *Oracle) apiRules() {
	for _, f := range o.L.apiFuncs() {
		o.apiRule(f)
	}
}

func (o *Oracle) apiRule(f *ssa.Function) {
	L, e := o.L, o.L.e
	x := L.function(f, L.r.encodeOpaque, false)
	o.fns[x.name] = true
	bad := func(ps []string, st *State, format string, a ...any) {
		v := Viol{props: ps, where: L.where(f), fn: x.name, msg: fmt.Sprintf(format, a...)}
		if st != nil {
			v.path = pathOf(st)
		}
		o.add(v)
	}
	und := func(ps []string, format string, a ...any) {
		o.add(Viol{props: ps, where: L.where(f), fn: x.name, msg: fmt.Sprintf(format, a...), und: true})
	}
	all := []string{"C09", "C10", "C11", "C23"}
	if !x.ok() {
		und(all, "%s", strings.Join(x.probs, "; "))
		return
	}
	var v, opts, dst *Term
	for i, p := range f.Params {
		switch {
		case isEmptyIface(p.Type()):
			v = x.args[i]
		case isByteSlice(p.Type()):
			dst = x.args[i]
		default:
			if s, ok := p.Type().Underlying().(*types.Slice); ok && sigOf(s.Elem()) != nil {
				opts = x.args[i]
			}
		}
	}
	buf := ""
	if dst != nil {
		buf = L.bufParam(x)
	}
	ok := L.validOptions()
	for _, oc := range x.outs {
		o.paths++
		st := oc.st.clone()
		hasOpts := 0
		if opts != nil {
			hasOpts = st.decide(inT(opts.a[1], between(1, INF)))
		}
		isNil := st.decide(st.eqTerms(v, tNil))
		switch errKind(oc) {
		case -1: // fails
			et := errType(L, oc)
			r := st.res(oc.ret[0])
			if dst == nil && !(r == tNil || r.op == OSlice && (r.a[0] == tNil || st.decide(st.eqTerms(r.a[0], tNil)) == 1)) {
				bad([]string{"C09"}, st, "a slice is returned together with an error: %s", r.str(4))
			}
			switch {
			case strings.Contains(et, "InvalidOptionError"):
				o.hits["api / invalid options"]++
				if opts == nil {
					bad([]string{"C10"}, st, "the options are rejected though there are none")
					continue
				}
				if ok == nil {
					continue
				}
				if ctx, lay, df, known := L.appliedOpts(x, st); known {
					if st.decide(st.eqTerms(ctx, tNil)) == 0 && st.decide(inT(lay, single(0))) == 0 && ok.subset(st.rng(df)) {
						bad([]string{"C10"}, st, "valid options are rejected")
					}
				}
			case et == "err:encode":
				o.hits["api / failed value"]++
			case et == "":
				und([]string{"C09"}, "the error of a path: %s", st.res(oc.ret[1]).str(4))
			default:
				bad([]string{"C09", "C10"}, st, "the call fails with %s though nothing has failed", et)
			}
		case 1:
			if t := failTag(st); t != "" {
				bad([]string{"C09"}, st, "the call succeeds though %s has failed", t)
			}
			var ps []*Term
			if dst != nil {
				rest, good, desc := headOf(e, st, oc.ret[0], buf)
				if !good {
					und(all, "the result %s", desc)
					continue
				}
				ps = rest
			} else {
				r := st.res(oc.ret[0])
				if r.op != OSlice {
					bad([]string{"C09"}, st, "the call succeeds with %s", r.str(3))
					continue
				}
				ps = e.content(st, r)
			}
			if isNil == 1 {
				o.hits["api / nil"]++
				if s := logString(ps); s != "`null`" {
					bad([]string{"C23", "C01"}, st, "a nil value is written as %s", s)
				}
				continue
			}
			if len(ps) != 1 || ps[0].s != "elem" || ps[0].x != nil {
				if isNil != 0 && logString(ps) == "`null`" {
					bad([]string{"C23", "C11"}, st, "null is written for values that are not nil")
				} else if len(ps) == 0 {
					bad([]string{"C01", "C11"}, st, "nothing is written")
				} else {
					vague := false
					for _, p := range ps {
						vague = vague || p.s == "frag" || p.s == "junk" || p.s == "raw"
					}
					if vague {
						und(all, "what is written: %s", logString(ps))
					} else {
						bad([]string{"C01", "C11"}, st, "the value is written as %s", logString(ps))
					}
				}
				continue
			}
			if isNil != 0 {
				bad([]string{"C23"}, st, "a nil value is not written as null")
			}
			o.hits["api / value"]++
			p := ps[0]
			fn := st.res(p.a[1])
			if fn.op == OApp && strings.HasPrefix(fn.s, "built:") {
				if s := fn.a[len(fn.a)-1].str(4); !strings.Contains(s, "typeof") && len(fn.a) == 1 {
					und([]string{"C11"}, "the type whose encoder is used: %s", s)
				}
			}
			ov := st.res(p.a[3])
			if ov.op != OStruct {
				und([]string{"C10"}, "the options given to the encoder: %s", ov.str(4))
				continue
			}
			o.apiOptions(x, st, ov, hasOpts, opts, bad, und)
		default:
			und([]string{"C09"}, "whether a path fails: %s", st.res(oc.ret[1]).str(4))
		}
	}
	if opts != nil {
		o.applyRule(x, opts, bad, und)
	}
}

// failTag is the failed part of a path.
func failTag(st *State) string {
	for _, t := range sortedKeys(st.tags) {
		if s, ok := strings.CutPrefix(t, "fail:"); ok {
			return s
		}
	}
	return ""
}

// validOptions is the set of the known duration formats.
func (L *Lab) validOptions() Set {
	d := L.options()["DurationFormat"]
	if d == nil || len(d.fn.Params) != 1 {
		return nil
	}
	T := d.fn.Params[0].Type()
	var r Set
	sc := L.e.main.Pkg.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(k.Type(), T) && k.Exported() {
			if v, ok := constant.Int64Val(k.Val()); ok {
				if r == nil {
					r = single(v)
				} else {
					r = r.or(single(v))
				}
			}
		}
	}
	return r
}

// apiOptions checks the options a value is encoded with.
func (o *Oracle) apiOptions(x *Enc, st *State, ov *Term, hasOpts int, opts *Term, bad func([]string, *State, string, ...any), und func([]string, string, ...any)) {
	L := o.L
	C10 := []string{"C10"}
	ctx, lay, df := L.optField(ov, "WithContext"), L.optField(ov, "TimeLayout"), L.optField(ov, "DurationFormat")
	if ctx == nil || lay == nil || df == nil {
		und(C10, "where the options are kept")
		return
	}
	if hasOpts == 0 {
		o.hits["api / defaults"]++
		switch st.decide(st.eqTerms(ctx, tNil)) {
		case 1:
			bad(C10, st, "without options the context is nil")
		case -1:
			und(C10, "the default context %s", ctx.str(4))
		}
		if s, k := strOf(st, lay); !k {
			und(C10, "the default layout %s", lay.str(4))
		} else if s != time.RFC3339Nano {
			bad(C10, st, "without options the time layout is %q", s)
		}
		if want, k := L.constNamed("DurationNanoseconds"); k {
			if n, k := st.constOf(df); !k {
				und(C10, "the default duration format %s", df.str(4))
			} else if n != want {
				bad(C10, st, "without options the duration format is %d", n)
			}
		}
		for _, n := range sortedKeys(L.options()) {
			oe := L.options()[n]
			if oe.und != "" || n == "WithContext" || n == "TimeLayout" || n == "DurationFormat" {
				continue
			}
			if oe.mask != 0 || oe.val == tTrue {
				switch L.flag(st, ov, n) {
				case 1:
					bad(C10, st, "without options %s is set", n)
				case -1:
					und(C10, "whether %s is set without options", n)
				}
				continue
			}
			if f := L.optField(ov, n); f != nil {
				switch st.decide(st.eqTerms(f, tNil)) {
				case 0:
					bad(C10, st, "without options %s is set", n)
				case -1:
					und(C10, "whether %s is set without options", n)
				}
			}
		}
		return
	}
	o.hits["api / options"]++
	if !hasHole(ov) {
		bad(C10, st, "the value is encoded without the options of the call")
		return
	}
	st2 := st.clone()
	if st2.assume(st2.eqTerms(ctx, tNil), true) {
		bad(C10, st, "a nil context is accepted")
	}
	if n := strLen(lay); n != nil {
		st2 := st.clone()
		if st2.assumeIn(n, single(0)) {
			bad(C10, st, "an empty time layout is accepted")
		}
	}
	if ok := L.validOptions(); ok != nil {
		if got := st.rng(df); !got.subset(ok) {
			bad(C10, st, "unknown duration formats are accepted: %s", got)
		}
	}
}

func hasHole(t *Term) bool {
	if (t.op == OSym || t.op == OApp) && (strings.HasPrefix(t.s, "h#") || t.s == "havoc") {
		return true
	}
	for _, a := range t.a {
		if hasHole(a) {
			return true
		}
	}
	return false
}

func strLen(t *Term) *Term {
	if t.op == OStr {
		return t.a[1]
	}
	return nil
}

func strOf(st *State, t *Term) (string, bool) {
	t = st.res(t)
	if t.op == OStrC {
		return t.s, true
	}
	if t.op == OStr {
		p := st.res(t.a[0])
		if p.op == OApp && p.s == "strdata" && len(p.a) == 1 && p.a[0].op == OStrC {
			if n, ok := st.constOf(t.a[1]); ok && n == int64(len(p.a[0].s)) {
				return p.a[0].s, true
			}
		}
	}
	return "", false
}

// leafTerms are the settings as the loop over the options leaves them.
func (L *Lab) appliedOpts(x *Enc, _ *State) (ctx, lay, df *Term, ok bool) {
	for _, oc := range x.outs {
		if errKind(oc) != 1 {
			continue
		}
		var ps []*Term
		r := oc.st.res(oc.ret[0])
		if r.op == OSlice {
			ps = L.e.content(oc.st, r)
		}
		for _, p := range ps {
			if p.s != "elem" || p.x != nil {
				continue
			}
			ov := oc.st.res(p.a[3])
			if ov.op != OStruct || !hasHole(ov) {
				continue
			}
			c, l, d := L.optField(ov, "WithContext"), L.optField(ov, "TimeLayout"), L.optField(ov, "DurationFormat")
			if c == nil || l == nil || d == nil || strLen(l) == nil {
				return
			}
			return c, strLen(l), d, true
		}
	}
	return
}

// applyRule: the loop over the options applies all that are not nil.
func (o *Oracle) applyRule(x *Enc, opts *Term, bad func([]string, *State, string, ...any), und func([]string, string, ...any)) {
	e := o.L.e
	C10 := []string{"C10"}
	var ft types.Type
	for i, p := range x.fn.Params {
		if x.args[i] == opts {
			ft = p.Type().Underlying().(*types.Slice).Elem()
		}
	}
	found := false
	for _, r := range x.recs {
		uses := false
		for _, t := range r.trans {
			if t.from >= 0 && bindsHavoc(t) {
				uses = true
			}
		}
		if !uses {
			continue
		}
		n := counterOf(r)
		if n == nil {
			und(C10, "how the loop at %s goes over the options", r.pos)
			return
		}
		found = true
		for _, t := range r.trans {
			if t.from < 0 {
				continue
			}
			st := t.st.clone()
			el := e.load(st, nil, nil, mkPtr(opts.a[0], mulC(n, 8)), ft)
			o.hits["api / option of the loop"]++
			if bindsHavoc(t) {
				continue
			}
			if st.decide(st.eqTerms(el, tNil)) != 1 && st.assume(st.eqTerms(el, tNil), false) {
				bad(C10, t.st, "an option is not applied")
			}
		}
		for _, oc := range x.outs {
			st := oc.st.clone()
			if st.decide(st.eqTerms(x.args[0], tNil)) == 1 || st.decide(inT(opts.a[1], between(1, INF))) != 1 {
				continue
			}
			if !mentions(oc.st, n) {
				continue
			}
			if st.assumeIn(subT(opts.a[1], n), between(1, INF)) {
				bad(C10, oc.st, "the options that follow are not applied")
			}
		}
	}
	if !found {
		und(C10, "how the options are applied")
	}
	for _, ev := range x.events {
		if ev.kind == "nilcall" {
			bad(C10, ev.st, "a nil option is called at %s", o.L.at(ev.in))
		}
	}
}

func mentions(st *State, n *Term) bool {
	for t := range st.lins {
		if containsTerm(t, n) {
			return true
		}
	}
	for t := range st.rngs {
		if containsTerm(t, n) {
			return true
		}
	}
	return false
}

func bindsHavoc(t *Trans) bool {
	for _, v := range t.bind {
		if v.op == OApp && v.s == "havoc" {
			return true
		}
	}
	return false
}

// counterOf is the position a loop starts at 0 and moves by 1.
func counterOf(r *LoopRec) *Term {
	cand := map[*Term]bool{}
	for _, t := range r.trans {
		if t.from >= 0 {
			continue
		}
		for h, v := range t.bind {
			if isInt(v, 0) || isInt(v, -1) {
				cand[h] = true
			}
		}
	}
	for _, t := range r.trans {
		if t.from < 0 {
			continue
		}
		for h := range cand {
			v := t.bind[h]
			if v == nil || v != addT(h, intC(1)) {
				delete(cand, h)
			}
		}
	}
	for _, h := range sortedTermSet(cand) {
		return h
	}
	return nil
}

func sortedTermSet(m map[*Term]bool) []*Term {
	q := map[*Term]*Term{}
	for t := range m {
		q[t] = t
	}
	return sortedTerms(q)
}

func init() {
	oracleMore["C10"] = func(c *Check) { c.optionRules() }
}

// optionRules: every option sets its own setting, whatever the others are.
func (c *Check) optionRules() {
	L := c.L
	opts := L.options()
	if len(opts) < 5 {
		c.undecided("the options were not found")
	}
	type own struct {
		name string
		oe   *OptEffect
	}
	by := map[int][]own{}
	for _, n := range sortedKeys(opts) {
		oe := opts[n]
		c.saw(n)
		c.count("options", 1)
		if oe.und != "" {
			c.undecided("%s", oe.und)
			continue
		}
		if len(oe.multi) == 0 {
			c.violate(L.where(oe.fn), n, "the option "+n+" has no effect", "")
			continue
		}
		if m := oe.losesFlags(opts); m != "" {
			c.violate(L.where(oe.fn), n, m, "")
			continue
		}
		if oe.bad != "" {
			c.violate(L.where(oe.fn), n, oe.bad, "")
			continue
		}
		if len(oe.multi) > 1 {
			c.undecided("the option %s changes %d settings", n, len(oe.multi))
			continue
		}
		c.sample("%s sets setting %d, mask %#x, to %s", n, oe.field, oe.mask, oe.val.str(4))
		by[oe.field] = append(by[oe.field], own{n, oe})
		// the argument of the option
		if len(oe.arg) == 1 && oe.mask == 0 {
			switch n {
			case "WithContext", "TimeLayout", "DurationFormat":
				switch oe.st.decide(oe.st.eqTerms(oe.val, oe.arg[0])) {
				case 0:
					c.violate(L.where(oe.fn), n, "the setting is not the argument of the option but "+oe.val.str(4), "")
				case -1:
					if oe.st.res(oe.val) != oe.st.res(oe.arg[0]) {
						if constTerm(oe.val) {
							c.violate(L.where(oe.fn), n, "the setting is not the argument of the option but "+oe.val.str(4), "")
						} else {
							c.undecided("whether the option %s stores its argument", n)
						}
					}
				}
			}
		}
	}
	for _, os := range by {
		for i := range os {
			for _, p := range os[i+1:] {
				q := os[i]
				switch {
				case p.oe.mask != 0 && q.oe.mask != 0:
					if p.oe.mask&q.oe.mask != 0 {
						c.violate(L.where(p.oe.fn), p.name, fmt.Sprintf("%s and %s set the same flag", q.name, p.name), "")
					}
				case p.oe.mask == 0 && constTerm(p.oe.val):
					c.violate(L.where(p.oe.fn), p.name, fmt.Sprintf("%s overwrites what %s sets", p.name, q.name), "")
				case q.oe.mask == 0 && constTerm(q.oe.val):
					c.violate(L.where(q.oe.fn), q.name, fmt.Sprintf("%s overwrites what %s sets", q.name, p.name), "")
				case p.oe.mask == 0 && q.oe.mask == 0 && len(p.oe.arg) == 1 && len(q.oe.arg) == 1 && onlyArgs(p.oe) && onlyArgs(q.oe):
					c.violate(L.where(p.oe.fn), p.name, fmt.Sprintf("%s and %s store to the same setting", q.name, p.name), "")
				default:
					c.undecided("whether %s and %s change the same setting", q.name, p.name)
				}
			}
		}
	}
}

// onlyArgs: is what an option stores its argument or a new object?
func onlyArgs(oe *OptEffect) bool {
	return oe.val == oe.arg[0] || oe.val.op == OPtr && oe.val.a[0].op == OObj
}

func constTerm(t *Term) bool {
	switch t.op {
	case OInt, OBool, OStrC, ONil:
		return true
	case OStr, OSlice, OIface, OStruct, OPtr, OApp:
		if t.op == OApp && t.s != "strdata" {
			return false
		}
		for _, a := range t.a {
			if !constTerm(a) {
				return false
			}
		}
		return len(t.a) > 0
	}
	return false
}
