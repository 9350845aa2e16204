package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- floats ----------

func containsTerm(t, v *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.a {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// float matches the text of a float at the beginning of a list of items.
func (c *Ctx) float(x floatExp, its []item) (int, *mres) {
	if its[0].p == nil && strings.IndexByte("0123456789-", its[0].ch) < 0 {
		return 0, mbad("writes %q where the text of a float is due", string(its[0].ch))
	}
	base := floatBase(x.v)
	n := 0
	for n < len(its) && c.st.floatPart(its[n], base) {
		n++
	}
	if n > 0 {
		if r := c.floatText(x.v, its[:n], x.bits); r != nil {
			return 0, r
		}
		return n, nil
	}
	p := its[0].p
	tok := p
	if p.s == "part" && len(p.a) == 3 {
		tok = p.a[1]
	}
	if tok.op != OPiece && tok.op != OTuple && tok.op != OApp || tokKind(tok) != "float" {
		if c.vague(p) {
			return 0, mund("%s where the text of a float is due", c.show(p))
		}
		return 0, mbad("writes %s where the text of a float is due", c.show(p))
	}
	if tok != p {
		return 0, mund("a part of %s", c.show(p))
	}
	a := tokArgs(tok)
	if len(a) != 4 {
		return 0, mund("the text of a float")
	}
	v, w := floatBase(c.norm(a[0])), base
	switch c.same(v, w) {
	case 0:
		return 0, mbad("formats %s instead of %s", c.st.canon(v, 6), c.st.canon(w, 6))
	case -1:
		return 0, mund("whether %s is %s", c.st.canon(v, 6), c.st.canon(w, 6))
	}
	// the same under another name
	b := []item{{p: retok(tok, c.norm(x.v))}}
	if r := c.floatText(x.v, b, x.bits); r != nil {
		return 0, r
	}
	return 1, nil
}

// retok is the token with another value.
func retok(tok, v *Term) *Term {
	a := append([]*Term{}, tokArgs(tok)...)
	a[0] = v
	return piece("tok", 0, tokKind(tok), append([]*Term{pieceLen(tok)}, a...)...)
}

// floatCase splits off the values that have no text.
func (c *Ctx) floatCase(v *Term, bits int64, props []string, strict bool, then func(c *Ctx)) {
	finite, other, unknown := c.floatKind(v)
	if finite == nil && other == nil && !unknown {
		return // no float takes the path
	}
	if c.kind < 0 {
		switch {
		case finite == nil && !unknown:
			if strict {
				c.o.hits[c.rule+" / not finite"]++
				c.expectErr([]string{"C21"}, "UnsupportedValueError")
			}
			return
		case strict && finite == nil:
			c.und([]string{"C21"}, "whether finite floats are rejected")
			return
		case strict:
			c.bad([]string{"C21", "C11"}, "a finite float (%s) is rejected with %s", showFloat(finite), c.errName())
			return
		}
	}
	if c.kind > 0 && strict && other != nil {
		c.bad([]string{"C21"}, "%s is written and not rejected", showFloat(other))
		return
	}
	then(c)
}

// ---------- the driver ----------

// runOutcomes hands every path of an instance to a rule.
func (o *Oracle) runOutcomes(in *Inst, rule string, then func(c *Ctx)) {
	L := o.L
	o.insts++
	x := in.x
	o.fns[x.name] = true
	sb := newSubst(in.vals)
	for _, out := range x.outs {
		o.paths++
		st := out.st.clone()
		renameState(st, sb, nil)
		if !addFacts(st, in.st, newSubst(nil)) {
			continue
		}
		log, ok := tail(L.e, out)
		c := &Ctx{o: o, L: L, in: in, x: x, st: st, sb: sb, p: x.argT["p"], opts: x.argT["opts"], headOK: ok, kind: errKind(out), out: out, rule: rule}
		for _, q := range log {
			c.log = append(c.log, sb.do(q))
		}
		then(c)
	}
}

// goTypes are the types that keep their own encoding whatever their methods.
func (L *Lab) goTypes() []*Term {
	return []*Term{L.typeNamed("time", "Time"), L.typeNamed("time", "Duration"), L.typeNamed("encoding/json", "Number"),
		L.typeNamed("encoding/json", "RawMessage"), L.typeNamed("sync", "Map")}
}

// marshalerTypes are the interfaces of the methods that encode, in order.
func (L *Lab) marshalerTypes() []*Term {
	return []*Term{L.typeNamed("", "AppendMarshalerCtx"), L.typeNamed("", "AppendMarshaler"),
		L.typeNamed("encoding/json", "Marshaler"), L.typeNamed("encoding", "TextMarshaler")}
}

const (
	kBool = 1 + iota
	kInt
	kInt8
	kInt16
	kInt32
	kInt64
	kUint
	kUint8
	kUint16
	kUint32
	kUint64
	kUintptr
	kFloat32
	kFloat64
	kComplex64
	kComplex128
	kArray
	kChan
	kFunc
	kInterface
	kMap
	kPtr
	kSlice
	kString
	kStruct
	kUnsafePointer
)

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr",
	"float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "pointer", "slice", "string", "struct", "unsafe pointer"}

// runAll applies the rules to all encoders.
func (o *Oracle) runAll() {
	L := o.L
	cs := o.coreParams()
	if cs == nil {
		o.add(Viol{props: nil, msg: "the function that makes the encoder of a type is not known", und: true})
		return
	}
	for _, in := range L.instances(L.r.core) {
		o.instance(in)
	}
	o.cachedRule()
	o.keyRules()
	o.apiRules()
}

// split goes on with both values of a condition.
func (c *Ctx) split(cond func(st *State) *Term, yes, no func(c *Ctx)) {
	q := cond(c.st)
	switch c.st.decide(q) {
	case 1:
		if yes != nil {
			yes(c)
		}
		return
	case 0:
		if no != nil {
			no(c)
		}
		return
	}
	if yes != nil {
		d := *c
		d.st = c.st.clone()
		if d.st.assume(q, true) {
			yes(&d)
		}
	}
	if no != nil {
		d := *c
		d.st = c.st.clone()
		if d.st.assume(q, false) {
			no(&d)
		}
	}
}

// named continues under a rule.
func (c *Ctx) named(rule string, then func(c *Ctx)) {
	d := *c
	d.rule = rule
	d.o.hits[rule]++
	then(&d)
}

// instance applies the rules to an encoder the core builder makes.
func (o *Oracle) instance(in *Inst) {
	L := o.L
	if in.x == nil {
		o.opaque(in)
		return
	}
	if !in.x.ok() {
		o.add(Viol{props: nil, where: L.where(in.x.fn), fn: in.x.name, msg: strings.Join(in.x.probs, "; "), und: true})
		return
	}
	o.runOutcomes(in, "", func(c *Ctx) {
		o.dispatch(c, func(c *Ctx) { c.kindRules() })
	})
}

// opaque checks an encoder that is made elsewhere.
func (o *Oracle) opaque(in *Inst) {
	t := in.t
	if t.op == OApp && t.s == "assert" {
		return // found in a cache (C16)
	}
	c := &Ctx{o: o, L: o.L, in: in, st: in.st.clone(), sb: newSubst(nil), kind: 1, opts: nil}
	if t.op != OApp || !strings.HasPrefix(t.s, "built:") {
		c.rule = "encoder"
		c.und([]string{"C11"}, "what the encoder %s writes", t.str(3))
		return
	}
	var f *ssa.Function
	for g := range o.L.r.structB {
		if "built:"+g.Name() == t.s {
			f = g
		}
	}
	o.dispatch(c, func(c *Ctx) {
		st := c.st
		k := st.rng(rtKind(c.T()))
		switch {
		case f != nil && k.subset(single(kStruct)):
			c.named("struct", func(c *Ctx) {
				for i, p := range f.Params {
					if isReflectType(p.Type()) && c.same(t.a[i], c.T()) != 1 {
						c.bad([]string{"C14", "C11"}, "the encoder of %s is used for a struct", t.a[i].str(3))
					}
					if isBoolT(p.Type()) {
						want := c.addr()
						if st.decide(t.a[i]) != st.decide(want) && t.a[i] != want {
							c.bad([]string{"C12"}, "addressability is %s and not %s for the fields of a struct", t.a[i].str(3), want.str(3))
						}
					}
				}
			})
		case f != nil:
			for kk := int64(1); kk <= 26; kk++ {
				if kk != kStruct && k.has(kk) {
					c.rule = kindNames[kk]
					c.bad([]string{"C11"}, "values are written as structs")
				}
			}
		default:
			c.rule = "encoder"
			c.und([]string{"C11"}, "what the encoder %s writes", t.str(3))
		}
	})
}

// addr is the parameter of the core builder that tells whether values can be
// addressed, quoted the one for the string tag option.
func (c *Ctx) addr() *Term   { return c.param(c.o.coreParams().addr) }
func (c *Ctx) quoted() *Term { return c.param(c.o.coreParams().quoted) }
func (c *Ctx) param(i int) *Term {
	x, _ := c.L.builds(c.L.r.core)
	return x.args[i]
}

// dispatch chooses the rule of a type: the types with their own encoding, the
// marshaling methods, then the kinds.
func (o *Oracle) dispatch(c *Ctx, rest func(c *Ctx)) {
	L := o.L
	gts := L.goTypes()
	var gt func(c *Ctx, i int)
	var pt func(c *Ctx, i int)
	gt = func(c *Ctx, i int) {
		if i == len(gts) {
			c.split(func(st *State) *Term { return inT(st.res(rtKind(c.T())), single(kPtr)) },
				func(c *Ctx) { pt(c, 0) },
				func(c *Ctx) { o.methods(c, 0, rest) })
			return
		}
		c.split(func(st *State) *Term { return st.eqTerms(c.T(), gts[i]) },
			func(c *Ctx) { c.named(shortType(gts[i].x.(types.Type)), func(c *Ctx) { o.goRule(c, gts[i]) }) },
			func(c *Ctx) { gt(c, i+1) })
	}
	pt = func(c *Ctx, i int) {
		if i == len(gts) {
			o.methods(c, 0, rest)
			return
		}
		c.split(func(st *State) *Term { return st.eqTerms(L.rt("rt.Elem", c.T()), gts[i]) },
			func(c *Ctx) {
				c.named("pointer to "+shortType(gts[i].x.(types.Type)), func(c *Ctx) { c.pointer([]string{"C12"}) })
			},
			func(c *Ctx) { pt(c, i+1) })
	}
	gt(c, 0)
}

// methods chooses the marshaling method of a type.
func (o *Oracle) methods(c *Ctx, i int, rest func(c *Ctx)) {
	ms := o.L.marshalerTypes()
	if i == len(ms) {
		rest(c)
		return
	}
	I := ms[i]
	if I == nil {
		o.methods(c, i+1, rest)
		return
	}
	nm := I.x.(types.Type).(*types.Named).Obj().Name()
	next := func(c *Ctx) { o.methods(c, i+1, rest) }
	impl := func(T *Term) func(st *State) *Term {
		return func(st *State) *Term { return o.L.implements(st, T, I) }
	}
	c.split(impl(c.T()), func(c *Ctx) {
		c.named(nm+" method", func(c *Ctx) { o.methodRule(c, i, false) })
	}, func(c *Ctx) {
		c.split(func(st *State) *Term { return inT(st.res(rtKind(c.T())), single(kPtr)) }, next, func(c *Ctx) {
			c.split(func(st *State) *Term { return c.addr() }, func(c *Ctx) {
				c.split(impl(o.L.rt("rt.PtrTo", c.T())), func(c *Ctx) {
					c.named(nm+" method of the pointer", func(c *Ctx) { o.methodRule(c, i, true) })
				}, next)
			}, next)
		})
	})
}

// isNil splits on whether the word at the address of the value is nil.
func (c *Ctx) isNil(w *Term, yes, no func(c *Ctx)) {
	c.split(func(st *State) *Term { return st.eqTerms(w, tNil) }, yes, no)
}

func (c *Ctx) word(off int64) *Term { return c.load(off, tUP) }

// opaqueEnc: is the path one of an encoder made elsewhere?
func (c *Ctx) opaqueEnc() bool { return c.x == nil }

// pointer is the rule of pointers.
func (c *Ctx) pointer(props []string) {
	if c.wrongEncoder(props) {
		return
	}
	w := c.word(0)
	c.isNil(w, func(c *Ctx) {
		c.rule += " / nil"
		c.expect([]string{"C23"}, "null")
	}, func(c *Ctx) {
		c.expect(c.nullish(props), c.elem("the value the pointer refers to", c.o.coreOf(c.L.rt("rt.Elem", c.T()), tTrue, c.quoted()), w))
	})
}

// wrongEncoder reports an encoder made elsewhere where another one is due.
func (c *Ctx) wrongEncoder(props []string) bool {
	if !c.opaqueEnc() {
		return false
	}
	if c.in.t.op == OApp && strings.HasPrefix(c.in.t.s, "built:") {
		c.bad(props, "the encoder of %s is used", strings.TrimPrefix(c.in.t.str(2), "built:"))
	} else {
		c.und(props, "the encoder %s", c.in.t.str(3))
	}
	return true
}

func (c *Ctx) quotedCase(props []string, es ...Exp) {
	c.split(func(*State) *Term { return c.quoted() }, func(c *Ctx) {
		c.rule += " / string option"
		c.o.hits[c.rule]++
		var q []Exp
		q = append(q, "\"")
		q = append(q, es...)
		q = append(q, "\"")
		c.expect(append(append([]string{}, props...), "C11"), q...)
	}, func(c *Ctx) { c.expect(props, es...) })
}

// goRule is the rule of a type with its own encoding.
func (o *Oracle) goRule(c *Ctx, G *Term) {
	if c.wrongEncoder([]string{"C12"}) {
		return
	}
	switch G {
	case c.L.typeNamed("time", "Time"):
		c.timeRule(G, "")
	case c.L.typeNamed("time", "Duration"):
		c.split(func(*State) *Term { return c.quoted() }, func(c *Ctx) { c.rule += " / string option"; c.durationRule("\"") }, func(c *Ctx) { c.durationRule("") })
	case c.L.typeNamed("encoding/json", "Number"):
		c.numberRule()
	case c.L.typeNamed("encoding/json", "RawMessage"):
		c.rawMessageRule(G)
	case c.L.typeNamed("sync", "Map"):
		c.entriesRule(true)
	}
}

func (c *Ctx) numberRule() {
	ptr, n := c.word(0), c.load(8, tInt)
	txt := c.rawOf(ptr, n, "the text of the number")
	fact, fn := c.textFact(ptr, n)
	if fn != nil {
		c.o.numberPred[fn] = true
	}
	c.split(func(st *State) *Term { return inT(st.res(n), single(0)) }, func(c *Ctx) {
		c.rule += " / empty"
		if c.kind > 0 && c.L.flag(c.st, c.opts, "NoNumberValidation") != 0 {
			if c.match(c.log, []Exp{}) == nil || c.match(c.log, []Exp{"\"\""}) == nil {
				return
			}
		}
		c.quotedCase([]string{"C03"}, "0")
	}, func(c *Ctx) {
		c.split(func(st *State) *Term { return c.flagC(st, "NoNumberValidation") }, func(c *Ctx) {
			c.rule += " / NoNumberValidation"
			c.quotedCase([]string{"C03", "C10"}, txt)
		}, func(c *Ctx) {
			switch fact {
			case 1:
				c.quotedCase([]string{"C03"}, txt)
			case 0:
				c.rule += " / not a number"
				c.expectErr([]string{"C03"}, "")
			default:
				if c.kind > 0 {
					c.bad([]string{"C03"}, "a json.Number is accepted without being checked")
				} else if c.kind < 0 {
					c.bad([]string{"C03"}, "a json.Number is rejected without being checked")
				} else {
					c.und([]string{"C03"}, "whether a json.Number is checked")
				}
			}
		})
	})
}

// textFact finds what a predicate of the package said about a text.
func (c *Ctx) textFact(ptr, n *Term) (int, *ssa.Function) {
	for _, a := range sortedAtoms(c.st) {
		name, ok := strings.CutPrefix(a.s, "built:")
		if a.op != OApp || !ok {
			continue
		}
		for _, arg := range a.a {
			arg = c.st.res(arg)
			if arg.op == OStr && c.same(arg.a[0], ptr) == 1 && c.same(arg.a[1], n) == 1 ||
				arg.op == OSlice && c.same(arg.a[0], ptr) == 1 && c.same(arg.a[1], n) == 1 {
				f, _ := a.x2fn(c.L, name)
				return b2i(c.st.atoms[a]), f
			}
		}
	}
	return -1, nil
}

// x2fn is the function a predicate term stands for.
func (t *Term) x2fn(L *Lab, name string) (*ssa.Function, bool) {
	for _, f := range L.e.allFuncs() {
		if f.Name() == name && f.Parent() == nil {
			return f, true
		}
	}
	return nil, false
}

// flagC is the condition that an option is set; false if it is not known.
func (c *Ctx) flagC(st *State, name string) *Term {
	if q := c.L.flagCond(st, c.opts, name); q != nil {
		return q
	}
	return tFalse
}

func (c *Ctx) rawMessageRule(G *Term) {
	ptr, n := c.word(0), c.load(8, tInt)
	c.isNil(ptr, func(c *Ctx) {
		c.rule += " / nil"
		c.expect([]string{"C23", "C04"}, "null")
	}, func(c *Ctx) { c.jsonText([]string{"C04"}, ptr, n, G, nil) })
}

// jsonText is the rule of JSON made elsewhere: checked and compacted, or copied.
func (c *Ctx) jsonText(props []string, ptr, n, T, recv *Term) {
	txt := c.rawOf(ptr, n, "the JSON text")
	c.split(func(st *State) *Term { return c.flagC(st, "NoCompact") }, func(c *Ctx) {
		c.rule += " / NoCompact"
		c.o.hits[c.rule]++
		if c.kind < 0 {
			return // may be checked all the same
		}
		c.expect(append([]string{"C10"}, props...), txt)
	}, func(c *Ctx) {
		switch c.validFact(ptr, n) {
		case 0:
			c.rule += " / invalid"
			c.expectErr(props, "MarshalerError")
		case 1:
			if c.kind < 0 && c.errName() == "nested" {
				return
			}
			c.expect(props, c.app("compact", "the compacted JSON text", []Exp{txt}))
		default:
			if c.kind > 0 {
				c.bad(props, "JSON is written without being checked")
			} else {
				c.und(props, "whether JSON is checked")
			}
		}
	})
}

// validFact: was a text found valid (1), invalid (0)?
func (c *Ctx) validFact(ptr, n *Term) int {
	for _, a := range sortedAtoms(c.st) {
		if a.op != OApp || a.s != "jsonvalid" || len(a.a) != 1 {
			continue
		}
		ps := []*Term{a.a[0]}
		if a.a[0].op == OTuple {
			ps = a.a[0].a
		}
		if len(ps) == 1 && c.isRaw(ps[0], ptr, n) == 1 {
			return b2i(c.st.atoms[a])
		}
	}
	return -1
}

// ---------- times and durations ----------

const layout3339, layout3339Nano = "2006-01-02T15:04:05Z07:00", "2006-01-02T15:04:05.999999999Z07:00"

func (c *Ctx) timeRule(G *Term, quote string) {
	props := []string{"C18"}
	tv := c.load(0, G.x.(types.Type))
	year := mkApp("t.Year", tInt, tv)
	off := mkApp("t.Offset", tInt, tv)
	layout := c.L.optField(c.opts, "TimeLayout")
	if layout == nil {
		c.und(props, "where the layout of times is kept")
		return
	}
	ok := func(st *State, t *Term, s Set) int { return st.within(t, s, 250000) }
	years, offs := between(0, 9999), between(-86399, 86399)
	c.split(func(st *State) *Term { return c.flagC(st, "UnixTime") }, func(c *Ctx) {
		c.rule += " / UnixTime"
		c.o.hits[c.rule]++
		if c.kind < 0 {
			switch ok(c.st, year, years) {
			case 0:
			case -1:
				c.bad(append([]string{"C09"}, props...), "fails with %s for a time with a valid year", c.errName())
			case 1:
				c.bad(append([]string{"C09"}, props...), "fails with %s for a time with a valid year", c.errName())
			default:
				c.und(props, "when a time is rejected")
			}
			return
		}
		switch ok(c.st, year, years) {
		case -2:
			c.und(props, "whether a time outside the years 0 to 9999 is written")
			return
		case 0, -1:
			c.bad(props, "a time outside the years 0 to 9999 is written")
			return
		}
		c.expect(append(props, "C10"), quote, c.intTok("int", mkApp("t.Unix", types.Typ[types.Int64], tv)), quote)
	}, func(c *Ctx) {
		for _, l := range []string{layout3339, layout3339Nano, ""} {
			l := l
			d := *c
			d.st = c.st.clone()
			good := true
			for _, m := range []string{layout3339, layout3339Nano} {
				good = good && d.st.assume(d.st.eqTerms(layout, strC(m)), m == l)
			}
			if !good {
				continue
			}
			c := &d
			c.rule += " / layout " + l
			c.o.hits[c.rule]++
			yk, ok2 := ok(c.st, year, years), ok(c.st, off, offs)
			if c.kind < 0 {
				if yk == 0 || ok2 == 0 && l != "" {
					continue
				}
				if yk == -2 || ok2 == -2 {
					c.und(props, "when a time is rejected")
					continue
				}
				c.bad(append([]string{"C09"}, props...), "fails with %s for a time in range", c.errName())
				continue
			}
			if yk == -2 || ok2 == -2 && l != "" {
				c.und(props, "whether a time that is out of range is written")
				continue
			}
			if yk != 1 {
				c.bad(props, "a time outside the years 0 to 9999 is written")
				continue
			}
			if l == "" {
				c.expect(append(props, "C10"), "\"", c.app("escape", "the escaped time", []Exp{pieceExp{"the formatted time", func(c *Ctx, p *Term) (int, string) {
					if p.s != "tok" || p.x != "timefmt" {
						return 0, ""
					}
					r := min(c.same(p.a[1], tv), c.same(p.a[2], layout))
					if c.same(p.a[1], tv) == 0 || c.same(p.a[2], layout) == 0 {
						r = 0
					}
					return r, ""
				}}}), "\"")
				continue
			}
			if ok2 != 1 {
				c.bad(props, "a time with an offset of 24 hours or more is written")
				continue
			}
			nano := l == layout3339Nano
			m := pieceExp{"the time in RFC 3339 form", func(c *Ctx, p *Term) (int, string) {
				f, isf := p.x.(*ssa.Function)
				if p.s != "app" || !isf || c.L.appClass(f) != "time" {
					if p.s == "tok" && p.x == "timefmt" {
						return -1, "a time formatted with its layout"
					}
					return 0, ""
				}
				for _, a := range p.a[1:] {
					a = c.st.res(a)
					if a.op == OStruct && len(a.a) == len(tv.a) {
						if r := c.same(a, tv); r != 1 {
							return r, "another time is written"
						}
					}
				}
				c.noteApp(p, fmt.Sprint(nano))
				return 1, ""
			}}
			// the quotes may come from either function
			if r := c.match(c.log, []Exp{"\"", m, "\""}); r == nil {
				c.o.timeQuoted[0]++
				continue
			}
			c.expect(props, m)
			c.o.timeQuoted[1]++
		}
	})
}

func (c *Ctx) durationRule(quote string) {
	props := []string{"C19"}
	v := c.load(0, types.Typ[types.Int64])
	f := c.L.optField(c.opts, "DurationFormat")
	if f == nil {
		c.und(props, "where the format of durations is kept")
		return
	}
	type unit struct {
		name string
		then func(c *Ctx)
	}
	num := func(div int64) func(c *Ctx) {
		return func(c *Ctx) {
			w := v
			if div > 1 {
				w = mkApp("quo", types.Typ[types.Int64], v, intC(div))
			}
			c.expect(props, quote, c.intTok("int", w), quote)
		}
	}
	flt := func(m string) func(c *Ctx) {
		return func(c *Ctx) {
			w := mkApp("d."+m, types.Typ[types.Float64], v)
			c.floatCase(w, 64, props, false, func(c *Ctx) { c.expect(props, quote, floatExp{w, 64}, quote) })
		}
	}
	units := []unit{
		{"DurationString", func(c *Ctx) {
			c.expect(props, "\"", pieceExp{"the text of the duration", func(c *Ctx, p *Term) (int, string) {
				if p.s == "tok" && p.x == "duration" {
					return c.same(p.a[1], v), ""
				}
				fn, ok := p.x.(*ssa.Function)
				if p.s != "app" || !ok || c.L.appClass(fn) != "duration" {
					return 0, ""
				}
				c.noteApp(p, "")
				return c.same(p.a[1], v), ""
			}}, "\"")
		}},
		{"DurationMinutes", flt("Minutes")},
		{"DurationSeconds", flt("Seconds")},
		{"DurationMilliseconds", num(1000000)},
		{"DurationMicroseconds", num(1000)},
		{"DurationNanoseconds", num(1)},
	}
	for _, u := range units {
		k, ok := c.L.constNamed(u.name)
		if !ok {
			c.und(props, "the value of %s", u.name)
			continue
		}
		c.when(u.name, func(st *State) bool { return st.assumeIn(st.res(f), single(k)) }, u.then)
	}
}

// ---------- methods ----------

// methodRule is the rule of a marshaling method.
func (o *Oracle) methodRule(c *Ctx, i int, ptrRecv bool) {
	props := []string{"C12"}
	if c.wrongEncoder(props) {
		return
	}
	T := c.T()
	if ptrRecv {
		c.call(props, i, o.iface(c.L.rt("rt.PtrTo", T), c.p), c.L.rt("rt.PtrTo", T))
		return
	}
	kind := func(ks ...int64) func(st *State) *Term {
		return func(st *State) *Term { return inT(st.res(rtKind(T)), setOf(ks...)) }
	}
	null := func(c *Ctx) { c.rule += " / nil"; c.expect([]string{"C23", "C12"}, "null") }
	c.split(kind(kInterface), func(c *Ctx) {
		w0, w1 := c.word(0), c.word(8)
		c.isNil(w0, null, func(c *Ctx) {
			it := mkApp("itype", nil, w0)
			c.call(props, i, mk(OIface, "", 0, nil, []*Term{it, w1}, nil), nil)
		})
	}, func(c *Ctx) {
		c.split(kind(kPtr), func(c *Ctx) {
			w := c.word(0)
			c.isNil(w, null, func(c *Ctx) { c.call(props, i, o.iface(T, w), T) })
		}, func(c *Ctx) {
			c.split(kind(kMap, kChan, kFunc, kUnsafePointer), func(c *Ctx) {
				c.call(props, i, o.iface(T, c.word(0)), T)
			}, func(c *Ctx) {
				c.split(kind(kStruct, kArray), func(c *Ctx) {
					switch c.inlined(T) {
					case 1:
						c.call(props, i, o.iface(T, c.word(0)), T)
					case 0:
						c.call(props, i, o.iface(T, c.p), T)
					default:
						if c.kind > 0 && c.usesRecv(o.iface(T, c.p)) {
							c.bad([]string{"C17", "C12"}, "a value that may be stored in the word of an interface is passed by its address")
						} else if c.kind > 0 && c.usesRecv(o.iface(T, c.word(0))) {
							c.bad([]string{"C17", "C12"}, "a value that need not be stored in the word of an interface is passed as a word")
						}
					}
				}, func(c *Ctx) { c.call(props, i, o.iface(T, c.p), T) })
			})
		})
	})
}

// usesRecv: does the output come from a call on this value?
func (c *Ctx) usesRecv(r *Term) bool {
	for _, p := range c.log {
		if containsTerm(p, r) {
			return true
		}
	}
	return false
}

func (o *Oracle) iface(T, w *Term) *Term {
	return mk(OIface, "", 0, nil, []*Term{mkApp("word", nil, T), w}, nil)
}

// inlined: does a struct or array consist of a single pointer?
func (c *Ctx) inlined(T *Term) int {
	k := c.st.rng(rtKind(T))
	if k.subset(single(kStruct)) {
		n := c.st.rng(mkApp("rt.NumField", tInt, T))
		if !n.has(1) {
			return 0
		}
	} else {
		n := c.st.rng(mkApp("rt.Len", tInt, T))
		if !n.has(1) {
			return 0
		}
	}
	for _, a := range sortedAtoms(c.st) {
		if a.op == OApp && strings.HasPrefix(a.s, "built:") && len(a.a) == 1 && a.a[0] != T && containsTerm(a.a[0], c.st.res(T)) {
			if f, ok := a.x2fn(c.L, strings.TrimPrefix(a.s, "built:")); ok {
				c.o.inlinePred[f] = true
			}
			if c.st.atoms[a] {
				return 1
			}
			return 0
		}
		if a.op == OApp && a.s == "in" {
			continue
		}
	}
	return -1
}

// call is the rule of a call of a marshaling method.
func (c *Ctx) call(props []string, i int, recv, T *Term) {
	name := []string{"AppendJSONContext", "AppendJSON", "MarshalJSON", "MarshalText"}[i]
	if c.kind < 0 {
		c.methodError(props, name, recv, T)
		return
	}
	for t := range c.st.tags {
		if strings.HasPrefix(t, "fail:"+name) {
			c.bad([]string{"C09"}, "the error of %s is dropped", name)
			return
		}
	}
	ub := c.userText(name, recv)
	switch i {
	case 0, 1:
		c.expect(props, pieceExp{"what " + name + " appends", func(c *Ctx, p *Term) (int, string) {
			if p.s != "elem" || p.x == nil {
				return 0, ""
			}
			if p.x != name {
				return 0, fmt.Sprintf("calls %v although %s is due", p.x, name)
			}
			if c.same(p.a[1], recv) != 1 {
				return c.diffRecv(p.a[1], recv, name)
			}
			if len(p.a) > 2 {
				if want := c.L.optField(c.opts, "WithContext"); want != nil && c.same(p.a[2], want) != 1 {
					return 0, "OPTS the context of the options is not passed to " + name
				}
			}
			return 1, ""
		}})
	case 2:
		if ub == nil {
			c.wrongText(props, name, recv)
			return
		}
		c.jsonText(append(props, "C04"), ub.a[0], ub.a[1], T, recv)
	case 3:
		if ub == nil {
			c.wrongText(props, name, recv)
			return
		}
		c.expect(props, "\"", c.app("escape", "the escaped text", []Exp{c.rawOf(ub.a[0], ub.a[1], "the text of the method")}), "\"")
	}
}

func (c *Ctx) diffRecv(got, want *Term, name string) (int, string) {
	g, w := c.st.canon(got, 6), c.st.canon(want, 6)
	if g == w {
		return -1, "the value " + name + " is called on"
	}
	return 0, fmt.Sprintf("PTR %s is called on %s instead of %s", name, g, w)
}

// userText is what a method returned.
func (c *Ctx) userText(name string, recv *Term) *Term {
	var found *Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || found != nil {
			return
		}
		seen[t] = true
		if t.op == OApp && t.s == "sptr" && t.a[0].op == OApp && t.a[0].s == "userbytes:"+name && c.same(t.a[0].a[0], recv) == 1 {
			found = t.a[0]
			return
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	for _, p := range c.log {
		walk(p)
	}
	for _, a := range sortedAtoms(c.st) {
		walk(a)
	}
	if found == nil {
		return nil
	}
	return c.L.e.expand(appType(found), found)
}

func (c *Ctx) wrongText(props []string, name string, recv *Term) {
	if c.kind <= 0 {
		c.und(props, "the result of %s", name)
		return
	}
	s := c.shown()
	for _, p := range c.log {
		if c.vague(p) {
			c.und(props, "whether the result of %s is written by %s", name, s)
			return
		}
	}
	for _, n := range []string{"MarshalJSON", "MarshalText"} {
		if strings.Contains(s, "userbytes:"+n) && n != name {
			c.bad(props, "calls %s although %s is due", n, name)
			return
		}
		if strings.Contains(s, "userbytes:"+n) {
			c.bad(append([]string{"C17"}, props...), "%s is not called on %s: %s", name, c.st.canon(recv, 6), s)
			return
		}
	}
	c.bad(props, "writes %s although the result of %s is due", s, name)
}

// methodError is the rule of a failing method.
func (c *Ctx) methodError(props []string, name string, recv, T *Term) {
	failed := ""
	for _, t := range sortedKeys(c.st.tags) {
		if k, ok := strings.CutPrefix(t, "fail:"); ok {
			failed = k[:strings.LastIndex(k, "@")]
		}
	}
	invalid := false
	if ub := c.userText(name, recv); ub != nil && name == "MarshalJSON" {
		invalid = c.validFact(ub.a[0], ub.a[1]) == 0
	}
	if strings.HasPrefix(failed, "append:") || failed == "encode" {
		return
	}
	switch {
	case failed == "" && !invalid:
		c.bad(append([]string{"C09"}, props...), "fails with %s although %s did not fail", c.errName(), name)
		return
	case failed != "" && failed != name:
		c.bad(props, "calls %s although %s is due", failed, name)
		return
	}
	r := c.st.res(c.out.ret[len(c.out.ret)-1])
	if r.op != OMkI {
		if r.op == OApp && r.s == "err" {
			c.bad([]string{"C09"}, "the error of %s is not wrapped in a MarshalerError", name)
		} else {
			c.und([]string{"C09"}, "the error made for %s", name)
		}
		return
	}
	if !strings.Contains(shortType(r.x.(types.Type)), "MarshalerError") {
		c.bad([]string{"C09"}, "the error of %s is wrapped in a %s", name, shortType(r.x.(types.Type)))
		return
	}
	c.marshalerError(c.sb.do(r), name, T, failed)
}

// marshalerError checks the parts of a MarshalerError.
func (c *Ctx) marshalerError(r *Term, name string, T *Term, failed string) {
	pt, ok := r.x.(types.Type).Underlying().(*types.Pointer)
	if !ok {
		return
	}
	sn, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return
	}
	v := c.L.e.load(c.st, nil, nil, r.a[0], pt.Elem())
	v = c.st.res(v)
	if v.op != OStruct {
		c.und([]string{"C09"}, "the parts of a MarshalerError")
		return
	}
	for i := 0; i < sn.NumFields(); i++ {
		f := sn.Field(i)
		a, ok := fieldOf(c.L.e, pt.Elem(), v, i)
		if !ok {
			continue
		}
		a = c.st.res(a)
		switch {
		case f.Name() == "Type" && T != nil:
			if a.op == OIface {
				continue
			}
			if s := c.same(a, T); s == 0 || s < 0 && a.op == OApp && T.op != a.op {
				c.bad([]string{"C09"}, "the MarshalerError of %s names the type %s instead of %s", name, c.st.canon(a, 4), c.st.canon(T, 4))
			}
		case f.Name() == "Err" && failed != "":
			if a.op == OApp && a.s == "err" && a.a[0].s == name {
				continue
			}
			if a.op == OIface && a.a[0] == tNil || a.op == OMkI || a.op == OApp && (a.s == "mkerr" || a.s == "err") {
				c.bad([]string{"C09"}, "the MarshalerError does not hold the error that %s returned", name)
			} else {
				c.und([]string{"C09"}, "whether the MarshalerError holds the error that %s returned", name)
			}
		case isStringT(f.Type()):
			if a.op == OStrC && a.s != name {
				c.bad([]string{"C09"}, "the MarshalerError names the method %q instead of %s", a.s, name)
			}
		}
	}
}

// ---------- kinds ----------

var kindInts = map[int64]types.BasicKind{kInt: types.Int, kInt8: types.Int8, kInt16: types.Int16, kInt32: types.Int32, kInt64: types.Int64,
	kUint: types.Uint, kUint8: types.Uint8, kUint16: types.Uint16, kUint32: types.Uint32, kUint64: types.Uint64, kUintptr: types.Uintptr}

// kindRules applies the rules of the kinds a path may be taken for.
func (c *Ctx) kindRules() {
	ks := c.st.rng(rtKind(c.T()))
	for k := int64(kBool); k <= kUnsafePointer; k++ {
		if !ks.has(k) {
			continue
		}
		d := *c
		d.st = c.st.clone()
		if !d.st.assumeIn(d.st.res(rtKind(d.T())), single(k)) {
			continue
		}
		d.named(kindNames[k], func(c *Ctx) { c.kind1(k) })
	}
}

func (c *Ctx) kind1(k int64) {
	props := []string{"C11"}
	if c.wrongEncoder(props) {
		return
	}
	T := c.T()
	switch k {
	case kBool:
		v := c.load(0, tBoolT)
		c.split(func(*State) *Term { return v }, func(c *Ctx) { c.rule += " / true"; c.quotedCase(props, "true") }, func(c *Ctx) { c.rule += " / false"; c.quotedCase(props, "false") })
	case kFloat32, kFloat64:
		bits, bt := int64(64), types.Float64
		if k == kFloat32 {
			bits, bt = 32, types.Float32
		}
		v := c.load(0, types.Typ[bt])
		c.floatCase(v, bits, props, true, func(c *Ctx) { c.quotedCase([]string{"C21"}, floatExp{v, bits}) })
	case kString:
		txt := c.rawOf(c.word(0), c.load(8, tInt), "the text of the string")
		c.split(func(*State) *Term { return c.quoted() }, func(c *Ctx) {
			c.rule += " / string option"
			c.o.hits[c.rule]++
			if c.kind > 0 && c.L.flag(c.st, c.opts, "NoStringEscaping") == 1 {
				return
			}
			in := c.app("escape", "the string", []Exp{txt})
			if c.kind > 0 && c.match(c.log, []Exp{"\"", c.app("escape", "the string in quotes, escaped again", []Exp{"\"", in, "\""}), "\""}) == nil {
				return
			}
			c.expect(props, "\"\\\"", c.app("escape", "the escaped string, escaped again", []Exp{in}), "\\\"\"")
		}, func(c *Ctx) { c.expect(props, "\"", c.app("escape", "the escaped string", []Exp{txt}), "\"") })
	case kInterface:
		c.interfaceRule(props)
	case kPtr:
		c.pointer(props)
	case kSlice:
		c.sliceRule(props)
	case kArray:
		c.arrayRule(props)
	case kMap:
		c.mapRule()
	case kStruct:
		c.bad(props, "writes %s for a struct", c.shown())
	case kComplex64, kComplex128, kChan, kFunc, kUnsafePointer:
		c.unsupported(props, T)
	default:
		if b, ok := kindInts[k]; ok {
			v := c.load(0, types.Typ[b])
			kind := "int"
			if k >= kUint {
				kind = "uint"
			}
			c.quotedCase(props, c.intTok(kind, v))
		}
	}
}

func (c *Ctx) unsupported(props []string, T *Term) {
	c.expectErr(props, "UnsupportedTypeError")
	if c.kind >= 0 {
		return
	}
	r := c.sb.do(c.st.res(c.out.ret[len(c.out.ret)-1]))
	if r.op != OMkI {
		return
	}
	pt, ok := r.x.(types.Type).Underlying().(*types.Pointer)
	if !ok {
		return
	}
	v := c.st.res(c.L.e.load(c.st, nil, nil, r.a[0], pt.Elem()))
	if v.op == OStruct && len(v.a) == 1 {
		if a := c.sb.do(c.st.res(v.a[0])); c.same(a, T) == 0 {
			c.bad([]string{"C09"}, "the UnsupportedTypeError names the type %s", c.st.canon(a, 4))
		}
	}
}

func (c *Ctx) interfaceRule(props []string) {
	w0, w1 := c.word(0), c.word(8)
	c.isNil(w0, func(c *Ctx) {
		c.rule += " / nil"
		c.expect([]string{"C23"}, "null")
	}, func(c *Ctx) {
		nm := c.st.rng(mkApp("rt.NumMethod", tInt, c.T()))
		c.expect(c.nullish(props), c.elem("the value of the interface", func(c *Ctx, f *Term) (int, string) {
			cached := c.L.r.cached
			if f.op != OApp || cached == nil || f.s != "built:"+cached.Name() || len(f.a) != 1 {
				return -1, "whether " + f.str(3) + " is the encoder of the dynamic type"
			}
			t := f.a[0]
			if t.op != OApp || t.s != "typeof" {
				return -1, "whether " + t.str(3) + " is the dynamic type"
			}
			i := c.st.res(t.a[0])
			if i.op != OIface {
				return -1, "whether " + t.str(3) + " is the dynamic type"
			}
			viaTab := i.a[0].op == OApp && i.a[0].s == "itype"
			if viaTab && c.same(i.a[0].a[0], w0) != 1 || !viaTab && c.same(i.a[0], w0) != 1 {
				return 0, "the encoder is not that of the dynamic type of the value"
			}
			if viaTab && nm.has(0) {
				return 0, "PTR an empty interface is read as one with methods"
			}
			if !viaTab && nm.subset(between(1, INF)) {
				return 0, "PTR an interface with methods is read as an empty one"
			}
			if !viaTab && nm.hi() > 0 {
				return 0, "PTR an interface with methods may be read as an empty one"
			}
			return 1, ""
		}, w1))
	})
}

// bytesElem: is the element of T a byte without methods: 1 yes, 0 no, -1 unknown.
func (c *Ctx) bytesElem() *Term { return nil }

func (c *Ctx) byteCase(yes, no func(c *Ctx)) {
	E := c.L.rt("rt.Elem", c.T())
	PE := c.L.rt("rt.PtrTo", E)
	var step func(c *Ctx, i int)
	ms := c.L.marshalerTypes()
	has := func(c *Ctx) {
		c.rule += " / element with a method"
		c.byteMeth = true
		no(c)
	}
	step = func(c *Ctx, i int) {
		if i == len(ms) {
			yes(c)
			return
		}
		c.split(func(st *State) *Term { return c.L.implements(st, E, ms[i]) }, has, func(c *Ctx) {
			c.split(func(st *State) *Term { return c.L.implements(st, PE, ms[i]) }, has, func(c *Ctx) { step(c, i+1) })
		})
	}
	c.split(func(st *State) *Term { return inT(st.res(rtKind(E)), single(kUint8)) }, func(c *Ctx) { step(c, 0) }, no)
}

func (c *Ctx) sliceRule(props []string) {
	w, n := c.word(0), c.load(8, tInt)
	E := c.L.rt("rt.Elem", c.T())
	size := mkApp("rt.Size", types.Typ[types.Uintptr], E)
	c.byteCase(func(c *Ctx) {
		c.rule = "byte slice"
		c.o.hits[c.rule]++
		c.isNil(w, func(c *Ctx) {
			c.rule += " / nil"
			c.expect([]string{"C23"}, "null")
		}, func(c *Ctx) {
			txt := c.rawOf(w, n, "the bytes")
			props := c.nullish(props)
			c.split(func(st *State) *Term { return c.flagC(st, "RawByteSlice") }, func(c *Ctx) {
				c.rule += " / RawByteSlice"
				c.o.hits[c.rule]++
				c.expect(append(props, "C10"), "\"", c.app("escape", "the escaped bytes", []Exp{txt}), "\"")
			}, func(c *Ctx) {
				c.expect(props, "\"", pieceExp{"the bytes in base64", func(c *Ctx, p *Term) (int, string) {
					if p.s == "xform" && p.x == "base64" {
						q := p.a[len(p.a)-1]
						if q.op == OTuple && len(q.a) == 1 {
							q = q.a[0]
						}
						return c.isRaw(q, w, n), ""
					}
					if c.st.rng(n).subset(single(0)) {
						return 0, ""
					}
					return 0, ""
				}}, "\"")
			})
		})
	}, func(c *Ctx) {
		if c.byteMeth {
			props = append(props, "C12")
		}
		c.isNil(w, func(c *Ctx) {
			c.rule += " / nil"
			c.split(func(st *State) *Term { return c.flagC(st, "NilSliceEmpty") }, func(c *Ctx) {
				c.rule += " / NilSliceEmpty"
				c.o.hits[c.rule]++
				c.expect([]string{"C23", "C10"}, "[]")
			}, func(c *Ctx) { c.expect([]string{"C23"}, "null") })
		}, func(c *Ctx) {
			if !c.st.assumeIn(n, between(0, INF)) {
				return
			}
			c.expect(c.nullish(props), "[", listExp{n, "elements", func(idx *Term) []Exp {
				return []Exp{c.elem("the element", c.o.coreOf(E, tTrue, tFalse), mkPtr(w, mulTerms(size, idx)))}
			}}, "]")
		})
	})
}

func (c *Ctx) arrayRule(props []string) {
	E := c.L.rt("rt.Elem", c.T())
	size := mkApp("rt.Size", types.Typ[types.Uintptr], E)
	n := mkApp("rt.Len", tInt, c.T())
	c.st.assumeIn(n, between(0, INF))
	list := func(c *Ctx) {
		props := props
		if c.byteMeth {
			props = append(props, "C12")
		}
		c.expect(props, "[", listExp{n, "elements", func(idx *Term) []Exp {
			return []Exp{c.elem("the element", c.o.coreOf(E, c.addr(), tFalse), mkPtr(c.p, mulTerms(size, idx)))}
		}}, "]")
	}
	c.byteCase(func(c *Ctx) {
		c.split(func(st *State) *Term { return c.flagC(st, "ByteArrayAsString") }, func(c *Ctx) {
			c.rule = "byte array / ByteArrayAsString"
			c.o.hits[c.rule]++
			c.expect(append(props, "C10"), "\"", c.app("escape", "the escaped bytes", []Exp{c.rawOf(c.p, n, "the bytes")}), "\"")
		}, list)
	}, list)
}

// mapRule is the rule of what does not depend on the entries of a map.
func (c *Ctx) mapRule() {
	key := c.L.rt("rt.Key", c.T())
	w := c.word(0)
	for _, a := range sortedKeysT(c.st) {
		if a.op == OApp && strings.HasPrefix(a.s, "built:") && len(a.a) == 1 && c.same(a.a[0], key) == 1 {
			switch c.st.decide(c.st.eqTerms(a, tNil)) {
			case 1:
				c.rule += " / unsupported key"
				c.o.hits[c.rule]++
				c.unsupported([]string{"C11"}, c.T())
				return
			}
		}
	}
	c.isNil(w, func(c *Ctx) {
		c.rule += " / nil"
		c.split(func(st *State) *Term { return c.flagC(st, "NilMapEmpty") }, func(c *Ctx) {
			c.rule += " / NilMapEmpty"
			c.o.hits[c.rule]++
			c.expect([]string{"C23", "C10"}, "{}")
		}, func(c *Ctx) { c.expect([]string{"C23"}, "null") })
	}, func(c *Ctx) {
		c.entriesRule(false)
		if c.kind > 0 {
			for _, s := range c.o.mapForms(c.log) {
				if s != "" {
					c.bad([]string{"C11", "C23"}, "writes %s for a map that is not nil", s)
				}
			}
		}
		if c.kind < 0 && c.errName() != "nested" {
			c.bad([]string{"C09", "C11"}, "fails with %s for a map", c.errName())
		}
	})
}

// nullish adds the property of nil values if null is written for a value that
// is not nil.
func (c *Ctx) nullish(props []string) []string {
	for _, p := range c.log {
		if p.s == "lit" {
			if s, ok := p.x.(string); ok && strings.HasPrefix(s, "n") {
				return append(append([]string{}, props...), "C23")
			}
		}
		break
	}
	return props
}

// mapForms: what a map is written as, if not as an object.
func (o *Oracle) mapForms(log []*Term) []string {
	if len(log) == 0 {
		return []string{"nothing"}
	}
	p := log[0]
	if p.s == "lit" {
		s := p.x.(string)
		if !strings.HasPrefix(s, "{") {
			return []string{fmt.Sprintf("%q", s)}
		}
	}
	return nil
}

func sortedKeysT(st *State) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	var walk func(t *Term, d int)
	walk = func(t *Term, d int) {
		if d > 3 || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp {
			r = append(r, t)
		}
		for _, a := range t.a {
			walk(a, d+1)
		}
	}
	for _, a := range sortedAtoms(st) {
		walk(a, 0)
	}
	for _, a := range sortedTerms(st.alias) {
		walk(a, 0)
	}
	return r
}

// ---------- top level and keys ----------

// cachedRule checks the function that finds or makes the encoder of a value.
func (o *Oracle) cachedRule() {
	L := o.L
	f := L.r.cached
	if f == nil {
		o.add(Viol{props: []string{"C11", "C16"}, msg: "the function that finds the encoder of a value is not known", und: true})
		return
	}
	x, bs := L.builds(f)
	if !x.ok() {
		o.add(Viol{props: []string{"C11", "C16"}, where: L.where(f), fn: x.name, msg: strings.Join(x.probs, "; "), und: true})
		return
	}
	var T *Term
	for i, p := range f.Params {
		if isReflectType(p.Type()) {
			T = x.args[i]
		}
	}
	for _, b := range bs {
		in := &Inst{root: f, t: b.t, st: b.st, T: T}
		c := &Ctx{o: o, L: L, in: in, st: b.st.clone(), sb: newSubst(nil), kind: 1, rule: "encoder of a value"}
		o.cachedValue(c, b, x, T)
	}
}

func (o *Oracle) cachedValue(c *Ctx, b Built, x *Enc, T *Term) {
	L := o.L
	check := func(c *Ctx, f *Term) {
		c.split(func(st *State) *Term { return inT(st.res(rtKind(T)), single(kPtr)) }, func(c *Ctx) {
			c.o.hits["top level pointer"]++
			if r, msg := o.coreOf(T, nil, tFalse)(c, f); r != 1 {
				c.report(r, msg)
			}
		}, func(c *Ctx) {
			c.o.hits["top level value"]++
			if r, msg := o.coreOf(T, tFalse, tFalse)(c, f); r != 1 {
				c.report(r, msg)
			}
		})
	}
	switch {
	case b.t.op == OApp && strings.HasPrefix(b.t.s, "built:"):
		// not wrapped: values that are not stored in the word
		c.inlinedCase(T, func(c *Ctx) {
			c.rule = "value stored in the word of an interface"
			c.bad([]string{"C17"}, "the word of the interface is used as the address of the value")
		}, func(c *Ctx) { c.o.hits["value behind the word"]++; check(c, b.t) })
	case b.t.op == OClos || b.t.op == OFunc:
		y := L.encoder(x, b)
		if y == nil || !y.ok() {
			c.und([]string{"C17"}, "the encoder %s", b.t.str(3))
			return
		}
		vals := y.uses[len(y.uses)-1].vals
		in := &Inst{root: L.r.cached, x: y, t: b.t, st: b.st, vals: vals, T: T}
		o.runOutcomes(in, "value stored in the word of an interface", func(c *Ctx) {
			c.inlinedCase(T, func(c *Ctx) {
				c.o.hits[c.rule]++
				c.expect([]string{"C17"}, pieceExp{"the value", func(c *Ctx, p *Term) (int, string) {
					if p.s != "elem" || p.x != nil {
						return 0, ""
					}
					at := c.L.e.load(c.st, nil, nil, p.a[2], tUP)
					if c.same(at, c.p) != 1 {
						return 0, "PTR the encoder is not given the address of the word"
					}
					check(c, c.st.res(p.a[1]))
					return c.passed(p.a[3])
				}})
			}, func(c *Ctx) {
				c.bad([]string{"C17"}, "a value that is not stored in the word of an interface is read from the word")
			})
		})
	case b.t.op == OApp && b.t.s == "assert":
	default:
		if foreignTerm(b.t) || b.t.op == OApp || b.t.op == OSym {
			return // out of the cache (C16)
		}
		c.und([]string{"C16"}, "what %s is", b.t.str(3))
	}
}

func (c *Ctx) report(r int, msg string) {
	if r == 0 {
		ps := []string{"C11"}
		if strings.HasPrefix(msg, "ADDR ") {
			ps = []string{"C12"}
		}
		for _, k := range []string{"ADDR ", "QUOTED ", "PTR "} {
			msg = strings.ReplaceAll(msg, k, "")
		}
		c.bad(ps, "%s", msg)
	} else {
		c.und([]string{"C11"}, "%s", msg)
	}
}

// inlinedCase splits the types whose values are stored in the word of an
// interface from the others.
func (c *Ctx) inlinedCase(T *Term, yes, no func(c *Ctx)) {
	// a predicate of the package
	for _, a := range sortedAtoms(c.st) {
		if a.op == OApp && strings.HasPrefix(a.s, "built:") && len(a.a) == 1 && c.same(a.a[0], T) == 1 {
			if f, ok := a.x2fn(c.L, strings.TrimPrefix(a.s, "built:")); ok {
				c.o.inlinePred[f] = true
			}
			if c.st.atoms[a] {
				yes(c)
			} else {
				no(c)
			}
			return
		}
	}
	kind := func(ks ...int64) func(st *State) *Term {
		return func(st *State) *Term { return inT(st.res(rtKind(T)), setOf(ks...)) }
	}
	c.split(kind(kPtr, kMap, kChan, kFunc, kUnsafePointer), yes, func(c *Ctx) {
		c.split(kind(kStruct, kArray), func(c *Ctx) {
			switch c.inlined(T) {
			case 1:
				yes(c)
			case 0:
				no(c)
			default:
				c.und([]string{"C17"}, "whether a value is stored in the word of an interface")
			}
		}, no)
	})
}

// keyRules checks the encoders of map keys.
func (o *Oracle) keyRules() {
	L := o.L
	var fs []*ssa.Function
	for f := range o.keyBuilders() {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	for _, f := range fs {
		for _, in := range L.instances(f) {
			o.keyInstance(in)
		}
	}
}

// keyBuilders are the functions that make the encoders of map keys.
func (o *Oracle) keyBuilders() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	x, _ := o.L.builds(o.L.r.core)
	for _, out := range x.outs {
		for _, a := range sortedKeysT(out.st) {
			name, ok := strings.CutPrefix(a.s, "built:")
			if !ok || len(a.a) < 1 {
				continue
			}
			if k := out.st.res(a.a[0]); k.op != OApp || k.s != "rt.Key" {
				continue
			}
			for f := range o.L.r.keyB {
				if f.Name() == name {
					r[f] = true
				}
			}
		}
	}
	return r
}

func (o *Oracle) keyInstance(in *Inst) {
	L := o.L
	if in.x == nil {
		st := in.st
		if in.t == tNil || st.decide(st.eqTerms(in.t, tNil)) == 1 {
			c := &Ctx{o: o, L: L, in: in, st: st.clone(), sb: newSubst(nil), kind: -1, rule: "map key"}
			c.keyClass(func(c *Ctx, class string) {
				c.o.hits["key "+class]++
				if class != "unsupported" {
					c.bad([]string{"C11", "C12"}, "keys of this type are rejected: %s", class)
				}
			})
			return
		}
		c := &Ctx{o: o, L: L, in: in, st: st.clone(), sb: newSubst(nil), kind: 1, rule: "map key"}
		c.und([]string{"C11"}, "the encoder %s", in.t.str(3))
		return
	}
	o.runOutcomes(in, "map key", func(c *Ctx) {
		c.keyClass(func(c *Ctx, class string) {
			c.rule = "key " + class
			c.o.hits[c.rule]++
			c.keyRule(class)
		})
	})
}

// keyClass tells how a key of a type is written.
func (c *Ctx) keyClass(then func(c *Ctx, class string)) {
	T := c.T()
	kind := func(a, b int64) func(st *State) *Term {
		return func(st *State) *Term { return inT(st.res(rtKind(T)), between(a, b)) }
	}
	tt, td, txt := c.L.typeNamed("time", "Time"), c.L.typeNamed("time", "Duration"), c.L.typeNamed("encoding", "TextMarshaler")
	c.split(kind(kString, kString), func(c *Ctx) { then(c, "string") }, func(c *Ctx) {
		c.split(func(st *State) *Term { return st.eqTerms(T, tt) }, func(c *Ctx) { then(c, "time") }, func(c *Ctx) {
			c.split(func(st *State) *Term { return st.eqTerms(T, td) }, func(c *Ctx) { then(c, "duration") }, func(c *Ctx) {
				c.split(func(st *State) *Term { return c.L.implements(st, T, txt) }, func(c *Ctx) { then(c, "text") }, func(c *Ctx) {
					c.split(kind(kInt, kUintptr), func(c *Ctx) { then(c, "integer") }, func(c *Ctx) { then(c, "unsupported") })
				})
			})
		})
	})
}

func (c *Ctx) keyRule(class string) {
	props := []string{"C11", "C12", "C01"}
	T := c.T()
	switch class {
	case "string":
		txt := c.rawOf(c.word(0), c.load(8, tInt), "the text of the key")
		c.expect(props, "\"", c.app("escape", "the escaped key", []Exp{txt}), "\"")
	case "time":
		c.timeRule(c.L.typeNamed("time", "Time"), "\"")
	case "duration":
		c.durationRule("\"")
	case "integer":
		for k := int64(kInt); k <= kUintptr; k++ {
			d := *c
			d.st = c.st.clone()
			if !d.st.assumeIn(d.st.res(rtKind(T)), single(k)) {
				continue
			}
			kind := "int"
			if k >= kUint {
				kind = "uint"
			}
			d.rule += " " + kindNames[k]
			d.o.hits[d.rule]++
			d.expect(props, "\"", d.intTok(kind, d.load(0, types.Typ[kindInts[k]])), "\"")
		}
	case "text":
		kind := func(ks ...int64) func(st *State) *Term {
			return func(st *State) *Term { return inT(st.res(rtKind(T)), setOf(ks...)) }
		}
		null := func(c *Ctx) { c.rule += " / nil"; c.expect([]string{"C23", "C01"}, "\"\"") }
		c.split(kind(kPtr, kInterface), func(c *Ctx) {
			c.isNil(c.word(0), null, func(c *Ctx) { c.o.methodRule(c, 3, false) })
		}, func(c *Ctx) { c.o.methodRule(c, 3, false) })
	default:
		if c.kind > 0 {
			c.bad(props, "keys of a type that is not supported are written as %s", c.shown())
		}
	}
}

// tokKind and tokArgs describe the text a piece stands for.
func tokKind(p *Term) string {
	if p.op == OPiece && p.s == "tok" {
		s, _ := p.x.(string)
		return s
	}
	return ""
}

func tokArgs(p *Term) []*Term { return p.a[1:] }

// pbyteAt is a byte of the text of a piece, counted from its end.
func pbyteAt(st *State, tok *Term, off int64) *Term {
	return mkApp("pbyte", types.Typ[types.Uint8], tok, intC(off))
}

func fieldOf(e *Engine, t types.Type, v *Term, i int) (*Term, bool) {
	if i < len(v.a) {
		return v.a[i], true
	}
	return nil, false
}

// debugOracle prints what the rules say.
func debugOracle(L *Lab) {
	o := newOracle(L)
	o.runAll()
	for _, v := range o.out {
		k := "VIOL"
		if v.und {
			k = "UND "
		}
		fmt.Printf("%s %v %s %s: %s\n      PATH %s\n", k, v.props, v.where, v.fn, v.msg, v.path)
	}
	for _, h := range sortedKeys(o.hits) {
		fmt.Println("HIT", o.hits[h], h)
	}
	fmt.Println(o.insts, "instances", o.paths, "paths", len(o.apps), "appender calls")
	for _, k := range sortedKeys(o.apps) {
		fmt.Println("APP", k)
	}
}
