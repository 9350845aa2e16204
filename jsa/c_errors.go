package main

import (
	"go/types"
	"strings"
)

func init() {
	oracleProps["C09"] = oracleProp{"Here: on each path every nested encoder, appender that can fail and method of the caller is taken both to succeed and to fail; a path on which one has failed must return an error, and nothing may be encoded after it. The error of a method must be wrapped in a MarshalerError with the type that has the method, that error and the name of the method; unsupported values and types must fail with their own error types; the exported functions must return nil and the error, and an InvalidOptionError for options.",
		[]string{"api / failed value", "api / invalid options", "AppendMarshalerCtx method", "AppendMarshaler method", "Marshaler method", "TextMarshaler method"}}
	checks["C09"] = func(c *Check) { c.fromOracle("C09") }
	oracleMore["C09"] = func(c *Check) { c.dropped(); c.errorTypes() }
}

// dropped: no path or loop goes on after a failure.
func (c *Check) dropped() {
	L := c.L
	for _, x := range L.runAll() {
		res := x.fn.Signature.Results()
		if !x.ok() {
			// only what can fail matters
			if res.Len() > 0 && isErrorT(res.At(res.Len()-1).Type()) {
				c.use(x)
			}
			continue
		}
		can := res.Len() > 0 && isErrorT(res.At(res.Len()-1).Type())
		n := 0
		for _, o := range x.outs {
			t := failTag(o.st)
			if t == "" {
				continue
			}
			n++
			if !can {
				c.violate(L.where(x.fn), x.name, "the error of "+tagName(t)+" is dropped: the function reports none", pathOf(o.st))
				continue
			}
			switch errKind(o) {
			case 1:
				c.violate(L.where(x.fn), x.name, "success is reported though "+tagName(t)+" has failed", pathOf(o.st))
			case 0:
				c.undecided("%s: whether the error of %s is reported", x.name, tagName(t))
			}
		}
		for _, ev := range x.events {
			switch ev.kind {
			case "encode", "append", "usercall":
				if tg := failTag(ev.st); tg != "" {
					n++
					c.violate(L.at(ev.in), x.name, "encoding goes on though "+tagName(tg)+" has failed", pathOf(ev.st))
				}
			}
		}
		if n > 0 {
			c.saw(x.name)
			c.count("failing paths", n)
		}
	}
	if c.n["failing paths"] < 20 {
		c.undecided("only %d failing paths were found", c.n["failing paths"])
	}
}

func tagName(t string) string {
	k, at, _ := strings.Cut(t, "@")
	k = strings.TrimPrefix(k, "append:")
	if k == "encode" {
		k = "the encoder of a nested value"
	}
	return k + " at " + at
}

// errorTypes: what the errors of the package tell.
func (c *Check) errorTypes() {
	L, e := c.L, c.L.e
	for _, f := range e.allFuncs() {
		r := f.Signature.Recv()
		if r == nil || f.Parent() != nil || len(f.Params) != 1 || f.Synthetic != "" {
			continue
		}
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		nt, ok := t.(*types.Named)
		if !ok || nt.Obj().Name() != "MarshalerError" {
			continue
		}
		sn, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		x := L.function(f, L.r.encodeOpaque, false)
		if !c.use(x) {
			continue
		}
		val := func(st *State) *Term {
			v := x.args[0]
			if _, ok := r.Type().(*types.Pointer); ok {
				v = e.load(st, nil, nil, v, nt)
			}
			return st.res(v)
		}
		switch f.Name() {
		case "Unwrap":
			for _, o := range x.outs {
				v := val(o.st)
				for i := 0; i < sn.NumFields(); i++ {
					if !isErrorT(sn.Field(i).Type()) {
						continue
					}
					w, ok := fieldOf(e, nt, v, i)
					if !ok {
						c.undecided("the fields of %s", nt)
						continue
					}
					if _, ok := r.Type().(*types.Pointer); ok {
						var fs []*types.Var
						for k := 0; k < sn.NumFields(); k++ {
							fs = append(fs, sn.Field(k))
						}
						w = e.load(o.st, nil, nil, mkPtr(x.args[0], intC(e.sizes.Offsetsof(fs)[i])), sn.Field(i).Type())
					}
					c.count("error methods", 1)
					got := o.st.res(o.ret[0])
					switch o.st.decide(o.st.eqTerms(got, w)) {
					case 1:
					case 0:
						c.violate(L.where(f), x.name, "Unwrap does not return the error of the method", pathOf(o.st))
					default:
						if got != w {
							if got == tNil || got == nilIface || got.op == OMkI {
								c.violate(L.where(f), x.name, "Unwrap does not return the error of the method but "+got.str(4), pathOf(o.st))
							} else {
								c.undecided("what %s returns: %s", x.name, got.str(4))
							}
						}
					}
				}
			}
		case "Error":
			for i := 0; i < sn.NumFields(); i++ {
				if !isStringT(sn.Field(i).Type()) {
					continue
				}
				for _, o := range x.outs {
					w, ok := fieldOf(e, nt, val(o.st), i)
					if !ok {
						continue
					}
					c.count("error methods", 1)
					p := w
					if w.op == OStr {
						p = w.a[0]
					}
					found, printed := containsTerm(o.st.res(o.ret[0]), p), false
					for _, ev := range x.events {
						if ev.kind != "sprintf" {
							continue
						}
						printed = true
						for _, a := range ev.args {
							found = found || containsTerm(ev.st.res(a), p)
						}
					}
					if !found {
						if printed {
							c.violate(L.where(f), x.name, "the text of the error does not name the method", "")
						} else {
							c.undecided("the text %s makes", x.name)
						}
					}
				}
			}
		}
	}
}
