package main

import (
	"fmt"
	"go/types"
	"os"
	"time"
)

// symArg makes a symbolic argument of a type.
func (e *Engine) symArg(st *State, name string, t types.Type) *Term {
	if isByteSlice(t) && (name == "dst" || name == "buf") {
		o := st.newObj(KLog, tByteT, false, "arg")
		o.site = name
		n := sym(name+".len", tInt)
		st.assumeIn(n, between(0, maxLen))
		o.log = []*Term{rawPiece(sym(name+".mem", tUP), tZero, n)}
		return mkSlice(mkPtr(objT(o.id), tZero), n, e.capSym(st, n))
	}
	v := e.expand(t, sym(name, t))
	if _, ok := t.Underlying().(*types.Interface); ok {
		v = sym(name, t)
	}
	e.wf(st, t, v)
	return v
}

func debugDump(e *Engine, name string, evs bool) {
	fn := e.fn(name)
	if fn == nil {
		fmt.Println("no function", name)
		return
	}
	st := e.base.clone()
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, e.symArg(st, p.Name(), p.Type()))
	}
	e.rootName = name
	e.setPolicy(e.roots(), fn)
	e.prof = map[string]int{}
	t0 := time.Now()
	outs := e.exec(fn, args, nil, st, nil, nil)
	for i, o := range outs {
		fmt.Printf("--- outcome %d\n", i)
		for _, r := range o.ret {
			fmt.Println("  ret", o.st.show(r))
		}
		fmt.Println("  when", o.st.describe())
	}
	for i, r := range e.recs {
		if i > 20 {
			fmt.Println("=== more loops:", len(e.recs)-i)
			break
		}
		fmt.Printf("=== %s %s heads %d trans %d iters %d\n", r, r.name, len(r.heads), len(r.trans), r.iters)
		for _, h := range r.heads {
			fmt.Printf("  head %d key=%s\n", h.idx, h.key)
			for id, l := range h.logs {
				fmt.Printf("     log %d: %s\n", id, logString(l))
			}
			for _, k := range sortedForms(h.tmpl) {
				iv := h.tmpl[k]
				if iv.lo != NINF || iv.hi != INF {
					fmt.Printf("     %s in [%s,%s]\n", k.str(6), inf(iv.lo), inf(iv.hi))
				}
			}
		}
		for _, t := range r.trans {
			fmt.Printf("  trans %d -> %d\n", t.from, t.to)
			for id, l := range t.logs {
				fmt.Printf("     log %d += %s\n", id, logString(l))
			}
			for h, v := range t.bind {
				fmt.Printf("     %s := %s\n", h, v)
			}
			if os.Getenv("JSA_FACTS") != "" {
				fmt.Println("     WHEN", t.st.describe())
			}
		}
	}
	if evs {
		for _, ev := range e.events {
			fmt.Printf("event %s %s %s", ev.kind, e.pos(ev.in), ev.note)
			for _, a := range ev.args {
				fmt.Printf(" | %s", a.str(5))
			}
			fmt.Println()
		}
	}
	for _, k := range sortedKeys(e.oblig) {
		o := e.oblig[k]
		if o.fail > 0 {
			fmt.Printf("OBLIG %s %s %s: ok %d fail %d %s\n", o.kind, e.pos(o.in), o.desc, o.ok, o.fail, o.why)
		}
	}
	for _, k := range sortedKeys(e.prof) {
		if e.prof[k] > e.steps/30 {
			fmt.Println("PROF", k, e.prof[k])
		}
	}
	fmt.Println(len(outs), "outcomes", e.steps, "steps", time.Since(t0), "terms", termSeq, "problems", e.problems)
}

// show prints a value with the content of what it points to.
func (st *State) show(v *Term) string {
	if v.op == OSlice {
		if o := st.obj(st.res(baseOf(v.a[0]))); o != nil && o.kind == KLog {
			return fmt.Sprintf("slice(len %s) of obj%d %s[%s] root=%v rel=%q: %s", v.a[1], o.id, o.prov, o.site, o.root, o.rel, logString(o.log))
		}
	}
	return v.str(8)
}
