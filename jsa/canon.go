package main

import (
	"fmt"
	"sort"
	"strings"
)

// canonLog writes the pieces of a log without their lengths.
func (e *Engine) canonLog(st *State, ps []*Term) string {
	var ss []string
	lit := ""
	flush := func() {
		if lit != "" {
			ss = append(ss, fmt.Sprintf("%q", lit))
			lit = ""
		}
	}
	for _, p := range ps {
		switch p.s {
		case "lit":
			lit += p.x.(string)
			continue
		case "byte":
			if v, ok := st.constOf(p.a[0]); ok {
				lit += string([]byte{byte(v)})
				continue
			}
		}
		flush()
		ss = append(ss, e.canonPiece(st, p))
	}
	flush()
	return strings.Join(ss, " ")
}

func (e *Engine) canonPiece(st *State, p *Term) string {
	var as []string
	args := p.a
	switch p.s {
	case "tok", "xform", "app", "elem":
		args = p.a[1:]
	}
	for _, a := range args {
		as = append(as, st.canon(a, 12))
	}
	k := p.s
	switch x := p.x.(type) {
	case string:
		k += ":" + x
	case *LoopRec:
		k += ":" + x.String()
	case fmt.Stringer:
		k += ":" + x.String()
	}
	return k + "<" + strings.Join(as, ", ") + ">"
}

// canon writes a term with what a state knows about it.
func (st *State) canon(t *Term, d int) string {
	if v, ok := st.constOf(t); ok && t.op != OInt {
		return fmt.Sprint(v)
	}
	return st.res(t).str(d)
}

func debugOuts(L *Lab, filter string) {
	for _, y := range L.runAll() {
		if filter != "" && !strings.Contains(y.name, filter) {
			continue
		}
		fmt.Println("ENC", y.name, y.key[max(0, len(y.key)-120):], len(y.outs), "outs", len(y.recs), "loops", y.probs, len(y.uses), "uses")
		for _, o := range y.outs {
			var ps []string
			for _, r := range o.ret {
				v := o.st.res(r)
				if v.op == OSlice && isByteSliceTerm(o.st, v) {
					ps = append(ps, L.e.canonLog(o.st, L.e.content(o.st, v)))
				} else {
					ps = append(ps, o.st.canon(v, 8))
				}
			}
			fmt.Println("   RET", strings.Join(ps, "  |  "))
			fmt.Println("      WHEN", allFacts(o.st))
		}
		for _, r := range y.recs {
			fmt.Println("   LOOP", r.String(), r.name, "heads", len(r.heads))
			for _, t := range r.trans {
				fmt.Printf("      %d -> %d when %s\n", t.from, t.to, allFacts(t.st))
				for id, l := range t.logs {
					fmt.Printf("         log %d += %s\n", id, L.e.canonLog(t.st, l))
				}
				var bs []string
				for h, v := range t.bind {
					bs = append(bs, fmt.Sprintf("%s:=%s", h, v))
				}
				sort.Strings(bs)
				fmt.Println("         ", strings.Join(bs, "; "))
			}
		}
	}
}

func isByteSliceTerm(st *State, v *Term) bool {
	o := st.obj(st.res(baseOf(v.a[0])))
	return o == nil || o.kind == KLog
}

func allFacts(st *State) string {
	var ss []string
	for c, v := range st.atoms {
		s := c.str(6)
		if !v {
			s = "!" + s
		}
		ss = append(ss, s)
	}
	for t, s := range st.rngs {
		if t.op == OSym && strings.Contains(t.s, ".len") {
			continue
		}
		ss = append(ss, t.str(5)+"∈"+s.String())
	}
	for a, b := range st.alias {
		ss = append(ss, a.str(4)+"="+b.str(4))
	}
	sort.Strings(ss)
	s := strings.Join(ss, "; ")
	if len(s) > 900 {
		s = s[:900] + "..."
	}
	return s
}
