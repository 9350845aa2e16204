package main

import (
	"fmt"
	"go/types"
	"os"
)

// FieldAdd is a description of a field that an iteration adds to a list.
type FieldAdd struct {
	x     *Enc
	rec   *LoopRec
	t     *Trans
	st    *State
	list  *Term   // the list before the iteration
	elts  []*Term // what is added: descriptions of a field
	vague bool
}

// fieldAdds lists what the functions that handle fields add to lists of them.
func (L *Lab) fieldAdds() []*FieldAdd {
	e := L.e
	var r []*FieldAdd
	for _, x := range L.runAll() {
		for _, rec := range x.recs {
			for _, t := range rec.trans {
				for old, nv := range t.bind {
					if nv == nil || old.op != OSlice && nv.op != OSlice {
						continue
					}
					nv = t.st.res(nv)
					if nv.op != OSlice {
						continue
					}
					o := t.st.obj(t.st.res(baseOf(nv.a[0])))
					if o == nil || o.kind != KLog || o.typ == nil || L.r.fieldT == nil || !types.Identical(o.typ, L.r.fieldT) {
						continue
					}
					a := &FieldAdd{x: x, rec: rec, t: t, st: t.st, list: old}
					for _, p := range e.content(t.st, nv) {
						switch p.s {
						case "elt":
							a.elts = append(a.elts, p.a[0])
						case "raw", "junk", "sum":
						default:
							a.vague = true
						}
					}
					if len(a.elts) > 0 || a.vague {
						r = append(r, a)
					}
				}
			}
		}
	}
	return r
}

func debugFields(L *Lab) {
	e := L.e
	for _, a := range L.fieldAdds() {
		fmt.Printf("ADD %s %s list %s vague %v\n", a.x.name, a.rec.pos, a.list.str(3), a.vague)
		for _, el := range a.elts {
			fs := e.flatten(L.r.fieldT, el)
			for i, l := range e.leaves(L.r.fieldT) {
				fmt.Printf("    +%d %s = %s\n", l.off, types.TypeString(l.typ, func(*types.Package) string { return "" }), a.st.canon(fs[i], 7))
			}
		}
		if os.Getenv("JSA_FACTS") != "" {
			fmt.Println("  WHEN", a.st.describe())
		}
	}
}
