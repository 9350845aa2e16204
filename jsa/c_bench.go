package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The benchmark converter: the records of a file, the table made of them and
// the failures reported.

func init() { checks["C24"] = checkC24 }

type benchCheck struct {
	c    *Check
	e    *Engine
	L    *Lab
	msgs map[string]bool
	flag map[*Term]string // value of a flag -> its name
}

func (k *benchCheck) run(f *ssa.Function) *Enc {
	st := k.e.base.clone()
	var args []*Term
	for _, p := range f.Params {
		args = append(args, k.e.symArg(st, p.Name(), p.Type()))
	}
	k.e.trail, k.e.deepTrail = true, true
	x := k.L.runFn(shortName(f), f, args, nil, st, nil, false)
	k.e.trail, k.e.deepTrail = false, false
	return x
}

// deepContent is a value with the content of the slices and structs it refers to.
func (e *Engine) deepContent(st *State, v *Term, t types.Type, d int) *Term {
	v = st.res(v)
	if d == 0 {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if v.op == ONil {
			return mkApp("list", t)
		}
		var ps []*Term
		for _, p := range st.norm(e.elements(st, v, u.Elem())) {
			if p.op == OPiece && p.s == "elt" && len(p.a) > 0 {
				p = piece("elt", 0, nil, e.deepContent(st, p.a[0], u.Elem(), d-1))
			}
			ps = append(ps, p)
		}
		return mkApp("list", t, ps...)
	}
	return v
}

func debugBench(r *Repo) {
	e := newEngine(r, r.cmds[0])
	k := &benchCheck{e: e, L: &Lab{e: e, encs: map[string]*Enc{}}}
	for _, n := range []string{"parse", "transform"} {
		x := k.run(e.fn(n))
		for _, rec := range x.recs {
			fmt.Println("LOOP", rec)
			for _, t := range rec.trans {
				fmt.Println(" TRANS", t.from, t.to, t.st.describe())
				for h, v := range t.bind {
					fmt.Println("   ", h.str(3), ":=", v.str(6))
				}
				for o, l := range t.logs {
					fmt.Println("   LOG", o, logString(l))
				}
				for _, s := range steps(t.st) {
					if s.kind == "map-content" || s.kind == "elt-content" {
						fmt.Print("   UPD ", s.kind)
						for _, a := range s.args {
							fmt.Print(" | ", a.str(9))
						}
						fmt.Println()
					}
				}
			}
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// undecided reports once.
func (k *benchCheck) undecided(format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	if !k.msgs[m] {
		k.msgs[m] = true
		k.c.undecided("%s", m)
	}
}

func checkC24(c *Check) {
	c.rule = "every iteration of the reading loop (abstract paths of parse): a line of record form adds one record made of its own text and of the unit of the last header, a header sets that unit, an empty line announces a header, and every malformed line, and a failing reader, ends in an error; every iteration of the table loops adds the value unless its statistic is omitted, and the header names the statistics kept; a path of main that ends in success has seen every error it was given be nil"
	r := c.L.e.repo
	if len(r.cmds) == 0 {
		c.undecided("no command package found")
		return
	}
	e := newEngine(r, r.cmds[0])
	k := &benchCheck{c: c, e: e, L: &Lab{e: e, encs: map[string]*Enc{}}, msgs: map[string]bool{}, flag: map[*Term]string{}}
	k.findFlags()
	// the reader and the table maker, by their types
	var parse, table []*ssa.Function
	for _, m := range r.cmds[0].Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		sg := f.Signature
		if sg.Params().Len() == 1 && strings.HasSuffix(sg.Params().At(0).Type().String(), "bufio.Scanner") && sg.Results().Len() == 2 && isMapT(sg.Results().At(0).Type()) {
			parse = append(parse, f)
		}
		if sg.Params().Len() == 1 && isMapT(sg.Params().At(0).Type()) && sg.Results().Len() == 1 && isMapT(sg.Results().At(0).Type()) {
			table = append(table, f)
		}
	}
	roles := map[string]int64{}
	if len(parse) == 1 {
		c.saw(shortName(parse[0]))
		k.parse(parse[0], roles)
	} else {
		c.undecided("%d functions read a table", len(parse))
	}
	if len(table) == 1 {
		c.saw(shortName(table[0]))
		k.table(table[0], roles)
	} else {
		c.undecided("%d functions convert a table", len(table))
	}
	if f := e.fn("main"); f != nil {
		c.saw("main")
		k.mainFn(f)
	}
}

func isMapT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// findFlags maps the values of the boolean flags to their names.
func (k *benchCheck) findFlags() {
	pkg := k.e.main
	init := pkg.Func("init")
	if init == nil {
		return
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok1 := s.Addr.(*ssa.Global)
			cl, ok2 := s.Val.(*ssa.Call)
			if !ok1 || !ok2 {
				continue
			}
			f := cl.Call.StaticCallee()
			if f == nil || f.String() != "flag.Bool" {
				continue
			}
			n, ok := cl.Call.Args[0].(*ssa.Const)
			if !ok {
				continue
			}
			st := k.e.base.clone()
			p := k.e.load(st, nil, nil, mkPtr(objT(k.e.globalObj(st, g)), tZero), g.Type().Underlying().(*types.Pointer).Elem())
			v := k.e.load(st, nil, nil, p, types.Typ[types.Bool])
			name := strings.Trim(n.Value.ExactString(), "\"")
			k.flag[st.res(v)] = name
			k.c.count("flags", 1)
		}
	}
}

// ---------------------------------------------------------------- reading

// line is what a path knows of the line it read.
type line struct {
	st   *State
	text *Term // the string
	scan *Term
	cut  *Term // the fields
	hdr  *Term // the words of the second field
	odd  string
}

func (k *benchCheck) field(l *line, cut *Term, i int64) *Term {
	p, _, _ := sliceParts(cut)
	return k.e.load(l.st, nil, nil, mkPtr2(l.st, p, i*16), types.Typ[types.String])
}

func mkPtr2(st *State, p *Term, off int64) *Term {
	b, o := ptrParts(st.res(p))
	return mkPtr(b, addT(o, intC(off)))
}

var benchPure = map[string]bool{
	"strings.Split": true, "strings.Index": true, "strings.IndexByte": true, "strings.LastIndex": true, "strings.LastIndexByte": true,
	"strings.Trim": true, "strings.TrimSpace": true, "strings.TrimLeft": true, "strings.TrimRight": true, "strings.TrimSuffix": true, "strings.TrimPrefix": true, "strconv.ParseFloat": true, "strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Fields": true,
	"strings.ToLower": true, "strings.ToUpper": true,
}

func fnName(t *Term) string {
	if t.op != OApp || !strings.HasPrefix(t.s, "fn:") {
		return ""
	}
	s := strings.TrimPrefix(t.s, "fn:")
	if i := strings.LastIndex(s, "/"); i > 0 && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' {
		s = s[:i]
	}
	return s
}

// known tells whether terms are expressions over the line and the functions of strings.
func (k *benchCheck) known(ts ...*Term) bool {
	ok := true
	walkTerms(ts, func(t *Term) {
		if t.op != OApp && t.op != OSym {
			return
		}
		if n := fnName(t); n != "" && !benchPure[n] {
			ok = false
		}
		if strings.HasPrefix(t.s, "ext:") && !strings.HasPrefix(t.s, "ext:(*bufio.Scanner).") {
			ok = false
		}
	})
	return ok
}

func (k *benchCheck) readLine(st *State) *line {
	l := &line{st: st}
	ts := factTerms(st)
	for _, s := range steps(st) {
		ts = append(ts, s.args...)
	}
	// the text of this iteration is the last
	var texts, scans []*Term
	walkTerms(ts, func(t *Term) {
		if t.op != OSym {
			return
		}
		if strings.HasPrefix(t.s, "ext:(*bufio.Scanner).Text") {
			texts = append(texts, t)
		}
		if strings.HasPrefix(t.s, "ext:(*bufio.Scanner).Scan") {
			scans = append(scans, t)
		}
		if strings.HasPrefix(t.s, "ext:(*bufio.Scanner).Bytes") || strings.HasPrefix(t.s, "ext:(*bufio.Reader)") {
			l.odd = t.s
		}
	})
	pick := func(ts []*Term) *Term {
		var r *Term
		for _, t := range ts {
			if r == nil || t.n > r.n {
				r = t
			}
		}
		return r
	}
	l.text, l.scan = pick(texts), pick(scans)
	if l.text == nil {
		return l
	}
	txt := l.text
	same := func(v *Term, w *Term) bool {
		return v == w || l.st.decide(l.st.eqTerms(v, w)) == 1
	}
	walkTerms(ts, func(t *Term) {
		if fnName(t) == "strings.Split" && len(t.a) == 2 {
			if l.st.canon(t.a[1], 9) == l.st.canon(strC(","), 9) && k.isText(l.st, t.a[0], txt) {
				l.cut = t
			}
		}
	})
	if l.cut != nil {
		f1 := k.field(l, l.cut, 1)
		walkTerms(ts, func(t *Term) {
			if fnName(t) == "strings.Split" && len(t.a) == 2 && same(t.a[0], f1) && l.st.canon(t.a[1], 9) == l.st.canon(strC(" "), 9) {
				l.hdr = t
			}
		})
	}
	return l
}

func (k *benchCheck) isText(st *State, v, txt *Term) bool {
	p, n := strParts(v)
	tp, tn := strParts(txt)
	return st.eqInt(n, tn) && st.res(p) == st.res(tp)
}

func (k *benchCheck) sameStr(st *State, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	ap, an := strParts(a)
	bp, bn := strParts(b)
	ab, ao := ptrParts(st.res(ap))
	bb, bo := ptrParts(st.res(bp))
	return st.eqInt(an, bn) && (st.eqInt(an, tZero) || st.res(ab) == st.res(bb) && st.eqInt(ao, bo))
}

// app finds the application of one of some functions to a string and a separator.
func (k *benchCheck) app(st *State, ts []*Term, arg *Term, sep string, names ...string) *Term {
	var r *Term
	walkTerms(ts, func(t *Term) {
		n := fnName(t)
		if n == "" || len(t.a) < 2 {
			return
		}
		for _, x := range names {
			if n == x && k.sameStr(st, t.a[0], arg) {
				if a := st.res(t.a[1]); isInt(a, int64(sep[0])) || st.canon(a, 9) == st.canon(strC(sep), 9) {
					r = t
				}
			}
		}
	})
	return r
}

type benchUpd struct {
	key, list *Term
	s         *step
}

func (k *benchCheck) updates(st *State) []benchUpd {
	var us []benchUpd
	for _, s := range steps(st) {
		if s.kind == "map-content" && len(s.args) == 3 {
			us = append(us, benchUpd{s.args[1], s.args[2], s})
		}
	}
	return us
}

// ranges: a file cannot stop the program with an index out of range.
func (k *benchCheck) ranges(x *Enc) {
	for _, o := range x.oblig {
		switch {
		case o.kind != "index" && o.kind != "makeslice" && o.kind != "nilcall" && o.kind != "assert":
		case o.fail > 0 && (strings.Contains(o.why, "ext:") || !strings.Contains(o.why, "fn:strings.Split")):
			k.undecided("%s: %s at %s may fail", shortName(o.fn), o.desc, k.e.pos(o.in))
		case o.fail > 0:
			k.c.violate(k.e.pos(o.in), shortName(o.fn), o.desc+" may fail: the program stops instead of reporting the line", clip(o.why, 300))
		case o.ok > 0:
			k.c.count("accesses in range", 1)
		}
	}
}

func (k *benchCheck) parse(f *ssa.Function, roles map[string]int64) {
	x := k.run(f)
	c := k.c
	name := shortName(f)
	if len(x.probs) > 0 {
		k.undecided("%s: %v", name, x.probs)
		return
	}
	k.ranges(x)
	var rec *LoopRec
	for _, r := range x.recs {
		for _, t := range r.trans {
			if l := k.readLine(t.st); t.from >= 0 && l.text != nil && (rec == nil || rec == r) {
				rec = r
			} else if t.from >= 0 && l.text != nil {
				k.undecided("%s: lines are read in several loops (%s)", name, r.pos)
				return
			}
		}
	}
	if rec == nil {
		k.undecided("%s: no loop over the lines of a scanner was found", name)
		return
	}
	where := rec.pos
	c.count("heads of the reading loop", len(rec.heads))
	// the modes of the loop
	hdrMode, recMode := map[int]bool{}, map[int]bool{}
	type tr struct {
		t     *Trans
		l     *line
		empty int
		ups   []benchUpd
	}
	var trs []*tr
	for _, t := range rec.trans {
		if t.from < 0 {
			hdrMode[t.to] = true
			continue
		}
		l := k.readLine(t.st)
		if l.odd != "" || l.text == nil {
			k.undecided("%s: what an iteration of the loop at %s reads is not known %s", name, where, l.odd)
			return
		}
		_, n := strParts(l.text)
		em := -1
		if t.st.eqInt(n, tZero) {
			em = 1
		} else if !t.st.rng(n).has(0) {
			em = 0
		} else {
			// a line of several fields is not empty
			if l.cut != nil {
				em = 0
			}
		}
		trs = append(trs, &tr{t, l, em, k.updates(t.st)})
	}
	var unitHole [2]*Term
	// the records
	var recs []*tr
	for _, x := range trs {
		t, l := x.t, x.l
		st := t.st
		if len(x.ups) == 0 {
			continue
		}
		if l.cut == nil {
			k.undecided("%s: the fields of the line read at %s are not found", name, where)
			continue
		}
		f0, f1 := k.field(l, l.cut, 0), k.field(l, l.cut, 1)
		var ts []*Term
		ts = append(ts, factTerms(st)...)
		for _, u := range x.ups {
			ts = append(ts, u.s.args...)
		}
		slash := k.app(st, ts, f0, "/", "strings.Index", "strings.IndexByte")
		added := 0
		for _, u := range x.ups {
			at := k.e.pos(u.s.in)
			if u.list.op != OApp || u.list.s != "list" {
				k.undecided("%s: the list stored at %s is not understood", name, at)
				continue
			}
			c.count("updates of the table of records", 1)
			kp, kn := strParts(u.key)
			fp, fn := strParts(f0)
			if slash == nil || !(st.res(kp) == st.res(fp) && st.eqInt(kn, slash)) {
				if k.known(append(ts, u.key)...) {
					c.violate(at, name, "a record is not stored under the text before the first '/' of its line", clip(st.canon(u.key, 8), 300))
				} else {
					k.undecided("%s: the key stored at %s is not understood: %s", name, at, clip(st.canon(u.key, 6), 200))
				}
				continue
			}
			has := -1
			m := u.s.args[0]
			_ = m
			old := false
			var elts []*Term
			bad := false
			for i, p := range u.list.a {
				switch {
				case p.op == OPiece && p.s == "elt":
					elts = append(elts, p.a[0])
				case p.op == OPiece && p.s == "raw" && i == 0:
					old = true
				default:
					bad = true
				}
			}
			if bad {
				k.undecided("%s: the list stored at %s is not understood: %s", name, at, clip(u.list.str(5), 200))
				continue
			}
			walkTerms(factTerms(st), func(t *Term) {
				if t.op == OApp && t.s == "maphas" && len(t.a) == 2 && k.sameStr(st, t.a[1], u.key) {
					switch st.decide(t) {
					case 1:
						has = 1
					case 0:
						has = 0
					}
				}
			})
			var oldLen *Term
			walkTerms(factTerms(st), func(t *Term) {
				if t.op == OApp && t.s == "slen" && len(t.a) == 1 && t.a[0].op == OApp && t.a[0].s == "mapget" {
					oldLen = t
				}
			})
			if !old && has != 0 && !(oldLen != nil && st.eqInt(oldLen, tZero)) {
				c.violate(at, name, "the records stored before for the same benchmark are dropped", clip(st.describe(), 300))
				continue
			}
			if len(elts) == 0 {
				continue
			}
			// the records added by this line
			added = len(elts)
			if len(elts) > 1 {
				c.violate(at, name, "one line adds several records", "")
				continue
			}
			el := elts[0]
			if el.op != OTuple && el.op != OStruct {
				k.undecided("%s: the record stored at %s is not understood: %s", name, at, clip(el.str(5), 200))
				continue
			}
			sl, _ := u.s.in.(*ssa.MapUpdate).Value.Type().Underlying().(*types.Slice)
			sty, ok := sl.Elem().Underlying().(*types.Struct)
			if !ok {
				k.undecided("%s: records are no structs (%s)", name, at)
				continue
			}
			// name
			runPtr := mkPtr2(st, fp, 0)
			rb, ro := ptrParts(st.res(runPtr))
			runPtr = mkPtr(rb, addT(ro, addT(slash, tOne)))
			runLen := subT(fn, addT(slash, tOne))
			run := mkStr(runPtr, runLen)
			dash := k.app(st, ts, run, "-", "strings.LastIndexByte", "strings.LastIndex")
			var strs []int
			nameAt, valAt, unitAt := -1, -1, -1
			for i := 0; i < sty.NumFields() && i < len(el.a); i++ {
				switch b, _ := sty.Field(i).Type().Underlying().(*types.Basic); {
				case b != nil && b.Kind() == types.String:
					strs = append(strs, i)
					v := el.a[i]
					p, n := strParts(v)
					if k.isHole(p) {
						unitAt = i
						unitHole = [2]*Term{p, n}
						continue
					}
					want := runLen
					if dash != nil {
						if st.setFor(dash).has(-1) && st.setFor(dash).size() == 1 {
						} else if !st.rng(dash).has(-1) {
							want = dash
						} else {
							want = nil
						}
					}
					if want == nil || dash == nil {
						continue
					}
					pb, po := ptrParts(st.res(p))
					if st.res(pb) == st.res(rb) && st.eqInt(po, addT(ro, addT(slash, tOne))) && st.eqInt(n, want) {
						nameAt = i
					}
				case b != nil && b.Kind() == types.Float64:
					v := el.a[i]
					if fnName(v) == "strconv.ParseFloat" && len(v.a) == 2 && k.sameStr(st, v.a[0], f1) && isInt(st.res(v.a[1]), 64) {
						valAt = i
						// the error must have been looked at
						okv := 0
						walkTerms(factTerms(st), func(t *Term) {
							if t.op == OApp && t.s == "fn:strconv.ParseFloat/1" && len(t.a) == 2 && k.sameStr(st, t.a[0], f1) {
								if st.decide(st.eqTerms(t, tNil)) == 1 || st.decide(st.eqTerms(t, nilIface)) == 1 {
									okv = 1
								}
							}
						})
						if okv == 0 {
							c.violate(at, name, "a value is stored whatever the failure to read it as a number", clip(st.canon(v, 6), 200))
						}
					}
				}
			}
			kn2 := k.known(ts...)
			miss := func(what string) {
				if kn2 {
					c.violate(at, name, "no field of the record stored is "+what, clip(el.str(7), 400))
				} else {
					k.undecided("%s: no field of the record stored at %s is recognised as %s", name, at, what)
				}
			}
			if nameAt < 0 {
				miss("the name of the run (the text after the first '/' up to the last '-')")
			} else {
				roles["name"] = fieldOff(k.e, sty, nameAt) + 1
			}
			if valAt < 0 {
				miss("the number of the second field of the line")
			} else {
				roles["value"] = fieldOff(k.e, sty, valAt) + 1
			}
			if unitAt < 0 {
				// a record of the first iteration, or a unit that is not carried over
				miss("the unit carried from the header")
			} else {
				roles["unit"] = fieldOff(k.e, sty, unitAt) + 1
			}
			roles["size"] = k.e.sizes.Sizeof(sty)
			c.count("records checked", 1)
		}
		if added > 0 {
			recs = append(recs, x)
		}
	}
	if len(recs) == 0 {
		some := false
		for _, x := range trs {
			some = some || len(x.ups) > 0 || !k.known(factTerms(x.t.st)...)
			for _, l := range x.t.logs {
				some = some || len(l) > 0
			}
		}
		if !some {
			c.violate(where, name, "no line is stored as a record", "")
			return
		}
		k.undecided("%s: no iteration that stores a record was found", name)
		return
	}
	// modes
	for _, x := range trs {
		if x.empty == 1 {
			hdrMode[x.t.to] = true
			if len(x.ups) > 0 {
				c.violate(where, name, "an empty line changes the records", "")
			}
		}
		for _, r := range recs {
			if r == x {
				recMode[x.t.to] = true
			}
		}
	}
	for h := range hdrMode {
		if recMode[h] {
			sure := len(recs) > 0
			for _, x := range recs {
				sure = sure && (x.t.from != h || !k.remembers(x.t.st, unitHole) && k.known(factTerms(x.t.st)...))
			}
			if sure {
				c.violate(where, name, "the line after an empty line, or the first line, is taken for a record", "")
				return
			}
			k.undecided("%s: the loop at %s does not keep the kind of the next line apart", name, where)
			return
		}
	}
	bindOf := func(t *Trans, h *Term) *Term {
		if v, ok := t.bind[h]; ok {
			return t.st.res(v)
		}
		return nil
	}
	for _, x := range trs {
		t, l, st := x.t, x.l, x.t.st
		c.count("iterations of the reading loop", 1)
		isRec := false
		for _, r := range recs {
			isRec = isRec || r == x
		}
		if x.empty == 1 {
			if !hdrMode[t.to] {
				k.undecided("%s: after an empty line", name)
			}
			continue
		}
		if x.empty < 0 {
			k.undecided("%s: an iteration of the loop at %s takes lines of any length", name, where)
			continue
		}
		ts := factTerms(st)
		if hdrMode[t.from] {
			// a header
			if isRec {
				c.violate(where, name, "the line after an empty line, or the first line, is taken for a record", clip(st.describe(), 200))
				continue
			}
			if !recMode[t.to] {
				if k.known(ts...) {
					c.violate(where, name, "the line after a header is not taken for a record", "")
				}
				continue
			}
			if l.cut == nil || l.hdr == nil {
				if k.known(ts...) && l.cut != nil {
					c.violate(where, name, "a header without unit is accepted", clip(st.describe(), 200))
				} else {
					k.undecided("%s: the fields of a header are not found", name)
				}
				continue
			}
			_, n1, _ := sliceParts(l.cut)
			_, n2, _ := sliceParts(l.hdr)
			if v, ok := st.constOf(n1); !ok || v != 2 {
				c.violate(where, name, "a header that has not two fields is accepted", clip(st.describe(), 200))
			}
			if lo, _ := setMin(st.rng(n2)); lo < 2 {
				c.violate(where, name, "a header without unit is accepted", clip(st.describe(), 200))
			}
			up := bindOf(t, unitHole[0])
			if unitHole[0] == nil || up == nil {
				continue
			}
			tr := k.app(st, append([]*Term{up}, ts...), k.field(l, l.hdr, 1), "()", "strings.Trim")
			ok := false
			if tr != nil {
				tp, tn := strParts(tr)
				ok = st.res(tp) == up && (bindOf(t, unitHole[1]) == nil || st.eqInt(bindOf(t, unitHole[1]), tn))
			}
			if !ok {
				if k.known(up) {
					c.violate(where, name, "the unit kept from a header is not its second word without parentheses", clip(up.str(7), 300))
				} else {
					k.undecided("%s: the unit kept from a header is not understood: %s", name, clip(up.str(5), 200))
				}
			}
			continue
		}
		// a record
		if !recMode[t.from] {
			k.undecided("%s: an iteration from an unknown mode", name)
			continue
		}
		if !recMode[t.to] {
			c.violate(where, name, "the line after a record is taken for a header", clip(st.describe(), 200))
			continue
		}
		for i, h := range unitHole {
			if h == nil {
				continue
			}
			// the hole of the head the iteration starts from
			if v := bindOf(t, h); v != nil && v != h && !k.isHole(v) {
				_ = i
				if k.known(v) {
					c.violate(where, name, "a record changes the unit of the section", clip(v.str(6), 200))
				}
			}
		}
		if isRec {
			continue
		}
		// nothing stored: only a line without value
		if l.cut == nil {
			if k.known(ts...) {
				c.violate(where, name, "a line is skipped", clip(st.describe(), 300))
			} else {
				k.undecided("%s: a line is skipped for a reason not understood", name)
			}
			continue
		}
		_, n1, _ := sliceParts(l.cut)
		if _, hi := setMinMax(st.rng(n1)); hi > 1 {
			if k.known(ts...) {
				c.violate(where, name, "a line that has a name and a value is skipped", clip(st.describe(), 400))
			} else {
				k.undecided("%s: a line is skipped for a reason not understood", name)
			}
			continue
		}
		f0 := k.field(l, l.cut, 0)
		if slash := k.app(st, ts, f0, "/", "strings.Index", "strings.IndexByte"); slash == nil || st.rng(slash).has(-1) {
			if k.known(ts...) {
				c.violate(where, name, "a line whose name has no separator is skipped without error", clip(st.describe(), 300))
			}
		}
	}
	// the ends
	for _, o := range x.outs {
		c.count("ends of the reading", 1)
		l := k.readLine(o.st)
		st := o.st
		ts := factTerms(st)
		sc := -1
		if l.scan != nil {
			sc = st.decide(l.scan)
		}
		switch errKind(o) {
		case 1:
			if l.scan == nil || l.odd != "" {
				k.undecided("%s: success without a known end of the input", name)
				continue
			}
			if sc != 0 {
				c.violate(where, name, "the reading ends with success before the end of the input", clip(st.describe(), 300))
				continue
			}
			ok := false
			for _, s := range steps(st) {
				if s.kind == "ext-result" && strings.HasSuffix(s.note, "bufio.Scanner).Err") && len(s.args) == 1 && st.decide(st.eqTerms(st.res(s.args[0]), nilIface)) == 1 {
					ok = true
				}
			}
			if !ok {
				c.violate(where, name, "the reading ends with success whatever the failure of the reader", clip(st.describe(), 300))
			}
			for _, s := range steps(st) {
				if s.kind == "mkerr" {
					c.violate(k.e.pos(s.in), name, "an error that is made is not reported", "")
				}
			}
		case -1:
			if l.text == nil || sc == 0 {
				continue
			}
			// a malformed line
			why := false
			if l.cut != nil {
				_, n1, _ := sliceParts(l.cut)
				if !st.rng(n1).has(2) {
					why = true
				}
				f0, f1 := k.field(l, l.cut, 0), k.field(l, l.cut, 1)
				if l.hdr != nil {
					_, n2, _ := sliceParts(l.hdr)
					if _, hi := setMinMax(st.rng(n2)); hi < 2 {
						why = true
					}
				}
				if slash := k.app(st, ts, f0, "/", "strings.Index", "strings.IndexByte"); slash != nil {
					if v, ok := st.constOf(slash); ok && v == -1 {
						why = true
					}
				}
				walkTerms(ts, func(t *Term) {
					if t.op == OApp && t.s == "fn:strconv.ParseFloat/1" && len(t.a) == 2 && k.sameStr(st, t.a[0], f1) {
						if st.decide(st.eqTerms(t, nilIface)) == 0 || st.decide(st.eqTerms(t, tNil)) == 0 {
							why = true
						}
					}
				})
			}
			if !why {
				if k.known(ts...) {
					c.violate(where, name, "an error is reported for a line that is well formed", clip(st.describe(), 400))
				} else {
					k.undecided("%s: an error for a reason not understood", name)
				}
			}
		}
	}
}

// remembers tells whether a path depends on something kept from the lines before.
func (k *benchCheck) remembers(st *State, unit [2]*Term) bool {
	r := false
	for _, t := range sortedAtoms(st) {
		walkTerms([]*Term{t}, func(a *Term) { r = r || k.isHole(a) && a != unit[0] && a != unit[1] })
	}
	for _, t := range sortedRngs(st) {
		walkTerms([]*Term{t}, func(a *Term) {
			if k.isHole(a) && a != unit[0] && a != unit[1] {
				_, hi := setMinMax(st.rng(t))
				r = r || hi < 1000
			}
		})
	}
	return r
}

func occurs(t, x *Term) bool {
	r := false
	walkTerms([]*Term{t}, func(a *Term) { r = r || a == x })
	return r
}

func (k *benchCheck) isHole(t *Term) bool { return t.op == OSym && strings.HasPrefix(t.str(1), "h#") }

func setMin(s Set) (int64, bool) {
	if len(s) == 0 {
		return 0, false
	}
	return s[0].lo, true
}

func setMinMax(s Set) (int64, int64) {
	if len(s) == 0 {
		return 0, -1
	}
	return s[0].lo, s[len(s)-1].hi
}

func fieldOff(e *Engine, s *types.Struct, i int) int64 {
	var fs []*types.Var
	for j := 0; j < s.NumFields(); j++ {
		fs = append(fs, s.Field(j))
	}
	return e.sizes.Offsetsof(fs)[i]
}

// ---------------------------------------------------------------- the table

var benchFlags = []struct{ unit, flag string }{{"MB/s", "omit-bandwidth"}, {"B/op", "omit-mem"}, {"allocs/op", "omit-allocs"}}

func (k *benchCheck) flagTerm(name string) *Term {
	for t, n := range k.flag {
		if n == name {
			return t
		}
	}
	return nil
}

func (k *benchCheck) table(f *ssa.Function, roles map[string]int64) {
	c := k.c
	name := shortName(f)
	if roles["name"] == 0 || roles["value"] == 0 || roles["unit"] == 0 {
		k.undecided("%s: what the fields of a record hold is not known", name)
		return
	}
	for _, b := range benchFlags {
		if k.flagTerm(b.flag) == nil {
			k.undecided("%s: the flag %s is not found", name, b.flag)
			return
		}
	}
	x := k.run(f)
	if len(x.probs) > 0 {
		k.undecided("%s: %v", name, x.probs)
		return
	}
	k.ranges(x)
	param := x.args[0]
	str := types.Typ[types.String]
	// an element of the records of a benchmark
	elem := func(ts []*Term) (base, at *Term) {
		walkTerms(ts, func(t *Term) {
			if t.op != OApp || len(t.a) != 2 || !strings.HasPrefix(t.s, "ld") || at != nil {
				return
			}
			b := t.a[0]
			if b.op == OApp && b.s == "sptr" && b.a[0].op == OApp && b.a[0].s == "mapget" && b.a[0].a[0] == param {
				off := t.a[1]
				var n int64
				switch off.op {
				case OInt:
					n = off.n
				case OLin:
					n = off.n
				}
				base, at = b, subT(off, intC(((n%roles["size"])+roles["size"])%roles["size"]))
			}
		})
		return
	}
	vbase := map[*Term]bool{}
	stats, rpos := 0, ""
	for _, rec := range x.recs {
		for _, t := range rec.trans {
			if t.from < 0 {
				continue
			}
			st := t.st
			ups := k.updates(st)
			var ts []*Term
			for _, u := range ups {
				ts = append(ts, u.s.args...)
			}
			// an iteration over the records of a benchmark updates the row of a name
			base, at := elem(append(append([]*Term{}, ts...), factTerms(st)...))
			if at == nil {
				continue
			}
			if rec.n == nil || !occurs(at, rec.n) {
				continue
			}
			row := false
			for _, u := range ups {
				if b, _ := elem([]*Term{u.key}); b != nil {
					row = true
				}
			}
			if !row {
				// is it an iteration that leaves the row alone?
				it := false
				for _, l := range factTerms(st) {
					if b, _ := elem([]*Term{l}); b != nil {
						it = true
					}
				}
				if !it || !k.sameLoop(rec, x, elem) {
					continue
				}
			}
			stats++
			ld := func(role string, ty types.Type) *Term {
				return st.res(k.e.load(st, nil, nil, mkPtr(base, addT(at, intC(roles[role]-1))), ty))
			}
			nm, un, val := ld("name", str), ld("unit", str), ld("value", types.Typ[types.Float64])
			where := rec.pos
			rpos = where
			c.count("iterations over records", 1)
			kept := false
			for _, u := range ups {
				pos := k.e.pos(u.s.in)
				if !k.sameStr(st, u.key, nm) {
					if b, _ := elem([]*Term{u.key}); b != nil || st.decide(st.eqTerms(u.key, un)) == 1 {
						c.violate(pos, name, "a value is stored under something else than the name of its run", clip(u.key.str(7), 200))
					} else {
						k.undecided("%s: an update at %s is not understood", name, pos)
					}
					return
				}
				vbase[baseOf(u.s.args[0])] = true
				if u.list.s != "list" {
					k.undecided("%s: the row stored at %s is not understood", name, pos)
					return
				}
				vs := u.list.a
				old := len(vs) > 0 && vs[0].op == OPiece && vs[0].s == "raw"
				if old {
					vs = vs[1:]
				}
				has := -1
				for _, t := range factTerms(st) {
					if t.op == OApp && t.s == "maphas" && k.sameStr(st, t.a[1], nm) {
						has = st.decide(t)
					}
				}
				walkTerms(factTerms(st), func(t *Term) {
					if t.op == OApp && t.s == "maphas" && len(t.a) == 2 && k.sameStr(st, t.a[1], nm) && has < 0 {
						has = st.decide(t)
					}
				})
				if !old && has == 1 {
					c.violate(pos, name, "the values stored before in a row are dropped", clip(st.describe(), 300))
					continue
				}
				n := 0
				for _, p := range vs {
					if p.op != OPiece || p.s != "elt" {
						k.undecided("%s: the row stored at %s is not understood: %s", name, pos, clip(u.list.str(5), 200))
						return
					}
					v := unbox(st, p.a[0])
					switch {
					case v != nil && k.sameStr2(st, v, nm):
						if n > 0 || old && has != 0 {
							c.violate(pos, name, "the name of a run is not the first column of its row", clip(u.list.str(6), 300))
						}
					case v != nil && st.res(v) == val:
						if n == 0 && !old {
							c.violate(pos, name, "a row does not start with the name of the run", clip(u.list.str(6), 300))
						}
						if kept && n > 1 {
							c.violate(pos, name, "a value is stored twice", "")
						}
						kept = true
					default:
						if v != nil && k.known(v) {
							c.violate(pos, name, "a row is given something else than the name and the value of its record", clip(v.str(7), 200))
						} else {
							k.undecided("%s: an entry of the row stored at %s is not understood", name, pos)
						}
					}
					n++
				}
			}
			for _, b := range benchFlags {
				eq := st.eqTerms(un, strC(b.unit))
				fl := k.flagTerm(b.flag)
				s2 := st.clone()
				poss := s2.assume(eq, true) && s2.assume(fl, true)
				if kept && poss {
					c.violate(where, name, fmt.Sprintf("a value of unit %s is kept when -%s is given", b.unit, b.flag), clip(st.describe(), 400))
				}
			}
			if !kept {
				ok := false
				for _, b := range benchFlags {
					if st.decide(st.eqTerms(un, strC(b.unit))) == 1 && st.decide(k.flagTerm(b.flag)) == 1 {
						ok = true
					}
				}
				if !ok {
					c.violate(where, name, "a value that no flag omits is left out", clip(st.describe(), 400))
				}
			}
		}
	}
	if stats == 0 {
		k.undecided("%s: no loop over the records of a benchmark was found", name)
		return
	}
	// the header, per benchmark
	// an end of the loop over the records before the last
	early := func(st *State) {
		for _, s := range steps(st) {
			if s.kind == "map-content" && vbase[baseOf(s.args[0])] {
				c.violate(k.e.pos(s.in), name, "the records of a benchmark after some are left out", clip(st.describe(), 200))
			}
		}
		for _, t := range sortedRngs(st) {
			if t.op != OLin || len(t.a) != 2 {
				continue
			}
			for i, a := range t.a {
				b := t.a[1-i]
				if a.op == OApp && a.s == "slen" && len(a.a) == 1 && a.a[0].op == OApp && a.a[0].s == "mapget" && a.a[0].a[0] == param && t.co[i] == 1 && t.co[1-i] == -1 && b.op == OSym {
					if lo, _ := setMin(st.rng(t)); lo+t.n > 0 && lo > 0 {
						c.violate(rpos, name, "the records of a benchmark after some are left out", clip(st.describe(), 300))
					}
				}
			}
		}
	}
	seen := 0
	outer := func(st *State, what string) {
		var hdr *Term
		var pos string
		for _, s := range steps(st) {
			switch s.kind {
			case "map-content":
				mu, ok := s.in.(*ssa.MapUpdate)
				if !ok || !isListOfLists(mu.Value.Type()) || s.args[2].s != "list" {
					continue
				}
				for i, p := range s.args[2].a {
					if p.op != OPiece || p.s != "elt" || k.isRow(p.a[0], vbase) {
						continue
					}
					if i > 0 {
						c.violate(k.e.pos(s.in), name, "the header is not the first row of the table", clip(s.args[2].str(5), 200))
						continue
					}
					hdr, pos = p.a[0], k.e.pos(s.in)
				}
			case "elt-content":
				if l := s.args[2]; l.op == OApp && l.s == "list" && hdr != nil && !k.isRow(l, vbase) {
					if !isInt(st.res(s.args[1]), 0) {
						continue
					}
					hdr, pos = l, k.e.pos(s.in)
				}
			}
		}
		if hdr == nil {
			return
		}
		if hdr.op != OApp || hdr.s != "list" {
			k.undecided("%s: the header stored at %s is not understood: %s", name, pos, clip(hdr.str(5), 200))
			return
		}
		var got []string
		for _, p := range hdr.a {
			w := "?"
			if p.op == OPiece && p.s == "elt" {
				if v := unbox(st, p.a[0]); v != nil && v.op == OStrC {
					w = v.s
				}
			}
			if w == "?" {
				k.undecided("%s: the header stored at %s is not understood: %s", name, pos, clip(hdr.str(5), 200))
				return
			}
			got = append(got, w)
		}
		for m := 0; m < 8; m++ {
			s2 := st.clone()
			want := []string{"Name", "ns/op"}
			poss := true
			for i, b := range benchFlags {
				on := m>>i&1 == 1
				poss = poss && s2.assume(k.flagTerm(b.flag), on)
				if !on {
					want = append(want, b.unit)
				}
			}
			if !poss {
				continue
			}
			seen++
			c.count("headers checked", 1)
			if strings.Join(got, "|") != strings.Join(want, "|") {
				c.violate(pos, name, fmt.Sprintf("the header is %q where %q is due", got, want), what)
			}
		}
	}
	for _, rec := range x.recs {
		if k.sameLoop(rec, x, elem) {
			continue
		}
		for _, t := range rec.trans {
			early(t.st)
			outer(t.st, clip(t.st.describe(), 200))
		}
	}
	for _, o := range x.outs {
		early(o.st)
		outer(o.st, clip(o.st.describe(), 200))
	}
	if seen == 0 {
		k.undecided("%s: no header was found", name)
	}
	// the rows
	rowsIn, rowsOut := map[*LoopRec]bool{}, map[*LoopRec]string{}
	for _, rec := range x.recs {
		for _, t := range rec.trans {
			st := t.st
			var key *Term
			ups := k.updates(st)
			ts := append([]*Term{}, factTerms(st)...)
			for _, u := range ups {
				ts = append(ts, u.s.args...)
			}
			walkTerms(ts, func(a *Term) {
				if a.op == OApp && a.s == "rangekey" && len(a.a) > 0 && vbase[baseOf(a.a[0])] {
					key = a
				}
			})
			if key == nil {
				continue
			}
			if t.from < 0 {
				continue
			}
			c.count("iterations over rows", 1)
			got := false
			for _, u := range ups {
				vs := u.list.a
				if len(vs) == 0 || u.list.s != "list" {
					continue
				}
				last := vs[len(vs)-1]
				if last.op == OPiece && last.s == "elt" && k.isRow(last.a[0], vbase) {
					got = true
				}
			}
			for _, l := range t.logs {
				for _, p := range l {
					if p.op == OPiece && p.s == "elt" && k.isRow(p.a[0], vbase) {
						got = true
					}
				}
			}
			if got {
				rowsIn[rec] = true
			} else {
				rowsOut[rec] = clip(st.describe(), 300)
			}
		}
	}
	for _, rec := range x.recs {
		if p, ok := rowsOut[rec]; ok && rowsIn[rec] {
			c.violate(rec.pos, name, "a row is left out of the table", p)
		} else if ok {
			k.undecided("%s: what the loop at %s does with the rows is not understood", name, rec.pos)
		}
	}
	for _, o := range x.outs {
		for _, s := range steps(o.st) {
			if s.kind == "map-content" {
				c.violate(k.e.pos(s.in), name, "the table is returned before its last benchmark", "")
			}
		}
	}
}

// sameLoop tells whether other iterations of a loop update rows.
func (k *benchCheck) sameLoop(rec *LoopRec, x *Enc, elem func([]*Term) (*Term, *Term)) bool {
	for _, t := range rec.trans {
		if t.from < 0 {
			continue
		}
		for _, u := range k.updates(t.st) {
			if b, at := elem([]*Term{u.key}); b != nil && rec.n != nil && occurs(at, rec.n) {
				return true
			}
		}
	}
	return false
}

func isListOfLists(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if ok {
		_, ok = s.Elem().Underlying().(*types.Slice)
	}
	return ok
}

func (k *benchCheck) isRow(v *Term, vbase map[*Term]bool) bool {
	r := false
	walkTerms([]*Term{v}, func(a *Term) {
		if a.op == OApp && (a.s == "mapget" || a.s == "rangeval") && len(a.a) > 0 && vbase[baseOf(a.a[0])] {
			r = true
		}
	})
	return r
}

// unbox is the value an interface value holds.
func unbox(st *State, v *Term) *Term {
	v = st.res(v)
	if v.op == OIface && len(v.a) == 2 {
		v = st.res(v.a[1])
	}
	for v.op == OApp && (v.s == "word" || strings.HasPrefix(v.s, "any[")) && len(v.a) == 1 {
		v = st.res(v.a[0])
	}
	if v.op == OMkI && len(v.a) > 0 {
		v = st.res(v.a[0])
	}
	return v
}

func (k *benchCheck) sameStr2(st *State, v, w *Term) bool {
	if v.op != OStr && v.op != OStrC && !(v.op == OApp && v.x != nil && isStringT(appType(v))) {
		return false
	}
	return k.sameStr(st, v, w)
}

// ---------------------------------------------------------------- main

func (k *benchCheck) mainFn(f *ssa.Function) {
	c := k.c
	k.e.trail, k.e.deepTrail = true, false
	success := func(st *State, where string) {
		c.count("successful ends of main", 1)
		wrote := false
		for _, s := range steps(st) {
			switch s.kind {
			case "mkerr":
				c.violate(k.e.pos(s.in), "main", "an error that is made is not reported", where)
			case "ext-result":
				if strings.HasSuffix(s.note, ").Close") || strings.HasPrefix(s.note, "fmt.") || strings.HasPrefix(s.note, "log.") {
					continue
				}
				for _, w := range []string{"Encode", "Write", "Marshal", "Append", "Copy"} {
					wrote = wrote || strings.Contains(s.note, w)
				}
				if len(s.args) == 0 || s.in == nil {
					continue
				}
				cl, ok := s.in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				rs := cl.Common().Signature().Results()
				if rs.Len() == 0 || rs.At(rs.Len()-1).Type().String() != "error" {
					continue
				}
				c.count("errors followed to the end", 1)
				er := st.res(s.args[len(s.args)-1])
				if st.decide(st.eqTerms(er, nilIface)) != 1 {
					c.violate(k.e.pos(s.in), "main", "the process ends with success whatever the failure of "+s.note, where)
				}
			}
		}
		if !wrote {
			c.violate(where, "main", "the process ends with success without writing a table", "")
		}
	}
	n := 0
	k.e.onExit = func(st *State, fn *ssa.Function, in ssa.Instruction, name string, args []*Term) {
		if name != "os.Exit" || len(args) != 1 {
			return
		}
		n++
		if v, ok := st.constOf(args[0]); ok && v == 0 {
			success(st, k.e.pos(in))
		} else if !ok {
			k.undecided("main: the exit status at %s is not known", k.e.pos(in))
		}
	}
	x := k.L.runFn(shortName(f), f, nil, nil, k.e.base.clone(), nil, false)
	k.e.onExit = nil
	k.e.trail = false
	for _, o := range x.outs {
		n++
		success(o.st, k.e.pos(f.Blocks[0].Instrs[0]))
	}
	if len(x.probs) > 0 {
		k.undecided("main: %v", x.probs)
	}
	if n == 0 {
		k.undecided("main: no successful end was found")
	}
}
