package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the functions the library calls outside itself.

var noret = []Outcome{}

func (e *Engine) one(st *State, vs ...*Term) []Outcome { return []Outcome{{st, vs}} }

// fieldOffset of a named field of a struct type, -1 if absent.
func (e *Engine) fieldNamed(t types.Type, name string) (int64, types.Type) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return e.fieldOff(s, i), s.Field(i).Type()
		}
	}
	return -1, nil
}

func (e *Engine) tokLen(st *State, kind string, lo, hi int64, a ...*Term) *Term {
	n := mkApp("toklen:"+kind, tInt, a...)
	st.assumeIn(n, between(lo, hi))
	return n
}

// floatMin is the least length of a formatted float: in exponent form a finite
// number takes at least a digit, e, a sign and two digits.
func floatMin(st *State, a []*Term) int64 {
	if len(a) >= 3 && (isInt(a[1], 'e') || isInt(a[1], 'E')) && isInt(a[2], -1) && finiteIn(st, a[0]) {
		return 5
	}
	return 1
}

// hasAffix compares the bytes at one end of a slice with a text.
func (e *Engine) hasAffix(st *State, fr *frame, in ssa.Instruction, v *Term, text string, end bool) []Outcome {
	p, n, _ := sliceParts(v)
	var out []Outcome
	no := st.clone()
	if no.assumeIn(n, between(0, int64(len(text))-1)) {
		out = append(out, Outcome{no, []*Term{tFalse}})
	}
	if !st.assumeIn(n, between(int64(len(text)), maxLen)) {
		return out
	}
	base, off := ptrParts(p)
	if end {
		off = addT(off, addT(n, intC(-int64(len(text)))))
	}
	for i := 0; i < len(text); i++ {
		b := e.load(st, fr, in, mkPtr(base, addT(off, intC(int64(i)))), tByteT)
		eq := inT(addT(b, intC(-int64(text[i]))), single(0))
		d := st.decide(eq)
		if d != 1 {
			no := st.clone()
			if no.assume(eq, false) {
				out = append(out, Outcome{no, []*Term{tFalse}})
			}
		}
		if d == 0 || !st.assume(eq, true) {
			return out
		}
	}
	return append(out, Outcome{st, []*Term{tTrue}})
}

// finiteIn: the value is known to be neither NaN nor infinite.
func finiteIn(st *State, f *Term) bool { return finiteness(st, f) == 1 }

// finiteness: 1 the value is neither NaN nor infinite, 0 it can be one of
// them, -1 it is not known.
func finiteness(st *State, f *Term) int {
	f = floatLeaf(f)
	if f.op == OFloat || f.op == OApp && (strings.HasPrefix(f.s, "d.") || f.s == "i2f") || bounded(f) {
		return 1
	}
	vs, maybe := st.possible(f, []float64{math.NaN(), math.Inf(1), math.Inf(-1)})
	switch {
	case len(vs)+len(maybe) == 0:
		return 1
	case len(vs) == 0 || f.op != OApp || !plain(f):
		return -1
	}
	return 0
}

func unconv(f *Term) *Term {
	for f.op == OApp && f.s == "fconv" && len(f.a) > 0 {
		f = f.a[0]
	}
	return f
}

func tok(kind string, n *Term, a ...*Term) *Term {
	return piece("tok", 0, kind, append([]*Term{n}, a...)...)
}

func strTerm(e *Engine, st *State, v *Term) *Term { return e.strOf(st, e.content(st, v)) }

// anyArgs gives the values of a variadic ...interface{} argument.
func (e *Engine) anyArgs(st *State, v *Term) []*Term {
	var r []*Term
	for _, p := range e.elements(st, v, types.NewInterfaceType(nil, nil)) {
		if p.s == "elt" {
			r = append(r, p.a[0])
		} else {
			r = append(r, p)
		}
	}
	return r
}

func (e *Engine) timeFacts(st *State, t *Term) {
	y := mkApp("t.Year", tInt, t)
	if s := st.rng(y); len(s) > 0 && s.lo() >= 0 && s.hi() <= 9999 {
		u, o := mkApp("t.Unix", types.Typ[types.Int64], t), mkApp("t.Offset", tInt, t)
		st.assumeIn(addT(u, o), between(-62167219200, 253402300799))
	}
}

func (e *Engine) model(fr *frame, p *path, in ssa.CallInstruction, f *ssa.Function, args []*Term) []Outcome {
	st := p.st
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	name := o.String()
	if f.Pkg != nil && e.pkgs[f.Pkg] {
		if ln, ok := e.repo.linkname[name]; ok && len(f.Blocks) == 0 {
			return e.linked(fr, p, in, ln, f, args)
		}
		return nil
	}
	res := f.Signature.Results()
	rt := func(i int) types.Type { return res.At(i).Type() }
	pure := func() []Outcome {
		var vs []*Term
		for i := 0; i < res.Len(); i++ {
			n := "fn:" + name
			if i > 0 {
				n += fmt.Sprint("/", i)
			}
			v := e.expand(rt(i), mkApp(n, rt(i), args...))
			e.wf(st, rt(i), v)
			vs = append(vs, v)
		}
		return []Outcome{{st, vs}}
	}
	switch name {
	// ----- strconv
	case "strconv.AppendInt", "strconv.AppendUint":
		k := "int"
		if name == "strconv.AppendUint" {
			k = "uint"
		}
		n := e.tokLen(st, k, 1, 65, args[1], args[2])
		if isInt(args[2], 10) {
			st.assumeIn(n, between(1, 20))
		}
		return e.one(st, e.appendTo(st, fr, in, args[0], []*Term{tok(k, n, args[1], args[2])}, tByteT))
	case "strconv.FormatInt", "strconv.FormatUint", "strconv.Itoa":
		k := "int"
		if name == "strconv.FormatUint" {
			k = "uint"
		}
		base := intC(10)
		if len(args) > 1 {
			base = args[1]
		}
		n := e.tokLen(st, k, 1, 65, args[0], base)
		return e.one(st, e.strOf(st, []*Term{tok(k, n, args[0], base)}))
	case "strconv.AppendFloat":
		n := e.tokLen(st, "float", floatMin(st, args[1:]), maxLen, args[1:]...)
		return e.one(st, e.appendTo(st, fr, in, args[0], []*Term{tok("float", n, args[1:]...)}, tByteT))
	case "strconv.FormatFloat":
		n := e.tokLen(st, "float", floatMin(st, args), maxLen, args...)
		return e.one(st, e.strOf(st, []*Term{tok("float", n, args...)}))
	case "strconv.AppendBool":
		q := st.clone()
		var out []Outcome
		if st.assume(args[1], true) {
			out = append(out, Outcome{st, []*Term{e.appendTo(st, fr, in, args[0], []*Term{lit("true")}, tByteT)}})
		}
		if q.assume(args[1], false) {
			out = append(out, Outcome{q, []*Term{e.appendTo(q, fr, in, args[0], []*Term{lit("false")}, tByteT)}})
		}
		return out
	case "strconv.AppendQuote", "strconv.AppendQuoteToASCII":
		n := e.tokLen(st, "quote", 2, maxLen, args[1])
		return e.one(st, e.appendTo(st, fr, in, args[0], []*Term{tok("quote", n, args[1])}, tByteT))
	case "strconv.Quote":
		n := e.tokLen(st, "quote", 2, maxLen, args[0])
		return e.one(st, e.strOf(st, []*Term{tok("quote", n, args[0])}))
	// ----- base64
	case "(*encoding/base64.Encoding).EncodedLen":
		n := mkApp("b64len", tInt, args[0], args[1])
		st.assumeIn(n, between(0, maxLen))
		st.assume(inT(subT(n, args[1]), between(0, INF)), true)
		return e.one(st, n)
	case "(*encoding/base64.Encoding).Encode", "(*encoding/base64.Encoding).AppendEncode", "(*encoding/base64.Encoding).EncodeToString":
		src := args[len(args)-1]
		_, sl, _ := sliceParts(src)
		n := mkApp("b64len", tInt, args[0], sl)
		st.assumeIn(n, between(0, maxLen))
		x := piece("xform", 0, "base64", append([]*Term{n, args[0]}, e.content(st, src)...)...)
		switch {
		case len(args) == 2:
			return e.one(st, e.strOf(st, []*Term{x}))
		case strings.HasSuffix(name, "AppendEncode"):
			return e.one(st, e.appendTo(st, fr, in, args[1], []*Term{x}, tByteT))
		}
		dp, dn, _ := sliceParts(args[1])
		e.obligation("extern", fr, in, "room for the base64 text", st.le(n, dn), func() string { return "destination of length " + dn.String() })
		base, off := ptrParts(st.res(dp))
		if o := st.obj(st.res(base)); o != nil && o.kind == KLog {
			e.event("log-copy", st, fr, in, "base64", objT(o.id), off, n)
			e.overwrite(st, o, off, n, []*Term{x})
		} else {
			e.event("store-opaque", st, fr, in, "base64", args[1], n)
		}
		return []Outcome{{st, nil}}
	// ----- utf8
	case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString":
		var ptr, n *Term
		if strings.HasSuffix(name, "String") {
			ptr, n = strParts(args[0])
		} else {
			ptr, n, _ = sliceParts(args[0])
		}
		return e.decodeFork(st, ptr, n)
	case "unicode/utf8.RuneLen":
		v := mkApp("fn:"+name, tInt, args...)
		st.assumeIn(v, between(-1, 4))
		return e.one(st, v)
	case "unicode/utf8.AppendRune":
		if r, ok := st.constOf(args[1]); ok {
			return e.one(st, e.appendTo(st, fr, in, args[0], []*Term{lit(string(rune(r)))}, tByteT))
		}
		n := e.tokLen(st, "rune", 1, 4, args[1])
		return e.one(st, e.appendTo(st, fr, in, args[0], []*Term{tok("rune", n, args[1])}, tByteT))
	case "unicode/utf8.Valid", "unicode/utf8.ValidString":
		return e.one(st, mkApp("utf8valid", tBoolT, e.content(st, args[0])...))
	// ----- json, bytes
	case "encoding/json.Valid":
		return e.one(st, mkApp("jsonvalid", tBoolT, e.content(st, args[0])...))
	case "encoding/json.HTMLEscape":
		src := e.content(st, args[1])
		n := e.lenSym(st, "hlen", 0, maxLen)
		if e.bufAppend(st, fr, in, args[0], "(*bytes.Buffer)", []*Term{piece("xform", 0, "htmlescape", append([]*Term{n}, src...)...)}) {
			return []Outcome{{st, nil}}
		}
		return nil
	case "bytes.Compare", "strings.Compare":
		a, b := strTerm(e, st, args[0]), strTerm(e, st, args[1])
		eq := e.strEq(st, a, b)
		cmp := mkApp("bytescmp", tInt, a, b)
		d := st.decide(eq)
		var out []Outcome
		if d != 0 {
			q := st
			if d == -1 {
				q = st.clone()
			}
			if q.assume(eq, true) {
				out = append(out, Outcome{q, []*Term{tZero}})
			}
		}
		if d != 1 && st.assume(eq, false) {
			st.assumeIn(cmp, setOf(-1, 1))
			out = append(out, Outcome{st, []*Term{cmp}})
		}
		return out
	case "bytes.HasSuffix", "bytes.HasPrefix":
		if ps := e.content(st, args[1]); len(ps) == 1 && ps[0].s == "lit" && len(ps[0].x.(string)) <= 8 {
			return e.hasAffix(st, fr, in, args[0], ps[0].x.(string), name == "bytes.HasSuffix")
		}
		return nil
	case "bytes.Equal":
		return e.one(st, e.strEq(st, strTerm(e, st, args[0]), strTerm(e, st, args[1])))
	case "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write", "(*strings.Builder).WriteString", "(*strings.Builder).Write":
		ps := e.content(st, args[1])
		if !e.bufAppend(st, fr, in, args[0], name[:strings.Index(name, ")")+1], ps) {
			return nil
		}
		return e.one(st, logTotal(ps), nilIface)
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
		if !e.bufAppend(st, fr, in, args[0], name[:strings.Index(name, ")")+1], []*Term{piece("byte", 0, nil, args[1])}) {
			return nil
		}
		return e.one(st, nilIface)
	case "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		var ps []*Term
		if r, ok := st.constOf(args[1]); ok {
			ps = []*Term{lit(string(rune(r)))}
		} else {
			ps = []*Term{tok("rune", e.tokLen(st, "rune", 1, 4, args[1]), args[1])}
		}
		if !e.bufAppend(st, fr, in, args[0], name[:strings.Index(name, ")")+1], ps) {
			return nil
		}
		return e.one(st, logTotal(ps), nilIface)
	case "(*bytes.Buffer).Reset", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*bytes.Buffer).Len", "(*bytes.Buffer).Grow", "(*bytes.Buffer).Truncate",
		"(*strings.Builder).Reset", "(*strings.Builder).String", "(*strings.Builder).Len", "(*strings.Builder).Grow":
		ptr := e.bufPtr(st, args[0], name)
		if ptr == nil {
			return nil
		}
		bs := types.NewSlice(tByteT)
		v := e.load(st, fr, in, ptr, bs)
		switch name[strings.Index(name, ").")+2:] {
		case "Reset":
			if v != nilSlice {
				e.store(st, fr, in, ptr, bs, mkSlice(v.a[0], tZero, v.a[2]))
			}
			return []Outcome{{st, nil}}
		case "Bytes":
			return e.one(st, v)
		case "String":
			return e.one(st, e.bytesToString(st, v))
		case "Len":
			_, n, _ := sliceParts(v)
			return e.one(st, n)
		case "Truncate":
			e.store(st, fr, in, ptr, bs, mkSlice(v.a[0], args[1], v.a[2]))
			return []Outcome{{st, nil}}
		}
		return []Outcome{{st, nil}}
	// ----- strings
	case "strings.Index", "strings.IndexByte", "strings.LastIndex", "strings.LastIndexByte", "strings.IndexRune", "strings.IndexAny", "strings.IndexFunc",
		"strings.LastIndexAny", "bytes.Index", "bytes.IndexByte", "bytes.LastIndex", "bytes.LastIndexByte", "bytes.IndexAny", "bytes.IndexRune":
		r := mkApp("fn:"+name, tInt, args...)
		st.assumeIn(r, between(-1, maxLen))
		var n *Term
		if args[0].op == OSlice {
			n = args[0].a[1]
		} else {
			_, n = strParts(args[0])
		}
		min := int64(1)
		if args[1].op == OStrC {
			min = int64(len(args[1].s))
		}
		if d := subT(n, r); d.op != OInt && min >= 1 {
			st.assume(inT(d, between(1, INF)), true)
		}
		return e.one(st, r)
	case "strings.Split", "strings.SplitN", "strings.Fields", "strings.SplitAfter":
		v := mkApp("fn:"+name, rt(0), args...)
		p, n, c := sliceParts(v)
		lo := int64(0)
		if name == "strings.Split" && len(args) > 1 && args[1].op == OStrC && args[1].s != "" {
			lo = 1
		}
		st.assumeIn(n, between(lo, maxLen))
		st.assumeIn(c, between(lo, maxLen))
		st.assume(inT(subT(c, n), between(0, INF)), true)
		return e.one(st, mkSlice(p, n, c))
	case "strings.Cut":
		i := mkApp("fn:strings.Index", tInt, args...)
		ptr, n := strParts(args[0])
		_, k := strParts(args[1])
		st.assumeIn(i, between(-1, maxLen))
		st.assume(inT(subT(n, addT(i, k)), between(0, INF)), true)
		q := st.clone()
		var out []Outcome
		if st.assume(inT(i, between(0, INF)), true) {
			out = append(out, Outcome{st, []*Term{mkStr(ptr, i), mkStr(mkPtr(ptr, addT(i, k)), subT(n, addT(i, k))), tTrue}})
		}
		if q.assume(inT(i, single(-1)), true) {
			out = append(out, Outcome{q, []*Term{args[0], strC(""), tFalse}})
		}
		return out
	case "errors.New", "fmt.Errorf":
		a := []*Term{strC(e.pos(in))}
		a = append(a, args[0])
		if len(args) > 1 {
			a = append(a, e.anyArgs(st, args[1])...)
		}
		e.note(st, "mkerr", name, in)
		return e.one(st, mkApp("mkerr", nil, a...))
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		var a []*Term
		if name == "fmt.Sprintf" {
			a = append(a, args[0])
			a = append(a, e.anyArgs(st, args[1])...)
		} else {
			a = append(a, e.anyArgs(st, args[0])...)
		}
		v := e.expand(tString, mkApp(name, tString, a...))
		e.wf(st, tString, v)
		e.event("sprintf", st, fr, in, name, append([]*Term{v}, a...)...)
		return e.one(st, v)
	// ----- math
	case "math.Float64bits":
		return e.one(st, mkApp("fbits", rt(0), args[0]))
	case "math.Float32bits":
		return e.one(st, mkApp("fbits32", rt(0), args[0]))
	case "math.Signbit":
		return e.one(st, mkApp("signbit", rt(0), args[0]))
	case "math.IsInf", "math.IsNaN", "math.Abs":
		if name != "math.Abs" && bounded(unconv(args[0])) {
			return e.one(st, tFalse)
		}
		return e.one(st, mkApp(map[string]string{"math.IsInf": "isinf", "math.IsNaN": "isnan", "math.Abs": "fabs"}[name], rt(0), args...))
	// ----- reflect
	case "reflect.TypeOf":
		v := args[0]
		if st.decide(st.eqTerms(v, nilIface)) == 1 {
			return e.one(st, nilIface)
		}
		t := mkApp("typeof", rt(0), v)
		if t.op == OApp && st.decide(st.eqTerms(v, nilIface)) == -1 {
			q := st.clone()
			var out []Outcome
			if q.assume(q.eqTerms(v, nilIface), true) {
				out = append(out, Outcome{q, []*Term{nilIface}})
			}
			if st.assume(st.eqTerms(v, nilIface), false) {
				out = append(out, Outcome{st, []*Term{t}})
			}
			return out
		}
		return e.one(st, t)
	case "reflect.PtrTo", "reflect.PointerTo":
		return e.one(st, mkApp("rt.PtrTo", rt(0), st.res(args[0])))
	case "(reflect.StructField).IsExported":
		if args[0].op == OStruct && len(args[0].a) > 1 {
			_, n := strParts(args[0].a[1])
			return e.one(st, inT(n, single(0)))
		}
		return pure()
	case "reflect.ValueOf", "reflect.NewAt", "reflect.Zero", "(reflect.StructTag).Get", "(reflect.StructTag).Lookup":
		return pure()
	// ----- time
	case "(time.Time).Year":
		e.timeFacts(st, args[0])
		return e.one(st, mkApp("t.Year", tInt, args[0]))
	case "(time.Time).Unix", "(time.Time).UnixNano", "(time.Time).UnixMilli", "(time.Time).UnixMicro":
		e.timeFacts(st, args[0])
		return e.one(st, mkApp("t."+o.Name(), rt(0), args[0]))
	case "(time.Time).Zone":
		e.timeFacts(st, args[0])
		off := mkApp("t.Offset", tInt, args[0])
		st.assumeIn(off, between(math.MinInt32, math.MaxInt32))
		return e.one(st, e.expand(tString, mkApp("t.ZoneName", tString, args[0])), off)
	case "(time.Time).Nanosecond":
		v := mkApp("t.Nanosecond", tInt, args[0])
		st.assumeIn(v, between(0, 999999999))
		return e.one(st, v)
	case "(time.Time).IsZero":
		return e.one(st, mkApp("t.IsZero", tBoolT, args[0]))
	case "(time.Time).UTC", "(time.Time).Local", "(time.Time).Round", "(time.Time).In", "(time.Time).Truncate", "(time.Time).Add":
		return pure()
	case "(time.Time).Month", "(time.Time).Day", "(time.Time).Hour", "(time.Time).Minute", "(time.Time).Second", "(time.Time).YearDay", "(time.Time).Weekday":
		r := map[string]Set{"Month": between(1, 12), "Day": between(1, 31), "Hour": between(0, 23), "Minute": between(0, 59), "Second": between(0, 59),
			"YearDay": between(1, 366), "Weekday": between(0, 6)}[o.Name()]
		v := mkApp("t."+o.Name(), rt(0), args[0])
		st.assumeIn(v, r)
		return e.one(st, v)
	case "(time.Time).Date":
		y, m, d := mkApp("t.Year", tInt, args[0]), mkApp("t.Month", rt(1), args[0]), mkApp("t.Day", tInt, args[0])
		st.assumeIn(m, between(1, 12))
		st.assumeIn(d, between(1, 31))
		return e.one(st, y, m, d)
	case "(time.Time).Clock":
		y, m, d := mkApp("t.Hour", tInt, args[0]), mkApp("t.Minute", tInt, args[0]), mkApp("t.Second", tInt, args[0])
		st.assumeIn(y, between(0, 23))
		st.assumeIn(m, between(0, 59))
		st.assumeIn(d, between(0, 59))
		return e.one(st, y, m, d)
	case "(time.Time).AppendFormat":
		n := e.tokLen(st, "timefmt", 0, maxLen, args[0], args[2])
		return e.one(st, e.appendTo(st, fr, in, args[1], []*Term{tok("timefmt", n, args[0], args[2])}, tByteT))
	case "(time.Time).Format":
		n := e.tokLen(st, "timefmt", 0, maxLen, args[0], args[1])
		return e.one(st, e.strOf(st, []*Term{tok("timefmt", n, args[0], args[1])}))
	case "(time.Duration).Nanoseconds":
		return e.one(st, args[0])
	case "(time.Duration).Round":
		return e.one(st, mkApp("d.round", types.Typ[types.Int64], args[0], args[1]))
	case "(time.Duration).Truncate":
		if v, ok := st.constOf(args[1]); ok && v > 0 {
			return e.one(st, subT(args[0], mkApp("rem", types.Typ[types.Int64], args[0], intC(v))))
		}
	case "(time.Duration).Microseconds":
		return e.one(st, mkApp("quo", types.Typ[types.Int64], args[0], intC(1000)))
	case "(time.Duration).Milliseconds":
		return e.one(st, mkApp("quo", types.Typ[types.Int64], args[0], intC(1000000)))
	case "(time.Duration).Minutes", "(time.Duration).Seconds", "(time.Duration).Hours":
		return e.one(st, mkApp("d."+o.Name(), rt(0), args[0]))
	case "(time.Duration).String":
		n := e.tokLen(st, "duration", 2, 32, args[0])
		return e.one(st, e.strOf(st, []*Term{tok("duration", n, args[0])}))
	// ----- context, runtime
	case "context.TODO", "context.Background":
		return e.one(st, mkApp("nn:"+name, nil))
	case "runtime.KeepAlive":
		e.event("keepalive", st, fr, in, "", args...)
		return []Outcome{{st, nil}}
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		e.event("exit", st, fr, in, name, args...)
		if e.onExit != nil {
			e.onExit(st, fr.fn, in, name, args)
		}
		return noret
	// ----- sort
	case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		return e.sortModel(fr, p, in, name, args)
	}
	if !e.pkgs[o.Pkg] && o.Pkg != nil && o.Name() == "init" {
		return []Outcome{{st, nil}}
	}
	switch {
	case strings.HasPrefix(name, "(*sync/atomic."), strings.HasPrefix(name, "sync/atomic."):
		return e.atomicModel(fr, p, in, name, f, args)
	case strings.HasPrefix(name, "(*sync."):
		return e.syncModel(fr, p, in, name, f, args)
	case strings.HasPrefix(name, "strings."), strings.HasPrefix(name, "unicode."), strings.HasPrefix(name, "math."),
		strings.HasPrefix(name, "math/bits."), strings.HasPrefix(name, "unicode/utf8."), strings.HasPrefix(name, "strconv."),
		strings.HasPrefix(name, "errors."), strings.HasPrefix(name, "bytes.Has"), strings.HasPrefix(name, "bytes.Contains"),
		strings.HasPrefix(name, "bytes.Trim"):
		return pure()
	}
	return nil
}

func (e *Engine) bufPtr(st *State, b *Term, name string) *Term {
	off := int64(0)
	if strings.Contains(name, "strings.Builder") {
		off = 8
	}
	ptr := mkPtr(st.res(b), intC(off))
	if st.obj(baseOf(ptr)) == nil {
		return nil
	}
	return ptr
}

func (e *Engine) bufAppend(st *State, fr *frame, in ssa.Instruction, b *Term, name string, ps []*Term) bool {
	ptr := e.bufPtr(st, b, name)
	if ptr == nil {
		return false
	}
	bs := types.NewSlice(tByteT)
	v := e.load(st, fr, in, ptr, bs)
	e.store(st, fr, in, ptr, bs, e.appendTo(st, fr, in, v, ps, tByteT))
	return true
}

var runeCases = []struct {
	sz  int64
	r   Set
	b0  Set
	inv bool
}{
	{1, between(0, 0x7F), between(0, 0x7F), false},
	{2, between(0x80, 0x7FF), between(0xC2, 0xDF), false},
	{3, between(0x800, 0xD7FF).or(between(0xE000, 0xFFFF)), between(0xE0, 0xEF), false},
	{4, between(0x10000, 0x10FFFF), between(0xF0, 0xF4), false},
	{1, single(0xFFFD), between(0x80, 0xFF), true},
}

// decodeFork decodes the rune at the start of a text: one outcome per shape.
func (e *Engine) decodeFork(st *State, ptr, n *Term) []Outcome {
	var out []Outcome
	if !st.lt(tZero, n) {
		q := st.clone()
		if q.assume(inT(n, single(0)), true) {
			out = append(out, Outcome{q, []*Term{intC(0xFFFD), tZero}})
		}
		if !st.assume(inT(n, between(1, INF)), true) {
			return out
		}
	}
	b := e.loadByte(st, ptr, tZero)
	base, off := ptrParts(st.res(ptr))
	for _, c := range runeCases {
		q := st.clone()
		if !q.assume(inT(n, between(c.sz, INF)), true) || !q.assume(inT(b, c.b0), true) {
			continue
		}
		var r *Term
		switch {
		case c.inv:
			r = intC(0xFFFD)
			if !q.assume(mkApp("badutf8", tBoolT, base, off, addT(off, n)), true) {
				continue
			}
		case c.sz == 1:
			r = b
		default:
			r = mkApp("rune", types.Typ[types.Int32], base, off)
			q.assumeIn(r, c.r)
			if !q.assume(mkApp("badutf8", tBoolT, base, off, addT(off, n)), false) {
				continue
			}
		}
		out = append(out, Outcome{q, []*Term{r, intC(c.sz)}})
	}
	return out
}

// decodeRune is used by range loops over strings.
func (e *Engine) decodeRune(st *State, base, off, avail *Term) (r, sz *Term) {
	r = mkApp("rune", types.Typ[types.Int32], base, off)
	sz = mkApp("runesz", tInt, base, off)
	st.assumeIn(r, between(0, 0x10FFFF))
	st.assumeIn(sz, between(1, 4))
	st.assume(inT(subT(avail, sz), between(0, INF)), true)
	return
}

// external is a call of a function about which nothing is known.
func (e *Engine) external(fr *frame, p *path, in ssa.CallInstruction, f *ssa.Function, args []*Term) []Outcome {
	st := p.st
	name := f.String()
	if f.Name() == "init" {
		return []Outcome{{st, nil}}
	}
	e.event("extern", st, fr, in, name, args...)
	for _, a := range args {
		e.havoc(st, a)
	}
	var vs []*Term
	for i := 0; i < f.Signature.Results().Len(); i++ {
		vs = append(vs, e.freshRes(st, "ext:"+name, f.Signature.Results().At(i).Type()))
	}
	e.note(st, "ext-result", name, in, vs...)
	return []Outcome{{st, vs}}
}

// ---------- map iteration through the runtime ----------

const (
	hidIdx = -8
	hidMap = -16
)

func (e *Engine) linked(fr *frame, p *path, in ssa.CallInstruction, ln string, f *ssa.Function, args []*Term) []Outcome {
	st := p.st
	switch ln {
	case "reflect.maplen", "runtime.maplen", "reflect.maplen0":
		n := mkApp("maplen", tInt, args[0])
		st.assumeIn(n, between(0, maxLen))
		e.event("maplen", st, fr, in, "", args...)
		return e.one(st, n)
	case "runtime.mapiterinit", "reflect.mapiterinit":
		if len(args) < 3 {
			break
		}
		e.event("mapiterinit", st, fr, in, ln, args...)
		base := st.res(baseOf(args[2]))
		o := st.obj(base)
		if o == nil {
			e.problem("map iterator that is not a local object at %s", e.pos(in))
			return []Outcome{{st, nil}}
		}
		if !o.zero {
			clean := true
			for _, l := range e.leaves(o.typ) {
				if v, ok := o.cells[l.off]; !ok || v != zeroLeaf(l) {
					clean = false
				}
			}
			if !clean {
				e.event("dirty-iter", st, fr, in, "the iterator is not zeroed before it is initialised", base)
			}
		} else {
			for c, v := range o.cells {
				if v != tZero && v != tNil && v != tFalse {
					e.event("dirty-iter", st, fr, in, fmt.Sprintf("the iterator is not zeroed (offset %d) before it is initialised", c), base)
				}
			}
		}
		o = st.mut(o)
		for _, l := range e.leaves(o.typ) {
			o.cells[l.off] = mkApp("hiter:"+l.kind, l.typ, args[1], intC(l.off))
		}
		o.cells[hidIdx] = tZero
		o.cells[hidMap] = args[1]
		return e.iterPos(st, o)
	case "reflect.mapiternext", "runtime.mapiternext":
		e.event("mapiternext", st, fr, in, ln, args...)
		base := st.res(baseOf(args[0]))
		o := st.obj(base)
		if o == nil || o.cells[hidIdx] == nil {
			e.problem("unknown map iterator at %s", e.pos(in))
			return []Outcome{{st, nil}}
		}
		o = st.mut(o)
		o.cells[hidIdx] = addT(o.cells[hidIdx], tOne)
		return e.iterPos(st, o)
	}
	return nil
}

func (e *Engine) iterPos(st *State, o *Obj) []Outcome {
	m, i := o.cells[hidMap], o.cells[hidIdx]
	q := st.clone()
	end := q.mut(q.heap[o.id])
	end.cells[0], end.cells[8] = tNil, tNil
	cur := st.mut(st.heap[o.id])
	cur.cells[0] = mkApp("mapkeyptr", tUP, m, i)
	cur.cells[8] = mkApp("mapvalptr", tUP, m, i)
	// as many entries as the map has
	left := subT(mkApp("maplen", tInt, m), i)
	var out []Outcome
	if st.assumeIn(left, between(1, INF)) {
		out = append(out, Outcome{st, nil})
	}
	if q.assumeIn(left, single(0)) {
		out = append(out, Outcome{q, nil})
	}
	return out
}

// ---------- sync ----------

func (e *Engine) syncModel(fr *frame, p *path, in ssa.CallInstruction, name string, f *ssa.Function, args []*Term) []Outcome {
	st := p.st
	recv := st.res(args[0])
	any := types.NewInterfaceType(nil, nil)
	switch name {
	case "(*sync.Pool).Get":
		e.event("pool-get", st, fr, in, "", recv)
		freshSeq++
		v := mkApp("poolget", any, recv, intC(int64(freshSeq)))
		q := st.clone()
		var out []Outcome
		if st.assume(eqT(v, tNil), false) {
			out = append(out, Outcome{st, []*Term{v}})
		}
		// an empty pool
		if off, ft := e.fieldNamed(f.Signature.Recv().Type().Underlying().(*types.Pointer).Elem(), "New"); off >= 0 && q.obj(baseOf(recv)) != nil {
			nf := e.load(q, fr, in, mkPtr(recv, intC(off)), ft)
			if d := q.decide(q.eqTerms(nf, tNil)); d != 1 && (nf.op == OFunc || nf.op == OClos) {
				qp := &path{st: q, env: p.env}
				var bind []*Term
				if nf.op == OClos {
					bind = nf.a
				}
				return append(out, e.callFn(fr, qp, in, nf.x.(*ssa.Function), nil, bind)...)
			}
		}
		q.assume(eqT(v, tNil), true)
		out = append(out, Outcome{q, []*Term{nilIface}})
		return out
	case "(*sync.Pool).Put":
		v := st.res(args[1])
		e.event("pool-put", st, fr, in, "", recv, v)
		e.notePut(st, recv.String(), v)
		e.release(st, v, e.pos(in))
		return []Outcome{{st, nil}}
	case "(*sync.Map).Load":
		e.event("sm-load", st, fr, in, "", recv, args[1])
		v := mkApp("smload", any, recv, args[1])
		has := mkApp("smhas", tBoolT, recv, args[1])
		q := st.clone()
		var out []Outcome
		if st.assume(has, true) {
			if e.isCache(st, recv) {
				st.assume(eqT(v, tNil), false)
			}
			e.note(st, "sm-hit", "", in, recv, args[1])
			out = append(out, Outcome{st, []*Term{v, tTrue}})
		}
		if q.assume(has, false) {
			e.note(q, "sm-miss", "", in, recv, args[1])
			out = append(out, Outcome{q, []*Term{nilIface, tFalse}})
		}
		return out
	case "(*sync.Map).LoadOrStore":
		e.event("sm-loadorstore", st, fr, in, "", recv, args[1], args[2])
		e.notePut(st, recv.String(), st.res(args[2]))
		freshSeq++
		v := mkApp("smload", any, recv, args[1], intC(int64(freshSeq)))
		q := st.clone()
		q.assume(eqT(v, tNil), false)
		if st.atoms[mkApp("smhas", tBoolT, recv, args[1])] {
			delete(st.atoms, mkApp("smhas", tBoolT, recv, args[1]))
		}
		e.note(q, "sm-hit", "", in, recv, args[1])
		e.note(st, "sm-miss", "", in, recv, args[1])
		e.note(st, "sm-store", "", in, recv, args[1], args[2])
		return []Outcome{{q, []*Term{v, tTrue}}, {st, []*Term{args[2], tFalse}}}
	case "(*sync.Map).Store", "(*sync.Map).Swap":
		e.event("sm-store", st, fr, in, "", recv, args[1], args[2])
		e.notePut(st, recv.String(), st.res(args[2]))
		if f.Signature.Results().Len() > 0 {
			break
		}
		return []Outcome{{st, nil}}
	case "(*sync.Map).Range":
		return e.smRange(fr, p, in, recv, args[1])
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait",
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		e.event("sync", st, fr, in, f.Name(), args...)
		return []Outcome{{st, nil}}
	case "(*sync.Once).Do":
		q := st.clone()
		outs := []Outcome{{q, nil}}
		e.event("sync", st, fr, in, "Do", args...)
		for _, o := range e.callTerm(fr, p, in, in.Common(), st.res(args[1]), nil) {
			outs = append(outs, Outcome{o.st, nil})
		}
		return outs
	}
	e.event("extern", st, fr, in, name, args...)
	var vs []*Term
	for i := 0; i < f.Signature.Results().Len(); i++ {
		vs = append(vs, e.freshRes(st, "ext:"+name, f.Signature.Results().At(i).Type()))
	}
	return []Outcome{{st, vs}}
}

// isCache reports whether a sync.Map is a variable of the package.
func (e *Engine) isCache(st *State, recv *Term) bool { return isGlobalName(st, recv) != "" }

// release marks what is reachable from an object given to a pool.
func (e *Engine) release(st *State, v *Term, pos string) {
	if v.op == OMkI {
		v = v.a[0]
	}
	o := st.obj(baseOf(v))
	if o == nil || o.prov == "global" {
		return
	}
	o = st.mut(o)
	o.rel = pos
	for _, c := range o.cells {
		if m := st.obj(baseOf(st.res(c))); m != nil && m.kind == KLog && m.rel == "" && m.prov != "global" {
			m = st.mut(m)
			m.rel = pos
		}
	}
}

func (e *Engine) smRange(fr *frame, p *path, in ssa.CallInstruction, recv, fn *Term) []Outcome {
	st := p.st
	any := types.NewInterfaceType(nil, nil)
	e.event("sm-range", st, fr, in, "", recv)
	it := st.newObj(KCells, tInt, true, "iter")
	it.site = e.pos(in)
	it.cells[0] = tZero
	st.assumeIn(mkApp("smlen", tInt, recv), between(0, maxLen))
	itT := mkPtr(objT(it.id), tZero)
	var bind []*Term
	f, ok := fn.x.(*ssa.Function)
	if !ok {
		e.problem("Range with an unknown function at %s", e.pos(in))
		return []Outcome{{st, nil}}
	}
	if fn.op == OClos {
		bind = fn.a
	}
	// The environment of the caller does not change while the loop runs.
	body := func(q *path) bodyRes {
		var r bodyRes
		end := q.clone()
		idx := e.load(q.st, fr, in, itT, tInt)
		left := subT(mkApp("smlen", tInt, recv), idx)
		if end.st.assumeIn(left, single(0)) {
			r.exits = append(r.exits, edge{p: end})
		}
		if !q.st.assumeIn(left, between(1, INF)) {
			return r
		}
		k := mkApp("smkey", any, recv, idx)
		v := mkApp("smval", any, recv, idx)
		e.store(q.st, fr, in, itT, tInt, addT(idx, tOne))
		e.event("sm-entry", q.st, fr, in, "", recv, idx)
		for _, o := range e.callFn(fr, q, in, f, []*Term{k, v}, bind) {
			np := &path{st: o.st, env: cloneMap(q.env)}
			c := o.ret[0]
			switch np.st.decide(c) {
			case 1:
				r.backs = append(r.backs, np)
			case 0:
				// entries may be left
				if np.st.assumeIn(left, between(2, INF)) {
					r.exits = append(r.exits, edge{p: np})
				}
			default:
				a := np.clone()
				if a.st.assume(c, true) {
					r.backs = append(r.backs, a)
				}
				if np.st.assume(c, false) && np.st.assumeIn(left, between(2, INF)) {
					r.exits = append(r.exits, edge{p: np})
				}
			}
		}
		return r
	}
	save := e.unroll
	e.unroll = nil
	entry := &path{st: st, env: p.env, defers: p.defers}
	exits, _ := e.fix(fr, fr.fn.String()+" (Range)", e.pos(in), nil, entry, body)
	e.unroll = save
	var outs []Outcome
	for _, x := range exits {
		outs = append(outs, Outcome{x.p.st, nil})
	}
	return outs
}

// ---------- atomics ----------

func (e *Engine) atomicModel(fr *frame, p *path, in ssa.CallInstruction, name string, f *ssa.Function, args []*Term) []Outcome {
	st := p.st
	e.event("atomic", st, fr, in, f.Name(), args...)
	var vs []*Term
	for i := 0; i < f.Signature.Results().Len(); i++ {
		t := f.Signature.Results().At(i).Type()
		freshSeq++
		v := e.expand(t, mkApp("atomic:"+f.Name(), t, st.res(args[0]), intC(int64(freshSeq))))
		e.wf(st, t, v)
		vs = append(vs, v)
	}
	return []Outcome{{st, vs}}
}

// ---------- sorting ----------

// sortModel permutes the sequence that is sorted.
func (e *Engine) sortModel(fr *frame, p *path, in ssa.CallInstruction, name string, args []*Term) []Outcome {
	st := p.st
	v := st.res(args[0])
	var t types.Type
	if v.op == OMkI {
		t = v.x.(types.Type)
		v = v.a[0]
	} else if !strings.HasPrefix(name, "slices.") {
		e.problem("sorting an unknown value at %s", e.pos(in))
		return []Outcome{{st, nil}}
	}
	s := v
	if t != nil {
		u := t.Underlying()
		if pt, ok := u.(*types.Pointer); ok {
			s = e.load(st, fr, in, v, pt.Elem())
			u = pt.Elem().Underlying()
		}
		if sct, ok := u.(*types.Struct); ok {
			s = e.expand(u, s)
			for i := 0; i < sct.NumFields(); i++ {
				if _, ok := sct.Field(i).Type().Underlying().(*types.Slice); ok {
					s = s.a[i]
					break
				}
			}
		}
	}
	if s.op != OSlice {
		e.problem("sorting an unknown sequence at %s", e.pos(in))
		return []Outcome{{st, nil}}
	}
	ptr, n, _ := sliceParts(s)
	o := st.obj(st.res(baseOf(ptr)))
	var ot *Term = tNil
	if o != nil {
		ot = objT(o.id)
	}
	var less *Term = tNil
	if len(args) > 1 {
		less = args[1]
	}
	dt := tNil
	if t != nil {
		dt = typeC(t)
	}
	e.event("sort", st, fr, in, name, ot, s, dt, less)
	if o == nil {
		e.event("store-opaque", st, fr, in, "sort", s, tNil)
		return []Outcome{{st, nil}}
	}
	if o.kind == KLog {
		_, off := ptrParts(ptr)
		if isInt(off, 0) {
			if l, r, ok := st.cut(o.log, n); ok && !isInt(n, 0) {
				o = st.mut(o)
				if len(l) == 1 && l[0].s == "elt" {
					return []Outcome{{st, nil}}
				}
				o.log = append([]*Term{piece("perm", 0, e.pos(in), append([]*Term{n}, l...)...)}, r...)
			}
		}
	}
	return []Outcome{{st, nil}}
}
