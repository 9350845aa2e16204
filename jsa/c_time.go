package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"
)

// Dates and times. The bytes a time appender writes are expressions over the
// time's Unix seconds, offset and nanoseconds (or over its calendar fields).
// They are extracted by the abstract run and tabulated over the finite domains
// they depend on.

type tenv struct {
	unix, off, nsec     int64
	y, m, d, hh, mm, ss int64
}

type tfn func(*tenv) (int64, bool)

type tcomp struct {
	tv   *Term
	memo map[*Term]tfn
	dep  map[*Term]bool // depends on the time
}

// depends tells whether a term depends on the time.
func (c *tcomp) depends(t *Term) bool {
	if v, ok := c.dep[t]; ok {
		return v
	}
	c.dep[t] = false
	r := t.op == OApp && strings.HasPrefix(t.s, "t.")
	for _, a := range t.a {
		r = r || c.depends(a)
	}
	c.dep[t] = r
	return r
}

// compile makes a function of an expression; nil if it is not understood.
func (c *tcomp) compile(t *Term) tfn {
	if f, ok := c.memo[t]; ok {
		return f
	}
	f := c.compile1(t)
	c.memo[t] = f
	return f
}

func (c *tcomp) compile1(t *Term) tfn {
	switch t.op {
	case OInt:
		n := t.n
		return func(*tenv) (int64, bool) { return n, true }
	case OBool:
		n := t.n
		return func(*tenv) (int64, bool) { return n, true }
	case OLin:
		k := t.n
		co := append([]int64{}, t.co...)
		fs := make([]tfn, len(t.a))
		for i, a := range t.a {
			if fs[i] = c.compile(a); fs[i] == nil {
				return nil
			}
		}
		return func(e *tenv) (int64, bool) {
			r := k
			for i, f := range fs {
				v, ok := f(e)
				if !ok {
					return 0, false
				}
				r += co[i] * v
			}
			return r, true
		}
	case OApp:
		if strings.HasPrefix(t.s, "t.") {
			var f func(*tenv) int64
			switch t.s {
			case "t.Unix":
				f = func(e *tenv) int64 { return e.unix }
			case "t.Offset":
				f = func(e *tenv) int64 { return e.off }
			case "t.Nanosecond":
				f = func(e *tenv) int64 { return e.nsec }
			case "t.Year":
				f = func(e *tenv) int64 { return e.y }
			case "t.Month":
				f = func(e *tenv) int64 { return e.m }
			case "t.Day":
				f = func(e *tenv) int64 { return e.d }
			case "t.Hour":
				f = func(e *tenv) int64 { return e.hh }
			case "t.Minute":
				f = func(e *tenv) int64 { return e.mm }
			case "t.Second":
				f = func(e *tenv) int64 { return e.ss }
			default:
				return nil
			}
			if len(t.a) != 1 || t.a[0] != c.tv {
				return nil
			}
			return func(e *tenv) (int64, bool) { return f(e), true }
		}
		if t.s == "tblidx" && len(t.a) == 2 {
			g := c.compile(t.a[1])
			if g == nil {
				return nil
			}
			return func(e *tenv) (int64, bool) {
				i, ok := g(e)
				if !ok {
					return 0, false
				}
				v, ok := tableAt(t.a[0], i)
				if !ok || v.op != OInt && v.op != OBool {
					return 0, false
				}
				return v.n, true
			}
		}
		if len(t.a) == 0 || len(t.a) > 2 {
			return nil
		}
		fs := make([]tfn, len(t.a))
		for i, a := range t.a {
			if fs[i] = c.compile(a); fs[i] == nil {
				return nil
			}
		}
		ty := appType(t)
		op := t.s
		switch op {
		case "and", "or", "xor", "shr", "shl", "quo", "rem", "mul", "wrap", "compl":
		default:
			return nil
		}
		return func(e *tenv) (int64, bool) {
			a, ok := fs[0](e)
			if !ok {
				return 0, false
			}
			b := int64(0)
			if len(fs) == 2 {
				if b, ok = fs[1](e); !ok {
					return 0, false
				}
			}
			switch op {
			case "and":
				return a & b, true
			case "or":
				return a | b, true
			case "xor":
				return a ^ b, true
			case "shr":
				if b < 0 || b > 63 {
					return 0, false
				}
				return a >> uint(b), true
			case "shl":
				if b < 0 || b > 40 || a > 1<<20 {
					return 0, false
				}
				return wrapTo(a<<uint(b), ty), true
			case "quo":
				if b == 0 {
					return 0, false
				}
				return a / b, true
			case "rem":
				if b == 0 {
					return 0, false
				}
				return a % b, true
			case "mul":
				return wrapTo(a*b, ty), true
			case "wrap":
				return wrapTo(a, ty), true
			}
			return wrapTo(^a, ty), true
		}
	case OIn:
		f := c.compile(t.a[0])
		s, ok := t.x.(Set)
		if f == nil || !ok {
			return nil
		}
		return func(e *tenv) (int64, bool) {
			v, ok := f(e)
			return int64(b2i(s.has(v))), ok
		}
	}
	return nil
}

// tpath is a path of the appender.
type tpath struct {
	o     Outcome
	conds []func(*tenv) int // 1 holds, 0 does not, -1 unknown
	bytes []tfn
	lits  []byte
	desc  string
}

func (c *tcomp) path(e *Engine, o Outcome) (*tpath, string) {
	p := &tpath{o: o}
	for t, s := range o.st.rngs {
		if !c.depends(t) {
			continue
		}
		s := s
		f := c.compile(t)
		if f == nil {
			return nil, "a condition on " + t.str(6)
		}
		p.conds = append(p.conds, func(e *tenv) int {
			v, ok := f(e)
			if !ok {
				return -1
			}
			return b2i(s.has(v))
		})
	}
	for t, iv := range o.st.lins {
		if !c.depends(t) {
			continue
		}
		iv := iv
		f := c.compile(t)
		if f == nil {
			return nil, "a condition on " + t.str(6)
		}
		p.conds = append(p.conds, func(e *tenv) int {
			v, ok := f(e)
			if !ok {
				return -1
			}
			return b2i(v >= iv.lo && v <= iv.hi)
		})
	}
	for t, want := range o.st.atoms {
		if !c.depends(t) {
			continue
		}
		want := want
		f := c.compile(t)
		if f == nil {
			return nil, "a condition on " + t.str(6)
		}
		p.conds = append(p.conds, func(e *tenv) int {
			v, ok := f(e)
			if !ok {
				return -1
			}
			return b2i((v != 0) == want)
		})
	}
	ps, ok := tail(e, o)
	if !ok {
		return nil, "the output of a path"
	}
	for _, q := range ps {
		switch q.s {
		case "lit":
			for _, b := range []byte(q.x.(string)) {
				p.lits = append(p.lits, b)
				p.bytes = append(p.bytes, nil)
			}
		case "byte":
			f := c.compile(q.a[0])
			if f == nil {
				return nil, "a byte " + q.a[0].str(6)
			}
			p.lits = append(p.lits, 0)
			p.bytes = append(p.bytes, f)
		default:
			return nil, "what is written by " + logString([]*Term{q})
		}
	}
	p.desc = logString(ps)
	return p, ""
}

func (p *tpath) holds(e *tenv) int {
	r := 1
	for _, f := range p.conds {
		switch f(e) {
		case 0:
			return 0
		case -1:
			r = -1
		}
	}
	return r
}

func envOf(t time.Time) *tenv {
	_, off := t.Zone()
	return &tenv{t.Unix(), int64(off), int64(t.Nanosecond()), int64(t.Year()), int64(t.Month()), int64(t.Day()), int64(t.Hour()), int64(t.Minute()), int64(t.Second())}
}

// timeForm checks a time appender as it is called.
func (c *Check) timeForm(u *AppUse) {
	L := c.L
	x, _, _ := L.runApp(u)
	if x == nil {
		c.undecided("how %s is called", shortName(u.f))
		return
	}
	if !c.use(x) {
		return
	}
	nano := u.note == "true"
	var tv *Term
	for i, p := range x.fn.Params {
		if types.TypeString(p.Type(), nil) == "time.Time" {
			tv = x.args[i]
		}
	}
	if tv == nil {
		c.undecided("the time given to %s", x.name)
		return
	}
	quoted := false
	cc := &tcomp{tv, map[*Term]tfn{}, map[*Term]bool{}}
	var paths []*tpath
	for _, o := range x.outs {
		if errKind(o) < 0 {
			continue
		}
		p, why := cc.path(L.e, o)
		if p == nil {
			c.undecided("%s: %s", x.name, why)
			return
		}
		if len(p.lits) > 0 && p.lits[0] == '"' {
			quoted = true
		}
		paths = append(paths, p)
	}
	layout := time.RFC3339
	if nano {
		layout = time.RFC3339Nano
	}
	n, last := 0, 0
	bad := 0
	buf := make([]byte, 0, 64)
	want := make([]byte, 0, 64)
	try := func(t time.Time) {
		if bad > 3 {
			return
		}
		env := envOf(t)
		if env.y < 0 || env.y > 9999 {
			return
		}
		want = want[:0]
		if quoted {
			want = append(want, '"')
		}
		want = t.AppendFormat(want, layout)
		if quoted {
			want = append(want, '"')
		}
		found := false
		for k := range paths {
			p := paths[(k+last)%len(paths)]
			switch p.holds(env) {
			case 0:
				continue
			case -1:
				c.undecided("%s: whether a path is taken for %s", x.name, t.Format(time.RFC3339Nano))
				bad = 99
				return
			}
			found = true
			last = (k + last) % len(paths)
			buf = buf[:0]
			for i, f := range p.bytes {
				if f == nil {
					buf = append(buf, p.lits[i])
					continue
				}
				v, ok := f(env)
				if !ok {
					c.undecided("%s: a byte written for %s", x.name, t.Format(time.RFC3339Nano))
					bad = 99
					return
				}
				buf = append(buf, byte(v))
			}
			n++
			if string(buf) != string(want) {
				bad++
				c.violate(L.where(x.fn), x.name, fmt.Sprintf("the time that must be written as %s is written as %q", want, buf), p.desc)
			}
			return
		}
		if !found {
			bad++
			c.violate(L.where(x.fn), x.name, fmt.Sprintf("no path writes the time %s", want), "")
		}
	}
	zone := func(off int) *time.Location { return time.FixedZone("", off) }
	base := time.Date(2024, 2, 29, 13, 37, 42, 0, time.UTC)
	// all offsets
	for m := -1439; m <= 1439; m++ {
		try(base.In(zone(m * 60)))
		for _, s := range []int{1, 30, 59} {
			if m%97 == 0 || m >= -2 && m <= 2 {
				try(base.In(zone(m*60 + s)))
				try(base.In(zone(m*60 - s)))
			}
		}
	}
	// all patterns of zero and non-zero fraction digits
	pow := []int64{1, 10, 100, 1000, 1e4, 1e5, 1e6, 1e7, 1e8}
	for m := 0; m < 512; m++ {
		for d := int64(1); d <= 9; d++ {
			ns := int64(0)
			for i := range pow {
				if m>>i&1 == 1 {
					ns += pow[i] * ((d+int64(i)-1)%9 + 1)
				}
			}
			try(base.Add(time.Duration(ns)))
			if d == 1 {
				try(base.Add(time.Duration(ns)).In(zone(-3*3600 - 1800)))
				try(base.Add(time.Duration(ns)).In(zone(9*3600 + 2700)))
			}
		}
	}
	// all seconds of a day
	for s := 0; s < 86400; s++ {
		try(time.Unix(base.Unix()+int64(s), 0).UTC())
	}
	// all days of a cycle of the calendar, and the ends of all months
	day := time.Date(0, 1, 1, 12, 0, 0, 0, time.UTC).Unix()
	for k := 0; k < 146097+2; k++ {
		try(time.Unix(day+int64(k)*86400, 0).UTC())
	}
	for y := 0; y <= 9999; y++ {
		for m := 1; m <= 12; m++ {
			a := time.Date(y, time.Month(m), 1, 0, 0, 0, 0, time.UTC)
			try(a)
			try(time.Unix(a.Unix()-1, 0).UTC())
			if y == 0 || y == 9999 {
				try(a.In(zone(5 * 3600)))
				try(a.In(zone(-5 * 3600)))
			}
		}
	}
	c.count("times tabulated", n)
	c.count("appenders", 1)
	c.sample("%s (fraction %v): %d paths tabulated for all offsets, fractions, seconds of a day and days", x.name, nano, len(paths))
	// the fraction
	for _, p := range paths {
		if nano {
			break
		}
		if strings.Contains(p.desc, ".") && p.o.st != nil {
			// only if the path can be taken
			for _, ns := range []int64{1, 999999999, 1e6, 5e8} {
				if p.holds(envOf(base.Add(time.Duration(ns)))) == 1 {
					c.violate(L.where(x.fn), x.name, "a fraction is written with a layout that has none", pathOf(p.o.st))
				}
			}
		}
	}
}

func init() {
	oracleProps["C18"] = oracleProp{"Here: on each path of a time encoder the layout of the call must have been compared with the RFC 3339 layouts; the RFC 3339 appender must be used exactly for these, with the fraction exactly for the nanosecond layout, only for times whose year and offset were found in range, other times rejected; other layouts must be formatted with that layout and escaped; UnixTime must write the integer. The appender is run abstractly as its callers call it: each path yields the bytes it writes as expressions over the Unix seconds, offset and nanoseconds. These expressions are tabulated over the domains they depend on (all minutes of offset, all patterns of zero digits of the fraction, all seconds of a day, all days of a 400 year cycle, the ends of all months from 0 to 9999) and compared with the RFC 3339 form.",
		[]string{"time.Time / layout", "time.Time / UnixTime"}}
	checks["C18"] = func(c *Check) { c.fromOracle("C18") }
	oracleMore["C18"] = func(c *Check) {
		o := c.L.oracle()
		n := 0
		for _, k := range sortedKeys(o.apps) {
			u := o.apps[k]
			if c.L.appClass(u.f) == "time" {
				n++
				c.timeForm(u)
			}
		}
		if n == 0 {
			c.undecided("no time appender is used")
		}
	}
}
