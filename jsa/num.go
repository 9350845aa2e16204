package main

import (
	"go/types"
	"math"
	"strconv"
	"time"
)

// num is the value of a term under a choice of the values of its parts.
type num struct {
	i int64
	f float64
	r bool // a float
}

// arithmetic: does a term compute a number in a way that can be written in
// several forms?
func arithmetic(t *Term) bool {
	if t.op == OApp {
		switch t.s {
		case "quo", "rem", "mul", "wrap", "and", "or", "xor", "andnot", "shl", "shr", "compl", "i2f", "f2i", "f+", "f-", "f*", "f/", "d.round", "t.UnixNano", "t.UnixMicro", "t.UnixMilli":
			return true
		}
		if len(t.a) > 0 && (t.s == "fconv" || t.s == "fabs" || t.s == "d.Seconds" || t.s == "d.Minutes" || t.s == "d.Hours") {
			return arithmetic(t.a[0]) || t.s[0] == 'd'
		}
	}
	if t.op == OLin {
		for _, a := range t.a {
			if arithmetic(a) {
				return true
			}
		}
	}
	return false
}

// evalNum computes a term; parts that are no arithmetic are looked up, and
// collected if they are not known.
func evalNum(t *Term, m map[*Term]num, leaves map[*Term]bool) (num, bool) {
	if v, ok := m[t]; ok {
		return v, true
	}
	switch t.op {
	case OInt:
		return num{i: t.n}, true
	case OFloat:
		f, err := strconv.ParseFloat(t.s, 64)
		return num{f: f, r: true}, err == nil
	case OLin:
		r, ok := t.n, true
		for i, a := range t.a {
			v, k := evalNum(a, m, leaves)
			ok = ok && k && !v.r
			r += t.co[i] * v.i
		}
		return num{i: r}, ok
	case OApp:
	default:
		if leaves != nil {
			leaves[t] = true
		}
		return num{}, false
	}
	if !arithmetic(t) {
		if leaves != nil {
			leaves[t] = true
		}
		return num{}, false
	}
	if k := map[string]int64{"t.UnixNano": 1, "t.UnixMicro": 1e3, "t.UnixMilli": 1e6}[t.s]; k > 0 {
		s, ok1 := evalNum(mkApp("t.Unix", types.Typ[types.Int64], t.a[0]), m, leaves)
		n, ok2 := evalNum(mkApp("t.Nanosecond", tInt, t.a[0]), m, leaves)
		return num{i: s.i*(1e9/k) + n.i/k}, ok1 && ok2
	}
	var v []num
	ok := true
	for _, a := range t.a {
		x, k := evalNum(a, m, leaves)
		ok = ok && k
		v = append(v, x)
	}
	if !ok {
		return num{}, false
	}
	in := func(x int64) (num, bool) { return num{i: wrapTo(x, appType(t))}, true }
	if len(v) == 1 {
		x := v[0]
		switch t.s {
		case "wrap":
			if !x.r {
				return in(x.i)
			}
		case "compl":
			if !x.r {
				return in(^x.i)
			}
		case "i2f":
			if !x.r {
				f := float64(x.i)
				if isF32(appType(t)) {
					f = float64(float32(x.i))
				}
				return num{f: f, r: true}, true
			}
		case "f2i":
			if x.r && math.Abs(x.f) < 1<<62 {
				return in(int64(x.f))
			}
		case "fconv":
			if x.r {
				if isF32(appType(t)) {
					x.f = float64(float32(x.f))
				}
				return x, true
			}
		case "fabs":
			if x.r {
				return num{f: math.Abs(x.f), r: true}, true
			}
		case "d.Seconds":
			return num{f: time.Duration(x.i).Seconds(), r: true}, !x.r
		case "d.Minutes":
			return num{f: time.Duration(x.i).Minutes(), r: true}, !x.r
		case "d.Hours":
			return num{f: time.Duration(x.i).Hours(), r: true}, !x.r
		}
		return num{}, false
	}
	if len(v) != 2 || v[0].r != v[1].r {
		return num{}, false
	}
	x, y := v[0], v[1]
	if x.r {
		var f float64
		switch t.s {
		case "f+":
			f = x.f + y.f
		case "f-":
			f = x.f - y.f
		case "f*":
			f = x.f * y.f
		case "f/":
			f = x.f / y.f
		default:
			return num{}, false
		}
		if isF32(appType(t)) {
			f = float64(float32(f))
		}
		return num{f: f, r: true}, true
	}
	switch t.s {
	case "mul":
		return in(x.i * y.i)
	case "and":
		return in(x.i & y.i)
	case "or":
		return in(x.i | y.i)
	case "xor":
		return in(x.i ^ y.i)
	case "andnot":
		return in(x.i &^ y.i)
	case "shl":
		if y.i >= 0 && y.i < 64 {
			return in(x.i << uint(y.i))
		}
	case "shr":
		if y.i >= 0 && y.i < 64 && (x.i >= 0 || !isUnsignedOr(appType(t))) {
			return in(x.i >> uint(y.i))
		}
	case "quo":
		if y.i != 0 && (x.i >= 0 && y.i > 0 || !isUnsignedOr(appType(t))) {
			return in(x.i / y.i)
		}
	case "rem":
		if y.i != 0 && (x.i >= 0 && y.i > 0 || !isUnsignedOr(appType(t))) {
			return in(x.i % y.i)
		}
	case "d.round":
		return in(int64(time.Duration(x.i).Round(time.Duration(y.i))))
	}
	return num{}, false
}

func isF32(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

func isUnsignedOr(t types.Type) bool { return t == nil || isUnsigned(t) }

// apart looks for a value of the parts of two numbers, possible on the path,
// for which they differ. It reports false if none is found, or if they are
// not computed from one integer.
func (c *Ctx) apart(a, b *Term) bool {
	leaves := map[*Term]bool{}
	evalNum(a, nil, leaves)
	evalNum(b, nil, leaves)
	var x, ns *Term
	for l := range leaves {
		switch {
		case l.op == OApp && l.s == "t.Nanosecond" && ns == nil:
			ns = l
		case x == nil:
			x = l
		default:
			return false
		}
	}
	if x == nil {
		x, ns = ns, nil
	}
	if x == nil {
		p, ok1 := evalNum(a, nil, nil)
		q, ok2 := evalNum(b, nil, nil)
		return ok1 && ok2 && p != q
	}
	if x.op == OApp && !plain(x) || x.op != OApp || ns != nil && !plain(ns) {
		return false
	}
	if !isIntT(appType(x)) && x.s != "ld8s" && x.s != "ld4s" && x.s != "ld2s" && x.s != "ld1s" {
		return false
	}
	seed := uint64(12345)
	try := func(v int64) bool {
		if x.s == "t.Unix" && (v < -62167219200 || v > 253402300799) {
			return false // outside of the years 0 to 9999
		}
		st := c.st.clone()
		if !st.assumeIn(x, single(v)) {
			return false
		}
		for _, f := range []int64{0, 500000000, 999999999} {
			st := st
			m := map[*Term]num{x: {i: v}}
			if ns != nil {
				if st = st.clone(); !st.assumeIn(ns, single(f)) {
					continue
				}
				m[ns] = num{i: f}
			}
			p, ok1 := evalNum(a, m, nil)
			q, ok2 := evalNum(b, m, nil)
			if ok1 && ok2 && p != q {
				return true
			}
			if ns == nil {
				break
			}
		}
		return false
	}
	for _, v := range []int64{0, 1, -1, 2, 7, 9, 10, 99, 128, 255, 256, -128, -129, 32767, 65536, 1<<31 - 1, 1 << 31, -1 << 31, 1<<32 + 5, 500, 999, 1000, 1500, 1999, -1500, 999999, 1500000, 1999999, -1999999, 999999999, 1500000000, -1500000001, 59999999999, 90000000000, 3599999999999, 5400000000001, 1 << 40, 1<<53 + 1, -(1<<53 + 1), 1 << 62, math.MaxInt64} {
		if try(v) {
			return true
		}
	}
	// around the multiples of the divisors
	divs := map[int64]bool{}
	for _, t := range []*Term{a, b} {
		walkTerms([]*Term{t}, func(q *Term) {
			if q.op == OApp && q.s == "quo" && q.a[1].op == OInt && q.a[1].n > 1 && q.a[1].n <= 1e9 {
				divs[q.a[1].n] = true
			}
		})
	}
	for d := range divs {
		for k := int64(1); k <= 300; k++ {
			if try(k*d) || try(-k*d) || try(k*d-1) || try(k*7001*d) {
				return true
			}
		}
	}
	for i := 0; i < 400; i++ {
		seed = seed*6364136223846793005 + 1442695040888963407
		if try(int64(seed) >> (uint(i) % 56)) {
			return true
		}
	}
	return false
}

// bounded: a float computed from integers that is neither NaN nor infinite.
func bounded(f *Term) bool {
	n := 0
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if n++; n > 12 {
			return false
		}
		if t.op == OFloat {
			v, err := strconv.ParseFloat(t.s, 64)
			return err == nil && math.Abs(v) < 1e20
		}
		if t.op != OApp {
			return false
		}
		switch t.s {
		case "i2f", "d.Seconds", "d.Minutes", "d.Hours":
			return true
		case "fabs":
			return len(t.a) == 1 && walk(t.a[0])
		case "f+", "f-", "f*":
			return walk(t.a[0]) && walk(t.a[1])
		case "f/":
			if t.a[1].op != OFloat {
				return false
			}
			v, err := strconv.ParseFloat(t.a[1].s, 64)
			return err == nil && math.Abs(v) >= 1 && walk(t.a[0])
		}
		return false
	}
	return !isF32(appType(f)) && walk(f)
}

// floatSum builds a+b; the way the time package makes the seconds of a
// duration, and so on, has a name.
func floatSum(t types.Type, a, b *Term) *Term {
	for _, u := range []struct {
		n string
		d int64
	}{{"Seconds", 1e9}, {"Minutes", 60e9}, {"Hours", 3600e9}} {
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			w, r := p[0], p[1]
			if w.op != OApp || w.s != "i2f" || r.op != OApp || r.s != "f/" || r.a[1].op != OFloat || r.a[0].op != OApp || r.a[0].s != "i2f" {
				continue
			}
			q, m := w.a[0], r.a[0].a[0]
			v, err := strconv.ParseFloat(r.a[1].s, 64)
			if err != nil || v != float64(u.d) || q.op != OApp || q.s != "quo" || m.op != OApp || m.s != "rem" || q.a[0] != m.a[0] || !isInt(q.a[1], u.d) || !isInt(m.a[1], u.d) {
				continue
			}
			return mkApp("d."+u.n, t, q.a[0])
		}
	}
	return mkApp("f+", t, a, b)
}

// within compares the values that an integer can have on a path with a set:
// 1 all are in it, 0 none is, -1 some are, -2 it is not known. Facts about
// numbers computed from the integer are tabulated up to a limit.
func (st *State) within(x *Term, s Set, limit int64) int {
	r := st.rng(x)
	if r.subset(s) {
		return 1
	}
	if len(r.and(s)) == 0 {
		return 0
	}
	type test struct {
		t *Term
		s Set
	}
	var ts []test
	for _, t := range sortedRngs(st) {
		if t != x && containsTerm(t, x) {
			ts = append(ts, test{t, st.rngs[t]})
		}
	}
	for _, t := range sortedAtoms(st) {
		if !containsTerm(t, x) {
			continue
		}
		if t.op != OIn {
			return -2
		}
		w := t.x.(Set)
		if !st.atoms[t] {
			w = w.not()
		}
		ts = append(ts, test{t.a[0], w})
	}
	for t, iv := range st.lins {
		free := false // a sum with an unknown number says nothing about one part
		for _, a := range t.a {
			free = free || a.op == OApp && a.s == "t.Unix" && a != x
		}
		if containsTerm(t, x) && !free {
			ts = append(ts, test{t, Set{iv}})
		}
	}
	if len(ts) == 0 {
		return -1
	}
	in, out := false, false
	m := map[*Term]num{}
	for v := -limit; v <= limit; v++ {
		if !r.has(v) {
			continue
		}
		m[x] = num{i: v}
		good := true
		for _, q := range ts {
			n, ok := evalNum(q.t, m, nil)
			if !ok || n.r {
				return -2
			}
			if n.i < 0 && q.t.op == OApp && isUnsignedOr(appType(q.t)) && appType(q.t) != nil {
				n.i = INF
			}
			if !q.s.has(n.i) {
				good = false
				break
			}
		}
		if good {
			in, out = in || s.has(v), out || !s.has(v)
		}
	}
	switch {
	case in && out:
		return -1
	case in:
		return 1
	case out:
		return 0
	}
	return -2
}
