package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// members lists what is kept in the byte slice at an offset of the
// descriptions of fields, other than those that keep none.
func (L *Lab) members(off int64) []Member {
	if L.memberOf == nil {
		L.memberOf = map[int64][]Member{}
	}
	if r, ok := L.memberOf[off]; ok {
		return r
	}
	e := L.e
	var r []Member
	seen := map[string]bool{}
	for _, a := range L.fieldAdds() {
		for _, el := range a.elts {
			if ps, ok := e.leafContent(a.st, L.r.fieldT, el, off); ok && len(ps) > 0 {
				if len(ps) == 1 && ps[0].s == "raw" && isInt(ps[0].a[1], 0) {
					// a copy of an element of a list of descriptions
					if o, ok := L.memberLoad(ps[0].a[0]); ok && o == off {
						continue
					}
				}
				if k := e.canonLog(a.st, ps); !seen[k] {
					seen[k] = true
					r = append(r, Member{a.x, a.st, ps})
				}
			}
		}
	}
	L.memberOf[off] = r
	return r
}

// classOf tells how a content appender is decided.
func (L *Lab) classOf(f *ssa.Function) string {
	switch c := L.appClass(f); c {
	case "escape", "compact":
		return c
	}
	return ""
}

func init() { checks["C01"] = checkC01 }

// unpromised are the options with which the caller vouches for the text.
var unpromised = []string{"NoStringEscaping", "NoNumberValidation", "NoCompact"}

func checkC01(c *Check) {
	L := c.L
	c.rule = "The reference automaton of JSON texts (RFC 8259), with a stack for the open brackets, is run over what every encoder appends on every successful path: literal bytes are fed to it, formatted numbers, escaped and compacted texts move it as the rules C02, C03, C04, C18, C19 and C21 guarantee, a nested encoder writes one value (or, for encoders of keys, a string), and what loops append is run through the transitions of the loop until no new configuration appears. From the configuration that expects a value each encoder must end in the one after a value; encoders of map keys must write a string. Paths on which NoStringEscaping, NoNumberValidation or NoCompact is set are not judged."
	j := newJudge(L)
	j.waived = func(st *State) bool {
		for _, n := range unpromised {
			if L.flag(st, j.opts, n) == 1 {
				return true
			}
		}
		return false
	}
	kb := L.oracle().keyBuilders()
	for _, x := range L.runAll() {
		if !x.isEnc() {
			continue
		}
		if !c.use(x) {
			continue
		}
		j.opts = x.argT["opts"]
		key, value := false, len(x.uses) == 0
		for _, u := range x.uses {
			if kb[u.root.fn] {
				key = true
			} else {
				value = true
			}
		}
		c.count("encoders", 1)
		for _, o := range x.outs {
			if errKind(o) < 0 || j.waived(o.st) {
				continue
			}
			c.count("paths", 1)
			log, ok := tail(L.e, o)
			if !ok {
				c.undecided("%s: the result of a path", x.name)
				continue
			}
			path := "writes " + logString(log) + " when " + pathOf(o.st)
			judge := func(start cfg, ok func(cfg) bool, what string) {
				r := j.run(x, o.st, log, one(start))
				for _, b := range r.bad {
					if b.und {
						c.undecided("%s: %s", x.name, b.what)
					} else {
						c.violate(L.where(x.fn), x.name, b.what, path)
					}
				}
				for _, d := range r.out.list() {
					if !ok(d) {
						c.violate(L.where(x.fn), x.name, what+" ends where "+d.describe(), path)
					}
				}
				if len(r.out) > 0 && len(r.bad) == 0 {
					c.sample("%s writes %s: accepted", x.name, strings.TrimSpace(logString(log)))
				}
			}
			if key {
				judge(cfg{stack: "{", st: 'k'}, func(d cfg) bool { return d.stack == "{" && d.st == 'c' }, "the text of a key")
			}
			if value {
				judge(cfg{st: 'v'}, func(d cfg) bool { return d.stack == "" && d.ended() }, "the output")
			}
		}
	}
	c.count("steps of the automaton", j.steps)
	for t := range j.trust {
		c.saw(t)
	}
	// the exported functions write null or one value
	o := L.oracle()
	for _, v := range o.out {
		for _, p := range v.props {
			if p == "C01" {
				if v.und {
					c.undecided("%s %s: %s", v.where, v.fn, v.msg)
				} else {
					c.violate(v.where, v.fn, v.msg, v.path)
				}
			}
		}
	}
	if c.n["encoders"] < 40 {
		c.undecided("only %d encoders were found", c.n["encoders"])
	}
}
