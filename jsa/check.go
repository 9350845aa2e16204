package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Check is the run of the rules of one property.
type Check struct {
	id       string
	L        *Lab
	viol     []*Finding
	vseen    map[string]bool
	und      []string
	useen    map[string]bool
	skipped  []string
	n        map[string]int
	samples  []string
	rule     string
	analysed map[string]bool
	t0       time.Time
}

// Finding is a construct that breaks a rule.
type Finding struct {
	Key   string // file:line function: what
	Where string
	Fn    string
	Msg   string
	Path  string
}

func newCheck(id string) *Check {
	return &Check{id: id, vseen: map[string]bool{}, useen: map[string]bool{}, n: map[string]int{}, analysed: map[string]bool{}, t0: time.Now()}
}

func (c *Check) violate(where, fn, msg, path string) {
	k := where + " " + fn + ": " + msg
	if c.vseen[k] {
		return
	}
	c.vseen[k] = true
	c.viol = append(c.viol, &Finding{k, where, fn, msg, path})
}

func (c *Check) undecided(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if !c.useen[s] {
		c.useen[s] = true
		c.und = append(c.und, s)
	}
}

// skip records a construct the rule does not reach.
func (c *Check) skip(format string, a ...any) {
	c.skipped = append(c.skipped, fmt.Sprintf(format, a...))
}

func (c *Check) count(k string, n int) { c.n[k] += n }

func (c *Check) sample(format string, a ...any) {
	if len(c.samples) < 12 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 500 {
			s = s[:500] + "..."
		}
		c.samples = append(c.samples, s)
	}
}

func (c *Check) saw(fn string) { c.analysed[fn] = true }

// finish writes the evidence and returns the exit code.
func (c *Check) finish(verif string, known map[string][]string) int {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	var fns []string
	for f := range c.analysed {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	code := 0
	var vs []string
	for _, f := range c.viol {
		suppressed := false
		for _, k := range known[c.id] {
			if f.Fn+": "+f.Msg == k {
				suppressed = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k)
			}
		}
		if suppressed {
			continue
		}
		code = 1
		vs = append(vs, f.Key)
	}
	replay := filepath.Join(verif, "evidence", c.id+".violation.txt")
	os.MkdirAll(filepath.Dir(replay), 0o755)
	os.Remove(replay)
	if code == 1 {
		var b strings.Builder
		for _, f := range c.viol {
			fmt.Fprintf(&b, "%s: in %s\n  %s\n", f.Where, f.Fn, f.Msg)
			if f.Path != "" {
				fmt.Fprintf(&b, "  on the path: %s\n", f.Path)
			}
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		for i, f := range c.viol {
			if i < 20 {
				fmt.Printf("%s: %s: %s\n", f.Where, f.Fn, f.Msg)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	}
	for i, u := range c.und {
		if i < 20 {
			fmt.Println("UNDECIDED", u)
		}
	}
	cov := map[string]any{
		"explanation": c.rule,
		"counts":      c.n,
		"functions":   fns,
		"samples":     c.samples,
		"violations":  vs,
		"undecided":   c.und,
		"not_reached": c.skipped,
	}
	ev := map[string]any{"property": c.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": time.Since(c.t0).Seconds()}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", c.id+".json"), append(b, '\n'), 0o644)
	var ks []string
	for k := range c.n {
		ks = append(ks, fmt.Sprintf("%s=%d", k, c.n[k]))
	}
	sort.Strings(ks)
	fmt.Printf("%s: %d functions, %s, %d violations, %d undecided, %.1fs\n", c.id, len(fns), strings.Join(ks, " "), len(vs), len(c.und), time.Since(c.t0).Seconds())
	return code
}

// readKnown reads the known findings: lines "property=<id> <fn>: <what>".
func readKnown(file string) map[string][]string {
	r := map[string][]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		if s, ok := strings.CutPrefix(l, "property="); ok {
			if id, k, ok := strings.Cut(s, " "); ok {
				r[id] = append(r[id], k)
			}
		}
	}
	return r
}

var checks = map[string]func(c *Check){}

func runCheck(id, verif string, r *Repo) int {
	c := newCheck(id)
	if r == nil {
		c.undecided("the source could not be loaded")
		c.rule = "not analysed: the source does not load"
		return c.finish(verif, nil)
	}
	f := checks[id]
	if f == nil {
		fmt.Println("no such check", id)
		return 2
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if os.Getenv("JSA_PANIC") != "" {
					panic(x)
				}
				c.undecided("the analysis stopped: %v", x)
			}
		}()
		c.L = newLab(r)
		f(c)
		for _, n := range c.L.notes {
			c.undecided("%s", n)
		}
	}()
	return c.finish(verif, readKnown(filepath.Join(verif, "known_findings.txt")))
}
