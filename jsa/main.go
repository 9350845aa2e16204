package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "source tree to analyse")
	dump := flag.String("dump", "", "function to run, for debugging")
	evs := flag.Bool("events", false, "print events")
	cpu := flag.String("cpu", "", "write a profile")
	limit := flag.Int("steps", 3000000, "step limit")
	cat := flag.Bool("cat", false, "print the encoder catalogue")
	built := flag.Bool("built", false, "print what the core builder makes")
	outs := flag.String("outs", "", "print what the functions with this in their name do")
	trace := flag.Bool("trace", false, "show the loop fixpoints")
	orc := flag.Bool("oracle", false, "print what the rules say")
	flds := flag.Bool("fields", false, "print the descriptions of fields that are made")
	cmd := flag.Bool("cmd", false, "the function to run is that of a command")
	check := flag.String("check", "", "property to decide")
	verif := flag.String("verif", "/verif", "directory of the evidence")
	flag.Parse()
	debug.SetGCPercent(400)
	if *cpu != "" {
		f, _ := os.Create(*cpu)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	repoDir = *repo
	t0 := time.Now()
	r, err := loadRepo()
	if *check != "" {
		if err != nil {
			fmt.Println("UNDECIDED", err)
			r = nil
		}
		code := 0
		for _, id := range strings.Split(*check, ",") {
			code = max(code, runCheck(id, *verif, r))
		}
		pprof.StopCPUProfile()
		os.Exit(code)
	}
	if err != nil {
		fmt.Println("UNDECIDED", err)
		os.Exit(0)
	}
	if *built {
		debugCatalogue(newLab(r))
		return
	}
	if *outs != "" {
		debugOuts(newLab(r), strings.TrimSuffix(*outs, "*"))
		return
	}
	if *cmd && *dump == "" {
		debugBench(r)
		return
	}
	if *flds {
		debugFields(newLab(r))
		return
	}
	if *orc {
		debugOracle(newLab(r))
		return
	}
	if *cat {
		L := newLab(r)
		debugOptions(L)
		debugAll(L)
		fmt.Println(time.Since(t0))
		return
	}
	pkg := r.lib
	if *cmd && len(r.cmds) > 0 {
		pkg = r.cmds[0]
	}
	e := newEngine(r, pkg)
	e.debug = true
	e.trace = *trace
	e.maxSteps = *limit
	fmt.Println("loaded in", time.Since(t0), "problems", e.problems)
	if *dump != "" {
		debugDump(e, *dump, *evs)
	}
}
