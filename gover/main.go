package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strings"
	"time"
)

func printResult(r *UnitResult) {
	fmt.Printf("%-50s %-11s obl %d/%d kept %d rounds %d q %d solver %.1fs wall %.1fs %s\n", r.Unit, r.Status, r.Discharged, r.Obligations, r.Kept, r.Rounds, r.Queries, r.SolverS, r.WallS, r.Msg)
	if len(r.LostInv) > 0 {
		fmt.Println("   lost invariants:", r.LostInv)
	}
	for i, f := range r.Failed {
		if i < 12 {
			a := ""
			if f.Args != nil {
				b, _ := json.Marshal(f.Args)
				a = string(b)
				if len(a) > 300 {
					a = a[:300]
				}
			}
			fmt.Printf("   FAIL %s [%s] %s %s %s %s\n", f.Name, f.Status, f.Kind, f.Pos, a, f.Note)
		}
	}
}

func main() { os.Exit(run()) }

func run() int {
	repo := flag.String("repo", "/repo", "tree under verification")
	verif := flag.String("verif", "/verif", "")
	proofs := flag.String("proofs", "", "contracts and lemmas")
	tier := flag.String("tier", "quick", "")
	light := flag.Bool("light", false, "only the postconditions callers rely on by default")
	noHints := flag.Bool("nohints", false, "")
	budget := flag.Int("budget", 2000, "")
	flag.StringVar(&hintDir, "hints", "", "")
	flag.BoolVar(&debug, "debug", false, "")
	prop := flag.String("prop", "", "")
	flag.Parse()
	if f := os.Getenv("GOVER_PROF"); f != "" {
		w, _ := os.Create(f)
		_ = pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if *proofs == "" {
		*proofs = filepath.Join(*verif, "proofs")
	}
	if hintDir == "" {
		hintDir = filepath.Join(*verif, "hints")
	}
	lightMode = *light
	useHints = !*noHints && *tier != "thorough"
	var err error
	tmpDir, err = os.MkdirTemp("", "gover")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmpDir)
	e, err := loadEngine(*repo, *proofs)
	if err != nil {
		fmt.Println("LOAD", err)
		if flag.Arg(0) == "check" {
			fmt.Println("the tree does not compile")
		}
		return 2
	}
	for _, m := range e.loadErrs {
		fmt.Println("LOST", m)
	}
	match := func(n string) bool {
		for _, a := range flag.Args()[1:] {
			if n == a || strings.Contains(n, a) {
				return true
			}
		}
		return false
	}
	switch flag.Arg(0) {
	case "unit":
		for _, n := range e.unitOrder {
			if match(n) {
				r := verifyUnit(e, e.units[n], *tier)
				printResult(r)
				if debug {
					b, _ := json.MarshalIndent(r, "", " ")
					fmt.Println(string(b))
				}
			}
		}
	case "one":
		u := e.units[flag.Arg(1)]
		if u == nil {
			u = &Unit{name: flag.Arg(1), missing: "no such unit"}
		}
		r := verifyUnit(e, u, *tier)
		b, _ := json.Marshal(r)
		fmt.Printf("\nRESULT %s\n", b)
	case "par": // several units in parallel, saving hints
		var ts []task
		for _, n := range e.unitOrder {
			if match(n) {
				ts = append(ts, task{n, !*light})
			}
		}
		rs := runTasks(e, ts, *repo, *proofs, *tier, time.Now().Add(3*time.Hour), false)
		for _, t := range ts {
			if r := rs[t.key()]; r != nil {
				printResult(r)
			}
		}
	case "hints":
		var ts []task
		seen := map[string]bool{}
		for _, n := range e.unitOrder {
			u := e.units[n]
			in := false
			for _, p := range u.props {
				for _, a := range flag.Args()[1:] {
					if a == p || a == "all" || strings.Contains(n, a) {
						in = true
					}
				}
			}
			if in && !seen[n] {
				seen[n] = true
				ts = append(ts, task{n, true})
			}
		}
		os.MkdirAll(hintDir, 0o755)
		os.Setenv("GOVER_SAVEHINTS", "1")
		runTasks(e, ts, *repo, *proofs, *tier, time.Now().Add(3*time.Hour), true)
	case "check":
		if *prop == "" {
			*prop = flag.Arg(1)
		}
		return checkProperty(e, *prop, *tier, *repo, *proofs, *verif)
	case "replay":
		return replayCmd(e, flag.Arg(1), *repo, *verif)
	case "search":
		return searchAll(e, flag.Arg(1), *repo, *verif, *budget)
	case "list":
		for _, n := range e.unitOrder {
			u := e.units[n]
			fmt.Println(n, u.kind, u.props, u.missing)
		}
	}
	return 0
}
