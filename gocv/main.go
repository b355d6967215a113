package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"strings"
	"time"
)

var onlyFn *regexp.Regexp

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	repo := flag.String("repo", "/repo", "repository")
	cdir := flag.String("contracts", "/verif/contracts", "contracts")
	run := flag.String("run", "", "regexp of functions/lemmas to verify")
	verbose := flag.Bool("v", false, "verbose")
	dump := flag.String("dump", "", "write failing queries into this directory")
	ms := flag.Int("ms", 10000, "full solver budget")
	only := flag.String("only", "", "restrict functions of functypes")
	flag.Parse()
	t0 := time.Now()
	var err error
	workDir, err = os.MkdirTemp("", "gocv")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer os.RemoveAll(workDir)
	sp, err := LoadSpecs(*cdir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	p, err := loadProg(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("loaded", time.Since(t0))
	re := regexp.MustCompile(*run)
	onlyFn = regexp.MustCompile(*only)
	var rs []*FuncResult
	rs = generate(p, sp, func(k string, props []string) bool { return re.MatchString(k) })
	bud := Budget{1500, *ms, 2}
	solveAll(rs, bud)
	for _, r := range rs {
		ok, bad, cov := 0, 0, 0
		for _, o := range r.Obls {
			if o.Kind == "cover" {
				cov++
				continue
			}
			if o.Status == "unsat" {
				ok++
			} else {
				bad++
			}
		}
		fmt.Printf("%-60s ok=%d bad=%d trivial=%d paths=%d covers=%d gen=%dms", r.Key, ok, bad, r.Trivial, r.Paths, cov, r.GenMs)
		if r.Vacuous {
			fmt.Print(" VACUOUS")
		}
		if r.Err != "" {
			fmt.Print(" ERR ", r.Err)
		}
		fmt.Println()
		var slow int64
		for _, o := range r.Obls {
			if o.Ms > slow && o.Kind != "cover" {
				slow = o.Ms
			}
			if o.Kind != "cover" && o.Status != "unsat" {
				fmt.Printf("   FAIL [%s] %s %s at %s (%s by %s %dms)\n        goal %s\n        path %s\n", o.Kind, o.Fn, o.Name, o.Pos, o.Status, o.By, o.Ms, cut(o.Goal, 600), o.Trace)
				if o.Output != "" {
					fmt.Println("        ", cut(o.Output, 500))
				}
			} else if *verbose {
				fmt.Printf("   %-8s [%s] %s at %s (%s %dms)\n", o.Status, o.Kind, o.Name, o.Pos, o.By, o.Ms)
			}
		}
		if slow > 3000 {
			fmt.Printf("   slowest %dms\n", slow)
		}
		if *verbose {
			fmt.Println("   assumed:", strings.Join(r.Assumed, "; "))
			fmt.Println("   inlined:", strings.Join(r.Inlined, "; "), " contracts used:", strings.Join(r.Used, "; "))
		}
		if *dump != "" {
			os.MkdirAll(*dump, 0o755)
			n := 0
			for _, o := range r.exec.obls {
				for _, or := range r.Obls {
					if or.Name == o.Name && or.Kind == o.Kind && or.Status != "unsat" && or.Kind != "cover" {
						n++
						os.WriteFile(fmt.Sprintf("%s/%s-%d.smt2", *dump, sanitize(r.Key), n), []byte("; "+o.Name+"\n"+r.exec.query(o, bud.rounds, true)), 0o644)
						break
					}
				}
			}
		}
	}
	fmt.Println("done", time.Since(t0), "solver ms", solverTime, "runs", solverRuns)
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func checkMain(args []string) int {
	prop, tier := args[0], args[1]
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	var err error
	workDir, err = os.MkdirTemp("", "gocv")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(workDir)
	repo, verif := "/repo", "/verif"
	if r := os.Getenv("GOCV_REPO"); r != "" {
		repo = r
	}
	if r := os.Getenv("GOCV_VERIF"); r != "" {
		verif = r
	}
	if len(args) > 2 && args[2] == "harness" {
		h := runHarness(repo, verif, prop, tier, seed, nil)
		fmt.Println(h.output)
		if len(h.fails) > 0 || h.broken != "" {
			return 1
		}
		return 0
	}
	return check(repo, verif, prop, tier, seed)
}
