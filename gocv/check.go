package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is an entry of known-findings.json.
type Finding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Status   string `json:"status"` // known or fixed
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

type harnessResult struct {
	ran      bool
	fails    []string
	known    map[string]bool
	evals    int
	distinct int
	samples  []string
	rules    []string
	bounded  []string
	output   string
	broken   string
	cmd      string
	wall     float64
}

// check decides one property and writes its evidence. It returns the exit code.
func check(repo, verif, prop, tier string, seed int) int {
	t0 := time.Now()
	deep := tier == "thorough"
	bud := Budget{2000, 20000, 3}
	if deep {
		bud = Budget{4000, 60000, 4}
	}
	sp, err := LoadSpecs(filepath.Join(verif, "contracts"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(filepath.Join(evDir, "replay"), 0o755)
	replay := filepath.Join(evDir, "replay", prop+".txt")
	os.Remove(replay)
	fs := loadFindings(filepath.Join(verif, "known-findings.json"))

	var rs []*FuncResult
	var loadErr string
	p, err := loadProg(repo)
	if err != nil {
		loadErr = err.Error()
	} else {
		done, want := map[string]bool{}, map[string]bool{}
		rs = closure(p, sp, prop, done, want)
		deadline := 420 * time.Second
		if deep {
			deadline = 600 * time.Second
		}
		solveDeadline = time.Now().Add(deadline)
		solveAll(rs, bud)
		// lemmas instantiated in the queries are obligations too
		for more := rs; len(more) > 0; {
			for _, r := range more {
				if r.exec == nil {
					continue
				}
				r.Assumed = nil
				for a := range r.exec.assumed {
					r.Assumed = append(r.Assumed, a)
					if strings.HasPrefix(a, "lemma ") {
						want[a] = true
					}
				}
				sort.Strings(r.Assumed)
			}
			more = closure(p, sp, "", done, want)
			solveAll(more, bud)
			rs = append(rs, more...)
		}
	}
	genWall := time.Since(t0).Seconds()

	// summarise
	var failed []string
	obl, dis, triv, covers, alive := 0, 0, 0, 0, 0
	backends := map[string]int{}
	kinds := map[string]int{}
	assumed := map[string]bool{}
	inlined := map[string]bool{}
	var funcs []map[string]any
	var lemmas []string
	var details strings.Builder
	if loadErr != "" {
		failed = append(failed, "the program does not load: "+loadErr)
	}
	for _, r := range rs {
		ok, n := 0, 0
		var ms int64
		for _, o := range r.Obls {
			if o.Kind == "cover" {
				covers++
				if o.Status != "unsat" {
					alive++
				}
				continue
			}
			n++
			ms += o.Ms
			if o.Status == "unsat" {
				ok++
				backends[o.By]++
				kinds[o.Kind]++
			} else {
				f := fmt.Sprintf("[%s] %s: %s (%s)", o.Kind, o.Fn, o.Name, o.Pos)
				failed = append(failed, f)
				fmt.Fprintf(&details, "%s\n  solver: %s by %s after %d ms\n  path: %s\n  goal: %s\n", f, o.Status, o.By, o.Ms, o.Trace, cut(o.Goal, 3000))
				if o.Output != "" {
					fmt.Fprintf(&details, "  output: %s\n", cut(o.Output, 2000))
				}
			}
		}
		if r.Err != "" {
			failed = append(failed, fmt.Sprintf("[no verdict] %s: %s", r.Key, firstLine(r.Err)))
			fmt.Fprintf(&details, "%s: %s\n", r.Key, cut(r.Err, 1500))
		}
		if r.Vacuous {
			failed = append(failed, fmt.Sprintf("[vacuous] %s: no return path is satisfiable", r.Key))
		}
		obl += n
		dis += ok
		triv += r.Trivial
		for _, a := range r.Assumed {
			if !strings.HasPrefix(a, "lemma ") {
				assumed[a] = true
			}
		}
		for _, a := range r.Inlined {
			inlined[a] = true
		}
		if r.Kind == "lemma" {
			lemmas = append(lemmas, r.Key)
		} else {
			funcs = append(funcs, map[string]any{"function": r.Key, "obligations": n, "discharged": ok, "by_simplification": r.Trivial, "paths": r.Paths, "solver_ms": ms})
		}
	}
	solverWall := time.Since(t0).Seconds()

	// replay / bounded stand-ins on the real code
	h := runHarness(repo, verif, prop, tier, seed, seedsFrom(rs, len(failed) > 0))

	var notes []string
	for _, f := range fs {
		if f.Property != prop || f.Status != "known" {
			continue
		}
		if h.known[f.ID] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
			notes = append(notes, "known finding reproduced: "+f.What)
		}
	}
	listed := map[string]bool{}
	for _, f := range fs {
		if f.Property == prop && f.Status == "known" {
			listed[f.ID] = true
		}
	}
	var inputs []string
	inputs = append(inputs, h.fails...)
	for id := range h.known {
		if !listed[id] {
			inputs = append(inputs, "unlisted finding "+id)
		}
	}
	sort.Strings(inputs)
	if h.broken != "" {
		failed = append(failed, "[harness] "+h.broken)
		fmt.Fprintf(&details, "harness output:\n%s\n", cut(h.output, 6000))
	}

	violations := 0
	code := 0
	if len(failed) > 0 || len(inputs) > 0 {
		violations = 1
		code = 1
		var b strings.Builder
		fmt.Fprintf(&b, "property %s is violated by the code in %s\n\n", prop, repo)
		if len(inputs) > 0 {
			fmt.Fprintf(&b, "failing inputs on the real code:\n")
			for _, f := range inputs {
				fmt.Fprintf(&b, "  %s\n", f)
			}
			fmt.Fprintf(&b, "reproduce with: %s\n\n", h.cmd)
		}
		if len(failed) > 0 {
			fmt.Fprintf(&b, "obligations that were not discharged:\n")
			for _, f := range failed {
				fmt.Fprintf(&b, "  %s\n", f)
			}
			fmt.Fprintf(&b, "\nverifier output:\n%s\n", details.String())
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		for i, f := range failed {
			if i < 12 {
				fmt.Println("undischarged:", cut(f, 300))
			}
		}
		for i, f := range inputs {
			if i < 5 {
				fmt.Println("failing input:", cut(f, 400))
			}
		}
		if len(inputs) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		}
	} else {
		fmt.Printf("OK property=%s: %d obligations discharged by solvers, %d by simplification, %d functions, %d lemmas; harness: %d cases\n", prop, dis, triv, len(funcs), len(lemmas), h.evals)
	}

	level := "proof"
	cov := map[string]any{
		"obligations":               obl,
		"discharged":                dis,
		"discharged_by_rewriting":   triv,
		"discharged_by_backend":     backends,
		"discharged_by_kind":        kinds,
		"functions_under_contract":  funcs,
		"functions_inlined":         keysOf(inlined),
		"lemmas_and_spec_functions": lemmas,
		"vacuity_covers":            covers,
		"vacuity_covers_reachable":  alive,
		"solver_ms":                 solverTime,
		"solver_runs":               solverRuns,
		"checker_cmd":               fmt.Sprintf("cd /verif && ./check.sh %s %s", prop, tier),
		"trusted_base": []string{
			"gocv: translation of go/ssa to verification conditions (/verif/gocv)",
			"golang.org/x/tools/go/ssa, Go type checker and compiler",
			"z3 5.3, cvc5 1.1.2, z3 4.8.12 (an unsat answer of any one is accepted)",
			"integers are mathematical (no overflow), strings and []byte are byte sequences, float64 is uninterpreted",
			"package-level variables keep the values their initialisers give them unless a contract says otherwise",
		},
		"proof_wall_s": round1(solverWall),
		"vc_wall_s":    round1(genWall),
	}
	if h.ran {
		cov["bounded_real_code_runs"] = map[string]any{
			"label":      "bounded (never counted as proved): concrete runs of the real code against an independent oracle; they stand in for what is outside the verifier's reach and supply failing inputs",
			"stand_ins":  h.bounded,
			"cmd":        h.cmd,
			"wall_s":     round1(h.wall),
			"known":      keysOf(h.known),
			"fail_count": len(h.fails),
		}
		cov["evaluations"] = h.evals
		cov["distinct_nontrivial"] = h.distinct
		cov["rule"] = strings.Join(h.rules, "; ")
		cov["samples"] = h.samples
	}
	if len(failed) > 0 {
		cov["undischarged"] = failed
	}
	if len(notes) > 0 {
		cov["known_findings"] = notes
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": keysOf(assumed), "wall_s": round1(time.Since(t0).Seconds()), "violations": violations,
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), js, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	return code
}

func round1(f float64) float64 { return float64(int(f*10)) / 10 }

func firstLine(s string) string {
	if i := strings.Index(s, "\n"); i >= 0 {
		return s[:i]
	}
	return s
}

func keysOf(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func loadFindings(path string) []Finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var fs []Finding
	if err := json.Unmarshal(b, &fs); err != nil {
		fmt.Println("known-findings.json:", err)
		os.Exit(2)
	}
	return fs
}

// closure generates the obligations of a property: the functions and lemmas
// tagged with it and, transitively, the contracts and lemmas these rely on.
func closure(p *Prog, sp *Specs, prop string, done, want map[string]bool) []*FuncResult {
	var all []*FuncResult
	for first := true; ; first = false {
		rs := generate(p, sp, func(k string, props []string) bool {
			if done[k] {
				return false
			}
			if want[k] {
				done[k] = true
				return true
			}
			if first {
				for _, q := range props {
					if q == prop {
						done[k] = true
						return true
					}
				}
			}
			return false
		})
		if len(rs) == 0 {
			return all
		}
		all = append(all, rs...)
		for _, r := range rs {
			for _, u := range r.Used {
				if sp.funcs[u] != nil || strings.HasPrefix(u, "functype ") {
					want[u] = true
				}
			}
			for _, a := range r.Assumed {
				if strings.HasPrefix(a, "lemma ") {
					want[a] = true
				}
			}
			if r.exec != nil && r.exec.c != nil {
				for n := range r.exec.c.funs {
					if strings.HasPrefix(n, "rec$") {
						want["rec "+strings.TrimPrefix(n, "rec$")] = true
					}
				}
			}
		}
	}
}

var strLit = regexp.MustCompile(`"((?:[^"]|"")*)"`)

// seedsFrom extracts the byte strings of the solvers' counterexamples.
func seedsFrom(rs []*FuncResult, any bool) []string {
	if !any {
		return nil
	}
	var seeds []string
	seen := map[string]bool{}
	n := 0
	for _, r := range rs {
		if r.exec == nil {
			continue
		}
		for _, o := range r.exec.obls {
			if o.cover || n >= 12 {
				continue
			}
			bad := false
			for _, or := range r.Obls {
				if or.Name == o.Name && or.Kind == o.Kind && or.Status == "sat" {
					bad = true
				}
			}
			if !bad {
				continue
			}
			n++
			var q string
			func() {
				defer func() { recover() }()
				q = r.exec.query(o, 2, true)
			}()
			if q == "" {
				continue
			}
			res := checkSat(q, 3000)
			if res.status != "sat" {
				continue
			}
			for _, m := range strLit.FindAllStringSubmatch(res.output, -1) {
				s := decodeSMT(strings.ReplaceAll(m[1], `""`, `"`))
				if !seen[s] && len(s) < 10000 {
					seen[s] = true
					seeds = append(seeds, s)
				}
			}
		}
	}
	return seeds
}

var smtEsc = regexp.MustCompile(`\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})`)

func decodeSMT(s string) string {
	return smtEsc.ReplaceAllStringFunc(s, func(m string) string {
		m = strings.Trim(strings.TrimPrefix(m, `\u`), "{}")
		n, err := strconv.ParseInt(m, 16, 32)
		if err != nil || n > 255 {
			return "?"
		}
		return string([]byte{byte(n)})
	})
}

// runHarness runs the Go tests /verif/replay/<dir>/*_<prop>_test.go against the
// real code through an overlay.
func runHarness(repo, verif, prop, tier string, seed int, seeds []string) *harnessResult {
	h := &harnessResult{known: map[string]bool{}}
	root := filepath.Join(verif, "replay")
	low := strings.ToLower(prop)
	overlay := map[string]string{}
	dirs := map[string]bool{}
	common, err := os.ReadFile(filepath.Join(root, "common.go.txt"))
	if err != nil {
		return h
	}
	filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		base := filepath.Base(path)
		if !strings.HasSuffix(base, "_test.go") || !strings.HasPrefix(base, low+"_") {
			return nil
		}
		rel, _ := filepath.Rel(root, filepath.Dir(path))
		src, _ := os.ReadFile(path)
		pkg := ""
		for _, l := range strings.Split(string(src), "\n") {
			if strings.HasPrefix(l, "package ") {
				pkg = strings.Fields(l)[1]
				break
			}
		}
		overlay[filepath.Join(repo, rel, "zz_verif_"+base)] = path
		if !dirs[rel] {
			dirs[rel] = true
			cf := filepath.Join(workDir, strings.ReplaceAll(rel, "/", "_")+"_common_test.go")
			os.WriteFile(cf, []byte(strings.Replace(string(common), "package PKG", "package "+pkg, 1)), 0o644)
			overlay[filepath.Join(repo, rel, "zz_verif_common_test.go")] = cf
		}
		return nil
	})
	// helpers shared by the harnesses of one directory
	for rel := range dirs {
		m, _ := filepath.Glob(filepath.Join(root, rel, "helper_*_test.go"))
		for _, f := range m {
			overlay[filepath.Join(repo, rel, "zz_verif_"+filepath.Base(f))] = f
		}
	}
	if len(dirs) == 0 {
		return h
	}
	h.ran = true
	t0 := time.Now()
	ov := filepath.Join(workDir, "overlay.json")
	js, _ := json.Marshal(map[string]any{"Replace": overlay})
	os.WriteFile(ov, js, 0o644)
	sf := filepath.Join(workDir, "seeds.json")
	enc := []string{}
	for _, s := range seeds {
		enc = append(enc, fmt.Sprintf("%x", s))
	}
	js, _ = json.Marshal(enc)
	os.WriteFile(sf, js, 0o644)
	args := []string{"test", "-overlay", ov, "-vet=off", "-count=1", "-v", "-timeout", "240s", "-run", "^TestVerif" + prop + "$"}
	var ds []string
	for d := range dirs {
		ds = append(ds, "./"+d)
	}
	sort.Strings(ds)
	args = append(args, ds...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "VERIF_TIER="+tier, fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_INPUTS="+sf)
	cmd.Env = append(cmd.Env, "GOFLAGS=")
	out, err := cmd.CombinedOutput()
	h.wall = time.Since(t0).Seconds()
	h.output = string(out)
	h.cmd = fmt.Sprintf("cd /verif && VERIF_SEED=%d ./check.sh %s %s harness", seed, prop, tier)
	started, ended := 0, 0
	for _, l := range strings.Split(h.output, "\n") {
		l = strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(l, "VERIF-FAIL "):
			h.fails = append(h.fails, strings.TrimPrefix(l, "VERIF-FAIL "))
		case strings.HasPrefix(l, "VERIF-KNOWN "):
			h.known[strings.TrimPrefix(l, "VERIF-KNOWN ")] = true
		case strings.HasPrefix(l, "VERIF-SAMPLE "):
			if len(h.samples) < 12 {
				h.samples = append(h.samples, strings.TrimPrefix(l, "VERIF-SAMPLE "))
			}
		case strings.HasPrefix(l, "VERIF-RULE "):
			h.rules = append(h.rules, strings.TrimPrefix(l, "VERIF-RULE "))
		case strings.HasPrefix(l, "VERIF-BOUNDED "):
			h.bounded = append(h.bounded, strings.TrimPrefix(l, "VERIF-BOUNDED "))
		case strings.HasPrefix(l, "VERIF-START"):
			started++
		case strings.HasPrefix(l, "VERIF-STATS "):
			var a, b int
			fmt.Sscanf(l, "VERIF-STATS %d %d", &a, &b)
			h.evals += a
			h.distinct += b
			ended++
		}
	}
	if len(h.fails) == 0 && (err != nil || ended < len(dirs)) {
		h.broken = fmt.Sprintf("the harness did not finish (%v, %d of %d packages reported)", err, ended, len(dirs))
		if strings.Contains(h.output, "panic:") {
			i := strings.Index(h.output, "panic:")
			h.broken += ": " + cut(strings.ReplaceAll(h.output[i:], "\n", " | "), 400)
		} else if strings.Contains(h.output, "build failed") {
			h.broken += ": build failed: " + cut(strings.ReplaceAll(h.output, "\n", " | "), 400)
		}
	}
	return h
}
