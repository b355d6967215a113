package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

func hasBound(t *T, memo map[int]bool) bool {
	if v, ok := memo[t.id]; ok {
		return v
	}
	r := t.op == "sym" && strings.HasPrefix(t.lit, "q$")
	for _, a := range t.args {
		if r {
			break
		}
		r = hasBound(a, memo)
	}
	memo[t.id] = r
	return r
}

// instances returns ground axiom instances for the terms of a query.
func (ex *Exec) instances(roots []*T, rounds int) []*T {
	c := ex.c
	seen := map[int]bool{}
	memo := map[int]bool{}
	var out []*T
	done := map[string]bool{}
	var frontier []*T
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.op == "app" && !hasBound(t, memo) {
			if strings.HasPrefix(t.lit, "rec$") {
				if f := ex.spec.fns[t.lit[4:]]; f != nil && f.opq {
					if u := ex.unfold(t); !isTrue(u) {
						out = append(out, u)
						walk(u)
					}
				}
			}
			frontier = append(frontier, t)
		}
	}
	for _, r := range roots {
		walk(r)
	}
	for round := 0; round < rounds && len(frontier) > 0; round++ {
		cur := frontier
		frontier = nil
		var newT []*T
		add := func(key string, f func() *T) {
			if done[key] {
				return
			}
			done[key] = true
			if t := f(); t != nil && !isTrue(t) {
				out = append(out, t)
				newT = append(newT, t)
			}
		}
		for _, t := range cur {
			t := t
			switch {
			case strings.HasPrefix(t.lit, "rec$"):
				if f := ex.spec.fns[t.lit[4:]]; f != nil && f.opq {
					break
				}
				add(fmt.Sprint("u", t.id), func() *T { return ex.unfold(t) })
			case strings.HasPrefix(t.lit, "box$"):
				add(fmt.Sprint("b", t.id), func() *T {
					return c.Eq(c.App("un"+t.lit, t.args[0].sort, t), t.args[0])
				})
			}
			for _, ln := range ex.spec.byTrigger[t.lit] {
				l := ex.spec.lemmas[ln]
				if ex.lemmaOrd >= 0 && l.order >= ex.lemmaOrd {
					continue
				}
				if len(l.params) > len(t.args) {
					continue
				}
				add(fmt.Sprint("l", ln, t.id), func() *T {
					var vs []SV
					for i := range l.params {
						vs = append(vs, ex.mkSV(nil, t.args[i], ex.specType(l.types[i])))
					}
					return ex.lemmaInstance(l, vs)
				})
			}
		}
		for _, t := range newT {
			walk(t)
		}
	}
	return out
}

// query renders an obligation as SMT-LIB.
// With rounds >= abstracted, string concatenations are
// replaced by unknowns of the same length (a weaker, so still sound, set of hypotheses).
func (ex *Exec) query(o *Obligation, rounds int, model bool) string {
	c := ex.c
	abs := rounds >= abstracted
	rounds %= abstracted
	roots := append([]*T{}, o.pc...)
	roots = append(roots, c.Not(o.goal))
	inst := ex.instances(roots, rounds)
	roots = append(roots, inst...)
	// collect
	refs := map[int]int{}
	order := []*T{}
	seen := map[int]bool{}
	sorts := map[string]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		refs[t.id]++
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, s := range sortsIn(t.sort) {
			sorts[s] = true
		}
		for _, a := range t.args {
			walk(a)
		}
		order = append(order, t)
	}
	for _, r := range roots {
		walk(r)
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	if model {
		b.WriteString("(set-option :produce-models true)\n")
	}
	for _, t := range order {
		if t.op == "app" {
			d := c.funs[t.lit]
			for _, s := range sortsIn(d) {
				if _, ok := ex.p.dts.byName[s]; ok {
					sorts[s] = true
				}
			}
		}
	}
	b.WriteString(ex.p.dts.declsFor(sorts))
	decl := map[string]bool{}
	for _, t := range order {
		switch t.op {
		case "sym":
			if strings.HasPrefix(t.lit, "q$") {
				continue
			}
			if !decl[t.lit] {
				decl[t.lit] = true
				b.WriteString(c.declOf[t.lit] + "\n")
			}
		case "app":
			if !decl[t.lit] {
				decl[t.lit] = true
				b.WriteString(c.funs[t.lit] + "\n")
			}
		}
	}
	// float constants are distinct
	var fl []string
	for n := range decl {
		if strings.HasPrefix(n, "f64.") && c.declOf[n] != "" && !strings.Contains(n, "!") {
			fl = append(fl, n)
		}
	}
	sort.Strings(fl)
	if len(fl) > 1 {
		b.WriteString("(assert (distinct " + strings.Join(fl, " ") + "))\n")
	}
	var fns []string
	for n := range decl {
		if strings.HasPrefix(n, "fn$") {
			fns = append(fns, n)
		}
	}
	sort.Strings(fns)
	if len(fns) > 0 {
		b.WriteString("(assert (distinct 0 " + strings.Join(fns, " ") + "))\n")
	}
	memo := map[int]bool{}
	names := map[int]string{}
	hide := map[int]bool{}
	if abs {
		for _, t := range order {
			if t.op == "str.++" && !hasBound(t, memo) {
				hide[t.id] = true
			}
		}
	}
	for _, t := range order {
		if hide[t.id] {
			n := fmt.Sprintf("t$%d", t.id)
			ln := "str.len"
			if t.op == "seq.++" {
				ln = "seq.len"
			}
			fmt.Fprintf(&b, "(declare-const %s %s)\n(assert (= (%s %s) (+", n, t.sort, ln, n)
			for _, a := range t.args {
				fmt.Fprintf(&b, " (%s ", ln)
				a.write(&b, names, 0)
				b.WriteString(")")
			}
			b.WriteString(")))\n")
			names[t.id] = n
			continue
		}
		if refs[t.id] > 1 && len(t.args) > 0 && !hasBound(t, memo) {
			n := fmt.Sprintf("t$%d", t.id)
			fmt.Fprintf(&b, "(define-fun %s () %s ", n, t.sort)
			t.writeBody(&b, names, 0)
			b.WriteString(")\n")
			names[t.id] = n
		}
	}
	for _, r := range roots {
		b.WriteString("(assert ")
		r.write(&b, names, 0)
		b.WriteString(")\n")
	}
	b.WriteString("(check-sat)\n")
	if model {
		b.WriteString("(get-model)\n")
	}
	return b.String()
}

// solving --------------------------------------------------------------------

type solver struct {
	name string
	cmd  func(file string, ms int) []string
}

var solvers = []solver{
	{"z3-5.3", func(f string, ms int) []string { return []string{"z3-new", fmt.Sprintf("-t:%d", ms), f} }},
	{"cvc5-1.1.2", func(f string, ms int) []string {
		return []string{"cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", ms), f}
	}},
	{"z3-4.8.12", func(f string, ms int) []string { return []string{"z3", fmt.Sprintf("-t:%d", ms), f} }},
}

type solveResult struct {
	status string // unsat, sat, unknown
	by     string
	ms     int64
	output string
}

var solverSem = make(chan bool, 8)
var solverTime int64
var solverRuns int64

func runSolver(s solver, file string, ms int, ctx context.Context) solveResult {
	solverSem <- true
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return solveResult{status: "unknown", by: s.name}
	}
	t0 := time.Now()
	args := s.cmd(file, ms)
	cx, cancel := context.WithTimeout(ctx, time.Duration(ms+1500)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(cx, args[0], args[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	d := time.Since(t0).Milliseconds()
	atomic.AddInt64(&solverTime, d)
	atomic.AddInt64(&solverRuns, 1)
	st := "unknown"
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" {
			st = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			st = "error"
			break
		}
	}
	return solveResult{status: st, by: s.name, ms: d, output: out.String()}
}

// solveDeadline bounds the whole solving phase; past it obligations stay undecided.
var solveDeadline time.Time

const abstracted = 100

var workDir string
var qn int64

// discharge tries the portfolio on an obligation; gen renders its query with a
// given depth of axiom instances.
func discharge(gen func(rounds int) string, bud Budget) solveResult {
	late := func() bool { return !solveDeadline.IsZero() && time.Now().After(solveDeadline) }
	if late() {
		return solveResult{status: "unknown", by: "deadline"}
	}
	var files []string
	defer func() {
		for _, f := range files {
			os.Remove(f)
		}
	}()
	texts := map[int]string{}
	byText := map[string]string{}
	weak := map[string]bool{}
	file := func(rounds int) string {
		q, ok := texts[rounds]
		if !ok {
			q = gen(rounds)
			texts[rounds] = q
		}
		if f, ok := byText[q]; ok {
			return f
		}
		n := atomic.AddInt64(&qn, 1)
		f := filepath.Join(workDir, fmt.Sprintf("q%d.smt2", n))
		if err := os.WriteFile(f, []byte(q), 0o644); err != nil {
			return ""
		}
		files = append(files, f)
		byText[q] = f
		weak[f] = rounds >= abstracted
		return f
	}
	type try struct {
		s    int
		file string
		ms   int
	}
	tried := map[string]bool{}
	best := solveResult{status: "unknown"}
	run := func(ts ...try) bool {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		ch := make(chan solveResult, len(ts))
		n := 0
		for _, t := range ts {
			k := fmt.Sprint(t.s, t.file, t.ms)
			if t.file == "" || tried[k] {
				continue
			}
			tried[k] = true
			n++
			t := t
			go func() {
				x := runSolver(solvers[t.s], t.file, t.ms, ctx)
				if weak[t.file] && x.status == "sat" {
					x.status = "unknown"
				}
				ch <- x
			}()
		}
		won := false
		for i := 0; i < n; i++ {
			x := <-ch
			if won {
				continue
			}
			if x.status == "unsat" {
				best = x
				won = true
				cancel()
				continue
			}
			if x.status == "sat" || best.status == "unknown" && x.status == "error" || best.by == "" {
				best = x
			}
		}
		return won
	}
	R := bud.rounds
	fR := file(R)
	if run(try{0, fR, bud.quick}) {
		return best
	}
	sat := best.status == "sat"
	f1 := file(1)
	if run(try{0, f1, bud.quick}, try{1, f1, bud.quick}, try{1, fR, bud.quick}, try{0, file(R + 1), bud.quick}, try{0, file(abstracted + R), bud.quick}, try{0, file(abstracted + 1), bud.quick}) {
		return best
	}
	if late() {
		return best
	}
	if sat {
		run(try{1, fR, bud.full / 2}, try{0, file(R + 2), bud.full / 2})
		return best
	}
	run(try{0, fR, bud.full}, try{1, fR, bud.full}, try{2, fR, bud.full}, try{0, f1, bud.full}, try{1, f1, bud.full}, try{0, file(R + 2), bud.full}, try{0, file(abstracted + R), bud.full}, try{1, file(abstracted + 1), bud.full})
	return best
}

// checkSat is used for vacuity covers: unsat means vacuous.
func checkSat(q string, ms int) solveResult {
	n := atomic.AddInt64(&qn, 1)
	file := filepath.Join(workDir, fmt.Sprintf("q%d.smt2", n))
	os.WriteFile(file, []byte(q), 0o644)
	defer os.Remove(file)
	return runSolver(solvers[0], file, ms, context.Background())
}
