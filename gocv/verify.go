package main

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// feasible is a cheap syntactic feasibility test, with a solver for long paths.
func (ex *Exec) feasible(st *state) bool {
	if st.dead {
		return false
	}
	if !ex.prune {
		return true
	}
	o := &Obligation{pc: st.pc, goal: ex.c.False()}
	r := checkSat(ex.query(o, 1, false), 400)
	return r.status != "unsat"
}

// FuncResult is the outcome of verifying one function or lemma.
type FuncResult struct {
	Key     string
	Kind    string
	Err     string
	Obls    []*OblResult
	Trivial int
	Paths   int
	Covers  int
	Vacuous bool
	Assumed []string
	Inlined []string
	Used    []string
	GenMs   int64
	exec    *Exec
	NoDec   []string
}

type OblResult struct {
	Fn, Name, Kind, Pos string
	Status              string
	By                  string
	Ms                  int64
	Goal                string
	Trace               string
	Output              string
	Model               map[string]string
}

func (ex *Exec) verifyFunc() (res *FuncResult) {
	fn, con := ex.top, ex.con
	res = &FuncResult{Key: con.key, Kind: "func", exec: ex}
	t0 := time.Now()
	defer func() {
		res.GenMs = time.Since(t0).Milliseconds()
		res.Trivial = ex.trivial
		res.Paths = ex.paths + 1
		res.Covers = ex.covers
		for a := range ex.assumed {
			res.Assumed = append(res.Assumed, a)
		}
		for a := range ex.inlined {
			res.Inlined = append(res.Inlined, a)
		}
		for a := range ex.usedCon {
			res.Used = append(res.Used, a)
		}
		sort.Strings(res.Assumed)
		sort.Strings(res.Inlined)
		sort.Strings(res.Used)
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				res.Err = "outside the supported subset: " + r.msg
			case specErr:
				res.Err = "contract does not attach: " + r.msg
			default:
				res.Err = fmt.Sprintf("internal error: %v\n%s", r, debug.Stack())
			}
		}
	}()
	if fn.Blocks == nil {
		ex.fail("function has no body")
	}
	st := &state{set: map[int]bool{}, eqlit: map[int]*T{}, heap: map[string]*T{}, backs: map[int]*Back{}, ghosts: map[string]SV{}}
	ex.topEnv = map[string]SV{}
	var args []Val
	for i, p := range fn.Params {
		name := p.Name()
		t := ex.c.Const(fmt.Sprintf("old$%d$%s", i, sanitize(name)), ex.sort(p.Type()))
		var v Val = t
		switch u := p.Type().Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			ex.assume(st, ex.c.Le(ex.c.Int(0), t))
		case *types.Slice:
			if isByteSlice(p.Type()) {
				v = &SliceV{typ: p.Type(), term: t, off: ex.c.Int(0), ln: ex.c.Len(t), base: t}
			} else {
				ex.nback++
				st.backs[ex.nback] = &Back{term: t, elem: u.Elem(), origin: "param " + name}
				v = &SliceV{typ: p.Type(), back: ex.nback, off: ex.c.Int(0), ln: ex.c.Len(t), base: t}
			}
		default:
			ex.wellTyped(st, t, p.Type())
		}
		args = append(args, v)
		n := name
		if i < len(con.params) {
			n = con.params[i]
		}
		ex.topEnv[n] = SV{v, p.Type()}
		if name != n {
			if _, ok := ex.topEnv[name]; !ok {
				ex.topEnv[name] = SV{v, p.Type()}
			}
		}
	}
	if len(fn.FreeVars) > 0 {
		ex.fail("closures cannot be verified on their own")
	}
	if con.selfName != "" {
		ex.topEnv[con.selfName] = SV{ex.closTerm(&CloV{fn: fn}), fn.Signature}
	}
	for _, r := range con.req {
		ex.assume(st, ex.evalTop(st, r).v.(*T))
	}
	ex.entry = st.clone()
	for _, m := range con.mods {
		env := &specEnv{vars: ex.topEnv, st: st, old: ex.entry, fr: -1}
		ex.con.modLocs = append(ex.con.modLocs, ex.locsOf(env, m)...)
	}
	for _, u := range con.uses {
		env := &specEnv{vars: ex.topEnv, st: st, old: ex.entry, fr: -1}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(specErr); !ok {
						panic(r)
					}
				}
			}()
			ex.assume(st, ex.tm(env, ex.eval(env, u)))
		}()
	}
	returns := 0
	ex.callFn(st, fn, nil, args, func(st *state, rs []Val) {
		returns++
		env := &specEnv{vars: map[string]SV{}, st: st, old: ex.entry, fr: -1}
		for k, v := range ex.topEnv {
			env.vars[k] = v
		}
		ex.bindResults(env, con, fn.Signature, rs)
		for _, u := range con.uses {
			ex.assume(st, ex.tm(env, ex.eval(env, u)))
		}
		if returns <= 40 {
			ex.cover(st, fmt.Sprintf("return path %d is reachable", returns))
		}
		for i, e := range con.ens {
			ex.oblige(st, "postcondition", fmt.Sprintf("postcondition %d: %s", i+1, e.src), fn.Pos(), ex.bterm(env, e))
		}
		if con.freshRes {
			for i, r := range rs {
				if _, ok := fn.Signature.Results().At(i).Type().Underlying().(*types.Pointer); ok {
					ex.oblige(st, "postcondition", "result is freshly allocated", fn.Pos(), ex.c.Le(ex.term(st, r), ex.c.Int(0)))
				}
			}
		}
	})
	if returns == 0 && !con.mayPanic {
		res.Err = "no return path"
	}
	return res
}

// verifyLemma checks a lemma by its own obligations.
func (ex *Exec) verifyLemma(l *Lemma) (res *FuncResult) {
	res = &FuncResult{Key: "lemma " + l.name, Kind: "lemma", exec: ex}
	defer func() {
		for a := range ex.assumed {
			res.Assumed = append(res.Assumed, a)
		}
		sort.Strings(res.Assumed)
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				res.Err = "lemma does not type check: " + e.msg
				return
			}
			res.Err = fmt.Sprintf("internal error: %v\n%s", r, debug.Stack())
		}
	}()
	ex.lemmaOrd = l.order
	c := ex.c
	mkEnv := func() (*specEnv, []SV) {
		env := &specEnv{vars: map[string]SV{}, fr: -1}
		var vs []SV
		for i, p := range l.params {
			t := ex.specType(l.types[i])
			v := ex.mkSV(nil, c.Const("lv$"+p, ex.sort(t)), t)
			env.vars[p] = v
			vs = append(vs, v)
		}
		return env, vs
	}
	env, vs := mkEnv()
	var pc []*T
	for _, r := range l.req {
		pc = append(pc, ex.bterm(env, r))
	}
	for _, u := range l.uses {
		pc = append(pc, ex.bterm(env, u))
	}
	add := func(name string, extra []*T) {
		p := append(append([]*T{}, pc...), extra...)
		ex.obls = append(ex.obls, &Obligation{Fn: "lemma " + l.name, Name: name + ": hypotheses are consistent", Kind: "cover", pc: p, goal: c.False(), cover: true})
		for _, e := range l.ens {
			ex.obls = append(ex.obls, &Obligation{Fn: "lemma " + l.name, Name: name + ": " + e.src, Kind: "lemma", pc: p, goal: ex.bterm(env, e)})
		}
	}
	if l.induct == "" {
		add("direct", nil)
		return
	}
	idx := -1
	for i, p := range l.params {
		if p == l.induct {
			idx = i
		}
	}
	n := ex.tm(env, vs[idx])
	var prev SV
	var base *T
	if n.sort == "String" {
		// induction on the string length, removing the last byte
		base = c.Eq(n, c.Str(""))
		ln := c.Len(n)
		prev = SV{c.mk("str.substr", "", "String", n, c.Int(0), c.Sub(ln, c.Int(1))), vs[idx].typ}
		pc2 := c.Eq(n, c.Concat(prev.v.(*T), c.mk("str.at", "", "String", n, c.Sub(ln, c.Int(1)))))
		add("base", []*T{base})
		ps := append([]SV{}, vs...)
		ps[idx] = ex.mkSV(nil, prev.v.(*T), vs[idx].typ)
		add("step", []*T{c.Not(base), pc2, ex.lemmaInstance(l, ps)})
		return
	}
	base = c.Le(n, c.Int(0))
	ps := append([]SV{}, vs...)
	ps[idx] = SV{c.Sub(n, c.Int(1)), vs[idx].typ}
	add("base", []*T{base})
	add("step", []*T{c.Not(base), ex.lemmaInstance(l, ps)})
	return
}

// verifyRec checks that a recursive spec function is well-founded.
func (ex *Exec) verifyRec(f *SpecFn) (res *FuncResult) {
	res = &FuncResult{Key: "rec " + f.name, Kind: "lemma", exec: ex}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				res.Err = "spec function does not type check: " + e.msg
				return
			}
			res.Err = fmt.Sprintf("internal error: %v\n%s", r, debug.Stack())
		}
	}()
	c := ex.c
	ex.lemmaOrd = 0
	env := &specEnv{vars: map[string]SV{}, fr: -1}
	for i, p := range f.params {
		t := ex.specType(f.types[i])
		env.vars[p] = ex.mkSV(nil, c.Const("lv$"+p, ex.sort(t)), t)
	}
	var walk func(e *Expr, pc []*T)
	walk = func(e *Expr, pc []*T) {
		if e == nil {
			return
		}
		with := func(t *T) []*T { return append(append([]*T{}, pc...), t) }
		switch {
		case e.op == "cond":
			walk(e.args[0], pc)
			p := ex.bterm(env, e.args[0])
			walk(e.args[1], with(p))
			walk(e.args[2], with(c.Not(p)))
			return
		case e.op == "binary" && (e.name == "&&" || e.name == "==>"):
			walk(e.args[0], pc)
			walk(e.args[1], with(ex.bterm(env, e.args[0])))
			return
		case e.op == "binary" && e.name == "||":
			walk(e.args[0], pc)
			walk(e.args[1], with(c.Not(ex.bterm(env, e.args[0]))))
			return
		case e.op == "forall" || e.op == "exists":
			if mentions(e, f.name) {
				panic(specErr{"recursion below a quantifier in " + f.name})
			}
			return
		}
		if e.op == "call" && e.args[0].op == "ident" && e.args[0].name == f.name {
			if f.dec == nil {
				panic(specErr{"recursive spec function " + f.name + " has no measure"})
			}
			e2 := &specEnv{vars: map[string]SV{}, fr: -1}
			for i, p := range f.params {
				e2.vars[p] = ex.eval(env, e.args[i+1])
			}
			m0, m1 := ex.tm(env, ex.eval(env, f.dec)), ex.tm(e2, ex.eval(e2, f.dec))
			ex.obls = append(ex.obls, &Obligation{Fn: res.Key, Name: "measure decreases at " + e.src, Kind: "decreases", pc: pc, goal: c.And(c.Le(c.Int(0), m0), c.Lt(m1, m0))})
		}
		for _, a := range e.args {
			walk(a, pc)
		}
	}
	for _, g := range ex.spec.fns {
		if g.kind == "rec" && g.order > f.order && mentions(f.body, g.name) {
			panic(specErr{"spec function " + f.name + " uses the later " + g.name})
		}
	}
	walk(f.body, nil)
	return
}

func mentions(e *Expr, name string) bool {
	if e == nil {
		return false
	}
	if e.op == "ident" && e.name == name {
		return true
	}
	for _, a := range e.args {
		if mentions(a, name) {
			return true
		}
	}
	return false
}

type Budget struct{ quick, full, rounds int }

// solveAll discharges the obligations of several results in parallel.
func solveAll(rs []*FuncResult, bud Budget) {
	type job struct {
		r *FuncResult
		o *Obligation
		i int
	}
	var wg sync.WaitGroup
	var again []func(Budget)
	var againMu sync.Mutex
	sem := make(chan bool, 12)
	for _, r := range rs {
		ex := r.exec
		seen := map[string]int{}
		var jobs []job
		cache := map[string]*OblResult{}
		for _, o := range ex.obls {
			if !o.cover {
				k := fmt.Sprint(o.goal.id)
				ids := make([]int, len(o.pc))
				for i, p := range o.pc {
					ids[i] = p.id
				}
				sort.Ints(ids)
				k += fmt.Sprint(ids)
				if _, ok := seen[k]; ok {
					continue
				}
				seen[k] = 1
				_ = cache
			}
			or := &OblResult{Fn: o.Fn, Name: o.Name, Kind: o.Kind, Pos: o.Pos, Trace: strings.Join(o.trace, " ")}
			r.Obls = append(r.Obls, or)
			jobs = append(jobs, job{r, o, len(r.Obls) - 1})
		}
		// query text is generated sequentially (the term table is not shared)
		wg.Add(1)
		go func(r *FuncResult, jobs []job) {
			defer wg.Done()
			var inner sync.WaitGroup
			for _, j := range jobs {
				j := j
				gen := func(rounds int) (q string) {
					r.exec.genMu.Lock()
					defer r.exec.genMu.Unlock()
					defer func() {
						if x := recover(); x != nil {
							r.Err = fmt.Sprintf("query generation: %v", x)
						}
					}()
					return r.exec.query(j.o, rounds, false)
				}
				or := r.Obls[j.i]
				sem <- true
				inner.Add(1)
				go func() {
					defer inner.Done()
					defer func() { <-sem }()
					var s solveResult
					if j.o.cover {
						ms := 400
						if r.Kind == "lemma" {
							ms = 2000
						}
						s = checkSat(gen(bud.rounds), ms)
					} else {
						s = discharge(gen, bud)
						if s.status != "unsat" && s.status != "sat" {
							againMu.Lock()
							again = append(again, func(b Budget) {
								s := discharge(gen, b)
								or.Status, or.By, or.Ms = s.status, s.by, s.ms
							})
							againMu.Unlock()
						}
					}
					or.Status, or.By, or.Ms = s.status, s.by, s.ms
					if s.status == "error" {
						or.Output = s.output
						if len(or.Output) > 2000 {
							or.Output = or.Output[:2000]
						}
					}
				}()
			}
			inner.Wait()
			// vacuity
			cov, alive := 0, 0
			for _, o := range r.Obls {
				if o.Kind == "cover" {
					cov++
					if o.Status != "unsat" {
						alive++
					}
				}
			}
			if cov > 0 && alive == 0 {
				r.Vacuous = true
			}
			for _, o := range r.Obls {
				if o.Kind == "cover" && r.Kind == "lemma" && o.Status == "unsat" && !strings.HasPrefix(o.Name, "base") {
					r.Vacuous = true
				}
			}
			for i, j := range jobs {
				if r.Obls[j.i].Status != "unsat" && !j.o.cover {
					r.Obls[j.i].Goal = j.o.goal.String()
				}
				_ = i
			}
		}(r, jobs)
	}
	wg.Wait()
	// a few undecided obligations may be due to the load of the machine: they
	// get the solvers for themselves, with more time
	if n := len(again); n > 0 && n <= 8 {
		t0 := time.Now()
		for _, f := range again {
			if time.Since(t0) > 150*time.Second {
				break
			}
			f(Budget{quick: bud.full, full: 3 * bud.full, rounds: bud.rounds})
		}
	}
}

func posStr(p *Prog, pos token.Pos) string {
	q := p.ssa.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, p.path+"/"), q.Line)
}

// functionsOfType lists functions used as values of a named function type.
func (p *Prog) functionsOfType(tn string) []*ssa.Function {
	p.foMu.Lock()
	defer p.foMu.Unlock()
	if r, ok := p.fo[tn]; ok {
		return r
	}
	if p.fo == nil {
		p.fo = map[string][]*ssa.Function{}
	}
	r := p.functionsOfType0(tn)
	p.fo[tn] = r
	return r
}

func (p *Prog) functionsOfType0(tn string) []*ssa.Function {
	t := p.typeByName(tn)
	if t == nil {
		return nil
	}
	sg := t.Underlying().(*types.Signature)
	seen := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && types.Identical(g.Signature, sg) {
						// as a value, not as a static callee
						if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == *op && !c.Common().IsInvoke() {
							isArg := false
							for _, a := range c.Common().Args {
								if a == *op {
									isArg = true
								}
							}
							if !isArg {
								continue
							}
						}
						seen[g] = true
					}
				}
			}
		}
	}
	var r []*ssa.Function
	for f := range seen {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return funcKey(r[i]) < funcKey(r[j]) })
	return r
}
