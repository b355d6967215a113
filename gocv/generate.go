package main

import (
	"fmt"
	"sync"
)

// generate runs the executor on every selected function and lemma.
func generate(p *Prog, sp *Specs, sel func(key string, props []string) bool) []*FuncResult {
	sp.expand(p)
	var rs []*FuncResult
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	var mu sync.Mutex
	add := func(r *FuncResult, slot int) {
		mu.Lock()
		rs[slot] = r
		mu.Unlock()
	}
	launch := func(f func() *FuncResult) {
		mu.Lock()
		slot := len(rs)
		rs = append(rs, nil)
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			add(f(), slot)
		}()
	}
	for _, k := range sp.forder {
		con := sp.funcs[k]
		if con.trusted || con.kind != "func" && con.kind != "functype" || con.inline && len(con.ens) == 0 {
			continue
		}
		if con.kind == "functype" {
			continue
		}
		if !sel(con.key, con.props) {
			continue
		}
		con2 := *con
		fn := p.funcs[con.key]
		if fn == nil {
			r := &FuncResult{Key: con.key, Kind: "func", Err: "contract does not attach: function not found in the source", exec: newExec(p, sp, nil, &con2)}
			mu.Lock()
			rs = append(rs, r)
			mu.Unlock()
			continue
		}
		if con.implement != "" {
			ft := sp.funcs["functype:"+con.implement]
			if ft == nil {
				r := &FuncResult{Key: con.key, Err: "unknown functype " + con.implement, exec: newExec(p, sp, nil, &con2)}
				rs = append(rs, r)
				continue
			}
			con2 = mergeFunctype(con2, ft)
		}
		launch(func() *FuncResult { return newExec(p, sp, fn, &con2).verifyFunc() })
	}
	// every function used as a value of a contracted function type must satisfy it
	for _, k := range sp.forder {
		con := sp.funcs[k]
		if con.kind != "functype" {
			continue
		}
		if !sel("functype "+con.key, con.props) {
			continue
		}
		for _, f := range p.functionsOfType(con.key) {
			key := funcKey(f)
			if onlyFn != nil && !onlyFn.MatchString(key) {
				continue
			}
			if own := sp.funcs[key]; own != nil && own.implement == con.key {
				continue
			}
			c := mergeFunctype(FuncSpec{key: key, kind: "func", loops: map[int]*LoopSpec{}}, con)
			fn := f
			launch(func() *FuncResult { return newExec(p, sp, fn, &c).verifyFunc() })
		}
	}
	for _, n := range sp.fnorder {
		f := sp.fns[n]
		if f.kind != "rec" || !sel("rec "+f.name, nil) {
			continue
		}
		launch(func() *FuncResult { return newExec(p, sp, nil, nil).verifyRec(f) })
	}
	for _, n := range sp.lorder {
		l := sp.lemmas[n]
		if l.axiom || !sel("lemma "+l.name, l.props) {
			continue
		}
		launch(func() *FuncResult { return newExec(p, sp, nil, nil).verifyLemma(l) })
	}
	wg.Wait()
	return rs
}

// mergeFunctype adds the clauses of the function type (whose first parameter is
// the function value itself) to the contract of an implementing function.
func mergeFunctype(c FuncSpec, ft *FuncSpec) FuncSpec {
	if len(c.params) == 0 && len(ft.params) > 0 {
		c.params = ft.params[1:]
	}
	if len(c.results) == 0 {
		c.results = ft.results
	}
	c.req = append(append([]*Expr{}, ft.req...), c.req...)
	c.ens = append(append([]*Expr{}, ft.ens...), c.ens...)
	c.mods = append(append([]*Expr{}, ft.mods...), c.mods...)
	if c.note == "" {
		c.note = fmt.Sprintf("implements %s", ft.key)
	}
	c.overflow = c.overflow || ft.overflow
	if len(ft.params) > 0 {
		c.selfName = ft.params[0]
	}
	return c
}
