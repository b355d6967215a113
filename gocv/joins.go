package main

import (
	"golang.org/x/tools/go/ssa"
)

// Joins. A contract with the clause "joins" lets the executor go on with one
// path behind every if statement of the function: both branches are executed up
// to the block where they meet, all obligations on the way are generated, and
// execution continues there once, from the state before the branch with
// everything forgotten that a branch may have written (and with arbitrary values
// for the variables that are merged there). Nothing is assumed about the branch
// taken, so whatever holds afterwards holds on every path.

type joinCtx struct {
	frame   int
	block   *ssa.BasicBlock
	arrived bool
	phis    [][]Val
	base    *state
	nback0  int
}

// topDry returns the innermost dry run, nil if none is active.
func (ex *Exec) topDry() *dryRun {
	for i := len(ex.dry) - 1; i >= 0; i-- {
		if !ex.dry[i].live {
			return ex.dry[i]
		}
	}
	return nil
}

// joinBlock returns the block where the branches of the if that ends b meet.
func (ex *Exec) joinBlock(st *state, fr int, b *ssa.BasicBlock) *ssa.BasicBlock {
	if ex.con == nil || !ex.con.joins || st.frames[fr].fn != ex.top || len(st.frames[fr].defers) > 0 {
		return nil
	}
	ls := ex.loopsOf(b.Parent())
	var j *ssa.BasicBlock
	for _, d := range b.Dominees() {
		if len(d.Preds) < 2 {
			continue
		}
		if ls.byHeader[d] != nil || j != nil {
			return nil
		}
		j = d
	}
	if j == nil {
		return nil
	}
	for _, l := range ls.byHeader {
		if l.blocks[b] != l.blocks[j] {
			return nil
		}
	}
	return j
}

func (ex *Exec) arrive(st *state, fr int, j *joinCtx, prev *ssa.BasicBlock) {
	j.arrived = true
	pi := predIndex(j.block, prev)
	for i, p := range phisOf(j.block) {
		for len(j.phis) <= i {
			j.phis = append(j.phis, nil)
		}
		j.phis[i] = append(j.phis[i], ex.val(st, fr, p.Edges[pi]))
	}
	for id, b := range st.backs {
		if o := j.base.backs[id]; o != nil && o.owned && !b.owned {
			nb := *o
			nb.owned = false
			nb.origin = b.origin
			j.base.backs[id] = &nb
		}
	}
}

func (ex *Exec) runJoin(st *state, fr int, b, jb *ssa.BasicBlock, c *T, k cont) {
	j := &joinCtx{frame: fr, block: jb, base: st, nback0: ex.nback}
	d := &dryRun{frame: fr, writes: map[writeKey]*T{}, start: ex.c.nsym, alloc0: ex.nalloc, nback0: ex.nback, live: true}
	ex.joins = append(ex.joins, j)
	ex.dry = append(ex.dry, d)
	for i, cond := range []*T{c, ex.c.Not(c)} {
		s := st.clone()
		ex.assume(s, cond)
		if s.dead || !ex.feasible(s) {
			continue
		}
		ex.paths++
		if ex.paths > ex.maxPath {
			ex.fail("path limit exceeded")
		}
		ex.run(s, fr, b.Succs[i], 0, b, k)
	}
	ex.joins = ex.joins[:len(ex.joins)-1]
	ex.dry = ex.dry[:len(ex.dry)-1]
	if !j.arrived {
		return
	}
	ex.havocWrites(st, d.writes)
	phis := phisOf(jb)
	for i, p := range phis {
		v := j.phis[i][0]
		t, same := v.(*T)
		for _, w := range j.phis[i] {
			u, ok := w.(*T)
			same = same && ok && u == t && t.maxsym <= d.start
		}
		if !same {
			v = ex.freshVal(st, p.Comment+"_"+p.Name(), p.Type())
		}
		st.frames[fr].env[p] = v
	}
	ex.run(st, fr, jb, len(phis), nil, k)
}
