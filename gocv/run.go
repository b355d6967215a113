package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cont func(st *state, res []Val)

const maxInline = 8

// callFn runs fn on args in a new frame and passes the results to k.
func (ex *Exec) callFn(st *state, fn *ssa.Function, bind, args []Val, k cont) {
	if fn.Blocks == nil {
		ex.fail("no body for %s", fn)
	}
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, parent: len(st.frames) - 1}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = bind[i]
	}
	st.frames = append(st.frames, fr)
	depth := len(st.frames) - 1
	ex.run(st, depth, fn.Blocks[0], 0, nil, func(st2 *state, res []Val) {
		st2.frames = st2.frames[:depth]
		k(st2, res)
	})
}

func (ex *Exec) run(st *state, fr int, b *ssa.BasicBlock, idx int, prev *ssa.BasicBlock, k cont) {
	for {
		if st.dead {
			return
		}
		if idx == 0 && prev != nil {
			// leaving the loop of an active dry run ends the path
			if d := ex.topDry(); d != nil && d.frame == fr && !d.loop.blocks[b] {
				return
			}
			// so does arriving at the end of a region that is joined
			for _, j := range ex.joins {
				if j.frame == fr && j.block == b {
					ex.arrive(st, fr, j, prev)
					return
				}
			}
			// drop loop contexts that are left
			for len(st.loops) > 0 {
				l := st.loops[len(st.loops)-1]
				if l.frame == fr && !l.loop.blocks[b] {
					st.loops = st.loops[:len(st.loops)-1]
					continue
				}
				break
			}
			if l := ex.loopsOf(b.Parent()).byHeader[b]; l != nil {
				if l.blocks[prev] && len(st.loops) > 0 && st.loops[len(st.loops)-1].loop == l && st.loops[len(st.loops)-1].frame == fr {
					ex.loopBack(st, fr, l, prev)
					return
				}
				if !ex.unrollable(st, fr, l, b) {
					ex.loopEnter(st, fr, l, prev, k)
					return
				}
			}
			// phis
			var vals []Val
			n := 0
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				n++
				for i, p := range b.Preds {
					if p == prev {
						vals = append(vals, ex.val(st, fr, phi.Edges[i]))
						break
					}
				}
			}
			for i := 0; i < n; i++ {
				st.frames[fr].env[b.Instrs[i].(*ssa.Phi)] = vals[i]
			}
			idx = n
		}
		var next *ssa.BasicBlock
		for ; idx < len(b.Instrs); idx++ {
			ex.steps++
			if ex.steps > 3000000 {
				ex.fail("step limit")
			}
			in := b.Instrs[idx]
			switch in := in.(type) {
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				c := ex.simp(st, ex.term(st, ex.val(st, fr, in.Cond)))
				if isTrue(c) {
					next = b.Succs[0]
				} else if isFalse(c) {
					next = b.Succs[1]
				} else if j := ex.joinBlock(st, fr, b); j != nil {
					ex.runJoin(st, fr, b, j, c, k)
					return
				} else {
					ex.paths++
					if ex.paths > ex.maxPath {
						ex.fail("path limit exceeded")
					}
					st2 := st.clone()
					ex.assume(st2, c)
					pos := ex.p.ssa.Fset.Position(in.Cond.Pos())
					if pos.IsValid() {
						st2.trace = append(st2.trace, fmt.Sprintf("%d:T", pos.Line))
						st.trace = append(st.trace, fmt.Sprintf("%d:F", pos.Line))
					}
					if !st2.dead && ex.feasible(st2) {
						ex.run(st2, fr, b.Succs[0], 0, b, k)
					}
					ex.assume(st, ex.c.Not(c))
					if st.dead || !ex.feasible(st) {
						return
					}
					next = b.Succs[1]
				}
			case *ssa.Return:
				var res []Val
				for _, r := range in.Results {
					res = append(res, ex.val(st, fr, r))
				}
				if d := ex.topDry(); d != nil && d.frame == fr {
					return
				}
				for len(st.loops) > 0 && st.loops[len(st.loops)-1].frame == fr {
					st.loops = st.loops[:len(st.loops)-1]
				}
				k(st, res)
				return
			case *ssa.Panic:
				if !ex.allowPanic(st, fr) {
					ex.oblige(st, "panic", "explicit panic is unreachable", in.Pos(), ex.c.False())
				}
				return
			case *ssa.Call:
				i, blk, p := idx, b, prev
				ex.doCall(st, fr, in.Common(), in, func(st2 *state, res []Val) {
					var v Val
					switch len(res) {
					case 0:
					case 1:
						v = res[0]
					default:
						v = TupleV(res)
					}
					if in.Call.Signature().Results().Len() > 1 && len(res) == 1 {
						v = res[0]
					}
					st2.frames[fr].env[in] = v
					ex.run(st2, fr, blk, i+1, p, k)
				})
				return
			case *ssa.Select:
				i, blk, p := idx, b, prev
				ex.doSelect(st, fr, in, func(st2 *state, res []Val) {
					st2.frames[fr].env[in] = TupleV(res)
					ex.run(st2, fr, blk, i+1, p, k)
				})
				return
			case *ssa.RunDefers:
				ds := st.frames[fr].defers
				if len(ds) == 0 {
					continue
				}
				i, blk, p := idx, b, prev
				st.frames[fr].defers = nil
				var chain func(st *state, n int)
				chain = func(st *state, n int) {
					if n < 0 {
						ex.run(st, fr, blk, i+1, p, k)
						return
					}
					d := ds[n]
					ex.call(st, fr, d.call, d.fn, d.args, nil, func(st2 *state, _ []Val) { chain(st2, n-1) })
				}
				chain(st, len(ds)-1)
				return
			case *ssa.Next:
				i, blk, p := idx, b, prev
				ex.doNext(st, fr, in, func(st2 *state, res []Val) {
					st2.frames[fr].env[in] = TupleV(res)
					ex.run(st2, fr, blk, i+1, p, k)
				})
				return
			default:
				ex.instr(st, fr, in)
				if st.dead {
					return
				}
			}
		}
		if next == nil {
			return
		}
		prev, b, idx = b, next, 0
	}
}

func (ex *Exec) allowPanic(st *state, fr int) bool {
	return ex.con != nil && ex.con.mayPanic
}

// loop cut points ------------------------------------------------------------

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}

func (ex *Exec) loopEnter(st *state, fr int, l *loopInfo, prev *ssa.BasicBlock, k cont) {
	spec := ex.loopSpec(st, fr, l)
	b := l.header
	pi := predIndex(b, prev)
	phis := phisOf(b)
	inits := make([]Val, len(phis))
	for i, p := range phis {
		inits[i] = ex.val(st, fr, p.Edges[pi])
	}
	lc := &loopCtx{frame: fr, header: b, loop: l, spec: spec, k: ex.c.Int(0)}
	lc.entry = st.clone()
	// establish
	for i, p := range phis {
		st.frames[fr].env[p] = inits[i]
	}
	if spec != nil {
		est := st.clone()
		for i, inv := range spec.inv {
			ex.oblige(est, "invariant-init", fmt.Sprintf("loop %d invariant %d holds on entry: %s", l.ord, i+1, inv.src), b.Instrs[0].Pos(), ex.evalInv(est, fr, lc, inv))
		}
	}
	// discover what the loop modifies
	writes := map[writeKey]*T{}
	start := ex.c.nsym
	havoc := func(st *state) *loopCtx {
		st.frames = append([]*frame{}, st.frames...)
		n := &loopCtx{frame: fr, header: b, loop: l, spec: spec, entry: lc.entry}
		ex.havocWrites(st, writes)
		n.k = ex.c.Fresh("k", "Int")
		ex.assume(st, ex.c.Le(ex.c.Int(0), n.k))
		if it := ex.tableLoop(st, fr, b); it != nil {
			ex.heapStore(st, "It$pos", it[0].(*T), n.k)
		}
		for i, p := range phis {
			if step, ok := phiStep(p, l); ok {
				// v = init + step*k
				init := ex.term(st, inits[i])
				st.frames[fr].env[p] = ex.c.Add(init, ex.c.Mul(ex.c.Int(step), n.k))
				continue
			}
			if same := phiInvariant(p, l, prev); same {
				st.frames[fr].env[p] = inits[i]
				continue
			}
			st.frames[fr].env[p] = ex.freshVal(st, p.Comment+"_"+p.Name(), p.Type())
			if sv, ok := st.frames[fr].env[p].(*SliceV); ok {
				_ = sv
			}
		}
		for _, p := range phis {
			if ln, idx := rangeBound(p, l); ln != nil {
				lv := ex.term(st, ex.val(st, fr, ln))
				_ = idx
				pv := ex.term(st, st.frames[fr].env[p])
				ex.assume(st, ex.c.Lt(pv, ex.c.Ite(ex.c.Lt(lv, ex.c.Int(0)), ex.c.Int(0), lv)))
			}
		}
		return n
	}
	for iter := 0; ; iter++ {
		if iter > 12 {
			ex.fail("loop write set does not stabilise")
		}
		d := &dryRun{frame: fr, loop: l, writes: map[writeKey]*T{}, start: start, alloc0: ex.nalloc, nback0: ex.nback}
		ds := st.clone()
		ex.dry = append(ex.dry, d)
		nlc := havoc(ds)
		ds.loops = append(ds.loops, nlc)
		if spec != nil {
			for _, inv := range spec.inv {
				ex.assume(ds, ex.evalInv(ds, fr, nlc, inv))
			}
		}
		if !ds.dead {
			ex.run(ds, fr, b, len(phis), nil, func(*state, []Val) {})
		}
		ex.dry = ex.dry[:len(ex.dry)-1]
		changed := false
		for wk, base := range d.writes {
			if _, ok := writes[wk]; !ok {
				if _, all := writes[writeKey{wk.key, -1}]; all {
					continue
				}
				writes[wk] = base
				changed = true
				if os.Getenv("GOCV_DBG") != "" {
					fmt.Println("write", iter, wk)
				}
			}
		}
		if !changed {
			break
		}
	}
	// the writes of this loop are writes of any enclosing loop
	ex.propagate(writes)
	st.loops = append([]*loopCtx{}, st.loops...)
	nlc := havoc(st)
	if spec != nil {
		for _, inv := range spec.inv {
			ex.assume(st, ex.evalInv(st, fr, nlc, inv))
		}
		for _, u := range spec.use {
			ex.assume(st, ex.evalInv(st, fr, nlc, u))
		}
		if spec.dec != nil {
			nlc.dec = ex.evalInv(st, fr, nlc, spec.dec)
		}
	}
	st.loops = append(st.loops, nlc)
	ex.run(st, fr, b, len(phis), nil, k)
}

// propagate notes the writes of a finished region as writes of the enclosing ones.
func (ex *Exec) propagate(writes map[writeKey]*T) {
	for _, d := range ex.dry {
		for wk, base := range writes {
			if strings.HasPrefix(wk.key, "back$") {
				var id int
				fmt.Sscanf(wk.key, "back$%d", &id)
				if id <= d.nback0 {
					d.writes[wk] = base
				}
				continue
			}
			if wk.base == -1 {
				d.writes[wk] = base
			} else {
				ex.noteWriteTo(d, wk.key, base)
			}
		}
	}
}

// havocWrites forgets the contents of the locations.
func (ex *Exec) havocWrites(st *state, writes map[writeKey]*T) {
	for wk, base := range writes {
		if strings.HasPrefix(wk.key, "back$") {
			var id int
			fmt.Sscanf(wk.key, "back$%d", &id)
			ob := st.backs[id]
			if ob == nil {
				continue
			}
			nb := *ob
			bt := ex.backTerm(st, ob)
			nb.term = ex.c.Fresh("back", bt.sort)
			nb.elems = nil
			ex.assume(st, ex.c.Eq(ex.c.Len(nb.term), ex.c.Len(bt)))
			st.backs[id] = &nb
			continue
		}
		h := st.heap[wk.key]
		if h == nil {
			h = ex.heapArrBySort(wk.key)
		}
		if h == nil {
			continue
		}
		if wk.base == -1 {
			st.heap[wk.key] = ex.c.Fresh("H$"+wk.key, h.sort)
		} else {
			v := ex.c.Fresh("h$"+wk.key, arrElem(h.sort))
			if arrElem(h.sort) == "Int" && ex.heapTyp[wk.key] != nil {
				ex.wellTyped(st, v, ex.heapTyp[wk.key])
			}
			st.heap[wk.key] = ex.c.Store(h, base, v)
		}
	}
}

func (ex *Exec) noteWriteTo(d *dryRun, key string, base *T) {
	if n, ok := base.intv(); ok && n < 0 && -n > d.alloc0 {
		return
	}
	if base.maxsym > d.start {
		d.writes[writeKey{key, -1}] = ex.c.Int(0)
		return
	}
	d.writes[writeKey{key, base.id}] = base
}

func (ex *Exec) loopBack(st *state, fr int, l *loopInfo, prev *ssa.BasicBlock) {
	lc := st.loops[len(st.loops)-1]
	b := l.header
	pi := predIndex(b, prev)
	phis := phisOf(b)
	vals := make([]Val, len(phis))
	for i, p := range phis {
		vals[i] = ex.val(st, fr, p.Edges[pi])
	}
	old := lc.k
	nlc := *lc
	nlc.k = ex.c.Add(old, ex.c.Int(1))
	for i, p := range phis {
		st.frames[fr].env[p] = vals[i]
	}
	if lc.spec == nil {
		return
	}
	for _, u := range lc.spec.use {
		ex.assume(st, ex.evalInv(st, fr, &nlc, u))
	}
	for i, inv := range lc.spec.inv {
		ex.oblige(st, "invariant-step", fmt.Sprintf("loop %d invariant %d is preserved: %s", l.ord, i+1, inv.src), b.Instrs[0].Pos(), ex.evalInv(st, fr, &nlc, inv))
	}
	if lc.spec.dec != nil && lc.dec != nil {
		nd := ex.evalInv(st, fr, &nlc, lc.spec.dec)
		ex.oblige(st, "decreases", fmt.Sprintf("loop %d measure decreases: %s", l.ord, lc.spec.dec.src), b.Instrs[0].Pos(),
			ex.c.And(ex.c.Le(ex.c.Int(0), lc.dec), ex.c.Lt(nd, lc.dec)))
	}
}

// phiStep recognises v = phi(init, v+c).
func phiStep(p *ssa.Phi, l *loopInfo) (int64, bool) {
	b, ok := p.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	var step int64
	found := false
	for i, e := range p.Edges {
		if !l.blocks[p.Block().Preds[i]] {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD && bo.Op != token.SUB {
			return 0, false
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || bo.X != ssa.Value(p) || c.Value == nil {
			return 0, false
		}
		n, ok := constant.Int64Val(c.Value)
		if !ok {
			return 0, false
		}
		if bo.Op == token.SUB {
			n = -n
		}
		if found && n != step {
			return 0, false
		}
		step, found = n, true
	}
	return step, found
}

func phiInvariant(p *ssa.Phi, l *loopInfo, prev *ssa.BasicBlock) bool {
	for i, e := range p.Edges {
		if l.blocks[p.Block().Preds[i]] && e != ssa.Value(p) {
			return false
		}
	}
	return true
}

// rangeBound recognises the index of a range loop and its bound: the phi starts
// at -1 and the header computes phi+1 < n.
func rangeBound(p *ssa.Phi, l *loopInfo) (ssa.Value, *ssa.BinOp) {
	if p.Comment != "rangeindex" {
		return nil, nil
	}
	var idx *ssa.BinOp
	for _, in := range p.Block().Instrs {
		if bo, ok := in.(*ssa.BinOp); ok {
			if bo.Op == token.ADD && bo.X == ssa.Value(p) {
				idx = bo
			}
			if bo.Op == token.LSS && idx != nil && bo.X == ssa.Value(idx) {
				return bo.Y, idx
			}
		}
	}
	return nil, nil
}

// unrollable reports loops without a contract over a short concrete range.
func (ex *Exec) unrollable(st *state, fr int, l *loopInfo, b *ssa.BasicBlock) bool {
	if ex.loopSpec(st, fr, l) != nil {
		return false
	}
	for _, p := range phisOf(b) {
		if ln, _ := rangeBound(p, l); ln != nil {
			v, ok := st.frames[fr].env[ln]
			if !ok {
				if k, isc := ln.(*ssa.Const); isc {
					v = ex.constVal(st, k)
				} else {
					return false
				}
			}
			t, ok := v.(*T)
			if !ok {
				return false
			}
			n, ok := t.intv()
			return ok && n <= 24
		}
	}
	for _, p := range phisOf(b) {
		if _, ok := phiStep(p, l); !ok {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.X != ssa.Value(p) || (bo.Op != token.LSS && bo.Op != token.LEQ) {
			continue
		}
		k, ok := bo.Y.(*ssa.Const)
		if !ok || k.Value == nil {
			continue
		}
		hi, ok1 := constant.Int64Val(k.Value)
		lowOK := false
		for i, e := range p.Edges {
			if l.blocks[b.Preds[i]] {
				continue
			}
			if ec, ok := e.(*ssa.Const); ok && ec.Value != nil {
				lo, ok2 := constant.Int64Val(ec.Value)
				lowOK = ok2 && hi-lo <= 64
			}
		}
		if ok1 && lowOK {
			return true
		}
	}
	return false
}

// instructions ---------------------------------------------------------------

func (ex *Exec) set(st *state, fr int, v ssa.Value, x Val) { st.frames[fr].env[v] = x }

func (ex *Exec) instr(st *state, fr int, in ssa.Instruction) {
	c := ex.c
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		elem := in.Type().(*types.Pointer).Elem()
		if at, ok := elem.Underlying().(*types.Array); ok {
			ex.nback++
			nb := &Back{elem: at.Elem(), owned: true, origin: "array"}
			if at.Len() <= 256 {
				z := ex.zero(at.Elem())
				nb.elems = []Val{}
				for i := int64(0); i < at.Len(); i++ {
					nb.elems = append(nb.elems, ex.fromTermZero(z, at.Elem()))
				}
			} else {
				nb.term = ex.zero(elem)
			}
			st.backs[ex.nback] = nb
			ex.set(st, fr, in, &AddrV{back: ex.nback, typ: elem, key: "$array", base: c.Int(at.Len())})
			return
		}
		r := ex.newRef()
		if _, ok := elem.Underlying().(*types.Struct); ok && isRepoType(ex.p.dts, elem) {
			ex.initStruct(st, &AddrV{key: structKey(elem), base: r, typ: elem})
		} else {
			key := "C$" + typeName(elem) + "$" + sanitize(ex.sort(elem))
			st.heap[key] = c.Store(ex.heapArr(st, key, ex.sort(elem)), r, ex.zero(elem))
		}
		ex.set(st, fr, in, r)
	case *ssa.FieldAddr:
		pt := in.X.Type().Underlying().(*types.Pointer).Elem()
		a := ex.addrOf(st, ex.val(st, fr, in.X), pt, in.Pos())
		if a.typ == nil || !types.Identical(a.typ.Underlying(), pt.Underlying()) {
			ex.fail("field address through %s as %s", a.typ, pt)
		}
		ex.set(st, fr, in, ex.fieldAddr(a, in.Field))
	case *ssa.Field:
		x := ex.term(st, ex.val(st, fr, in.X))
		if !isRepoType(ex.p.dts, in.X.Type()) {
			f := in.X.Type().Underlying().(*types.Struct).Field(in.Field)
			ex.set(st, fr, in, ex.fromTerm(st, c.App("xf$"+typeName(in.X.Type())+"."+f.Name(), ex.sort(f.Type()), x), f.Type()))
			return
		}
		dt := ex.p.dts.structDT(in.X.Type())
		t := c.Sel(dt, in.Field, x)
		ex.wellTyped(st, t, in.Type())
		ex.set(st, fr, in, ex.fromTerm(st, t, in.Type()))
	case *ssa.UnOp:
		ex.unop(st, fr, in)
	case *ssa.BinOp:
		ex.set(st, fr, in, ex.binop(st, in.Op, in.X.Type(), ex.val(st, fr, in.X), ex.val(st, fr, in.Y), in.Pos(), in.Y.Type()))
	case *ssa.Store:
		pt := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		a := ex.addrOf(st, ex.val(st, fr, in.Addr), pt, in.Pos())
		v := ex.val(st, fr, in.Val)
		if a.key == "$array" {
			nb := &Back{elem: a.typ.Underlying().(*types.Array).Elem(), owned: true, origin: "array", term: ex.term(st, v)}
			st.backs[a.back] = nb
			return
		}
		ex.store(st, a, v)
	case *ssa.ChangeType:
		v := ex.val(st, fr, in.X)
		if s, ok := v.(*SliceV); ok {
			if isSortSlice(in.Type()) {
				s = ex.ownBack(st, s)
			}
			n := *s
			n.typ = in.Type()
			v = &n
		}
		if sx, ok := in.X.Type().Underlying().(*types.Struct); ok && sx != nil && isRepoType(ex.p.dts, in.X.Type()) {
			// conversion between struct types with identical fields
			d1, d2 := ex.p.dts.structDT(in.X.Type()), ex.p.dts.structDT(in.Type())
			t := ex.term(st, v)
			var as []*T
			for i := range d2.fields {
				as = append(as, c.Sel(d1, i, t))
			}
			v = c.Mk(d2, as...)
		}
		ex.set(st, fr, in, v)
	case *ssa.ChangeInterface:
		ex.set(st, fr, in, ex.val(st, fr, in.X))
	case *ssa.Convert:
		ex.set(st, fr, in, ex.convert(st, in, ex.val(st, fr, in.X)))
	case *ssa.MakeInterface:
		ex.set(st, fr, in, ex.makeIface(st, in.X.Type(), ex.val(st, fr, in.X)))
	case *ssa.TypeAssert:
		ex.typeAssert(st, fr, in)
	case *ssa.Extract:
		t := ex.val(st, fr, in.Tuple)
		tv, ok := t.(TupleV)
		if !ok {
			ex.fail("extract from %T", t)
		}
		ex.set(st, fr, in, tv[in.Index])
	case *ssa.MakeSlice:
		n := ex.term(st, ex.val(st, fr, in.Len))
		ex.oblige(st, "makeslice", "make length is not negative", in.Pos(), c.Le(c.Int(0), n))
		if ex.con != nil && ex.con.allocBound != nil {
			ex.oblige(st, "alloc-bound", "allocation is bounded by the input: "+ex.con.allocBound.src, in.Pos(), c.Le(n, ex.term(st, ex.evalTop(st, ex.con.allocBound).v)))
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		ex.nback++
		nb := &Back{elem: el, owned: true, origin: "make"}
		z := ex.zero(el)
		if m, ok := n.intv(); ok && m <= 64 {
			nb.elems = []Val{}
			for i := int64(0); i < m; i++ {
				nb.elems = append(nb.elems, ex.fromTermZero(z, el))
			}
		} else {
			srt := ex.sort(in.Type())
			name := "zeros$" + sanitize(srt)
			if f, ok := ex.spec.fns["zeros_"+typeName(el)]; ok && f.kind == "rec" {
				name = "rec$zeros_" + typeName(el)
			}
			nb.term = c.App(name, srt, n)
			ex.assume(st, c.Eq(c.Len(nb.term), n))
		}
		st.backs[ex.nback] = nb
		ex.set(st, fr, in, &SliceV{typ: in.Type(), back: ex.nback, off: c.Int(0), ln: n, nilT: c.False()})
	case *ssa.Slice:
		ex.slice(st, fr, in)
	case *ssa.IndexAddr:
		x := ex.val(st, fr, in.X)
		i := ex.term(st, ex.val(st, fr, in.Index))
		switch x := x.(type) {
		case *SliceV:
			ex.oblige(st, "index", "index in range", in.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, x.ln)))
			el := x.typ.Underlying().(*types.Slice).Elem()
			if x.back != 0 {
				ex.set(st, fr, in, &AddrV{back: x.back, idx: c.Add(x.off, i), isEl: true, typ: el, base: c.Int(0)})
			} else {
				// element of an immutable slice value: make a read-only backing store
				ex.nback++
				st.backs[ex.nback] = &Back{term: x.term, elem: el, origin: "shared"}
				ex.set(st, fr, in, &AddrV{back: ex.nback, idx: i, isEl: true, typ: el, base: c.Int(0)})
			}
		case *AddrV:
			if x.key != "$array" {
				ex.fail("index into array field")
			}
			ex.oblige(st, "index", "index in range", in.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, x.base)))
			ex.set(st, fr, in, &AddrV{back: x.back, idx: i, isEl: true, typ: x.typ.Underlying().(*types.Array).Elem(), base: c.Int(0)})
		default:
			ex.fail("IndexAddr of %T", x)
		}
	case *ssa.Index:
		x := ex.term(st, ex.val(st, fr, in.X))
		i := ex.term(st, ex.val(st, fr, in.Index))
		ex.oblige(st, "index", "index in range", in.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Len(x))))
		t := c.Nth(x, i)
		ex.wellTyped(st, t, in.Type())
		ex.set(st, fr, in, ex.fromTerm(st, t, in.Type()))
	case *ssa.Lookup:
		ex.lookup(st, fr, in)
	case *ssa.MakeMap:
		r := ex.newRef()
		mt := in.Type().Underlying().(*types.Map)
		vk, hk := ex.mapKeys(mt)
		hs := arrSort(ex.sort(mt.Key()), "Bool")
		st.heap[hk] = c.Store(ex.heapArr(st, hk, hs), r, c.mk("constarr", "", hs, c.False()))
		_ = vk
		ex.set(st, fr, in, r)
	case *ssa.MapUpdate:
		m := ex.term(st, ex.val(st, fr, in.Map))
		mt := in.Map.Type().Underlying().(*types.Map)
		ex.oblige(st, "nil-map", "assignment to a non-nil map", in.Pos(), c.Not(c.Eq(m, c.Int(0))))
		key := ex.term(st, ex.val(st, fr, in.Key))
		v := ex.term(st, ex.val(st, fr, in.Value))
		ex.mapStore(st, mt, m, key, v)
	case *ssa.MakeChan:
		r := ex.newRef()
		ct := in.Type().Underlying().(*types.Chan)
		kb, kc, kcap := ex.chanKeys(ct)
		ss := seqSort(ex.sort(ct.Elem()))
		st.heap[kb] = c.Store(ex.heapArr(st, kb, ss), r, c.Empty(ss))
		st.heap[kc] = c.Store(ex.heapArr(st, kc, "Bool"), r, c.False())
		st.heap[kcap] = c.Store(ex.heapArr(st, kcap, "Int"), r, ex.term(st, ex.val(st, fr, in.Size)))
		ex.set(st, fr, in, r)
	case *ssa.Send:
		ch := ex.term(st, ex.val(st, fr, in.Chan))
		ct := in.Chan.Type().Underlying().(*types.Chan)
		kb, kc, kcap := ex.chanKeys(ct)
		ss := seqSort(ex.sort(ct.Elem()))
		buf := ex.heapLoad(st, kb, ch, ss)
		ex.oblige(st, "chan", "send does not block", in.Pos(), c.Lt(c.Len(buf), ex.heapLoad(st, kcap, ch, "Int")))
		ex.oblige(st, "chan", "send on an open channel", in.Pos(), c.And(c.Not(c.Eq(ch, c.Int(0))), c.Not(ex.heapLoad(st, kc, ch, "Bool"))))
		ex.frameCheck(st, kb, ch)
		ex.heapStore(st, kb, ch, c.Concat(buf, c.Unit(ex.term(st, ex.val(st, fr, in.X)))))
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, ex.val(st, fr, b))
		}
		ex.set(st, fr, in, &CloV{fn: in.Fn.(*ssa.Function), bind: bs})
	case *ssa.Defer:
		fv, args := ex.callArgs(st, fr, in.Common())
		st.frames[fr].defers = append(append([]*deferred{}, st.frames[fr].defers...), &deferred{in.Common(), fv, args})
	case *ssa.Range:
		r := ex.newRef()
		key := "It$pos"
		st.heap[key] = c.Store(ex.heapArr(st, key, "Int"), r, c.Int(0))
		it := TupleV{r, ex.val(st, fr, in.X)}
		if m, ok := it[1].(*T); ok && ex.tableOf(m) != nil {
			it = append(it, ex.tableOrder(st, ex.tableOf(m)))
		}
		ex.set(st, fr, in, it)
	default:
		ex.fail("instruction %T in %s", in, in.Parent())
	}
}

func (ex *Exec) fromTermZero(z *T, typ types.Type) Val {
	if isSlice(typ) {
		return &SliceV{typ: typ, term: z, off: ex.c.Int(0), ln: ex.c.Int(0), nilT: ex.c.True()}
	}
	return z
}

func (ex *Exec) initStruct(st *state, a *AddrV) {
	s := a.typ.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := ex.fieldAddr(a, i)
		if _, ok := f.typ.Underlying().(*types.Struct); ok && isRepoType(ex.p.dts, f.typ) {
			ex.initStruct(st, f)
			continue
		}
		z := ex.zero(f.typ)
		st.heap[f.key] = ex.c.Store(ex.heapArr(st, f.key, z.sort), f.base, z)
	}
}

func (ex *Exec) mapKeys(mt *types.Map) (string, string) {
	n := sanitize(ex.sort(mt.Key())) + "$" + typeName(mt.Elem())
	return "Mv$" + n, "Mh$" + n
}

func (ex *Exec) mapStore(st *state, mt *types.Map, m, key, v *T) {
	c := ex.c
	vk, hk := ex.mapKeys(mt)
	vs, hs := arrSort(ex.sort(mt.Key()), ex.sort(mt.Elem())), arrSort(ex.sort(mt.Key()), "Bool")
	ex.frameCheck(st, vk, m)
	ex.heapStore(st, vk, m, c.mk("store", "", vs, ex.heapLoad(st, vk, m, vs), key, v))
	ex.heapStore(st, hk, m, c.mk("store", "", hs, ex.heapLoad(st, hk, m, hs), key, c.True()))
}

func (ex *Exec) mapGet(st *state, mt *types.Map, m, key *T) (*T, *T) {
	c := ex.c
	if t := ex.tableOf(m); t != nil {
		return ex.tableGet(st, t, key)
	}
	vk, hk := ex.mapKeys(mt)
	vs, hs := arrSort(ex.sort(mt.Key()), ex.sort(mt.Elem())), arrSort(ex.sort(mt.Key()), "Bool")
	has := c.And(c.Not(c.Eq(m, c.Int(0))), ex.selK(ex.heapLoad(st, hk, m, hs), key))
	v := ex.selK(ex.heapLoad(st, vk, m, vs), key)
	return v, has
}

// selK selects from a map content array, resolving literal keys.
func (ex *Exec) selK(a, k *T) *T {
	for a.op == "store" {
		e := ex.c.Eq(a.args[1], k)
		if isTrue(e) {
			return a.args[2]
		}
		if isFalse(e) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return ex.c.mk("select", "", arrElem(a.sort), a, k)
}

func (ex *Exec) chanKeys(ct *types.Chan) (string, string, string) {
	n := typeName(ct.Elem())
	return "Ch$" + n + ".buf", "Ch$" + n + ".closed", "Ch$" + n + ".cap"
}

func (ex *Exec) lookup(st *state, fr int, in *ssa.Lookup) {
	c := ex.c
	x := ex.val(st, fr, in.X)
	i := ex.term(st, ex.val(st, fr, in.Index))
	if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
		m := ex.term(st, x)
		v, has := ex.mapGet(st, mt, m, i)
		has = ex.simp(st, has)
		r := c.Ite(has, v, ex.zero(mt.Elem()))
		ex.wellTyped(st, v, mt.Elem())
		rv := ex.fromTerm(st, r, mt.Elem())
		if in.CommaOk {
			ex.set(st, fr, in, TupleV{rv, has})
		} else {
			ex.set(st, fr, in, rv)
		}
		return
	}
	s := ex.term(st, x)
	ex.oblige(st, "index", "index in range", in.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Len(s))))
	t := c.Nth(s, i)
	ex.wellTyped(st, t, in.Type())
	ex.set(st, fr, in, t)
}

func (ex *Exec) unop(st *state, fr int, in *ssa.UnOp) {
	c := ex.c
	x := ex.val(st, fr, in.X)
	switch in.Op {
	case token.MUL:
		pt := in.X.Type().Underlying().(*types.Pointer).Elem()
		a := ex.addrOf(st, x, pt, in.Pos())
		if a.key == "$array" {
			ex.set(st, fr, in, ex.backTerm(st, st.backs[a.back]))
			return
		}
		v := ex.load(st, a, in.Pos())
		ex.set(st, fr, in, v)
	case token.NOT:
		ex.set(st, fr, in, c.Not(ex.term(st, x)))
	case token.SUB:
		t := ex.term(st, x)
		if t.sort == "F64" {
			ex.set(st, fr, in, ex.f64neg(t))
		} else {
			ex.set(st, fr, in, ex.wrap(c.Neg(t), in.Type()))
		}
	case token.ARROW:
		ch := ex.term(st, x)
		ct := in.X.Type().Underlying().(*types.Chan)
		kb, kc, _ := ex.chanKeys(ct)
		ss := seqSort(ex.sort(ct.Elem()))
		buf := ex.heapLoad(st, kb, ch, ss)
		_ = kc
		ex.oblige(st, "chan", "receive does not block", in.Pos(), c.Lt(c.Int(0), c.Len(buf)))
		v := c.Nth(buf, c.Int(0))
		ex.heapStore(st, kb, ch, c.Extract(buf, c.Int(1), c.Sub(c.Len(buf), c.Int(1))))
		if in.CommaOk {
			ex.set(st, fr, in, TupleV{v, c.True()})
		} else {
			ex.set(st, fr, in, v)
		}
	case token.XOR:
		t := ex.term(st, x)
		ex.set(st, fr, in, ex.wrap(c.Sub(c.Int(-1), t), in.Type()))
	default:
		ex.fail("unop %s", in.Op)
	}
}

func (ex *Exec) f64neg(t *T) *T {
	if t.op == "app" && t.lit == "f64.neg" {
		return t.args[0]
	}
	return ex.c.App("f64.neg", "F64", t)
}

// wrap reduces an arithmetic result to an unsigned or small type.
func (ex *Exec) wrap(t *T, typ types.Type) *T {
	b, ok := typ.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	switch b.Kind() {
	case types.Uint8, types.Uint16, types.Uint32:
		m := map[types.BasicKind]int64{types.Uint8: 256, types.Uint16: 65536, types.Uint32: 1 << 32}[b.Kind()]
		if n, ok := t.intv(); ok {
			return ex.c.Int(((n % m) + m) % m)
		}
		return ex.c.Mod(t, ex.c.Int(m))
	}
	return t
}

func (ex *Exec) isNil(st *state, v Val) *T {
	c := ex.c
	switch v := v.(type) {
	case *SliceV:
		if v.nilT != nil {
			return v.nilT
		}
		if n, ok := v.ln.intv(); ok && n > 0 {
			return c.False()
		}
		b := c.Fresh("isnil", "Bool")
		ex.assume(st, c.Imp(b, c.Eq(v.ln, c.Int(0))))
		v.nilT = b
		return b
	case *CloV, *AddrV:
		return c.False()
	case *T:
		if v.sort == "Iface" {
			return c.Eq(c.Sel(ex.p.dts.iface, 0, v), c.Int(0))
		}
		return c.Eq(v, c.Int(0))
	}
	ex.fail("nil test of %T", v)
	return nil
}

func isNilConst(t types.Type, v Val) bool {
	switch v := v.(type) {
	case *SliceV:
		return v.nilT != nil && isTrue(v.nilT)
	case *T:
		if v.op == "mk:Iface" && v.args[0].lit == "0" && v.args[0].op == "int" {
			return true
		}
		if v.op == "int" && v.lit == "0" {
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
				return true
			}
		}
	}
	return false
}

func (ex *Exec) binop(st *state, op token.Token, xt types.Type, x, y Val, pos token.Pos, yt types.Type) *T {
	c := ex.c
	if op == token.EQL || op == token.NEQ {
		var r *T
		switch {
		case isNilConst(yt, y):
			r = ex.isNil(st, x)
		case isNilConst(xt, x):
			r = ex.isNil(st, y)
		default:
			a, b := ex.term(st, x), ex.term(st, y)
			if a.sort != b.sort {
				if a.sort == "Iface" && b.sort != "Iface" {
					b = ex.makeIface(st, yt, y)
				} else if b.sort == "Iface" {
					a = ex.makeIface(st, xt, x)
				}
			}
			if a.sort == "F64" {
				r = c.App("f64.eq", "Bool", a, b)
				ex.assume(st, c.Imp(r, c.Or(c.Eq(a, b), c.App("f64.iszero", "Bool", a))))
			} else {
				r = c.Eq(a, b)
			}
		}
		if op == token.NEQ {
			return c.Not(r)
		}
		return r
	}
	a, b := ex.term(st, x), ex.term(st, y)
	if a.sort == "F64" {
		switch op {
		case token.LSS:
			return c.App("f64.lt", "Bool", a, b)
		case token.GTR:
			return c.App("f64.lt", "Bool", b, a)
		case token.LEQ:
			return c.App("f64.le", "Bool", a, b)
		case token.GEQ:
			return c.App("f64.le", "Bool", b, a)
		case token.ADD:
			return c.App("f64.add", "F64", a, b)
		case token.SUB:
			return c.App("f64.sub", "F64", a, b)
		case token.MUL:
			return c.App("f64.mul", "F64", a, b)
		case token.QUO:
			return c.App("f64.div", "F64", a, b)
		}
		ex.fail("float op %s", op)
	}
	if a.sort == "String" {
		switch op {
		case token.ADD:
			return c.Concat(a, b)
		case token.LSS:
			return c.StrOp("str.<", "Bool", a, b)
		case token.GTR:
			return c.StrOp("str.<", "Bool", b, a)
		case token.LEQ:
			return c.StrOp("str.<=", "Bool", a, b)
		case token.GEQ:
			return c.StrOp("str.<=", "Bool", b, a)
		}
	}
	var r *T
	switch op {
	case token.ADD:
		r = c.Add(a, b)
	case token.SUB:
		r = c.Sub(a, b)
	case token.MUL:
		r = c.Mul(a, b)
	case token.QUO:
		ex.oblige(st, "div", "divisor is not zero", pos, c.Not(c.Eq(b, c.Int(0))))
		r = c.Quo(a, b)
	case token.REM:
		ex.oblige(st, "div", "divisor is not zero", pos, c.Not(c.Eq(b, c.Int(0))))
		r = c.Rem(a, b)
	case token.LSS:
		return c.Lt(a, b)
	case token.LEQ:
		return c.Le(a, b)
	case token.GTR:
		return c.Lt(b, a)
	case token.GEQ:
		return c.Le(b, a)
	case token.SHL:
		if n, ok := b.intv(); ok && n < 40 {
			r = c.Mul(a, c.Int(1<<uint(n)))
		}
	case token.SHR:
		if n, ok := b.intv(); ok && n < 40 {
			r = c.Div(a, c.Int(1<<uint(n)))
		}
	case token.AND:
		r = c.App("bit.and", "Int", a, b)
	case token.OR:
		r = c.App("bit.or", "Int", a, b)
	case token.XOR:
		r = c.App("bit.xor", "Int", a, b)
	case token.LAND:
		return c.And(a, b)
	case token.LOR:
		return c.Or(a, b)
	}
	if r == nil {
		ex.fail("binop %s", op)
	}
	if (op == token.ADD || op == token.SUB || op == token.MUL) && ex.con != nil && ex.con.overflow {
		if bt, ok := xt.Underlying().(*types.Basic); ok && (bt.Kind() == types.Int || bt.Kind() == types.Int64) {
			lo, hi, _ := intRange(bt)
			ex.oblige(st, "overflow", "no integer overflow in "+op.String(), pos, c.And(c.Le(c.IntS(lo), r), c.Le(r, c.IntS(hi))))
		}
	}
	return ex.wrap(r, xt)
}

func (ex *Exec) convert(st *state, in *ssa.Convert, v Val) Val {
	c := ex.c
	from, to := in.X.Type(), in.Type()
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case isByteSlice(from) && tb != nil && tb.Info()&types.IsString != 0:
		return ex.term(st, v)
	case fb != nil && fb.Info()&types.IsString != 0 && isByteSlice(to):
		t := ex.term(st, v)
		// a fresh copy: owned, mutable
		ex.nback++
		st.backs[ex.nback] = &Back{term: t, elem: types.Typ[types.Byte], owned: true, origin: "conversion"}
		return &SliceV{typ: to, back: ex.nback, off: c.Int(0), ln: c.Len(t), nilT: c.False()}
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		t := ex.term(st, v)
		if fb.Kind() == types.Uint8 || true {
			u := c.App("utf8.enc", "String", t)
			return c.Ite(c.And(c.Le(c.Int(0), t), c.Lt(t, c.Int(128))), c.FromCode(t), u)
		}
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		t := ex.term(st, v)
		lo, hi, _ := intRange(tb)
		flo, fhi, _ := intRange(fb)
		if tb.Kind() == types.Int || tb.Kind() == types.Int64 {
			if fb.Kind() == types.Uint64 || fb.Kind() == types.Uint {
				ex.oblige(st, "conversion", "integer conversion keeps the value", in.Pos(), c.Le(t, c.IntS(hi)))
			}
			return t
		}
		_ = flo
		_ = fhi
		_ = lo
		switch tb.Kind() {
		case types.Uint8, types.Uint16, types.Uint32:
			if fb.Kind() == types.Uint8 {
				return t
			}
			return c.Ite(c.And(c.Le(c.Int(0), t), c.Le(t, c.IntS(hi))), t, ex.wrap(t, to))
		}
		if fb.Kind() == types.Uint8 || fb.Kind() == types.Uint16 {
			return t
		}
		// assume in range otherwise
		ex.oblige(st, "conversion", "integer conversion keeps the value", in.Pos(), c.And(c.Le(c.IntS(lo), t), c.Le(t, c.IntS(hi))))
		return t
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		return c.App("f64.ofint", "F64", ex.term(st, v))
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		return v
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		t := ex.term(st, v)
		if t.op == "app" && t.lit == "f64.ofint" {
			// integers up to 2^53 are floats exactly
			lim := c.Int(1 << 53)
			return c.Ite(c.And(c.Le(c.Neg(lim), t.args[0]), c.Le(t.args[0], lim)), t.args[0], c.App("f64.toint", "Int", t))
		}
		return c.App("f64.toint", "Int", t)
	case fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case fb != nil && fb.Info()&types.IsString != 0 && isSlice(to):
		t := c.App("runes.of", ex.sort(to), ex.term(st, v))
		return &SliceV{typ: to, term: t, off: c.Int(0), ln: c.Len(t), nilT: c.False()}
	case isSlice(from) && tb != nil && tb.Info()&types.IsString != 0:
		return c.App("string.ofrunes", "String", ex.term(st, v))
	}
	ex.fail("conversion %s -> %s", from, to)
	return nil
}

// interfaces ---------------------------------------------------------------

func (ex *Exec) box(t *T) *T {
	if t.sort == "Int" {
		return t
	}
	return ex.c.App("box$"+sanitize(t.sort), "Int", t)
}
func (ex *Exec) unbox(t *T, srt string) *T {
	if srt == "Int" {
		return t
	}
	if t.op == "app" && t.lit == "box$"+sanitize(srt) {
		return t.args[0]
	}
	if t.op == "ite" {
		return ex.c.Ite(t.args[0], ex.unbox(t.args[1], srt), ex.unbox(t.args[2], srt))
	}
	return ex.c.App("unbox$"+sanitize(srt), srt, t)
}

func (ex *Exec) makeIface(st *state, typ types.Type, v Val) *T {
	c := ex.c
	if _, ok := typ.Underlying().(*types.Interface); ok {
		return ex.term(st, v)
	}
	tag := c.Int(int64(ex.p.dts.tagOf(typ)))
	if s, ok := v.(*SliceV); ok && s.back != 0 && isSortSlice(typ) {
		return ex.sortIface(st, tag, s, false)
	}
	return c.Mk(ex.p.dts.iface, tag, ex.box(ex.term(st, v)))
}

func (ex *Exec) ifTag(t *T) *T { return ex.c.Sel(ex.p.dts.iface, 0, t) }
func (ex *Exec) ifVal(t *T) *T { return ex.c.Sel(ex.p.dts.iface, 1, t) }

// implements says whether the dynamic type with that tag implements an interface.
func (ex *Exec) implements(st *state, tag *T, t types.Type) *T {
	c := ex.c
	it := t.Underlying().(*types.Interface)
	if n, k := tag.intv(); k {
		if n == 0 {
			return c.False()
		}
		return c.Bool(types.Implements(ex.p.dts.typeOfTag(int(n)), it))
	}
	// closed world over the repository's types; others unknown
	var any []*T
	for _, t := range ex.p.implementers(it) {
		any = append(any, c.Eq(tag, c.Int(int64(ex.p.dts.tagOf(t)))))
	}
	ok := c.App("implements$"+sanitize(t.String()), "Bool", tag)
	ex.assume(st, c.Imp(c.Or(any...), ok))
	ex.assume(st, c.Imp(ok, c.Not(c.Eq(tag, c.Int(0)))))
	return ok
}

func (ex *Exec) typeAssert(st *state, fr int, in *ssa.TypeAssert) {
	c := ex.c
	x := ex.term(st, ex.val(st, fr, in.X))
	tag := ex.ifTag(x)
	if o, ok := st.eqlit[tag.id]; ok {
		tag = o
	}
	var ok *T
	var v Val
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if n, k := tag.intv(); k {
			if n == 0 {
				ok = c.False()
			} else {
				ok = c.Bool(types.Implements(ex.p.dts.typeOfTag(int(n)), it))
			}
		} else {
			ok = ex.implements(st, tag, in.AssertedType)
			if types.Implements(in.X.Type(), it) {
				ok = c.Not(c.Eq(tag, c.Int(0)))
			}
		}
		v = c.Ite(ok, x, ex.zero(in.AssertedType))
	} else {
		ok = c.Eq(tag, c.Int(int64(ex.p.dts.tagOf(in.AssertedType))))
		ok = ex.simp(st, ok)
		t := ex.unbox(ex.ifVal(x), ex.sort(in.AssertedType))
		if in.CommaOk {
			t = c.Ite(ok, t, ex.zero(in.AssertedType))
		}
		ex.wellTyped(st, t, in.AssertedType)
		v = ex.fromTerm(st, t, in.AssertedType)
	}
	if in.CommaOk {
		ex.set(st, fr, in, TupleV{v, ok})
		return
	}
	ex.oblige(st, "type-assert", "type assertion to "+in.AssertedType.String()+" succeeds", in.Pos(), ok)
	ex.set(st, fr, in, v)
}

func (ex *Exec) slice(st *state, fr int, in *ssa.Slice) {
	c := ex.c
	x := ex.val(st, fr, in.X)
	get := func(v ssa.Value, d *T) *T {
		if v == nil {
			return d
		}
		return ex.term(st, ex.val(st, fr, v))
	}
	switch x := x.(type) {
	case *AddrV:
		if x.key != "$array" {
			ex.fail("slice of array field")
		}
		lo, hi := get(in.Low, c.Int(0)), get(in.High, x.base)
		ex.oblige(st, "slice", "slice bounds in range", in.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, x.base)))
		ex.set(st, fr, in, &SliceV{typ: in.Type(), back: x.back, off: lo, ln: c.Sub(hi, lo), nilT: c.False()})
	case *SliceV:
		lo, hi := get(in.Low, c.Int(0)), get(in.High, x.ln)
		// bounds against the length: slicing up to the capacity is reported
		ex.oblige(st, "slice", "slice bounds in range", in.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, x.ln)))
		n := c.Sub(hi, lo)
		nt := x.nilT
		if nt != nil && !isFalse(nt) {
			nt = nil
		}
		if x.back != 0 {
			ex.set(st, fr, in, &SliceV{typ: in.Type(), back: x.back, off: c.Add(x.off, lo), ln: n, nilT: nt})
		} else {
			t := c.Extract(x.term, lo, n)
			ex.lenFact(st, t, n)
			ex.set(st, fr, in, &SliceV{typ: in.Type(), term: t, off: c.Int(0), ln: n, nilT: nt, base: x.base})
		}
	case *T:
		n := c.Len(x)
		lo, hi := get(in.Low, c.Int(0)), get(in.High, n)
		ex.oblige(st, "slice", "slice bounds in range", in.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)))
		t := c.Extract(x, lo, c.Sub(hi, lo))
		ex.lenFact(st, t, c.Sub(hi, lo))
		ex.set(st, fr, in, t)
	default:
		ex.fail("slice of %T", x)
	}
}

func (ex *Exec) lenFact(st *state, t, n *T) {
	if t.op == "str.substr" || t.op == "seq.extract" {
		ex.assume(st, ex.c.Eq(ex.c.Len(t), n))
	}
}

// iteration -----------------------------------------------------------------

func (ex *Exec) doNext(st *state, fr int, in *ssa.Next, k cont) {
	c := ex.c
	it := ex.val(st, fr, in.Iter).(TupleV)
	r := it[0].(*T)
	pos := ex.heapLoad(st, "It$pos", r, "Int")
	if in.IsString {
		s := ex.term(st, it[1])
		// end
		st2 := st.clone()
		done := c.Le(c.Len(s), pos)
		ex.assume(st2, done)
		if !st2.dead {
			k(st2, []Val{c.False(), c.Int(0), c.Int(0)})
		}
		ex.assume(st, c.Not(done))
		ex.assume(st, c.Le(c.Int(0), pos))
		b := c.Nth(s, pos)
		ru := c.Ite(c.Lt(b, c.Int(128)), b, c.App("utf8.rune", "Int", s, pos))
		sz := c.Ite(c.Lt(b, c.Int(128)), c.Int(1), c.App("utf8.size", "Int", s, pos))
		ex.assume(st, c.And(c.Le(c.Int(0), b), c.Le(b, c.Int(255))))
		u := c.App("utf8.size", "Int", s, pos)
		ex.assume(st, c.And(c.Le(c.Int(1), u), c.Le(u, c.Int(4)), c.Le(c.Add(pos, u), c.Len(s))))
		rr := c.App("utf8.rune", "Int", s, pos)
		ex.assume(st, c.And(c.Le(c.Int(128), rr), c.Le(rr, c.Int(0x10ffff))))
		ex.heapStore(st, "It$pos", r, c.Add(pos, sz))
		k(st, []Val{c.True(), pos, ru})
		return
	}
	// map: an arbitrary present key
	mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	m := ex.term(st, it[1])
	st2 := st.clone()
	kz := ex.zero(mt.Key())
	if len(it) > 2 {
		ks := it[2].(*T)
		ex.assume(st2, c.Le(c.Len(ks), pos))
		if !st2.dead {
			k(st2, []Val{c.False(), kz, ex.fromTerm(st2, ex.zero(mt.Elem()), mt.Elem())})
		}
		ex.assume(st, c.Lt(pos, c.Len(ks)))
		key := c.Nth(ks, pos)
		v, has := ex.mapGet(st, mt, m, key)
		ex.assume(st, has)
		ex.heapStore(st, "It$pos", r, c.Add(pos, c.Int(1)))
		if !st.dead {
			k(st, []Val{c.True(), ex.fromTerm(st, key, mt.Key()), ex.fromTerm(st, v, mt.Elem())})
		}
		return
	}
	k(st2, []Val{c.False(), kz, ex.fromTerm(st2, ex.zero(mt.Elem()), mt.Elem())})
	key := ex.c.Fresh("mapkey", ex.sort(mt.Key()))
	ex.wellTyped(st, key, mt.Key())
	v, has := ex.mapGet(st, mt, m, key)
	ex.assume(st, has)
	ex.heapStore(st, "It$pos", r, c.Add(pos, c.Int(1)))
	if st.dead {
		return
	}
	k(st, []Val{c.True(), ex.fromTerm(st, key, mt.Key()), ex.fromTerm(st, v, mt.Elem())})
}

func (ex *Exec) doSelect(st *state, fr int, in *ssa.Select, k cont) {
	c := ex.c
	if in.Blocking || len(in.States) != 1 || in.States[0].Dir != types.RecvOnly {
		ex.fail("select statement outside the subset")
	}
	s := in.States[0]
	ch := ex.term(st, ex.val(st, fr, s.Chan))
	ct := s.Chan.Type().Underlying().(*types.Chan)
	kb, kc, _ := ex.chanKeys(ct)
	ss := seqSort(ex.sort(ct.Elem()))
	buf := ex.heapLoad(st, kb, ch, ss)
	closed := ex.heapLoad(st, kc, ch, "Bool")
	empty := ex.simp(st, c.Eq(c.Len(buf), c.Int(0)))
	z := ex.zero(ct.Elem())
	// a buffered element is available
	if !isTrue(empty) {
		s1 := st.clone()
		ex.assume(s1, c.Not(empty))
		if !s1.dead && ex.feasible(s1) {
			v := c.Nth(buf, c.Int(0))
			rest := c.Extract(buf, c.Int(1), c.Sub(c.Len(buf), c.Int(1)))
			ex.assume(s1, c.Eq(c.Len(rest), c.Sub(c.Len(buf), c.Int(1))))
			ex.frameCheck(s1, kb, ch)
			ex.heapStore(s1, kb, ch, rest)
			k(s1, []Val{c.Int(0), c.True(), v})
		}
	}
	if isFalse(empty) {
		return
	}
	ex.assume(st, empty)
	if st.dead || !ex.feasible(st) {
		return
	}
	// closed and drained
	closed = ex.simp(st, closed)
	if !isFalse(closed) {
		s2 := st.clone()
		ex.assume(s2, closed)
		if !s2.dead && ex.feasible(s2) {
			k(s2, []Val{c.Int(0), c.False(), z})
		}
	}
	ex.assume(st, c.Not(closed))
	if st.dead || !ex.feasible(st) {
		return
	}
	k(st, []Val{c.Int(-1), c.False(), z})
}
