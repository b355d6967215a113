package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A table is an unexported package-level map that is filled with constants by
// its initialiser and only ever read afterwards. Its content is known.
type table struct {
	name string
	typ  *types.Map
	keys []ssa.Value
	vals []ssa.Value
}

// findTables collects the tables of the program, by the heap key of the global.
func (p *Prog) findTables() {
	p.tables = map[string]*table{}
	bad := map[*ssa.Global]bool{}
	inits := map[*ssa.Global]*ssa.MakeMap{}
	seen := func(g *ssa.Global) bool {
		if g.Object() == nil || g.Object().Exported() {
			return false
		}
		_, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map)
		return ok
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && seen(g) {
						mm, ok := st.Val.(*ssa.MakeMap)
						if !ok || inits[g] != nil || f.Synthetic != "package initializer" {
							bad[g] = true
							continue
						}
						inits[g] = mm
						continue
					}
				}
				if u, ok := in.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok && seen(g) {
						for _, r := range *u.Referrers() {
							switch r := r.(type) {
							case *ssa.Lookup:
								if r.X != u || r.Index == u {
									bad[g] = true
								}
							case *ssa.Range, *ssa.DebugRef:
							case *ssa.Call:
								if bi, ok := r.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
									bad[g] = true
								}
							default:
								bad[g] = true
							}
						}
						continue
					}
				}
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && seen(g) {
						bad[g] = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	done := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if f.Parent() == nil && !done[f] {
			done[f] = true
			visit(f)
		}
	}
	for _, sp := range p.pkgs {
		if f := sp.Func("init"); f != nil && !done[f] {
			done[f] = true
			visit(f)
		}
	}
	for g, mm := range inits {
		if bad[g] {
			continue
		}
		t := &table{name: "G$" + g.Pkg.Pkg.Name() + "." + g.Name(), typ: g.Type().(*types.Pointer).Elem().Underlying().(*types.Map)}
		ok := true
		for _, r := range *mm.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				kc, kok := r.Key.(*ssa.Const)
				if r.Map != mm || !kok {
					ok = false
					continue
				}
				switch r.Value.(type) {
				case *ssa.Const, *ssa.Function:
				default:
					ok = false
				}
				t.keys = append(t.keys, kc)
				t.vals = append(t.vals, r.Value)
			case *ssa.Store, *ssa.DebugRef:
			default:
				ok = false
			}
		}
		if ok {
			p.tables[t.name] = t
		}
	}
}

// tableOf recognises the term of a table.
func (ex *Exec) tableOf(m *T) *table {
	return ex.tabs[m.id]
}

// tableTerm is the (non-nil) reference of a table.
func (ex *Exec) tableTerm(t *table) *T {
	r := ex.c.Int(ex.p.tabID(t))
	if ex.tabs == nil {
		ex.tabs = map[int]*table{}
	}
	ex.tabs[r.id] = t
	return r
}

func (p *Prog) tabID(t *table) int64 {
	n := int64(6000001)
	for k := range p.tables {
		if k < t.name {
			n++
		}
	}
	return n
}

// tableGet looks a key up.
func (ex *Exec) tableGet(st *state, t *table, key *T) (*T, *T) {
	c := ex.c
	has := c.False()
	v := ex.zero(t.typ.Elem())
	for i := len(t.keys) - 1; i >= 0; i-- {
		k := ex.term(st, ex.constOrFn(st, t.keys[i]))
		w := ex.term(st, ex.constOrFn(st, t.vals[i]))
		e := c.Eq(key, k)
		if isTrue(e) {
			return w, c.True()
		}
		if isFalse(e) {
			continue
		}
		has = c.Or(e, has)
		v = c.Ite(e, w, v)
	}
	return v, has
}

func (ex *Exec) constOrFn(st *state, v ssa.Value) Val {
	if k, ok := v.(*ssa.Const); ok {
		return ex.constVal(st, k)
	}
	return &CloV{fn: v.(*ssa.Function)}
}

// tableOrder is the order in which one loop visits a table: every key once.
func (ex *Exec) tableOrder(st *state, t *table) *T {
	c := ex.c
	ks := c.Fresh("keys", seqSort(ex.sort(t.typ.Key())))
	n := c.Int(int64(len(t.keys)))
	ex.assume(st, c.Eq(c.Len(ks), n))
	for _, kv := range t.keys {
		at := c.Fresh("at", "Int")
		ex.assume(st, c.And(c.Le(c.Int(0), at), c.Lt(at, n)))
		k := ex.term(st, ex.constOrFn(st, kv))
		if _, ok := ex.spec.fns["keyAt"]; ok && k.sort == "String" {
			ex.assume(st, c.Eq(at, ex.ufn("keyAt", "Int", ks, k)))
		}
		ex.assume(st, c.Eq(c.Nth(ks, at), k))
	}
	return ks
}

// tableLoop finds the iteration of a loop over a table.
func (ex *Exec) tableLoop(st *state, fr int, b *ssa.BasicBlock) TupleV {
	for _, in := range b.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			if it, ok := st.frames[fr].env[n.Iter].(TupleV); ok && len(it) > 2 {
				return it
			}
		}
	}
	return nil
}
