package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Sorting of []int in place: the content of the backing store is replaced by
// sortDesc(content) or sortAsc(content), spec functions whose meaning the
// contracts state as axioms. A slice whose content was an immutable value
// (read from a map, say) gets a backing store of its own first, which all the
// variables that hold it share.

func isSortSlice(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sort" && n.Obj().Name() == "IntSlice"
}

// ownBack gives an immutable slice value a backing store in every frame.
func (ex *Exec) ownBack(st *state, s *SliceV) *SliceV {
	if s.back != 0 {
		return s
	}
	ex.nback++
	st.backs[ex.nback] = &Back{term: s.term, elem: s.typ.Underlying().(*types.Slice).Elem(), origin: "shared"}
	n := *s
	n.back, n.off = ex.nback, ex.c.Int(0)
	for _, f := range st.frames {
		for k, v := range f.env {
			switch v := v.(type) {
			case *SliceV:
				if v == s {
					f.env[k] = &n
				}
			case TupleV:
				for i := range v {
					if v[i] == Val(s) {
						t := append(TupleV{}, v...)
						t[i] = &n
						f.env[k] = t
						break
					}
				}
			}
		}
	}
	return &n
}

func (ex *Exec) sortIface(st *state, tag *T, s *SliceV, rev bool) *T {
	r := ex.newRef()
	if ex.sorts == nil {
		ex.sorts = map[int]sortArg{}
	}
	x := ex.c.Mk(ex.p.dts.iface, tag, ex.box(r))
	ex.sorts[x.id] = sortArg{s, rev}
	return x
}

type sortArg struct {
	s   *SliceV
	rev bool
}

func (ex *Exec) sortInPlace(st *state, s *SliceV, rev bool) bool {
	c := ex.c
	name := "sortAsc"
	if rev {
		name = "sortDesc"
	}
	if ex.spec.fns[name] == nil || s.back == 0 {
		return false
	}
	for _, d := range ex.dry {
		if s.back <= d.nback0 {
			d.writes[writeKey{fmt.Sprintf("back$%d", s.back), 0}] = c.Int(0)
		}
	}
	b := *st.backs[s.back]
	cur := ex.backTerm(st, &b)
	srt := cur.sort
	part := ex.ufn(name, srt, c.Extract(cur, s.off, s.ln))
	ex.assume(st, c.Eq(c.Len(part), s.ln))
	if z, ok := s.off.intv(); ok && z == 0 && c.Eq(ex.lenOf(st, cur, s), s.ln) == c.True() {
		b.term = part
	} else {
		end := c.Add(s.off, s.ln)
		b.term = c.Concat(c.Extract(cur, c.Int(0), s.off), part, c.Extract(cur, end, c.Sub(c.Len(cur), end)))
	}
	b.elems = nil
	st.backs[s.back] = &b
	ex.assumed["sorting a slice is visible through the variables that hold it, not through the place it was read from"] = true
	return true
}

func init() {
	models["sort.Reverse"] = func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
		x := ex.term(st, args[0])
		a, ok := ex.sorts[x.id]
		if !ok {
			k(st, ex.freshResults(st, fn.Signature, fn.Name()))
			return
		}
		tag := ex.c.Fresh("rev", "Int")
		ex.assume(st, ex.c.Lt(ex.c.Int(0), tag))
		k(st, []Val{ex.sortIface(st, tag, a.s, !a.rev)})
	}
	srt := func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
		a, ok := ex.sorts[ex.term(st, args[0]).id]
		if !ok || !ex.sortInPlace(st, a.s, a.rev) {
			ex.fail("sort of an unmodelled value")
		}
		k(st, nil)
	}
	models["sort.Sort"] = srt
	models["sort.Stable"] = srt
	models["sort.Ints"] = func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
		s := ex.ownBack(st, args[0].(*SliceV))
		if !ex.sortInPlace(st, s, false) {
			ex.fail("sort of an unmodelled value")
		}
		k(st, nil)
	}
}
