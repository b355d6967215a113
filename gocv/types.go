package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
)

// DT is an SMT datatype standing for a Go struct type (or Iface).
type DT struct {
	name   string
	fields []dtField
	typ    types.Type
}
type dtField struct {
	name string
	sort string
	typ  types.Type
}

// DTs is the shared registry of struct datatypes, type tags and function ids.
type DTs struct {
	mu     sync.Mutex
	byName map[string]*DT
	tags   map[string]int
	tagTyp []types.Type
	opaque map[string]bool
	fids   map[string]int
	repo   string
	iface  *DT
}

func newDTs(repo string) *DTs {
	d := &DTs{byName: map[string]*DT{}, tags: map[string]int{}, opaque: map[string]bool{}, fids: map[string]int{}, repo: repo}
	d.iface = &DT{name: "Iface", fields: []dtField{{"tag", "Int", nil}, {"val", "Int", nil}}}
	d.byName["Iface"] = d.iface
	return d
}

func (d *DTs) tagOf(t types.Type) int {
	d.mu.Lock()
	defer d.mu.Unlock()
	k := types.TypeString(t, nil)
	if n, ok := d.tags[k]; ok {
		return n
	}
	n := len(d.tags) + 1
	d.tags[k] = n
	d.tagTyp = append(d.tagTyp, t)
	return n
}

func (d *DTs) typeOfTag(n int) types.Type {
	d.mu.Lock()
	defer d.mu.Unlock()
	if n >= 1 && n <= len(d.tagTyp) {
		return d.tagTyp[n-1]
	}
	return nil
}

func typeName(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return sanitize(strings.TrimPrefix(s, "*"))
}

func isRepoType(d *DTs, t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), d.repo)
	}
	return true
}

// modelSort is the sort of library structs that are modelled by their content.
func modelSort(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "bytes.Buffer", "strings.Builder":
			return "String"
		case "math/big.Int":
			return "Int"
		}
	}
	return ""
}

func isByteSlice(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Byte)
	}
	return false
}

func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

// sortOf gives the SMT sort of a Go type.
func (d *DTs) sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "String"
		case u.Info()&types.IsFloat != 0:
			return "F64"
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return "Int"
		}
		return "Opq"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Interface:
		return "Iface"
	case *types.Slice:
		if isByteSlice(t) {
			return "String"
		}
		return seqSort(d.sortOf(u.Elem()))
	case *types.Array:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			return "String"
		}
		return seqSort(d.sortOf(u.Elem()))
	case *types.Struct:
		if m := modelSort(t); m != "" {
			return m
		}
		if !isRepoType(d, t) {
			n := "X_" + typeName(t)
			d.mu.Lock()
			d.opaque[n] = true
			d.mu.Unlock()
			return n
		}
		return d.structDT(t).name
	}
	return "Opq"
}

func (d *DTs) structDT(t types.Type) *DT {
	name := "S_" + typeName(t)
	if len(name) > 80 {
		name = name[:60] + fmt.Sprint(d.tagOf(t))
	}
	d.mu.Lock()
	dt, ok := d.byName[name]
	d.mu.Unlock()
	if ok {
		return dt
	}
	st := t.Underlying().(*types.Struct)
	dt = &DT{name: name, typ: t}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		dt.fields = append(dt.fields, dtField{f.Name(), d.sortOf(f.Type()), f.Type()})
	}
	d.mu.Lock()
	d.byName[name] = dt
	d.mu.Unlock()
	return dt
}

// sortsIn lists the atomic sort names occurring in a sort expression.
func sortsIn(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
}

// decls emits declarations for the sorts used.
func (d *DTs) declsFor(used map[string]bool) string {
	d.mu.Lock()
	defer d.mu.Unlock()
	var b strings.Builder
	done := map[string]bool{}
	var emit func(n string)
	emit = func(n string) {
		if done[n] {
			return
		}
		done[n] = true
		if dt, ok := d.byName[n]; ok {
			for _, f := range dt.fields {
				for _, s := range sortsIn(f.sort) {
					emit(s)
				}
			}
			if len(dt.fields) == 0 {
				fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk_%s))))\n", n, n)
				return
			}
			fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk_%s", n, n)
			for i, f := range dt.fields {
				fmt.Fprintf(&b, " (get_%s_%d %s)", n, i, f.sort)
			}
			b.WriteString("))))\n")
			return
		}
		switch n {
		case "Int", "Bool", "String", "Seq", "Array":
			return
		}
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", n)
	}
	var ns []string
	for n := range used {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		emit(n)
	}
	return b.String()
}
