package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *T, *SliceV, *AddrV, *CloV, TupleV.
type Val interface{}

type TupleV []Val

// SliceV is a slice. If back != 0 its elements live in the state's backing
// store (mutable), otherwise term is its (immutable) content.
type SliceV struct {
	typ  types.Type
	back int
	off  *T
	ln   *T
	term *T
	nilT *T
	base *T // provenance: content of a parameter or loaded location
}

// AddrV is the address of a heap location: field key of object base, or an
// element of a backing store.
type AddrV struct {
	key  string
	base *T
	typ  types.Type // pointee type
	back int
	idx  *T
	isEl bool
}

// CloV is a known function value.
type CloV struct {
	fn   *ssa.Function
	bind []Val
}

// Back is the content of a mutable backing store.
type Back struct {
	elems []Val // if non-nil: known element values
	term  *T    // otherwise content
	elem  types.Type
	// origin describes where the backing store came from ("make", "param x").
	origin string
	owned  bool
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []*deferred
	parent int
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

type state struct {
	pc     []*T
	set    map[int]bool
	eqlit  map[int]*T
	heap   map[string]*T
	backs  map[int]*Back
	frames []*frame
	loops  []*loopCtx
	ghosts map[string]SV
	trace  []string
	dead   bool
}

type loopCtx struct {
	frame  int
	header *ssa.BasicBlock
	loop   *loopInfo
	k      *T
	dec    *T
	names  map[string]Val
	spec   *LoopSpec
	entry  *state
}

func (s *state) clone() *state {
	n := &state{
		pc:     append(make([]*T, 0, len(s.pc)+8), s.pc...),
		set:    make(map[int]bool, len(s.set)+8),
		eqlit:  make(map[int]*T, len(s.eqlit)+4),
		heap:   make(map[string]*T, len(s.heap)+4),
		backs:  make(map[int]*Back, len(s.backs)+2),
		loops:  append([]*loopCtx{}, s.loops...),
		ghosts: make(map[string]SV, len(s.ghosts)),
		trace:  append([]string{}, s.trace...),
	}
	for k, v := range s.set {
		n.set[k] = v
	}
	for k, v := range s.eqlit {
		n.eqlit[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.backs {
		n.backs[k] = v
	}
	for k, v := range s.ghosts {
		n.ghosts[k] = v
	}
	for _, f := range s.frames {
		g := &frame{fn: f.fn, env: make(map[ssa.Value]Val, len(f.env)+8), defers: append([]*deferred{}, f.defers...), parent: f.parent}
		for k, v := range f.env {
			g.env[k] = v
		}
		n.frames = append(n.frames, g)
	}
	return n
}

// Obligation is one proof obligation.
type Obligation struct {
	Fn    string
	Name  string
	Kind  string
	Pos   string
	pc    []*T
	goal  *T
	trace []string
	cover bool // satisfiability cover: must not be unsat
}

type unsupported struct{ msg string }

// Exec verifies one function.
type Exec struct {
	kinds map[int64]string // fresh readers and writers
	sorts map[int]sortArg  // interface values that hold a slice to sort
	p    *Prog
	c    *Ctx
	spec *Specs
	top  *ssa.Function
	con  *FuncSpec
	tabs map[int]*table

	obls     []*Obligation
	trivial  int
	nalloc   int64
	nback    int
	genMu    sync.Mutex
	paths    int
	covers   int
	dry      []*dryRun
	joins    []*joinCtx
	closT    map[int]*CloV
	addrT    map[int]*AddrV
	entry    *state
	assumed  map[string]bool // trusted contracts / models used
	inlined  map[string]bool
	usedCon  map[string]bool
	stack    []*ssa.Function
	loopOrd  map[*ssa.BasicBlock]int
	lcount   int
	loopsIn  map[*ssa.Function]*loops
	topEnv   map[string]SV
	heapSort map[string]string
	heapTyp  map[string]types.Type
	maxPath  int
	prune    bool
	lemmaOrd int
	steps    int
}

type dryRun struct {
	frame  int
	loop   *loopInfo
	writes map[writeKey]*T
	start  int // symbol index at start
	alloc0 int64
	nback0 int
	live   bool // only the writes are noted, obligations are kept
}
type writeKey struct {
	key  string
	base int
}

func newExec(p *Prog, sp *Specs, fn *ssa.Function, con *FuncSpec) *Exec {
	return &Exec{p: p, c: newCtx(p.dts), spec: sp, top: fn, con: con, closT: map[int]*CloV{}, addrT: map[int]*AddrV{},
		assumed: map[string]bool{}, inlined: map[string]bool{}, usedCon: map[string]bool{}, loopOrd: map[*ssa.BasicBlock]int{},
		loopsIn: map[*ssa.Function]*loops{}, heapSort: map[string]string{}, heapTyp: map[string]types.Type{}, maxPath: 6000, lemmaOrd: -1}
}

func (ex *Exec) fail(format string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

func (ex *Exec) sort(t types.Type) string { return ex.p.dts.sortOf(t) }

// assumptions -------------------------------------------------------------

func (ex *Exec) assume(st *state, t *T) {
	if isTrue(t) || st.set[t.id] {
		return
	}
	if isFalse(t) {
		st.dead = true
	}
	if t.op == "and" {
		for _, a := range t.args {
			ex.assume(st, a)
		}
		return
	}
	st.set[t.id] = true
	if st.set[ex.c.Not(t).id] {
		st.dead = true
	}
	if t.op == "=" {
		a, b := t.args[0], t.args[1]
		if isLit(a) {
			a, b = b, a
		}
		if isLit(b) && !isLit(a) {
			if o, ok := st.eqlit[a.id]; ok && o != b {
				st.dead = true
			}
			st.eqlit[a.id] = b
		}
	}
	st.pc = append(st.pc, t)
}

// simp evaluates a condition under the path facts where that is syntactic.
func (ex *Exec) simp(st *state, t *T) *T {
	if t.op == "bool" {
		return t
	}
	if st.set[t.id] {
		return ex.c.True()
	}
	if st.set[ex.c.Not(t).id] {
		return ex.c.False()
	}
	switch t.op {
	case "not":
		return ex.c.Not(ex.simp(st, t.args[0]))
	case "and":
		var as []*T
		for _, a := range t.args {
			as = append(as, ex.simp(st, a))
		}
		return ex.c.And(as...)
	case "or":
		var as []*T
		for _, a := range t.args {
			as = append(as, ex.simp(st, a))
		}
		return ex.c.Or(as...)
	case "=>":
		return ex.c.Imp(ex.simp(st, t.args[0]), ex.simp(st, t.args[1]))
	case "ite":
		if t.sort == "Bool" {
			return ex.c.Ite(ex.simp(st, t.args[0]), ex.simp(st, t.args[1]), ex.simp(st, t.args[2]))
		}
	case "=":
		a, b := t.args[0], t.args[1]
		if isLit(a) {
			a, b = b, a
		}
		if isLit(b) {
			if o, ok := st.eqlit[a.id]; ok {
				return ex.c.Bool(o == b)
			}
		}
	case "<=":
		l, ok1 := st.eqlit[t.args[0].id]
		if !ok1 {
			l = t.args[0]
		}
		r, ok2 := st.eqlit[t.args[1].id]
		if !ok2 {
			r = t.args[1]
		}
		if ok1 || ok2 {
			// code comparisons where the character is known
			return ex.c.Le(ex.litCode(st, l), ex.litCode(st, r))
		}
		n := ex.c.Le(ex.litCode(st, l), ex.litCode(st, r))
		return n
	}
	return t
}

// litCode rewrites to_code(x) where x is a known literal.
func (ex *Exec) litCode(st *state, t *T) *T {
	if t.op == "str.to_code" {
		if o, ok := st.eqlit[t.args[0].id]; ok {
			return ex.c.ToCode(o)
		}
	}
	if o, ok := st.eqlit[t.id]; ok {
		return o
	}
	return t
}

func (ex *Exec) oblige(st *state, kind, name string, pos token.Pos, goal *T) {
	goal = ex.simp(st, goal)
	if isTrue(goal) {
		if ex.topDry() == nil {
			ex.trivial++
		}
		return
	}
	if goal.op == "and" {
		for i, g := range goal.args {
			n := name
			if len(goal.args) > 1 {
				n = fmt.Sprintf("%s#%d", name, i+1)
			}
			ex.oblige(st, kind, n, pos, g)
		}
		return
	}
	if ex.topDry() == nil && !st.dead {
		ps := ""
		if pos.IsValid() {
			q := ex.p.ssa.Fset.Position(pos)
			f := q.Filename
			f = strings.TrimPrefix(f, ex.p.path+"/")
			ps = fmt.Sprintf("%s:%d", f, q.Line)
		}
		ex.obls = append(ex.obls, &Obligation{Fn: funcKey(ex.top), Name: name, Kind: kind, Pos: ps,
			pc: append([]*T{}, st.pc...), goal: goal, trace: append([]string{}, st.trace...)})
	}
	ex.assume(st, goal)
}

func (ex *Exec) cover(st *state, name string) {
	if ex.topDry() != nil {
		return
	}
	ex.obls = append(ex.obls, &Obligation{Fn: funcKey(ex.top), Name: name, Kind: "cover", pc: append([]*T{}, st.pc...), goal: ex.c.False(), cover: true})
}

// heap ----------------------------------------------------------------------

func (ex *Exec) heapArr(st *state, key, srt string) *T {
	if h, ok := st.heap[key]; ok {
		return h
	}
	// initial heap: a global constant array
	h := ex.c.Const("H0$"+key, arrSort("Int", srt))
	ex.heapSort[key] = arrSort("Int", srt)
	return h
}

func (ex *Exec) heapArrBySort(key string) *T {
	s, ok := ex.heapSort[key]
	if !ok {
		return nil
	}
	return ex.c.Const("H0$"+key, s)
}

func (ex *Exec) noteWrite(key string, base *T) {
	for _, d := range ex.dry {
		if n, ok := base.intv(); ok && n < 0 && -n > d.alloc0 {
			continue // object allocated inside the loop
		}
		b := base
		if base.maxsym > d.start {
			b = ex.c.Int(0)
			d.writes[writeKey{key, -1}] = b
			continue
		}
		d.writes[writeKey{key, b.id}] = b
	}
}

func (ex *Exec) heapStore(st *state, key string, base *T, v *T) {
	ex.noteWrite(key, base)
	h := ex.heapArr(st, key, v.sort)
	st.heap[key] = ex.c.Store(h, base, v)
}

func (ex *Exec) heapLoad(st *state, key string, base *T, srt string) *T {
	return ex.c.Select(ex.heapArr(st, key, srt), base)
}

func (ex *Exec) newRef() *T {
	ex.nalloc++
	return ex.c.Int(-ex.nalloc)
}

// wellTyped adds the range facts that hold for any Go value of the type.
func (ex *Exec) wellTyped(st *state, t *T, typ types.Type) {
	if isLit(t) {
		return
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		lo, hi, ok := intRange(u)
		if ok && (u.Kind() != types.Int && u.Kind() != types.Int64) {
			ex.assume(st, ex.c.Le(ex.c.IntS(lo), t))
			ex.assume(st, ex.c.Le(t, ex.c.IntS(hi)))
		}
	case *types.Pointer, *types.Map, *types.Chan:
		// a reference obtained now is not one of the objects allocated later
		if t.op == "select" {
			a := t.args[0]
			for a.op == "store" {
				a = a.args[0]
			}
			if a.op == "sym" && strings.HasPrefix(a.lit, "H0$") {
				// what the entry heap holds was allocated before the call
				b := t.args[1]
				ex.assume(st, ex.c.Imp(ex.c.Le(ex.c.Int(0), b), ex.c.Le(ex.c.Int(0), ex.c.mk("select", "", "Int", a, b))))
			}
		}
		ex.assume(st, ex.c.mk("<=", "", "Bool", ex.c.Int(-ex.nalloc), t))
	}
}

func intRange(u *types.Basic) (string, string, bool) {
	switch u.Kind() {
	case types.Uint8:
		return "0", "255", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615", true
	case types.Int8:
		return "-128", "127", true
	case types.Int16:
		return "-32768", "32767", true
	case types.Int32:
		return "-2147483648", "2147483647", true
	case types.Int, types.Int64:
		return "-9223372036854775808", "9223372036854775807", true
	}
	return "", "", false
}

// fromTerm wraps a term as a value of a Go type.
func (ex *Exec) fromTerm(st *state, t *T, typ types.Type) Val {
	if isSlice(typ) {
		return &SliceV{typ: typ, term: t, off: ex.c.Int(0), ln: ex.c.Len(t), nilT: nil}
	}
	if t.sort == "Int" {
		if cl, ok := ex.closT[t.id]; ok {
			return cl
		}
		if a, ok := ex.addrT[t.id]; ok {
			return a
		}
	}
	return t
}

func (ex *Exec) content(st *state, s *SliceV) *T {
	if s.back == 0 {
		return s.term
	}
	b := st.backs[s.back]
	return ex.c.Extract(ex.backTerm(st, b), s.off, s.ln)
}

func (ex *Exec) backTerm(st *state, b *Back) *T {
	if b.elems == nil {
		return b.term
	}
	srt := ex.sort(types.NewSlice(b.elem))
	if len(b.elems) == 0 {
		return ex.c.Empty(srt)
	}
	var us []*T
	for _, e := range b.elems {
		t := ex.term(st, e)
		if isStr(srt) {
			us = append(us, ex.c.FromCode(t))
		} else {
			us = append(us, ex.c.Unit(t))
		}
	}
	return ex.c.Concat(us...)
}

// knownElems returns the element values of a slice if its length is known.
func (ex *Exec) knownElems(st *state, s *SliceV) ([]Val, bool) {
	n, ok := s.ln.intv()
	if !ok {
		return nil, false
	}
	if s.back != 0 {
		b := st.backs[s.back]
		o, ok := s.off.intv()
		if b.elems != nil && ok && int(o+n) <= len(b.elems) {
			return b.elems[o : o+n], true
		}
	}
	t := ex.content(st, s)
	el := s.typ.Underlying().(*types.Slice).Elem()
	var r []Val
	for i := int64(0); i < n; i++ {
		r = append(r, ex.fromTerm(st, ex.c.Nth(t, ex.c.Int(i)), el))
	}
	return r, true
}

// term converts any value to a term.
func (ex *Exec) term(st *state, v Val) *T {
	switch v := v.(type) {
	case *T:
		return v
	case *SliceV:
		return ex.content(st, v)
	case *CloV:
		return ex.closTerm(v)
	case *AddrV:
		if !v.isEl {
			t := ex.c.App("addr$"+sanitize(v.key), "Int", v.base)
			ex.addrT[t.id] = v
			ex.assume(st, ex.c.Not(ex.c.Eq(t, ex.c.Int(0))))
			return t
		}
		t := ex.c.Fresh("eladdr", "Int")
		ex.addrT[t.id] = v
		ex.assume(st, ex.c.Not(ex.c.Eq(t, ex.c.Int(0))))
		return t
	case nil:
		ex.fail("nil value")
	}
	ex.fail("value %T has no term", v)
	return nil
}

func (ex *Exec) closTerm(v *CloV) *T {
	if len(v.bind) == 0 {
		t := ex.c.Int(ex.p.fnID(v.fn))
		ex.closT[t.id] = v
		return t
	}
	for id, o := range ex.closT {
		if o == v {
			for _, t := range ex.c.tab {
				if t.id == id {
					return t
				}
			}
		}
	}
	t := ex.c.Fresh("clo$"+v.fn.Name(), "Int")
	ex.closT[t.id] = v
	return t
}

func (ex *Exec) freshVal(st *state, hint string, typ types.Type) Val {
	if tu, ok := typ.(*types.Tuple); ok {
		var r TupleV
		for i := 0; i < tu.Len(); i++ {
			r = append(r, ex.freshVal(st, hint, tu.At(i).Type()))
		}
		return r
	}
	t := ex.c.Fresh(hint, ex.sort(typ))
	ex.wellTyped(st, t, typ)
	return ex.fromTerm(st, t, typ)
}

func (ex *Exec) zero(typ types.Type) *T {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ex.c.False()
		case u.Info()&types.IsInteger != 0:
			return ex.c.Int(0)
		case u.Info()&types.IsString != 0:
			return ex.c.Str("")
		case u.Info()&types.IsFloat != 0:
			return ex.c.Const("f64.0", "F64")
		}
		return ex.c.Int(0)
	case *types.Interface:
		return ex.c.Mk(ex.p.dts.iface, ex.c.Int(0), ex.c.Int(0))
	case *types.Slice:
		return ex.c.Empty(ex.sort(typ))
	case *types.Struct:
		switch modelSort(typ) {
		case "String":
			return ex.c.Str("")
		case "Int":
			return ex.c.Int(0)
		}
		if !isRepoType(ex.p.dts, typ) {
			return ex.c.Const("zero$"+ex.sort(typ), ex.sort(typ))
		}
		dt := ex.p.dts.structDT(typ)
		var as []*T
		for _, f := range dt.fields {
			as = append(as, ex.zero(f.typ))
		}
		return ex.c.Mk(dt, as...)
	case *types.Array:
		srt := ex.sort(typ)
		if u.Len() <= 64 {
			var us []*T
			z := ex.zero(u.Elem())
			for i := int64(0); i < u.Len(); i++ {
				if isStr(srt) {
					us = append(us, ex.c.FromCode(z))
				} else {
					us = append(us, ex.c.Unit(z))
				}
			}
			if len(us) == 0 {
				return ex.c.Empty(srt)
			}
			return ex.c.Concat(us...)
		}
		return ex.c.Const(fmt.Sprintf("zeroarr$%d", u.Len()), srt)
	}
	return ex.c.Int(0)
}

// structKey is the heap prefix of the fields of a struct type.
func structKey(t types.Type) string { return typeName(t) }

// addrOf gives the address denoted by a pointer value with pointee type elem.
func (ex *Exec) addrOf(st *state, v Val, elem types.Type, pos token.Pos) *AddrV {
	switch v := v.(type) {
	case *AddrV:
		return v
	case *T:
		if a, ok := ex.addrT[v.id]; ok {
			return a
		}
		ex.oblige(st, "nil-deref", "non-nil pointer", pos, ex.c.Not(ex.c.Eq(v, ex.c.Int(0))))
		if _, ok := elem.Underlying().(*types.Struct); ok && isRepoType(ex.p.dts, elem) {
			return &AddrV{key: structKey(elem), base: v, typ: elem}
		}
		return &AddrV{key: "C$" + typeName(elem) + "$" + sanitize(ex.sort(elem)), base: v, typ: elem}
	}
	ex.fail("address of %T", v)
	return nil
}

func (ex *Exec) fieldAddr(a *AddrV, i int) *AddrV {
	s := a.typ.Underlying().(*types.Struct)
	f := s.Field(i)
	if a.isEl {
		return &AddrV{key: a.key + "." + f.Name(), back: a.back, idx: a.idx, isEl: true, typ: f.Type(), base: a.base}
	}
	return &AddrV{key: a.key + "." + f.Name(), base: a.base, typ: f.Type()}
}

func (ex *Exec) load(st *state, a *AddrV, pos token.Pos) Val {
	if a.isEl {
		return ex.loadElem(st, a)
	}
	if _, ok := a.typ.Underlying().(*types.Struct); ok && isRepoType(ex.p.dts, a.typ) {
		dt := ex.p.dts.structDT(a.typ)
		var fs []*T
		for i := range dt.fields {
			fs = append(fs, ex.term(st, ex.load(st, ex.fieldAddr(a, i), pos)))
		}
		return ex.c.Mk(dt, fs...)
	}
	if t := ex.p.tables[a.key]; t != nil {
		return ex.tableTerm(t)
	}
	ex.heapTyp[a.key] = a.typ
	t := ex.heapLoad(st, a.key, a.base, ex.sort(a.typ))
	if t.op == "select" {
		ex.wellTyped(st, t, a.typ)
	}
	return ex.fromTerm(st, t, a.typ)
}

func (ex *Exec) store(st *state, a *AddrV, v Val) {
	if a.isEl {
		ex.storeElem(st, a, v)
		return
	}
	if _, ok := a.typ.Underlying().(*types.Struct); ok && isRepoType(ex.p.dts, a.typ) {
		dt := ex.p.dts.structDT(a.typ)
		t := ex.term(st, v)
		for i, f := range dt.fields {
			ex.store(st, ex.fieldAddr(a, i), ex.fromTerm(st, ex.c.Sel(dt, i, t), f.typ))
		}
		return
	}
	if s, ok := v.(*SliceV); ok && s.back != 0 {
		b := *st.backs[s.back]
		b.owned = false
		st.backs[s.back] = &b
	}
	ex.frameCheck(st, a.key, a.base)
	ex.heapStore(st, a.key, a.base, ex.term(st, v))
}

func (ex *Exec) loadElem(st *state, a *AddrV) Val {
	b := st.backs[a.back]
	if n, ok := a.idx.intv(); ok && b.elems != nil && int(n) < len(b.elems) {
		v := b.elems[n]
		return ex.subLoad(st, v, a, b.elem)
	}
	t := ex.c.Nth(ex.backTerm(st, b), a.idx)
	ex.wellTyped(st, t, b.elem)
	return ex.subLoad(st, ex.fromTerm(st, t, b.elem), a, b.elem)
}

// subLoad follows field selections of an element address (key = ".f.g").
func (ex *Exec) subLoad(st *state, v Val, a *AddrV, typ types.Type) Val {
	if a.key == "" {
		return v
	}
	t := ex.term(st, v)
	for _, f := range strings.Split(a.key[1:], ".") {
		dt := ex.p.dts.structDT(typ)
		ok := false
		for i, df := range dt.fields {
			if df.name == f {
				t = ex.c.Sel(dt, i, t)
				typ = df.typ
				ok = true
				break
			}
		}
		if !ok {
			ex.fail("no field %s", f)
		}
	}
	return ex.fromTerm(st, t, typ)
}

func (ex *Exec) storeElem(st *state, a *AddrV, v Val) {
	b := st.backs[a.back]
	if !b.owned {
		ex.fail("store into a slice that is not owned by the function (%s)", b.origin)
	}
	for _, d := range ex.dry {
		if a.back <= d.nback0 {
			d.writes[writeKey{fmt.Sprintf("back$%d", a.back), 0}] = ex.c.Int(0)
		}
	}
	nb := *b
	if a.key != "" {
		// update a field of a struct element
		cur := ex.term(st, ex.loadElem(st, &AddrV{back: a.back, idx: a.idx, isEl: true, typ: b.elem}))
		v = ex.updateField(st, cur, b.elem, strings.Split(a.key[1:], "."), ex.term(st, v))
	}
	if n, ok := a.idx.intv(); ok && b.elems != nil && int(n) < len(b.elems) {
		nb.elems = append([]Val{}, b.elems...)
		nb.elems[n] = v
	} else {
		nb.term = ex.c.Update(ex.backTerm(st, b), a.idx, ex.term(st, v))
		nb.elems = nil
	}
	st.backs[a.back] = &nb
}

func (ex *Exec) updateField(st *state, cur *T, typ types.Type, path []string, v *T) *T {
	dt := ex.p.dts.structDT(typ)
	var as []*T
	for i, f := range dt.fields {
		x := ex.c.Sel(dt, i, cur)
		if f.name == path[0] {
			if len(path) == 1 {
				x = v
			} else {
				x = ex.updateField(st, x, f.typ, path[1:], v)
			}
		}
		as = append(as, x)
	}
	return ex.c.Mk(dt, as...)
}

// frameCheck verifies that a store stays within the modifies clause.
func (ex *Exec) frameCheck(st *state, key string, base *T) {
	if ex.con == nil || ex.con.anyMod || ex.topDry() != nil {
		return
	}
	if n, ok := base.intv(); ok && n < 0 {
		return // freshly allocated
	}
	if strings.HasPrefix(key, "It$") {
		return
	}
	goal := ex.c.Lt(base, ex.c.Int(0))
	if !strings.HasPrefix(base.lit, "old$") {
		// negative ids are objects allocated during this call
	} else {
		goal = ex.c.False()
	}
	for _, m := range ex.con.modLocs {
		if m.key == key || strings.HasPrefix(key, m.key+".") || m.all {
			if m.base == nil {
				return
			}
			if m.base == base {
				return
			}
			goal = ex.c.Or(goal, ex.c.Eq(m.base, base))
		}
	}
	ex.oblige(st, "frame", "modifies only what the contract allows ("+key+")", token.NoPos, goal)
}

// constants ------------------------------------------------------------------

func (ex *Exec) constVal(st *state, k *ssa.Const) Val {
	typ := k.Type()
	if k.Value == nil {
		if isSlice(typ) {
			return &SliceV{typ: typ, term: ex.c.Empty(ex.sort(typ)), off: ex.c.Int(0), ln: ex.c.Int(0), nilT: ex.c.True()}
		}
		return ex.zero(typ)
	}
	switch k.Value.Kind() {
	case constant.Bool:
		return ex.c.Bool(constant.BoolVal(k.Value))
	case constant.String:
		return ex.c.Str(constant.StringVal(k.Value))
	case constant.Int:
		if ex.sort(typ) == "F64" {
			return ex.f64Lit(k.Value.ExactString())
		}
		return ex.c.IntS(k.Value.ExactString())
	case constant.Float:
		if ex.sort(typ) == "Int" {
			return ex.c.IntS(constant.ToInt(k.Value).ExactString())
		}
		return ex.f64Lit(k.Value.ExactString())
	}
	ex.fail("constant %s", k)
	return nil
}

func (ex *Exec) f64Lit(s string) *T {
	return ex.c.Const("f64."+sanitize(strings.ReplaceAll(s, "-", "m")), "F64")
}

func (ex *Exec) val(st *state, fr int, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return ex.constVal(st, v)
	case *ssa.Function:
		return &CloV{fn: v}
	case *ssa.Global:
		return &AddrV{key: "G$" + v.Pkg.Pkg.Name() + "." + v.Name(), base: ex.c.Int(0), typ: v.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return v
	}
	if r, ok := st.frames[fr].env[v]; ok {
		return r
	}
	ex.fail("undefined value %s in %s", v.Name(), st.frames[fr].fn)
	return nil
}

// loops -------------------------------------------------------------------

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}
type loops struct {
	byHeader map[*ssa.BasicBlock]*loopInfo
	list     []*loopInfo
}

func findLoops(fn *ssa.Function) *loops {
	ls := &loops{byHeader: map[*ssa.BasicBlock]*loopInfo{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := ls.byHeader[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					ls.byHeader[s] = l
					ls.list = append(ls.list, l)
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	pos := func(l *loopInfo) token.Pos {
		best := token.Pos(1 << 40)
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Phi); ok {
					continue // carries the position of the variable's declaration
				}
				if p := in.Pos(); p.IsValid() && p < best {
					best = p
				}
				if d, ok := in.(*ssa.DebugRef); ok && d.Expr.Pos() < best {
					best = d.Expr.Pos()
				}
			}
		}
		return best
	}
	sort.SliceStable(ls.list, func(i, j int) bool {
		a, b := ls.list[i], ls.list[j]
		pa, pb := pos(a), pos(b)
		if pa == pb {
			return len(a.blocks) > len(b.blocks)
		}
		return pa < pb
	})
	for i, l := range ls.list {
		l.ord = i + 1
	}
	return ls
}

func (ex *Exec) loopsOf(fn *ssa.Function) *loops {
	l, ok := ex.loopsIn[fn]
	if !ok {
		l = findLoops(fn)
		ex.loopsIn[fn] = l
	}
	return l
}
