package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type specEnv struct {
	vars  map[string]SV
	st    *state
	old   *state
	lc    *loopCtx
	fr    int // frame for local names, -1 if none
	fn    *ssa.Function
	depth int
}

type specErr struct{ msg string }

func (ex *Exec) serr(e *Expr, format string, a ...interface{}) {
	panic(specErr{fmt.Sprintf(format, a...)})
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tStr = types.Typ[types.String]
var tByte = types.Typ[types.Byte]
var tErr = types.Universe.Lookup("error").Type()

func (ex *Exec) specType(s string) types.Type {
	switch s {
	case "bytes":
		return types.NewSlice(tByte)
	case "any":
		return types.NewInterfaceType(nil, nil)
	case "F64", "float":
		return types.Typ[types.Float64]
	case "":
		return tInt
	}
	t := ex.p.typeByName(s)
	if t == nil {
		panic(specErr{"unknown type " + s})
	}
	return t
}

// T of a spec value in the env's state.
func (ex *Exec) tm(env *specEnv, s SV) *T {
	st := env.st
	if st == nil {
		st = &state{backs: map[int]*Back{}, set: map[int]bool{}, eqlit: map[int]*T{}, heap: map[string]*T{}}
	}
	return ex.term(st, s.v)
}

func (ex *Exec) bterm(env *specEnv, e *Expr) *T {
	t := ex.tm(env, ex.eval(env, e))
	if t.sort != "Bool" {
		ex.serr(e, "not a boolean: %s", e.src)
	}
	return t
}

func (ex *Exec) sv(t *T, typ types.Type) SV { return SV{t, typ} }

func (ex *Exec) mkSV(env *specEnv, t *T, typ types.Type) SV {
	if isSlice(typ) {
		return SV{&SliceV{typ: typ, term: t, off: ex.c.Int(0), ln: ex.c.Len(t)}, typ}
	}
	return SV{t, typ}
}

func (ex *Exec) eval(env *specEnv, e *Expr) SV {
	c := ex.c
	switch e.op {
	case "int":
		return SV{c.IntS(e.name), tInt}
	case "str":
		return SV{c.Str(e.name), tStr}
	case "ident":
		return ex.evalIdent(env, e)
	case "unary":
		x := ex.eval(env, e.args[0])
		t := ex.tm(env, x)
		if e.name == "!" {
			return SV{c.Not(t), tBool}
		}
		if t.sort == "F64" {
			return SV{ex.f64neg(t), x.typ}
		}
		return SV{c.Neg(t), tInt}
	case "cond":
		p := ex.bterm(env, e.args[0])
		a, b := ex.eval(env, e.args[1]), ex.eval(env, e.args[2])
		if isTrue(p) {
			return a
		}
		if isFalse(p) {
			return b
		}
		return ex.mkSV(env, c.Ite(p, ex.tm(env, a), ex.tm(env, b)), a.typ)
	case "binary":
		return ex.evalBinary(env, e)
	case "sel":
		return ex.evalSel(env, e)
	case "index":
		x := ex.eval(env, e.args[0])
		i := ex.tm(env, ex.eval(env, e.args[1]))
		if mt, ok := x.typ.Underlying().(*types.Map); ok {
			v, _ := ex.mapGet(env.st, mt, ex.tm(env, x), i)
			return ex.mkSV(env, v, mt.Elem())
		}
		var el types.Type
		if s, ok := x.v.(*SliceV); ok && s.back != 0 && env.st != nil {
			b := env.st.backs[s.back]
			if n, ok := c.Add(s.off, i).intv(); ok && b.elems != nil && int(n) < len(b.elems) && n >= 0 {
				return SV{b.elems[n], b.elem}
			}
		}
		t := ex.tm(env, x)
		switch u := x.typ.Underlying().(type) {
		case *types.Slice:
			el = u.Elem()
		case *types.Array:
			el = u.Elem()
		default:
			el = tByte
		}
		return ex.mkSV(env, c.Nth(t, i), el)
	case "slice":
		x := ex.eval(env, e.args[0])
		lo := ex.tm(env, ex.eval(env, e.args[1]))
		t := ex.tm(env, x)
		hi := c.Len(t)
		if e.args[2] != nil {
			hi = ex.tm(env, ex.eval(env, e.args[2]))
		}
		return ex.mkSV(env, c.Extract(t, lo, c.Sub(hi, lo)), x.typ)
	case "forall", "exists":
		n := *env
		n.vars = map[string]SV{}
		for k, v := range env.vars {
			n.vars[k] = v
		}
		if e.op == "forall" && len(e.args) == 2 && e.args[0].op == "range" {
			// a short literal range is written out
			a := e.args[0]
			lo, ok1 := ex.tm(env, ex.eval(&n, a.args[0])).intv()
			hi, ok2 := ex.tm(env, ex.eval(&n, a.args[1])).intv()
			if ok1 && ok2 && hi-lo <= 64 {
				r := c.True()
				for i := lo; i < hi; i++ {
					n.vars[a.name] = SV{c.Int(i), tInt}
					r = c.And(r, ex.bterm(&n, e.args[1]))
				}
				return SV{r, tBool}
			}
		}
		var vs []*T
		guard := c.True()
		for _, a := range e.args[:len(e.args)-1] {
			typ := types.Type(tInt)
			if a.op == "var" {
				typ = ex.specType(a.src)
			}
			c.nsym++
			v := c.mk("sym", fmt.Sprintf("q$%s!%d", a.name, c.nsym), ex.sort(typ))
			vs = append(vs, v)
			if a.op == "range" {
				lo, hi := ex.tm(env, ex.eval(&n, a.args[0])), ex.tm(env, ex.eval(&n, a.args[1]))
				guard = c.And(guard, c.Le(lo, v), c.Lt(v, hi))
			}
			n.vars[a.name] = ex.mkSV(env, v, typ)
		}
		body := ex.bterm(&n, e.args[len(e.args)-1])
		if e.op == "exists" {
			return SV{c.Not(c.Forall(vs, c.Not(c.And(guard, body)))), tBool}
		}
		return SV{c.Forall(vs, c.Imp(guard, body)), tBool}
	case "call":
		return ex.evalCall(env, e)
	}
	ex.serr(e, "cannot evaluate %s", e.op)
	return SV{}
}

func (ex *Exec) evalIdent(env *specEnv, e *Expr) SV {
	c := ex.c
	switch e.name {
	case "true":
		return SV{c.True(), tBool}
	case "false":
		return SV{c.False(), tBool}
	case "nil":
		return SV{c.Int(0), types.Typ[types.UntypedNil]}
	case "$k":
		if env.lc == nil {
			ex.serr(e, "$k outside a loop")
		}
		return SV{env.lc.k, tInt}
	case "$keys":
		if env.lc != nil {
			if it := ex.tableLoop(env.st, env.fr, env.lc.header); it != nil {
				ks := it[2].(*T)
				return SV{ks, types.NewSlice(ex.tableOf(it[1].(*T)).typ.Key())}
			}
		}
		ex.serr(e, "$keys outside a loop over a constant table")
	}
	if v, ok := env.vars[e.name]; ok {
		return v
	}
	if env.fr >= 0 && env.fn != nil {
		if v, ok := ex.localByName(env, e.name); ok {
			return v
		}
	}
	if f, ok := ex.spec.fns[e.name]; ok && len(f.params) == 0 {
		return ex.callSpecFn(env, f, nil)
	}
	if env.st != nil {
		if v, ok := env.st.ghosts[e.name]; ok {
			return v
		}
	}
	ex.serr(e, "unknown name %s", e.name)
	return SV{}
}

// localByName resolves a source variable at the current loop header.
func (ex *Exec) localByName(env *specEnv, name string) (SV, bool) {
	fr := env.st.frames[env.fr]
	fn := fr.fn
	// phis of enclosing loop headers first
	if env.lc != nil {
		if v, ok := ex.phiByName(env, env.lc.header, name, fr); ok {
			return v, true
		}
	}
	for i := len(env.st.loops) - 1; i >= 0; i-- {
		l := env.st.loops[i]
		if l.frame == env.fr {
			if v, ok := ex.phiByName(env, l.header, name, fr); ok {
				return v, true
			}
		}
	}
	// any other defined value bound to the name: the last debug reference wins
	var best ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Alloc:
				if in.Comment == name {
					if v, ok := fr.env[in]; ok {
						pt := in.Type().(*types.Pointer).Elem()
						if _, arr := pt.Underlying().(*types.Array); arr {
							continue
						}
						a := ex.addrOf(env.st.shadow(), v, pt, token.NoPos)
						return SV{ex.load(env.st.shadow(), a, token.NoPos), pt}, true
					}
				}
			case *ssa.DebugRef:
				if in.Object() != nil && in.Object().Name() == name && !in.IsAddr {
					if _, ok := fr.env[in.X]; ok {
						best = in.X
					} else if _, ok := in.X.(*ssa.Const); ok && best == nil {
						best = in.X
					}
				}
			}
		}
	}
	for _, p := range fn.Params {
		if p.Name() == name && best == nil {
			best = p
		}
	}
	if best != nil {
		return SV{ex.val(env.st, env.fr, best), best.Type()}, true
	}
	return SV{}, false
}

func (ex *Exec) phiByName(env *specEnv, h *ssa.BasicBlock, name string, fr *frame) (SV, bool) {
	for _, p := range phisOf(h) {
		if p.Comment == name {
			if v, ok := fr.env[p]; ok {
				return SV{v, p.Type()}, true
			}
		}
	}
	return SV{}, false
}

// shadow is a throwaway view of a state: loads through it leave no trace.
func (s *state) shadow() *state {
	n := *s
	n.set = map[int]bool{}
	n.eqlit = map[int]*T{}
	n.pc = nil
	for k, v := range s.set {
		n.set[k] = v
	}
	return &n
}

func (ex *Exec) evalSel(env *specEnv, e *Expr) SV {
	c := ex.c
	if e.args[0].op == "ident" {
		if _, bound := env.vars[e.args[0].name]; !bound {
			if r, ok := ex.pkgMember(env, e.args[0].name, e.name); ok {
				return r
			}
		}
	}
	x := ex.eval(env, e.args[0])
	typ := x.typ
	obj, path, _ := types.LookupFieldOrMethod(typ, true, ex.pkgOf(typ), e.name)
	fv, ok := obj.(*types.Var)
	if !ok || len(path) == 0 {
		ex.serr(e, "no field %s in %s", e.name, typ)
	}
	cur := x
	for _, i := range path {
		t := cur.typ
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			el := pt.Elem()
			st := env.st.shadow()
			var a *AddrV
			switch v := cur.v.(type) {
			case *AddrV:
				a = v
			case *T:
				if aa, ok := ex.addrT[v.id]; ok {
					a = aa
				} else if isRepoType(ex.p.dts, el) {
					a = &AddrV{key: structKey(el), base: v, typ: el}
				} else {
					a = &AddrV{key: "C$" + typeName(el) + "$" + sanitize(ex.sort(el)), base: v, typ: el}
				}
			}
			fa := ex.fieldAddr(a, i)
			cur = SV{ex.specLoad(st, fa), fa.typ}
			continue
		}
		if !isRepoType(ex.p.dts, t) {
			f := t.Underlying().(*types.Struct).Field(i)
			cur = ex.mkSV(env, c.App("xf$"+typeName(t)+"."+f.Name(), ex.sort(f.Type()), ex.tm(env, cur)), f.Type())
			continue
		}
		dt := ex.p.dts.structDT(t)
		cur = ex.mkSV(env, c.Sel(dt, i, ex.tm(env, cur)), dt.fields[i].typ)
	}
	_ = fv
	return cur
}

// pkgMember resolves pkg.Name for a constant, variable or function of the program.
func (ex *Exec) pkgMember(env *specEnv, pk, nm string) (SV, bool) {
	for _, sp := range ex.p.pkgs {
		if sp.Pkg.Name() != pk {
			continue
		}
		switch m := sp.Members[nm].(type) {
		case *ssa.NamedConst:
			v := ex.constVal(env.st, m.Value)
			return SV{v, m.Type()}, true
		case *ssa.Global:
			a := &AddrV{key: "G$" + m.Pkg.Pkg.Name() + "." + m.Name(), base: ex.c.Int(0), typ: m.Type().(*types.Pointer).Elem()}
			return SV{ex.specLoad(env.st.shadow(), a), a.typ}, true
		case *ssa.Function:
			return SV{ex.closTerm(&CloV{fn: m}), m.Signature}, true
		}
	}
	return SV{}, false
}

// specLoad reads memory without adding facts.
func (ex *Exec) specLoad(st *state, a *AddrV) Val {
	if a.isEl {
		return ex.loadElem(st, a)
	}
	if _, ok := a.typ.Underlying().(*types.Struct); ok && isRepoType(ex.p.dts, a.typ) {
		dt := ex.p.dts.structDT(a.typ)
		var fs []*T
		for i := range dt.fields {
			fs = append(fs, ex.term(st, ex.specLoad(st, ex.fieldAddr(a, i))))
		}
		return ex.c.Mk(dt, fs...)
	}
	return ex.fromTerm(st, ex.heapLoad(st, a.key, a.base, ex.sort(a.typ)), a.typ)
}

func (ex *Exec) pkgOf(t types.Type) *types.Package {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (ex *Exec) evalBinary(env *specEnv, e *Expr) SV {
	c := ex.c
	switch e.name {
	case "==>":
		p := ex.bterm(env, e.args[0])
		if isFalse(p) {
			return SV{c.True(), tBool}
		}
		return SV{c.Imp(p, ex.bterm(env, e.args[1])), tBool}
	case "<==>":
		return SV{c.Eq(ex.bterm(env, e.args[0]), ex.bterm(env, e.args[1])), tBool}
	case "&&":
		p := ex.bterm(env, e.args[0])
		if isFalse(p) {
			return SV{p, tBool}
		}
		return SV{c.And(p, ex.bterm(env, e.args[1])), tBool}
	case "||":
		p := ex.bterm(env, e.args[0])
		if isTrue(p) {
			return SV{p, tBool}
		}
		return SV{c.Or(p, ex.bterm(env, e.args[1])), tBool}
	}
	a, b := ex.eval(env, e.args[0]), ex.eval(env, e.args[1])
	if e.name == "==" || e.name == "!=" {
		var r *T
		isN := func(s SV) bool { return s.typ == types.Typ[types.UntypedNil] }
		switch {
		case isN(b):
			r = ex.isNil(env.st.orShadow(), a.v)
		case isN(a):
			r = ex.isNil(env.st.orShadow(), b.v)
		default:
			x, y := ex.tm(env, a), ex.tm(env, b)
			if x.sort != y.sort {
				if x.sort == "Iface" {
					y = ex.makeIface(env.st, b.typ, b.v)
				} else if y.sort == "Iface" {
					x = ex.makeIface(env.st, a.typ, a.v)
				} else {
					ex.serr(e, "comparison of %s and %s in %q", x.sort, y.sort, e.src)
				}
			}
			r = c.Eq(x, y)
		}
		if e.name == "!=" {
			r = c.Not(r)
		}
		return SV{r, tBool}
	}
	x, y := ex.tm(env, a), ex.tm(env, b)
	switch e.name {
	case "<":
		if isStr(x.sort) {
			return SV{c.StrOp("str.<", "Bool", x, y), tBool}
		}
		return SV{c.Lt(x, y), tBool}
	case "<=":
		if isStr(x.sort) {
			return SV{c.StrOp("str.<=", "Bool", x, y), tBool}
		}
		return SV{c.Le(x, y), tBool}
	case ">":
		return SV{c.Lt(y, x), tBool}
	case ">=":
		return SV{c.Le(y, x), tBool}
	case "+":
		if x.sort == "Int" {
			return SV{c.Add(x, y), tInt}
		}
		return ex.mkSV(env, c.Concat(x, y), a.typ)
	case "-":
		return SV{c.Sub(x, y), tInt}
	case "*":
		return SV{c.Mul(x, y), tInt}
	case "/":
		return SV{c.Div(x, y), tInt}
	case "%":
		return SV{c.Mod(x, y), tInt}
	}
	ex.serr(e, "operator %s", e.name)
	return SV{}
}

func (s *state) orShadow() *state {
	if s == nil {
		return &state{backs: map[int]*Back{}, set: map[int]bool{}, eqlit: map[int]*T{}, heap: map[string]*T{}}
	}
	return s
}

func (ex *Exec) evalCall(env *specEnv, e *Expr) SV {
	c := ex.c
	f := e.args[0]
	if f.op != "ident" {
		ex.serr(e, "call of %s", f.op)
	}
	as := e.args[1:]
	arg := func(i int) *T { return ex.tm(env, ex.eval(env, as[i])) }
	switch f.name {
	case "old":
		if env.old == nil {
			ex.serr(e, "old outside a postcondition")
		}
		n := *env
		n.st = env.old
		return ex.eval(&n, as[0])
	case "entry":
		// value at loop entry
		n := *env
		if env.lc == nil || env.lc.entry == nil {
			ex.serr(e, "entry outside a loop")
		}
		n.st = env.lc.entry
		return ex.eval(&n, as[0])
	case "len":
		x := ex.eval(env, as[0])
		if s, ok := x.v.(*SliceV); ok {
			return SV{s.ln, tInt}
		}
		return SV{c.Len(ex.tm(env, x)), tInt}
	case "bytes", "string":
		x := ex.eval(env, as[0])
		return SV{ex.tm(env, x), tStr}
	case "is":
		x := ex.tm(env, ex.eval(env, as[0]))
		return SV{c.Eq(ex.ifTag(x), c.Int(int64(ex.p.dts.tagOf(ex.specType(as[1].name))))), tBool}
	case "implements":
		x := ex.tm(env, ex.eval(env, as[0]))
		return SV{ex.implements(env.st, ex.simp(env.st, ex.ifTag(x)), ex.specType(as[1].name)), tBool}
	case "as":
		x := ex.tm(env, ex.eval(env, as[0]))
		t := ex.specType(as[1].name)
		return ex.mkSV(env, ex.unbox(ex.ifVal(x), ex.sort(t)), t)
	case "iface":
		x := ex.eval(env, as[0])
		t := ex.specType(as[1].name)
		return SV{ex.makeIface(env.st, t, x.v), types.NewInterfaceType(nil, nil)}
	case "zero":
		t := ex.specType(as[0].name)
		return ex.mkSV(env, ex.zero(t), t)
	case "ptrnil":
		return SV{ex.ptrNil(ex.tm(env, ex.eval(env, as[0]))), tBool}
	case "isnil":
		return SV{ex.isNil(env.st, ex.eval(env, as[0]).v), tBool}
	case "buf", "closed", "chcap":
		x := ex.eval(env, as[0])
		ct, ok := x.typ.Underlying().(*types.Chan)
		if !ok {
			ex.serr(e, "buf of %s", x.typ)
		}
		kb, kc, kcap := ex.chanKeys(ct)
		ch := ex.tm(env, x)
		switch f.name {
		case "buf":
			return ex.mkSV(env, ex.heapLoad(env.st, kb, ch, seqSort(ex.sort(ct.Elem()))), types.NewSlice(ct.Elem()))
		case "closed":
			return SV{ex.heapLoad(env.st, kc, ch, "Bool"), tBool}
		}
		return SV{ex.heapLoad(env.st, kcap, ch, "Int"), tInt}
	case "has":
		x := ex.eval(env, as[0])
		mt := x.typ.Underlying().(*types.Map)
		_, h := ex.mapGet(env.st, mt, ex.tm(env, x), arg(1))
		return SV{h, tBool}
	case "mapof":
		// the map content as a pair of arrays cannot be compared directly; use has/index
		ex.serr(e, "mapof")
	case "contains":
		return SV{c.StrOp("str.contains", "Bool", arg(0), arg(1)), tBool}
	case "prefixof":
		return SV{c.StrOp("str.prefixof", "Bool", arg(0), arg(1)), tBool}
	case "suffixof":
		return SV{c.StrOp("str.suffixof", "Bool", arg(0), arg(1)), tBool}
	case "indexof":
		from := c.Int(0)
		if len(as) > 2 {
			from = arg(2)
		}
		return SV{c.StrOp("str.indexof", "Int", arg(0), arg(1), from), tInt}
	case "replace":
		return SV{c.StrOp("str.replace", "String", arg(0), arg(1), arg(2)), tStr}
	case "replaceall":
		return SV{c.StrOp("str.replace_all", "String", arg(0), arg(1), arg(2)), tStr}
	case "toint":
		return SV{c.StrOp("str.to_int", "Int", arg(0)), tInt}
	case "fromint":
		return SV{c.StrOp("str.from_int", "String", arg(0)), tStr}
	case "char":
		return SV{c.FromCode(arg(0)), tStr}
	case "code":
		return SV{c.ToCode(arg(0)), tInt}
	case "unit":
		x := ex.eval(env, as[0])
		return ex.mkSV(env, c.Unit(ex.tm(env, x)), types.NewSlice(x.typ))
	case "unitof":
		ex.serr(e, "unitof")
	case "empty":
		t := ex.specType(as[0].name)
		return ex.mkSV(env, c.Empty(ex.sort(t)), t)
	case "fresh":
		return SV{c.Lt(arg(0), c.Int(0)), tBool}
	case "min":
		return SV{c.Ite(c.Le(arg(0), arg(1)), arg(0), arg(1)), tInt}
	case "max":
		return SV{c.Ite(c.Le(arg(0), arg(1)), arg(1), arg(0)), tInt}
	case "quo":
		return SV{c.Quo(arg(0), arg(1)), tInt}
	case "fn":
		key := as[0].name
		fn := ex.p.funcs[key]
		if fn == nil {
			ex.serr(e, "unknown function %s", key)
		}
		return SV{ex.closTerm(&CloV{fn: fn}), types.NewSignatureType(nil, nil, nil, nil, nil, false)}
	case "errmsg":
		return SV{ex.errMsg(arg(0)), tStr}
	case "global":
		key := as[0].name
		i := strings.LastIndex(key, ".")
		for _, sp := range append(append([]*ssa.Package{}, ex.p.pkgs...), ex.p.ssa.AllPackages()...) {
			if sp.Pkg.Name() == key[:i] {
				if g, ok := sp.Members[key[i+1:]].(*ssa.Global); ok {
					a := &AddrV{key: "G$" + g.Pkg.Pkg.Name() + "." + g.Name(), base: c.Int(0), typ: g.Type().(*types.Pointer).Elem()}
					if t := ex.p.tables[a.key]; t != nil {
						return SV{ex.tableTerm(t), a.typ}
					}
					return SV{ex.specLoad(env.st.shadow(), a), a.typ}
				}
			}
		}
		ex.serr(e, "unknown global %s", key)
	case "pure":
		// pure("pkg.I.M", recv, args...)[.i] : the abstract result of a pure interface method
		key := as[0].name
		idx := 0
		if j := strings.LastIndex(key, "#"); j >= 0 {
			fmt.Sscanf(key[j+1:], "%d", &idx)
			key = key[:j]
		}
		rt := ex.pureResult(key, idx)
		var ts []*T
		for _, a := range as[1:] {
			ts = append(ts, ex.tm(env, ex.eval(env, a)))
		}
		return ex.mkSV(env, ex.pureApp(env.st.orShadow(), key, idx, rt, ts), rt)
	case "f64", "F64":
		return SV{ex.f64Lit(as[0].name), types.Typ[types.Float64]}
	}
	if fn, ok := ex.spec.fns[f.name]; ok && fn.kind == "ghost" {
		x := arg(0)
		a := ex.ghostAddr(env.st, fn, x)
		return SV{ex.fromTerm(env.st.orShadow(), ex.ghostGet(env.st, f.name, x), a.typ), a.typ}
	}
	if f.name == "ref" {
		x := arg(0)
		if x.sort == "Iface" {
			x = ex.unbox(ex.ifVal(x), "Int")
		}
		return SV{x, tInt}
	}
	if fn, ok := ex.spec.fns[f.name]; ok {
		var vs []SV
		for _, a := range as {
			vs = append(vs, ex.eval(env, a))
		}
		return ex.callSpecFn(env, fn, vs)
	}
	if lm, ok := ex.spec.lemmas[f.name]; ok {
		var vs []SV
		for _, a := range as {
			v := ex.eval(env, a)
			if sl, ok := v.v.(*SliceV); ok && sl.back != 0 && env.st != nil {
				v = ex.mkSV(env, ex.tm(env, v), v.typ)
			}
			vs = append(vs, v)
		}
		if ex.lemmaOrd >= 0 && !lm.axiom && lm.order >= ex.lemmaOrd {
			if lm.order != ex.lemmaOrd || lm.dec == nil {
				ex.serr(e, "lemma %s is not available here", lm.name)
			}
			// induction hypothesis, guarded by the measure
			e2 := &specEnv{vars: map[string]SV{}, fr: -1}
			for i, p := range lm.params {
				e2.vars[p] = vs[i]
			}
			m0 := ex.tm(env, ex.eval(env, lm.dec))
			m1 := ex.tm(e2, ex.eval(e2, lm.dec))
			return SV{ex.c.Imp(ex.c.And(ex.c.Le(ex.c.Int(0), m1), ex.c.Lt(m1, m0)), ex.lemmaInstance(lm, vs)), tBool}
		}
		return SV{ex.lemmaInstance(lm, vs), tBool}
	}
	ex.serr(e, "unknown spec function %s", f.name)
	return SV{}
}

func (ex *Exec) pureApp(st *state, key string, idx int, rt types.Type, ts []*T) *T {
	return ex.c.App(fmt.Sprintf("pure$%s$%d", sanitize(key), idx), ex.sort(rt), ts...)
}

// pureResult finds the result type of an interface method or function key.
func (ex *Exec) pureResult(key string, idx int) types.Type {
	if f, ok := ex.p.funcs[key]; ok {
		return f.Signature.Results().At(idx).Type()
	}
	if strings.HasPrefix(key, "func()_") {
		return ex.specType(key[7:])
	}
	i := strings.LastIndex(key, ".")
	t := ex.p.typeByName(key[:i])
	if t == nil {
		panic(specErr{"unknown pure " + key})
	}
	obj, _, _ := types.LookupFieldOrMethod(t, true, ex.pkgOf(t), key[i+1:])
	if m, ok := obj.(*types.Func); ok {
		return m.Type().(*types.Signature).Results().At(idx).Type()
	}
	if sg := ex.externSig(key); sg != nil {
		return sg.Results().At(idx).Type()
	}
	panic(specErr{"unknown pure " + key})
}

func (ex *Exec) externSig(key string) *types.Signature {
	i := strings.LastIndex(key, ".")
	for _, sp := range ex.p.ssa.AllPackages() {
		if sp.Pkg.Path() == key[:i] {
			if o, ok := sp.Pkg.Scope().Lookup(key[i+1:]).(*types.Func); ok {
				return o.Type().(*types.Signature)
			}
		}
	}
	return nil
}

func (ex *Exec) callSpecFn(env *specEnv, f *SpecFn, vs []SV) SV {
	if len(vs) != len(f.params) {
		panic(specErr{fmt.Sprintf("%s expects %d arguments", f.name, len(f.params))})
	}
	rt := ex.specType(f.ret)
	switch f.kind {
	case "def":
		if env.depth > 60 {
			panic(specErr{"macro recursion in " + f.name})
		}
		n := &specEnv{vars: map[string]SV{}, st: env.st, old: env.old, fr: -1, depth: env.depth + 1}
		for i, p := range f.params {
			v := vs[i]
			if f.types[i] != "" && v.typ == types.Typ[types.UntypedNil] {
				v = ex.mkSV(env, ex.zero(ex.specType(f.types[i])), ex.specType(f.types[i]))
			}
			n.vars[p] = v
		}
		r := ex.eval(n, f.body)
		return SV{r.v, r.typ}
	default:
		var ts []*T
		for i, v := range vs {
			t := ex.tm(env, v)
			want := ex.sort(ex.specType(f.types[i]))
			if t.sort != want && want == "Iface" {
				t = ex.makeIface(env.st, v.typ, v.v)
			}
			if t.sort != want {
				panic(specErr{fmt.Sprintf("argument %d of %s has sort %s, want %s", i+1, f.name, t.sort, want)})
			}
			ts = append(ts, t)
		}
		return ex.mkSV(env, ex.c.App(f.kind+"$"+f.name, ex.sort(rt), ts...), rt)
	}
}

// unfold gives the defining equation of a recursive spec function application.
func (ex *Exec) unfold(t *T) *T {
	name := strings.TrimPrefix(t.lit, "rec$")
	f := ex.spec.fns[name]
	if f == nil {
		return nil
	}
	env := &specEnv{vars: map[string]SV{}, fr: -1}
	for i, p := range f.params {
		env.vars[p] = ex.mkSV(env, t.args[i], ex.specType(f.types[i]))
	}
	b := ex.eval(env, f.body)
	return ex.c.Eq(t, ex.tm(env, b))
}

// lemmaInstance is requires ==> ensures for the given arguments.
func (ex *Exec) lemmaInstance(l *Lemma, vs []SV) *T {
	env := &specEnv{vars: map[string]SV{}, fr: -1}
	if len(vs) != len(l.params) {
		panic(specErr{fmt.Sprintf("lemma %s expects %d arguments", l.name, len(l.params))})
	}
	for i, p := range l.params {
		env.vars[p] = vs[i]
	}
	req, ens := ex.c.True(), ex.c.True()
	for _, r := range l.req {
		req = ex.c.And(req, ex.bterm(env, r))
	}
	for _, r := range l.ens {
		ens = ex.c.And(ens, ex.bterm(env, r))
	}
	if l.axiom {
		ex.assumed["axiom "+l.name] = true
	} else {
		ex.assumed["lemma "+l.name] = true
	}
	return ex.c.Imp(req, ens)
}

// evalInv evaluates a loop clause in the current state.
func (ex *Exec) evalInv(st *state, fr int, lc *loopCtx, e *Expr) *T {
	env := &specEnv{vars: ex.topEnv, st: st, old: ex.entry, lc: lc, fr: fr, fn: st.frames[fr].fn}
	// locals shadow parameters: resolve loop variables first
	vars := map[string]SV{}
	for k, v := range ex.topEnv {
		vars[k] = v
	}
	env.vars = vars
	if st.frames[fr].fn != ex.top {
		for _, p := range st.frames[fr].fn.Params {
			if v, ok := st.frames[fr].env[p]; ok {
				vars[p.Name()] = SV{v, p.Type()}
			}
		}
	}
	for _, p := range phisOf(lc.header) {
		if p.Comment != "" {
			if v, ok := st.frames[fr].env[p]; ok {
				vars[p.Comment] = SV{v, p.Type()}
			}
		}
	}
	return ex.tm(env, ex.eval(env, e))
}

func (ex *Exec) evalTop(st *state, e *Expr) SV {
	env := &specEnv{vars: ex.topEnv, st: st, old: ex.entry, fr: -1}
	return ex.eval(env, e)
}

func (ex *Exec) loopSpec(st *state, fr int, l *loopInfo) *LoopSpec {
	if ex.con == nil {
		return nil
	}
	fn := st.frames[fr].fn
	if fn == ex.top {
		if s, ok := ex.con.loops[l.ord]; ok {
			return s
		}
		return nil
	}
	// a loop of an inlined helper: continue the numbering after the loops of
	// the function under verification
	if con := ex.spec.funcs[funcKey(fn)]; con != nil {
		if s, ok := con.loops[l.ord]; ok {
			return s
		}
		return nil
	}
	n, ok := ex.loopOrd[l.header]
	if !ok {
		ex.lcount++
		n = len(ex.loopsOf(ex.top).list) + ex.lcount
		ex.loopOrd[l.header] = n
	}
	if s, ok := ex.con.loops[n]; ok {
		return s
	}
	return nil
}
