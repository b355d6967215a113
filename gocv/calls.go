package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) callArgs(st *state, fr int, cc *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, ex.val(st, fr, a))
	}
	return ex.val(st, fr, cc.Value), args
}

func (ex *Exec) doCall(st *state, fr int, cc *ssa.CallCommon, in *ssa.Call, k cont) {
	fv, args := ex.callArgs(st, fr, cc)
	ex.call(st, fr, cc, fv, args, in, k)
}

func (ex *Exec) call(st *state, fr int, cc *ssa.CallCommon, fv Val, args []Val, in ssa.Instruction, k cont) {
	pos := cc.Pos()
	if cc.IsInvoke() {
		ex.invoke(st, fr, cc, fv, args, pos, k)
		return
	}
	if b, ok := fv.(*ssa.Builtin); ok {
		k(st, ex.builtin(st, fr, b, cc, args, pos))
		return
	}
	if cl, ok := fv.(*CloV); ok {
		ex.callStatic(st, fr, cl.fn, cl.bind, args, pos, k)
		return
	}
	t := ex.term(st, fv)
	if cl, ok := ex.closT[t.id]; ok {
		ex.callStatic(st, fr, cl.fn, cl.bind, args, pos, k)
		return
	}
	if t.op == "ite" {
		// case split over known functions
		s1 := st.clone()
		ex.assume(s1, t.args[0])
		if !s1.dead {
			ex.call(s1, fr, cc, t.args[1], args, in, k)
		}
		ex.assume(st, ex.c.Not(t.args[0]))
		if !st.dead {
			ex.call(st, fr, cc, t.args[2], args, in, k)
		}
		return
	}
	ex.oblige(st, "nil-deref", "call of a non-nil function", pos, ex.c.Not(ex.c.Eq(t, ex.c.Int(0))))
	tn := strings.ReplaceAll(types.TypeString(cc.Value.Type(), nil), modPath+"/", "")
	tn = strings.ReplaceAll(tn, " ", "_")
	if con := ex.spec.funcs["functype:"+tn]; con != nil {
		if con.trusted {
			ex.assumed["trusted contract of function values of type "+tn] = true
		} else {
			ex.usedCon["functype "+tn] = true
		}
		ex.applyContract(st, con, nil, cc.Signature(), append([]Val{t}, args...), true, pos, k)
		return
	}
	// unknown function value: arbitrary result
	ex.assumed["unknown function value of type "+tn+": arbitrary result, no effect on modelled state"] = true
	k(st, ex.freshResults(st, cc.Signature(), "dyn"))
}

func (ex *Exec) freshResults(st *state, sg *types.Signature, hint string) []Val {
	var res []Val
	for i := 0; i < sg.Results().Len(); i++ {
		res = append(res, ex.freshVal(st, fmt.Sprintf("%s_r%d", hint, i), sg.Results().At(i).Type()))
	}
	return res
}

func recvKey(t types.Type, name string) string {
	s := strings.ReplaceAll(types.TypeString(t, nil), modPath+"/", "")
	return s + "." + name
}

func (ex *Exec) invoke(st *state, fr int, cc *ssa.CallCommon, fv Val, args []Val, pos token.Pos, k cont) {
	c := ex.c
	x := ex.term(st, fv)
	tag := ex.ifTag(x)
	if o, ok := st.eqlit[tag.id]; ok {
		tag = o
	}
	it := cc.Value.Type().Underlying().(*types.Interface)
	name := cc.Method.Name()
	if n, ok := tag.intv(); ok {
		if n == 0 {
			ex.oblige(st, "nil-deref", "method call on a non-nil interface", pos, c.False())
			return
		}
		t := ex.p.dts.typeOfTag(int(n))
		fn := ex.methodOf(t, cc.Method)
		if fn != nil && (fn.Blocks != nil || ex.hasModel(fn)) {
			recv := ex.fromTerm(st, ex.unbox(ex.ifVal(x), ex.sort(t)), t)
			ex.callStatic(st, fr, fn, nil, append([]Val{recv}, args...), pos, k)
			return
		}
	}
	if tag.op == "ite" {
		s1 := st.clone()
		ex.assume(s1, tag.args[0])
		if !s1.dead && ex.feasible(s1) {
			ex.invoke(s1, fr, cc, ex.resolveIte(s1, x), args, pos, k)
		}
		ex.assume(st, c.Not(tag.args[0]))
		if !st.dead && ex.feasible(st) {
			ex.invoke(st, fr, cc, ex.resolveIte(st, x), args, pos, k)
		}
		return
	}
	ex.oblige(st, "nil-deref", "method call on a non-nil interface", pos, c.Not(c.Eq(tag, c.Int(0))))
	key := recvKey(cc.Value.Type(), name)
	if name == "Error" && it.NumMethods() == 1 {
		k(st, []Val{ex.errMsg(x)})
		return
	}
	if m, ok := ifaceModels[name]; ok && m(ex, st, x, args, pos, k) {
		ex.assumed["model of readers and writers: "+name] = true
		return
	}
	if con := ex.spec.funcs["iface:"+key]; con != nil {
		ex.usedCon["iface "+key] = true
		ex.assumed["interface method "+key+" satisfies its contract in every implementation (dynamic dispatch not expanded)"] = true
		ex.applyContract(st, con, nil, cc.Signature(), append([]Val{x}, args...), true, pos, k)
		return
	}
	// interfaces embedding the method: look for a contract on the embedded interface
	if n, ok := cc.Method.Type().(*types.Signature); ok && n.Recv() != nil {
		k2 := recvKey(n.Recv().Type(), name)
		if con := ex.spec.funcs["iface:"+k2]; con != nil {
			ex.assumed["interface method "+k2+" satisfies its contract in every implementation (dynamic dispatch not expanded)"] = true
			ex.applyContract(st, con, nil, cc.Signature(), append([]Val{x}, args...), true, pos, k)
			return
		}
	}
	if n := ex.provedTag(st, tag, cc.Method); n > 0 {
		ex.assume(st, c.Eq(tag, c.Int(int64(n))))
		t := ex.p.dts.typeOfTag(n)
		ex.wellTyped(st, ex.unbox(ex.ifVal(x), ex.sort(t)), t)
		ex.invoke(st, fr, cc, x, args, pos, k)
		return
	}
	impls := ex.p.implementers(it)
	if len(impls) >= 1 && len(impls) <= 2 && !strings.Contains(key, "domain.") {
		ex.assumed["closed world: every "+types.TypeString(cc.Value.Type(), nil)+" is one of the repository's implementations"] = true
		for i, t := range impls {
			s := st
			if i < len(impls)-1 {
				s = st.clone()
				ex.assume(s, c.Eq(tag, c.Int(int64(ex.p.dts.tagOf(t)))))
				ex.assume(st, c.Not(c.Eq(tag, c.Int(int64(ex.p.dts.tagOf(t))))))
			} else {
				ex.assume(s, c.Eq(tag, c.Int(int64(ex.p.dts.tagOf(t)))))
			}
			if s.dead {
				continue
			}
			fn := ex.methodOf(t, cc.Method)
			tt := ex.unbox(ex.ifVal(x), ex.sort(t))
			ex.wellTyped(s, tt, t)
			recv := ex.fromTerm(s, tt, t)
			ex.callStatic(s, fr, fn, nil, append([]Val{recv}, args...), pos, k)
		}
		return
	}
	ex.assumed["interface method "+key+": arbitrary result, no effect on modelled state"] = true
	k(st, ex.freshResults(st, cc.Signature(), name))
}

// provedTag finds a dynamic type mentioned in the path condition that the tag provably has.
func (ex *Exec) provedTag(st *state, tag *T, m *types.Func) int {
	cand := map[int]bool{}
	seen := map[int]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "=" {
			for i := 0; i < 2; i++ {
				if n, ok := t.args[i].intv(); ok && n > 0 && t.args[1-i].op == "sel:Iface:0" {
					if typ := ex.p.dts.typeOfTag(int(n)); typ != nil && ex.methodOf(typ, m) != nil {
						cand[int(n)] = true
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range st.pc {
		walk(t)
	}
	var ns []int
	for n := range cand {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	for _, n := range ns {
		o := &Obligation{pc: st.pc, goal: ex.c.Eq(tag, ex.c.Int(int64(n)))}
		if checkSat(ex.query(o, 1, false), 1000).status == "unsat" {
			return n
		}
	}
	return 0
}

func (ex *Exec) resolveIte(st *state, x *T) *T {
	for x.op == "ite" {
		p := ex.simp(st, x.args[0])
		if isTrue(p) {
			x = x.args[1]
		} else if isFalse(p) {
			x = x.args[2]
		} else {
			break
		}
	}
	if x.op == "mk:Iface" {
		return ex.c.Mk(ex.p.dts.iface, ex.resolveIte(st, x.args[0]), ex.resolveIte(st, x.args[1]))
	}
	return x
}

func (ex *Exec) methodOf(t types.Type, m *types.Func) *ssa.Function {
	ex.p.mu.Lock()
	defer ex.p.mu.Unlock()
	sel := ex.p.ssa.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return ex.p.ssa.MethodValue(sel)
}

func extName(fn *ssa.Function) string {
	s := fn.String()
	return s
}

func (ex *Exec) isRepoFn(fn *ssa.Function) bool {
	return strings.Contains(fn.String(), modPath) || fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
}

func (ex *Exec) hasModel(fn *ssa.Function) bool {
	if _, ok := models[extName(fn)]; ok {
		return true
	}
	return ex.spec.funcs[extName(fn)] != nil
}

func (ex *Exec) callStatic(st *state, fr int, fn *ssa.Function, bind, args []Val, pos token.Pos, k cont) {
	name := extName(fn)
	if m, ok := models[name]; ok {
		ex.assumed["model of "+name] = true
		m(ex, st, fn, args, pos, k)
		return
	}
	key := funcKey(fn)
	con := ex.spec.funcs[key]
	if con == nil && !ex.isRepoFn(fn) {
		con = ex.spec.funcs[name]
	}
	if con != nil && !con.inline {
		if con.trusted {
			ex.assumed["trusted contract of "+key] = true
		} else {
			ex.usedCon[key] = true
		}
		ex.applyContract(st, con, fn, fn.Signature, args, false, pos, k)
		return
	}
	if con == nil && bind == nil {
		if ft := ex.functypeOf(fn); ft != nil {
			ex.usedCon["functype "+ft.key] = true
			ex.applyContract(st, ft, nil, fn.Signature, append([]Val{ex.closTerm(&CloV{fn: fn})}, args...), true, pos, k)
			return
		}
	}
	if fn.Blocks == nil || !ex.isRepoFn(fn) && fn.Synthetic == "" && !stdInline[name] {
		ex.assumed["unmodelled "+name+": arbitrary result, no effect on modelled state"] = true
		k(st, ex.freshResults(st, fn.Signature, fn.Name()))
		return
	}
	for _, f := range ex.stack {
		if f == fn {
			ex.fail("recursive call of %s without a contract", key)
		}
	}
	if fn == ex.top {
		ex.fail("recursive call of %s without a contract", key)
	}
	if len(ex.stack) >= maxInline {
		ex.fail("inlining depth exceeded at %s", key)
	}
	if fn.Synthetic == "" {
		ex.inlined[key] = true
	}
	ex.stack = append(ex.stack, fn)
	ex.callFn(st, fn, bind, args, func(st2 *state, res []Val) {
		saved := ex.stack
		ex.stack = ex.stack[:len(ex.stack)-1]
		k(st2, res)
		ex.stack = saved
	})
	ex.stack = ex.stack[:len(ex.stack)-1]
}

// functypeOf finds the contracted function type of which fn is used as a value.
func (ex *Exec) functypeOf(fn *ssa.Function) *FuncSpec {
	for _, k := range ex.spec.forder {
		con := ex.spec.funcs[k]
		if con.kind != "functype" {
			continue
		}
		for _, f := range ex.p.functionsOfType(con.key) {
			if f == fn {
				return con
			}
		}
	}
	return nil
}

// applyContract replaces a call by the callee's contract.
func (ex *Exec) applyContract(st *state, con *FuncSpec, fn *ssa.Function, sg *types.Signature, args []Val, hasRecv bool, pos token.Pos, k cont) {
	c := ex.c
	env := &specEnv{vars: map[string]SV{}, st: st, fr: -1}
	ptypes := paramTypes(sg, hasRecv)
	names := con.params
	for i, a := range args {
		var t types.Type
		if i < len(ptypes) {
			t = ptypes[i]
		}
		n := ""
		if i < len(names) {
			n = names[i]
		} else if fn != nil && i < len(fn.Params) {
			n = fn.Params[i].Name()
		}
		if fn != nil && fn.Params != nil && i < len(fn.Params) {
			t = fn.Params[i].Type()
		}
		if t == nil {
			t = types.NewInterfaceType(nil, nil)
		}
		if n != "" {
			env.vars[n] = SV{a, t}
		}
	}
	cname := con.key
	for i, r := range con.req {
		ex.oblige(st, "precondition", fmt.Sprintf("precondition %d of %s: %s", i+1, cname, r.src), pos, ex.bterm(env, r))
	}
	pre := st.clone()
	env.old = pre
	// havoc
	for _, m := range con.mods {
		ex.havocLoc(st, &specEnv{vars: env.vars, st: pre, old: pre, fr: -1}, m)
	}
	if con.anyMod {
		ex.fail("call of %s: modifies *", cname)
	}
	// results
	var res []Val
	if con.pure {
		var ts []*T
		for _, a := range args {
			ts = append(ts, ex.term(st, a))
		}
		for i := 0; i < sg.Results().Len(); i++ {
			rt := sg.Results().At(i).Type()
			t := ex.pureApp(st, con.key, i, rt, ts)
			ex.wellTyped(st, t, rt)
			res = append(res, ex.fromTerm(st, t, rt))
		}
	} else {
		for i := 0; i < sg.Results().Len(); i++ {
			rt := sg.Results().At(i).Type()
			if con.freshRes {
				if _, ok := rt.Underlying().(*types.Pointer); ok {
					b := c.Fresh("isnilres", "Bool")
					r := ex.newRef()
					res = append(res, c.Ite(b, c.Int(0), r))
					continue
				}
				if _, ok := rt.Underlying().(*types.Interface); ok && !types.Identical(rt, tErr) {
					// a fresh interface value is never nil
					tag := c.Fresh("tag", "Int")
					ex.assume(st, c.Lt(c.Int(0), tag))
					res = append(res, c.Mk(ex.p.dts.iface, tag, ex.box(ex.newRef())))
					continue
				}
			}
			res = append(res, ex.freshVal(st, sanitize(cname)+"_r", rt))
		}
	}
	ex.bindResults(env, con, sg, res)
	env.st = st
	for _, e := range con.ens {
		ex.assume(st, ex.bterm(env, e))
		if st.dead {
			return
		}
	}
	if con.freshRes {
		for i, r := range res {
			if t, ok := r.(*T); ok && t.op == "ite" {
				p := ex.simp(st, t.args[0])
				if isTrue(p) {
					res[i] = t.args[1]
				} else if isFalse(p) {
					res[i] = t.args[2]
				}
			}
		}
	}
	k(st, res)
}

func paramTypes(sg *types.Signature, hasRecv bool) []types.Type {
	var r []types.Type
	if hasRecv {
		r = append(r, types.NewInterfaceType(nil, nil))
		if sg.Recv() != nil {
			r[0] = sg.Recv().Type()
		}
	} else if sg.Recv() != nil {
		r = append(r, sg.Recv().Type())
	}
	for i := 0; i < sg.Params().Len(); i++ {
		r = append(r, sg.Params().At(i).Type())
	}
	return r
}

func (ex *Exec) bindResults(env *specEnv, con *FuncSpec, sg *types.Signature, res []Val) {
	for i, r := range res {
		t := sg.Results().At(i).Type()
		s := SV{r, t}
		if i == 0 {
			env.vars["result"] = s
		}
		env.vars[fmt.Sprintf("result%d", i)] = s
		if n := sg.Results().At(i).Name(); n != "" && n != "_" {
			if _, ok := env.vars[n]; !ok {
				env.vars[n] = s
			}
		}
		if i < len(con.results) {
			env.vars[con.results[i]] = s
		}
		if i > 0 && i == len(res)-1 && types.Identical(t, tErr) {
			env.vars["err"] = s
		}
	}
}

// locOf evaluates a modifies target to heap locations.
func (ex *Exec) locsOf(env *specEnv, m *Expr) []modLoc {
	switch m.op {
	case "sel":
		x := ex.eval(env, m.args[0])
		if m.name == "$all" {
			pt, ok := x.typ.Underlying().(*types.Pointer)
			if !ok {
				ex.serr(m, "$all of non-pointer")
			}
			a := ex.specAddr(env, x, pt.Elem())
			return ex.fieldLocs(a)
		}
		typ := x.typ
		_, path, _ := types.LookupFieldOrMethod(typ, true, ex.pkgOf(typ), m.name)
		if len(path) == 0 {
			ex.serr(m, "no field %s in %s", m.name, typ)
		}
		cur := x
		for j, i := range path {
			pt, ok := cur.typ.Underlying().(*types.Pointer)
			if !ok {
				ex.serr(m, "modifies through a value")
			}
			a := ex.fieldAddr(ex.specAddr(env, cur, pt.Elem()), i)
			if j == len(path)-1 {
				return ex.fieldLocs(a)
			}
			if _, ok := a.typ.Underlying().(*types.Struct); ok {
				cur = SV{a, types.NewPointer(a.typ)}
				continue
			}
			cur = SV{ex.specLoad(env.st.shadow(), a), a.typ}
		}
	case "call":
		if f := ex.spec.fns[m.args[0].name]; f != nil && f.kind == "ghost" {
			x := ex.eval(env, m.args[1])
			a := ex.ghostAddr(env.st, f, ex.tm(env, x))
			return []modLoc{{key: a.key, base: a.base}}
		}
		switch m.args[0].name {
		case "chan":
			x := ex.eval(env, m.args[1])
			ct := x.typ.Underlying().(*types.Chan)
			kb, kc, _ := ex.chanKeys(ct)
			t := ex.tm(env, x)
			ex.heapArr(env.st, kb, seqSort(ex.sort(ct.Elem())))
			ex.heapArr(env.st, kc, "Bool")
			return []modLoc{{key: kb, base: t}, {key: kc, base: t}}
		case "map":
			x := ex.eval(env, m.args[1])
			mt := x.typ.Underlying().(*types.Map)
			vk, hk := ex.mapKeys(mt)
			ex.heapArr(env.st, vk, arrSort(ex.sort(mt.Key()), ex.sort(mt.Elem())))
			ex.heapArr(env.st, hk, arrSort(ex.sort(mt.Key()), "Bool"))
			t := ex.tm(env, x)
			return []modLoc{{key: vk, base: t}, {key: hk, base: t}}
		case "deref":
			x := ex.eval(env, m.args[1])
			pt := x.typ.Underlying().(*types.Pointer)
			a := ex.specAddr(env, x, pt.Elem())
			return ex.fieldLocs(a)
		case "every":
			// every("pkg.T.f"): that field of any object
			key := m.args[1].name
			i := strings.LastIndex(key, ".")
			t := ex.specType(key[:i])
			s := t.Underlying().(*types.Struct)
			for j := 0; j < s.NumFields(); j++ {
				if s.Field(j).Name() == key[i+1:] {
					a := ex.fieldAddr(&AddrV{key: structKey(t), base: ex.c.Int(0), typ: t}, j)
					ls := ex.fieldLocs(a)
					for n := range ls {
						ls[n].base = nil
					}
					return ls
				}
			}
		}
	}
	ex.serr(m, "cannot interpret modifies %s", m.src)
	return nil
}

func (ex *Exec) specAddr(env *specEnv, x SV, el types.Type) *AddrV {
	switch v := x.v.(type) {
	case *AddrV:
		return v
	case *T:
		if a, ok := ex.addrT[v.id]; ok {
			return a
		}
		if _, ok := el.Underlying().(*types.Struct); ok && isRepoType(ex.p.dts, el) {
			return &AddrV{key: structKey(el), base: v, typ: el}
		}
		return &AddrV{key: "C$" + typeName(el) + "$" + sanitize(ex.sort(el)), base: v, typ: el}
	}
	panic(specErr{"address expected"})
}

func (ex *Exec) fieldLocs(a *AddrV) []modLoc {
	if _, ok := a.typ.Underlying().(*types.Struct); ok && isRepoType(ex.p.dts, a.typ) {
		s := a.typ.Underlying().(*types.Struct)
		var r []modLoc
		for i := 0; i < s.NumFields(); i++ {
			r = append(r, ex.fieldLocs(ex.fieldAddr(a, i))...)
		}
		return r
	}
	ex.heapSort[a.key] = arrSort("Int", ex.sort(a.typ))
	ex.heapTyp[a.key] = a.typ
	return []modLoc{{key: a.key, base: a.base}}
}

func (ex *Exec) havocLoc(st *state, env *specEnv, m *Expr) {
	for _, l := range ex.locsOf(env, m) {
		srt := ex.heapSort[l.key]
		h := st.heap[l.key]
		if h == nil {
			h = ex.c.Const("H0$"+l.key, srt)
		}
		if l.base == nil {
			if len(ex.dry) > 0 {
				for _, d := range ex.dry {
					d.writes[writeKey{l.key, -1}] = ex.c.Int(0)
				}
			}
			ex.frameCheckAll(st, l.key)
			st.heap[l.key] = ex.c.Fresh("H$"+l.key, h.sort)
			continue
		}
		v := ex.c.Fresh("h$"+l.key, arrElem(h.sort))
		if t := ex.heapTyp[l.key]; t != nil {
			ex.wellTyped(st, v, t)
		}
		ex.frameCheck(st, l.key, l.base)
		ex.noteWrite(l.key, l.base)
		st.heap[l.key] = ex.c.Store(h, l.base, v)
	}
}

func (ex *Exec) frameCheckAll(st *state, key string) {
	if ex.con == nil || ex.con.anyMod || ex.topDry() != nil {
		return
	}
	for _, m := range ex.con.modLocs {
		if m.key == key && m.base == nil {
			return
		}
	}
	ex.oblige(st, "frame", "modifies only what the contract allows ("+key+" of any object)", token.NoPos, ex.c.False())
}

// builtins -----------------------------------------------------------------

func (ex *Exec) builtin(st *state, fr int, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, pos token.Pos) []Val {
	c := ex.c
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *SliceV:
			return []Val{x.ln}
		case *T:
			switch u := cc.Args[0].Type().Underlying().(type) {
			case *types.Map:
				_ = u
				n := c.Fresh("maplen", "Int")
				ex.assume(st, c.Le(c.Int(0), n))
				ex.assume(st, c.Imp(c.Eq(x, c.Int(0)), c.Eq(n, c.Int(0))))
				return []Val{n}
			case *types.Chan:
				kb, _, _ := ex.chanKeys(u)
				return []Val{c.Len(ex.heapLoad(st, kb, x, seqSort(ex.sort(u.Elem()))))}
			}
			return []Val{c.Len(x)}
		}
	case "cap":
		if x, ok := args[0].(*SliceV); ok {
			n := c.Fresh("cap", "Int")
			ex.assume(st, c.Le(x.ln, n))
			return []Val{n}
		}
	case "append":
		return []Val{ex.appendSlice(st, args[0].(*SliceV), args[1], cc)}
	case "copy":
		dst := args[0].(*SliceV)
		src := ex.term(st, args[1])
		n := c.Ite(c.Le(dst.ln, c.Len(src)), dst.ln, c.Len(src))
		n = ex.simp2(st, n)
		ex.writeInto(st, dst, c.Int(0), c.Extract(src, c.Int(0), n), n)
		return []Val{n}
	case "close":
		ch := ex.term(st, args[0])
		ct := cc.Args[0].Type().Underlying().(*types.Chan)
		_, kc, _ := ex.chanKeys(ct)
		ex.oblige(st, "chan", "close of an open channel", pos, c.And(c.Not(c.Eq(ch, c.Int(0))), c.Not(ex.heapLoad(st, kc, ch, "Bool"))))
		ex.frameCheck(st, kc, ch)
		ex.heapStore(st, kc, ch, c.True())
		return nil
	case "delete":
		m := ex.term(st, args[0])
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		_, hk := ex.mapKeys(mt)
		hs := arrSort(ex.sort(mt.Key()), "Bool")
		ex.heapStore(st, hk, m, c.mk("store", "", hs, ex.heapLoad(st, hk, m, hs), ex.term(st, args[1]), c.False()))
		return nil
	case "ssa:wrapnilchk":
		ex.oblige(st, "nil-deref", "non-nil receiver", pos, c.Not(ex.isNil(st, args[0])))
		return []Val{args[0]}
	case "min", "max":
		a, b2 := ex.term(st, args[0]), ex.term(st, args[1])
		p := c.Le(a, b2)
		if b.Name() == "max" {
			p = c.Le(b2, a)
		}
		return []Val{c.Ite(p, a, b2)}
	case "recover":
		return []Val{ex.zero(types.NewInterfaceType(nil, nil))}
	case "print", "println":
		return nil
	}
	ex.fail("builtin %s", b.Name())
	return nil
}

func (ex *Exec) simp2(st *state, t *T) *T {
	if t.op == "ite" {
		p := ex.simp(st, t.args[0])
		return ex.c.Ite(p, t.args[1], t.args[2])
	}
	return t
}

// writeInto overwrites dst[off:off+n] with data.
func (ex *Exec) writeInto(st *state, dst *SliceV, off, data, n *T) {
	c := ex.c
	if z, ok := n.intv(); ok && z == 0 {
		return
	}
	if dst.back == 0 {
		ex.fail("copy into a shared slice")
	}
	b := *st.backs[dst.back]
	if !b.owned {
		ex.fail("copy into a slice that is not owned (%s)", b.origin)
	}
	for _, d := range ex.dry {
		if dst.back <= d.nback0 {
			d.writes[writeKey{fmt.Sprintf("back$%d", dst.back), 0}] = c.Int(0)
		}
	}
	cur := ex.backTerm(st, &b)
	at := c.Add(dst.off, off)
	end := c.Add(at, n)
	full := c.Len(cur)
	// whole overwrite
	if z, ok := at.intv(); ok && z == 0 && c.Eq(ex.lenOf(st, cur, dst), n) == c.True() {
		b.term = data
	} else {
		b.term = c.Concat(c.Extract(cur, c.Int(0), at), data, c.Extract(cur, end, c.Sub(full, end)))
	}
	b.elems = nil
	st.backs[dst.back] = &b
}

func (ex *Exec) lenOf(st *state, cur *T, s *SliceV) *T {
	if cur.op == "app" && (strings.HasPrefix(cur.lit, "zeros$") || strings.HasPrefix(cur.lit, "rec$zeros_")) {
		return cur.args[0]
	}
	return ex.c.Len(cur)
}

func (ex *Exec) appendSlice(st *state, x *SliceV, y Val, cc *ssa.CallCommon) Val {
	c := ex.c
	typ := x.typ
	var nilT *T
	var yl *T
	ys, isS := y.(*SliceV)
	if isS {
		yl = ys.ln
	} else {
		yl = c.Len(ex.term(st, y))
	}
	if n, ok := yl.intv(); ok && n > 0 {
		nilT = c.False()
	} else if x.nilT != nil {
		nilT = c.And(x.nilT, c.Eq(yl, c.Int(0)))
	}
	if isS {
		xe, ok1 := ex.knownElems(st, x)
		ye, ok2 := ex.knownElems(st, ys)
		if ok1 && ok2 && len(xe)+len(ye) <= 64 {
			ex.nback++
			st.backs[ex.nback] = &Back{elems: append(append([]Val{}, xe...), ye...), elem: typ.Underlying().(*types.Slice).Elem(), owned: true, origin: "append"}
			return &SliceV{typ: typ, back: ex.nback, off: c.Int(0), ln: c.Int(int64(len(xe) + len(ye))), nilT: nilT}
		}
	}
	t := c.Concat(ex.content(st, x), ex.term(st, y))
	ex.nback++
	st.backs[ex.nback] = &Back{term: t, elem: typ.Underlying().(*types.Slice).Elem(), owned: true, origin: "append"}
	return &SliceV{typ: typ, back: ex.nback, off: c.Int(0), ln: c.Len(t), nilT: nilT}
}
