package main

import (
	"go/token"
	"go/types"
	"os"
	"path/filepath"

	"golang.org/x/tools/go/ssa"
)

// Ghost state: "ghost name(x T) R" declares a mutable value per object. The
// readers of the library are modelled by the ghost rd(r), the bytes that are
// still to be read, and rerr(r), the error at their end (nil for io.EOF). A
// bytes.Buffer is read from and written to through its own content.

func verifDir() string {
	if d := os.Getenv("GOCV_VERIF"); d != "" {
		return d
	}
	if e, err := os.Executable(); err == nil {
		if d := filepath.Dir(filepath.Dir(e)); d != "" {
			if _, err := os.Stat(filepath.Join(d, "contracts")); err == nil {
				return d
			}
		}
	}
	d, _ := os.Getwd()
	return d
}

var bufferType types.Type // *bytes.Buffer, when loaded

func (p *Prog) bufferPtr() types.Type {
	p.mu.Lock()
	defer p.mu.Unlock()
	if bufferType == nil {
		for _, sp := range p.ssa.AllPackages() {
			if sp.Pkg.Path() == "bytes" {
				if o := sp.Pkg.Scope().Lookup("Buffer"); o != nil {
					bufferType = types.NewPointer(o.Type())
				}
			}
		}
	}
	return bufferType
}

func (ex *Exec) tagInt(st *state, x *T) int64 {
	tag := ex.ifTag(x)
	if st != nil {
		if o, ok := st.eqlit[tag.id]; ok {
			tag = o
		}
	}
	if n, ok := tag.intv(); ok {
		return n
	}
	return -1
}

// ghostAddr is the location of a ghost value.
func (ex *Exec) ghostAddr(st *state, f *SpecFn, x *T) *AddrV {
	typ := ex.specType(f.ret)
	if x.sort == "Iface" {
		if f.name == "rd" {
			if bt := ex.p.bufferPtr(); bt != nil && ex.tagInt(st, x) == int64(ex.p.dts.tagOf(bt)) {
				el := bt.(*types.Pointer).Elem()
				return &AddrV{key: "C$" + typeName(el) + "$" + sanitize(ex.sort(el)), base: ex.unbox(ex.ifVal(x), "Int"), typ: tStr}
			}
		}
		x = ex.unbox(ex.ifVal(x), "Int")
	}
	key := "GH$" + f.name
	ex.heapSort[key] = arrSort("Int", ex.sort(typ))
	return &AddrV{key: key, base: x, typ: typ}
}

func (ex *Exec) isBuffer(st *state, x *T) bool {
	bt := ex.p.bufferPtr()
	return x.sort == "Iface" && bt != nil && ex.tagInt(st, x) == int64(ex.p.dts.tagOf(bt))
}

func (ex *Exec) ghost(name string) *SpecFn { return ex.spec.fns[name] }

func (ex *Exec) ghostGet(st *state, name string, x *T) *T {
	if name == "rerr" && ex.isBuffer(st, x) {
		return ex.nilErr()
	}
	a := ex.ghostAddr(st, ex.ghost(name), x)
	return ex.heapLoad(st, a.key, a.base, ex.sort(a.typ))
}

func (ex *Exec) ghostSet(st *state, name string, x, v *T) {
	a := ex.ghostAddr(st, ex.ghost(name), x)
	ex.frameCheck(st, a.key, a.base)
	ex.heapStore(st, a.key, a.base, v)
}

func (ex *Exec) setKind(x *T, k string) {
	n, _ := ex.unbox(ex.ifVal(x), "Int").intv()
	if ex.kinds == nil {
		ex.kinds = map[int64]string{}
	}
	ex.kinds[n] = k
}

func (ex *Exec) kindOf(x *T) string {
	n, ok := ex.unbox(ex.ifVal(x), "Int").intv()
	if !ok || n >= 0 {
		return ""
	}
	return ex.kinds[n]
}

type ifaceModel func(ex *Exec, st *state, x *T, args []Val, pos token.Pos, k cont) bool

var ifaceModels = map[string]ifaceModel{
	"Close": func(ex *Exec, st *state, x *T, args []Val, pos token.Pos, k cont) bool {
		if ex.ghost("b64w") == nil || len(args) != 0 {
			return false
		}
		if ex.kindOf(x) != "b64" {
			return false
		}
		w := ex.ghostGet(st, "b64w", x)
		e := ex.ghostGet(st, "b64e", x)
		ex.writeTo(st, w, ex.ufn("b64enc", "String", e, ex.ghostGet(st, "b64p", x)))
		ex.ghostSet(st, "b64p", x, ex.c.Str(""))
		k(st, []Val{ex.nilErr()})
		return true
	},
	"Write": func(ex *Exec, st *state, x *T, args []Val, pos token.Pos, k cont) bool {
		if ex.ghost("b64w") == nil || len(args) != 1 {
			return false
		}
		b := ex.term(st, args[0])
		if b.sort != "String" || !ex.writeTo(st, x, b) {
			return false
		}
		k(st, []Val{ex.c.Len(b), ex.nilErr()})
		return true
	},
}

// writeTo appends bytes to a writer that is a buffer or an encoder.
func (ex *Exec) writeTo(st *state, w, b *T) bool {
	if ex.isBuffer(st, w) {
		ex.ghostSet(st, "rd", w, ex.c.Concat(ex.ghostGet(st, "rd", w), b))
		return true
	}
	if ex.kindOf(w) == "b64" {
		ex.ghostSet(st, "b64p", w, ex.c.Concat(ex.ghostGet(st, "b64p", w), b))
		return true
	}
	return false
}

// readAll consumes a reader.
func (ex *Exec) readAll(st *state, r *T) (*T, *T) {
	c := ex.c
	data := ex.ghostGet(st, "rd", r)
	err := ex.ghostGet(st, "rerr", r)
	if ex.kindOf(r) == "tee" {
		w := ex.ghostGet(st, "teeW", r)
		data, err = ex.readAll(st, ex.ghostGet(st, "teeS", r))
		if !ex.writeTo(st, w, data) {
			ex.assumed["writes of a tee reader to other writers than buffers have no effect on modelled state"] = true
		}
	}
	ex.ghostSet(st, "rd", r, c.Str(""))
	return data, err
}

func init() {
	if models == nil {
		models = map[string]model{}
	}
	str := func(ex *Exec, t *T) Val {
		return &SliceV{typ: types.NewSlice(tByte), term: t, off: ex.c.Int(0), ln: ex.c.Len(t), nilT: ex.c.False()}
	}
	nn := func(ex *Exec, st *state, x *T, pos token.Pos) {
		ex.oblige(st, "nil-deref", "method call on a non-nil interface", pos, ex.c.Not(ex.c.Eq(ex.ifTag(x), ex.c.Int(0))))
	}
	ra := func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
		x := ex.term(st, args[0])
		if ex.ghost("rd") == nil {
			k(st, ex.freshResults(st, fn.Signature, fn.Name()))
			return
		}
		nn(ex, st, x, pos)
		d, e := ex.readAll(st, x)
		k(st, []Val{str(ex, d), e})
	}
	models["io.ReadAll"] = ra
	models["io/ioutil.ReadAll"] = ra
	nop := func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
		k(st, []Val{ex.term(st, args[0])})
	}
	models["io.NopCloser"] = nop
	models["io/ioutil.NopCloser"] = nop
	models["io.Copy"] = func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
		w, r := ex.term(st, args[0]), ex.term(st, args[1])
		nn(ex, st, w, pos)
		nn(ex, st, r, pos)
		d, e := ex.readAll(st, r)
		if !ex.writeTo(st, w, d) {
			ex.fail("io.Copy to an unmodelled writer")
		}
		k(st, []Val{ex.c.Len(d), e})
	}
	models["(*bytes.Buffer).ReadFrom"] = func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
		r := ex.term(st, args[1])
		nn(ex, st, r, pos)
		d, e := ex.readAll(st, r)
		a := ex.cell(st, args[0], fn, pos)
		ex.cellSet(st, a, ex.c.Concat(ex.term(st, ex.load(st, a, pos)), d))
		k(st, []Val{ex.c.Len(d), e})
	}
	models["io.TeeReader"] = func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
		r, w := ex.term(st, args[0]), ex.term(st, args[1])
		rt := fn.Signature.Results().At(0).Type()
		_ = rt
		tag := ex.c.Fresh("tee", "Int")
		ex.assume(st, ex.c.Lt(ex.c.Int(0), tag))
		x := ex.c.Mk(ex.p.dts.iface, tag, ex.box(ex.newRef()))
		ex.setKind(x, "tee")
		ex.ghostSet(st, "teeS", x, r)
		ex.ghostSet(st, "teeW", x, w)
		k(st, []Val{x})
	}
	models["encoding/base64.NewEncoder"] = func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
		tag := ex.c.Fresh("enc", "Int")
		ex.assume(st, ex.c.Lt(ex.c.Int(0), tag))
		x := ex.c.Mk(ex.p.dts.iface, tag, ex.box(ex.newRef()))
		if ex.ghost("b64w") != nil {
			ex.setKind(x, "b64")
			ex.ghostSet(st, "b64w", x, ex.term(st, args[1]))
			ex.ghostSet(st, "b64e", x, ex.term(st, args[0]))
			ex.ghostSet(st, "b64p", x, ex.c.Str(""))
		}
		k(st, []Val{x})
	}
	// bufio.NewReader buffers: what it holds is no longer in the wrapped reader
	models["bufio.NewReader"] = func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
		x := ex.term(st, args[0])
		r := ex.newRef()
		if ex.ghost("rd") != nil {
			d, e := ex.readAll(st, x)
			ex.ghostSet(st, "rd", r, d)
			ex.ghostSet(st, "rerr", r, e)
		}
		k(st, []Val{r})
	}
	nr := func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
		r := ex.newRef()
		if ex.ghost("rd") != nil {
			ex.ghostSet(st, "rd", r, ex.term(st, args[0]))
			ex.ghostSet(st, "rerr", r, ex.nilErr())
		}
		k(st, []Val{r})
	}
	models["bytes.NewReader"] = nr
	models["strings.NewReader"] = nr
}
