package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Buffers (bytes.Buffer, strings.Builder) are modelled by their content,
// big.Int by its mathematical value.

// cell is the address of the content of a modelled library struct.
func (ex *Exec) cell(st *state, v Val, fn *ssa.Function, pos token.Pos) *AddrV {
	t := fn.Signature.Recv().Type().(*types.Pointer).Elem()
	return ex.addrOf(st, v, t, pos)
}

func (ex *Exec) cellSet(st *state, a *AddrV, v *T) {
	if !a.isEl {
		ex.frameCheck(st, a.key, a.base)
	}
	ex.store(st, a, v)
}

// newCell allocates a modelled library struct.
func (ex *Exec) newCell(st *state, t types.Type, v *T) *T {
	r := ex.newRef()
	key := "C$" + typeName(t) + "$" + sanitize(ex.sort(t))
	st.heap[key] = ex.c.Store(ex.heapArr(st, key, ex.sort(t)), r, v)
	return r
}

func init() {
	tm := func(ex *Exec, st *state, v Val) *T { return ex.term(st, v) }
	bs := func(ex *Exec, t *T) Val {
		return &SliceV{typ: types.NewSlice(tByte), term: t, off: ex.c.Int(0), ln: ex.c.Len(t), nilT: ex.c.False()}
	}
	get := func(ex *Exec, st *state, a *AddrV, pos token.Pos) *T { return tm(ex, st, ex.load(st, a, pos)) }
	for _, n := range []string{"bytes.Buffer", "strings.Builder"} {
		app := func(f func(ex *Exec, st *state, v Val) *T, withN, withErr bool) model {
			return func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
				a := ex.cell(st, args[0], fn, pos)
				x := f(ex, st, args[1])
				ex.cellSet(st, a, ex.c.Concat(get(ex, st, a, pos), x))
				var r []Val
				if withN {
					r = append(r, ex.c.Len(x))
				}
				if withErr {
					r = append(r, ex.nilErr())
				}
				k(st, r)
			}
		}
		same := func(ex *Exec, st *state, v Val) *T { return tm(ex, st, v) }
		models["(*"+n+").WriteString"] = app(same, true, true)
		models["(*"+n+").Write"] = app(same, true, true)
		models["(*"+n+").WriteByte"] = app(func(ex *Exec, st *state, v Val) *T { return ex.c.FromCode(tm(ex, st, v)) }, false, true)
		models["(*"+n+").String"] = func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
			k(st, []Val{get(ex, st, ex.cell(st, args[0], fn, pos), pos)})
		}
		models["(*"+n+").Len"] = func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
			k(st, []Val{ex.c.Len(get(ex, st, ex.cell(st, args[0], fn, pos), pos))})
		}
		models["(*"+n+").Reset"] = func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
			ex.cellSet(st, ex.cell(st, args[0], fn, pos), ex.c.Str(""))
			k(st, nil)
		}
	}
	models["(*bytes.Buffer).Bytes"] = func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
		k(st, []Val{bs(ex, get(ex, st, ex.cell(st, args[0], fn, pos), pos))})
	}
	nb := func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		k(st, []Val{ex.newCell(st, t, tm(ex, st, args[0]))})
	}
	models["bytes.NewBuffer"] = nb
	ext := func(max bool) model {
		return func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
			c := ex.c
			x, y := tm(ex, st, args[0]), tm(ex, st, args[1])
			if x.op != "app" || y.op != "app" || x.lit != "f64.ofint" || y.lit != "f64.ofint" {
				k(st, []Val{c.App(fn.Name()+"$", "F64", x, y)})
				return
			}
			// the conversion to float is monotone
			a, b := x.args[0], y.args[0]
			if !max {
				a, b = b, a
			}
			k(st, []Val{c.App("f64.ofint", "F64", c.Ite(c.Le(a, b), y.args[0], x.args[0]))})
		}
	}
	models["math.Max"] = ext(true)
	models["math.Min"] = ext(false)
	models["bytes.NewBufferString"] = nb
	models["math/big.NewInt"] = nb
	models["fmt.Fprintf"] = func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
		x := tm(ex, st, args[0])
		s := ex.sprintf(st, tm(ex, st, args[1]), args[2])
		tag := ex.ifTag(x)
		if o, ok := st.eqlit[tag.id]; ok {
			tag = o
		}
		if n, ok := tag.intv(); ok && n > 0 {
			if p, ok := ex.p.dts.typeOfTag(int(n)).(*types.Pointer); ok && modelSort(p.Elem()) == "String" {
				a := ex.addrOf(st, ex.unbox(ex.ifVal(x), "Int"), p.Elem(), pos)
				ex.cellSet(st, a, ex.c.Concat(get(ex, st, a, pos), s))
			}
		}
		k(st, []Val{ex.c.Len(s), ex.nilErr()})
	}
	// big integers
	bin := func(op func(ex *Exec, st *state, x, y *T, pos token.Pos) *T) model {
		return func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
			x := get(ex, st, ex.cell(st, args[1], fn, pos), pos)
			y := get(ex, st, ex.cell(st, args[2], fn, pos), pos)
			ex.cellSet(st, ex.cell(st, args[0], fn, pos), op(ex, st, x, y, pos))
			k(st, []Val{args[0]})
		}
	}
	models["(*math/big.Int).Mod"] = bin(func(ex *Exec, st *state, x, y *T, pos token.Pos) *T {
		ex.oblige(st, "div-zero", "modulus is not zero", pos, ex.c.Not(ex.c.Eq(y, ex.c.Int(0))))
		return ex.c.mk("mod", "", "Int", x, y)
	})
	models["(*math/big.Int).Add"] = bin(func(ex *Exec, st *state, x, y *T, pos token.Pos) *T { return ex.c.Add(x, y) })
	models["(*math/big.Int).Sub"] = bin(func(ex *Exec, st *state, x, y *T, pos token.Pos) *T { return ex.c.Sub(x, y) })
	models["(*math/big.Int).Cmp"] = func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
		x := get(ex, st, ex.cell(st, args[0], fn, pos), pos)
		y := get(ex, st, ex.cell(st, args[1], fn, pos), pos)
		c := ex.c
		k(st, []Val{c.Ite(c.Eq(x, y), c.Int(0), c.Ite(c.Lt(x, y), c.Int(-1), c.Int(1)))})
	}
	models["(*math/big.Int).Int64"] = func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
		x := get(ex, st, ex.cell(st, args[0], fn, pos), pos)
		c := ex.c
		in := c.And(c.Le(c.IntS("-9223372036854775808"), x), c.Le(x, c.IntS("9223372036854775807")))
		k(st, []Val{c.Ite(in, x, c.App("big.low64", "Int", x))})
	}
	// decimal texts: an optional sign and digits
	models["(*math/big.Int).SetString"] = func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
		c := ex.c
		s := tm(ex, st, args[1])
		a := ex.cell(st, args[0], fn, pos)
		ok := c.Fresh("bigok", "Bool")
		v := c.Fresh("bigval", "Int")
		if _, has := ex.spec.fns["allDig"]; has {
			if n, isTen := tm(ex, st, args[2]).intv(); isTen && n == 10 {
				num := func(s *T) *T { return c.And(c.App("rec$allDig", "Bool", s), c.Not(c.Eq(s, c.Str("")))) }
				val := func(s *T) *T { return c.App("rec$decval", "Int", s) }
				rest := c.Extract(s, c.Int(1), c.Sub(c.Len(s), c.Int(1)))
				minus, plus := c.StrOp("str.prefixof", "Bool", c.Str("-"), s), c.StrOp("str.prefixof", "Bool", c.Str("+"), s)
				ex.assume(st, c.Eq(ok, c.Or(num(s), c.And(c.Or(minus, plus), num(rest)))))
				ex.assume(st, c.Imp(num(s), c.Eq(v, val(s))))
				ex.assume(st, c.Imp(c.And(minus, num(rest)), c.Eq(v, c.Neg(val(rest)))))
				ex.assume(st, c.Imp(c.And(plus, num(rest)), c.Eq(v, val(rest))))
			}
		}
		ex.cellSet(st, a, v)
		k(st, []Val{c.Ite(ok, tm(ex, st, args[0]), c.Int(0)), ok})
	}
}
