package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont)

var models map[string]model

var errPkg = types.NewPackage("errors", "errors")
var errNamed = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, errPkg, "errorString", nil), types.NewStruct(nil, nil), nil))

func (ex *Exec) newErr(msg *T) *T {
	tag := ex.c.Int(int64(ex.p.dts.tagOf(errNamed)))
	return ex.c.Mk(ex.p.dts.iface, tag, ex.box(msg))
}

func (ex *Exec) errMsg(x *T) *T {
	if x.op == "mk:Iface" {
		if n, ok := x.args[0].intv(); ok && n == int64(ex.p.dts.tagOf(errNamed)) {
			return ex.unbox(x.args[1], "String")
		}
	}
	return ex.c.App("error.msg", "String", x)
}

func (ex *Exec) nilErr() *T { return ex.zero(tErr) }

func (ex *Exec) ufn(name, srt string, args ...*T) *T { return ex.c.App("ufn$"+name, srt, args...) }

func (ex *Exec) itoa(n *T) *T {
	if n.op == "int" {
		return ex.c.Str(n.lit)
	}
	return ex.ufn("itoa", "String", n)
}

// sprintf models fmt.Sprintf for the verbs used in the repository.
func (ex *Exec) sprintf(st *state, format *T, args Val) *T {
	c := ex.c
	sl, _ := args.(*SliceV)
	var elems []Val
	known := false
	if sl != nil {
		elems, known = ex.knownElems(st, sl)
	}
	if format.op == "str.++" && known && len(elems) == 1 && len(format.args) == 3 && format.args[0].lit == "%0" && format.args[2].lit == "d" &&
		format.args[1].op == "app" && format.args[1].lit == "ufn$itoa" {
		return ex.zpadVerb(st, ex.term(st, elems[0]), format.args[1].args[0])
	}
	if format.op != "str" || !known {
		at := c.Str("")
		if sl != nil {
			t := ex.content(st, sl)
			return c.App("fmt.sprintf$", "String", format, t)
		}
		return c.App("fmt.sprintf1$", "String", format, at)
	}
	f := format.lit
	var parts []*T
	ai := 0
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i : i+1])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("0123456789.+-# *", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			lit += f[i:]
			break
		}
		verb := f[j]
		flags := f[i+1 : j]
		i = j
		if verb == '%' {
			lit += "%"
			continue
		}
		if lit != "" {
			parts = append(parts, c.Str(lit))
			lit = ""
		}
		if ai >= len(elems) {
			parts = append(parts, c.Str("%!"+string(verb)+"(MISSING)"))
			continue
		}
		if strings.Contains(flags, "*") {
			w := ex.ifVal(ex.term(st, elems[ai]))
			ai++
			if flags != "0*" || ai >= len(elems) || verb != 'd' {
				return c.App("fmt.sprintf$", "String", format, ex.content(st, sl))
			}
			parts = append(parts, ex.zpadVerb(st, ex.term(st, elems[ai]), w))
			ai++
			continue
		}
		x := ex.term(st, elems[ai])
		ai++
		parts = append(parts, ex.fmtVerb(st, verb, flags, x))
	}
	if lit != "" {
		parts = append(parts, c.Str(lit))
	}
	if len(parts) == 0 {
		return c.Str("")
	}
	return c.Concat(parts...)
}

// zpadVerb formats an integer with leading zeros to a width which is not a constant.
func (ex *Exec) zpadVerb(st *state, x, w *T) *T {
	tag := ex.ifTag(x)
	if o, ok := st.eqlit[tag.id]; ok {
		tag = o
	}
	if n, ok := tag.intv(); ok && n != 0 {
		if u, ok := ex.p.dts.typeOfTag(int(n)).Underlying().(*types.Basic); ok && u.Info()&types.IsInteger != 0 {
			return ex.ufn("zpad", "String", ex.unbox(ex.ifVal(x), "Int"), w)
		}
	}
	return ex.c.App("fmt.zpad$", "String", x, w)
}

func (ex *Exec) fmtVerb(st *state, verb byte, flags string, x *T) *T {
	c := ex.c
	gen := func() *T { return c.App(fmt.Sprintf("fmt.%c%s$", verb, sanitize(flags)), "String", x) }
	tag := ex.ifTag(x)
	if o, ok := st.eqlit[tag.id]; ok {
		tag = o
	}
	n, ok := tag.intv()
	if !ok || n == 0 {
		if verb == 's' || verb == 'v' {
			return c.App("fmt.v$", "String", x)
		}
		return gen()
	}
	val := ex.ifVal(x)
	t := ex.p.dts.typeOfTag(int(n))
	if t == errNamed && (verb == 's' || verb == 'v') && flags == "" {
		return ex.errMsg(x)
	}
	// types with their own String method are formatted by it
	if ms := types.NewMethodSet(t); ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil {
		if verb == 's' || verb == 'v' {
			return c.App("fmt.v$", "String", x)
		}
		if verb != 'd' {
			return gen()
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0 && (verb == 's' || verb == 'v') && flags == "":
			return ex.unbox(val, "String")
		case u.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
			v := ex.unbox(val, "Int")
			if flags == "" {
				return ex.itoa(v)
			}
			if flags[0] == '0' {
				if w, err := strconv.Atoi(flags); err == nil {
					return ex.ufn("zpad", "String", v, c.Int(int64(w)))
				}
			}
		}
	case *types.Slice:
		if isByteSlice(t) && verb == 's' && flags == "" {
			return ex.unbox(val, "String")
		}
	}
	return gen()
}

// ptrNil tells whether the pointer boxed in an interface is nil.
func (ex *Exec) ptrNil(x *T) *T {
	if n, ok := ex.ifTag(x).intv(); ok && n != 0 {
		if _, ok := ex.p.dts.typeOfTag(int(n)).Underlying().(*types.Pointer); ok {
			return ex.c.Eq(ex.unbox(ex.ifVal(x), "Int"), ex.c.Int(0))
		}
	}
	return ex.c.Eq(ex.unbox(ex.ifVal(x), "Int"), ex.c.Int(0))
}

func init() {
	one := func(f func(ex *Exec, st *state, args []Val) Val) model {
		return func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
			k(st, []Val{f(ex, st, args)})
		}
	}
	tm := func(ex *Exec, st *state, v Val) *T { return ex.term(st, v) }
	bs := func(ex *Exec, t *T) Val {
		return &SliceV{typ: types.NewSlice(tByte), term: t, off: ex.c.Int(0), ln: ex.c.Len(t)}
	}
	// index helpers
	idx := func(ex *Exec, s, sub *T) *T { return ex.c.StrOp("str.indexof", "Int", s, sub, ex.c.Int(0)) }
	models = map[string]model{
		"fmt.Sprintf":               one(func(ex *Exec, st *state, a []Val) Val { return ex.sprintf(st, tm(ex, st, a[0]), a[1]) }),
		"fmt.Errorf":                one(func(ex *Exec, st *state, a []Val) Val { return ex.newErr(ex.sprintf(st, tm(ex, st, a[0]), a[1])) }),
		"errors.New":                one(func(ex *Exec, st *state, a []Val) Val { return ex.newErr(tm(ex, st, a[0])) }),
		"github.com/pkg/errors.New": one(func(ex *Exec, st *state, a []Val) Val { return ex.newErr(tm(ex, st, a[0])) }),
		"github.com/pkg/errors.Errorf": one(func(ex *Exec, st *state, a []Val) Val {
			return ex.newErr(ex.sprintf(st, tm(ex, st, a[0]), a[1]))
		}),
		"github.com/pkg/errors.WithMessage": one(func(ex *Exec, st *state, a []Val) Val {
			e := tm(ex, st, a[0])
			return ex.c.Ite(ex.simp(st, ex.isNil(st, e)), ex.nilErr(), ex.newErr(ex.c.Concat(tm(ex, st, a[1]), ex.c.Str(": "), ex.errMsg(e))))
		}),
		"fmt.Println": func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
			k(st, []Val{ex.c.Int(0), ex.nilErr()})
		},
		"fmt.Printf": func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
			k(st, []Val{ex.c.Int(0), ex.nilErr()})
		},
		"bytes.IndexByte": func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
			c := ex.c
			b := tm(ex, st, args[1])
			if sl, ok := args[0].(*SliceV); ok {
				if es, known := ex.knownElems(st, sl); known {
					r := c.Int(-1)
					for i := len(es) - 1; i >= 0; i-- {
						r = c.Ite(c.Eq(tm(ex, st, es[i]), b), c.Int(int64(i)), r)
					}
					k(st, []Val{r})
					return
				}
			}
			k(st, []Val{idx(ex, tm(ex, st, args[0]), c.FromCode(b))})
		},
		"bytes.Equal": one(func(ex *Exec, st *state, a []Val) Val { return ex.c.Eq(tm(ex, st, a[0]), tm(ex, st, a[1])) }),
		"bytes.HasPrefix": one(func(ex *Exec, st *state, a []Val) Val {
			return ex.c.StrOp("str.prefixof", "Bool", tm(ex, st, a[1]), tm(ex, st, a[0]))
		}),
		"bytes.HasSuffix": one(func(ex *Exec, st *state, a []Val) Val {
			return ex.c.StrOp("str.suffixof", "Bool", tm(ex, st, a[1]), tm(ex, st, a[0]))
		}),
		"strings.HasPrefix": one(func(ex *Exec, st *state, a []Val) Val {
			return ex.c.StrOp("str.prefixof", "Bool", tm(ex, st, a[1]), tm(ex, st, a[0]))
		}),
		"strings.HasSuffix": one(func(ex *Exec, st *state, a []Val) Val {
			return ex.c.StrOp("str.suffixof", "Bool", tm(ex, st, a[1]), tm(ex, st, a[0]))
		}),
		"strings.Contains": one(func(ex *Exec, st *state, a []Val) Val {
			return ex.c.StrOp("str.contains", "Bool", tm(ex, st, a[0]), tm(ex, st, a[1]))
		}),
		"bytes.Contains": one(func(ex *Exec, st *state, a []Val) Val {
			return ex.c.StrOp("str.contains", "Bool", tm(ex, st, a[0]), tm(ex, st, a[1]))
		}),
		"strings.Index": one(func(ex *Exec, st *state, a []Val) Val { return idx(ex, tm(ex, st, a[0]), tm(ex, st, a[1])) }),
		"bytes.Index":   one(func(ex *Exec, st *state, a []Val) Val { return idx(ex, tm(ex, st, a[0]), tm(ex, st, a[1])) }),
		"strings.Replace": one(func(ex *Exec, st *state, a []Val) Val {
			s, o, n := tm(ex, st, a[0]), tm(ex, st, a[1]), tm(ex, st, a[2])
			m := tm(ex, st, a[3])
			if v, ok := m.intv(); ok && v == 1 {
				return ex.c.StrOp("str.replace", "String", s, o, n)
			}
			if v, ok := m.intv(); ok && v < 0 {
				return ex.c.StrOp("str.replace_all", "String", s, o, n)
			}
			return ex.ufn("replace", "String", s, o, n, m)
		}),
		"strings.ReplaceAll": one(func(ex *Exec, st *state, a []Val) Val {
			return ex.c.StrOp("str.replace_all", "String", tm(ex, st, a[0]), tm(ex, st, a[1]), tm(ex, st, a[2]))
		}),
		"bytes.Replace": one(func(ex *Exec, st *state, a []Val) Val {
			s, o, n := tm(ex, st, a[0]), tm(ex, st, a[1]), tm(ex, st, a[2])
			m := tm(ex, st, a[3])
			if v, ok := m.intv(); ok && v < 0 {
				return bs(ex, ex.c.StrOp("str.replace_all", "String", s, o, n))
			}
			return bs(ex, ex.ufn("replace", "String", s, o, n, m))
		}),
		"strconv.Itoa": one(func(ex *Exec, st *state, a []Val) Val { return ex.itoa(tm(ex, st, a[0])) }),
		"strconv.Atoi": func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
			c := ex.c
			s := tm(ex, st, args[0])
			ok := ex.ufn("atoiok", "Bool", s)
			v := ex.ufn("atoival", "Int", s)
			ev := ex.ufn("atoierrval", "Int", s)
			e := ex.newErr(ex.ufn("atoierr", "String", s))
			ex.assume(st, c.And(c.Le(c.IntS("-9223372036854775808"), v), c.Le(v, c.IntS("9223372036854775807"))))
			k(st, []Val{c.Ite(ok, v, ev), c.Ite(ok, ex.nilErr(), e)})
		},
		"strings.Join": one(func(ex *Exec, st *state, a []Val) Val {
			if sl, ok := a[0].(*SliceV); ok {
				if es, known := ex.knownElems(st, sl); known {
					var parts []*T
					for i, e := range es {
						if i > 0 {
							parts = append(parts, tm(ex, st, a[1]))
						}
						parts = append(parts, tm(ex, st, e))
					}
					if len(parts) == 0 {
						return ex.c.Str("")
					}
					return ex.c.Concat(parts...)
				}
			}
			t := tm(ex, st, a[0])
			return ex.c.App("rec$join", "String", t, tm(ex, st, a[1]), ex.c.Len(t))
		}),
		"bytes.Join": one(func(ex *Exec, st *state, a []Val) Val {
			t := tm(ex, st, a[0])
			return bs(ex, ex.c.App("rec$join", "String", t, tm(ex, st, a[1]), ex.c.Len(t)))
		}),
		"reflect.ValueOf": func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
			k(st, []Val{ex.fromTerm(st, ex.c.App("reflect.of$", ex.sort(fn.Signature.Results().At(0).Type()), tm(ex, st, args[0])), fn.Signature.Results().At(0).Type())})
		},
		"(reflect.Value).IsValid": one(func(ex *Exec, st *state, a []Val) Val {
			x := tm(ex, st, a[0])
			if x.op != "app" || x.lit != "reflect.of$" {
				ex.fail("reflect.Value of unknown origin")
			}
			return ex.c.Not(ex.c.Eq(ex.ifTag(x.args[0]), ex.c.Int(0)))
		}),
		"(reflect.Value).IsNil": func(ex *Exec, st *state, fn *ssa.Function, args []Val, pos token.Pos, k cont) {
			c := ex.c
			x := tm(ex, st, args[0])
			if x.op != "app" || x.lit != "reflect.of$" {
				ex.fail("reflect.Value of unknown origin")
			}
			x = x.args[0]
			ex.oblige(st, "nil-deref", "reflect IsNil of a valid value", pos, c.Not(c.Eq(ex.ifTag(x), c.Int(0))))
			k(st, []Val{ex.ptrNil(x)})
		},
		"strings.NewReplacer": one(func(ex *Exec, st *state, a []Val) Val { return ex.c.App("strings.replacer$", "Int", tm(ex, st, a[0])) }),
		"(*strings.Replacer).Replace": one(func(ex *Exec, st *state, a []Val) Val {
			r := tm(ex, st, a[0])
			if r.op != "app" || r.lit != "strings.replacer$" {
				ex.fail("strings.Replacer of unknown origin")
			}
			return ex.c.App("rec$repl", "String", r.args[0], tm(ex, st, a[1]))
		}),
		"errors.As": nil,
	}
	delete(models, "errors.As")
}
