package main

import (
	"fmt"
	"strconv"
	"strings"
)

// T is a hash-consed SMT term. Leaves have no args. Integer literals have op
// "int" and lit set; string literals op "str".
type T struct {
	op   string
	args []*T
	sort string
	lit  string
	id   int
	// maxsym is the highest creation index of a symbol inside the term.
	maxsym int
}

// Ctx owns the terms of the verification of one function.
type Ctx struct {
	tab    map[string]*T
	nid    int
	nsym   int
	decls  []string          // symbol declarations in order (name sort)
	declOf map[string]string // symbol name -> declaration line
	funs   map[string]string // uninterpreted function declarations
	dts    *DTs
}

func newCtx(d *DTs) *Ctx {
	return &Ctx{tab: map[string]*T{}, declOf: map[string]string{}, funs: map[string]string{}, dts: d}
}

func (c *Ctx) mk(op, lit, sort string, args ...*T) *T {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(lit)
	b.WriteByte(0)
	b.WriteString(sort)
	for _, a := range args {
		b.WriteByte(0)
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.nid++
	t := &T{op: op, lit: lit, sort: sort, args: args, id: c.nid}
	for _, a := range args {
		if a.maxsym > t.maxsym {
			t.maxsym = a.maxsym
		}
	}
	c.tab[k] = t
	return t
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

// Fresh creates a new symbol.
func (c *Ctx) Fresh(hint, sort string) *T {
	c.nsym++
	name := fmt.Sprintf("%s!%d", sanitize(hint), c.nsym)
	t := c.mk("sym", name, sort)
	t.maxsym = c.nsym
	c.declOf[name] = fmt.Sprintf("(declare-fun %s () %s)", name, sort)
	return t
}

// Const returns a global constant symbol.
func (c *Ctx) Const(name, sort string) *T {
	name = sanitize(name)
	c.declOf[name] = fmt.Sprintf("(declare-fun %s () %s)", name, sort)
	return c.mk("sym", name, sort)
}

// App applies an uninterpreted function.
func (c *Ctx) App(name, sort string, args ...*T) *T {
	if len(args) == 0 {
		return c.Const(name, sort)
	}
	var as []string
	for _, a := range args {
		as = append(as, a.sort)
	}
	c.funs[name] = fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(as, " "), sort)
	return c.mk("app", name, sort, args...)
}

func (c *Ctx) Int(n int64) *T   { return c.mk("int", strconv.FormatInt(n, 10), "Int") }
func (c *Ctx) IntS(n string) *T { return c.mk("int", n, "Int") }
func (c *Ctx) Bool(b bool) *T   { return c.mk("bool", strconv.FormatBool(b), "Bool") }
func (c *Ctx) True() *T         { return c.Bool(true) }
func (c *Ctx) False() *T        { return c.Bool(false) }
func (c *Ctx) Str(s string) *T  { return c.mk("str", s, "String") }
func isTrue(t *T) bool          { return t.op == "bool" && t.lit == "true" }
func isFalse(t *T) bool         { return t.op == "bool" && t.lit == "false" }
func (t *T) isInt() bool        { return t.op == "int" }
func (t *T) intv() (int64, bool) {
	if t.op != "int" {
		return 0, false
	}
	n, err := strconv.ParseInt(t.lit, 10, 64)
	return n, err == nil
}

func (c *Ctx) Not(a *T) *T {
	if isTrue(a) {
		return c.False()
	}
	if isFalse(a) {
		return c.True()
	}
	if a.op == "not" {
		return a.args[0]
	}
	return c.mk("not", "", "Bool", a)
}

func (c *Ctx) And(as ...*T) *T {
	var out []*T
	seen := map[int]bool{}
	var add func(a *T) bool
	add = func(a *T) bool {
		if isTrue(a) || seen[a.id] {
			return true
		}
		if isFalse(a) {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False()
		}
	}
	for _, a := range out {
		if seen[c.Not(a).id] {
			return c.False()
		}
	}
	switch len(out) {
	case 0:
		return c.True()
	case 1:
		return out[0]
	}
	return c.mk("and", "", "Bool", out...)
}

func (c *Ctx) Or(as ...*T) *T {
	var out []*T
	seen := map[int]bool{}
	for _, a := range as {
		if isFalse(a) || seen[a.id] {
			continue
		}
		if isTrue(a) {
			return a
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[c.Not(a).id] {
			return c.True()
		}
	}
	switch len(out) {
	case 0:
		return c.False()
	case 1:
		return out[0]
	}
	return c.mk("or", "", "Bool", out...)
}

func (c *Ctx) Imp(a, b *T) *T {
	if isTrue(a) {
		return b
	}
	if isFalse(a) || isTrue(b) || a == b {
		return c.True()
	}
	if isFalse(b) {
		return c.Not(a)
	}
	return c.mk("=>", "", "Bool", a, b)
}

func (c *Ctx) Ite(p, a, b *T) *T {
	if isTrue(p) || a == b {
		return a
	}
	if isFalse(p) {
		return b
	}
	if a.sort == "Bool" {
		if isTrue(a) && isFalse(b) {
			return p
		}
		if isFalse(a) && isTrue(b) {
			return c.Not(p)
		}
		if isTrue(a) {
			return c.Or(p, b)
		}
		if isFalse(a) {
			return c.And(c.Not(p), b)
		}
		if isTrue(b) {
			return c.Or(c.Not(p), a)
		}
		if isFalse(b) {
			return c.And(p, a)
		}
	}
	return c.mk("ite", "", a.sort, p, a, b)
}

func isLit(t *T) bool { return t.op == "int" || t.op == "bool" || t.op == "str" }

func (c *Ctx) Eq(a, b *T) *T {
	if a == b {
		return c.True()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("sort mismatch in =: %s (%s) vs %s (%s)", a, a.sort, b, b.sort))
	}
	if isLit(a) && isLit(b) {
		return c.False()
	}
	if isLit(a) {
		a, b = b, a
	}
	if a.sort == "Bool" {
		if isTrue(b) {
			return a
		}
		if isFalse(b) {
			return c.Not(a)
		}
	}
	// code(at(s,i)) = 43  <=>  at(s,i) = "+"
	if a.op == "str.to_code" && b.op == "int" {
		if n, ok := b.intv(); ok {
			if n >= 0 && n < 256 {
				return c.Eq(a.args[0], c.Str(string([]byte{byte(n)})))
			}
		}
	}
	if a.op == "str.to_code" && b.op == "str.to_code" {
		if a.args[0].op == "str.at" && b.args[0].op == "str.at" {
			// both are codes of (possibly empty) single characters
			return c.Eq(a.args[0], b.args[0])
		}
	}
	if a.op == "str" && b.op != "str" {
		a, b = b, a
	}
	if b.op == "str" && b.lit == "" && a.op == "str.++" {
		var cs []*T
		for _, x := range a.args {
			cs = append(cs, c.Eq(x, b))
		}
		return c.And(cs...)
	}
	if a.op == "ite" && isLit(b) && isLit(a.args[1]) && isLit(a.args[2]) {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	// datatype constructor injectivity
	if strings.HasPrefix(a.op, "mk:") && a.op == b.op {
		var cs []*T
		for i := range a.args {
			cs = append(cs, c.Eq(a.args[i], b.args[i]))
		}
		return c.And(cs...)
	}
	if a.op == "seq.unit" && b.op == "seq.unit" {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.sort == "Int" {
		// normalise x + c = d
		d := c.Sub(a, b)
		if d.op == "int" {
			return c.Bool(d.lit == "0")
		}
	}
	if a.id > b.id && !isLit(b) {
		a, b = b, a
	}
	return c.mk("=", "", "Bool", a, b)
}

// linear normalisation ------------------------------------------------------

type lin struct {
	k     int64
	terms map[int]int64
	ref   map[int]*T
	order []int
}

func (c *Ctx) toLin(t *T) *lin {
	l := &lin{terms: map[int]int64{}, ref: map[int]*T{}}
	c.addLin(l, t, 1)
	return l
}

func (c *Ctx) addLin(l *lin, t *T, m int64) {
	switch t.op {
	case "int":
		n, ok := t.intv()
		if ok && n < 1<<40 && n > -(1<<40) {
			l.k += n * m
			return
		}
	case "+":
		for _, a := range t.args {
			c.addLin(l, a, m)
		}
		return
	case "-":
		if len(t.args) == 2 {
			c.addLin(l, t.args[0], m)
			c.addLin(l, t.args[1], -m)
			return
		}
	case "*":
		if n, ok := t.args[0].intv(); ok && len(t.args) == 2 && n < 1<<20 && n > -(1<<20) {
			c.addLin(l, t.args[1], m*n)
			return
		}
	}
	if _, ok := l.terms[t.id]; !ok {
		l.order = append(l.order, t.id)
	}
	l.terms[t.id] += m
	l.ref[t.id] = t
}

func (c *Ctx) fromLin(l *lin) *T {
	var pos []*T
	for _, id := range l.order {
		m := l.terms[id]
		if m == 0 {
			continue
		}
		t := l.ref[id]
		if m != 1 {
			t = c.mk("*", "", "Int", c.Int(m), t)
		}
		pos = append(pos, t)
	}
	if l.k != 0 || len(pos) == 0 {
		pos = append(pos, c.Int(l.k))
	}
	if len(pos) == 1 {
		return pos[0]
	}
	return c.mk("+", "", "Int", pos...)
}

func (c *Ctx) Add(a, b *T) *T {
	l := c.toLin(a)
	c.addLin(l, b, 1)
	return c.fromLin(l)
}
func (c *Ctx) Sub(a, b *T) *T {
	l := c.toLin(a)
	c.addLin(l, b, -1)
	return c.fromLin(l)
}
func (c *Ctx) Neg(a *T) *T { return c.Sub(c.Int(0), a) }
func (c *Ctx) Mul(a, b *T) *T {
	if _, ok := b.intv(); ok {
		a, b = b, a
	}
	if n, ok := a.intv(); ok {
		if n == 0 {
			return c.Int(0)
		}
		if n == 1 {
			return b
		}
		if m, ok := b.intv(); ok {
			return c.Int(n * m)
		}
	}
	return c.mk("*", "", "Int", a, b)
}

// Go's truncated division and remainder.
func (c *Ctx) Quo(a, b *T) *T {
	if n, ok := a.intv(); ok {
		if m, ok := b.intv(); ok && m != 0 {
			return c.Int(n / m)
		}
	}
	e := c.mk("div", "", "Int", a, b)
	if m, ok := b.intv(); ok && m > 0 {
		return c.Ite(c.Le(c.Int(0), a), e, c.Neg(c.mk("div", "", "Int", c.Neg(a), b)))
	}
	return c.mk("app", "go.quo", "Int", a, b)
}
func (c *Ctx) Rem(a, b *T) *T {
	if n, ok := a.intv(); ok {
		if m, ok := b.intv(); ok && m != 0 {
			return c.Int(n % m)
		}
	}
	if m, ok := b.intv(); ok && m > 0 {
		return c.Ite(c.Le(c.Int(0), a), c.mk("mod", "", "Int", a, b), c.Neg(c.mk("mod", "", "Int", c.Neg(a), b)))
	}
	return c.mk("app", "go.rem", "Int", a, b)
}

// Mod is the mathematical modulus.
func (c *Ctx) Mod(a, b *T) *T { return c.mk("mod", "", "Int", a, b) }
func (c *Ctx) Div(a, b *T) *T { return c.mk("div", "", "Int", a, b) }

func (c *Ctx) Le(a, b *T) *T {
	d := c.Sub(b, a)
	if n, ok := d.intv(); ok {
		return c.Bool(n >= 0)
	}
	if c.nonneg(d) {
		return c.True()
	}
	if c.negative(d) {
		return c.False()
	}
	return c.mk("<=", "", "Bool", a, b)
}
func (c *Ctx) Lt(a, b *T) *T { return c.Not(c.Le(b, a)) }

func (c *Ctx) nonneg(t *T) bool {
	switch t.op {
	case "int":
		n, ok := t.intv()
		return ok && n >= 0
	case "str.len", "seq.len":
		return true
	case "+":
		for _, a := range t.args {
			if !c.nonneg(a) {
				return false
			}
		}
		return true
	case "*":
		return c.nonneg(t.args[0]) && c.nonneg(t.args[1])
	case "ite":
		return c.nonneg(t.args[1]) && c.nonneg(t.args[2])
	}
	return false
}
func (c *Ctx) negative(t *T) bool {
	l := c.toLin(t)
	if l.k >= 0 {
		return false
	}
	for id, m := range l.terms {
		if m == 0 {
			continue
		}
		if m > 0 || !c.nonneg(l.ref[id]) {
			return false
		}
	}
	return true
}

// arrays -----------------------------------------------------------------

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

func arrElem(s string) string {
	// "(Array K V)"
	s = s[len("(Array ") : len(s)-1]
	// skip K
	return s[skipSort(s)+1:]
}

func skipSort(s string) int {
	if s[0] != '(' {
		i := strings.IndexByte(s, ' ')
		if i < 0 {
			return len(s)
		}
		return i
	}
	d := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '(' {
			d++
		} else if s[i] == ')' {
			d--
			if d == 0 {
				return i + 1
			}
		}
	}
	return len(s)
}

func (c *Ctx) Select(a, i *T) *T {
	for a.op == "store" {
		eq := c.Eq(a.args[1], i)
		if isTrue(eq) {
			return a.args[2]
		}
		if isFalse(eq) || c.distinctRefs(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "ite" {
		return c.Ite(a.args[0], c.Select(a.args[1], i), c.Select(a.args[2], i))
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return c.mk("select", "", arrElem(a.sort), a, i)
}

// distinctRefs: fresh allocations (negative literals) differ from entry parameters.
func (c *Ctx) distinctRefs(a, b *T) bool {
	f := func(x, y *T) bool {
		n, ok := x.intv()
		return ok && n < 0 && y.op == "sym" && strings.HasPrefix(y.lit, "old$")
	}
	return f(a, b) || f(b, a)
}

func (c *Ctx) Store(a, i, v *T) *T {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return c.mk("store", "", a.sort, a, i, v)
}

// strings and sequences ----------------------------------------------------

func isStr(s string) bool { return s == "String" }
func seqElem(s string) string {
	// "(Seq X)"
	return s[len("(Seq ") : len(s)-1]
}
func seqSort(e string) string { return "(Seq " + e + ")" }

func (c *Ctx) Len(s *T) *T {
	switch s.op {
	case "str":
		return c.Int(int64(len(s.lit)))
	case "seq.empty":
		return c.Int(0)
	case "seq.unit":
		return c.Int(1)
	case "str.++", "seq.++":
		r := c.Int(0)
		for _, a := range s.args {
			r = c.Add(r, c.Len(a))
		}
		return r
	case "str.from_code":
		if s.args[0].op == "str.to_code" {
			return c.Len(s.args[0].args[0])
		}
	}
	if isStr(s.sort) {
		return c.mk("str.len", "", "Int", s)
	}
	return c.mk("seq.len", "", "Int", s)
}

func (c *Ctx) Concat(as ...*T) *T {
	srt := as[0].sort
	str := isStr(srt)
	var out []*T
	for _, a := range as {
		if a.sort != srt {
			panic("concat sort mismatch " + a.sort + " vs " + srt)
		}
		parts := []*T{a}
		if a.op == "str.++" || a.op == "seq.++" {
			parts = a.args
		}
		for _, p := range parts {
			if p.op == "seq.empty" || p.op == "str" && p.lit == "" {
				continue
			}
			if p.op == "str" && len(out) > 0 && out[len(out)-1].op == "str" {
				out[len(out)-1] = c.Str(out[len(out)-1].lit + p.lit)
				continue
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return c.Empty(srt)
	case 1:
		return out[0]
	}
	if str {
		return c.mk("str.++", "", srt, out...)
	}
	return c.mk("seq.++", "", srt, out...)
}

func (c *Ctx) Empty(srt string) *T {
	if isStr(srt) {
		return c.Str("")
	}
	return c.mk("seq.empty", "", srt)
}

func (c *Ctx) Unit(v *T) *T {
	return c.mk("seq.unit", "", seqSort(v.sort), v)
}

// Code of a string of length one / string of one byte.
func (c *Ctx) ToCode(s *T) *T {
	if s.op == "str" {
		if len(s.lit) == 1 {
			return c.Int(int64(s.lit[0]))
		}
		return c.Int(-1)
	}
	if s.op == "str.from_code" {
		return s.args[0]
	}
	return c.mk("str.to_code", "", "Int", s)
}
func (c *Ctx) FromCode(n *T) *T {
	if v, ok := n.intv(); ok && v >= 0 && v < 256 {
		return c.Str(string([]byte{byte(v)}))
	}
	if n.op == "str.to_code" && n.args[0].op == "str.at" {
		return n.args[0]
	}
	return c.mk("str.from_code", "", "String", n)
}

// Nth yields element i (a byte as Int for strings).
func (c *Ctx) Nth(s, i *T) *T {
	if isStr(s.sort) {
		return c.ToCode(c.At(s, i))
	}
	e := seqElem(s.sort)
	if s.op == "seq.unit" {
		if n, ok := i.intv(); ok && n == 0 {
			return s.args[0]
		}
	}
	if s.op == "seq.++" {
		// known prefix of units
		j := i
		for _, a := range s.args {
			n, ok := j.intv()
			if ok && a.op == "seq.unit" {
				if n == 0 {
					return a.args[0]
				}
				j = c.Int(n - 1)
				continue
			}
			// a symbolic part: in case index is len(a)+k
			d := c.Sub(j, c.Len(a))
			if m, ok := d.intv(); ok && m >= 0 {
				j = d
				continue
			}
			break
		}
	}
	return c.mk("seq.nth", "", e, s, i)
}

// At is the string of the single byte at i.
func (c *Ctx) At(s, i *T) *T {
	if s.op == "str" {
		if n, ok := i.intv(); ok {
			if n >= 0 && n < int64(len(s.lit)) {
				return c.Str(s.lit[n : n+1])
			}
			return c.Str("")
		}
	}
	if s.op == "str.++" {
		if n, ok := i.intv(); ok && n >= 0 && s.args[0].op == "str" && n < int64(len(s.args[0].lit)) {
			return c.At(s.args[0], i)
		}
	}
	return c.mk("str.at", "", "String", s, i)
}

// Sub-sequence s[off:off+n].
func (c *Ctx) Extract(s, off, n *T) *T {
	str := isStr(s.sort)
	if z, ok := n.intv(); ok && z <= 0 {
		return c.Empty(s.sort)
	}
	if z, ok := off.intv(); ok && z == 0 && c.Len(s) == n {
		return s
	}
	if s.op == "str" {
		o, ok1 := off.intv()
		l, ok2 := n.intv()
		if ok1 && ok2 && o >= 0 && o+l <= int64(len(s.lit)) {
			return c.Str(s.lit[o : o+l])
		}
	}
	if s.op == "seq.++" || s.op == "str.++" {
		// drop or take known whole parts
		o := off
		parts := s.args
		for len(parts) > 0 {
			d := c.Sub(o, c.Len(parts[0]))
			if m, ok := d.intv(); ok && m >= 0 {
				o = d
				parts = parts[1:]
				continue
			}
			break
		}
		if z, ok := o.intv(); ok && z == 0 && len(parts) > 0 {
			// take whole parts
			acc := c.Empty(s.sort)
			left := n
			for i := 0; i <= len(parts); i++ {
				if m, ok := left.intv(); ok && m == 0 {
					return acc
				}
				if i == len(parts) {
					break
				}
				acc = c.Concat(acc, parts[i])
				left = c.Sub(left, c.Len(parts[i]))
			}
		}
		if len(parts) > 0 && len(parts) < len(s.args) {
			return c.Extract(c.Concat(parts...), o, n)
		}
	}
	op := "seq.extract"
	if str {
		op = "str.substr"
	}
	return c.mk(op, "", s.sort, s, off, n)
}

// Update element i.
func (c *Ctx) Update(s, i, v *T) *T {
	n := c.Len(s)
	j := c.Add(i, c.Int(1))
	var u *T
	if isStr(s.sort) {
		u = c.FromCode(v)
	} else {
		u = c.Unit(v)
	}
	return c.Concat(c.Extract(s, c.Int(0), i), u, c.Extract(s, j, c.Sub(n, j)))
}

func (c *Ctx) StrOp(op, sort string, args ...*T) *T { return c.mk(op, "", sort, args...) }

// quantifiers --------------------------------------------------------------

func (c *Ctx) Forall(vars []*T, body *T) *T {
	if isTrue(body) {
		return body
	}
	args := append(append([]*T{}, vars...), body)
	return c.mk("forall", strconv.Itoa(len(vars)), "Bool", args...)
}

// datatypes ------------------------------------------------------------------

func (c *Ctx) Mk(dt *DT, args ...*T) *T {
	if len(args) > 0 {
		// mk(sel0(x), sel1(x), ...) = x
		if args[0].op == "sel:"+dt.name+":0" {
			x := args[0].args[0]
			ok := true
			for i, a := range args {
				if a.op != fmt.Sprintf("sel:%s:%d", dt.name, i) || a.args[0] != x {
					ok = false
				}
			}
			if ok {
				return x
			}
		}
	}
	return c.mk("mk:"+dt.name, "", dt.name, args...)
}
func (c *Ctx) Sel(dt *DT, i int, t *T) *T {
	if t.op == "mk:"+dt.name {
		return t.args[i]
	}
	if t.op == "ite" {
		return c.Ite(t.args[0], c.Sel(dt, i, t.args[1]), c.Sel(dt, i, t.args[2]))
	}
	return c.mk(fmt.Sprintf("sel:%s:%d", dt.name, i), "", dt.fields[i].sort, t)
}

// printing -------------------------------------------------------------------

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case ch == '"':
			b.WriteString(`""`)
		case ch == '\\' || ch < 32 || ch > 126:
			fmt.Fprintf(&b, `\u{%x}`, ch)
		default:
			b.WriteByte(ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (t *T) String() string {
	var b strings.Builder
	t.write(&b, nil, 0)
	return b.String()
}

func (t *T) write(b *strings.Builder, names map[int]string, depth int) {
	if names != nil {
		if n, ok := names[t.id]; ok {
			b.WriteString(n)
			return
		}
	}
	if names == nil && depth > 12 {
		b.WriteString("...")
		return
	}
	t.writeBody(b, names, depth)
}

func (t *T) writeBody(b *strings.Builder, names map[int]string, depth int) {
	switch {
	case t.op == "int":
		if t.lit[0] == '-' {
			b.WriteString("(- " + t.lit[1:] + ")")
		} else {
			b.WriteString(t.lit)
		}
		return
	case t.op == "bool" || t.op == "sym":
		b.WriteString(t.lit)
		return
	case t.op == "str":
		b.WriteString(smtStr(t.lit))
		return
	case t.op == "seq.empty":
		b.WriteString("(as seq.empty " + t.sort + ")")
		return
	case t.op == "constarr":
		b.WriteString("((as const " + t.sort + ") ")
		t.args[0].write(b, names, depth+1)
		b.WriteString(")")
		return
	case t.op == "forall":
		n, _ := strconv.Atoi(t.lit)
		b.WriteString("(forall (")
		for i := 0; i < n; i++ {
			fmt.Fprintf(b, "(%s %s)", t.args[i].lit, t.args[i].sort)
		}
		b.WriteString(") ")
		t.args[n].write(b, names, depth+1)
		b.WriteString(")")
		return
	}
	op := t.op
	if op == "app" {
		op = t.lit
	} else if strings.HasPrefix(op, "mk:") {
		op = "mk_" + op[3:]
	} else if strings.HasPrefix(op, "sel:") {
		p := strings.Split(op, ":")
		op = "get_" + p[1] + "_" + p[2]
	}
	if len(t.args) == 0 {
		b.WriteString(op)
		return
	}
	b.WriteString("(" + op)
	for _, a := range t.args {
		b.WriteByte(' ')
		a.write(b, names, depth+1)
	}
	b.WriteString(")")
}
