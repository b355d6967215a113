package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// Expr is a contract expression.
type Expr struct {
	op   string // ident, int, str, call, sel, index, slice, unary, binary, cond, forall, old
	name string
	args []*Expr
	src  string
	file string
	line int
}

// SV is a typed spec value.
type SV struct {
	v   Val
	typ types.Type
}

type LoopSpec struct {
	inv []*Expr
	dec *Expr
	use []*Expr
}

type modLoc struct {
	key  string
	base *T
	all  bool
}

// FuncSpec is the contract of a function, function type or interface method.
type FuncSpec struct {
	key        string
	kind       string // func, functype, iface, extern
	params     []string
	results    []string
	req, ens   []*Expr
	mods       []*Expr
	dec        *Expr
	modLocs    []modLoc
	pure       bool
	trusted    bool
	inline     bool
	mayPanic   bool
	overflow   bool
	joins      bool // forget at the end of an if what its branches established
	anyMod     bool
	freshRes   bool
	implement  string
	allocBound *Expr
	loops      map[int]*LoopSpec
	props      []string
	uses       []*Expr
	note       string
	selfName   string // functype: name of the function value itself
	file       string
	line       int
}

// SpecFn is a macro, recursive or uninterpreted spec function.
type SpecFn struct {
	opq    bool // defined without recursion, but kept folded
	order  int
	name   string
	kind   string // def, rec, ufn
	params []string
	types  []string
	ret    string
	body   *Expr
	dec    *Expr
	props  []string
}

// Lemma is a proved (or, as axiom, assumed) fact.
type Lemma struct {
	name    string
	params  []string
	types   []string
	induct  string
	req     []*Expr
	ens     []*Expr
	uses    []*Expr
	trigger string
	axiom   bool
	props   []string
	hints   []*Expr
	dec     *Expr
	order   int
	note    string
}

type Specs struct {
	families  []*FuncSpec
	expanded  bool
	funcs     map[string]*FuncSpec
	fns       map[string]*SpecFn
	lemmas    map[string]*Lemma
	lorder    []string
	fnorder   []string
	forder    []string
	byTrigger map[string][]string
	errs      []string
}

// parsing ---------------------------------------------------------------------

type tok struct {
	k, s string
}

func lexSpec(s string) []tok {
	var r []tok
	i := 0
	for i < len(s) {
		ch := s[i]
		switch {
		case ch == ' ' || ch == '\t' || ch == '\n':
			i++
		case ch >= '0' && ch <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			r = append(r, tok{"int", s[i:j]})
			i = j
		case unicode.IsLetter(rune(ch)) || ch == '_' || ch == '$':
			j := i
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_' || s[j] == '$') {
				j++
			}
			r = append(r, tok{"id", s[i:j]})
			i = j
		case ch == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			u, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				panic("bad string in spec: " + s[i:j+1])
			}
			r = append(r, tok{"str", u})
			i = j + 1
		case ch == '\'':
			j := i + 1
			for s[j] != '\'' || j == i+1 {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			v, _, _, err := strconv.UnquoteChar(s[i+1:j], '\'')
			if err != nil {
				panic("bad char in spec: " + s[i:j+1])
			}
			r = append(r, tok{"int", strconv.Itoa(int(v))})
			i = j + 1
		default:
			done := false
			for _, op := range []string{"<==>", "==>", "==", "!=", "<=", ">=", "&&", "||", "..", "::"} {
				if strings.HasPrefix(s[i:], op) {
					r = append(r, tok{"op", op})
					i += len(op)
					done = true
					break
				}
			}
			if !done {
				r = append(r, tok{"op", string(ch)})
				i++
			}
		}
	}
	return append(r, tok{"eof", ""})
}

type specParser struct {
	t []tok
	i int
	s string
}

func (p *specParser) peek() tok { return p.t[p.i] }
func (p *specParser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *specParser) expect(s string) {
	if t := p.next(); t.s != s {
		panic(fmt.Sprintf("spec syntax: expected %q, got %q in %q", s, t.s, p.s))
	}
}

func parseExpr(s string) (e *Expr) {
	p := &specParser{t: lexSpec(s), s: s}
	e = p.expr(0)
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("spec syntax: unexpected %q in %q", p.peek().s, s))
	}
	e.src = strings.TrimSpace(s)
	return e
}

var prec = map[string]int{"<==>": 1, "==>": 2, "?": 3, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func (p *specParser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := prec[t.s]
		if t.k != "op" || !ok || pr < min {
			return l
		}
		p.next()
		if t.s == "?" {
			a := p.expr(4)
			p.expect(":")
			b := p.expr(3)
			l = &Expr{op: "cond", args: []*Expr{l, a, b}}
			continue
		}
		n := pr + 1
		if t.s == "==>" {
			n = pr
		}
		r := p.expr(n)
		l = &Expr{op: "binary", name: t.s, args: []*Expr{l, r}}
	}
}

func (p *specParser) unary() *Expr {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-") {
		p.next()
		return &Expr{op: "unary", name: t.s, args: []*Expr{p.unary()}}
	}
	return p.postfix()
}

func (p *specParser) typeRef() string {
	s := ""
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "*" || t.s == "[" || t.s == "]") {
			s += p.next().s
			continue
		}
		break
	}
	s += p.next().s
	for p.peek().s == "." || p.peek().s == "/" {
		s += p.next().s
		s += p.next().s
	}
	return s
}

func (p *specParser) postfix() *Expr {
	var e *Expr
	t := p.next()
	switch {
	case t.k == "int":
		e = &Expr{op: "int", name: t.s}
	case t.k == "str":
		e = &Expr{op: "str", name: t.s}
	case t.s == "(":
		e = p.expr(0)
		p.expect(")")
	case t.k == "id" && (t.s == "forall" || t.s == "exists"):
		// forall i int, j int :: body   |  forall i in lo..hi :: body
		e = &Expr{op: t.s}
		for {
			n := p.next().s
			if p.peek().s == "in" {
				p.next()
				lo := p.expr(7)
				p.expect("..")
				hi := p.expr(7)
				e.args = append(e.args, &Expr{op: "range", name: n, args: []*Expr{lo, hi}})
			} else {
				e.args = append(e.args, &Expr{op: "var", name: n, src: p.typeRef()})
			}
			if p.peek().s == "," {
				p.next()
				continue
			}
			break
		}
		p.expect("::")
		e.args = append(e.args, p.expr(0))
		return e
	case t.k == "id":
		e = &Expr{op: "ident", name: t.s}
	default:
		panic(fmt.Sprintf("spec syntax: unexpected %q in %q", t.s, p.s))
	}
	for {
		t := p.peek()
		if t.k != "op" {
			return e
		}
		switch t.s {
		case ".":
			p.next()
			e = &Expr{op: "sel", name: p.next().s, args: []*Expr{e}}
		case "(":
			p.next()
			c := &Expr{op: "call", args: []*Expr{e}}
			fn := e.name
			if e.op == "ident" && (fn == "is" || fn == "as" || fn == "zero" || fn == "tag" || fn == "iface") {
				// second (or only) argument is a type
				if fn == "is" || fn == "as" || fn == "iface" {
					c.args = append(c.args, p.expr(0))
					p.expect(",")
				}
				c.args = append(c.args, &Expr{op: "type", name: p.typeRef()})
				p.expect(")")
				e = c
				continue
			}
			if e.op == "ident" && (fn == "fn" || fn == "pure" || fn == "global") {
				// first argument is a key, as a string literal
			}
			for p.peek().s != ")" {
				c.args = append(c.args, p.expr(0))
				if p.peek().s == "," {
					p.next()
				}
			}
			p.expect(")")
			e = c
		case "[":
			p.next()
			if p.peek().s == ":" {
				p.next()
				if p.peek().s == "]" {
					p.next()
					continue
				}
				hi := p.expr(0)
				p.expect("]")
				e = &Expr{op: "slice", args: []*Expr{e, {op: "int", name: "0"}, hi}}
				continue
			}
			i := p.expr(4)
			if p.peek().s == ":" {
				p.next()
				if p.peek().s == "]" {
					p.next()
					e = &Expr{op: "slice", args: []*Expr{e, i, nil}}
					continue
				}
				hi := p.expr(0)
				p.expect("]")
				e = &Expr{op: "slice", args: []*Expr{e, i, hi}}
				continue
			}
			p.expect("]")
			e = &Expr{op: "index", args: []*Expr{e, i}}
		default:
			return e
		}
	}
}

func splitNames(s string) []string {
	var r []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			r = append(r, x)
		}
	}
	return r
}

// parseParams parses "a T, b U".
func parseParams(s string) (names, typs []string) {
	for _, x := range splitNames(s) {
		f := strings.Fields(x)
		names = append(names, f[0])
		if len(f) > 1 {
			typs = append(typs, f[1])
		} else {
			typs = append(typs, "")
		}
	}
	for i := len(typs) - 2; i >= 0; i-- {
		if typs[i] == "" {
			typs[i] = typs[i+1]
		}
	}
	return
}

// LoadSpecs reads all contract files of a directory.
func LoadSpecs(dir string) (*Specs, error) {
	sp := &Specs{funcs: map[string]*FuncSpec{}, fns: map[string]*SpecFn{}, lemmas: map[string]*Lemma{}}
	files, err := filepath.Glob(filepath.Join(dir, "*.gocv"))
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := sp.parse(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	sp.byTrigger = map[string][]string{}
	for _, n := range sp.lorder {
		if t := sp.lemmas[n].trigger; t != "" {
			if f, ok := sp.fns[t]; ok {
				t = f.kind + "$" + t
			} else if !strings.Contains(t, "$") {
				t = "ufn$" + t
			}
			sp.byTrigger[t] = append(sp.byTrigger[t], n)
		}
	}
	return sp, nil
}

func (sp *Specs) parse(file, text string) (err error) {
	line := 0
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%s:%d: %v", file, line, r)
		}
	}()
	raw := strings.Split(text, "\n")
	// join continuation lines (ending with a backslash)
	var lines []string
	var nums []int
	for i := 0; i < len(raw); i++ {
		l := raw[i]
		n := i + 1
		for strings.HasSuffix(strings.TrimRight(l, " "), "\\") && i+1 < len(raw) {
			l = strings.TrimSuffix(strings.TrimRight(l, " "), "\\") + " " + strings.TrimSpace(raw[i+1])
			i++
		}
		lines = append(lines, l)
		nums = append(nums, n)
	}
	var cur *FuncSpec
	var lem *Lemma
	var loop *LoopSpec
	var sfn *SpecFn
	for li, l := range lines {
		line = nums[li]
		t := strings.TrimSpace(l)
		t = strings.TrimPrefix(t, "//@")
		t = strings.TrimSpace(t)
		if t == "" || strings.HasPrefix(t, "#") || strings.HasPrefix(t, "//") {
			continue
		}
		kw := t
		rest := ""
		if i := strings.IndexAny(t, " \t"); i >= 0 {
			kw, rest = t[:i], strings.TrimSpace(t[i:])
		}
		mk := func(s string) *Expr {
			e := parseExpr(s)
			e.file, e.line = file, line
			return e
		}
		switch kw {
		case "func", "functype", "iface", "extern", "family":
			lem, loop, sfn = nil, nil, nil
			cur = &FuncSpec{kind: kw, loops: map[int]*LoopSpec{}, file: file, line: line}
			// KEY (a, b) (r, e)   -- the key itself may contain parentheses
			key := rest
			if i := strings.Index(rest, " "); i >= 0 {
				key = rest[:i]
				ps := strings.TrimSpace(rest[i:])
				if strings.HasPrefix(ps, "(") {
					j := strings.Index(ps, ")")
					cur.params = splitNames(ps[1:j])
					ps = strings.TrimSpace(ps[j+1:])
					if strings.HasPrefix(ps, "(") {
						j := strings.Index(ps, ")")
						cur.results = splitNames(ps[1:j])
					}
				}
			}
			cur.key = key
			if kw == "extern" {
				cur.trusted = true
			}
			if kw == "family" {
				sp.families = append(sp.families, cur)
				continue
			}
			if _, dup := sp.funcs[kw2(kw)+key]; dup {
				panic("duplicate contract for " + key)
			}
			sp.funcs[kw2(kw)+key] = cur
			sp.forder = append(sp.forder, kw2(kw)+key)
		case "def", "rec", "ufn", "ghost":
			cur, lem, loop = nil, nil, nil
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			f := &SpecFn{name: strings.TrimSpace(rest[:i]), kind: kw}
			f.params, f.types = parseParams(rest[i+1 : j])
			tail := strings.TrimSpace(rest[j+1:])
			if k := strings.Index(tail, "="); k >= 0 {
				f.ret = strings.TrimSpace(tail[:k])
				f.body = mk(tail[k+1:])
			} else {
				f.ret = tail
			}
			f.opq = kw == "rec" && !mentions(f.body, f.name)
			f.order = len(sp.fnorder)
			if _, dup := sp.fns[f.name]; dup {
				panic("duplicate spec function " + f.name)
			}
			sp.fns[f.name] = f
			cur, lem, loop, sfn = nil, nil, nil, f
			sp.fnorder = append(sp.fnorder, f.name)
		case "lemma", "axiom":
			cur, loop, sfn = nil, nil, nil
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			lem = &Lemma{name: strings.TrimSpace(rest[:i]), axiom: kw == "axiom", order: len(sp.lorder)}
			lem.params, lem.types = parseParams(rest[i+1 : j])
			f := strings.Fields(rest[j+1:])
			for k := 0; k+1 < len(f); k += 2 {
				switch f[k] {
				case "induct":
					lem.induct = f[k+1]
				case "on":
					lem.trigger = f[k+1]
				default:
					panic("unknown lemma attribute " + f[k])
				}
			}
			if _, dup := sp.lemmas[lem.name]; dup {
				panic("duplicate lemma " + lem.name)
			}
			sp.lemmas[lem.name] = lem
			sp.lorder = append(sp.lorder, lem.name)
		case "requires":
			if lem != nil {
				lem.req = append(lem.req, mk(rest))
			} else {
				cur.req = append(cur.req, mk(rest))
			}
		case "ensures":
			if lem != nil {
				lem.ens = append(lem.ens, mk(rest))
			} else {
				cur.ens = append(cur.ens, mk(rest))
				if strings.Contains(rest, "fresh(") {
					cur.freshRes = true
				}
			}
		case "use":
			if lem != nil {
				lem.uses = append(lem.uses, mk(rest))
			} else if loop != nil {
				loop.use = append(loop.use, mk(rest))
			} else {
				cur.uses = append(cur.uses, mk(rest))
			}
		case "modifies":
			if rest == "*" {
				cur.anyMod = true
				continue
			}
			for _, x := range splitNames(rest) {
				cur.mods = append(cur.mods, mk(x))
			}
		case "pure":
			cur.pure = true
		case "trusted":
			cur.trusted = true
		case "inline":
			cur.inline = true
		case "maypanic":
			cur.mayPanic = true
		case "joins":
			cur.joins = true
		case "overflow":
			cur.overflow = true
		case "freshresult":
			cur.freshRes = true
		case "implements":
			cur.implement = rest
		case "allocbound":
			cur.allocBound = mk(rest)
		case "note":
			if lem != nil {
				lem.note = rest
			} else {
				cur.note = rest
			}
		case "props":
			if lem != nil {
				lem.props = strings.Fields(rest)
			} else {
				cur.props = strings.Fields(rest)
			}
		case "loop":
			n, err := strconv.Atoi(rest)
			if err != nil {
				panic("loop ordinal")
			}
			loop = &LoopSpec{}
			cur.loops[n] = loop
		case "invariant":
			loop.inv = append(loop.inv, mk(rest))
		case "decreases":
			if sfn != nil {
				sfn.dec = mk(rest)
			} else if lem != nil {
				lem.dec = mk(rest)
			} else if loop != nil {
				loop.dec = mk(rest)
			} else {
				cur.dec = mk(rest)
			}
		default:
			panic("unknown keyword " + kw)
		}
	}
	return nil
}

// expand gives every function that matches the pattern of a family, and has no
// contract of its own, the contract of the family.
func (sp *Specs) expand(p *Prog) {
	if sp.expanded {
		return
	}
	sp.expanded = true
	var keys []string
	for k, f := range p.funcs {
		if f.Synthetic == "" && len(f.Blocks) > 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, f := range sp.families {
		re := regexp.MustCompile("^(?:" + f.key + ")$")
		n := 0
		for _, k := range keys {
			if !re.MatchString(k) {
				continue
			}
			n++
			if sp.funcs[k] != nil {
				continue
			}
			c := *f
			c.key, c.kind = k, "func"
			sp.funcs[k] = &c
			sp.forder = append(sp.forder, k)
		}
		if n == 0 {
			// reported as a contract that does not attach
			c := *f
			c.kind = "func"
			sp.funcs[f.key] = &c
			sp.forder = append(sp.forder, f.key)
		}
	}
}

func kw2(kw string) string {
	switch kw {
	case "functype":
		return "functype:"
	case "iface":
		return "iface:"
	}
	return ""
}
