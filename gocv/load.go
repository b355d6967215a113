package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded repository.
type Prog struct {
	fnIDs  map[*ssa.Function]int64
	fo     map[string][]*ssa.Function
	foMu   sync.Mutex
	ssa    *ssa.Program
	pkgs   []*ssa.Package
	ppk    []*packages.Package
	funcs  map[string]*ssa.Function // by key, see funcKey
	named  []*types.Named           // all named types of the repo
	dts    *DTs
	path   string
	impls  map[string][]types.Type
	mu     sync.Mutex
	tables map[string]*table
}

// stdPkgs are library packages of which some functions are executed from
// their source (stdInline) rather than modelled.
var stdPkgs = []string{"net/url"}

var stdInline = map[string]bool{
	"(net/url.Values).Get": true,
	"(net/url.Values).Set": true,
}

const modPath = "github.com/mitch000001/go-hbci"

// funcKey names functions: "token.(*Lexer).next", "token.lexStart".
func funcKey(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	// "(*token.Lexer).next" -> "token.(*Lexer).next"
	if strings.HasPrefix(s, "(") {
		i := strings.Index(s, ")")
		inner := s[1:i]
		star := ""
		if strings.HasPrefix(inner, "*") {
			star = "*"
			inner = inner[1:]
		}
		j := strings.LastIndex(inner, ".")
		pkg, typ := inner[:j], inner[j+1:]
		if k := strings.LastIndex(pkg, "/"); k >= 0 && star == "" {
			_ = k
		}
		return pkg + ".(" + star + typ + ")" + s[i+1:]
	}
	return s
}

func loadProg(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	// specification functions: Go functions that call the code of the repository
	// and whose contracts speak about what these calls do together
	drivers := filepath.Join(verifDir(), "drivers")
	filepath.Walk(drivers, func(path string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(path, ".go") {
			if b, err := os.ReadFile(path); err == nil {
				if rel, err := filepath.Rel(drivers, path); err == nil {
					if cfg.Overlay == nil {
						cfg.Overlay = map[string][]byte{}
					}
					abs, _ := filepath.Abs(dir)
					cfg.Overlay[filepath.Join(abs, rel)] = b
				}
			}
		}
		return nil
	})
	pkgs, err := packages.Load(cfg, append([]string{"./..."}, stdPkgs...)...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading %s: %s", dir, strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{ssa: prog, ppk: pkgs, path: dir, funcs: map[string]*ssa.Function{}, dts: newDTs(modPath), impls: map[string][]types.Type{}}
	for _, sp := range spkgs {
		if sp == nil || !strings.HasPrefix(sp.Pkg.Path(), modPath) {
			continue
		}
		p.pkgs = append(p.pkgs, sp)
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				p.addFunc(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				p.named = append(p.named, n)
				for i := 0; i < n.NumMethods(); i++ {
					if f := prog.FuncValue(n.Method(i)); f != nil {
						p.addFunc(f)
					}
				}
			}
		}
	}
	p.findTables()
	return p, nil
}

func (p *Prog) addFunc(f *ssa.Function) {
	p.funcs[funcKey(f)] = f
	for _, a := range f.AnonFuncs {
		p.addFunc(a)
	}
}

// fnID numbers functions used as values (distinct, non-nil).
func (p *Prog) fnID(f *ssa.Function) int64 {
	p.foMu.Lock()
	defer p.foMu.Unlock()
	if p.fnIDs == nil {
		p.fnIDs = map[*ssa.Function]int64{}
		var ks []string
		for k := range p.funcs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			p.fnIDs[p.funcs[k]] = int64(7000001 + i)
		}
	}
	if n, ok := p.fnIDs[f]; ok {
		return n
	}
	n := int64(8000001 + len(p.fnIDs))
	p.fnIDs[f] = n
	return n
}

// implementers lists the repo types (T or *T) implementing iface.
func (p *Prog) implementers(it *types.Interface) []types.Type {
	k := types.TypeString(it, nil)
	p.dts.mu.Lock()
	r, ok := p.impls[k]
	p.dts.mu.Unlock()
	if ok {
		return r
	}
	for _, n := range p.named {
		if _, ok := n.Underlying().(*types.Interface); ok {
			continue
		}
		if types.Implements(n, it) {
			r = append(r, n)
		} else if types.Implements(types.NewPointer(n), it) {
			r = append(r, types.NewPointer(n))
		}
	}
	p.dts.mu.Lock()
	p.impls[k] = r
	p.dts.mu.Unlock()
	return r
}

// typeByName resolves "pkg.Name" or "*pkg.Name".
func (p *Prog) typeByName(s string) types.Type {
	if strings.HasPrefix(s, "*") {
		t := p.typeByName(s[1:])
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	}
	if strings.HasPrefix(s, "[]") {
		t := p.typeByName(s[2:])
		if t == nil {
			return nil
		}
		return types.NewSlice(t)
	}
	switch s {
	case "int":
		return types.Typ[types.Int]
	case "string":
		return types.Typ[types.String]
	case "bool":
		return types.Typ[types.Bool]
	case "byte":
		return types.Universe.Lookup("byte").Type()
	case "float64":
		return types.Typ[types.Float64]
	case "error":
		return types.Universe.Lookup("error").Type()
	}
	i := strings.LastIndex(s, ".")
	if i < 0 {
		return nil
	}
	pk, nm := s[:i], s[i+1:]
	for _, sp := range p.ssa.AllPackages() {
		if sp.Pkg.Name() == pk || sp.Pkg.Path() == pk || strings.TrimPrefix(sp.Pkg.Path(), modPath+"/") == pk {
			if o := sp.Pkg.Scope().Lookup(nm); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}
