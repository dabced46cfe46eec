package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded harness module and everything it depends on.
type Program struct {
	ssa   *ssa.Program
	pkgs  []*ssa.Package
	mu    sync.Mutex
	built map[*ssa.Package]bool
	pure  map[*ssa.Function]int // 1 in progress, 2 yes, 3 no
	impl  map[string]bool
	used  map[string]int // functions encoded -> number of SSA instructions
	docs  map[string]string

	queryTimeoutMs int
	stepLimit      int
	witnessKeep    int
	witnessStride  int
	crossEvery     int
}

const repoPath = "gopkg.in/addrs.v1"
const harnessPath = "verif/harness"

func loadProgram(dir string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
		Overlay: overlay,
	}
	ps, err := packages.Load(cfg, "./h4", "./h6", "./hip")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Program{ssa: prog, pkgs: pkgs, built: map[*ssa.Package]bool{}, pure: map[*ssa.Function]int{},
		impl: map[string]bool{}, used: map[string]int{}, docs: map[string]string{},
		queryTimeoutMs: 20000, stepLimit: 12000000, witnessKeep: 200, witnessStride: 10}
	for _, pk := range prog.AllPackages() {
		if p.whitelisted(pk) {
			pk.Build()
		}
	}
	for _, gp := range ps {
		collectDocs(gp, p.docs)
	}
	return p, nil
}

func (p *Program) whitelisted(pk *ssa.Package) bool {
	if pk == nil {
		return false
	}
	path := pk.Pkg.Path()
	return strings.HasPrefix(path, repoPath) || strings.HasPrefix(path, harnessPath)
}

func (p *Program) ensureBuilt(fn *ssa.Function) {
	pk := fn.Package()
	if pk == nil {
		if o := fn.Origin(); o != nil {
			pk = o.Package()
		}
	}
	if pk == nil {
		return
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.built[pk] {
		pk.Build()
		p.built[pk] = true
	}
}

func (p *Program) noteFn(fn *ssa.Function, name string) {
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
	}
	p.mu.Lock()
	p.used[name] = n
	p.mu.Unlock()
}

// usedRepo lists the repository functions that were encoded.
func (p *Program) usedRepo() []string {
	var out []string
	for k := range p.used {
		if strings.Contains(k, repoPath) && !strings.Contains(k, harnessPath) {
			out = append(out, strings.ReplaceAll(k, repoPath+"/", ""))
		}
	}
	sort.Strings(out)
	return out
}

func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	return p.ssa.LookupMethod(t, m.Pkg(), m.Name())
}

func (p *Program) implements(t types.Type, i *types.Interface) bool {
	return types.Implements(t, i)
}

func scalarType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		_, _, ok := basicWidth(u)
		return ok
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !scalarType(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

// isPure reports whether fn computes scalars from scalars without touching
// memory other than its own non-escaping locals, so that all of its paths
// may be executed and merged.
func (p *Program) isPure(fn *ssa.Function) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.pureLocked(fn, 0)
}

func (p *Program) pureLocked(fn *ssa.Function, depth int) bool {
	switch p.pure[fn] {
	case 1, 3:
		return false
	case 2:
		return true
	}
	p.pure[fn] = 1
	ok := depth < 20 && p.pureBody(fn, depth)
	if ok {
		p.pure[fn] = 2
	} else {
		p.pure[fn] = 3
	}
	return ok
}

func (p *Program) pureBody(fn *ssa.Function, depth int) bool {
	if len(fn.Blocks) == 0 || fn.Recover != nil || len(fn.FreeVars) > 0 {
		return false
	}
	if !p.whitelisted(fn.Package()) || strings.HasSuffix(fn.Package().Pkg.Path(), "/sym") {
		return false
	}
	sig := fn.Signature
	if sig.Results().Len() == 0 {
		return false
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if !scalarType(sig.Results().At(i).Type()) {
			return false
		}
	}
	for _, pr := range fn.Params {
		if !scalarType(pr.Type()) {
			return false
		}
	}
	var localAddr func(v ssa.Value) bool
	localAddr = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			return localAddr(v.X)
		case *ssa.IndexAddr:
			return localAddr(v.X)
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Extract, *ssa.Field, *ssa.DebugRef, *ssa.ChangeType:
			case *ssa.Convert:
				if !scalarType(in.X.Type()) || !scalarType(in.Type()) {
					return false
				}
			case *ssa.UnOp:
				if in.Op.String() == "<-" {
					return false
				}
				if in.Op.String() == "*" {
					if _, ok := in.X.(*ssa.Global); !ok && !localAddr(in.X) {
						return false
					}
				}
			case *ssa.Alloc:
				for _, ref := range *in.Referrers() {
					switch ref := ref.(type) {
					case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if ref.Val == in {
							return false
						}
					default:
						return false
					}
				}
			case *ssa.FieldAddr:
				if !localAddr(in) || !simpleRefs(in) {
					return false
				}
			case *ssa.IndexAddr:
				if !localAddr(in) || !simpleRefs(in) {
					return false
				}
			case *ssa.Store:
				if !localAddr(in.Addr) {
					return false
				}
			case *ssa.Call:
				f := in.Call.StaticCallee()
				if f == nil {
					return false
				}
				if pureIntrinsic[f.String()] {
					continue
				}
				if !p.pureLocked(f, depth+1) {
					return false
				}
			case *ssa.Panic:
			default:
				return false
			}
		}
	}
	return true
}

func simpleRefs(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		switch ref := ref.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if ref.Val == v {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// collectDocs records the doc comment of every harness function.
func collectDocs(gp *packages.Package, docs map[string]string) {
	for _, f := range gp.Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Doc != nil {
				docs[gp.PkgPath+"."+fd.Name.Name] = strings.Join(strings.Fields(fd.Doc.Text()), " ")
			}
		}
	}
}
