package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/milosgajdos/netscrape"

// Prog is the loaded program.
type Prog struct {
	ssa   *ssa.Program
	pkgs  []*ssa.Package          // packages of the module
	byP   map[string]*ssa.Package // by import path
	tpkgs map[string]*types.Package
	funcs map[string]*ssa.Function // by short name
	named []*types.Named           // named types of the module
}

func loadProg(dir, contracts string) (*Prog, error) {
	overlay := map[string][]byte{}
	fs, _ := filepath.Glob(filepath.Join(contracts, "models", "*.go"))
	abs, err := filepath.Abs(dir)
	if err != nil {
		return nil, err
	}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		overlay[filepath.Join(abs, "pkg", "internal", "zzmodel", filepath.Base(f))] = b
	}
	cfg := &packages.Config{Overlay: overlay, Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod -tags=safe", "GOPROXY=off")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load: %v", e)
		}
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{ssa: prog, byP: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, funcs: map[string]*ssa.Function{}}
	for _, sp := range ps {
		if sp == nil {
			continue
		}
		p.pkgs = append(p.pkgs, sp)
	}
	prog.Build()
	for _, sp := range prog.AllPackages() {
		p.byP[sp.Pkg.Path()] = sp
		p.tpkgs[sp.Pkg.Path()] = sp.Pkg
	}
	for _, sp := range p.pkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				p.funcs[funcName(m)] = m
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				p.named = append(p.named, n)
				if types.IsInterface(n) {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					f := prog.FuncValue(n.Method(i))
					if f != nil {
						p.funcs[funcName(f)] = f
					}
				}
			}
		}
	}
	sort.Slice(p.named, func(i, j int) bool { return typeName(p.named[i]) < typeName(p.named[j]) })
	return p, nil
}

func shortPkg(path string) string {
	if path == modPath {
		return "netscrape"
	}
	s := strings.TrimPrefix(path, modPath+"/")
	return strings.TrimPrefix(s, "pkg/")
}

func qual(p *types.Package) string { return shortPkg(p.Path()) }

func typeName(t types.Type) string { return types.TypeString(t, qual) }

// funcName is e.g. plan/simple.NewSimple or plan/simple.(Simple).Add.
func funcName(f *ssa.Function) string {
	if f.Parent() != nil {
		return funcName(f.Parent()) + "$" + f.Name()
	}
	pk := ""
	if f.Pkg != nil {
		pk = shortPkg(f.Pkg.Pkg.Path())
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = shortPkg(f.Object().Pkg().Path())
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return pk + ".(" + n.Obj().Name() + ")." + f.Name()
		}
		return pk + ".(" + typeName(t) + ")." + f.Name()
	}
	return pk + "." + f.Name()
}

func (p *Prog) inModule(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
		}
		if g.Parent() == nil && g.Object() != nil && g.Object().Pkg() != nil {
			return strings.HasPrefix(g.Object().Pkg().Path(), modPath)
		}
	}
	return false
}

func exported(f *ssa.Function) bool {
	return f.Parent() == nil && f.Object() != nil && f.Object().Exported()
}

// deref returns the pointee.
func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isLockType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// sortOf maps a Go type to a sort, declaring datatypes on the way.
func (c *Ctx) sortOf(t types.Type) Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsFloat != 0, u.Info()&types.IsComplex != 0:
			return SFlt
		case u.Info()&types.IsString != 0:
			return SStr
		}
		return SInt
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Interface:
		return SIface
	case *types.Slice:
		return SSlice
	case *types.Array:
		return ArrSort(SInt, c.sortOf(u.Elem()))
	case *MathMap:
		return ArrSort(c.sortOf(u.K), c.sortOf(u.V))
	case *types.Struct:
		if isLockType(t) {
			return SInt
		}
		name := "T_" + typeName(t)
		s := Sort(symq(name))
		if _, ok := c.dts[s]; ok {
			return s
		}
		d := &DT{Sort: s, Ctor: symq("mk_" + name)}
		c.dts[s] = d
		for i := 0; i < u.NumFields(); i++ {
			d.Sels = append(d.Sels, symq(fmt.Sprintf("%s#%d_%s", name, i, u.Field(i).Name())))
			d.FSorts = append(d.FSorts, c.sortOf(u.Field(i).Type()))
		}
		c.dtOrd = append(c.dtOrd, s)
		return s
	}
	return SInt
}

// zero is the zero value of a type.
func (c *Ctx) zero(t types.Type) *Term {
	s := c.sortOf(t)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isLockType(t) {
			return c.Zero
		}
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = c.zero(u.Field(i).Type())
		}
		return c.Ctor(s, args...)
	case *types.Array:
		return c.ConstArr(s, c.zero(u.Elem()))
	case *MathMap:
		return c.ConstArr(s, c.zero(u.V))
	}
	return c.zeroSort(s)
}

func (c *Ctx) zeroSort(s Sort) *Term {
	switch s {
	case SInt:
		return c.Zero
	case SBool:
		return c.False
	case SStr:
		return c.Str("")
	case SFlt:
		return c.Flt("0")
	case SIface:
		return c.NilI
	case SSlice:
		return c.Ctor(SSlice, c.Zero, c.Zero, c.Zero)
	}
	if isArr(s) {
		_, v := splitArr(s)
		return c.ConstArr(s, c.zeroSort(v))
	}
	panic("zeroSort " + string(s))
}
