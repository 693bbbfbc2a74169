package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// MathMap is a mathematical map (an SMT array) in contracts.
type MathMap struct{ K, V types.Type }

func (m *MathMap) Underlying() types.Type { return m }
func (m *MathMap) String() string         { return "fmap[" + typeName(m.K) + "]" + typeName(m.V) }

var (
	tInt  types.Type = types.Typ[types.Int]
	tBool types.Type = types.Typ[types.Bool]
	tStr  types.Type = types.Typ[types.String]
	tNil  types.Type = types.Typ[types.UntypedNil]
)

type sval struct {
	t *Term
	T types.Type
}

// Env evaluates contract expressions in a state.
type Env struct {
	e     *Exec
	st    *State
	vars  map[string]sval
	file  *SpecFile
	comps map[string]*Term // nil: the current state
	alloc *Term            // watermark at entry of the call (for fresh)
	oldC  map[string]*Term
	entC  map[string]*Term // components at loop entry
	cnt   *Term            // $i
	evs   []*Event
	depth int
	lc    *loopCtx
	relC  map[string]*Term // components at the first release of the receiver's lock
}

type specErr struct{ msg string }

func (v *Env) fail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (v *Env) with(f func(*Env)) *Env {
	n := *v
	n.vars = make(map[string]sval, len(v.vars))
	for k, x := range v.vars {
		n.vars[k] = x
	}
	f(&n)
	return &n
}

func (v *Env) Bool(x *Expr) *Term {
	s := v.eval(x)
	if s.t.Sort != SBool {
		v.fail("boolean expected")
	}
	return s.t
}

func (v *Env) typ(s string) types.Type {
	T, err := v.file.resolveType(s)
	if err != nil {
		v.fail("%v", err)
	}
	return T
}

// coerce adapts untyped nil and interface boxing.
func (v *Env) coerce(a sval, T types.Type) sval {
	c := v.e.c
	if a.T == tNil {
		return sval{c.zero(T), T}
	}
	if T == nil {
		return a
	}
	if types.IsInterface(T) && a.T != nil && !types.IsInterface(a.T) {
		if _, ok := a.T.(*MathMap); !ok {
			return sval{v.e.makeIface(v.st, a.t, a.T), T}
		}
	}
	return a
}

func (v *Env) unify(a, b sval) (sval, sval) {
	if a.T == tNil && b.T != tNil {
		return v.coerce(a, b.T), b
	}
	if b.T == tNil && a.T != tNil {
		return a, v.coerce(b, a.T)
	}
	if a.t.Sort != b.t.Sort {
		if a.t.Sort == SIface {
			return a, v.coerce(b, a.T)
		}
		if b.t.Sort == SIface {
			return v.coerce(a, b.T), b
		}
	}
	return a, b
}

func (v *Env) eval(x *Expr) sval {
	c := v.e.c
	switch x.Op {
	case "int":
		return sval{c.Int(x.Int), tInt}
	case "str":
		return sval{c.Str(x.Name), tStr}
	case "id":
		return v.ident(x.Name)
	case "zero":
		T := v.typ(x.Typ)
		return sval{c.zero(T), T}
	case "nilof":
		T := v.typ(x.Typ)
		return sval{c.zero(T), T}
	case "typetag":
		return sval{v.e.tag(v.typ(x.Typ)), tInt}
	case "box":
		a := v.eval(x.Args[0])
		T := v.typ(x.Typ)
		return sval{v.e.makeIface(v.st, a.t, T), types.NewInterfaceType(nil, nil)}
	case "emptyset":
		K := v.typ(x.Typ)
		return sval{c.ConstArr(ArrSort(c.sortOf(K), SBool), c.False), &MathMap{K, tBool}}
	case "if":
		k := v.Bool(x.Args[0])
		if (k == c.True || k == c.False) && !isNil(x.Args[1]) && !isNil(x.Args[2]) {
			if k == c.True {
				return v.eval(x.Args[1])
			}
			return v.eval(x.Args[2])
		}
		a, b := v.unify(v.eval(x.Args[1]), v.eval(x.Args[2]))
		return sval{c.Ite(k, a.t, b.t), a.T}
	case "un":
		a := v.eval(x.Args[0])
		if x.Name == "!" {
			return sval{c.Not(a.t), tBool}
		}
		return sval{c.Sub(c.Zero, a.t), tInt}
	case "bin":
		return v.bin(x)
	case "is":
		a := v.eval(x.Args[0])
		T := v.typ(x.Typ)
		if a.t.Sort != SIface {
			v.fail("is on non-interface")
		}
		if types.IsInterface(T) {
			return sval{c.And(c.Ne(c.Sel(a.t, 0), c.Zero), v.e.impl(T, c.Sel(a.t, 0))), tBool}
		}
		return sval{c.Eq(c.Sel(a.t, 0), v.e.tag(T)), tBool}
	case "as":
		a := v.eval(x.Args[0])
		T := v.typ(x.Typ)
		if types.IsInterface(T) {
			return sval{v.coerce(a, T).t, T}
		}
		if a.t.Sort != SIface {
			if s := c.sortOf(T); s != a.t.Sort {
				return sval{c.Fresh("cast", s), T} // any value
			}
			return sval{a.t, T}
		}
		return sval{v.e.unbox(c.Sel(a.t, 1), T), T}
	case "deref":
		a := v.eval(x.Args[0])
		T := deref(a.T)
		return sval{v.e.readObj(v.st, v.heap(), a.t, T), T}
	case "forall", "exists":
		var bs []*Term
		n := v.with(func(n *Env) {
			for _, b := range x.Binds {
				T := v.typ(b.Typ)
				t := c.BV(b.Name, c.sortOf(T))
				bs = append(bs, t)
				n.vars[b.Name] = sval{t, T}
			}
		})
		body := n.Bool(x.Args[0])
		var pats [][]*Term
		for _, g := range x.Trig {
			var p []*Term
			for _, t := range g {
				p = append(p, n.eval(t).t)
			}
			pats = append(pats, p)
		}
		if x.Op == "forall" {
			f := c.Forall(bs, pats, body)
			if len(bs) == 1 && len(pats) == 0 {
				f = c.And(append(c.arithInst(bs[0], body), f)...)
			}
			return sval{f, tBool}
		}
		return sval{c.Exists(bs, body), tBool}
	case "index":
		return v.index(x)
	case "field":
		return v.field(x)
	case "call":
		return v.callExpr(x)
	}
	v.fail("expression %s", x.Op)
	return sval{}
}

// heap is the component map that reads use (nil: current state).
func isNil(x *Expr) bool { return x.Op == "id" && x.Name == "nil" }

func (v *Env) heap() map[string]*Term { return v.comps }

func (v *Env) getc(name string, s Sort) *Term { return v.e.getc(v.st, v.comps, name, s) }

func (v *Env) ident(n string) sval {
	c := v.e.c
	if s, ok := v.vars[n]; ok {
		return s
	}
	switch n {
	case "true":
		return sval{c.True, tBool}
	case "false":
		return sval{c.False, tBool}
	case "nil":
		return sval{c.Zero, tNil}
	case "$i":
		if v.cnt == nil {
			v.fail("$i outside a loop")
		}
		return sval{v.cnt, tInt}
	case "$m":
		lc := v.mapLoop()
		if lc == nil {
			v.fail("$m outside a map iteration")
		}
		return sval{lc.cnt, tInt}
	case "$alloc":
		return sval{v.alloc, tInt}
	}
	if v.file != nil && v.file.Pkg != nil {
		if s, ok := v.pkgVar(v.file.Pkg, n); ok {
			return s
		}
	}
	v.fail("unknown identifier %s", n)
	return sval{}
}

func (v *Env) pkgVar(p *types.Package, n string) (sval, bool) {
	o := p.Scope().Lookup(n)
	switch o := o.(type) {
	case *types.Var:
		sp := v.e.prog.byP[p.Path()]
		g := sp.Var(n)
		if g == nil {
			return sval{}, false
		}
		return sval{v.e.loadGlobal(v.st, g), o.Type()}, true
	case *types.Const:
		c := v.e.c
		switch u := o.Type().Underlying().(*types.Basic); {
		case u.Info()&types.IsInteger != 0:
			k, _ := constant.Int64Val(constant.ToInt(o.Val()))
			return sval{c.Int(k), o.Type()}, true
		case u.Info()&types.IsString != 0:
			return sval{c.Str(constant.StringVal(o.Val())), o.Type()}, true
		case u.Info()&types.IsFloat != 0:
			return sval{c.Flt(o.Val().ExactString()), o.Type()}, true
		}
	case *types.Func:
		fn := v.e.prog.ssa.FuncValue(o)
		if fn != nil {
			return sval{v.e.funcTerm(fn, nil), o.Type()}, true
		}
	}
	return sval{}, false
}

func (v *Env) bin(x *Expr) sval {
	c := v.e.c
	switch x.Name {
	case "&&":
		a := v.Bool(x.Args[0])
		if a == c.False {
			return sval{c.False, tBool}
		}
		return sval{c.And(a, v.Bool(x.Args[1])), tBool}
	case "||":
		a := v.Bool(x.Args[0])
		if a == c.True {
			return sval{c.True, tBool}
		}
		return sval{c.Or(a, v.Bool(x.Args[1])), tBool}
	case "==>":
		a := v.Bool(x.Args[0])
		if a == c.False {
			return sval{c.True, tBool}
		}
		return sval{c.Imp(a, v.Bool(x.Args[1])), tBool}
	case "<==>":
		return sval{c.Eq(v.Bool(x.Args[0]), v.Bool(x.Args[1])), tBool}
	case "in":
		k, m := v.eval(x.Args[0]), v.eval(x.Args[1])
		d := v.dom(m)
		mm := d.T.(*MathMap)
		return sval{c.Select(d.t, v.coerce(k, mm.K).t), tBool}
	}
	a, b := v.unify(v.eval(x.Args[0]), v.eval(x.Args[1]))
	if a.t.Sort != b.t.Sort {
		v.fail("operands of %s differ: %s %s", x.Name, a.t.Sort, b.t.Sort)
	}
	switch x.Name {
	case "==":
		return sval{v.eq(a, b), tBool}
	case "!=":
		return sval{c.Not(v.eq(a, b)), tBool}
	case "<":
		return sval{c.Lt(a.t, b.t), tBool}
	case "<=":
		return sval{c.Le(a.t, b.t), tBool}
	case ">":
		return sval{c.Lt(b.t, a.t), tBool}
	case ">=":
		return sval{c.Le(b.t, a.t), tBool}
	case "+":
		if a.t.Sort == SStr {
			return sval{c.Concat(a.t, b.t), tStr}
		}
		return sval{c.Add(a.t, b.t), a.T}
	case "-":
		return sval{c.Sub(a.t, b.t), a.T}
	}
	v.fail("operator %s", x.Name)
	return sval{}
}

// eq is equality; arrays are compared pointwise.
func (v *Env) eq(a, b sval) *Term {
	c := v.e.c
	if a.t.Sort == SSlice && (b.T == tNil || b.t.Op == "mkS" && b.t.Args[0] == c.Zero) {
		return c.Eq(c.Sel(a.t, 0), c.Zero)
	}
	if isArr(a.t.Sort) {
		return c.ArrEq(a.t, b.t)
	}
	return c.Eq(a.t, b.t)
}

// ArrEq is pointwise equality of arrays.
func (c *Ctx) ArrEq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	k, _ := splitArr(a.Sort)
	i := c.BV("i", k)
	x, y := c.Select(a, i), c.Select(b, i)
	var body *Term
	if isArr(x.Sort) {
		body = c.ArrEq(x, y)
	} else {
		body = c.Eq(x, y)
	}
	return c.Forall([]*Term{i}, nil, body)
}

func (v *Env) dom(m sval) sval {
	c := v.e.c
	switch u := m.T.Underlying().(type) {
	case *types.Map:
		d, _, _, ds, _, _ := v.e.mapComps(u)
		return sval{c.Select(v.getc(d, ds), m.t), &MathMap{u.Key(), tBool}}
	case *MathMap:
		return m
	}
	v.fail("domain of %s", m.T)
	return sval{}
}

func (v *Env) index(x *Expr) sval {
	c := v.e.c
	a, i := v.eval(x.Args[0]), v.eval(x.Args[1])
	switch u := a.T.Underlying().(type) {
	case *types.Slice:
		n, s := v.e.elComp(u.Elem())
		return sval{c.Select(c.Select(v.getc(n, s), c.Sel(a.t, 0)), i.t), u.Elem()}
	case *types.Map:
		_, vn, _, _, vs, _ := v.e.mapComps(u)
		return sval{c.Select(c.Select(v.getc(vn, vs), a.t), v.coerce(i, u.Key()).t), u.Elem()}
	case *MathMap:
		return sval{c.Select(a.t, v.coerce(i, u.K).t), u.V}
	case *types.Array:
		return sval{c.Select(a.t, i.t), u.Elem()}
	}
	v.fail("index of %s", a.T)
	return sval{}
}

func (v *Env) field(x *Expr) sval {
	if x.Args[0].Op == "id" {
		if _, isVar := v.vars[x.Args[0].Name]; !isVar && v.file != nil {
			if p, ok := v.file.Imports[x.Args[0].Name]; ok {
				if s, ok := v.pkgVar(v.file.Specs.prog.tpkgs[p], x.Name); ok {
					return s
				}
				v.fail("no %s in %s", x.Name, p)
			}
		}
	}
	a := v.eval(x.Args[0])
	return v.selField(a, x.Name)
}

func (v *Env) selField(a sval, name string) sval {
	pkg := v.file.Pkg
	if n, ok := deref(a.T).(*types.Named); ok && n.Obj().Pkg() != nil {
		pkg = n.Obj().Pkg()
	}
	o, idx, _ := types.LookupFieldOrMethod(a.T, true, pkg, name)
	f, ok := o.(*types.Var)
	if !ok {
		v.fail("no field %s in %s", name, a.T)
	}
	_ = f
	for _, i := range idx {
		if _, ok := a.T.Underlying().(*types.Pointer); ok {
			T := deref(a.T)
			ft := v.e.structOf(T).Field(i).Type()
			a = sval{v.e.readField(v.st, v.heap(), a.t, T, i), ft}
			continue
		}
		ft := v.e.structOf(a.T).Field(i).Type()
		a = sval{v.e.c.Sel(a.t, i), ft}
	}
	return a
}

func (v *Env) callExpr(x *Expr) sval {
	c := v.e.c
	f := x.Args[0]
	args := x.Args[1:]
	if f.Op == "field" {
		// method or function of an imported package
		if f.Args[0].Op == "id" {
			if _, isVar := v.vars[f.Args[0].Name]; !isVar {
				if _, ok := v.file.Imports[f.Args[0].Name]; ok {
					return v.app(f.Name, args)
				}
			}
		}
		r := v.eval(f.Args[0])
		return v.method(r, f.Name, args)
	}
	if f.Op != "id" {
		v.fail("call")
	}
	switch f.Name {
	case "old":
		o := v.with(func(n *Env) {
			n.comps = v.oldC
			if n.comps == nil {
				n.comps = map[string]*Term{}
			}
		})
		return o.eval(args[0])
	case "entry":
		if v.entC == nil {
			v.fail("entry() outside a loop")
		}
		return v.with(func(n *Env) { n.comps = v.entC }).eval(args[0])
	case "released":
		// released(e): at the first release of a lock
		if v.relC == nil {
			a := v.eval(args[0])
			return sval{c.Fresh("norelease", a.t.Sort), a.T}
		}
		return v.with(func(n *Env) { n.comps = v.relC }).eval(args[0])
	case "atgo":
		// atgo(e): when the goroutine was started
		if v.e.goC == nil {
			a := v.eval(args[0])
			return sval{c.Fresh("nogo", a.t.Sort), a.T}
		}
		return v.with(func(n *Env) { n.comps = v.e.goC }).eval(args[0])
	case "timerof":
		return sval{c.App("timer", SInt, v.eval(args[0]).t), tInt}
	case "istimer":
		return sval{c.Eq(c.App("chanrole", SInt, v.eval(args[0]).t), v.e.roleOf("timer")), tBool}
	case "len":
		a := v.eval(args[0])
		switch u := a.T.Underlying().(type) {
		case *types.Slice:
			return sval{c.Sel(a.t, 1), tInt}
		case *types.Map:
			_, _, n, _, _, ns := v.e.mapComps(u)
			return sval{c.Select(v.getc(n, ns), a.t), tInt}
		case *types.Basic:
			return sval{c.App("strlen", SInt, a.t), tInt}
		}
		v.fail("len of %s", a.T)
	case "dom":
		return v.dom(v.eval(args[0]))
	case "vals":
		a := v.eval(args[0])
		u := a.T.Underlying().(*types.Map)
		_, vn, _, _, vs, _ := v.e.mapComps(u)
		return sval{c.Select(v.getc(vn, vs), a.t), &MathMap{u.Key(), u.Elem()}}
	case "arr":
		a := v.eval(args[0])
		return sval{c.Sel(a.t, 0), tInt}
	case "row":
		a := v.eval(args[0])
		u := a.T.Underlying().(*types.Slice)
		n, s := v.e.elComp(u.Elem())
		return sval{c.Select(v.getc(n, s), c.Sel(a.t, 0)), &MathMap{tInt, u.Elem()}}
	case "upd":
		a, k, x := v.eval(args[0]), v.eval(args[1]), v.eval(args[2])
		mm := a.T.(*MathMap)
		return sval{c.Store(a.t, v.coerce(k, mm.K).t, v.coerce(x, mm.V).t), a.T}
	case "fresh":
		a := v.eval(args[0])
		return sval{c.And(c.Lt(v.alloc, v.refOf(a)), c.Le(v.refOf(a), v.st.alloc)), tBool}
	case "allocated":
		a := v.eval(args[0])
		return sval{c.Le(v.refOf(a), v.alloc), tBool}
	case "ref":
		a := v.eval(args[0])
		return sval{v.refOf(a), tInt}
	case "tag":
		a := v.eval(args[0])
		return sval{c.Sel(a.t, 0), tInt}
	case "fold":
		// fold(opts) or fold(opts, init)
		a := v.eval(args[0])
		et := a.T.Underlying().(*types.Slice).Elem()
		sig := et.Underlying().(*types.Signature)
		OT := deref(sig.Params().At(0).Type())
		n, s := v.e.elComp(et)
		row := c.Select(v.getc(n, s), c.Sel(a.t, 0))
		init := c.zero(OT)
		if len(args) > 1 {
			init = v.eval(args[1]).t
		}
		return sval{c.Fold(typeName(OT), row, c.Sel(a.t, 1), init), OT}
	case "apply":
		// apply(option, options)
		f, o := v.eval(args[0]), v.eval(args[1])
		return sval{c.appOpt(typeName(o.T), f.t, o.t), o.T}
	case "closed":
		a := v.eval(args[0])
		return sval{c.Select(v.getc("G:closed", ArrSort(SInt, SBool)), a.t), tBool}
	case "chancap":
		return sval{c.App("chancap", SInt, v.eval(args[0]).t), tInt}
	case "role":
		return sval{c.App("chanrole", SInt, v.eval(args[0]).t), tInt}
	case "isrole":
		// isrole(ch, "Type.field")
		return sval{c.Eq(c.App("chanrole", SInt, v.eval(args[0]).t), v.e.roleOf(shortPkg(v.file.Pkg.Path())+"."+args[1].Name)), tBool}
	case "iscause":
		// errors.Is(e, target)
		a, b := v.eval(args[0]), v.eval(args[1])
		return sval{v.e.errIs(a.t, v.coerce(b, a.T).t), tBool}
	case "calls":
		n := c.Zero
		for _, ev := range v.evs {
			if ev.kind == args[0].Name {
				if ev.loop {
					k := c.Fresh("ncalls", SInt)
					n = c.Add(n, c.Ite(c.Lt(k, c.Zero), c.Zero, k))
					continue
				}
				n = c.Add(n, c.One)
			}
		}
		return sval{n, tInt}
	case "nevents":
		for _, ev := range v.evs {
			if ev.loop {
				return sval{c.Fresh("ncalls", SInt), tInt}
			}
		}
		return sval{c.Int(int64(len(v.evs))), tInt}
	case "arg", "res":
		// arg("Kind", n, j)
		// arg("Kind", n, j): item j of the n-th call; n = -1: the last
		k := -1
		if args[1].Op == "int" {
			k = int(args[1].Int)
		}
		var ev *Event
		for _, x := range v.evs {
			if x.kind == args[0].Name {
				if x.loop && k >= 0 {
					ev = nil
					break
				}
				if k <= 0 {
					ev = x
				}
				if k == 0 {
					break
				}
				k--
			}
		}
		if ev != nil && !ev.loop {
			l, ts := ev.args, ev.typs
			if f.Name == "res" {
				l, ts = ev.res, ev.rtyps
			}
			j := int(args[2].Int)
			if j >= len(l) {
				v.fail("event %s has no item %d", ev.kind, j)
			}
			return sval{l[j], ts[j]}
		}
		if ev == nil && v.lc != nil && v.evIndex(args[0].Name, 0) == 1<<30 {
			v.fail("no call of %s before this loop", args[0].Name)
		}
		// no such call: any value
		T := types.Type(tInt)
		if len(args) > 3 && args[3].Op == "str" {
			T = v.typ(args[3].Name)
		}
		return sval{c.Fresh("noevent", c.sortOf(T)), T}
	case "before":
		// before("A", i, "B", j): position of events
		for _, x := range v.evs {
			if x.loop && (x.kind == args[0].Name || x.kind == args[2].Name) {
				return sval{c.Fresh("before", SBool), tBool}
			}
		}
		return sval{c.Bool(v.evIndex(args[0].Name, args[1].Int) < v.evIndex(args[2].Name, args[3].Int)), tBool}
	case "skey":
		// key number j of the iteration
		lc := v.mapLoop()
		if lc == nil {
			v.fail("skey outside a map iteration")
		}
		return sval{lc.seq.key(v.eval(args[0]).t), lc.seq.kt}
	case "holds":
		// holds(f, args...): the function value f returns true
		var ts []*Term
		for _, a := range args {
			ts = append(ts, v.eval(a).t)
		}
		return sval{v.holds(ts[0], ts[1:]), tBool}
	case "bytes":
		a := v.eval(args[0])
		u := a.T.Underlying().(*types.Slice)
		n, s := v.e.elComp(u.Elem())
		return sval{c.App("bytes2str", SStr, c.Select(v.getc(n, s), c.Sel(a.t, 0)), c.Sel(a.t, 1)), tStr}
	case "funcof":
		o := v.file.Pkg.Scope().Lookup(args[0].Name)
		if len(args) > 1 {
			o = v.file.Specs.prog.tpkgs[v.file.Imports[args[0].Name]].Scope().Lookup(args[1].Name)
		}
		fn, ok := o.(*types.Func)
		if !ok {
			v.fail("no function %s", args[0].Name)
		}
		return sval{v.e.funcTerm(v.e.prog.ssa.FuncValue(fn), nil), fn.Type()}
	}
	return v.app(f.Name, args)
}

func (v *Env) evIndex(k string, n int64) int {
	for i, ev := range v.evs {
		if ev.kind == k {
			if n == 0 {
				return i
			}
			n--
		}
	}
	return 1 << 30
}

func (v *Env) refOf(a sval) *Term {
	switch a.t.Sort {
	case SIface:
		return v.e.c.Sel(a.t, 1)
	case SSlice:
		return v.e.c.Sel(a.t, 0)
	}
	return a.t
}

// app applies a contract function or reads ghost state.
func (v *Env) app(name string, args []*Expr) sval {
	c := v.e.c
	if r := v.e.rep; r != nil && r.Funs[name] != nil && len(args) > 0 {
		// the ghost state of the implementation under verification
		if x := v.eval(args[0]); x.t == v.e.repSelf {
			return v.appFun(r.Funs[name], name, args, &sval{v.e.repRecv, v.e.repTyp})
		}
	}
	if g, ok := v.e.specs.Ghosts[name]; ok {
		if len(args) == 0 {
			v.fail("ghost %s needs a key", name)
		}
		T := v.e.ghostType(g)
		cur := sval{v.getc("G:"+name, c.sortOf(T)), T}
		for _, a := range args {
			mm := cur.T.(*MathMap)
			cur = sval{c.Select(cur.t, v.coerce(v.eval(a), mm.K).t), mm.V}
		}
		return cur
	}
	f, ok := v.e.specs.Funs[fmt.Sprintf("%s/%d", name, len(args))]
	if !ok {
		v.fail("unknown function %s/%d", name, len(args))
	}
	return v.appFun(f, name, args, nil)
}

func (v *Env) appFun(f *Fun, name string, args []*Expr, recv *sval) sval {
	c := v.e.c
	if v.depth > 40 {
		v.fail("recursive contract function %s", name)
	}
	fe := &Env{e: v.e, st: v.st, file: f.File, comps: v.comps, alloc: v.alloc, oldC: v.oldC, relC: v.relC, entC: v.entC, cnt: v.cnt, evs: v.evs, lc: v.lc, depth: v.depth + 1, vars: map[string]sval{}}
	var ts []*Term
	for i, a := range args {
		T, err := f.File.resolveType(f.Params[i].Typ)
		if err != nil {
			v.fail("%v", err)
		}
		var x sval
		if i == 0 && recv != nil {
			x = *recv
		} else {
			x = v.coerce(v.eval(a), T)
		}
		if x.t.Sort != c.sortOf(T) {
			v.fail("argument %d of %s has sort %s, want %s", i, name, x.t.Sort, c.sortOf(T))
		}
		if _, isI := T.Underlying().(*types.Interface); isI || x.T == tNil || types.IsInterface(x.T) {
			x.T = T
		}
		fe.vars[f.Params[i].Name] = x
		ts = append(ts, x.t)
	}
	R, err := f.File.resolveType(f.Res)
	if err != nil {
		v.fail("%v", err)
	}
	if f.Uninterp {
		return sval{c.App("U_"+name, c.sortOf(R), ts...), R}
	}
	r := fe.eval(f.Body)
	if r.T == tNil || types.IsInterface(R) {
		r = fe.coerce(r, R)
		r.T = R
	}
	return r
}

func (e *Exec) ghostType(g *Ghost) types.Type {
	T, err := g.File.resolveType(g.Val)
	if err != nil {
		panic(specErr{err.Error()})
	}
	for i := len(g.Args) - 1; i >= 0; i-- {
		K, err := g.File.resolveType(g.Args[i])
		if err != nil {
			panic(specErr{err.Error()})
		}
		T = &MathMap{K, T}
	}
	return T
}

// method evaluates a pure method call in a contract.
func (v *Env) method(r sval, name string, args []*Expr) sval {
	var ts []*Term
	if !v.e.specs.Pure[name] {
		v.fail("method %s is not pure", name)
	}
	o, _, _ := types.LookupFieldOrMethod(r.T, true, v.file.Pkg, name)
	fn, ok := o.(*types.Func)
	if !ok {
		v.fail("no method %s on %s", name, r.T)
	}
	sig := fn.Type().(*types.Signature)
	for i, a := range args {
		ts = append(ts, v.coerce(v.eval(a), sig.Params().At(i).Type()).t)
	}
	x := r.t
	if !types.IsInterface(r.T) {
		x = v.e.makeIface(v.st, r.t, r.T)
	}
	return sval{v.e.pure(x, name, sig, ts), sig.Results().At(0).Type()}
}

// pure is the value of a state independent method.
func (e *Exec) pure(x *Term, name string, sig *types.Signature, args []*Term) *Term {
	c := e.c
	R := sig.Results().At(0).Type()
	rs := c.sortOf(R)
	fn := "M_" + name + "_" + strings.Trim(string(rs), "|")
	e.pureAxioms(fn, name, rs)
	if x.Op == "mkI" && len(args) == 0 {
		if n, ok := x.Args[0].isInt(); ok {
			if g := e.getters[fn]; g != nil {
				if b, ok := g[n]; ok {
					return c.Subst(b.body, map[*Term]*Term{b.r: x.Args[1]})
				}
			}
		}
	}
	return c.App(fn, rs, append([]*Term{x}, args...)...)
}

type getter struct {
	r, body *Term
}

// pureAxioms ties a pure method to the getters of the module's types.
func (e *Exec) pureAxioms(fn, name string, rs Sort) {
	if e.getters[fn] != nil {
		return
	}
	e.getters[fn] = map[int64]*getter{}
	c := e.c
	for _, n := range e.prog.named {
		if types.IsInterface(n) {
			continue
		}
		for _, T := range []types.Type{types.NewPointer(n), n} {
			sel := e.prog.ssa.MethodSets.MethodSet(T).Lookup(nil, name)
			if sel == nil {
				continue
			}
			f := e.prog.ssa.MethodValue(sel)
			if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
				continue
			}
			RT := f.Signature.Results().At(0).Type()
			if c.sortOf(RT) != rs {
				continue
			}
			r := c.BV("r", SInt)
			rc := c.Const("getter@r", SInt)
			var arg *Term
			if _, ok := T.(*types.Pointer); ok {
				arg = rc
			} else {
				arg = e.unbox(rc, T)
			}
			body := e.tryGetter(f, arg, func(t *Term) *Term { return c.Subst(t, map[*Term]*Term{rc: r}) })
			if body == nil {
				continue
			}
			tg := e.tag(T)
			k, _ := tg.isInt()
			e.getters[fn][k] = &getter{r, body}
			q := symq(fn)
			rec := false
			syms := map[string]bool{}
			opsOf(body, syms)
			for s := range syms {
				if strings.HasPrefix(strings.Trim(s, "|"), "M_") {
					rec = true
				}
			}
			if !rec {
				x := c.BV("x", SIface)
				app := c.App(fn, rs, x)
				c.symAx[q] = append(c.symAx[q], c.Forall([]*Term{x}, [][]*Term{{app}}, c.Imp(c.Eq(c.Sel(x, 0), tg), c.Eq(app, c.Subst(body, map[*Term]*Term{r: c.Sel(x, 1)})))))
			} else {
				app := c.App(fn, rs, c.mk("mkI", SIface, tg, r))
				c.symAx[q] = append(c.symAx[q], c.Forall([]*Term{r}, [][]*Term{{app}}, c.Eq(app, body)))
			}
		}
	}
}

func opsOf(t *Term, out map[string]bool) {
	out[t.Op] = true
	for _, a := range t.Args {
		opsOf(a, out)
	}
}

// tryGetter runs a method symbolically; nil unless it is a state independent expression.
func (e *Exec) tryGetter(f *ssa.Function, arg *Term, fin func(*Term) *Term) (body *Term) {
	if e.inGetter > 6 || f.Blocks == nil {
		return nil
	}
	e.inGetter++
	e.spec++
	save := e.nframe
	steps := e.steps
	defer func() {
		e.inGetter--
		e.spec--
		_ = save
		e.steps = steps
		if r := recover(); r != nil {
			switch r.(type) {
			case unsupported, specErr:
				body = nil
				return
			}
			panic(r)
		}
	}()
	st := newState()
	st.alloc = e.c.Const("alloc@getter", SInt)
	n := 0
	var out *Term
	fr := e.newFrame(f, nil, funcName(f), func(s *State, res []Val) {
		n++
		if t, ok := res[0].(*Term); ok && len(s.lobjs) >= 0 {
			out = t
		}
	})
	st.regs[regKey{fr.id, f.Params[0]}] = arg
	e.run(fr, f.Blocks[0], nil, st)
	if n != 1 || out == nil {
		return nil
	}
	out = fin(out)
	ops := map[string]bool{}
	opsOf(out, ops)
	for o := range ops {
		if strings.Contains(o, "@") || strings.Contains(o, "!") {
			return nil
		}
	}
	return out
}

// link states what the pure methods of x are when its concrete type is known.
func (e *Exec) link(st *State, x *Term, T types.Type, val *Term) {
	if e.inGetter > 0 {
		return
	}
	var boxed *Term
	if isRefType(T) {
		boxed = val
	} else {
		boxed = e.c.Sel(x, 1)
	}
	tg, _ := e.tag(T).isInt()
	e.assume(st, e.c.Eq(x, e.c.mk("mkI", SIface, e.tag(T), boxed)))
	var fns []string
	for fn := range e.getters {
		fns = append(fns, fn)
	}
	sort.Strings(fns)
	for _, fn := range fns {
		g := e.getters[fn]
		if b, ok := g[tg]; ok {
			e.assume(st, e.c.Eq(e.c.App(fn, b.body.Sort, x), e.c.Subst(b.body, map[*Term]*Term{b.r: boxed})))
		}
	}
}

// mapLoop is the innermost map iteration.
func (v *Env) mapLoop() *loopCtx {
	if v.lc == nil {
		return nil
	}
	if v.lc.seq != nil {
		return v.lc
	}
	ls := v.lc.entry.loops
	for i := len(ls) - 1; i >= 0; i-- {
		if ls[i].seq != nil {
			return ls[i]
		}
	}
	return nil
}

// holds runs the closure f, which returns a truth value, on args in the state of v.
func (v *Env) holds(f *Term, args []*Term) *Term {
	e := v.e
	c := e.c
	cl, ok := e.clos[f]
	if !ok {
		v.fail("unknown function value")
	}
	var ps []Val
	back := map[*Term]*Term{}
	for i, a := range args {
		x := c.Fresh("harg", a.Sort)
		ps = append(ps, x)
		back[x] = a
		_ = i
	}
	if len(cl.fn.Params) != len(ps) {
		v.fail("wrong number of arguments")
	}
	st := v.st.clone()
	n, c0, steps := len(st.pc), c.fresh, e.steps
	e.spec++
	defer func() {
		e.spec--
		e.steps = steps
	}()
	var outs []*Term
	fr := e.newFrame(cl.fn, nil, "holds>"+funcName(cl.fn), func(s *State, res []Val) {
		t, ok := res[0].(*Term)
		if !ok {
			v.fail("unexpected result")
		}
		outs = append(outs, c.And(append(append([]*Term{}, s.pc[n:]...), t)...))
		for k, x := range s.comps {
			if y, ok := st.comps[k]; ok && x != y {
				v.fail("the function has effects")
			}
		}
	})
	for i, pa := range cl.fn.Params {
		e.set(st, fr, pa, ps[i])
	}
	for i, fv := range cl.fn.FreeVars {
		e.set(st, fr, fv, cl.bind[i])
	}
	e.run(fr, cl.fn.Blocks[0], nil, st)
	t := c.Or(outs...)
	// nothing but the arguments may vary
	ops := map[string]bool{}
	opsOf(t, ops)
	for o := range ops {
		if i := strings.LastIndexAny(o, "!@"); i >= 0 {
			if k := symNum(o); k > c0 {
				v.fail("the function is not determined by its arguments")
			}
		}
	}
	return c.Subst(t, back)
}
