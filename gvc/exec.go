package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is an activation of a function body.
type Frame struct {
	id    int
	fn    *ssa.Function
	depth int
	ret   func(st *State, res []Val)
	loops map[*ssa.BasicBlock]*loop
	key   string
	chain []*ssa.Function
}

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	n      int
}

func (e *Exec) newFrame(fn *ssa.Function, parent *Frame, key string, ret func(*State, []Val)) *Frame {
	e.nframe++
	f := &Frame{id: e.nframe, fn: fn, ret: ret, loops: e.sess.loopsOf(fn), key: key}
	if parent != nil {
		f.depth = parent.depth + 1
		f.chain = append(append([]*ssa.Function{}, parent.chain...), fn)
	} else {
		f.chain = []*ssa.Function{fn}
	}
	return f
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	m := map[*ssa.BasicBlock]*loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				// natural loop
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	n := 0
	for _, b := range fn.Blocks {
		if l := m[b]; l != nil {
			l.n = n
			n++
		}
	}
	return m
}

func (e *Exec) get(st *State, fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Global:
		return e.global(st, v)
	case *ssa.Function:
		return e.funcTerm(v, nil)
	case *ssa.Builtin:
		return v
	}
	r, ok := st.regs[regKey{fr.id, v}]
	if !ok {
		e.unsup("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (e *Exec) term(st *State, fr *Frame, v ssa.Value) *Term {
	x := e.get(st, fr, v)
	t, ok := x.(*Term)
	if !ok {
		if a, ok := x.(*Addr); ok && !a.elem && len(a.path) == 0 {
			return a.base
		}
		e.unsup("%s (%T) used as a value at %s", v.Name(), x, e.pos(v.Pos()))
	}
	return t
}

func (e *Exec) set(st *State, fr *Frame, v ssa.Value, x Val) { st.regs[regKey{fr.id, v}] = x }

func (e *Exec) constVal(v *ssa.Const) *Term {
	c := e.c
	if v.Value == nil {
		return c.zero(v.Type())
	}
	switch u := v.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.Bool(constant.BoolVal(v.Value))
		case u.Info()&types.IsInteger != 0:
			if n, ok := constant.Int64Val(constant.ToInt(v.Value)); ok {
				return c.Int(n)
			}
		case u.Info()&types.IsString != 0:
			return c.Str(constant.StringVal(v.Value))
		case u.Info()&types.IsFloat != 0:
			return c.Flt(v.Value.ExactString())
		}
	}
	e.unsup("constant %s", v)
	return nil
}

// funcTerm is the identity of a function value.
func (e *Exec) funcTerm(fn *ssa.Function, bind []Val) *Term {
	k := "fn_" + funcName(fn)
	if len(bind) == 0 {
		if t, ok := e.cloOf[k]; ok {
			return t
		}
		t := e.c.Const(k, SInt)
		e.clos[t] = &Closure{fn: fn}
		e.cloOf[k] = t
		e.c.symAx[t.Op] = append(e.c.symAx[t.Op], e.c.Lt(e.c.Int(0), t))
		e.c.symAx[t.Op] = append(e.c.symAx[t.Op], e.c.Le(t, e.alloc0))
		return t
	}
	t := e.c.Fresh("clo_"+fn.Name(), SInt)
	e.clos[t] = &Closure{fn: fn, bind: bind}
	e.c.symAx[t.Op] = append(e.c.symAx[t.Op], e.c.Lt(e.c.Int(0), t))
	return t
}

// global reads package level variables: errors are distinct constants.
func (e *Exec) global(st *State, g *ssa.Global) Val {
	return &globalRef{g}
}

type globalRef struct{ g *ssa.Global }

func (e *Exec) loadGlobal(st *State, g *ssa.Global) *Term {
	c := e.c
	T := deref(g.Type())
	n := shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
	if types.Identical(T, types.Universe.Lookup("error").Type()) {
		return e.sentinel(n)
	}
	t := c.Const("glob_"+n, c.sortOf(T))
	e.c.symAx[t.Op] = nil
	if isRefType(T) {
		e.c.symAx[t.Op] = []*Term{c.Lt(c.Zero, t), c.Le(t, e.alloc0)}
	}
	e.trusted["global "+n+" is never reassigned"] = true
	return t
}

// sentinel is the value of an error variable made by errors.New.
func (e *Exec) sentinel(n string) *Term {
	c := e.c
	k := "glob:" + n
	id, ok := c.tags[k]
	if !ok {
		id = len(c.tags) + 1
		c.tags[k] = id
	}
	e.sess.checkSentinel(n)
	return c.Ctor(SIface, c.Int(int64(e.errTag())), c.Int(int64(-id)))
}

func (e *Exec) errTag() int {
	c := e.c
	if _, ok := c.tags["*errors.errorString"]; !ok {
		c.tags["*errors.errorString"] = len(c.tags) + 1
	}
	return c.tags["*errors.errorString"]
}

// run executes from a block.
func (e *Exec) run(fr *Frame, b *ssa.BasicBlock, prev *ssa.BasicBlock, st *State) {
	e.steps++
	if e.steps > 60000 {
		e.unsup("path budget exceeded")
	}
	// leaving loops of this frame
	for len(st.loops) > 0 {
		top := st.loops[len(st.loops)-1]
		if top.fr != fr || top.l.blocks[b] {
			break
		}
		if top.dry {
			return
		}
		e.popLoop(st, prev != top.l.header)
	}
	if l := fr.loops[b]; l != nil {
		if len(st.loops) > 0 && st.loops[len(st.loops)-1].fr == fr && st.loops[len(st.loops)-1].l == l && prev != nil && l.blocks[prev] {
			lc := st.loops[len(st.loops)-1]
			lc.onBack(st, prev)
			return
		}
		e.loopEntry(fr, l, prev, st)
		return
	}
	e.bindPhis(fr, b, prev, st)
	e.instrs(fr, b, 0, st)
}

func (e *Exec) bindPhis(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
	vals := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = e.phiVal(fr, p, b, prev, st)
	}
	for p, v := range vals {
		e.set(st, fr, p, v)
	}
}

func (e *Exec) phiVal(fr *Frame, p *ssa.Phi, b, prev *ssa.BasicBlock, st *State) Val {
	for i, pr := range b.Preds {
		if pr == prev {
			return e.get(st, fr, p.Edges[i])
		}
	}
	e.unsup("phi")
	return nil
}

// instrs executes the instructions of a block from index i.
func (e *Exec) instrs(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.If:
			e.branch(fr, b, in, st)
			return
		case *ssa.Jump:
			e.run(fr, b.Succs[0], b, st)
			return
		case *ssa.Return:
			res := make([]Val, len(in.Results))
			for j, r := range in.Results {
				res[j] = e.get(st, fr, r)
			}
			e.leave(fr, st, res)
			return
		case *ssa.Panic:
			if e.spec == 0 {
				e.check(st, e.c.False, "panic", "explicit panic reachable", e.pos(in.Pos()), nil, "")
			}
			return
		case *ssa.Call:
			next := i + 1
			e.call(fr, st, in.Common(), in, in.Pos(), func(st *State, res []Val) {
				e.setRes(fr, st, in, res)
				e.instrs(fr, b, next, st)
			})
			return
		case *ssa.RunDefers:
			next := i + 1
			e.runDefers(fr, st, func(st *State) { e.instrs(fr, b, next, st) })
			return
		case *ssa.TypeAssert:
			next := i + 1
			e.typeAssert(fr, st, in, func(st *State) { e.instrs(fr, b, next, st) })
			return
		case *ssa.Select:
			next := i + 1
			e.selectInstr(fr, st, in, func(st *State) { e.instrs(fr, b, next, st) })
			return
		default:
			e.step(fr, st, in)
		}
	}
}

func (e *Exec) setRes(fr *Frame, st *State, in ssa.Value, res []Val) {
	t := in.Type()
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 1 {
			e.set(st, fr, in, res[0])
			return
		}
		e.set(st, fr, in, Tuple(res))
		return
	}
	if len(res) > 0 {
		e.set(st, fr, in, res[0])
	}
}

// leave returns from a frame.
func (e *Exec) leave(fr *Frame, st *State, res []Val) {
	for len(st.loops) > 0 && st.loops[len(st.loops)-1].fr == fr {
		if st.loops[len(st.loops)-1].dry {
			return
		}
		e.popLoop(st, true)
	}
	// drop the registers of the frame
	for k := range st.regs {
		if k.fr == fr.id {
			delete(st.regs, k)
		}
	}
	delete(st.defers, fr.id)
	fr.ret(st, res)
}

func (e *Exec) branch(fr *Frame, b *ssa.BasicBlock, in *ssa.If, st *State) {
	cond := e.term(st, fr, in.Cond)
	if v, ok := e.known(st, cond); ok {
		if v {
			e.run(fr, b.Succs[0], b, st)
		} else {
			e.run(fr, b.Succs[1], b, st)
		}
		return
	}
	s2 := st.clone()
	if e.feasible(st, cond) {
		e.assume(st, cond)
		e.run(fr, b.Succs[0], b, st)
	}
	nc := e.c.Not(cond)
	if e.feasible(s2, nc) {
		e.assume(s2, nc)
		e.run(fr, b.Succs[1], b, s2)
	}
}

// feasible prunes branches that contradict what is known (cheap syntactic test, then the solver).
func (e *Exec) feasible(st *State, cond *Term) bool {
	c := e.c
	n := c.Not(cond)
	if st.pcs[n] {
		return false
	}
	if e.inGetter > 0 {
		return true
	}
	if e.learning > 0 {
		return true
	}
	return !e.solver.tiny(c.Query(st.pc, n))
}

// step executes a simple instruction.
func (e *Exec) step(fr *Frame, st *State, in ssa.Instruction) {
	c := e.c
	switch in := in.(type) {
	case *ssa.Alloc:
		T := deref(in.Type())
		r := e.newRef(st)
		st.lobjs[r] = lobj{T, c.zero(T), in.Comment}
		e.set(st, fr, in, r)
	case *ssa.BinOp:
		e.set(st, fr, in, e.binop(st, fr, in))
	case *ssa.UnOp:
		e.unop(fr, st, in)
	case *ssa.ChangeType:
		e.set(st, fr, in, e.changeType(st, e.get(st, fr, in.X), in.X.Type(), in.Type()))
	case *ssa.ChangeInterface:
		e.set(st, fr, in, e.get(st, fr, in.X))
	case *ssa.Convert:
		e.set(st, fr, in, e.convert(st, fr, in))
	case *ssa.MakeInterface:
		x := e.get(st, fr, in.X)
		t, ok := x.(*Term)
		if !ok {
			if _, isG := x.(*globalRef); isG {
				t = e.term(st, fr, in.X)
			} else if a, ok := x.(*Addr); ok && !a.elem && len(a.path) == 0 {
				t = a.base
			} else {
				e.unsup("interior pointer in interface at %s", e.pos(in.Pos()))
			}
		}
		if _, ok := st.lobjs[t]; ok && e.structOf(deref(in.X.Type())) != nil {
			// keep local until it escapes further
		}
		e.set(st, fr, in, e.makeIface(st, t, in.X.Type()))
	case *ssa.MakeClosure:
		var bs []Val
		for _, x := range in.Bindings {
			bs = append(bs, e.get(st, fr, x))
		}
		t := e.funcTerm(in.Fn.(*ssa.Function), bs)
		if cl := e.clos[t]; cl != nil && len(bs) > 0 {
			var vs []*Term
			for i, b := range bs {
				bt, ok := b.(*Term)
				o, ok2 := st.lobjs[bt]
				if !ok || !ok2 || !onceStored(in.Bindings[i], in) {
					vs = nil
					break
				}
				vs = append(vs, o.val)
			}
			cl.vals = vs
		}
		e.set(st, fr, in, t)
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		r := e.newRef(st)
		d, v, n, ds, vs, ns := e.mapComps(mt)
		e.setComp(st, d, c.Store(e.comp(st, d, ds), r, c.ConstArr(rowSort(ds), c.False)))
		e.setComp(st, v, c.Store(e.comp(st, v, vs), r, c.ConstArr(rowSort(vs), c.zero(mt.Elem()))))
		e.setComp(st, n, c.Store(e.comp(st, n, ns), r, c.Zero))
		e.set(st, fr, in, r)
	case *ssa.MakeChan:
		r := e.newRef(st)
		sz := e.term(st, fr, in.Size)
		e.require(st, c.Le(c.Zero, sz), "chan", "negative channel capacity", e.pos(in.Pos()))
		e.assume(st, c.Eq(c.App("chancap", SInt, r), sz))
		n := "G:closed"
		e.setComp(st, n, c.Store(e.comp(st, n, ArrSort(SInt, SBool)), r, c.False))
		st.fresh[r] = true
		e.set(st, fr, in, r)
	case *ssa.MakeSlice:
		ln, cp := e.term(st, fr, in.Len), e.term(st, fr, in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		e.require(st, c.And(c.Le(c.Zero, ln), c.Le(ln, cp)), "make", "slice length out of range", e.pos(in.Pos()))
		r := e.newRef(st)
		name, s := e.elComp(et)
		e.setComp(st, name, c.Store(e.comp(st, name, s), r, c.ConstArr(rowSort(s), c.zero(et))))
		e.set(st, fr, in, c.Ctor(SSlice, r, ln, cp))
	case *ssa.Slice:
		e.slice(fr, st, in)
	case *ssa.FieldAddr:
		x := e.get(st, fr, in.X)
		T := deref(in.X.Type())
		var a Addr
		switch x := x.(type) {
		case *Term:
			e.nilCheck(st, x, typeName(T), e.pos(in.Pos()))
			a = Addr{base: x, T: T}
		case *Addr:
			a = *x
		default:
			e.unsup("field address of %T at %s", x, e.pos(in.Pos()))
		}
		a.path = append(append([]step{}, a.path...), step{field: in.Field})
		e.set(st, fr, in, &a)
	case *ssa.Field:
		e.set(st, fr, in, c.Sel(e.term(st, fr, in.X), in.Field))
	case *ssa.IndexAddr:
		e.indexAddr(fr, st, in)
	case *ssa.Index:
		x := e.term(st, fr, in.X)
		i := e.term(st, fr, in.Index)
		at, ok := in.X.Type().Underlying().(*types.Array)
		if !ok {
			e.unsup("index of %s", in.X.Type())
		}
		e.require(st, c.And(c.Le(c.Zero, i), c.Lt(i, c.Int(at.Len()))), "bounds", "index out of range", e.pos(in.Pos()))
		e.set(st, fr, in, c.Select(x, i))
	case *ssa.Lookup:
		e.lookup(fr, st, in)
	case *ssa.MapUpdate:
		e.mapUpdate(fr, st, in)
	case *ssa.Range:
		e.rangeInstr(fr, st, in)
	case *ssa.Next:
		e.nextInstr(fr, st, in)
	case *ssa.Extract:
		t, ok := e.get(st, fr, in.Tuple).(Tuple)
		if !ok {
			e.unsup("extract from %T", e.get(st, fr, in.Tuple))
		}
		e.set(st, fr, in, t[in.Index])
	case *ssa.Store:
		x := e.get(st, fr, in.Addr)
		if g, ok := x.(*globalRef); ok {
			e.unsup("store to global %s", g.g)
		}
		a := e.addrOf(x, deref(in.Addr.Type()))
		e.guardAccess(st, a, true, e.pos(in.Pos()))
		v, ok := e.get(st, fr, in.Val).(*Term)
		if !ok {
			v = e.term(st, fr, in.Val)
		}
		e.store(st, a, v, e.pos(in.Pos()))
	case *ssa.Defer:
		d := deferred{call: *in.Common(), in: in}
		if !in.Call.IsInvoke() {
			d.fn = e.get(st, fr, in.Call.Value)
		} else {
			d.fn = e.get(st, fr, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, e.get(st, fr, a))
		}
		st.defers[fr.id] = append(st.defers[fr.id], d)
	case *ssa.Go:
		e.goInstr(fr, st, in)
	case *ssa.Send:
		e.send(st, e.term(st, fr, in.Chan), e.term(st, fr, in.X), in.X.Type(), true, e.pos(in.Pos()))
	default:
		e.unsup("instruction %T at %s", in, e.pos(in.Pos()))
	}
}

func rowSort(s Sort) Sort {
	_, v := splitArr(s)
	return v
}

func (e *Exec) changeType(st *State, v Val, from, to types.Type) Val {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	fs, ts := e.c.sortOf(from), e.c.sortOf(to)
	if fs != ts {
		// struct conversion between identical underlying types
		d := e.c.dts[fs]
		d2 := e.c.dts[ts]
		if d == nil || d2 == nil {
			e.unsup("conversion %s to %s", from, to)
		}
		var args []*Term
		for i := range d.Sels {
			args = append(args, e.c.Sel(t, i))
		}
		return e.c.Ctor(ts, args...)
	}
	return t
}

func (e *Exec) convert(st *State, fr *Frame, in *ssa.Convert) Val {
	c := e.c
	x := e.term(st, fr, in.X)
	from, to := c.sortOf(in.X.Type()), c.sortOf(in.Type())
	if from == to {
		return x
	}
	switch {
	case from == SSlice && to == SStr:
		// bytes to string: a function of the contents
		name, s := e.elComp(in.X.Type().Underlying().(*types.Slice).Elem())
		return c.App("bytes2str", SStr, c.Select(e.comp(st, name, s), c.Sel(x, 0)), c.Sel(x, 1))
	case from == SStr && to == SSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		name, s := e.elComp(et)
		r := e.newRef(st)
		row := c.App("str2bytes", rowSort(s), x)
		e.setComp(st, name, c.Store(e.comp(st, name, s), r, row))
		n := c.App("strlen", SInt, x)
		e.assume(st, c.Le(c.Zero, n))
		return c.Ctor(SSlice, r, n, n)
	case from == SInt && to == SFlt:
		return c.App("int2flt", SFlt, x)
	case from == SFlt && to == SInt:
		return c.App("flt2int", SInt, x)
	}
	e.unsup("conversion %s to %s", in.X.Type(), in.Type())
	return nil
}

func (e *Exec) binop(st *State, fr *Frame, in *ssa.BinOp) *Term {
	c := e.c
	x, y := e.term(st, fr, in.X), e.term(st, fr, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		var t *Term
		if x.Sort != y.Sort {
			// mixed interface and concrete comparison
			if x.Sort == SIface {
				y = e.makeIface(st, y, in.Y.Type())
			} else if y.Sort == SIface {
				x = e.makeIface(st, x, in.X.Type())
			}
		}
		// comparing with nil slice
		if x.Sort == SSlice {
			if y.Op == "mkS" {
				t = c.Eq(c.Sel(x, 0), c.Zero)
			} else {
				t = c.Eq(c.Sel(y, 0), c.Zero)
			}
		} else {
			t = c.Eq(x, y)
		}
		if in.Op == token.NEQ {
			t = c.Not(t)
		}
		return t
	}
	switch x.Sort {
	case SInt:
		switch in.Op {
		case token.ADD:
			return c.Add(x, y)
		case token.SUB:
			return c.Sub(x, y)
		case token.MUL:
			return c.Mul(x, y)
		case token.LSS:
			return c.Lt(x, y)
		case token.LEQ:
			return c.Le(x, y)
		case token.GTR:
			return c.Lt(y, x)
		case token.GEQ:
			return c.Le(y, x)
		case token.QUO, token.REM:
			if n, ok := y.isInt(); !ok || n == 0 {
				e.require(st, c.Ne(y, c.Zero), "div", "division by zero", e.pos(in.Pos()))
			}
			return c.App("go_"+in.Op.String(), SInt, x, y)
		}
		return c.App("bitop_"+in.Op.String(), SInt, x, y)
	case SStr:
		switch in.Op {
		case token.ADD:
			return c.Concat(x, y)
		case token.LSS:
			return c.App("strlt", SBool, x, y)
		case token.GTR:
			return c.App("strlt", SBool, y, x)
		case token.LEQ:
			return c.Not(c.App("strlt", SBool, y, x))
		case token.GEQ:
			return c.Not(c.App("strlt", SBool, x, y))
		}
	case SFlt:
		switch in.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return c.App("flt_"+in.Op.String(), SBool, x, y)
		}
		return c.App("flt_"+in.Op.String(), SFlt, x, y)
	case SBool:
		switch in.Op {
		case token.AND, token.LAND:
			return c.And(x, y)
		case token.OR, token.LOR:
			return c.Or(x, y)
		}
	}
	e.unsup("binop %s on %s", in.Op, x.Sort)
	return nil
}

func (e *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) {
	c := e.c
	switch in.Op {
	case token.NOT:
		e.set(st, fr, in, c.Not(e.term(st, fr, in.X)))
	case token.SUB:
		x := e.term(st, fr, in.X)
		if x.Sort == SInt {
			e.set(st, fr, in, c.Sub(c.Zero, x))
		} else {
			e.set(st, fr, in, c.App("flt_neg", SFlt, x))
		}
	case token.MUL:
		x := e.get(st, fr, in.X)
		if g, ok := x.(*globalRef); ok {
			e.set(st, fr, in, e.loadGlobal(st, g.g))
			return
		}
		a := e.addrOf(x, deref(in.X.Type()))
		e.guardAccess(st, a, false, e.pos(in.Pos()))
		v := e.load(st, a, e.pos(in.Pos()))
		e.taintLoad(st, a, v)
		e.set(st, fr, in, v)
	case token.ARROW:
		ch := e.term(st, fr, in.X)
		v, ok := e.recv(st, ch, in.X.Type().Underlying().(*types.Chan).Elem(), true, e.pos(in.Pos()))
		if in.CommaOk {
			e.set(st, fr, in, Tuple{v, ok})
		} else {
			e.set(st, fr, in, v)
		}
	default:
		e.unsup("unop %s", in.Op)
	}
}

func (e *Exec) indexAddr(fr *Frame, st *State, in *ssa.IndexAddr) {
	c := e.c
	i := e.term(st, fr, in.Index)
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		x := e.term(st, fr, in.X)
		e.require(st, c.And(c.Le(c.Zero, i), c.Lt(i, c.Sel(x, 1))), "bounds", "index out of range", e.pos(in.Pos()))
		e.set(st, fr, in, &Addr{elem: true, base: c.Sel(x, 0), idx: i, T: u.Elem()})
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		e.require(st, c.And(c.Le(c.Zero, i), c.Lt(i, c.Int(at.Len()))), "bounds", "index out of range", e.pos(in.Pos()))
		x := e.get(st, fr, in.X)
		a := *e.addrOf(x, u.Elem())
		if _, ok := st.lobjs[a.base]; !ok && !a.elem && len(a.path) == 0 {
			// array already turned into backing store
			e.set(st, fr, in, &Addr{elem: true, base: a.base, idx: i, T: at.Elem()})
			return
		}
		a.path = append(append([]step{}, a.path...), step{isIdx: true, idx: i})
		e.set(st, fr, in, &a)
	default:
		e.unsup("index address of %s", in.X.Type())
	}
}

func (e *Exec) slice(fr *Frame, st *State, in *ssa.Slice) {
	c := e.c
	if in.Low != nil {
		if n, ok := e.term(st, fr, in.Low).isInt(); !ok || n != 0 {
			e.unsup("slice with low bound at %s", e.pos(in.Pos()))
		}
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		x := e.term(st, fr, in.X)
		e.publish(st, x)
		n := c.Int(at.Len())
		ln := n
		if in.High != nil {
			ln = e.term(st, fr, in.High)
			e.require(st, c.And(c.Le(c.Zero, ln), c.Le(ln, n)), "bounds", "slice out of range", e.pos(in.Pos()))
		}
		e.set(st, fr, in, c.Ctor(SSlice, x, ln, n))
	case *types.Slice:
		x := e.term(st, fr, in.X)
		ln := c.Sel(x, 1)
		if in.High != nil {
			ln = e.term(st, fr, in.High)
			e.require(st, c.And(c.Le(c.Zero, ln), c.Le(ln, c.Sel(x, 2))), "bounds", "slice out of range", e.pos(in.Pos()))
		}
		e.set(st, fr, in, c.Ctor(SSlice, c.Sel(x, 0), ln, c.Sel(x, 2)))
	default:
		e.unsup("slice of %s", in.X.Type())
	}
}

func (e *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup) {
	c := e.c
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		e.unsup("string index")
	}
	m := e.term(st, fr, in.X)
	k := e.term(st, fr, in.Index)
	e.guardMap(st, m, false, e.pos(in.Pos()))
	d, v, _, ds, vs, _ := e.mapComps(mt)
	has := c.Select(c.Select(e.comp(st, d, ds), m), k)
	val := c.Select(c.Select(e.comp(st, v, vs), m), k)
	r := val // absent keys are bound to the zero value
	if x, ok := e.known(st, has); ok && !x {
		r = c.zero(mt.Elem())
	}
	e.assume(st, c.Imp(has, e.wf(val, mt.Elem(), e.boundOf(st, val))))
	if tn, ok := st.taint[m]; ok && isRefType(mt.Elem()) {
		if _, isMap := mt.Elem().Underlying().(*types.Map); isMap {
			st.taint[r] = tn
			st.taint[val] = tn
		}
	}
	if in.CommaOk {
		e.set(st, fr, in, Tuple{r, has})
	} else {
		e.set(st, fr, in, r)
	}
}

func (e *Exec) mapUpdate(fr *Frame, st *State, in *ssa.MapUpdate) {
	c := e.c
	mt := in.Map.Type().Underlying().(*types.Map)
	m, k, x := e.term(st, fr, in.Map), e.term(st, fr, in.Key), e.term(st, fr, in.Value)
	e.guardMap(st, m, true, e.pos(in.Pos()))
	if !e.isAlloc(m) {
		e.require(st, c.Ne(m, c.Zero), "nilmap", "assignment to entry in nil map", e.pos(in.Pos()))
	}
	e.escape(st, x)
	e.escape(st, k)
	if e.structOf(mt.Elem()) != nil {
		e.setRole(st, x, "F:", mt.Elem())
	}
	d, v, n, ds, vs, ns := e.mapComps(mt)
	D, V, N := e.comp(st, d, ds), e.comp(st, v, vs), e.comp(st, n, ns)
	rd, rv := c.Select(D, m), c.Select(V, m)
	has := c.Select(rd, k)
	e.setComp(st, d, c.Store(D, m, c.Store(rd, k, c.True)))
	e.setComp(st, v, c.Store(V, m, c.Store(rv, k, x)))
	e.setComp(st, n, c.Store(N, m, c.Add(c.Select(N, m), c.Ite(has, c.Zero, c.One))))
	st.lasts["ins:"+d] = m
}

func (e *Exec) mapDelete(st *State, mt *types.Map, m, k *Term, pos string) {
	c := e.c
	e.guardMap(st, m, true, pos)
	d, v, n, ds, vs, ns := e.mapComps(mt)
	D, V, N := e.comp(st, d, ds), e.comp(st, v, vs), e.comp(st, n, ns)
	rd := c.Select(D, m)
	has := c.Select(rd, k)
	// deleting from a nil map is a no-op
	nd := c.Store(D, m, c.Store(rd, k, c.False))
	nn := c.Store(N, m, c.Sub(c.Select(N, m), c.Ite(has, c.One, c.Zero)))
	e.setComp(st, d, nd)
	e.setComp(st, v, c.Store(V, m, c.Store(c.Select(V, m), k, c.zero(mt.Elem()))))
	e.setComp(st, n, nn)
	e.assume(st, c.Imp(has, c.Lt(c.Zero, c.Select(N, m))))
	st.lasts["del:"+d] = m
}

func (e *Exec) rangeInstr(fr *Frame, st *State, in *ssa.Range) {
	c := e.c
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		e.unsup("range over string")
	}
	m := e.term(st, fr, in.X)
	e.guardMap(st, m, false, e.pos(in.Pos()))
	d, _, n, ds, _, ns := e.mapComps(mt)
	c.fresh++
	nm := fmt.Sprintf("it!%d", c.fresh)
	ks := c.sortOf(mt.Key())
	it := &RangeIt{mt: mt, m: m, name: nm, start: c.Select(e.comp(st, d, ds), m), card: c.Select(e.comp(st, n, ns), m)}
	it.key = func(i *Term) *Term { return c.App("key!"+nm, ks, i) }
	it.idx = func(k *Term) *Term { return c.App("idx!"+nm, SInt, k) }
	it.n = c.Const("n!"+nm, SInt)
	e.assume(st, c.Le(c.Zero, it.n))
	j := c.BV("j", SInt)
	e.assume(st, c.Forall([]*Term{j}, [][]*Term{{it.key(j)}}, c.Imp(c.And(c.Le(c.Zero, j), c.Lt(j, it.n)), c.Eq(it.idx(it.key(j)), j))))
	e.set(st, fr, in, it)
}

func (e *Exec) nextInstr(fr *Frame, st *State, in *ssa.Next) {
	c := e.c
	it, ok := e.get(st, fr, in.Iter).(*RangeIt)
	if !ok {
		e.unsup("next")
	}
	var lc *loopCtx
	for i := len(st.loops) - 1; i >= 0; i-- {
		if st.loops[i].fr == fr && st.loops[i].l.header == in.Block() {
			lc = st.loops[i]
			break
		}
	}
	if lc == nil {
		e.unsup("map iteration outside its loop header at %s", e.pos(in.Pos()))
	}
	i := lc.cnt
	e.guardMap(st, it.m, false, e.pos(in.Pos()))
	d, v, _, ds, vs, _ := e.mapComps(it.mt)
	now := c.Select(e.comp(st, d, ds), it.m)
	ok2 := c.Lt(i, it.n)
	key := it.key(i)
	e.assume(st, c.Le(i, it.n))
	val := c.Select(c.Select(e.comp(st, v, vs), it.m), key)
	e.assume(st, c.Imp(ok2, c.And(c.Select(now, key), c.Eq(it.idx(key), i), e.wf(key, it.mt.Key(), st.alloc), e.wf(val, it.mt.Elem(), e.boundOf(st, val)))))
	k := c.BV("k", key.Sort)
	both := []*Term{c.Select(it.start, k), c.Select(now, k)}
	if now == it.start {
		both = both[:1]
	}
	e.assume(st, c.Imp(c.Not(ok2), c.Forall([]*Term{k}, [][]*Term{{c.Select(now, k)}, {it.idx(k)}},
		c.Imp(c.And(both...), c.And(c.Le(c.Zero, it.idx(k)), c.Lt(it.idx(k), i), c.Eq(it.key(it.idx(k)), k))))))
	// iteration over a map that is not modified
	if !lc.deletes(d) {
		j := c.BV("j", SInt)
		un := c.Eq(now, it.start)
		e.assume(st, c.Imp(un, c.And(
			c.Imp(ok2, c.Lt(i, it.card)),
			c.Imp(c.Not(ok2), c.Eq(i, it.card)),
			c.Le(i, it.card),
			c.Forall([]*Term{j}, [][]*Term{{it.key(j)}}, c.Imp(c.And(c.Le(c.Zero, j), c.Lt(j, i)), c.Select(it.start, it.key(j)))))))
	} else if !lc.inserts(d) {
		j := c.BV("j", SInt)
		e.assume(st, c.Forall([]*Term{j}, [][]*Term{{it.key(j)}}, c.Imp(c.And(c.Le(c.Zero, j), c.Lt(j, it.n)), c.Select(it.start, it.key(j)))))
	} else {
		e.unsup("map iteration with insertions and deletions at %s", e.pos(in.Pos()))
	}
	if tn, ok := st.taint[it.m]; ok {
		if _, isMap := it.mt.Elem().Underlying().(*types.Map); isMap {
			st.taint[val] = tn
		}
	}
	lc.seq = &seqInfo{key: it.key, n: it.n, kt: it.mt.Key()}
	e.set(st, fr, in, Tuple{ok2, key, val})
}

// typeAssert forks on success.
func (e *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert, k func(*State)) {
	c := e.c
	x := e.term(st, fr, in.X)
	T := in.AssertedType
	var cond, val, zero *Term
	if types.IsInterface(T) {
		cond = c.Ne(c.Sel(x, 0), c.Zero)
		if u, ok := T.Underlying().(*types.Interface); !ok || !types.Implements(in.X.Type(), u) {
			cond = c.And(cond, e.impl(T, c.Sel(x, 0)))
		}
		val, zero = x, c.NilI
	} else {
		cond = c.Eq(c.Sel(x, 0), e.tag(T))
		val, zero = e.unbox(c.Sel(x, 1), T), c.zero(T)
	}
	succeed := func(st *State) {
		e.assume(st, cond)
		if !types.IsInterface(T) {
			e.assume(st, e.wf(val, T, e.boundOf(st, x)))
			e.link(st, x, T, val)
		}
	}
	if !in.CommaOk {
		e.check(st, cond, "assert", "type assertion to "+typeName(T)+" can fail", e.pos(in.Pos()), nil, "")
		succeed(st)
		e.set(st, fr, in, val)
		k(st)
		return
	}
	if v, ok := e.known(st, cond); ok {
		if v {
			succeed(st)
			e.set(st, fr, in, Tuple{val, c.True})
		} else {
			e.set(st, fr, in, Tuple{zero, c.False})
		}
		k(st)
		return
	}
	s2 := st.clone()
	if e.feasible(st, cond) {
		succeed(st)
		e.set(st, fr, in, Tuple{val, c.True})
		k(st)
	}
	if e.feasible(s2, c.Not(cond)) {
		e.assume(s2, c.Not(cond))
		e.set(s2, fr, in, Tuple{zero, c.False})
		k(s2)
	}
}

func (e *Exec) runDefers(fr *Frame, st *State, k func(*State)) {
	ds := st.defers[fr.id]
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fr.id] = ds[: len(ds)-1 : len(ds)-1]
	e.callVals(fr, st, &d.call, d.fn, d.args, nil, d.in.Pos(), func(st *State, _ []Val) {
		e.runDefers(fr, st, k)
	})
}

func posOf(e *Exec, p token.Pos) string { return e.pos(p) }

var _ = strings.TrimSpace

// onceStored: a captured variable that is set once, before the closure is made.
func onceStored(v ssa.Value, mk *ssa.MakeClosure) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	before := func(x ssa.Instruction) bool {
		if x.Block() != mk.Block() {
			return x.Block().Dominates(mk.Block())
		}
		for _, i := range x.Block().Instrs {
			if i == x {
				return true
			}
			if i == ssa.Instruction(mk) {
				return false
			}
		}
		return false
	}
	n := 0
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != a || !before(r) {
				return false
			}
			n++
		case *ssa.MakeClosure:
			f := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b != a {
					continue
				}
				for _, q := range *f.FreeVars[i].Referrers() {
					if _, ok := q.(*ssa.UnOp); !ok {
						return false
					}
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return n <= 1
}
