package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cont func(st *State, res []Val)

// call executes a call instruction.
func (e *Exec) call(fr *Frame, st *State, cm *ssa.CallCommon, in ssa.Value, pos token.Pos, k cont) {
	var args []Val
	for _, a := range cm.Args {
		args = append(args, e.get(st, fr, a))
	}
	e.callVals(fr, st, cm, e.get(st, fr, cm.Value), args, in, pos, k)
}

func (e *Exec) callVals(fr *Frame, st *State, cm *ssa.CallCommon, fv Val, args []Val, in ssa.Value, pos token.Pos, k cont) {
	p := e.pos(pos)
	if cm.IsInvoke() {
		x, ok := fv.(*Term)
		if !ok {
			e.unsup("invoke on %T", fv)
		}
		e.invoke(fr, st, cm, x, e.terms(st, args, p), p, k)
		return
	}
	switch f := cm.Value.(type) {
	case *ssa.Builtin:
		e.builtin(fr, st, f, cm, args, p, k)
		return
	case *ssa.Function:
		e.static(fr, st, f, args, nil, p, k)
		return
	}
	ft, ok := fv.(*Term)
	if !ok {
		e.unsup("call of %T at %s", fv, p)
	}
	if cl, ok := e.clos[ft]; ok {
		e.static(fr, st, cl.fn, args, cl.bind, p, k)
		return
	}
	e.dynamic(fr, st, cm, ft, args, p, k)
}

// terms turns argument values into terms.
func (e *Exec) terms(st *State, args []Val, p string) []*Term {
	out := make([]*Term, len(args))
	for i, a := range args {
		switch a := a.(type) {
		case *Term:
			out[i] = a
		case *Addr:
			if !a.elem && len(a.path) == 0 {
				out[i] = a.base
				continue
			}
			e.unsup("interior pointer passed at %s", p)
		default:
			e.unsup("argument %T at %s", a, p)
		}
	}
	return out
}

// dynamic calls an unknown function value: functional options, or a declared handler type.
func (e *Exec) dynamic(fr *Frame, st *State, cm *ssa.CallCommon, ft *Term, args []Val, p string, k cont) {
	c := e.c
	sig := cm.Signature()
	if sig.Results().Len() == 0 && sig.Params().Len() == 1 {
		if pt, ok := sig.Params().At(0).Type().Underlying().(*types.Pointer); ok {
			if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
				a := e.addrOf(args[0], pt.Elem())
				if o, ok := st.lobjs[a.base]; ok && len(a.path) == 0 && !a.elem {
					o.val = c.appOpt(typeName(pt.Elem()), ft, o.val)
					st.lobjs[a.base] = o
					e.trusted["functional options are not nil"] = true
					e.trusted["functional options only set fields of the options they are given, as a function of those"] = true
					k(st, nil)
					return
				}
			}
		}
	}
	e.require(st, c.Ne(ft, c.Zero), "nil", "call of a nil function", p)
	T := cm.Value.Type()
	if con := e.specs.Ifaces[typeName(T)+".call"]; con != nil {
		e.contractCall(fr, st, con, sig, sval{ft, T}, e.terms(st, args, p), p, k)
		return
	}
	e.unsup("dynamic call of %s at %s", typeName(T), p)
}

// ifaceContract finds the contract of an interface method.
func (e *Exec) ifaceContract(T types.Type, name string) *Contract {
	if con := e.specs.Ifaces[typeName(T)+"."+name]; con != nil {
		return con
	}
	// the interface that declares the method
	var keys []string
	for k := range e.specs.Ifaces {
		if strings.HasSuffix(k, "."+name) {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		con := e.specs.Ifaces[k]
		I := e.sess.ifaceType(con)
		if I != nil && types.Implements(T, I.Underlying().(*types.Interface)) {
			return con
		}
	}
	return nil
}

func (e *Exec) invoke(fr *Frame, st *State, cm *ssa.CallCommon, x *Term, args []*Term, p string, k cont) {
	c := e.c
	name := cm.Method.Name()
	sig := cm.Method.Type().(*types.Signature)
	T := cm.Value.Type()
	e.require(st, c.Ne(c.Sel(x, 0), c.Zero), "nil", "method "+name+" on nil "+typeName(T), p)
	for _, a := range args {
		e.escape(st, a)
	}
	if e.specs.Pure[name] && sig.Results().Len() == 1 && sig.Params().Len() == 0 {
		e.guardObj(st, x, name, p)
		if n, ok := c.Sel(x, 0).isInt(); ok {
			// linked getters first
			if D := e.tagType(n); D != nil {
				if v, ok := e.localGetter(fr, st, x, D, name, args, p, k); ok {
					_ = v
					return
				}
			}
		}
		r := e.pure(x, name, sig, args)
		e.assume(st, e.wf(r, sig.Results().At(0).Type(), st.alloc))
		if types.Identical(sig.Results().At(0).Type().Underlying(), sig.Results().At(0).Type().Underlying()) && e.specs.NonNil[name] {
			e.assume(st, c.Ne(c.Sel(r, 0), c.Zero))
		}
		if typeName(T) == "context.Context" && name == "Done" {
			e.assume(st, c.Or(c.Eq(r, c.Zero), c.Eq(c.App("chanrole", SInt, r), e.roleOf("context"))))
			e.trusted["the channel a context's Done returns is none of the broker's own channels"] = true
		}
		k(st, []Val{r})
		return
	}
	// known concrete type
	if n, ok := c.Sel(x, 0).isInt(); ok {
		if D := e.tagType(n); D != nil {
			if m := e.prog.ssa.LookupMethod(D, cm.Method.Pkg(), name); m != nil && e.prog.inModule(m) {
				as := append([]Val{e.unbox(c.Sel(x, 1), D)}, vals(args)...)
				e.static(fr, st, m, as, nil, p, k)
				return
			}
		}
	}
	con := e.ifaceContract(T, name)
	if con == nil {
		e.unsup("no contract for %s.%s called at %s", typeName(T), name, p)
	}
	e.guardObj(st, x, name, p)
	e.contractCall(fr, st, con, sig, sval{x, T}, args, p, k)
}

// localGetter executes a pure method of an object that has not escaped yet.
func (e *Exec) localGetter(fr *Frame, st *State, x *Term, D types.Type, name string, args []*Term, p string, k cont) (bool, bool) {
	ref := e.c.Sel(x, 1)
	if _, ok := st.lobjs[ref]; !ok {
		return false, false
	}
	m := e.prog.ssa.LookupMethod(D, nil, name)
	if m == nil || !e.prog.inModule(m) {
		return false, false
	}
	e.static(fr, st, m, append([]Val{ref}, vals(args)...), nil, p, k)
	return true, true
}

func vals(ts []*Term) []Val {
	out := make([]Val, len(ts))
	for i, t := range ts {
		out[i] = t
	}
	return out
}

func (e *Exec) tagType(n int64) types.Type {
	for _, T := range e.c.tagTyp {
		if int64(e.c.tags[typeName(T)]) == n {
			return T
		}
	}
	return nil
}

// static calls a known function.
func (e *Exec) static(fr *Frame, st *State, f *ssa.Function, args []Val, bind []Val, p string, k cont) {
	full := f.String()
	if m := e.specs.Models[full]; m != "" {
		if g := e.prog.funcs[m]; g != nil {
			e.trusted["what "+full+" does is what contracts/models says"] = true
			f, full = g, g.String()
		}
	}
	if e.intrinsic(fr, st, f, full, args, p, k) {
		return
	}
	name := funcName(f)
	if con := e.specs.Funcs[name]; con != nil && f.Parent() == nil && f.Synthetic == "" && con.Flags["inline"] == "" && e.inGetter == 0 {
		ts := e.terms(st, args, p)
		for _, a := range ts {
			e.escape(st, a)
		}
		sig := f.Signature
		var recv sval
		if sig.Recv() != nil {
			recv = sval{ts[0], sig.Recv().Type()}
			ts = ts[1:]
			if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok {
				e.nilCheck(st, recv.t, typeName(recv.T), p)
			}
		}
		e.contractCall(fr, st, con, sig, recv, ts, p, k)
		return
	}
	if f.Blocks == nil || !(e.prog.inModule(f) || f.Synthetic != "") {
		e.unsup("no contract for %s called at %s", full, p)
	}
	e.inline(fr, st, f, args, bind, p, k)
}

func (e *Exec) inline(fr *Frame, st *State, f *ssa.Function, args []Val, bind []Val, p string, k cont) {
	depth := 0
	for _, g := range fr.chain {
		if g == f {
			depth++
		}
	}
	if depth > 0 && f == e.fn && e.con != nil {
		e.unsup("recursion through %s", f)
	}
	if depth > 2 || len(fr.chain) > 24 {
		e.unsup("recursion through %s", f)
	}
	if f.Synthetic == "" && e.inGetter == 0 {
		e.inl[funcName(f)] = true
	}
	nf := e.newFrame(f, fr, fr.key+">"+funcName(f), func(st *State, res []Val) { k(st, res) })
	for i, pa := range f.Params {
		e.set(st, nf, pa, args[i])
	}
	for i, fvv := range f.FreeVars {
		e.set(st, nf, fvv, bind[i])
	}
	e.run(nf, f.Blocks[0], nil, st)
}

// contractEnv binds the names of a contract.
func (e *Exec) contractEnv(st *State, con *Contract, sig *types.Signature, recv sval, args []*Term) *Env {
	v := &Env{e: e, st: st, file: con.File, vars: map[string]sval{}}
	if con.Recv != "" && recv.T != nil {
		v.vars[con.Recv] = recv
	}
	for i := 0; i < sig.Params().Len() && i < len(con.Params); i++ {
		v.vars[con.Params[i]] = sval{args[i], sig.Params().At(i).Type()}
	}
	return v
}

func resultNames(con *Contract, n int) []string {
	out := make([]string, n)
	for i := range out {
		switch {
		case i < len(con.Results):
			out[i] = con.Results[i]
		case n == 1:
			out[i] = "result"
		default:
			out[i] = fmt.Sprintf("result%d", i)
		}
	}
	return out
}

// target is a set of places a contract may change.
type target struct {
	comp string
	sort Sort
	all  bool
	ref  *Term
	pred func(r *Term) *Term
}

// targets evaluates the modifies clauses in the state of env.
func (v *Env) targets(con *Contract) []target {
	e := v.e
	c := e.c
	var out []target
	for _, m := range con.Mod {
		kind := m.Comp
		arg := ""
		if i := strings.Index(kind, ":"); i >= 0 {
			kind, arg = kind[:i], kind[i+1:]
		}
		addMap := func(u *types.Map, ref *Term, pred func(*Term) *Term) {
			d, w, n, ds, vs, ns := e.mapComps(u)
			out = append(out, target{comp: d, sort: ds, ref: ref, pred: pred}, target{comp: w, sort: vs, ref: ref, pred: pred}, target{comp: n, sort: ns, ref: ref, pred: pred})
		}
		switch kind {
		case "map":
			a := v.eval(m.E)
			addMap(a.T.Underlying().(*types.Map), a.t, nil)
		case "maps":
			T := v.typ(arg)
			u := T.Underlying().(*types.Map)
			mm := m
			addMap(u, nil, func(r *Term) *Term {
				return v.with(func(n *Env) { n.vars[mm.Bind.Name] = sval{r, T} }).Bool(mm.E)
			})
		case "elems":
			a := v.eval(m.E)
			n, s := e.elComp(a.T.Underlying().(*types.Slice).Elem())
			out = append(out, target{comp: n, sort: s, ref: c.Sel(a.t, 0)})
		case "cell":
			a := v.eval(m.E)
			T := deref(a.T)
			if s := e.structOf(T); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					n, imm, so, _ := e.fieldComp(T, i)
					if !imm {
						out = append(out, target{comp: n, sort: ArrSort(SInt, so), ref: a.t})
					}
				}
			} else {
				n, _, so := e.cellComp(T)
				out = append(out, target{comp: n, sort: ArrSort(SInt, so), ref: a.t})
			}
		case "field":
			i := strings.LastIndex(arg, ".")
			T := v.typ(arg[:i])
			s := e.structOf(T)
			a := v.eval(m.E)
			found := false
			for j := 0; j < s.NumFields(); j++ {
				if s.Field(j).Name() == arg[i+1:] {
					n, _, so, _ := e.fieldComp(T, j)
					out = append(out, target{comp: n, sort: ArrSort(SInt, so), ref: a.t})
					found = true
				}
			}
			if !found {
				v.fail("no field %s", arg)
			}
		case "ghost":
			g := e.specs.Ghosts[arg]
			if g == nil {
				v.fail("no ghost %s", arg)
			}
			T := e.ghostType(g).(*MathMap)
			a := v.coerce(v.eval(m.E), T.K)
			out = append(out, target{comp: "G:" + arg, sort: c.sortOf(T), ref: a.t})
		case "anyghost":
			if arg == "closed" {
				out = append(out, target{comp: "G:closed", sort: ArrSort(SInt, SBool), all: true})
				break
			}
			g := e.specs.Ghosts[arg]
			if g == nil {
				v.fail("no ghost %s", arg)
			}
			out = append(out, target{comp: "G:" + arg, sort: c.sortOf(e.ghostType(g)), all: true})
		default:
			v.fail("modifies %s", m.Text)
		}
	}
	return out
}

// freshRow is an unknown value of a component at one place.
func (e *Exec) freshRow(st *State, name string, s Sort, bound *Term) *Term {
	c := e.c
	t := c.Fresh("row_"+clean(name, 30), s)
	if !isArr(s) {
		switch {
		case strings.HasPrefix(name, "MC:"):
			e.assume(st, c.Le(c.Zero, t))
		case strings.HasPrefix(name, "F:"), strings.HasPrefix(name, "C:"):
			e.assume(st, e.wfLeaf(name, t, bound))
		}
		return t
	}
	if strings.HasPrefix(name, "MV:") || strings.HasPrefix(name, "EL:") {
		kk, _ := splitArr(s)
		j := c.BV("k", kk)
		sel := c.Select(t, j)
		if ax := e.wfLeaf(name, sel, bound); ax != c.True {
			c.symAx[t.Op] = append(c.symAx[t.Op], c.Forall([]*Term{j}, [][]*Term{{sel}}, ax))
		}
	}
	return t
}

// havoc changes the targets arbitrarily.
func (e *Exec) havoc(st *State, ts []target) {
	c := e.c
	by := map[string][]target{}
	var order []string
	for _, t := range ts {
		if _, ok := by[t.comp]; !ok {
			order = append(order, t.comp)
		}
		by[t.comp] = append(by[t.comp], t)
	}
	rows := map[string][]*Term{}
	for _, name := range order {
		l := by[name]
		s := l[0].sort
		cur := e.comp(st, name, s)
		all, preds := false, false
		for _, t := range l {
			all = all || t.all
			preds = preds || t.pred != nil
		}
		_, rs := splitArr(s)
		switch {
		case all:
			c.fresh++
			e.setComp(st, name, e.newComp(name, fmt.Sprintf("%s@%d", name, c.fresh), s, st.alloc))
		case preds:
			c.fresh++
			n := e.newComp(name, fmt.Sprintf("%s@%d", name, c.fresh), s, st.alloc)
			ks, _ := splitArr(s)
			r := c.BV("r", ks)
			var in []*Term
			for _, t := range l {
				if t.pred != nil {
					in = append(in, t.pred(r))
				} else {
					in = append(in, c.Eq(r, t.ref))
				}
			}
			e.assume(st, c.Forall([]*Term{r}, [][]*Term{{c.Select(n, r)}}, c.Or(append(in, c.Eq(c.Select(n, r), c.Select(cur, r)))...)))
			e.setComp(st, name, n)
		default:
			for _, t := range l {
				if t.ref == c.Zero {
					continue
				}
				row := e.freshRow(st, name, rs, st.alloc)
				rows[name] = append(rows[name], row)
				cur = c.Store(cur, t.ref, row)
			}
			e.setComp(st, name, cur)
		}
	}
	e.normalise(st, order)
	for _, n := range order {
		if strings.HasPrefix(n, "MV:") {
			d := "MD:" + n[3:]
			if len(rows[n]) != len(rows[d]) {
				e.unsup("map component %s", n)
			}
			for i, r := range rows[n] {
				e.assume(st, e.normalRow(rows[d][i], r, e.mapTypes[d]))
			}
		}
	}
}

func (st *State) snapshot() map[string]*Term {
	m := make(map[string]*Term, len(st.comps))
	for k, v := range st.comps {
		m[k] = v
	}
	return m
}

// contractCall replaces a call by the callee's contract.
func (e *Exec) contractCall(fr *Frame, st *State, con *Contract, sig *types.Signature, recv sval, args []*Term, p string, k cont) {
	c := e.c
	e.used[con.Key] = true
	if con.Step != nil || con.Flags["noframe"] != "" && con.Iface == "" {
		e.unsup("call of %s, whose contract has no frame", con.Key)
	}
	if e.sess.failed["frame:"+con.Key] {
		e.unsup("call of %s, which changes more than its contract says", con.Key)
	}
	pre := e.contractEnv(st, con, sig, recv, args)
	pre.alloc = st.alloc
	e.onCall(st, con, pre, p)
	for _, r := range con.Req {
		g := e.evalClause(pre, r)
		if g == nil {
			continue
		}
		e.check(st, g, "pre", "precondition of "+con.Key+": "+r.Text, p, nil, r.ID)
		e.assume(st, g)
	}
	var lockKey *Term
	if con.Flags["locked"] != "" && recv.T != nil {
		lockKey = e.lockOf(st, recv.t, deref(recv.T))
		if lockKey != nil {
			if st.locks[lockKey] != 0 {
				e.checkL(st, c.False, "lock", "calls "+con.Key+" while holding its lock", p, "C12")
			}
			e.lockedCall(st, lockKey, recv, p)
			pre = e.contractEnv(st, con, sig, recv, args)
			pre.alloc = st.alloc
		}
	}
	for _, a := range args {
		e.escape(st, a)
	}
	e.guardArgs(st, con, args, p)
	before := st.snapshot()
	oldAlloc := st.alloc
	ts := pre.targets(con)
	if con.Flags["noalloc"] == "" {
		na := c.Fresh("alloc", SInt)
		e.assume(st, c.Le(st.alloc, na))
		st.alloc = na
	}
	e.havoc(st, ts)
	post := e.contractEnv(st, con, sig, recv, args)
	post.oldC = before
	post.alloc = oldAlloc
	if len(con.Mod) == 0 {
		post.relC = st.snapshot() // nothing changes between the release and the return
	}
	names := resultNames(con, sig.Results().Len())
	res := make([]*Term, len(names))
	// results given by definition
	for i, n := range names {
		T := sig.Results().At(i).Type()
		for _, en := range con.Ens {
			if e.sess.failed[en.ID] {
				continue
			}
			if d := defOf(en.E, n); d != nil && !mentions(d, names) {
				if t := e.evalDef(post, d, T); t != nil {
					res[i] = t
					break
				}
			}
		}
		if res[i] == nil {
			res[i] = c.Fresh("ret_"+clean(n, 12), c.sortOf(T))
			e.assume(st, e.wf(res[i], T, st.alloc))
		}
		post.vars[n] = sval{res[i], T}
		if recv.T != nil {
			e.lazyResult(st, con, recv.t, res[i])
		} else {
			for _, a := range args {
				e.lazyResult(st, con, a, res[i])
			}
		}
	}
	if kd := con.Flags["event"]; kd != "" {
		ev := &Event{kind: kd}
		if recv.T != nil {
			ev.args = append(ev.args, recv.t)
			ev.typs = append(ev.typs, recv.T)
		}
		for i, a := range args {
			ev.args = append(ev.args, a)
			ev.typs = append(ev.typs, sig.Params().At(i).Type())
		}
		for i, r := range res {
			ev.res = append(ev.res, r)
			ev.rtyps = append(ev.rtyps, sig.Results().At(i).Type())
		}
		ev.st = st.snapshot()
		st.events = append(st.events, ev)
	}
	for _, en := range con.Ens {
		if e.sess.failed[en.ID] {
			continue
		}
		if t := e.evalClause(post, en); t != nil {
			e.assume(st, t)
		}
	}
	if lockKey != nil {
		e.lockedDone(st, lockKey, recv)
	}
	if con.Flags["extern"] != "" || con.Iface != "" && !e.sess.implVerified(con) {
		e.trusted["contract of "+con.Key] = true
	}
	k(st, vals(res))
}

// lockedCall is the state in which a method takes the lock of its receiver.
func (e *Exec) lockedCall(st *State, key *Term, recv sval, p string) {
	if e.prove(st, e.c.Lt(e.alloc0, recv.t)) {
		return // not shared yet
	}
	if e.con != nil && e.con.Flags["locked"] == "" && e.con.Iface == "" && e.spec == 0 && e.inGo == 0 && recv.t == e.recvT {
		e.checkL(st, e.c.False, "lock", "takes the lock of its receiver, but its contract does not say so", p, "C12")
	}
	T := deref(recv.T)
	if st.rel[key] != nil {
		if e.inGo == 0 && recv.t == e.recvT && e.fr0 != nil {
			e.fr0(st, p)
		}
		e.havocGuarded(st, recv.t, T)
		st.oldC = st.snapshot()
		st.oldA = st.alloc
	}
	if e.rep != nil {
		e.used["mon:"+typeName(T)] = true
		for _, t := range e.monitor(st, recv.t, T) {
			e.assume(st, t.t)
		}
	}
}

// lockedDone is the state in which such a method has released the lock.
func (e *Exec) lockedDone(st *State, key *Term, recv sval) {
	if e.prove(st, e.c.Lt(e.alloc0, recv.t)) {
		return
	}
	if e.rep != nil {
		for _, t := range e.monitor(st, recv.t, deref(recv.T)) {
			e.assume(st, t.t)
		}
	}
	st.rel[key] = &relPoint{st.alloc}
	if st.relC == nil {
		st.relC = st.snapshot()
	}
}

// onCall checks what the function under verification promises about the calls it makes.
// In such a clause $x is the callee's x.
func (e *Exec) onCall(st *State, con *Contract, pre *Env, p string) {
	if kd := con.Flags["event"]; kd != "" {
		e.onEvent(st, kd, pre.vars, p)
	}
}

func (e *Exec) onEvent(st *State, kd string, vars map[string]sval, p string) {
	if e.con == nil || e.env0 == nil {
		return
	}
	for _, cl := range e.con.OnCall {
		if cl.Comp == kd {
			e.inBody(st, cl, vars, "oncall", "at each call: "+cl.Text, p)
		}
	}
}

// inBody checks a clause of the root's contract in the middle of its body.
func (e *Exec) inBody(st *State, cl *Clause, vars map[string]sval, kind, desc, p string) {
	if e.spec > 0 {
		return
	}
	v := *e.env0
	v.st = st
	v.comps = nil
	v.oldC = st.oldC
	v.relC = st.relC
	v.evs = st.events
	v.vars = map[string]sval{}
	for k, x := range e.env0.vars {
		v.vars[k] = x
	}
	for k, x := range vars {
		v.vars["$"+k] = x
	}
	if g := e.evalClause(&v, cl); g != nil {
		l := e.labels
		if len(cl.Labels) > 0 {
			e.labels = cl.Labels
		}
		e.check(st, g, kind, desc, p, nil, cl.ID)
		e.labels = l
	}
}

// defOf finds the definition of a result: n == expr.
func defOf(x *Expr, n string) *Expr {
	if x.Op != "bin" {
		return nil
	}
	switch x.Name {
	case "&&":
		if d := defOf(x.Args[0], n); d != nil {
			return d
		}
		return defOf(x.Args[1], n)
	case "==":
		if x.Args[0].Op == "id" && x.Args[0].Name == n {
			return x.Args[1]
		}
	}
	return nil
}

func mentions(x *Expr, names []string) bool {
	if x.Op == "id" {
		for _, n := range names {
			if x.Name == n {
				return true
			}
		}
	}
	for _, a := range x.Args {
		if mentions(a, names) {
			return true
		}
	}
	return false
}

func (e *Exec) evalDef(v *Env, x *Expr, T types.Type) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specErr); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	s := v.coerce(v.eval(x), T)
	if s.t.Sort != e.c.sortOf(T) {
		return nil
	}
	return s.t
}

// evalClause evaluates a clause; a contract that cannot be evaluated is an error of the contract.
func (e *Exec) evalClause(v *Env, cl *Clause) *Term {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				panic(unsupported{fmt.Sprintf("contract clause %s (%s): %s", cl.ID, cl.Text, s.msg)})
			}
			panic(r)
		}
	}()
	return v.Bool(cl.E)
}

func (e *Exec) checkL(st *State, goal *Term, kind, desc, pos, label string) {
	e.check(st, goal, kind, desc, pos, []string{label}, "")
}

// builtin functions.
func (e *Exec) builtin(fr *Frame, st *State, f *ssa.Builtin, cm *ssa.CallCommon, args []Val, p string, k cont) {
	c := e.c
	switch f.Name() {
	case "len", "cap":
		x := args[0].(*Term)
		switch u := cm.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			i := 1
			if f.Name() == "cap" {
				i = 2
			}
			k(st, []Val{c.Sel(x, i)})
			return
		case *types.Map:
			e.guardMap(st, x, false, p)
			_, _, n, _, _, ns := e.mapComps(u)
			t := c.Select(e.comp(st, n, ns), x)
			e.assume(st, c.Le(c.Zero, t))
			k(st, []Val{t})
			return
		case *types.Basic:
			t := c.App("strlen", SInt, x)
			e.assume(st, c.Le(c.Zero, t))
			k(st, []Val{t})
			return
		case *types.Chan:
			t := c.Fresh("chanlen", SInt)
			e.assume(st, c.Le(c.Zero, t))
			k(st, []Val{t})
			return
		}
	case "delete":
		mt := cm.Args[0].Type().Underlying().(*types.Map)
		e.mapDelete(st, mt, args[0].(*Term), args[1].(*Term), p)
		k(st, nil)
		return
	case "append":
		e.appendCall(st, cm, args, p, k)
		return
	case "close":
		e.closeChan(st, args[0].(*Term), p)
		k(st, nil)
		return
	case "ssa:wrapnilchk":
		x := args[0].(*Term)
		e.nilCheck(st, x, "method on nil pointer", p)
		k(st, []Val{x})
		return
	case "copy":
		u, ok := cm.Args[0].Type().Underlying().(*types.Slice)
		if _, ok2 := cm.Args[1].Type().Underlying().(*types.Slice); ok && ok2 {
			d, s := args[0].(*Term), args[1].(*Term)
			n := c.Ite(c.Le(c.Sel(d, 1), c.Sel(s, 1)), c.Sel(d, 1), c.Sel(s, 1))
			name, so := e.elComp(u.Elem())
			h := e.comp(st, name, so)
			src, dst := c.Select(h, c.Sel(s, 0)), c.Select(h, c.Sel(d, 0))
			row := e.freshRow(st, name, rowSort(so), st.alloc)
			j := c.BV("j", SInt)
			e.assume(st, c.Forall([]*Term{j}, [][]*Term{{c.Select(row, j)}}, c.Eq(c.Select(row, j), c.Ite(c.And(c.Le(c.Zero, j), c.Lt(j, n)), c.Select(src, j), c.Select(dst, j)))))
			e.setComp(st, name, c.Store(h, c.Sel(d, 0), row))
			k(st, []Val{n})
			return
		}
	case "print", "println":
		k(st, nil)
		return
	}
	e.unsup("builtin %s at %s", f.Name(), p)
}

// appendCall models append(s, xs...).
func (e *Exec) appendCall(st *State, cm *ssa.CallCommon, args []Val, p string, k cont) {
	c := e.c
	u, ok := cm.Args[0].Type().Underlying().(*types.Slice)
	if !ok {
		e.unsup("append to %s", cm.Args[0].Type())
	}
	s, x := args[0].(*Term), args[1].(*Term)
	if x.Sort != SSlice {
		e.unsup("append of a string")
	}
	name, so := e.elComp(u.Elem())
	n0, n1 := c.Sel(s, 1), c.Sel(x, 1)
	n := c.Add(n0, n1)
	if n1 == c.Zero {
		k(st, []Val{s})
		return
	}
	h := e.comp(st, name, so)
	src := c.Select(h, c.Sel(x, 0))
	cnt, lit := n1.isInt()
	put := func(st *State, row *Term) *Term {
		if lit && cnt <= 16 {
			for i := int64(0); i < cnt; i++ {
				row = c.Store(row, c.Add(n0, c.Int(i)), c.Select(src, c.Int(i)))
			}
			return row
		}
		nr := e.freshRow(st, name, rowSort(so), st.alloc)
		j := c.BV("j", SInt)
		e.assume(st, c.Forall([]*Term{j}, [][]*Term{{c.Select(nr, j)}}, c.Eq(c.Select(nr, j), c.Ite(c.And(c.Le(n0, j), c.Lt(j, n)), c.Select(src, c.Sub(j, n0)), c.Select(row, j)))))
		if sj := c.Select(src, j); sj.Op == "select" && src.Op != "store" {
			e.assume(st, c.Forall([]*Term{j}, [][]*Term{{sj}}, c.Imp(c.And(c.Le(c.Zero, j), c.Lt(j, n1)), c.Eq(c.Select(nr, c.Add(n0, j)), sj))))
		}
		if rj := c.Select(row, j); rj.Op == "select" && row.Op != "store" {
			e.assume(st, c.Forall([]*Term{j}, [][]*Term{{rj}}, c.Imp(c.And(c.Le(c.Zero, j), c.Lt(j, n0)), c.Eq(c.Select(nr, j), rj))))
		}
		return nr
	}
	inPlace := c.Le(n, c.Sel(s, 2))
	grow := func(st *State) {
		r := e.newRef(st)
		h := e.comp(st, name, so)
		row := c.Select(h, c.Sel(s, 0))
		if z, ok := n0.isInt(); ok && z == 0 {
			row = c.ConstArr(rowSort(so), c.zero(u.Elem()))
		}
		e.setComp(st, name, c.Store(h, r, put(st, row)))
		cp := c.Fresh("cap", SInt)
		e.assume(st, c.Le(n, cp))
		k(st, []Val{c.Ctor(SSlice, r, n, cp)})
	}
	if v, ok := e.known(st, inPlace); ok && !v {
		grow(st)
		return
	}
	s2 := st.clone()
	if e.feasible(s2, inPlace) {
		e.assume(s2, inPlace)
		h := e.comp(s2, name, so)
		e.setComp(s2, name, c.Store(h, c.Sel(s, 0), put(s2, c.Select(h, c.Sel(s, 0)))))
		k(s2, []Val{c.Ctor(SSlice, c.Sel(s, 0), n, c.Sel(s, 2))})
	}
	if e.feasible(st, c.Not(inPlace)) {
		e.assume(st, c.Not(inPlace))
		grow(st)
	}
}

// errIs is errors.Is.
func (e *Exec) errIs(x, target *Term) *Term {
	c := e.c
	if x == target {
		return c.True
	}
	t := c.App("errIs", SBool, x, target)
	if !e.axDone["errIs"] {
		e.axDone["errIs"] = true
		a, b := c.BV("a", SIface), c.BV("b", SIface)
		q := c.App("errIs", SBool, a, b)
		c.symAx["errIs"] = append(c.symAx["errIs"], c.Forall([]*Term{a, b}, [][]*Term{{q}},
			c.And(c.Imp(c.Eq(a, b), q), c.Imp(c.And(c.Eq(c.Sel(a, 0), c.Int(int64(e.errTag()))), c.Ne(a, b)), c.Not(q)), c.Imp(c.And(c.Eq(c.Sel(a, 0), c.Zero), c.Ne(c.Sel(b, 0), c.Zero)), c.Not(q)))))
	}
	return t
}

// newError is a fresh non-nil error.
func (e *Exec) newError(st *State, hint string) *Term {
	c := e.c
	r := e.newRef(st)
	n := "errType_" + hint
	if _, ok := c.tags[n]; !ok {
		c.tags[n] = len(c.tags) + 1
	}
	_ = r
	return c.Ctor(SIface, c.Int(int64(c.tags[n])), r)
}

// intrinsic handles the functions of the standard library and dependencies that need no contract file.
func (e *Exec) intrinsic(fr *Frame, st *State, f *ssa.Function, full string, args []Val, p string, k cont) bool {
	c := e.c
	switch full {
	case "(*sync.RWMutex).Lock", "(*sync.Mutex).Lock":
		e.acquire(st, e.lockKey(st, args[0], p), 2, args[0], p)
		k(st, nil)
		return true
	case "(*sync.RWMutex).RLock":
		e.acquire(st, e.lockKey(st, args[0], p), 1, args[0], p)
		k(st, nil)
		return true
	case "(*sync.RWMutex).Unlock", "(*sync.Mutex).Unlock":
		e.release(st, e.lockKey(st, args[0], p), 2, args[0], p)
		k(st, nil)
		return true
	case "(*sync.RWMutex).RUnlock":
		e.release(st, e.lockKey(st, args[0], p), 1, args[0], p)
		k(st, nil)
		return true
	case "errors.New":
		k(st, []Val{e.newError(st, "errorString_dyn")})
		return true
	case "errors.Is":
		k(st, []Val{e.errIs(args[0].(*Term), args[1].(*Term))})
		return true
	case "fmt.Errorf":
		// a new error; %w wraps (treated as unknown relation)
		er := c.Fresh("errorf", SIface)
		n := "errType_fmt"
		if _, ok := c.tags[n]; !ok {
			c.tags[n] = len(c.tags) + 1
		}
		r := e.newRef(st)
		e.assume(st, c.Eq(er, c.mk("mkI", SIface, c.Int(int64(c.tags[n])), r)))
		e.trusted["fmt.Errorf returns a new non-nil error"] = true
		if f, ok := args[0].(*Term); ok && c.isStrLit(f) && !strings.Contains(c.strText(f), "%w") {
			// it wraps nothing
			b, t := c.BV("b", SIface), c.mk("mkI", SIface, c.Int(int64(c.tags[n])), r)
			q := c.App("errIs", SBool, t, b)
			e.errIs(t, c.NilI)
			e.assume(st, c.Forall([]*Term{b}, [][]*Term{{q}}, c.Imp(c.Ne(b, t), c.Not(q))))
		}
		k(st, []Val{c.mk("mkI", SIface, c.Int(int64(c.tags[n])), r)})
		return true
	case "fmt.Sprintf", "fmt.Sprint":
		k(st, []Val{c.Fresh("sprintf", SStr)})
		return true
	case "strings.Join":
		s, sep := args[0].(*Term), args[1].(*Term)
		n, ok := c.Sel(s, 1).isInt()
		if !ok || n > 16 {
			name, so := e.elComp(types.Typ[types.String])
			k(st, []Val{c.App("strjoin", SStr, c.Select(e.comp(st, name, so), c.Sel(s, 0)), c.Sel(s, 1), sep)})
			return true
		}
		name, so := e.elComp(types.Typ[types.String])
		row := c.Select(e.comp(st, name, so), c.Sel(s, 0))
		r := c.Str("")
		for i := n - 1; i >= 0; i-- {
			x := c.Select(row, c.Int(i))
			if i == n-1 {
				r = x
			} else {
				r = c.Concat(x, c.Concat(sep, r))
			}
		}
		k(st, []Val{r})
		return true
	case "context.Background", "context.TODO":
		t := c.Const("ctx_"+f.Name(), SIface)
		c.symAx[t.Op] = []*Term{c.Ne(c.Sel(t, 0), c.Zero), c.Le(c.Sel(t, 1), e.alloc0)}
		k(st, []Val{t})
		return true
	case "time.NewTimer":
		r := e.newRef(st)
		T := deref(f.Signature.Results().At(0).Type())
		ch := e.newRef(st)
		e.assume(st, c.Eq(c.App("timer", SInt, ch), args[0].(*Term)))
		e.assume(st, c.Eq(c.App("chanrole", SInt, ch), e.roleOf("timer")))
		e.trusted["time.NewTimer(d).C delivers after d"] = true
		for i := 0; i < e.structOf(T).NumFields(); i++ {
			if e.structOf(T).Field(i).Name() == "C" {
				e.writeField(st, r, T, i, ch, p)
			}
		}
		k(st, []Val{r})
		return true
	case "(*time.Timer).Stop":
		k(st, []Val{c.Fresh("stopped", SBool)})
		return true
	case "time.After":
		r := e.newRef(st)
		e.assume(st, c.Eq(c.App("timer", SInt, r), args[0].(*Term)))
		e.assume(st, c.Eq(c.App("chanrole", SInt, r), e.roleOf("timer")))
		e.trusted["time.After(d) delivers after d"] = true
		k(st, []Val{r})
		return true
	}
	return false
}

// goInstr checks what a new goroutine does.
func (e *Exec) goInstr(fr *Frame, st *State, in *ssa.Go) {
	cm := in.Common()
	p := e.pos(in.Pos())
	var args []Val
	for _, a := range cm.Args {
		args = append(args, e.get(st, fr, a))
	}
	ts := e.terms(st, args, p)
	for _, a := range ts {
		e.escape(st, a)
	}
	var f *ssa.Function
	var bind []Val
	switch fv := cm.Value.(type) {
	case *ssa.Function:
		f = fv
	default:
		if cm.IsInvoke() {
			e.unsup("go on interface method at %s", p)
		}
		t, ok := e.get(st, fr, cm.Value).(*Term)
		cl := e.clos[t]
		if !ok || cl == nil {
			e.unsup("go with unknown function at %s", p)
		}
		e.escape(st, t)
		f, bind = cl.fn, cl.bind
	}
	name := funcName(f)
	ev := &Event{kind: "go", args: ts}
	for _, a := range cm.Args {
		ev.typs = append(ev.typs, a.Type())
	}
	st.events = append(st.events, ev)
	if e.specs.Funcs[name] != nil && f.Parent() == nil {
		// its own root; check its precondition here
		con := e.specs.Funcs[name]
		e.used[con.Key] = true
		sig := f.Signature
		var recv sval
		as := ts
		if sig.Recv() != nil {
			recv = sval{ts[0], sig.Recv().Type()}
			as = ts[1:]
		}
		pre := e.contractEnv(st, con, sig, recv, as)
		pre.alloc = st.alloc
		for _, r := range con.Req {
			if g := e.evalClause(pre, r); g != nil {
				e.check(st, g, "pre", "precondition of go "+con.Key+": "+r.Text, p, nil, r.ID)
			}
		}
		return
	}
	// run the body from an arbitrary later state
	s := st.clone()
	s.loops = nil
	s.locks = map[*Term]int{}
	s.rel = map[*Term]*relPoint{}
	s.events = nil
	s.defers = map[int][]deferred{}
	na := e.c.Fresh("alloc", SInt)
	e.assume(s, e.c.Le(s.alloc, na))
	s.alloc = na
	var names []string
	for n := range e.compS {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		e.c.fresh++
		s.comps[n] = e.newComp(n, fmt.Sprintf("%s@%d", n, e.c.fresh), e.compS[n], na)
	}
	e.normalise(s, names)
	if mk, ok := cm.Value.(*ssa.MakeClosure); ok {
		for i, b := range mk.Bindings {
			r, ok := bind[i].(*Term)
			if !ok || !onceStored(b, mk) {
				continue
			}
			// set once, before the closure was made
			T := deref(b.Type())
			if v := e.load(st, &Addr{base: r, T: T}, p); v != nil {
				s.lobjs[r] = lobj{T, v, ""}
			}
		}
	}
	for key, o := range e.lockOwner {
		if o.T != nil {
			s.rel[key] = &relPoint{na}
		}
	}
	s.relC = nil
	save := e.goC
	e.goC = st.snapshot()
	defer func() { e.goC = save }()
	e.inGo++
	e.inline(fr, s, f, args, bind, p, func(st2 *State, _ []Val) {
		for _, n := range st2.locks {
			if n != 0 {
				e.checkL(st2, e.c.False, "lock", "goroutine ends holding a lock", p, "C12")
			}
		}
		for _, cl := range e.con.GoExit {
			e.inBody(st2, cl, nil, "goexit", "when the goroutine ends: "+cl.Text, p)
		}
		e.goExit(st2, f, p)
	})
	e.inGo--
}
