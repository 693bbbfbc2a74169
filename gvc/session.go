package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var repoDir = "/repo"

// Session verifies roots.
type Session struct {
	prop    string
	prog    *Prog
	specs   *Specs
	solver  *Solver
	mu      sync.Mutex
	refs    map[string]bool
	loopC   map[*ssa.Function]map[*ssa.BasicBlock]*loop
	failed  map[string]bool
	sentBad map[string]string
	roots   map[string]*Root
	order   []string
	results map[string]*RootResult
}

// Root is a function under contract.
type Root struct {
	key   string
	fn    *ssa.Function
	con   *Contract
	self  types.Type // for interface refinement: the concrete type
	auto  bool
	props map[string]bool
	miss  string
}

// RootResult is the outcome for a root.
type RootResult struct {
	root    *Root
	obls    []*Obl
	unsup   string
	used    map[string]bool
	inl     map[string]bool
	trusted map[string]bool
	exits   int
	vacuous bool
	secs    float64
}

func NewSession(prog *Prog, specs *Specs, solver *Solver) *Session {
	s := &Session{prog: prog, specs: specs, solver: solver, loopC: map[*ssa.Function]map[*ssa.BasicBlock]*loop{}, failed: map[string]bool{}, sentBad: map[string]string{}, roots: map[string]*Root{}, results: map[string]*RootResult{}}
	s.refs = map[string]bool{}
	return s
}

func (s *Session) setRef(n string) {
	s.mu.Lock()
	s.refs[n] = true
	s.mu.Unlock()
}

func (s *Session) isRef(n string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.refs[n]
}

func (s *Session) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	s.mu.Lock()
	defer s.mu.Unlock()
	if l, ok := s.loopC[fn]; ok {
		return l
	}
	l := findLoops(fn)
	s.loopC[fn] = l
	return l
}

func (s *Session) isFailed(id string) bool { return s.failed[id] }

// checkSentinel makes sure an error variable is made by errors.New and never reassigned.
func (s *Session) checkSentinel(n string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.sentBad[n]; ok {
		return
	}
	s.sentBad[n] = ""
	i := strings.LastIndex(n, ".")
	for _, sp := range s.prog.byP {
		if shortPkg(sp.Pkg.Path()) != n[:i] {
			continue
		}
		g, ok := sp.Members[n[i+1:]].(*ssa.Global)
		if !ok {
			continue
		}
		stores := 0
		if !strings.HasPrefix(sp.Pkg.Path(), modPath) {
			continue
		}
		for _, q := range s.prog.pkgs {
			for _, f := range allFuncs(q) {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						st, ok := in.(*ssa.Store)
						if !ok || st.Addr != g {
							continue
						}
						stores++
						cl, ok := st.Val.(*ssa.Call)
						if f.Name() != "init" || !ok || cl.Common().StaticCallee() == nil || cl.Common().StaticCallee().String() != "errors.New" {
							s.sentBad[n] = "assigned in " + f.String()
						}
					}
				}
			}
		}
		if stores > 1 {
			s.sentBad[n] = "assigned more than once"
		}
	}
}

func allFuncs(p *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			n, ok := m.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				if f := p.Prog.FuncValue(n.Method(i)); f != nil {
					add(f)
				}
			}
		}
	}
	return out
}

func (s *Session) ifaceType(con *Contract) types.Type {
	i := strings.LastIndex(con.Iface, ".")
	if i < 0 {
		return nil
	}
	return s.lookupType(con.Iface[:i], con.Iface[i+1:])
}

func (s *Session) lookupType(pkg, name string) types.Type {
	for path, p := range s.prog.tpkgs {
		if shortPkg(path) == pkg {
			if o, ok := p.Scope().Lookup(name).(*types.TypeName); ok {
				if types.IsInterface(o.Type()) {
					return o.Type()
				}
			}
		}
	}
	return nil
}

func (s *Session) typeByName(tn string) types.Type {
	for _, n := range s.prog.named {
		if typeName(n) == tn {
			return n
		}
	}
	return nil
}

func (s *Session) implVerified(con *Contract) bool {
	for _, im := range s.specs.Impls {
		if s.implIface(im) == con.Iface {
			return true
		}
	}
	return false
}

func (s *Session) implIface(im Impl) string {
	T, err := im.File.resolveType(im.Iface)
	if err != nil {
		return ""
	}
	return typeName(T)
}

func (s *Session) ghostNames() []string {
	var out []string
	for n := range s.specs.Ghosts {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// buildRoots lists everything that is to be verified.
func (s *Session) buildRoots() {
	add := func(r *Root) {
		s.roots[r.key] = r
		s.order = append(s.order, r.key)
	}
	var keys []string
	for k := range s.specs.Funcs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	done := map[*ssa.Function]bool{}
	for _, k := range keys {
		con := s.specs.Funcs[k]
		if con.Flags["extern"] != "" || con.Flags["inline"] != "" && len(con.Ens) == 0 {
			continue
		}
		r := &Root{key: k, fn: s.prog.funcs[k], con: con, props: s.propsOf(con)}
		if r.fn == nil || r.fn.Blocks == nil {
			r.miss = "no function " + k
			if con.Flags["optional"] != "" {
				continue
			}
		} else {
			done[r.fn] = true
		}
		add(r)
	}
	for _, im := range s.specs.Impls {
		T, err := im.File.resolveType(im.Typ)
		in := s.implIface(im)
		if err != nil || in == "" {
			fmt.Fprintln(os.Stderr, "impl:", im.Typ, im.Iface, err)
			continue
		}
		var ms []string
		for k, con := range s.specs.Ifaces {
			if con.Iface == in {
				ms = append(ms, k)
			}
		}
		sort.Strings(ms)
		for _, k := range ms {
			con := s.specs.Ifaces[k]
			name := k[strings.LastIndex(k, ".")+1:]
			sel := s.prog.ssa.MethodSets.MethodSet(T).Lookup(nil, name)
			r := &Root{key: "impl:" + typeName(T) + " " + k, con: con, self: T, props: s.propsOf(con)}
			if sel == nil {
				r.miss = "no method " + name
			} else {
				r.fn = s.prog.ssa.MethodValue(sel)
				if r.fn.Synthetic != "" {
					if o, ok := sel.Obj().(*types.Func); ok {
						if f := s.prog.ssa.FuncValue(o); f != nil {
							done[f] = true
						}
					}
				}
				done[r.fn] = true
			}
			add(r)
		}
	}
	// every method of a type with guarded fields obeys the lock discipline
	gt := map[string]bool{}
	for _, g := range s.specs.Guards {
		gt[g.Typ] = true
	}
	for _, n := range s.prog.named {
		tn := typeName(n)
		if !gt[tn] {
			continue
		}
		for i := 0; i < n.NumMethods(); i++ {
			f := s.prog.ssa.FuncValue(n.Method(i))
			if f == nil || done[f] || !n.Method(i).Exported() {
				continue
			}
			con := &Contract{Key: funcName(f), Props: []string{"C12"}, Flags: map[string]string{"locked": "1"}, File: s.specs.MonFile[tn]}
			if con.File == nil {
				con.File = s.specs.Files[0]
			}
			add(&Root{key: "lock:" + funcName(f), fn: f, con: con, auto: true, props: map[string]bool{"C12": true}})
		}
	}
}

func (s *Session) propsOf(con *Contract) map[string]bool {
	m := map[string]bool{}
	for _, p := range con.Props {
		m[p] = true
	}
	for _, l := range [][]*Clause{con.Ens, con.Req, con.OnCall, con.OnRel, con.GoRel, con.GoStep, con.GoExit} {
		for _, cl := range l {
			for _, p := range cl.Labels {
				m[p] = true
			}
		}
	}
	if con.Step != nil {
		for _, p := range con.Step.Labels {
			m[p] = true
		}
	}
	return m
}

// guarded says whether a function works on a type with guarded fields.
func (s *Session) guardedRoot(r *Root) bool {
	if r.fn == nil {
		return false
	}
	pk := r.fn.Pkg
	if pk == nil {
		return false
	}
	for _, g := range s.specs.Guards {
		if strings.HasPrefix(g.Typ, shortPkg(pk.Pkg.Path())+".") {
			return true
		}
	}
	return false
}

// verifyAll verifies the roots for a property and everything they rely on.
func (s *Session) verifyAll(want func(r *Root) bool, par int) {
	todo := map[string]bool{}
	for _, k := range s.order {
		if want(s.roots[k]) {
			todo[k] = true
		}
	}
	rounds := 0
	for len(todo) > 0 {
		rounds++
		var ks []string
		for k := range todo {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		todo = map[string]bool{}
		sem := make(chan struct{}, par)
		var wg sync.WaitGroup
		for _, k := range ks {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				r := s.verify(s.roots[k])
				<-sem
				s.mu.Lock()
				if p := s.results[k]; p != nil {
					// a clause is not asked for again once it is known not to hold
					for _, o := range p.obls {
						if !o.ok && o.Kind == "monitor" {
							r.obls = append(r.obls, o)
						}
					}
				}
				s.results[k] = r
				s.mu.Unlock()
			}()
		}
		wg.Wait()
		// contracts relied upon
		for _, k := range ks {
			for u := range s.results[k].used {
				for _, rk := range s.rootsFor(u) {
					if s.results[rk] == nil {
						todo[rk] = true
					}
				}
			}
		}
		// contracts that do not hold are not assumed
		bad := map[string]bool{}
		for _, k := range ks {
			for _, id := range s.failures(s.results[k]) {
				if !s.failed[id] {
					s.failed[id] = true
					bad[s.conOf(id)] = true
				}
			}
		}
		if s.prop != "" && len(bad) > 0 {
			// the property is broken already
			for _, k := range ks {
				for _, o := range s.results[k].obls {
					if !o.ok && hasLabel(o.Labels, s.prop) {
						return
					}
				}
			}
		}
		if len(bad) > 0 {
			for k, r := range s.results {
				for u := range r.used {
					if bad[u] {
						todo[k] = true
					}
				}
			}
		}
		if rounds > 12 {
			break
		}
	}
}

func (s *Session) conOf(id string) string {
	if strings.HasPrefix(id, "frame:") {
		return id[6:]
	}
	if i := strings.Index(id, ".inv"); i > 0 && !strings.Contains(id[i:], "/") {
		return "mon:" + id[:i]
	}
	if i := strings.LastIndex(id, "/"); i >= 0 {
		return id[:i]
	}
	return id
}

// rootsFor are the roots that justify a contract.
func (s *Session) rootsFor(u string) []string {
	var out []string
	if strings.HasPrefix(u, "mon:") {
		tn := u[4:]
		for _, k := range s.order {
			r := s.roots[k]
			if r.fn == nil {
				continue
			}
			if rc := r.fn.Signature.Recv(); rc != nil && typeName(deref(rc.Type())) == tn {
				out = append(out, k)
			}
			for i := 0; i < r.fn.Signature.Results().Len(); i++ {
				if typeName(deref(r.fn.Signature.Results().At(i).Type())) == tn {
					out = append(out, k)
				}
			}
		}
		return out
	}
	if _, ok := s.roots[u]; ok {
		return []string{u}
	}
	for _, k := range s.order {
		if r := s.roots[k]; r.self != nil && r.con.Key == u {
			out = append(out, k)
		}
	}
	return out
}

// failures are the clauses a result shows not to hold.
func (s *Session) failures(r *RootResult) []string {
	var out []string
	key := r.root.con.Key
	all := func() {
		for _, e := range r.root.con.Ens {
			out = append(out, e.ID)
		}
		out = append(out, "frame:"+key)
	}
	if r.unsup != "" || r.root.miss != "" || r.vacuous {
		all()
		return out
	}
	for _, o := range r.obls {
		if o.ok {
			continue
		}
		switch o.Kind {
		case "ensures", "monitor":
			out = append(out, o.Clause)
		case "frame":
			out = append(out, "frame:"+key)
		}
	}
	return out
}

// verify one root: first with little time for each loop invariant, then, if that fails, with more.
func (s *Session) verify(r *Root) *RootResult {
	res, gaveUp := s.verifyOnce(r, true)
	ok := res.unsup == "" && !res.vacuous
	for _, o := range res.obls {
		ok = ok && o.ok
	}
	if ok || !gaveUp {
		return res
	}
	t := res.secs
	res, _ = s.verifyOnce(r, false)
	res.secs += t
	return res
}

func (s *Session) verifyOnce(r *Root, hasty bool) (res *RootResult, gaveUp bool) {
	t0 := time.Now()
	res = &RootResult{root: r, used: map[string]bool{}, inl: map[string]bool{}, trusted: map[string]bool{}}
	if r.miss != "" {
		return
	}
	c := NewCtx()
	e := &Exec{hasty: hasty, gaveUp: map[string]bool{}, c: c, prog: s.prog, specs: s.specs, solver: s.solver, sess: s, root: r.key, fn: r.fn, con: r.con,
		birth: map[*Term]*Term{}, compS: map[string]Sort{}, clos: map[*Term]*Closure{}, cloOf: map[string]*Term{}, hints: map[string]*loopHint{},
		used: res.used, inl: res.inl, trusted: res.trusted, axDone: map[string]bool{}, funTab: map[string]*Term{}, noteUnsup: map[string]bool{},
		lockOwner: map[*Term]lockOwner{}, implTags: map[string]bool{}, implIfs: map[string]types.Type{}, getters: map[string]map[int64]*getter{}, rows: map[string]*Term{}, mapTypes: map[string]*types.Map{}, elTypes: map[string]types.Type{}, norm0: map[string]bool{}}
	if len(r.con.Props) > 0 {
		e.labels = r.con.Props[:1]
	}
	c.applyOpt = e.applyOpt
	defer func() {
		for _, ch := range e.pend {
			<-ch
		}
		res.obls = e.obls
		res.exits = e.exits
		gaveUp = len(e.gaveUp) > 0
		res.secs = time.Since(t0).Seconds()
		if x := recover(); x != nil {
			switch x := x.(type) {
			case unsupported:
				res.unsup = x.msg
			case specErr:
				res.unsup = "contract: " + x.msg
			default:
				if os.Getenv("GVC_PANIC") != "" {
					panic(x)
				}
				res.unsup = fmt.Sprintf("internal error: %v", x)
			}
			return
		}
		live := false
		for _, cp := range e.covers {
			if cp.ans == nil || cp.ans.res != "unsat" {
				live = true
			}
		}
		if !live && r.con.Flags["noreturn"] == "" {
			res.vacuous = true
		}
	}()
	e.runRoot(r)
	return
}

// applyOpt runs a known functional option on an options value.
func (e *Exec) applyOpt(T string, f, o *Term) *Term {
	cl, ok := e.clos[f]
	if !ok || cl.fn.Blocks == nil || len(cl.fn.Params) != 1 || cl.vals == nil && len(cl.bind) > 0 {
		return nil
	}
	PT := deref(cl.fn.Params[0].Type())
	if typeName(PT) != T {
		return nil
	}
	st := newState()
	st.alloc = e.c.Const("alloc@opt", SInt)
	p := e.newRef(st)
	st.lobjs[p] = lobj{PT, o, "o"}
	bind := make([]Val, len(cl.bind))
	for i := range cl.bind {
		r := e.newRef(st)
		st.lobjs[r] = lobj{deref(cl.fn.FreeVars[i].Type()), cl.vals[i], ""}
		bind[i] = r
	}
	var out *Term
	n := 0
	e.spec++
	defer func() { e.spec-- }()
	fr := e.newFrame(cl.fn, nil, "opt", func(s *State, _ []Val) {
		n++
		if ob, ok := s.lobjs[p]; ok {
			out = ob.val
		}
	})
	e.set(st, fr, cl.fn.Params[0], p)
	for i, fv := range cl.fn.FreeVars {
		e.set(st, fr, fv, bind[i])
	}
	e.run(fr, cl.fn.Blocks[0], nil, st)
	if n != 1 {
		return nil
	}
	return out
}

func (e *Exec) paramName(con *Contract, i int, p *ssa.Parameter) string { return p.Name() }

func (e *Exec) runRoot(r *Root) {
	c := e.c
	e.alloc0 = c.Const("alloc@0", SInt)
	st := newState()
	st.alloc = e.alloc0
	e.assume(st, c.Le(c.Zero, e.alloc0))
	fn := r.fn
	if fn.Blocks == nil {
		e.unsup("no body")
	}
	var args []*Term
	sig := fn.Signature
	for i, p := range fn.Params {
		t := c.Const(fmt.Sprintf("p_%d_%s", i, clean(p.Name(), 20)), c.sortOf(p.Type()))
		e.assume(st, e.wf(t, p.Type(), e.alloc0))
		args = append(args, t)
		if i == 0 && sig.Recv() != nil {
			if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok {
				e.assume(st, c.Lt(c.Zero, t))
				e.recvT = t
			}
		}
	}
	var recv sval
	rest := args
	if sig.Recv() != nil {
		recv = sval{args[0], sig.Recv().Type()}
		rest = args[1:]
		if r.self != nil {
			x := e.makeIface(st, args[0], r.self)
			recv = sval{x, e.sess.ifaceType(r.con)}
			if recv.T == nil {
				recv.T = r.self
			}
			e.link(st, x, r.self, args[0])
			for _, rp := range e.specs.Reps {
				if T, err := rp.File.resolveType(rp.Typ); err == nil && types.Identical(T, r.self) {
					e.rep, e.repSelf, e.repRecv, e.repTyp = rp, x, args[0], r.self
					for _, cl := range rp.Req {
						v := &Env{e: e, st: st, file: rp.File, alloc: e.alloc0, vars: map[string]sval{rp.Recv: {args[0], r.self}}}
						e.assume(st, e.evalClause(v, cl))
					}
				}
			}
		}
	}
	env := e.contractEnv(st, r.con, sig, recv, rest)
	env.alloc = e.alloc0
	e.env0 = env
	for _, ax := range e.specs.Lemmas {
		for _, f := range e.specs.Files {
			if f.Path == ax.Comp {
				v := &Env{e: e, st: st, file: f, alloc: e.alloc0, vars: map[string]sval{}}
				e.assume(st, e.evalClause(v, ax))
			}
		}
	}
	for _, rq := range r.con.Req {
		e.assume(st, e.evalClause(env, rq))
	}
	entrySt := st.clone()
	if r.con.Step != nil {
		e.setupStep(r, env)
	}
	e.fr0 = func(s *State, p string) { e.frame(r, sig, recv, rest, entrySt, s, p) }
	fr := e.newFrame(fn, nil, funcName(fn), func(s *State, res []Val) { e.exit(r, sig, recv, rest, entrySt, s, res) })
	for i, p := range fn.Params {
		e.set(st, fr, p, args[i])
	}
	if e.labels == nil {
		e.labels = []string{"C00"}
	}
	e.run(fr, fn.Blocks[0], nil, st)
}

// exit checks the postconditions where a root returns.
func (e *Exec) exit(r *Root, sig *types.Signature, recv sval, args []*Term, entry, st *State, res []Val) {
	c := e.c
	if len(st.loops) > 0 && st.loops[len(st.loops)-1].dry {
		return
	}
	e.exits++
	if e.spec > 0 {
		return
	}
	p := e.pos(e.fn.Pos())
	// is the end reachable at all
	q := c.Query(st.pc, c.False)
	cp := &coverPt{desc: "exit"}
	ch := make(chan struct{})
	e.covers = append(e.covers, cp)
	e.pend = append(e.pend, ch)
	go func() {
		cp.ans = e.solver.Check(q, true)
		close(ch)
	}()
	for _, k := range st.lockKeys() {
		if st.locks[k] != 0 {
			e.checkL(st, c.False, "lock", "returns while holding a lock", p, "C12")
		}
	}
	rts := make([]*Term, len(res))
	for i, x := range res {
		t := e.terms(st, []Val{x}, p)[0]
		e.escape(st, t)
		rts[i] = t
		if tn, ok := st.taint[t]; ok {
			if _, isI := sig.Results().At(i).Type().Underlying().(*types.Interface); !isI {
				e.checkL(st, c.Eq(t, c.zero(sig.Results().At(i).Type())), "guard", "returns the guarded "+tn.what, p, "C12")
			}
		}
	}
	post := e.contractEnv(st, r.con, sig, recv, args)
	post.oldC = st.oldC
	post.alloc = e.alloc0
	post.evs = st.events
	post.relC = st.relC
	names := resultNames(r.con, len(res))
	for i, n := range names {
		post.vars[n] = sval{rts[i], sig.Results().At(i).Type()}
	}
	for _, en := range r.con.Ens {
		t := e.evalClause(post, en)
		e.check(st, t, "ensures", "postcondition: "+en.Text, p, en.Labels, en.ID)
	}
	if r.con.Step != nil {
		e.exitStep(r, post, st, rts)
	}
	// lock invariants of new objects
	for i, t := range rts {
		T := sig.Results().At(i).Type()
		if _, ok := T.Underlying().(*types.Pointer); !ok {
			continue
		}
		if len(e.specs.Monitors[typeName(deref(T))]) == 0 {
			continue
		}
		if v, ok := e.known(st, c.Eq(t, c.Zero)); ok && v {
			continue
		}
		for _, m := range e.monitor(st, t, deref(T)) {
			e.check(st, c.Imp(c.Lt(e.alloc0, t), m.t), "monitor", "lock invariant of the new object: "+m.cl.Text, p, m.cl.Labels, m.cl.ID)
		}
	}
	if !r.auto {
		e.frame(r, sig, recv, args, entry, st, p)
	}
}

func (st *State) lockKeys() []*Term {
	var out []*Term
	for k := range st.locks {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// frame checks that nothing else changed.
func (e *Exec) frame(r *Root, sig *types.Signature, recv sval, args []*Term, entry, st *State, p string) {
	if r.con.Flags["noframe"] != "" || r.con.Step != nil {
		return
	}
	pre := e.contractEnv(st, r.con, sig, recv, args)
	pre.comps = st.oldC
	pre.oldC = st.oldC
	pre.alloc = e.alloc0
	ts := pre.targets(r.con)
	if e.rep != nil {
		v := &Env{e: e, st: st, file: e.rep.File, comps: st.oldC, oldC: st.oldC, alloc: e.alloc0, vars: map[string]sval{e.rep.Recv: {e.repRecv, e.repTyp}}}
		ts = append(ts, v.targets(&Contract{Key: r.con.Key, Mod: e.rep.Mod})...)
	}
	e.frameCheck(st, st.oldC, st.comps, ts, "changes only what its contract says", p)
}

func (e *Exec) frameCheck(st *State, oldC, newC map[string]*Term, ts []target, what, p string) {
	c := e.c
	al := e.alloc0
	if st.oldA != nil {
		al = st.oldA
	}
	var names []string
	for n := range newC {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		cur := newC[n]
		old, ok := oldC[n]
		if !ok {
			old = e.comp0(n, e.compS[n])
		}
		if cur == old {
			continue
		}
		ks, _ := splitArr(cur.Sort)
		k := c.Fresh("any", ks)
		var ok2 []*Term
		for _, t := range ts {
			if t.comp != n {
				continue
			}
			switch {
			case t.all:
				ok2 = append(ok2, c.True)
			case t.pred != nil:
				ok2 = append(ok2, t.pred(k))
			default:
				ok2 = append(ok2, c.Eq(k, t.ref))
			}
		}
		if ks == SInt {
			ok2 = append(ok2, c.Lt(al, k), c.Eq(k, c.Zero)) // nothing is stored at nil
		}
		if ks == SIface {
			ok2 = append(ok2, c.Lt(al, c.Sel(k, 1)))
		}
		a, b := c.Select(cur, k), c.Select(old, k)
		var eq *Term
		if isArr(a.Sort) {
			eq = c.ArrEq(a, b)
		} else {
			eq = c.Eq(a, b)
		}
		e.check(st, c.Or(append(ok2, eq)...), "frame", what+" ("+n+")", p, nil, "")
	}
}

// --- bulk operations as repeated single operations ---

func (e *Exec) setupStep(r *Root, env *Env) {
	step := r.con.Step
	mcon := e.stepContract(r)
	e.onLoop = func(lc *loopCtx) {
		// nothing has happened before the loop
		old := lc.entry.oldC
		e.labelled(step.Labels, func() {
			e.frameCheck(lc.entry, old, lc.entry.comps, nil, "changes nothing before the first "+step.Comp, "")
		})
	}
	e.onStep = func(lc *loopCtx, s *State) {
		e.stepEnsures(r, mcon, env, lc, s, e.c.NilI, "each step is one "+step.Comp)
		e.used[mcon.Key] = true
	}
}

func (e *Exec) labelled(l []string, f func()) {
	save := e.labels
	if l != nil {
		e.labels = l
	}
	f()
	e.labels = save
}

func (e *Exec) stepContract(r *Root) *Contract {
	k := shortPkg(r.con.File.Pkg.Path()) + "." + r.con.Step.Comp
	con := e.specs.Funcs[k]
	if con == nil {
		e.unsup("loopstep: no contract %s", k)
	}
	return con
}

// stepEnsures: from the loop header to s, the single operation was done.
func (e *Exec) stepEnsures(r *Root, mcon *Contract, env *Env, lc *loopCtx, s *State, err *Term, what string) {
	c := e.c
	step := r.con.Step
	fn := e.prog.funcs[mcon.Key]
	if fn == nil {
		e.unsup("loopstep: no function %s", mcon.Key)
	}
	sig := fn.Signature
	pe := *env
	pe.st = s
	pe.comps = lc.hst.comps
	pe.cnt = lc.cnt
	var args []*Term
	for i, x := range step.Locs {
		v := pe.coerce(pe.eval(x), sig.Params().At(i).Type())
		args = append(args, v.t)
	}
	post := e.contractEnv(s, mcon, sig, env.vars[r.con.Recv], args)
	post.oldC = lc.hst.comps
	post.alloc = lc.hst.alloc
	post.evs = s.events[len(lc.hst.events):]
	for i, n := range resultNames(mcon, sig.Results().Len()) {
		post.vars[n] = sval{err, sig.Results().At(i).Type()}
	}
	// the index is in range
	n := pe.eval(step.E)
	e.check(s, c.And(c.Le(c.Zero, lc.cnt), c.Lt(lc.cnt, n.t)), "step", what+": index in range", "", step.Labels, "")
	for _, en := range mcon.Ens {
		t := e.evalClause(post, en)
		e.check(s, t, "step", what+": "+en.Text, "", step.Labels, step.ID)
	}
	pre := e.contractEnv(s, mcon, sig, env.vars[r.con.Recv], args)
	pre.comps = lc.hst.comps
	pre.oldC = lc.hst.comps
	pre.alloc = lc.hst.alloc
	ts := pre.targets(mcon)
	save := s.oldA
	s.oldA = lc.hst.alloc
	e.labelled(step.Labels, func() { e.frameCheck(s, lc.hst.comps, s.comps, ts, what+" and nothing else", "") })
	s.oldA = save
}

func (e *Exec) exitStep(r *Root, post *Env, st *State, res []*Term) {
	c := e.c
	step := r.con.Step
	err := res[len(res)-1]
	pe := *e.env0
	pe.st = st
	pe.comps = st.oldC
	n := pe.eval(step.E).t
	e.labelled(step.Labels, func() {
		if st.exit == nil {
			e.check(st, c.Or(c.Eq(n, c.Zero)), "step", "returns without doing any "+step.Comp, "", step.Labels, step.ID)
			return
		}
		lc := st.exit.lc
		if st.exit.body {
			mcon := e.stepContract(r)
			e.check(st, c.Ne(err, c.NilI), "step", "stops early only with an error", "", step.Labels, step.ID)
			e.stepEnsures(r, mcon, e.env0, lc, st, err, "the failing step is one "+step.Comp)
			return
		}
		e.check(st, c.Eq(lc.cnt, n), "step", "all the elements are processed", "", step.Labels, step.ID)
		e.check(st, c.Eq(err, c.NilI), "step", "no error at the end", "", step.Labels, step.ID)
		save := st.oldA
		st.oldA = lc.hst.alloc
		e.frameCheck(st, lc.hst.comps, st.comps, nil, "changes nothing after the last "+step.Comp, "")
		st.oldA = save
	})
}

func (e *Exec) goExit(st *State, f *ssa.Function, p string) {
	if e.onGoExit != nil {
		e.onGoExit(st, f, p)
	}
}

var _ = token.NoPos
