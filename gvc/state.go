package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is what an SSA register holds: *Term, *Addr, Tuple, *RangeIt.
type Val interface{}

type Tuple []Val

// Addr is an interior address: a place inside an object or an array.
type Addr struct {
	base *Term
	elem bool       // element of a backing array
	idx  *Term      // when elem
	T    types.Type // type of the object (or of the element)
	path []step
}

type step struct {
	field int
	idx   *Term // array index
	isIdx bool
}

// RangeIt is a map iteration.
type RangeIt struct {
	mt     *types.Map
	m      *Term
	start  *Term // domain at start
	card   *Term
	startD map[string]*Term
	n      *Term
	key    func(*Term) *Term
	idx    func(*Term) *Term
	name   string
}

// Closure is a function value.
type Closure struct {
	fn   *ssa.Function
	bind []Val
	vals []*Term // values of the captured variables when they never change
}

type regKey struct {
	fr int
	v  ssa.Value
}

type lobj struct {
	typ  types.Type
	val  *Term
	name string
}

// Event is a recorded effect on the outside.
type Event struct {
	kind  string
	args  []*Term
	typs  []types.Type
	res   []*Term
	rtyps []types.Type
	loop  bool // stands for any number of events of the kind
	lock  map[*Term]int
	st    map[string]*Term
}

type deferred struct {
	call ssa.CallCommon
	fn   Val
	args []Val
	in   *ssa.Defer
}

// State is a symbolic state on one path.
type State struct {
	comps  map[string]*Term
	regs   map[regKey]Val
	lobjs  map[*Term]lobj
	alloc  *Term
	pc     []*Term
	pcs    map[*Term]bool
	locks  map[*Term]int
	rel    map[*Term]*relPoint // state at the last release of a lock
	acq    map[*Term]map[string]*Term
	events []*Event
	defers map[int][]deferred
	loops  []*loopCtx
	oldC   map[string]*Term // components that old() refers to
	oldA   *Term
	relC   map[string]*Term // components at the first release
	taint  map[*Term]taint
	role   map[*Term]bool
	fresh  map[*Term]bool // channels made on this path
	lasts  map[string]*Term
	exit   *loopExit
}

type relPoint struct{ alloc *Term }

type taint struct {
	mu    *Term // lock key
	what  string
	deep  bool             // an object (not a map or slice) used through its methods
	owner *Term            // the object a lazy result reads from
	rows  map[string]*Term // what it held when the result was made
}

func newState() *State {
	return &State{comps: map[string]*Term{}, regs: map[regKey]Val{}, lobjs: map[*Term]lobj{}, pcs: map[*Term]bool{}, locks: map[*Term]int{}, rel: map[*Term]*relPoint{}, acq: map[*Term]map[string]*Term{}, defers: map[int][]deferred{}, oldC: map[string]*Term{}, taint: map[*Term]taint{}, role: map[*Term]bool{}, fresh: map[*Term]bool{}, lasts: map[string]*Term{}}
}

func (s *State) clone() *State {
	n := *s
	n.comps = make(map[string]*Term, len(s.comps))
	for k, v := range s.comps {
		n.comps[k] = v
	}
	n.regs = make(map[regKey]Val, len(s.regs)+8)
	for k, v := range s.regs {
		n.regs[k] = v
	}
	n.lobjs = make(map[*Term]lobj, len(s.lobjs))
	for k, v := range s.lobjs {
		n.lobjs[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.pcs = make(map[*Term]bool, len(s.pcs)+8)
	for k := range s.pcs {
		n.pcs[k] = true
	}
	n.locks = make(map[*Term]int)
	for k, v := range s.locks {
		n.locks[k] = v
	}
	n.rel = make(map[*Term]*relPoint)
	for k, v := range s.rel {
		n.rel[k] = v
	}
	n.acq = make(map[*Term]map[string]*Term)
	for k, v := range s.acq {
		n.acq[k] = v
	}
	n.events = s.events[:len(s.events):len(s.events)]
	n.defers = make(map[int][]deferred)
	for k, v := range s.defers {
		n.defers[k] = v[:len(v):len(v)]
	}
	n.loops = s.loops[:len(s.loops):len(s.loops)]
	n.taint = make(map[*Term]taint, len(s.taint))
	for k, v := range s.taint {
		n.taint[k] = v
	}
	n.role = make(map[*Term]bool)
	for k := range s.role {
		n.role[k] = true
	}
	n.fresh = make(map[*Term]bool)
	for k := range s.fresh {
		n.fresh[k] = true
	}
	n.lasts = make(map[string]*Term)
	for k, v := range s.lasts {
		n.lasts[k] = v
	}
	return &n
}

// Obl is a proof obligation.
type Obl struct {
	Name    string
	Labels  []string
	Kind    string
	Desc    string
	Pos     string
	Clause  string
	ans     *answer
	triv    bool
	ok      bool
	ms      int
	goal    string
	nAssume int
}

// Exec verifies one root.
type Exec struct {
	rep       *Rep // of the implementation under verification
	repSelf   *Term
	repRecv   *Term
	repTyp    types.Type
	hasty     bool            // little time for the invariants of the contract
	gaveUp    map[string]bool // invariants that were not settled
	fr0       func(st *State, p string)
	goC       map[string]*Term // components when the goroutine now looked at was started
	c         *Ctx
	prog      *Prog
	specs     *Specs
	solver    *Solver
	sess      *Session
	root      string
	fn        *ssa.Function
	con       *Contract
	labels    []string // default labels
	obls      []*Obl
	spec      int
	nframe    int
	alloc0    *Term
	birth     map[*Term]*Term // component constant -> watermark
	compS     map[string]Sort
	clos      map[*Term]*Closure
	cloOf     map[string]*Term
	hints     map[string]*loopHint
	used      map[string]bool // contracts used
	inl       map[string]bool // functions inlined
	trusted   map[string]bool // extern contracts / intrinsics used
	steps     int
	depth     int
	axDone    map[string]bool
	pend      []chan struct{}
	env0      *Env
	exits     int
	lockFoot  bool
	funTab    map[string]*Term
	noteUnsup map[string]bool
	implTags  map[string]bool
	implIfs   map[string]types.Type
	covers    []*coverPt
	getters   map[string]map[int64]*getter
	inGetter  int
	learning  int // an outer loop's effects are being collected
	inGo      int
	recvT     *Term
	rows      map[string]*Term
	mapTypes  map[string]*types.Map
	elTypes   map[string]types.Type
	norm0     map[string]bool
	lockOwner map[*Term]lockOwner
	onStep    func(lc *loopCtx, st *State)
	onLoop    func(lc *loopCtx)
	onGoExit  func(st *State, f *ssa.Function, p string)
}

type lockOwner struct {
	ref *Term
	T   types.Type
}

type coverPt struct {
	desc string
	ans  *answer
}

type unsupported struct{ msg string }

func (e *Exec) unsup(format string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

func (e *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.prog.ssa.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, repoDir+"/"), q.Line)
}

// assume adds a fact.
func (e *Exec) assume(st *State, t *Term) {
	if t == e.c.True || st.pcs[t] {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			e.assume(st, a)
		}
		return
	}
	if t.Op == "=>" {
		if st.pcs[t.Args[0]] {
			e.assume(st, t.Args[1])
			return
		}
	}
	st.pcs[t] = true
	st.pc = append(st.pc, t)
}

// known looks a fact up in the path condition.
func (e *Exec) known(st *State, t *Term) (bool, bool) {
	if t == e.c.True || st.pcs[t] {
		return true, true
	}
	n := e.c.Not(t)
	if t == e.c.False || st.pcs[n] {
		return false, true
	}
	if t.Op == "and" {
		all := true
		for _, a := range t.Args {
			v, ok := e.known(st, a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	if t.Op == "or" {
		all := true
		for _, a := range t.Args {
			v, ok := e.known(st, a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

// check records an obligation.
func (e *Exec) check(st *State, goal *Term, kind, desc, pos string, labels []string, clause string) {
	if e.spec > 0 {
		return
	}
	if labels == nil {
		labels = e.labels
	}
	o := &Obl{Name: fmt.Sprintf("%s#%d", e.root, len(e.obls)), Labels: labels, Kind: kind, Desc: desc, Pos: pos, Clause: clause}
	e.obls = append(e.obls, o)
	if goal == e.c.True || st.pcs[goal] {
		o.triv, o.ok = true, true
		return
	}
	// split conjunctions so that each part is a small query
	if goal.Op == "and" {
		e.obls = e.obls[:len(e.obls)-1]
		for _, g := range goal.Args {
			e.check(st, g, kind, desc, pos, labels, clause)
		}
		return
	}
	o.goal = show(goal)
	o.nAssume = len(st.pc)
	q := e.c.Query(st.pc, goal)
	o.ans = &answer{done: make(chan struct{})}
	ch := make(chan struct{})
	e.pend = append(e.pend, ch)
	go func() {
		a := e.solver.Check(q, false)
		o.ans = a
		o.ok = a.res == "unsat"
		close(ch)
	}()
}

// prove asks a quick question now.
func (e *Exec) prove(st *State, goal *Term) bool {
	if v, ok := e.known(st, goal); ok {
		return v
	}
	if e.inGetter > 0 {
		return false
	}
	q := e.c.Query(st.pc, goal)
	return e.solver.Check(q, true).res == "unsat"
}

// require checks a safety condition and then assumes it.
func (e *Exec) require(st *State, goal *Term, kind, desc, pos string) {
	e.check(st, goal, kind, desc, pos, nil, "")
	e.assume(st, goal)
}

// --- heap ---

func (e *Exec) comp(st *State, name string, s Sort) *Term {
	if t, ok := st.comps[name]; ok {
		return t
	}
	return e.comp0(name, s)
}

// comp0 is the version of a component at function entry.
func (e *Exec) comp0(name string, s Sort) *Term {
	e.compS[name] = s
	t := e.newComp(name, name+"@0", s, e.alloc0)
	if strings.HasPrefix(name, "MV:") && !e.norm0[name] {
		e.norm0[name] = true
		if d := "MD:" + name[3:]; e.mapTypes[d] != nil {
			e.c.symAx[t.Op] = append(e.c.symAx[t.Op], e.normal(e.comp0(d, e.compS[d]), t, e.mapTypes[d]))
		}
	}
	return t
}

// normal: absent keys are bound to the zero value.
func (e *Exec) normal(D, V *Term, m *types.Map) *Term {
	c := e.c
	ks, _ := splitArr(rowSort(V.Sort))
	r, k := c.BV("r", SInt), c.BV("k", ks)
	v := c.Select(c.Select(V, r), k)
	return c.Forall([]*Term{r, k}, [][]*Term{{v}}, c.Or(c.Select(c.Select(D, r), k), c.Eq(v, c.zero(m.Elem()))))
}

func (e *Exec) normalRow(D, V *Term, m *types.Map) *Term {
	c := e.c
	ks, _ := splitArr(V.Sort)
	k := c.BV("k", ks)
	v := c.Select(V, k)
	return c.Forall([]*Term{k}, [][]*Term{{v}}, c.Or(c.Select(D, k), c.Eq(v, c.zero(m.Elem()))))
}

// normalise assumes the normal form of the maps among the components just havoced.
func (e *Exec) normalise(st *State, names []string) {
	for _, n := range names {
		if !strings.HasPrefix(n, "MV:") {
			continue
		}
		d := "MD:" + n[3:]
		m := e.mapTypes[d]
		if m == nil {
			e.unsup("map component %s", n)
		}
		V := st.comps[n]
		if V == nil || len(V.Args) > 0 {
			continue
		}
		e.assume(st, e.normal(e.comp(st, d, e.compS[d]), V, m))
	}
}

func (e *Exec) oldComp(st *State, name string, s Sort) *Term {
	if t, ok := st.oldC[name]; ok {
		return t
	}
	return e.comp0(name, s)
}

// newComp makes a base version of a component, with the axioms every version satisfies.
func (e *Exec) newComp(name, cname string, s Sort, birth *Term) *Term {
	t := e.c.Const(cname, s)
	if _, ok := e.birth[t]; ok {
		return t
	}
	e.birth[t] = birth
	e.compAx(name, t, s, birth)
	return t
}

func (e *Exec) compAx(name string, t *Term, s Sort, birth *Term) {
	c := e.c
	k, v := splitArr(s)
	add := func(ax *Term) { c.symAx[t.Op] = append(c.symAx[t.Op], ax) }
	kind := name[:strings.Index(name, ":")]
	switch kind {
	case "F", "C":
		r := c.BV("r", k)
		sel := c.Select(t, r)
		if ax := e.wfLeaf(name, sel, birth); ax != c.True {
			if k == SInt {
				ax = c.Imp(c.Le(r, birth), ax)
			}
			add(c.Forall([]*Term{r}, [][]*Term{{sel}}, ax))
		}
	case "MD":
		_, _ = k, v
		add(c.Eq(c.Select(t, c.Zero), c.ConstArr(v, c.False)))
	case "MC":
		add(c.Eq(c.Select(t, c.Zero), c.Zero))
		r := c.BV("r", SInt)
		add(c.Forall([]*Term{r}, [][]*Term{{c.Select(t, r)}}, c.Le(c.Zero, c.Select(t, r))))
	case "MV", "EL":
		r := c.BV("r", SInt)
		kk, _ := splitArr(v)
		j := c.BV("k", kk)
		sel := c.Select(c.Select(t, r), j)
		if ax := e.wfLeaf(name, sel, birth); ax != c.True {
			add(c.Forall([]*Term{r, j}, [][]*Term{{sel}}, c.Imp(c.Le(r, birth), ax)))
		}
		if kind == "MV" {
			add(c.Eq(c.Select(t, c.Zero), c.ConstArr(v, e.c.zeroOf(v))))
			// absent keys read as the zero value
		}
	}
}

func (c *Ctx) zeroOf(arr Sort) *Term {
	_, v := splitArr(arr)
	if d := c.dts[v]; d != nil && v != SIface && v != SSlice {
		args := make([]*Term, len(d.Sels))
		for i := range args {
			args[i] = c.zeroAny(d.FSorts[i])
		}
		return c.Ctor(v, args...)
	}
	return c.zeroSort(v)
}

func (c *Ctx) zeroAny(s Sort) *Term {
	if d := c.dts[s]; d != nil && s != SIface && s != SSlice {
		args := make([]*Term, len(d.Sels))
		for i := range args {
			args[i] = c.zeroAny(d.FSorts[i])
		}
		return c.Ctor(s, args...)
	}
	return c.zeroSort(s)
}

// isRefComp says whether the leaves of a component are references.
func (e *Exec) wfLeaf(name string, t *Term, birth *Term) *Term {
	c := e.c
	switch t.Sort {
	case SInt:
		if e.sess.isRef(name) {
			return c.And(c.Le(c.Zero, t), c.Le(t, birth))
		}
	case SIface:
		return c.Le(c.Sel(t, 1), birth)
	case SSlice:
		return c.And(c.Le(c.Zero, c.Sel(t, 0)), c.Le(c.Sel(t, 0), birth), c.Le(c.Zero, c.Sel(t, 1)), c.Le(c.Sel(t, 1), c.Sel(t, 2)), c.Imp(c.Lt(c.Zero, c.Sel(t, 2)), c.Lt(c.Zero, c.Sel(t, 0))))
	default:
		if c.dts[t.Sort] != nil {
			var T types.Type
			if strings.HasPrefix(name, "MV:") {
				if m := e.mapTypes["MD:"+name[3:]]; m != nil {
					T = m.Elem()
				}
			} else if strings.HasPrefix(name, "EL:") {
				T = e.elTypes[name]
			}
			if T != nil {
				return e.wf(t, T, birth)
			}
		}
	}
	return c.True
}

// wf are the facts every value of a Go type satisfies.
func (e *Exec) wf(t *Term, typ types.Type, bound *Term) *Term {
	c := e.c
	switch u := typ.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return c.And(c.Le(c.Zero, t), c.Le(t, bound))
	case *types.Interface:
		f := c.And(c.Le(c.Sel(t, 1), bound), c.Le(c.Zero, c.Sel(t, 0)), c.Imp(c.Eq(c.Sel(t, 0), c.Zero), c.Eq(c.Sel(t, 1), c.Zero)))
		if u.NumMethods() > 0 {
			f = c.And(f, c.Or(c.Eq(c.Sel(t, 0), c.Zero), e.impl(typ, c.Sel(t, 0))))
		}
		return f
	case *types.Slice:
		return c.And(c.Le(c.Zero, c.Sel(t, 0)), c.Le(c.Sel(t, 0), bound), c.Le(c.Zero, c.Sel(t, 1)), c.Le(c.Sel(t, 1), c.Sel(t, 2)), c.Imp(c.Lt(c.Zero, c.Sel(t, 2)), c.Lt(c.Zero, c.Sel(t, 0))))
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			return c.Le(c.Zero, t)
		}
	case *types.Struct:
		if isLockType(typ) {
			return c.True
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, e.wf(c.Sel(t, i), u.Field(i).Type(), bound))
		}
		return c.And(fs...)
	}
	return c.True
}

// base is the constant below a chain of stores and selects.
func baseOf(t *Term) *Term {
	for len(t.Args) > 0 {
		switch t.Op {
		case "store", "select":
			t = t.Args[0]
		default:
			return nil
		}
	}
	return t
}

// boundOf is a watermark that limits references loaded as t.
func (e *Exec) boundOf(st *State, t *Term) *Term {
	if b := baseOf(t); b != nil {
		if w, ok := e.birth[b]; ok {
			return w
		}
	}
	return st.alloc
}

func (e *Exec) structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (e *Exec) fieldComp(T types.Type, i int) (string, bool, Sort, types.Type) {
	s := e.structOf(T)
	f := s.Field(i)
	tn := typeName(T)
	name := "F:" + tn + "." + f.Name()
	imm := e.specs.Immutable[tn+"."+f.Name()]
	if !imm && f.Embedded() {
		imm = e.specs.Immutable[tn+".*"+f.Name()]
	}
	if isRefType(f.Type()) {
		e.sess.setRef(name)
	}
	return name, imm, e.c.sortOf(f.Type()), f.Type()
}

// readField reads field i of the T object at ref.
func (e *Exec) readField(st *State, comps map[string]*Term, ref *Term, T types.Type, i int) *Term {
	if comps == nil {
		if o, ok := st.lobjs[ref]; ok {
			return e.c.Sel(o.val, i)
		}
	}
	name, imm, s, _ := e.fieldComp(T, i)
	if imm {
		return e.immFun(name, ref, s)
	}
	var h *Term
	if comps != nil {
		var ok bool
		if h, ok = comps[name]; !ok {
			h = e.comp0(name, ArrSort(SInt, s))
		}
	} else {
		h = e.comp(st, name, ArrSort(SInt, s))
	}
	e.compS[name] = ArrSort(SInt, s)
	return e.c.Select(h, ref)
}

func (e *Exec) immFun(name string, ref *Term, s Sort) *Term {
	fn := "I" + name[1:]
	t := e.c.App(fn, s, ref)
	if !e.axDone[fn] {
		e.axDone[fn] = true
		// old objects only refer to old objects
		r := e.c.BV("r", SInt)
		sel := e.c.App(fn, s, r)
		if ax := e.wfLeaf(name, sel, e.alloc0); ax != e.c.True {
			op := symq(fn)
			e.c.symAx[op] = append(e.c.symAx[op], e.c.Forall([]*Term{r}, [][]*Term{{sel}}, e.c.Imp(e.c.Le(r, e.alloc0), ax)))
		}
	}
	return t
}

func (e *Exec) cellComp(T types.Type) (string, bool, Sort) {
	name := "C:" + typeName(T)
	if isRefType(T) {
		e.sess.setRef(name)
	}
	return name, e.specs.Immutable["*"+typeName(T)], e.c.sortOf(T)
}

// readObj reads the whole object at ref.
func (e *Exec) readObj(st *State, comps map[string]*Term, ref *Term, T types.Type) *Term {
	if comps == nil {
		if o, ok := st.lobjs[ref]; ok {
			return o.val
		}
	}
	if s := e.structOf(T); s != nil && !isLockType(T) {
		sort := e.c.sortOf(T)
		args := make([]*Term, s.NumFields())
		for i := range args {
			if isLockType(s.Field(i).Type()) {
				args[i] = e.c.Zero
				continue
			}
			args[i] = e.readField(st, comps, ref, T, i)
		}
		return e.c.Ctor(sort, args...)
	}
	name, imm, s := e.cellComp(T)
	if imm {
		return e.immFun(name, ref, s)
	}
	e.compS[name] = ArrSort(SInt, s)
	if comps != nil {
		h, ok := comps[name]
		if !ok {
			h = e.comp0(name, ArrSort(SInt, s))
		}
		return e.c.Select(h, ref)
	}
	return e.c.Select(e.comp(st, name, ArrSort(SInt, s)), ref)
}

func (e *Exec) setComp(st *State, name string, t *Term) { st.comps[name] = t }

// writeField stores to a field of a heap object.
func (e *Exec) writeField(st *State, ref *Term, T types.Type, i int, v *Term, pos string) {
	if o, ok := st.lobjs[ref]; ok {
		o.val = e.c.Upd(o.val, i, v)
		st.lobjs[ref] = o
		return
	}
	name, imm, s, ft := e.fieldComp(T, i)
	e.escape(st, v)
	if imm {
		e.check(st, e.c.Eq(e.immFun(name, ref, s), v), "immutable", "store to immutable field "+name[2:], pos, nil, "")
		return
	}
	if isLockType(ft) {
		return
	}
	h := e.comp(st, name, ArrSort(SInt, s))
	e.setRole(st, v, name, ft)
	e.compS[name] = ArrSort(SInt, s)
	e.setComp(st, name, e.c.Store(h, ref, v))
}

func (e *Exec) writeObj(st *State, ref *Term, T types.Type, v *Term, pos string) {
	if o, ok := st.lobjs[ref]; ok {
		o.val = v
		st.lobjs[ref] = o
		return
	}
	if s := e.structOf(T); s != nil && !isLockType(T) {
		for i := 0; i < s.NumFields(); i++ {
			e.writeField(st, ref, T, i, e.c.Sel(v, i), pos)
		}
		return
	}
	name, imm, s := e.cellComp(T)
	e.escape(st, v)
	if imm {
		e.check(st, e.c.Eq(e.immFun(name, ref, s), v), "immutable", "store to immutable cell "+name[2:], pos, nil, "")
		return
	}
	h := e.comp(st, name, ArrSort(SInt, s))
	e.compS[name] = ArrSort(SInt, s)
	e.setComp(st, name, e.c.Store(h, ref, v))
}

// newRef allocates.
func (e *Exec) newRef(st *State) *Term {
	st.alloc = e.c.Add(st.alloc, e.c.One)
	return st.alloc
}

// escape makes every local object mentioned in v a heap object.
func (e *Exec) escape(st *State, v *Term) {
	if len(st.lobjs) == 0 {
		return
	}
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if _, ok := st.lobjs[t]; ok {
			e.publish(st, t)
		}
		if cl, ok := e.clos[t]; ok {
			for _, b := range cl.bind {
				if bt, ok := b.(*Term); ok {
					rec(bt)
				}
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(v)
}

// publish moves a local object to the heap.
func (e *Exec) publish(st *State, ref *Term) {
	o, ok := st.lobjs[ref]
	if !ok {
		return
	}
	delete(st.lobjs, ref)
	c := e.c
	if s := e.structOf(o.typ); s != nil && !isLockType(o.typ) {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isLockType(ft) {
				continue
			}
			v := c.Sel(o.val, i)
			e.escape(st, v)
			name, imm, so, _ := e.fieldComp(o.typ, i)
			e.setRole(st, v, name, ft)
			if imm {
				e.assume(st, c.Eq(e.immFun(name, ref, so), v))
				continue
			}
			h := e.comp(st, name, ArrSort(SInt, so))
			e.compS[name] = ArrSort(SInt, so)
			e.setComp(st, name, c.Store(h, ref, v))
		}
		return
	}
	if at, ok := o.typ.Underlying().(*types.Array); ok {
		e.escape(st, o.val)
		name, s := e.elComp(at.Elem())
		e.setComp(st, name, c.Store(e.comp(st, name, s), ref, o.val))
		return
	}
	if isLockType(o.typ) {
		return
	}
	e.escape(st, o.val)
	name, imm, so := e.cellComp(o.typ)
	if imm {
		e.assume(st, c.Eq(e.immFun(name, ref, so), o.val))
		return
	}
	h := e.comp(st, name, ArrSort(SInt, so))
	e.compS[name] = ArrSort(SInt, so)
	e.setComp(st, name, c.Store(h, ref, o.val))
}

// setRole records where a fresh channel is first kept.
func (e *Exec) setRole(st *State, v *Term, name string, ft types.Type) {
	if _, ok := ft.Underlying().(*types.Chan); ok {
		if st.fresh[v] && !st.role[v] {
			st.role[v] = true
			e.assume(st, e.c.Eq(e.c.App("chanrole", SInt, v), e.roleOf(name[2:])))
		}
		return
	}
	if s := e.structOf(ft); s != nil && !isLockType(ft) {
		for i := 0; i < s.NumFields(); i++ {
			e.setRole(st, e.c.Sel(v, i), "F:"+typeName(ft)+"."+s.Field(i).Name(), s.Field(i).Type())
		}
	}
}

func (e *Exec) roleOf(name string) *Term {
	k := "role:" + name
	if _, ok := e.c.tags[k]; !ok {
		e.c.tags[k] = len(e.c.tags) + 1000
	}
	return e.c.Int(int64(e.c.tags[k]))
}

func (e *Exec) elComp(T types.Type) (string, Sort) {
	name := "EL:" + typeName(T)
	if isRefType(T) {
		e.sess.setRef(name)
	}
	s := ArrSort(SInt, ArrSort(SInt, e.c.sortOf(T)))
	e.compS[name] = s
	e.elTypes[name] = T
	return name, s
}

func (e *Exec) mapComps(m *types.Map) (d, v, n string, ds, vs, ns Sort) {
	k := typeName(m.Key()) + "|" + typeName(m.Elem())
	ks, es := e.c.sortOf(m.Key()), e.c.sortOf(m.Elem())
	d, v, n = "MD:"+k, "MV:"+k, "MC:"+k
	ds, vs, ns = ArrSort(SInt, ArrSort(ks, SBool)), ArrSort(SInt, ArrSort(ks, es)), ArrSort(SInt, SInt)
	if isRefType(m.Elem()) {
		e.sess.setRef(v)
	}
	e.compS[d], e.compS[v], e.compS[n] = ds, vs, ns
	e.mapTypes[d] = m
	return
}

func (e *Exec) getc(st *State, comps map[string]*Term, name string, s Sort) *Term {
	if comps != nil {
		if t, ok := comps[name]; ok {
			return t
		}
		return e.comp0(name, s)
	}
	return e.comp(st, name, s)
}

// --- addresses ---

func (e *Exec) addrOf(v Val, T types.Type) *Addr {
	switch v := v.(type) {
	case *Addr:
		return v
	case *Term:
		return &Addr{base: v, T: T}
	}
	e.unsup("address of %T", v)
	return nil
}

func (e *Exec) nilCheck(st *State, ref *Term, what, pos string) {
	if _, ok := st.lobjs[ref]; ok {
		return
	}
	if e.isAlloc(ref) {
		return
	}
	e.require(st, e.c.Ne(ref, e.c.Zero), "nil", "nil dereference: "+what, pos)
}

// isAlloc recognises references made on this path.
func (e *Exec) isAlloc(t *Term) bool {
	if t.Op != "+" {
		return false
	}
	n, ok := t.Args[len(t.Args)-1].isInt()
	return ok && n > 0 && len(t.Args) == 2 && strings.HasPrefix(t.Args[0].Op, "alloc")
}

func (e *Exec) loadPath(v *Term, T types.Type, path []step) (*Term, types.Type) {
	for _, s := range path {
		if s.isIdx {
			v = e.c.Select(v, s.idx)
			T = T.Underlying().(*types.Array).Elem()
			continue
		}
		T2 := e.structOf(T).Field(s.field).Type()
		v = e.c.Sel(v, s.field)
		T = T2
	}
	return v, T
}

func (e *Exec) storePath(v *Term, T types.Type, path []step, x *Term) *Term {
	if len(path) == 0 {
		return x
	}
	s := path[0]
	if s.isIdx {
		et := T.Underlying().(*types.Array).Elem()
		return e.c.Store(v, s.idx, e.storePath(e.c.Select(v, s.idx), et, path[1:], x))
	}
	ft := e.structOf(T).Field(s.field).Type()
	return e.c.Upd(v, s.field, e.storePath(e.c.Sel(v, s.field), ft, path[1:], x))
}

func (e *Exec) load(st *State, a *Addr, pos string) *Term {
	if a.elem {
		name, s := e.elComp(a.T)
		v := e.c.Select(e.c.Select(e.comp(st, name, s), a.base), a.idx)
		r, T := e.loadPath(v, a.T, a.path)
		e.assume(st, e.wf(r, T, e.boundOf(st, v)))
		return r
	}
	e.nilCheck(st, a.base, typeName(a.T), pos)
	if _, ok := st.lobjs[a.base]; ok || len(a.path) == 0 {
		v := e.readObj(st, nil, a.base, a.T)
		r, T := e.loadPath(v, a.T, a.path)
		if !ok {
			e.assume(st, e.wfLoaded(st, r, T))
		}
		return r
	}
	v := e.readField(st, nil, a.base, a.T, a.path[0].field)
	ft := e.structOf(a.T).Field(a.path[0].field).Type()
	r, T := e.loadPath(v, ft, a.path[1:])
	e.assume(st, e.wfLoaded(st, r, T))
	return r
}

func (e *Exec) wfLoaded(st *State, r *Term, T types.Type) *Term {
	return e.wf(r, T, e.boundOf(st, r))
}

func (e *Exec) store(st *State, a *Addr, v *Term, pos string) {
	if a.elem {
		name, s := e.elComp(a.T)
		h := e.comp(st, name, s)
		row := e.c.Select(h, a.base)
		e.escape(st, v)
		nv := e.storePath(e.c.Select(row, a.idx), a.T, a.path, v)
		e.setComp(st, name, e.c.Store(h, a.base, e.c.Store(row, a.idx, nv)))
		return
	}
	e.nilCheck(st, a.base, typeName(a.T), pos)
	if o, ok := st.lobjs[a.base]; ok {
		o.val = e.storePath(o.val, o.typ, a.path, v)
		st.lobjs[a.base] = o
		return
	}
	if len(a.path) == 0 {
		e.writeObj(st, a.base, a.T, v, pos)
		return
	}
	f := a.path[0].field
	cur := e.readField(st, nil, a.base, a.T, f)
	ft := e.structOf(a.T).Field(f).Type()
	e.writeField(st, a.base, a.T, f, e.storePath(cur, ft, a.path[1:], v), pos)
}

// --- type tags ---

func (e *Exec) tag(T types.Type) *Term {
	k := typeName(T)
	id, ok := e.c.tags[k]
	if !ok {
		id = len(e.c.tags) + 1
		e.c.tags[k] = id
		e.c.tagTyp = append(e.c.tagTyp, T)
		for in, I := range e.implIfs {
			e.implFact(in, I, T)
		}
	}
	return e.c.Int(int64(id))
}

func (e *Exec) implFact(in string, I types.Type, T types.Type) {
	c := e.c
	f := "impl_" + in
	v := types.Implements(T, I.Underlying().(*types.Interface))
	t := c.App(f, SBool, c.Int(int64(c.tags[typeName(T)])))
	if !v {
		t = c.Not(t)
	}
	c.symAx[symq(f)] = append(c.symAx[symq(f)], t)
}

// impl says that values with the tag implement the interface.
func (e *Exec) impl(I types.Type, tag *Term) *Term {
	c := e.c
	it := I.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return c.Ne(tag, c.Zero)
	}
	if n, ok := tag.isInt(); ok {
		if n == 0 {
			return c.False
		}
		for _, T := range c.tagTyp {
			if int64(c.tags[typeName(T)]) == n {
				return c.Bool(types.Implements(T, it))
			}
		}
	}
	in := typeName(I)
	f := "impl_" + in
	t := c.App(f, SBool, tag)
	if _, ok := e.implIfs[in]; !ok {
		e.implIfs[in] = I
		for _, T := range c.tagTyp {
			e.implFact(in, I, T)
		}
		c.symAx[symq(f)] = append(c.symAx[symq(f)], c.Not(c.App(f, SBool, c.Zero)))
		for jn, J := range e.implIfs {
			if jn == in {
				continue
			}
			jt := J.Underlying().(*types.Interface)
			x := c.BV("t", SInt)
			if types.Implements(I, jt) {
				p := c.App(f, SBool, x)
				c.guardAx = append(c.guardAx, &guardAx{need: []string{symq(f), symq("impl_" + jn)}, ax: c.Forall([]*Term{x}, [][]*Term{{p}}, c.Imp(p, c.App("impl_"+jn, SBool, x)))})
			}
			if types.Implements(J, it) {
				p := c.App("impl_"+jn, SBool, x)
				c.guardAx = append(c.guardAx, &guardAx{need: []string{symq(f), symq("impl_" + jn)}, ax: c.Forall([]*Term{x}, [][]*Term{{p}}, c.Imp(p, c.App(f, SBool, x)))})
			}
		}
	}
	return t
}

// makeIface boxes a value.
func (e *Exec) makeIface(st *State, v *Term, T types.Type) *Term {
	c := e.c
	tg := e.tag(T)
	if isRefType(T) {
		return c.Ctor(SIface, tg, v)
	}
	return c.Ctor(SIface, tg, e.box(v, T))
}

func (e *Exec) box(v *Term, T types.Type) *Term {
	c := e.c
	n := "box_" + typeName(T)
	b := c.App(n, SInt, v)
	if !e.axDone[n] {
		e.axDone[n] = true
		x := c.BV("x", v.Sort)
		bx := c.App(n, SInt, x)
		c.symAx[symq(n)] = append(c.symAx[symq(n)], c.Forall([]*Term{x}, [][]*Term{{bx}}, c.And(c.Eq(c.App("un"+n, v.Sort, bx), x), c.Le(bx, c.Int(-1000)))))
	}
	return b
}

func (e *Exec) unbox(ref *Term, T types.Type) *Term {
	if isRefType(T) {
		return ref
	}
	s := e.c.sortOf(T)
	if ref.Op == symq("box_"+typeName(T)) {
		return ref.Args[0]
	}
	return e.c.App("unbox_"+typeName(T), s, ref)
}
