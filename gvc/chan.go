package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const sClosed = "G:closed"

func (e *Exec) closedComp(st *State) *Term {
	return e.comp(st, sClosed, ArrSort(SInt, SBool))
}

// mayClose: channels of an open role are never closed.
func (e *Exec) closeChan(st *State, ch *Term, p string) {
	c := e.c
	e.require(st, c.Ne(ch, c.Zero), "close", "close of nil channel", p)
	e.require(st, c.Not(c.Select(e.closedComp(st), ch)), "close", "close of closed channel", p)
	for _, r := range sorted(e.specs.OpenRoles) {
		e.check(st, c.Ne(c.App("chanrole", SInt, ch), e.roleOf(r)), "close", "channels of "+r+" are never closed", p, nil, "")
	}
	e.onEvent(st, "close", map[string]sval{"ch": {ch, tInt}}, p)
	e.setComp(st, sClosed, c.Store(e.closedComp(st), ch, c.True))
	st.events = append(st.events, &Event{kind: "close", args: []*Term{ch}, typs: []types.Type{tInt}, st: st.snapshot()})
}

func sorted(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (e *Exec) noLocks(st *State, what, p string) {
	for _, n := range st.locks {
		if n != 0 {
			e.checkL(st, e.c.False, "lock", what+" while holding a lock", p, "C12")
			return
		}
	}
}

// open: sends to channels need to know the channel is not closed.
func (e *Exec) canSend(st *State, ch *Term, p string) {
	c := e.c
	cl := c.Select(e.closedComp(st), ch)
	var safe []*Term
	for _, r := range sorted(e.specs.OpenRoles) {
		safe = append(safe, c.Eq(c.App("chanrole", SInt, ch), e.roleOf(r)))
	}
	e.check(st, c.Or(append(safe, c.Not(cl), c.Eq(ch, c.Zero))...), "send", "send on closed channel", p, nil, "")
}

func (e *Exec) send(st *State, ch, v *Term, T types.Type, blocking bool, p string) {
	if blocking {
		e.noLocks(st, "waits to send", p)
	}
	e.canSend(st, ch, p)
	e.escape(st, v)
	e.onEvent(st, "send", map[string]sval{"ch": {ch, tInt}, "v": {v, T}}, p)
	st.events = append(st.events, &Event{kind: "send", args: []*Term{ch, v}, typs: []types.Type{tInt, T}, st: st.snapshot()})
}

func (e *Exec) recv(st *State, ch *Term, T types.Type, blocking bool, p string) (*Term, *Term) {
	c := e.c
	if blocking {
		e.noLocks(st, "waits to receive", p)
	}
	ok := c.Fresh("recvok", SBool)
	x := c.Fresh("recv", c.sortOf(T))
	na := c.Fresh("alloc", SInt)
	e.assume(st, c.Le(st.alloc, na))
	st.alloc = na
	e.assume(st, e.wf(x, T, st.alloc))
	z := c.zero(T)
	e.assume(st, c.Imp(c.Not(ok), c.Eq(x, z)))
	for _, r := range sorted(e.specs.OpenRoles) {
		e.assume(st, c.Imp(c.Eq(c.App("chanrole", SInt, ch), e.roleOf(r)), ok))
	}
	e.interfere(st)
	e.assume(st, c.Ne(ch, c.Zero)) // a nil channel never delivers
	e.assume(st, c.Or(ok, c.Select(e.closedComp(st), ch)))
	for _, r := range sorted(e.specs.RoleInv) {
		cl := e.specs.RoleClause[r]
		v := &Env{e: e, st: st, file: e.specs.RoleFile[r], alloc: st.alloc, vars: map[string]sval{"ch": {ch, tInt}, "x": {x, T}}}
		if c.sortOf(T) == e.roleSort(r) {
			e.assume(st, c.Imp(c.And(ok, c.Eq(c.App("chanrole", SInt, ch), e.roleOf(r))), e.evalClause(v, cl)))
		}
	}
	e.onEvent(st, "recv", map[string]sval{"ch": {ch, tInt}, "x": {x, T}, "ok": {ok, tBool}}, p)
	st.events = append(st.events, &Event{kind: "recv", args: []*Term{ch, x, ok}, typs: []types.Type{tInt, T, tBool}, st: st.snapshot()})
	return x, ok
}

func (e *Exec) roleSort(r string) Sort { return SInt }

// interfere: while waiting, other goroutines may have changed shared state not under our locks.
func (e *Exec) interfere(st *State) {
	c := e.c
	c.fresh++
	old := e.closedComp(st)
	n := e.newComp(sClosed, fmt.Sprintf("%s@%d", sClosed, c.fresh), ArrSort(SInt, SBool), st.alloc)
	r := c.BV("r", SInt)
	// closed channels stay closed
	e.assume(st, c.Forall([]*Term{r}, [][]*Term{{c.Select(old, r)}}, c.Imp(c.Select(old, r), c.Select(n, r))))
	e.setComp(st, sClosed, n)
}

// selectInstr forks over the cases.
func (e *Exec) selectInstr(fr *Frame, st *State, in *ssa.Select, k func(*State)) {
	c := e.c
	p := e.pos(in.Pos())
	if in.Blocking {
		e.noLocks(st, "waits in select", p)
	}
	n := len(in.States)
	type cs struct {
		ch, v *Term
		T     types.Type
	}
	css := make([]cs, n)
	var chans []*Term
	for i, s := range in.States {
		css[i].ch = e.term(st, fr, s.Chan)
		css[i].T = s.Chan.Type().Underlying().(*types.Chan).Elem()
		if s.Send != nil {
			css[i].v = e.term(st, fr, s.Send)
		}
		chans = append(chans, css[i].ch)
	}
	nrecv := 0
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	total := n
	if !in.Blocking {
		total++
	}
	for i := 0; i < total; i++ {
		s := st
		if i < total-1 {
			s = st.clone()
		}
		tup := Tuple{c.Int(int64(i)), c.False}
		if i == n {
			tup[0] = c.Int(-1)
		}
		for j, x := range in.States {
			if x.Dir != types.RecvOnly {
				continue
			}
			if j == i {
				tup = append(tup, nil)
			} else {
				tup = append(tup, c.zero(css[j].T))
			}
		}
		if i == n {
			s.events = append(s.events, &Event{kind: "default", args: chans, typs: make([]types.Type, len(chans))})
			e.set(s, fr, in, tup)
			k(s)
			continue
		}
		// a nil channel never proceeds
		nn := c.Ne(css[i].ch, c.Zero)
		if !e.feasible(s, nn) {
			continue
		}
		e.assume(s, nn)
		if in.States[i].Dir == types.RecvOnly {
			v, ok := e.recv(s, css[i].ch, css[i].T, false, p)
			tup[1] = ok
			for j := range tup {
				if j >= 2 && tup[j] == nil {
					tup[j] = v
				}
			}
		} else {
			e.send(s, css[i].ch, css[i].v, css[i].T, false, p)
		}
		e.set(s, fr, in, tup)
		k(s)
	}
}

// --- locks ---

// lockKey identifies a mutex.
func (e *Exec) lockKey(st *State, v Val, p string) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *Addr:
		if !v.elem && len(v.path) == 0 {
			return v.base
		}
		if !v.elem && len(v.path) == 1 && !v.path[0].isIdx {
			return e.c.App("lockaddr_"+typeName(v.T)+"."+e.structOf(v.T).Field(v.path[0].field).Name(), SInt, v.base)
		}
	}
	e.unsup("mutex at %s", p)
	return nil
}

// lockOf is the lock of an object of type T (nil when it has none).
func (e *Exec) lockOf(st *State, ref *Term, T types.Type) *Term {
	s := e.structOf(T)
	if s == nil {
		return nil
	}
	mu := ""
	for _, g := range e.specs.Guards {
		if g.Typ == typeName(T) {
			mu = g.Mu
		}
	}
	if mu == "" {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() != mu {
			continue
		}
		if isLockType(f.Type()) {
			return e.c.App("lockaddr_"+typeName(T)+"."+mu, SInt, ref)
		}
		return e.readField(st, nil, ref, T, i)
	}
	return nil
}

// owner finds the object a lock belongs to.
func (e *Exec) owner(st *State, v Val, key *Term) (*Term, types.Type) {
	if a, ok := v.(*Addr); ok && len(a.path) == 1 {
		return a.base, a.T
	}
	for tn := range e.specs.MonRecv {
		T := e.sess.typeByName(tn)
		if T == nil {
			continue
		}
		s := e.structOf(T)
		for i := 0; i < s.NumFields(); i++ {
			n, imm, _, _ := e.fieldComp(T, i)
			if !imm {
				continue
			}
			if key.Op == symq("I"+n[1:]) {
				return key.Args[0], T
			}
		}
	}
	// a lock kept in an object made here
	for ref, o := range st.lobjs {
		if s := e.structOf(o.typ); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if e.c.Sel(o.val, i) == key {
					return ref, o.typ
				}
			}
		}
	}
	return nil, nil
}

func (e *Exec) acquire(st *State, key *Term, mode int, v Val, p string) {
	c := e.c
	if st.locks[key] != 0 {
		e.checkL(st, c.False, "lock", "acquires a lock it already holds", p, "C12")
	}
	for k2, n := range st.locks {
		if n != 0 && k2 != key {
			e.checkL(st, c.Ne(k2, key), "lock", "may acquire a lock it already holds", p, "C12")
		}
	}
	ref, T := e.owner(st, v, key)
	st.locks[key] = mode
	if T == nil {
		return
	}
	e.lockOwner[key] = lockOwner{ref, T}
	if len(e.specs.Monitors[typeName(T)]) > 0 && e.spec == 0 {
		e.used["mon:"+typeName(T)] = true
	}
	if e.con != nil && e.con.Flags["locked"] == "" && e.spec == 0 && e.inGo == 0 && e.fn.Signature.Recv() != nil && ref == e.recvT {
		e.checkL(st, c.False, "lock", "takes the lock of its receiver, but its contract does not say so", p, "C12")
	}
	if st.rel[key] != nil {
		if e.inGo == 0 && ref == e.recvT && e.fr0 != nil {
			e.fr0(st, p)
		}
		// others may have changed everything the lock guards
		e.havocGuarded(st, ref, T)
		st.oldC = st.snapshot()
		st.oldA = st.alloc
	}
	for _, t := range e.monitor(st, ref, T) {
		e.assume(st, t.t)
	}
}

type monTerm struct {
	cl *Clause
	t  *Term
}

func (e *Exec) monitor(st *State, ref *Term, T types.Type) []monTerm {
	var out []monTerm
	tn := typeName(T)
	for _, cl := range e.specs.Monitors[tn] {
		if e.sess.failed[cl.ID] {
			continue
		}
		v := &Env{e: e, st: st, file: e.specs.MonFile[tn], alloc: st.alloc, vars: map[string]sval{e.specs.MonRecv[tn]: {ref, types.NewPointer(T)}}}
		out = append(out, monTerm{cl, e.evalClause(v, cl)})
	}
	return out
}

func (e *Exec) havocGuarded(st *State, ref *Term, T types.Type) {
	c := e.c
	na := c.Fresh("alloc", SInt)
	e.assume(st, c.Le(st.alloc, na))
	st.alloc = na
	s := e.structOf(T)
	var ts []target
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		g := e.specs.Guards[typeName(T)+"."+f.Name()]
		if g == nil {
			continue
		}
		n, imm, so, _ := e.fieldComp(T, i)
		if !imm {
			ts = append(ts, target{comp: n, sort: ArrSort(SInt, so), ref: ref})
		}
		ft := f.Type()
		for {
			mt, ok := ft.Underlying().(*types.Map)
			if !ok {
				break
			}
			d, v, n, ds, vs, ns := e.mapComps(mt)
			ts = append(ts, target{comp: d, sort: ds, all: true}, target{comp: v, sort: vs, all: true}, target{comp: n, sort: ns, all: true})
			ft = mt.Elem()
		}
		if g.Deep {
			for _, gn := range e.sess.ghostNames() {
				gh := e.specs.Ghosts[gn]
				if gh.Deep {
					ts = append(ts, target{comp: "G:" + gn, sort: c.sortOf(e.ghostType(gh)), all: true})
				}
			}
		}
	}
	e.havoc(st, ts)
	e.interfere(st)
}

func (e *Exec) release(st *State, key *Term, mode int, v Val, p string) {
	c := e.c
	if st.locks[key] != mode {
		e.checkL(st, c.False, "lock", "releases a lock it does not hold in this mode", p, "C12")
	}
	ref, T := e.owner(st, v, key)
	if T != nil && mode == 2 {
		for _, t := range e.monitor(st, ref, T) {
			labels := t.cl.Labels
			e.check(st, t.t, "monitor", "lock invariant: "+t.cl.Text, p, labels, t.cl.ID)
		}
	}
	if mode == 2 && ref != nil && ref == e.recvT && e.con != nil {
		l := e.con.OnRel
		if e.inGo > 0 {
			l = e.con.GoRel
		}
		for _, cl := range l {
			e.inBody(st, cl, nil, "release", "at each release: "+cl.Text, p)
		}
		if e.inGo > 0 {
			st.events = append(st.events, &Event{kind: "release"})
		}
	}
	delete(st.locks, key)
	st.rel[key] = &relPoint{st.alloc}
	if st.relC == nil {
		st.relC = st.snapshot()
	}
}

func (e *Exec) tryMu(st *State, base *Term, T types.Type, field string) (*Term, *Guard) {
	g := e.specs.Guards[typeName(T)+"."+field]
	if g == nil {
		return nil, nil
	}
	return e.lockOf(st, base, T), g
}

// guardAccess checks a field access against the lock that guards it.
func (e *Exec) guardAccess(st *State, a *Addr, write bool, p string) {
	if a.elem || len(a.path) == 0 || a.path[0].isIdx || e.spec > 0 && e.inGetter > 0 {
		if !a.elem && len(a.path) == 0 && !write {
			e.guardWhole(st, a, p)
		}
		return
	}
	if _, ok := st.lobjs[a.base]; ok {
		return
	}
	s := e.structOf(a.T)
	if s == nil {
		return
	}
	f := s.Field(a.path[0].field)
	key, g := e.tryMu(st, a.base, a.T, f.Name())
	if g == nil {
		return
	}
	e.heldCheck(st, key, write, fmt.Sprintf("%s.%s", g.Typ, g.Field), p)
}

// guardWhole: copying a whole struct reads its guarded fields.
func (e *Exec) guardWhole(st *State, a *Addr, p string) {
	if _, ok := st.lobjs[a.base]; ok {
		return
	}
	s := e.structOf(a.T)
	if s == nil {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		n, imm, _, _ := e.fieldComp(a.T, i)
		_ = n
		if imm {
			continue
		}
		key, g := e.tryMu(st, a.base, a.T, f.Name())
		if g != nil {
			e.heldCheck(st, key, false, fmt.Sprintf("%s.%s", g.Typ, g.Field), p)
		}
	}
}

func (e *Exec) heldCheck(st *State, key *Term, write bool, what, p string) {
	c := e.c
	n := st.locks[key]
	if n == 2 || n == 1 && !write {
		e.check(st, c.True, "guard", "access to "+what+" under its lock", p, []string{"C12"}, "")
		return
	}
	// same lock under another name
	var alt []*Term
	for k2, m := range st.locks {
		if m == 2 || m == 1 && !write {
			alt = append(alt, c.Eq(k2, key))
		}
	}
	verb := "reads"
	if write {
		verb = "writes"
	}
	e.checkL(st, c.Or(alt...), "guard", verb+" "+what+" without its lock", p, "C12")
}

// taintLoad marks containers loaded from guarded fields.
func (e *Exec) taintLoad(st *State, a *Addr, v *Term) {
	if a.elem || len(a.path) != 1 || a.path[0].isIdx {
		return
	}
	if _, ok := st.lobjs[a.base]; ok {
		return
	}
	s := e.structOf(a.T)
	if s == nil {
		return
	}
	f := s.Field(a.path[0].field)
	key, g := e.tryMu(st, a.base, a.T, f.Name())
	if g == nil {
		return
	}
	switch f.Type().Underlying().(type) {
	case *types.Map, *types.Slice:
		st.taint[v] = taint{mu: key, what: g.Typ + "." + g.Field}
	case *types.Interface:
		if g.Deep {
			st.taint[v] = taint{mu: key, what: g.Typ + "." + g.Field, deep: true}
		}
	}
}

func (e *Exec) guardMap(st *State, m *Term, write bool, p string) {
	if t, ok := st.taint[m]; ok {
		e.heldCheck(st, t.mu, write, t.what, p)
	}
}

// guardObj checks method calls on guarded objects.
func (e *Exec) guardObj(st *State, x *Term, method, p string) {
	t, ok := st.taint[x]
	if !ok {
		return
	}
	e.heldCheck(st, t.mu, !e.specs.Reads[method], t.what+" (method "+method+")", p)
	e.staleCheck(st, t, p)
}

// guardArgs checks guarded objects that are handed to a function known by its contract.
func (e *Exec) guardArgs(st *State, con *Contract, args []*Term, p string) {
	for _, a := range args {
		if t, ok := st.taint[a]; ok && t.deep {
			e.heldCheck(st, t.mu, con.Flags["writes"] != "", t.what+" (in "+con.Key+")", p)
			e.staleCheck(st, t, p)
		}
	}
}

// staleCheck: a lazy result must not be used after what it reads from has changed.
func (e *Exec) staleCheck(st *State, t taint, p string) {
	var cs []*Term
	for _, n := range sortedNames(t.rows) {
		cs = append(cs, e.c.Eq(t.rows[n], e.c.Select(e.comp(st, n, e.ghostSort(n)), t.owner)))
	}
	if len(cs) > 0 {
		e.check(st, e.c.And(cs...), "stale", "uses what "+t.what+" gave out after it changed", p, nil, "")
	}
}

// lazyResult marks a result that reads from the guarded object x when it is used.
func (e *Exec) lazyResult(st *State, con *Contract, x, r *Term) {
	t, ok := st.taint[x]
	if !ok || con.Flags["lazy"] == "" {
		return
	}
	n := taint{mu: t.mu, what: t.what, deep: true, owner: x, rows: map[string]*Term{}}
	for _, g := range strings.Split(con.Flags["lazy"], ",") {
		n.rows["G:"+g] = e.c.Select(e.comp(st, "G:"+g, e.ghostSort("G:"+g)), x)
	}
	st.taint[r] = n
}

func (e *Exec) ghostSort(comp string) Sort {
	return e.c.sortOf(e.ghostType(e.specs.Ghosts[comp[2:]]))
}

var _ = strings.TrimSpace

func sortedNames(m map[string]*Term) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}
