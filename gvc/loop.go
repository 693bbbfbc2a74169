package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// seqInfo describes the sequence of keys of a map iteration.
type seqInfo struct {
	key func(*Term) *Term
	n   *Term
	kt  types.Type
}

// loopHint is what is known about the effects of a loop body; it only grows.
type loopHint struct {
	mods    map[string]bool
	modes   map[string]string
	ins     map[string]bool
	dels    map[string]bool
	events  map[string]bool
	publish map[string]bool
	alloc   bool
	rel     bool
}

func newHint() *loopHint {
	return &loopHint{mods: map[string]bool{}, modes: map[string]string{}, ins: map[string]bool{}, dels: map[string]bool{}, events: map[string]bool{}, publish: map[string]bool{}}
}

// loopVar is a header phi or a local object.
type loopVar struct {
	key   string
	name  string
	phi   *ssa.Phi
	ref   *Term
	T     types.Type
	entry Val
	hdr   Val
	parts map[*Term]func(*Term) *Term // constant of the header value -> part of a value
}

type backPoint struct {
	st   *State
	phis map[*ssa.Phi]Val
}

// loopCtx is an active loop.
type loopCtx struct {
	e      *Exec
	fr     *Frame
	l      *loop
	dry    bool
	unroll int
	cnt    *Term
	seq    *seqInfo
	hint   *loopHint
	entry  *State
	hst    *State
	vars   []*loopVar
	compC  map[string]*Term
	allocC *Term
	base   int
	points []*backPoint
	onBack func(st *State, prev *ssa.BasicBlock)
	lasts  map[string]*Term
	outer  map[string]*Term
}

func (lc *loopCtx) deletes(d string) bool { return lc.hint.dels[d] }
func (lc *loopCtx) inserts(d string) bool { return lc.hint.ins[d] }

type loopExit struct {
	lc   *loopCtx
	body bool
}

// popLoop leaves the innermost loop.
func (e *Exec) popLoop(st *State, body bool) {
	lc := st.loops[len(st.loops)-1]
	st.loops = st.loops[: len(st.loops)-1 : len(st.loops)-1]
	if lc.unroll > 0 {
		return
	}
	for k, v := range lc.outer {
		if _, ok := st.lasts[k]; !ok {
			st.lasts[k] = v
		}
	}
	for k := range lc.hint.ins {
		st.lasts["ins:"+k] = e.c.Zero
	}
	for k := range lc.hint.dels {
		st.lasts["del:"+k] = e.c.Zero
	}
	if len(st.loops) == 0 && len(lc.hint.mods) > 0 {
		st.exit = &loopExit{lc, body}
	}
}

// literalCond evaluates the header's branch condition on the entry values; ok when it is a literal.
func (e *Exec) literalCond(fr *Frame, l *loop, prev *ssa.BasicBlock, st *State) bool {
	s := st.clone()
	e.spec++
	defer func() { e.spec-- }()
	e.bindPhis(fr, l.header, prev, s)
	for _, in := range l.header.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp:
			e.set(s, fr, in, e.binop(s, fr, in))
		case *ssa.If:
			t := e.term(s, fr, in.Cond)
			return t == e.c.True || t == e.c.False
		default:
			return false
		}
	}
	return false
}

func (e *Exec) loopEntry(fr *Frame, l *loop, prev *ssa.BasicBlock, st *State) {
	e.loopEnter(fr, l, prev, st, 0)
}

func (e *Exec) loopEnter(fr *Frame, l *loop, prev *ssa.BasicBlock, st *State, n int) {
	if n < 40 && e.literalCond(fr, l, prev, st) {
		lc := &loopCtx{e: e, fr: fr, l: l, unroll: n + 1, hint: newHint(), cnt: e.c.Int(int64(n))}
		lc.onBack = func(st *State, prev *ssa.BasicBlock) {
			e.popLoop(st, false)
			e.loopEnter(fr, l, prev, st, n+1)
		}
		st.loops = append(st.loops, lc)
		e.bindPhis(fr, l.header, prev, st)
		e.instrs(fr, l.header, 0, st)
		return
	}
	if len(st.defers[fr.id]) > 0 && e.loopHasDefer(l) {
		e.unsup("defer in a loop")
	}
	key := fmt.Sprintf("%s#%d", fr.key, l.n)
	hint := newHint()
	lc := &loopCtx{e: e, fr: fr, l: l, hint: hint, entry: st, cnt: e.c.Fresh("cnt", SInt), outer: st.lasts}
	// effects
	e.learning++
	for pass := 0; ; pass++ {
		if pass > 30 {
			e.unsup("loop effects do not stabilise")
		}
		lc.dryRun(prev, nil)
		if !lc.learn() {
			break
		}
	}
	e.learning--
	cands := lc.candidates(prev)
	cands = lc.houdini(prev, cands)
	if os.Getenv("GVC_LOOPS") != "" && e.spec == 0 {
		fmt.Fprintf(os.Stderr, "LOOP %s: mods %v modes %v\n", key, sorted(hint.mods), hint.modes)
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, "   inv %s: %s\n", c.desc, show(c.t))
		}
	}
	lc.dry = false
	lc.points = nil
	lc.onBack = func(s *State, pv *ssa.BasicBlock) {
		lc.sameLocks(s)
		lc.covered([]*backPoint{lc.backPoint(s, pv)})
		if e.inGo > 0 && e.spec == 0 && e.con != nil && len(s.loops) == 1 && hint.events["recv"] {
			it := s.clone()
			it.events = s.events[len(lc.hst.events):]
			for _, cl := range e.con.GoStep {
				e.inBody(it, cl, nil, "gostep", "each step of the goroutine: "+cl.Text, "")
			}
		}
		if e.onStep != nil && e.spec == 0 && len(s.loops) == 1 && len(hint.mods) > 0 {
			e.onStep(lc, s)
		}
	}
	for _, cd := range cands {
		e.oblDone("invariant", cd)
	}
	hst := lc.hst.clone()
	for _, cd := range cands {
		e.assume(hst, cd.t)
	}
	lc.hst = hst.clone()
	if e.onLoop != nil && e.spec == 0 && len(st.loops) == 0 && len(hint.mods) > 0 {
		e.onLoop(lc)
	}
	hst.loops = append(hst.loops, lc)
	e.instrs(fr, l.header, 0, hst)
}

func (e *Exec) loopHasDefer(l *loop) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (lc *loopCtx) sameLocks(s *State) {
	same := len(s.locks) == len(lc.entry.locks)
	for k, v := range lc.entry.locks {
		if s.locks[k] != v {
			same = false
		}
	}
	if !same {
		lc.e.checkL(s, lc.e.c.False, "lock", "locks held at the end of an iteration differ from those at its start", "", "C12")
	}
	if len(s.defers[lc.fr.id]) != len(lc.entry.defers[lc.fr.id]) {
		lc.e.unsup("defer in a loop")
	}
}

// header builds the state at the start of an arbitrary iteration.
func (lc *loopCtx) header(prev *ssa.BasicBlock) *State {
	e := lc.e
	c := e.c
	st := lc.entry.clone()
	h := lc.hint
	for _, r := range e.sortedObjs(st) {
		if h.publish[show(r)] {
			e.publish(st, r)
		}
	}
	lc.entry = st.clone()
	e.assume(st, c.Le(c.Zero, lc.cnt))
	lc.allocC = nil
	if h.alloc {
		lc.allocC = c.Fresh("alloc", SInt)
		e.assume(st, c.Le(lc.entry.alloc, lc.allocC))
		st.alloc = lc.allocC
	}
	lc.compC = map[string]*Term{}
	for _, n := range sorted(h.mods) {
		c.fresh++
		t := e.newComp(n, fmt.Sprintf("%s@%d", n, c.fresh), e.compS[n], st.alloc)
		lc.compC[n] = t
		st.comps[n] = t
	}
	e.normalise(st, sorted(h.mods))
	if h.rel {
		for k := range lc.entry.locks {
			_ = k
		}
		st.oldA = st.alloc
	}
	lc.vars = nil
	for _, in := range lc.l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := &loopVar{key: p.Name(), name: p.Comment, phi: p, T: p.Type(), entry: e.phiVal(lc.fr, p, lc.l.header, prev, lc.entry)}
		lc.vars = append(lc.vars, v)
	}
	for _, r := range e.sortedObjs(st) {
		o := st.lobjs[r]
		lc.vars = append(lc.vars, &loopVar{key: "l:" + show(r), name: o.name, ref: r, T: o.typ, entry: o.val})
	}
	for _, v := range lc.vars {
		lc.setVar(st, v)
		if v.phi != nil {
			e.set(st, lc.fr, v.phi, v.hdr)
		} else {
			o := st.lobjs[v.ref]
			o.val = v.hdr.(*Term)
			st.lobjs[v.ref] = o
		}
	}
	for _, k := range sorted(h.events) {
		st.events = append(st.events, &Event{kind: k, loop: true})
	}
	st.lasts = map[string]*Term{}
	lc.base = c.fresh
	return st
}

func (e *Exec) sortedObjs(st *State) []*Term {
	var out []*Term
	for r := range st.lobjs {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// setVar makes the header value of a variable by its mode.
func (lc *loopCtx) setVar(st *State, v *loopVar) {
	e := lc.e
	c := e.c
	v.parts = map[*Term]func(*Term) *Term{}
	mode := lc.hint.modes[v.key]
	ent, isT := v.entry.(*Term)
	if mode == "" || !isT {
		v.hdr = v.entry
		return
	}
	switch {
	case strings.HasPrefix(mode, "step:"):
		k, _ := strconv.ParseInt(mode[5:], 10, 64)
		v.hdr = c.Add(ent, c.Mul(c.Int(k), lc.cnt))
		return
	case strings.HasPrefix(mode, "fold:"):
		if row := lc.foldRow(mode[5:]); row != nil {
			v.hdr = c.Fold(typeName(v.T), row, lc.cnt, ent)
			return
		}
	case strings.HasPrefix(mode, "slice"):
		a, cp := c.Fresh("sl_"+v.name, SInt), c.Fresh("cap_"+v.name, SInt)
		v.parts[a] = func(t *Term) *Term { return c.Sel(t, 0) }
		v.parts[cp] = func(t *Term) *Term { return c.Sel(t, 2) }
		var ln *Term
		if strings.HasPrefix(mode, "slice:") {
			k, _ := strconv.ParseInt(mode[6:], 10, 64)
			ln = c.Add(c.Sel(ent, 1), c.Mul(c.Int(k), lc.cnt))
		} else {
			ln = c.Fresh("len_"+v.name, SInt)
			v.parts[ln] = func(t *Term) *Term { return c.Sel(t, 1) }
		}
		t := c.Ctor(SSlice, a, ln, cp)
		v.hdr = t
		e.assume(st, e.wf(t, v.T, st.alloc))
		return
	}
	t := c.Fresh("v_"+clean(v.name, 12), ent.Sort)
	v.parts[t] = func(x *Term) *Term { return x }
	v.hdr = t
	e.assume(st, e.wf(t, v.T, st.alloc))
}

func (lc *loopCtx) foldRow(k string) *Term { return lc.e.rows[k] }

// dryRun executes the body once from an arbitrary iteration.
func (lc *loopCtx) dryRun(prev *ssa.BasicBlock, assume []*cand) {
	e := lc.e
	st := lc.header(prev)
	for _, a := range assume {
		e.assume(st, a.t)
	}
	lc.hst = st.clone()
	lc.runDry(st)
}

func (lc *loopCtx) runDry(st *State) {
	e := lc.e
	lc.points = nil
	lc.dry = true
	lc.seq = nil
	lc.onBack = func(s *State, pv *ssa.BasicBlock) {
		lc.points = append(lc.points, lc.backPoint(s, pv))
	}
	st.loops = append(st.loops, lc)
	e.spec++
	e.instrs(lc.fr, lc.l.header, 0, st)
	e.spec--
}

func (lc *loopCtx) backPoint(s *State, pv *ssa.BasicBlock) *backPoint {
	bp := &backPoint{st: s, phis: map[*ssa.Phi]Val{}}
	for _, v := range lc.vars {
		if v.phi != nil {
			bp.phis[v.phi] = lc.e.phiVal(lc.fr, v.phi, lc.l.header, pv, s)
		}
	}
	return bp
}

// covered checks that an iteration did nothing but what the header of the loop allows for.
func (lc *loopCtx) covered(bp []*backPoint) {
	pts := lc.points
	lc.points = bp
	if lc.learn() {
		lc.e.unsup("loop effects are not stable")
	}
	lc.points = pts
}

func (lc *loopCtx) backVal(v *loopVar, bp *backPoint) Val {
	if v.phi != nil {
		return bp.phis[v.phi]
	}
	o, ok := bp.st.lobjs[v.ref]
	if !ok {
		return nil
	}
	return o.val
}

// learn grows the hint from the back points; false when stable.
func (lc *loopCtx) learn() bool {
	e := lc.e
	c := e.c
	h := lc.hint
	ch := false
	set := func(m map[string]bool, k string) {
		if !m[k] {
			m[k] = true
			ch = true
		}
	}
	next := map[*Term]*Term{lc.cnt: c.Add(lc.cnt, c.One)}
	before := map[string]string{}
	for k, m := range h.modes {
		before[k] = m
	}
	for _, bp := range lc.points {
		for n, t := range bp.st.comps {
			if e.hdrComp(lc, n) != t {
				set(h.mods, n)
			}
		}
		if bp.st.alloc != lc.hst.alloc && !h.alloc {
			h.alloc = true
			ch = true
		}
		for k := range bp.st.lasts {
			if strings.HasPrefix(k, "ins:") {
				set(h.ins, k[4:])
			} else {
				set(h.dels, k[4:])
			}
		}
		for _, ev := range bp.st.events[len(lc.hst.events):] {
			set(h.events, ev.kind)
		}
		if len(bp.st.rel) > len(lc.hst.rel) && !h.rel {
			for k, v := range bp.st.rel {
				if lc.entry.rel[k] == nil {
					lc.entry.rel[k] = v
					ch = true
				}
			}
		}
		for _, v := range lc.vars {
			b := lc.backVal(v, bp)
			if b == nil {
				set(h.publish, show(v.ref))
				continue
			}
			if m := before[v.key]; b == v.hdr && (m == "fresh" || m == "slice" || m == "" && h.modes[v.key] == "") {
				continue // unchanged on this path
			}
			bt, ok1 := b.(*Term)
			ht, ok2 := v.hdr.(*Term)
			et, ok3 := v.entry.(*Term)
			if !ok1 || !ok2 || !ok3 {
				e.unsup("loop variable %s is not a plain value", v.name)
			}
			mode := before[v.key]
			if now := h.modes[v.key]; now != mode {
				if mode == "" && now != "fresh" {
					// the other paths have to agree
					agree := false
					switch {
					case strings.HasPrefix(now, "step:"):
						n, ok := c.Sub(bt, ht).isInt()
						agree = ok && now == fmt.Sprintf("step:%d", n)
					case strings.HasPrefix(now, "fold:"):
						agree = strings.HasPrefix(bt.Op, "app_") || optLike(bt.Op)
					case strings.HasPrefix(now, "slice:"):
						n, ok := c.Sub(c.Sel(bt, 1), c.Sel(ht, 1)).isInt()
						agree = ok && now == fmt.Sprintf("slice:%d", n)
						if !agree {
							h.modes[v.key] = "slice"
							agree = true
						}
					case now == "slice":
						agree = true
					}
					if !agree {
						h.modes[v.key] = "fresh"
					}
				}
				continue
			}
			switch {
			case mode == "":
				ch = true
				if bt.Sort == SInt && !isRefType(v.T) {
					if n, ok := c.Sub(bt, ht).isInt(); ok {
						h.modes[v.key] = fmt.Sprintf("step:%d", n)
						continue
					}
				}
				if T, ok := optName(bt.Op, "app_"); ok && len(bt.Args) == 2 && bt.Args[1] == ht && bt.Args[0].Op == "select" && T == typeName(v.T) {
					k := fmt.Sprintf("%d", bt.Args[0].Args[0].ID)
					e.rows[k] = bt.Args[0].Args[0]
					h.modes[v.key] = "fold:" + k
					continue
				}
				if bt.Sort == SSlice {
					h.modes[v.key] = "slice"
					if n, ok := c.Sub(c.Sel(bt, 1), c.Sel(ht, 1)).isInt(); ok {
						h.modes[v.key] = fmt.Sprintf("slice:%d", n)
					}
					continue
				}
				h.modes[v.key] = "fresh"
			case strings.HasPrefix(mode, "step:"), strings.HasPrefix(mode, "fold:"):
				if c.Subst(ht, next) != bt {
					if T, ok := optName(bt.Op, "app_"); ok && strings.HasPrefix(mode, "fold:") && T == typeName(v.T) && bt.Args[1] == ht && bt.Args[0].Op == "select" {
						k := fmt.Sprintf("%d", bt.Args[0].Args[0].ID)
						if mode != "fold:"+k {
							e.rows[k] = bt.Args[0].Args[0]
							h.modes[v.key] = "fold:" + k
							ch = true
							continue
						}
					}
					h.modes[v.key] = "fresh"
					ch = true
				}
			case strings.HasPrefix(mode, "slice:"):
				if c.Subst(c.Sel(ht, 1), next) != c.Sel(bt, 1) {
					h.modes[v.key] = "slice"
					ch = true
				}
			}
			_ = et
		}
	}
	return ch
}

func (e *Exec) hdrComp(lc *loopCtx, n string) *Term {
	if t, ok := lc.hst.comps[n]; ok {
		return t
	}
	return e.comp0(n, e.compS[n])
}

func (e *Exec) entComp(lc *loopCtx, n string) *Term {
	if t, ok := lc.entry.comps[n]; ok {
		return t
	}
	return e.comp0(n, e.compS[n])
}

type cand struct {
	t    *Term
	desc string
	cl   *Clause
	by   string
	secs float64
	slow bool
	user string
}

func (lc *loopCtx) substFor(vals func(v *loopVar) Val, comp func(string) *Term, alloc, cnt *Term) map[*Term]*Term {
	m := map[*Term]*Term{lc.cnt: cnt}
	if lc.allocC != nil {
		m[lc.allocC] = alloc
	}
	for n, t := range lc.compC {
		m[t] = comp(n)
	}
	for _, v := range lc.vars {
		if len(v.parts) == 0 {
			continue
		}
		x, ok := vals(v).(*Term)
		if !ok {
			lc.e.unsup("loop variable %s", v.name)
		}
		for k, f := range v.parts {
			m[k] = f(x)
		}
	}
	return m
}

func (lc *loopCtx) entrySubst() map[*Term]*Term {
	return lc.substFor(func(v *loopVar) Val { return v.entry }, func(n string) *Term { return lc.e.entComp(lc, n) }, lc.entry.alloc, lc.e.c.Zero)
}

func (lc *loopCtx) backSubst(bp *backPoint) map[*Term]*Term {
	e := lc.e
	return lc.substFor(func(v *loopVar) Val { return lc.backVal(v, bp) }, func(n string) *Term {
		if t, ok := bp.st.comps[n]; ok {
			return t
		}
		return e.comp0(n, e.compS[n])
	}, bp.st.alloc, e.c.Add(lc.cnt, e.c.One))
}

type goalItem struct {
	st   *State
	goal *Term
	slow bool
}

// proveAll asks many questions at once.
func (e *Exec) proveAll(items []goalItem) []*answer {
	out := make([]*answer, len(items))
	done := make(chan int, len(items))
	n := 0
	for i, it := range items {
		if v, ok := e.known(it.st, it.goal); ok {
			out[i] = &answer{res: "unknown"}
			if v {
				out[i] = &answer{res: "unsat", by: "syntactic"}
			}
			continue
		}
		q := e.c.Query(it.st.pc, it.goal)
		n++
		i, slow := i, it.slow
		go func() {
			out[i] = e.solver.check(q, !slow, false)
			done <- i
		}()
	}
	for ; n > 0; n-- {
		<-done
	}
	return out
}

// proveEach proves lists of goals; a list ends with its first goal that is not proved.
func (e *Exec) proveEach(per [][]goalItem) [][]*answer {
	out := make([][]*answer, len(per))
	var wg sync.WaitGroup
	for i, items := range per {
		var qs []string
		var slow []bool
		for _, it := range items {
			if v, ok := e.known(it.st, it.goal); ok {
				if !v {
					qs = nil
					out[i] = []*answer{{res: "unknown"}}
					break
				}
				continue
			}
			qs = append(qs, e.c.Query(it.st.pc, it.goal))
			slow = append(slow, it.slow)
		}
		if len(out[i]) > 0 {
			continue
		}
		out[i] = []*answer{{res: "unsat", by: "syntactic"}}
		if len(qs) == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k, q := range qs {
				a := e.solver.check(q, !slow[k], false)
				out[i] = append(out[i], a)
				if a.res != "unsat" {
					return
				}
			}
		}()
	}
	wg.Wait()
	return out
}

// houdini keeps the candidates that are inductive.
func (lc *loopCtx) houdini(prev *ssa.BasicBlock, cands []*cand) []*cand {
	e := lc.e
	c := e.c
	debug := os.Getenv("GVC_HOUDINI") != ""
	t0 := time.Now()
	defer func() {
		if debug {
			fmt.Fprintf(os.Stderr, "HOUDINI %s#%d depth %d took %.1fs, %d candidates\n", lc.fr.key, lc.l.n, len(lc.entry.loops), time.Since(t0).Seconds(), len(cands))
		}
	}()
	es := lc.entrySubst()
	var items []goalItem
	for _, cd := range cands {
		items = append(items, goalItem{lc.entry, c.Subst(cd.t, es), cd.slow})
	}
	ans := e.proveAll(items)
	var keep []*cand
	for i, cd := range cands {
		if ans[i].res == "unsat" {
			cd.by, cd.secs = ans[i].by, ans[i].secs
			keep = append(keep, cd)
			continue
		}
		if cd.user != "" && ans[i].res != "sat" {
			e.gaveUp[cd.user] = true
		}
		if debug {
			fmt.Fprintf(os.Stderr, "  drop at entry %.1fs %s: %s\n", ans[i].secs, cd.desc, show(items[i].goal))
		}
	}
	cands = keep
	st0 := lc.hst
	for round := 0; len(cands) > 0 && round < 20; round++ {
		st := st0.clone()
		for _, cd := range cands {
			e.assume(st, cd.t)
		}
		lc.runDry(st)
		// effects must not have grown
		lc.covered(lc.points)
		per := make([][]goalItem, len(cands))
		for i, cd := range cands {
			for _, bp := range lc.points {
				per[i] = append(per[i], goalItem{bp.st, c.Subst(cd.t, lc.backSubst(bp)), cd.slow})
			}
		}
		bad := map[*cand]bool{}
		for i, as := range e.proveEach(per) {
			cd := cands[i]
			for _, a := range as {
				if a.res == "unsat" {
					cd.by = a.by
					cd.secs += a.secs
					continue
				}
				bad[cd] = true
				if cd.user != "" && a.res != "sat" {
					e.gaveUp[cd.user] = true
				}
				if debug {
					fmt.Fprintf(os.Stderr, "  drop at back edge %.1fs %s: %s\n", a.secs, cd.desc, show(per[i][0].goal))
					if dir := os.Getenv("GVC_DUMP"); dir != "" {
						_ = os.WriteFile(fmt.Sprintf("%s/h%d_%d.smt2", dir, round, i), []byte(backends[0].pre+e.c.Query(per[i][0].st.pc, per[i][0].goal)), 0o644)
					}
				}
			}
		}
		if len(bad) == 0 {
			break
		}
		var keep []*cand
		for _, cd := range cands {
			if !bad[cd] {
				keep = append(keep, cd)
			}
		}
		cands = keep
	}
	return cands
}

func optLike(op string) bool { _, ok := optName(op, "app_"); return ok }

func conjuncts(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}

func (lc *loopCtx) bodyFresh(t *Term) bool {
	syms := map[*Term]bool{}
	symbolsOf(t, syms)
	for s := range syms {
		if n := symNum(s.Op); n > lc.base {
			return true
		}
	}
	return appNum(t) > lc.base
}

// symNum is the number in a generated name.
func symNum(op string) int {
	op = strings.Trim(op, "|")
	i := strings.LastIndexAny(op, "!@")
	if i < 0 {
		return 0
	}
	n, err := strconv.Atoi(op[i+1:])
	if err != nil {
		return 0
	}
	return n
}

func appNum(t *Term) int {
	m := 0
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if len(t.Args) > 0 {
			if n := symNum(t.Op); n > m {
				m = n
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return m
}

// eqSubst collects definitions of body constants from a path condition.
func (lc *loopCtx) eqSubst(bp *backPoint) map[*Term]*Term {
	e := lc.e
	m := map[*Term]*Term{}
	var add func(t *Term)
	add = func(t *Term) {
		switch t.Op {
		case "=":
			a, b := t.Args[0], t.Args[1]
			if len(a.Args) == 0 && symNum(a.Op) > lc.base && !lc.bodyFresh(b) {
				m[a] = b
			} else if len(b.Args) == 0 && symNum(b.Op) > lc.base && !lc.bodyFresh(a) {
				m[b] = a
			}
		case "=>":
			if v, ok := e.known(bp.st, t.Args[0]); ok && v {
				add(t.Args[1])
			}
		case "and":
			for _, x := range t.Args {
				add(x)
			}
		}
	}
	for _, t := range bp.st.pc {
		add(t)
	}
	return m
}

type write struct {
	ref, key, val *Term
}

// writes lists the innermost stores of a back component relative to the header one.
func writes(t, hdr *Term) (ws []write, rows []*Term, ok bool) {
	for t != hdr {
		if t.Op != "store" {
			return ws, rows, false
		}
		ref, row := t.Args[1], t.Args[2]
		rows = append(rows, ref)
		if isArr(row.Sort) {
			for row.Op == "store" {
				ws = append(ws, write{ref, row.Args[1], row.Args[2]})
				row = row.Args[0]
			}
		} else {
			ws = append(ws, write{ref, nil, row})
		}
		t = t.Args[0]
	}
	return ws, rows, true
}

func (lc *loopCtx) candidates(prev *ssa.BasicBlock) []*cand {
	e := lc.e
	c := e.c
	var out []*cand
	seen := map[*Term]bool{}
	// a loop of a bulk operation is one operation after the other: only invariants of the structure matter
	step := e.con != nil && e.con.Step != nil && len(lc.entry.loops) == 0
	add := func(desc string, t *Term) {
		if t == c.True || seen[t] || t == c.False {
			return
		}
		if k := strings.SplitN(desc, " ", 2)[0]; step && (k == "fill" || k == "count" || k == "keeps" || k == "onlyins" || k == "frame1" || k == "frame2" || k == "grows" || k == "shrinks" || k == "set" || k == "onlyins1" || k == "onlydel") {
			return
		}
		seen[t] = true
		out = append(out, &cand{t: t, desc: desc})
	}
	j := c.BV("j", SInt)
	inJ := c.And(c.Le(c.Zero, j), c.Lt(j, lc.cnt))
	at := func(t *Term) *Term { return c.Subst(t, map[*Term]*Term{lc.cnt: j}) }
	allocE := lc.entry.alloc
	// variables
	for _, v := range lc.vars {
		if ht, ok := v.hdr.(*Term); ok && lc.hint.modes[v.key] == "fresh" {
			if et, ok := v.entry.(*Term); ok {
				add("same "+v.name, c.Eq(ht, et))
			}
		}
		if t, ok := v.hdr.(*Term); ok && t.Sort == SSlice && strings.HasPrefix(lc.hint.modes[v.key], "slice") {
			own := []*Term{c.Lt(allocE, c.Sel(t, 0)), c.Eq(c.Sel(t, 2), c.Zero)}
			add("own "+v.name, c.Or(own...))
			add("own2 "+v.name, c.Or(append(own, c.Eq(c.Sel(t, 0), c.Sel(v.entry.(*Term), 0)))...))
			add("len "+v.name, c.Le(c.Sel(t, 1), lc.cnt))
		}
	}
	targets := map[string]map[*Term]bool{}
	vary := map[string][]*Term{}
	noFrame, noFrame1 := map[string]bool{}, map[string]bool{} // written for sure
	for _, bp := range lc.points {
		eqs := lc.eqSubst(bp)
		norm := func(t *Term) *Term {
			for i := 0; i < 3; i++ {
				n := c.Subst(t, eqs)
				if n == t {
					break
				}
				t = n
			}
			return t
		}
		// bounds of the counter
		for _, t := range bp.st.pc {
			if t.Op != "<" && t.Op != "<=" {
				continue
			}
			m := map[*Term]int64{}
			var k int64
			c.lin(t.Args[0], 1, m, &k)
			c.lin(t.Args[1], -1, m, &k)
			if m[lc.cnt] != 1 || lc.bodyFresh(t) {
				continue
			}
			if t.Op == "<" {
				add("bound", c.Le(t.Args[0], t.Args[1]))
			} else {
				add("bound", c.Le(t.Args[0], c.Add(t.Args[1], c.One)))
			}
		}
		back := map[*Term]*Term{}
		for _, v := range lc.vars {
			if t, ok := v.hdr.(*Term); ok && t.Sort == SSlice && t.Op == "mkS" {
				if b, ok := lc.backVal(v, bp).(*Term); ok {
					back[c.Sel(b, 0)] = c.Sel(t, 0)
				}
			}
		}
		for _, n := range sorted(lc.hint.mods) {
			hdr := lc.compC[n]
			ent := e.entComp(lc, n)
			bt, ok := bp.st.comps[n]
			if !ok || bt == hdr {
				continue
			}
			ws, rows, okW := writes(bt, hdr)
			if !okW && step && !strings.HasPrefix(n, "EL:") {
				noFrame[n] = true
			}
			for _, r := range rows {
				r = norm(r)
				if r.Sort == SIface && c.distinctAlloc(c.Sel(r, 1), e.alloc0) {
					continue
				}
				if r.Sort == SIface && lc.bodyFresh(r) {
					noFrame[n] = true
				}
				if lc.bodyFresh(r) || c.distinctAlloc(r, allocE) {
					continue
				}
				if occurs(lc.cnt, r) || lc.mentionsHdr(r) {
					vary[n] = append(vary[n], r)
					if !strings.HasPrefix(n, "EL:") {
						noFrame[n], noFrame1[n] = true, true
					}
					continue
				}
				if !strings.HasPrefix(n, "EL:") {
					noFrame[n] = true
				}
				if targets[n] == nil {
					targets[n] = map[*Term]bool{}
				}
				targets[n][r] = true
			}
			kind := n[:strings.Index(n, ":")]
			for _, w := range ws {
				ref := w.ref
				if h, ok := back[ref]; ok {
					ref = h
				}
				ref = norm(ref)
				val := norm(w.val)
				if lc.bodyFresh(ref) {
					continue
				}
				if w.key == nil {
					if kind == "MC" {
						if lc.deletes("MD:" + n[3:]) {
							continue
						}
						add("count", c.Eq(c.Select(hdr, ref), c.Add(c.Select(ent, ref), lc.cnt)))
						continue
					}
					if !lc.bodyFresh(val) && occurs(lc.cnt, ref) {
						add("set", c.Forall([]*Term{j}, nil, c.Imp(inJ, c.Eq(c.Select(hdr, at(ref)), at(val)))))
					}
					continue
				}
				key := norm(w.key)
				if lc.bodyFresh(key) {
					continue
				}
				mj, kj := at(ref), at(key)
				cell := c.Select(c.Select(hdr, mj), kj)
				if !lc.bodyFresh(val) && (occurs(lc.cnt, key) || occurs(lc.cnt, ref)) {
					vj := at(val)
					if k := c.invert(key, lc.cnt); k != nil && key != lc.cnt {
						// over the places instead of the iterations
						sub := map[*Term]*Term{lc.cnt: c.Subst(k, map[*Term]*Term{c.Const("inv@x", SInt): j})}
						in := c.And(c.Le(c.Zero, sub[lc.cnt]), c.Lt(sub[lc.cnt], lc.cnt))
						add("fill", c.Forall([]*Term{j}, nil, c.Imp(in, c.Eq(c.Select(c.Select(hdr, c.Subst(ref, sub)), j), c.Subst(val, sub)))))
					}
					eq := c.Eq(cell, vj)
					add("fill", c.Forall([]*Term{j}, nil, c.Imp(inJ, eq)))
				}
				if d := c.dts[val.Sort]; d != nil && val.Op == d.Ctor && val.Sort != SIface && val.Sort != SSlice && lc.bodyFresh(val) && (occurs(lc.cnt, key) || occurs(lc.cnt, ref)) {
					for i, a := range val.Args {
						if !lc.bodyFresh(a) {
							add("fill", c.Forall([]*Term{j}, nil, c.Imp(inJ, c.Eq(c.Sel(cell, i), at(a)))))
						}
					}
				}
				if kind == "MD" || kind == "MV" {
					_, rs := splitArr(hdr.Sort)
					ks, _ := splitArr(rs)
					r, x := c.BV("r", SInt), c.BV("x", ks)
					hx, ex := c.Select(c.Select(hdr, r), x), c.Select(c.Select(ent, r), x)
					hit := c.Exists([]*Term{j}, c.And(inJ, c.Eq(mj, r), c.Eq(kj, x)))
					old := c.Le(r, allocE)
					pt := [][]*Term{{hx}}
					switch {
					case kind == "MD" && val == c.True:
						add("grows", c.Forall([]*Term{r, x}, [][]*Term{{hx}, {ex}}, c.Imp(c.And(old, ex), hx)))
						add("onlyins", c.Forall([]*Term{r, x}, pt, c.Imp(c.And(old, hx), c.Or(ex, hit))))
						if !occurs(lc.cnt, ref) {
							hm, em := c.Select(c.Select(hdr, ref), x), c.Select(c.Select(ent, ref), x)
							add("onlyins1", c.Forall([]*Term{x}, [][]*Term{{hm}}, c.Imp(hm, c.Or(em, c.Exists([]*Term{j}, c.And(inJ, c.Eq(kj, x)))))))
						}
					case kind == "MD" && val == c.False:
						add("shrinks", c.Forall([]*Term{r, x}, pt, c.Imp(c.And(old, hx), ex)))
						add("onlydel", c.Forall([]*Term{r, x}, [][]*Term{{hx}, {ex}}, c.Imp(c.And(old, ex), c.Or(hx, hit))))
					case kind == "MV":
						add("keeps", c.Forall([]*Term{r, x}, pt, c.Imp(old, c.Or(hit, c.Eq(hx, ex)))))
					}
				}
			}
		}
	}
	for _, n := range sorted(lc.hint.mods) {
		hdr := lc.compC[n]
		ent := e.entComp(lc, n)
		ks, _ := splitArr(hdr.Sort)
		r := c.BV("r", ks)
		hs, es := c.Select(hdr, r), c.Select(ent, r)
		guard := c.True
		switch ks {
		case SInt:
			guard = c.Le(r, allocE)
		}
		eq := c.Eq(hs, es)
		pt := [][]*Term{{hs}}
		if ks == SIface {
			guard0 := c.Le(c.Sel(r, 1), allocE)
			var ne []*Term
			for _, t := range sortTerms(targets[n]) {
				ne = append(ne, c.Eq(r, t))
			}
			add("frame0 "+n, c.Forall([]*Term{r}, pt, c.Imp(guard0, c.Or(append(ne, eq)...))))
			if e.alloc0 != nil && e.alloc0 != allocE {
				add("frameR "+n, c.Forall([]*Term{r}, pt, c.Imp(c.Le(c.Sel(r, 1), e.alloc0), eq)))
			}
		}
		if !noFrame[n] {
			add("frame "+n, c.Forall([]*Term{r}, pt, c.Imp(guard, eq)))
		}
		var ne []*Term
		for _, t := range sortTerms(targets[n]) {
			ne = append(ne, c.Eq(r, t))
		}
		if n == "C:error" {
			// a path that sets the error a closure reports may be impossible
			for _, t := range sortTerms(targets[n]) {
				add("same "+n, c.Eq(c.Select(hdr, t), c.Select(ent, t)))
				out[len(out)-1].slow = !e.hasty
			}
		}
		if !noFrame1[n] {
			add("frame1 "+n, c.Forall([]*Term{r}, pt, c.Imp(guard, c.Or(append(append([]*Term{}, ne...), eq)...))))
		}
		if strings.HasPrefix(n, "EL:") {
			ne2 := append([]*Term{}, ne...)
			for _, v := range lc.vars {
				if t, ok := v.hdr.(*Term); ok && t.Sort == SSlice && strings.HasPrefix(lc.hint.modes[v.key], "slice") {
					if u, ok := v.T.Underlying().(*types.Slice); ok {
						if en, _ := e.elComp(u.Elem()); en == n {
							ne2 = append(ne2, c.Eq(r, c.Sel(v.entry.(*Term), 0)))
						}
					}
				}
			}
			add("frame3 "+n, c.Forall([]*Term{r}, pt, c.Imp(guard, c.Or(append(ne2, eq)...))))
		}
		for _, t := range vary[n] {
			ne = append(ne, c.Exists([]*Term{j}, c.And(inJ, c.Eq(at(t), r))))
		}
		if len(vary[n]) > 0 {
			add("frame2 "+n, c.Forall([]*Term{r}, pt, c.Imp(guard, c.Or(append(append([]*Term{}, ne...), eq)...))))
		}
		if n == sClosed {
			add("closed stays", c.Forall([]*Term{r}, [][]*Term{{hs}, {es}}, c.Imp(es, hs)))
		}
	}
	// invariants of the locks held for writing: at the loop of a bulk operation
	for _, k := range lc.hst.lockKeys() {
		if !step {
			break
		}
		o, ok := e.lockOwner[k]
		if !ok || lc.hst.locks[k] != 2 || o.T == nil {
			continue
		}
		for _, m := range e.monitor(lc.hst, o.ref, o.T) {
			for _, t := range conjuncts(m.t) {
				if !seen[t] && t != c.True {
					seen[t] = true
					out = append(out, &cand{t: t, desc: "monitor " + m.cl.Text, cl: m.cl})
				}
			}
		}
	}
	// from the contract
	if e.con != nil && e.learning == 0 {
		for _, cl := range e.con.Inv {
			if len(cl.Labels) > 0 && !lc.kindIs(cl.Labels[0]) {
				continue
			}
			// tried once with little time; the root is run again with more if it fails
			key := fmt.Sprintf("%s#%d %s", lc.fr.key, lc.l.n, cl.Text)
			if e.hasty && e.gaveUp[key] {
				continue
			}
			t := lc.clauseAt(cl)
			if t != nil && t != c.True && !seen[t] {
				seen[t] = true
				out = append(out, &cand{t: t, desc: "loopinv " + cl.Text, cl: cl, slow: !e.hasty, user: key})
			}
		}
	}
	return out
}

// kindIs: which loops an invariant is meant for.
func (lc *loopCtx) kindIs(k string) bool {
	in := false
	for _, l := range lc.entry.loops {
		in = in || l.seq != nil
	}
	switch k {
	case "map":
		return lc.seq != nil
	case "deep":
		return in && lc.seq == nil
	case "inmap":
		return in || lc.seq != nil
	case "flat":
		return !in && lc.seq == nil
	}
	return false
}

func sortTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// distinctAlloc: r is certainly allocated after the watermark.
func (c *Ctx) distinctAlloc(r, w *Term) bool {
	return c.Le(r, w) == c.False
}

func (lc *loopCtx) mentionsHdr(t *Term) bool {
	for _, v := range lc.vars {
		for k := range v.parts {
			if occurs(k, t) {
				return true
			}
		}
	}
	for _, k := range lc.compC {
		if occurs(k, t) {
			return true
		}
	}
	return false
}

func (lc *loopCtx) clauseAt(cl *Clause) (t *Term) {
	e := lc.e
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				if os.Getenv("GVC_HOUDINI") != "" {
					fmt.Fprintf(os.Stderr, "  loopinv does not apply: %s: %s\n", cl.Text, s.msg)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	if e.env0 == nil {
		return nil
	}
	v := *e.env0
	v.st = lc.hst
	v.comps = nil
	v.oldC = lc.hst.oldC
	v.entC = lc.entry.snapshot()
	v.cnt = lc.cnt
	v.evs = lc.hst.events
	v.lc = lc
	v.vars = map[string]sval{}
	for k, x := range e.env0.vars {
		v.vars[k] = x
	}
	var sl []*loopVar
	var errs []sval
	for _, x := range lc.vars {
		if ht, ok := x.hdr.(*Term); ok {
			if types.Identical(x.T, types.Universe.Lookup("error").Type()) {
				errs = append(errs, sval{ht, x.T})
			}
			if _, ok := v.vars[x.name]; !ok && x.name != "" {
				v.vars[x.name] = sval{ht, x.T}
			}
			if ht.Sort == SSlice && lc.hint.modes[x.key] != "" {
				sl = append(sl, x)
			}
		}
	}
	if len(errs) == 1 {
		v.vars["$err"] = errs[0]
	}
	if len(sl) == 1 {
		v.vars["$s"] = sval{sl[0].hdr.(*Term), sl[0].T}
	}
	if r := lc.ranged(); r != nil {
		v.vars["$range"] = *r
	}
	// the slice whose elements the loop sets
	for _, bp := range lc.points {
		for _, n := range sorted(lc.hint.mods) {
			T := e.elTypes[n]
			bt := bp.st.comps[n]
			if T == nil || bt == nil || bt == lc.compC[n] {
				continue
			}
			ws, _, _ := writes(bt, lc.compC[n])
			for _, w := range ws {
				if w.key != nil && !lc.bodyFresh(w.ref) && !occurs(lc.cnt, w.ref) && occurs(lc.cnt, w.key) {
					v.vars["$dst"] = sval{e.c.mk("mkS", SSlice, w.ref, lc.cnt, lc.cnt), types.NewSlice(T)}
				}
			}
		}
	}
	// the map the loop inserts into
	for _, n := range sorted(lc.hint.ins) {
		for _, bp := range lc.points {
			if m, ok := bp.st.lasts["ins:"+n]; ok && m != e.c.Zero && !lc.bodyFresh(m) && !occurs(lc.cnt, m) {
				if T := e.mapTypes[n]; T != nil {
					v.vars["$map"] = sval{m, T}
				}
			}
		}
	}
	return v.Bool(cl.E)
}

// ranged is the slice, the same throughout the loop, that the loop indexes (if there is one only).
func (lc *loopCtx) ranged() *sval {
	var x ssa.Value
	for b := range lc.l.blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
				continue
			}
			if d, ok := ia.X.(ssa.Instruction); ok && lc.l.blocks[d.Block()] {
				continue
			}
			if x != nil && x != ia.X {
				return nil
			}
			x = ia.X
		}
	}
	if x == nil {
		return nil
	}
	if t, ok := lc.hst.regs[regKey{lc.fr.id, x}].(*Term); ok && t.Sort == SSlice {
		return &sval{t, x.Type()}
	}
	return nil
}

// oblDone records an obligation that has been discharged already.
func (e *Exec) oblDone(kind string, cd *cand) {
	if e.spec > 0 {
		return
	}
	o := &Obl{Name: fmt.Sprintf("%s#%d", e.root, len(e.obls)), Labels: e.labels, Kind: kind, Desc: "loop invariant holds at entry and is preserved: " + cd.desc, ok: true, ans: &answer{res: "unsat", by: cd.by, secs: cd.secs}}
	e.obls = append(e.obls, o)
}

// invert solves x = t for the variable v where t is v+b or b-v; x is the constant inv@x.
func (c *Ctx) invert(t, v *Term) *Term {
	if t.Sort != SInt {
		return nil
	}
	m := map[*Term]int64{}
	var k int64
	c.lin(t, 1, m, &k)
	a := m[v]
	if a != 1 && a != -1 {
		return nil
	}
	for x, n := range m {
		if x != v && n != 0 && occurs(v, x) {
			return nil
		}
	}
	x := c.Const("inv@x", SInt)
	b := c.Sub(t, c.Mul(c.Int(a), v))
	if a == 1 {
		return c.Sub(x, b)
	}
	return c.Sub(b, x)
}
