package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Solver runs SMT queries, one process per query.
type Solver struct {
	sem    chan struct{}
	mu     sync.Mutex
	cache  map[[32]byte]*answer
	quick  time.Duration // first attempt
	full   time.Duration // fallback with all back ends
	mid    time.Duration
	nfail  int
	both   bool // thorough: ask a second back end to confirm
	nq     int
	hits   int
	bySolv map[string]int
	secs   float64
	dump   string
	ndump  int
}

type answer struct {
	done chan struct{}
	res  string // unsat | unknown
	by   string
	out  string
	secs float64
}

func NewSolver(n int) *Solver {
	return &Solver{sem: make(chan struct{}, n), cache: map[[32]byte]*answer{}, quick: 1500 * time.Millisecond, mid: 3 * time.Second, full: 20 * time.Second, bySolv: map[string]int{}}
}

type backend struct {
	name string
	cmd  func(ms int) []string
	pre  string
}

var backends = []backend{
	{"z3-5.3.2", func(ms int) []string {
		return []string{"z3-new", "-in", "-memory:3000", fmt.Sprintf("-T:%d", (ms+999)/1000)}
	}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	{"cvc5-1.1.2", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--full-saturate-quant"}
	}, "(set-logic ALL)\n"},
	{"z3-4.8.12", func(ms int) []string {
		return []string{"z3", "-in", "-memory:3000", fmt.Sprintf("-T:%d", (ms+999)/1000)}
	}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
}

func (s *Solver) run(ctx context.Context, b backend, q string, lim time.Duration) (string, string, float64) {
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	if ctx.Err() != nil {
		return "unknown", "", 0
	}
	t0 := time.Now()
	a := b.cmd(int(lim / time.Millisecond))
	cctx, cancel := context.WithTimeout(ctx, lim+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cctx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(b.pre + q)
	var out bytes.Buffer
	cmd.Stdout = &out
	_ = cmd.Run()
	d := time.Since(t0).Seconds()
	o := out.String()
	res := "unknown"
	first := strings.TrimSpace(strings.SplitN(o, "\n", 2)[0])
	switch first {
	case "unsat", "sat":
		res = first
	}
	if strings.Contains(o, "(error") && !strings.Contains(o, "model is not available") {
		res = "error"
	}
	s.mu.Lock()
	s.nq++
	s.secs += d
	s.mu.Unlock()
	return res, o, d
}

// Check asks whether the query text is unsat. fast: only the quick attempt.
func (s *Solver) Check(q string, fast bool) *answer { return s.check(q, fast, !fast) }

func (s *Solver) check(q string, fast, count bool) *answer {
	q = canon(q)
	key := sha256.Sum256([]byte(fmt.Sprintf("%v|%s", fast, q)))
	s.mu.Lock()
	if a, ok := s.cache[key]; ok {
		s.hits++
		s.mu.Unlock()
		<-a.done
		return a
	}
	a := &answer{done: make(chan struct{})}
	s.cache[key] = a
	s.mu.Unlock()
	defer close(a.done)
	res, out, d := s.run(context.Background(), backends[0], q, s.quick)
	a.res, a.out, a.secs, a.by = res, out, d, backends[0].name
	if res == "error" {
		fmt.Fprintln(os.Stderr, "SMT ERROR:", strings.TrimSpace(out))
		if f := os.Getenv("GVC_DUMP"); f != "" {
			_ = os.WriteFile(f+"/error.smt2", []byte(backends[0].pre+q), 0o644)
		}
	}
	race := func(bs []backend, opts []string, lim time.Duration) {
		if a.res == "unsat" || a.res == "sat" {
			return
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		type r struct {
			res, out, by string
			d            float64
		}
		ch := make(chan r, len(bs))
		for i, b := range bs {
			i, b := i, b
			go func() {
				x, o, d := s.run(ctx, b, opts[i]+q, lim)
				ch <- r{x, o, b.name, d}
			}()
		}
		for range bs {
			x := <-ch
			a.secs += x.d
			if x.res == "unsat" {
				a.res, a.out, a.by = "unsat", x.out, x.by
				return
			}
		}
	}
	race([]backend{backends[2], backends[0], backends[0]}, []string{"", "(set-option :smt.random_seed 3)\n", "(set-option :smt.random_seed 7)\n(set-option :smt.arith.solver 2)\n"}, s.mid)
	if fast {
		return a
	}
	s.mu.Lock()
	full := s.full
	if s.nfail > 8 {
		full = s.full / 4
	}
	s.mu.Unlock()
	race([]backend{backends[1], backends[0], backends[2]}, []string{"", "(set-option :smt.random_seed 11)\n", "(set-option :smt.random_seed 5)\n"}, full)
	if a.res != "unsat" && count {
		s.mu.Lock()
		s.nfail++
		s.mu.Unlock()
	}
	if s.both && a.res == "unsat" {
		alt := backends[1]
		if a.by == alt.name {
			alt = backends[0]
		}
		x, _, d := s.run(context.Background(), alt, q, s.full)
		a.secs += d
		if x == "sat" {
			a.res = "unknown"
			a.out = "back ends disagree: " + a.by + " unsat, " + alt.name + " sat"
		} else if x == "unsat" {
			a.by += "+" + alt.name
		}
	}
	if a.res == "unsat" {
		s.mu.Lock()
		s.bySolv[a.by]++
		s.mu.Unlock()
	} else if dir := os.Getenv("GVC_DUMP"); dir != "" {
		s.mu.Lock()
		s.ndump++
		n := s.ndump
		s.mu.Unlock()
		a.out += fmt.Sprintf(" [dump %d]", n)
		_ = os.WriteFile(fmt.Sprintf("%s/q%d.smt2", dir, n), []byte(backends[0].pre+q), 0o644)
	}
	return a
}

// tiny is a short attempt with one back end.
func (s *Solver) tiny(q string) bool {
	q = canon(q)
	key := sha256.Sum256([]byte("tiny|" + q))
	s.mu.Lock()
	if a, ok := s.cache[key]; ok {
		s.hits++
		s.mu.Unlock()
		<-a.done
		return a.res == "unsat"
	}
	a := &answer{done: make(chan struct{})}
	s.cache[key] = a
	s.mu.Unlock()
	defer close(a.done)
	a.res, a.out, a.secs = s.run(context.Background(), backends[0], "(set-option :timeout 600)\n"+q, time.Second)
	return a.res == "unsat"
}

// canon renumbers the fresh symbols of a query in the order of their first use, so that
// queries that differ only in those numbers are asked once.
func canon(q string) string {
	var sb strings.Builder
	sb.Grow(len(q))
	num := map[string]int{}
	for i := 0; i < len(q); {
		ch := q[i]
		sb.WriteByte(ch)
		i++
		if ch != '@' && ch != '!' && ch != '?' {
			continue
		}
		j := i
		for j < len(q) && q[j] >= '0' && q[j] <= '9' {
			j++
		}
		if j == i {
			continue
		}
		n, ok := num[q[i:j]]
		if !ok {
			n = len(num)
			num[q[i:j]] = n
		}
		sb.WriteString(strconv.Itoa(n))
		i = j
	}
	return sb.String()
}

// Query renders: assumptions and not goal.
func (c *Ctx) Query(assume []*Term, goal *Term) string {
	var asserts []*Term
	for _, a := range assume {
		if a != c.True {
			asserts = append(asserts, a)
		}
	}
	asserts = append(asserts, c.Not(goal))
	used := map[*Term]bool{}
	seen := map[*Term]bool{}
	ops := map[string]bool{}
	var consts []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !ops[t.Op] {
			ops[t.Op] = true
		}
		if len(t.Args) == 0 && !used[t] {
			used[t] = true
			consts = append(consts, t)
		}
		for _, a := range t.Args {
			visit(a)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				visit(x)
			}
		}
	}
	for _, a := range asserts {
		visit(a)
	}
	// axioms attached to symbols, transitively
	var extra []*Term
	done := map[string]bool{}
	for {
		n := len(extra)
		var os []string
		for o := range ops {
			if !done[o] {
				os = append(os, o)
			}
		}
		sort.Strings(os)
		for _, o := range os {
			done[o] = true
			for _, ax := range c.symAx[o] {
				extra = append(extra, ax)
				visit(ax)
			}
		}
		for _, g := range c.guardAx {
			if g.used {
				continue
			}
			all := true
			for _, n := range g.need {
				if !ops[n] {
					all = false
					break
				}
			}
			if all {
				g.used = true
				extra = append(extra, g.ax)
				visit(g.ax)
			}
		}
		if len(extra) == n && len(os) == 0 {
			break
		}
	}
	for _, g := range c.guardAx {
		g.used = false
	}
	asserts = append(extra, asserts...)
	// literals
	var lits []*Term
	for _, t := range c.strOrd {
		if used[t] {
			lits = append(lits, t)
		}
	}
	var fl []*Term
	for _, t := range c.fltOrd {
		if used[t] {
			fl = append(fl, t)
		}
	}

	var sb strings.Builder
	sb.WriteString("(declare-sort Str 0)\n(declare-sort Flt 0)\n")
	sb.WriteString("(declare-datatypes ((Iface 0)) (((mkI (itag Int) (iref Int)))))\n")
	sb.WriteString("(declare-datatypes ((Slc 0)) (((mkS (sarr Int) (slen Int) (scap Int)))))\n")
	for _, s := range c.dtOrd {
		d := c.dts[s]
		sb.WriteString("(declare-datatypes ((" + string(s) + " 0)) (((" + d.Ctor)
		for i := range d.Sels {
			sb.WriteString(" (" + d.Sels[i] + " " + string(d.FSorts[i]) + ")")
		}
		sb.WriteString("))))\n")
	}
	for _, n := range c.dorder {
		if ops[n] {
			sb.WriteString(c.decls[n] + "\n")
		}
	}
	dist := func(l []*Term) {
		if len(l) > 1 {
			sb.WriteString("(assert (distinct")
			for _, t := range l {
				sb.WriteString(" " + t.Op)
			}
			sb.WriteString("))\n")
		}
	}
	dist(lits)
	dist(fl)
	// shared closed subterms
	cnt := map[*Term]int{}
	var count func(t *Term)
	count = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.Args {
			count(a)
		}
	}
	for _, a := range asserts {
		count(a)
	}
	named := map[*Term]string{}
	var def func(t *Term)
	vis2 := map[*Term]bool{}
	def = func(t *Term) {
		if vis2[t] {
			return
		}
		vis2[t] = true
		for _, a := range t.Args {
			def(a)
		}
		if !t.HasBV && len(t.Args) > 0 && len(t.Bound) == 0 && cnt[t] > 1 && t.size > 3 {
			n := fmt.Sprintf("t!%d", t.ID)
			sb.WriteString("(define-fun " + n + " () " + string(t.Sort) + " ")
			writeTerm(&sb, t, named, 0)
			sb.WriteString(")\n")
			named[t] = n
		}
	}
	for _, a := range asserts {
		def(a)
		sb.WriteString("(assert ")
		writeTerm(&sb, a, named, 0)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// inferPats picks triggers for a quantifier.
func inferPats(bound []*Term, body *Term) [][]*Term {
	bs := map[*Term]bool{}
	for _, b := range bound {
		bs[b] = true
	}
	type cand struct {
		t     *Term
		vars  map[*Term]bool
		arith bool
	}
	var cands []cand
	seen := map[*Term]map[*Term]bool{}
	isC := map[*Term]bool{}
	inner := map[*Term]bool{}                          // bound by inner quantifiers
	var rec func(t *Term) (map[*Term]bool, bool, bool) // vars, ok as pattern part, has arith over var
	memoOK := map[*Term]bool{}
	memoAr := map[*Term]bool{}
	rec = func(t *Term) (map[*Term]bool, bool, bool) {
		if v, ok := seen[t]; ok {
			return v, memoOK[t], memoAr[t]
		}
		vars := map[*Term]bool{}
		ok := true
		ar := false
		if bs[t] {
			vars[t] = true
		}
		if inner[t] {
			ok = false
		}
		if len(t.Bound) > 0 {
			for _, b := range t.Bound {
				inner[b] = true
			}
		}
		for _, a := range t.Args {
			v, o, r := rec(a)
			for x := range v {
				vars[x] = true
			}
			ok = ok && o
			ar = ar || r
		}
		head := false
		switch t.Op {
		case "and", "or", "not", "=>", "=", "<=", "<", "ite", "forall", "exists":
			ok = false
		case "+", "*", "-":
			if len(vars) > 0 {
				ar = true
			}
		case "constarr", "mkI", "mkS", "true", "false":
		case "store":
			// a write outside the quantifier's variables may stand inside a trigger
			ok = ok && len(vars) == 0
		default:
			head = len(t.Args) > 0
		}
		seen[t], memoOK[t], memoAr[t] = vars, ok, ar
		if head && ok && len(vars) > 0 && !isC[t] {
			isC[t] = true
			cands = append(cands, cand{t, vars, ar})
		}
		return vars, ok, ar
	}
	rec(body)
	weak := func(t *Term) bool {
		return t.Op == "itag" || t.Op == "iref" || t.Op == "sarr" || t.Op == "slen" || t.Op == "scap"
	}
	var out [][]*Term
	pick := func(allowAr, allowWeak bool) {
		for _, cd := range cands {
			if len(cd.vars) != len(bound) || (cd.arith && !allowAr) || (weak(cd.t) && !allowWeak) {
				continue
			}
			// minimal: no proper subterm candidate with all vars
			min := true
			for _, o := range cands {
				if o.t != cd.t && len(o.vars) == len(bound) && (!o.arith || allowAr) && (!weak(o.t) || allowWeak) && occurs(o.t, cd.t) {
					min = false
				}
			}
			if min {
				out = append(out, []*Term{cd.t})
			}
		}
	}
	pick(false, false)
	if len(out) == 0 {
		pick(true, false)
	}
	if len(out) == 0 && len(bound) > 1 {
		// greedy multi-pattern(s)
		sort.SliceStable(cands, func(i, j int) bool { return len(cands[i].vars) > len(cands[j].vars) })
		for start := 0; start < len(cands) && len(out) < 3; start++ {
			if weak(cands[start].t) || cands[start].arith {
				continue
			}
			cov := map[*Term]bool{}
			var mp []*Term
			add := func(cd cand) {
				n := false
				for v := range cd.vars {
					if !cov[v] {
						n = true
					}
				}
				if n {
					for v := range cd.vars {
						cov[v] = true
					}
					mp = append(mp, cd.t)
				}
			}
			add(cands[start])
			for _, cd := range cands {
				if len(cov) < len(bound) && !weak(cd.t) && !cd.arith {
					add(cd)
				}
			}
			if len(cov) == len(bound) {
				dup := false
				for _, o := range out {
					if samePat(o, mp) {
						dup = true
					}
				}
				if !dup {
					out = append(out, mp)
				}
			}
		}
	}
	if len(out) == 0 {
		pick(true, true)
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}

func samePat(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[*Term]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		if !m[x] {
			return false
		}
	}
	return true
}
