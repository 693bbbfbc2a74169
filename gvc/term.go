package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Sort is an SMT sort, written as in SMT-LIB.
type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SStr   Sort = "Str"
	SFlt   Sort = "Flt"
	SIface Sort = "Iface"
	SSlice Sort = "Slc"
)

func ArrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// splitArr returns key and value sort of an array sort.
func splitArr(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	str = str[7 : len(str)-1]
	d := 0
	for i := 0; i < len(str); i++ {
		switch str[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(str[:i]), Sort(str[i+1:])
			}
		}
	}
	panic("bad array sort")
}

func isArr(s Sort) bool { return strings.HasPrefix(string(s), "(Array ") }

// Term is a hash-consed SMT term.
type Term struct {
	Op   string
	Args []*Term
	Sort Sort
	ID   int
	// quantifiers
	Bound []*Term
	Pats  [][]*Term
	// free bound variables present
	HasBV bool
	size  int
}

// Ctx owns terms, declarations and datatypes. One per root function verification.
type Ctx struct {
	tab     map[string]*Term
	n       int
	decls   map[string]string // symbol -> declaration
	dorder  []string
	dts     map[Sort]*DT
	dtOrd   []Sort
	fresh   int
	strs    map[string]*Term
	flts    map[string]*Term
	symAx   map[string][]*Term // axioms included whenever the symbol is used
	guardAx []*guardAx         // axioms included when all of several symbols are used
	axKey   map[string]bool
	tags    map[string]int
	tagTyp  []types.Type
	// distinct constants
	strOrd []*Term
	fltOrd []*Term

	True, False, Zero, One, NilI *Term
	applyOpt                     func(T string, f, o *Term) *Term
}

type guardAx struct {
	need []string
	ax   *Term
	used bool
}

// DT is a single-constructor datatype (a struct).
type DT struct {
	Sort   Sort
	Ctor   string
	Sels   []string
	FSorts []Sort
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, decls: map[string]string{}, dts: map[Sort]*DT{}, strs: map[string]*Term{}, flts: map[string]*Term{}, axKey: map[string]bool{}, symAx: map[string][]*Term{}, tags: map[string]int{}}
	c.dts[SIface] = &DT{SIface, "mkI", []string{"itag", "iref"}, []Sort{SInt, SInt}}
	c.dts[SSlice] = &DT{SSlice, "mkS", []string{"sarr", "slen", "scap"}, []Sort{SInt, SInt, SInt}}
	c.True = c.mk("true", SBool)
	c.False = c.mk("false", SBool)
	c.Zero = c.Int(0)
	c.One = c.Int(1)
	c.NilI = c.mk("mkI", SIface, c.Zero, c.Zero)
	return c
}

func (c *Ctx) raw(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(string(t.Sort))
	for _, a := range t.Args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	if len(t.Bound) > 0 {
		sb.WriteByte(';')
		for _, b := range t.Bound {
			sb.WriteString(strconv.Itoa(b.ID))
			sb.WriteByte(' ')
		}
		for _, p := range t.Pats {
			sb.WriteByte('!')
			for _, x := range p {
				sb.WriteString(strconv.Itoa(x.ID))
				sb.WriteByte(' ')
			}
		}
	}
	k := sb.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.n++
	t.ID = c.n
	t.size = 1
	for _, a := range t.Args {
		t.size += a.size
		if a.HasBV {
			t.HasBV = true
		}
	}
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) mk(op string, s Sort, args ...*Term) *Term {
	return c.raw(&Term{Op: op, Args: args, Sort: s})
}

func (c *Ctx) declare(name, d string) {
	if _, ok := c.decls[name]; !ok {
		c.decls[name] = d
		c.dorder = append(c.dorder, name)
	}
}

// Const returns a named constant.
func (c *Ctx) Const(name string, s Sort) *Term {
	q := symq(name)
	c.declare(q, "(declare-fun "+q+" () "+string(s)+")")
	return c.mk(q, s)
}

func symq(n string) string {
	for i := 0; i < len(n); i++ {
		ch := n[i]
		if !(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || ch == '_' || ch == '!' || ch == '.' || ch == '$' || ch == '-') {
			return "|" + strings.ReplaceAll(strings.ReplaceAll(n, "|", "/"), "\\", "/") + "|"
		}
	}
	return n
}

// Fresh returns a fresh constant.
func (c *Ctx) Fresh(hint string, s Sort) *Term {
	c.fresh++
	return c.Const(fmt.Sprintf("%s!%d", hint, c.fresh), s)
}

// BV returns a fresh bound variable.
func (c *Ctx) BV(hint string, s Sort) *Term {
	c.fresh++
	t := c.mk(symq(fmt.Sprintf("%s?%d", hint, c.fresh)), s)
	t.HasBV = true
	return t
}

// App applies an uninterpreted function.
func (c *Ctx) App(name string, s Sort, args ...*Term) *Term {
	q := symq(name)
	if _, ok := c.decls[q]; !ok {
		ss := make([]string, len(args))
		for i, a := range args {
			ss[i] = string(a.Sort)
		}
		c.declare(q, "(declare-fun "+q+" ("+strings.Join(ss, " ")+") "+string(s)+")")
	}
	return c.mk(q, s, args...)
}

func (c *Ctx) Int(n int64) *Term {
	if n < 0 {
		return c.mk(fmt.Sprintf("(- %d)", -n), SInt)
	}
	return c.mk(strconv.FormatInt(n, 10), SInt)
}

func (t *Term) isInt() (int64, bool) {
	if t.Sort != SInt || len(t.Args) > 0 {
		return 0, false
	}
	s := t.Op
	if strings.HasPrefix(s, "(- ") {
		n, err := strconv.ParseInt(s[3:len(s)-1], 10, 64)
		return -n, err == nil
	}
	if s[0] < '0' || s[0] > '9' {
		return 0, false
	}
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Str returns the constant for a string literal.
func (c *Ctx) Str(s string) *Term {
	if t, ok := c.strs[s]; ok {
		return t
	}
	name := fmt.Sprintf("str%d_%s", len(c.strs), clean(s, 20))
	t := c.Const(name, SStr)
	c.strs[s] = t
	c.strOrd = append(c.strOrd, t)
	return t
}

// strText is the text of a literal.
func (c *Ctx) strText(t *Term) string {
	for s, x := range c.strs {
		if x == t {
			return s
		}
	}
	return "%w"
}

func clean(s string, n int) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			sb.WriteRune(r)
		}
		if sb.Len() >= n {
			break
		}
	}
	return sb.String()
}

func (c *Ctx) Flt(s string) *Term {
	if t, ok := c.flts[s]; ok {
		return t
	}
	t := c.Const("flt_"+s, SFlt)
	c.flts[s] = t
	c.fltOrd = append(c.fltOrd, t)
	return t
}

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a == c.True:
		return c.False
	case a == c.False:
		return c.True
	case a.Op == "not":
		return a.Args[0]
	}
	return c.mk("not", SBool, a)
}

func (c *Ctx) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x == c.False {
			return c.False
		}
		if x == c.True || seen[x] {
			continue
		}
		if x.Op == "and" {
			for _, y := range x.Args {
				if !seen[y] {
					seen[y] = true
					out = append(out, y)
				}
			}
			continue
		}
		seen[x] = true
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return c.True
	case 1:
		return out[0]
	}
	for _, x := range out {
		if x.Op == "not" && seen[x.Args[0]] {
			return c.False
		}
	}
	return c.mk("and", SBool, out...)
}

func (c *Ctx) Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x == c.True {
			return c.True
		}
		if x == c.False || seen[x] {
			continue
		}
		seen[x] = true
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return c.False
	case 1:
		return out[0]
	}
	for _, x := range out {
		if x.Op == "not" && seen[x.Args[0]] {
			return c.True
		}
	}
	return c.mk("or", SBool, out...)
}

func (c *Ctx) Imp(a, b *Term) *Term {
	if a == c.True {
		return b
	}
	if a == c.False || b == c.True {
		return c.True
	}
	if b == c.False {
		return c.Not(a)
	}
	if a == b {
		return c.True
	}
	return c.mk("=>", SBool, a, b)
}

func (c *Ctx) isStrLit(t *Term) bool {
	return t.Sort == SStr && len(t.Args) == 0 && strings.HasPrefix(t.Op, "str") && !strings.Contains(t.Op, "!")
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq: sort mismatch %s:%s vs %s:%s", show(a), a.Sort, show(b), b.Sort))
	}
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok {
			return c.Bool(x == y)
		}
	}
	if a.Sort == SBool {
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if c.isStrLit(a) && c.isStrLit(b) {
		return c.False
	}
	if d := c.dts[a.Sort]; d != nil && a.Op == d.Ctor && b.Op == d.Ctor {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, c.Eq(a.Args[i], b.Args[i]))
		}
		return c.And(cs...)
	}
	// nil interface comparison: tag decides
	if a.Sort == SIface {
		if a == c.NilI {
			return c.Eq(c.Sel(b, 0), c.Zero)
		}
		if b == c.NilI {
			return c.Eq(c.Sel(a, 0), c.Zero)
		}
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if x := p[0]; x.Op == "ite" && (x.Args[1] == c.NilI || x.Args[2] == c.NilI) {
				return c.Ite(x.Args[0], c.Eq(x.Args[1], p[1]), c.Eq(x.Args[2], p[1]))
			}
		}
	}
	if a.Sort == SInt {
		if a.Op == "+" || b.Op == "+" {
			// a = b  <=>  a-b = 0 on linear normal forms
			d := c.Sub(a, b)
			if n, ok := d.isInt(); ok {
				return c.Bool(n == 0)
			}
		}
	}
	if a.Op == "ite" && isConstLeaf(b) && isConstLeaf(a.Args[1]) && isConstLeaf(a.Args[2]) {
		return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
	}
	if b.Op == "ite" && isConstLeaf(a) && isConstLeaf(b.Args[1]) && isConstLeaf(b.Args[2]) {
		return c.Ite(b.Args[0], c.Eq(b.Args[1], a), c.Eq(b.Args[2], a))
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk("=", SBool, a, b)
}

func isConstLeaf(t *Term) bool {
	_, ok := t.isInt()
	return ok
}

func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k == c.True || a == b {
		return a
	}
	if k == c.False {
		return b
	}
	if a.Sort == SBool {
		if a == c.True && b == c.False {
			return k
		}
		if a == c.False && b == c.True {
			return c.Not(k)
		}
		if a == c.True {
			return c.Or(k, b)
		}
		if b == c.False {
			return c.And(k, a)
		}
		if a == c.False {
			return c.And(c.Not(k), b)
		}
		if b == c.True {
			return c.Or(c.Not(k), a)
		}
	}
	return c.mk("ite", a.Sort, k, a, b)
}

// linear integer arithmetic: flattened sum with constant
func (c *Ctx) lin(t *Term, coef int64, m map[*Term]int64, k *int64) {
	if n, ok := t.isInt(); ok {
		*k += coef * n
		return
	}
	switch t.Op {
	case "+":
		for _, a := range t.Args {
			c.lin(a, coef, m, k)
		}
		return
	case "*":
		if n, ok := t.Args[0].isInt(); ok && len(t.Args) == 2 {
			c.lin(t.Args[1], coef*n, m, k)
			return
		}
	}
	m[t] += coef
}

func (c *Ctx) fromLin(m map[*Term]int64, k int64) *Term {
	var ts []*Term
	for t, n := range m {
		if n != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	var out []*Term
	for _, t := range ts {
		if m[t] == 1 {
			out = append(out, t)
		} else {
			out = append(out, c.mk("*", SInt, c.Int(m[t]), t))
		}
	}
	if k != 0 || len(out) == 0 {
		out = append(out, c.Int(k))
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("+", SInt, out...)
}

func (c *Ctx) Add(a, b *Term) *Term {
	m := map[*Term]int64{}
	var k int64
	c.lin(a, 1, m, &k)
	c.lin(b, 1, m, &k)
	return c.fromLin(m, k)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	m := map[*Term]int64{}
	var k int64
	c.lin(a, 1, m, &k)
	c.lin(b, -1, m, &k)
	return c.fromLin(m, k)
}

func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(a, b)
	if n, ok := d.isInt(); ok {
		return c.Bool(n <= 0)
	}
	return c.mk("<=", SBool, a, b)
}

func (c *Ctx) Lt(a, b *Term) *Term {
	d := c.Sub(a, b)
	if n, ok := d.isInt(); ok {
		return c.Bool(n < 0)
	}
	return c.mk("<", SBool, a, b)
}

// Mul multiplies; linear when a side is a literal.
func (c *Ctx) Mul(a, b *Term) *Term {
	if n, ok := b.isInt(); ok {
		a, b = b, a
		_ = n
	}
	if n, ok := a.isInt(); ok {
		m := map[*Term]int64{}
		var k int64
		c.lin(b, n, m, &k)
		return c.fromLin(m, k)
	}
	return c.mk("*", SInt, a, b)
}

// Concat concatenates strings, right associated.
func (c *Ctx) Concat(a, b *Term) *Term {
	if c.strs[""] == a {
		return b
	}
	if c.strs[""] == b {
		return a
	}
	if a.Op == "strcat" {
		return c.Concat(a.Args[0], c.Concat(a.Args[1], b))
	}
	return c.App("strcat", SStr, a, b)
}

// Fold is the result of applying the first n functions of row to init.
func (c *Ctx) Fold(T string, row, n, init *Term) *Term {
	if k, ok := n.isInt(); ok {
		if k == 0 {
			return init
		}
		if k > 0 && k < 64 {
			return c.appOpt(T, c.Select(row, c.Int(k-1)), c.Fold(T, row, c.Int(k-1), init))
		}
	}
	if n.Op == "+" {
		if k, ok := n.Args[len(n.Args)-1].isInt(); ok && k > 0 && k < 16 {
			m := c.Sub(n, c.One)
			return c.appOpt(T, c.Select(row, m), c.Fold(T, row, m, init))
		}
	}
	return c.App("fold_"+T, init.Sort, row, n, init)
}

func (c *Ctx) appOpt(T string, f, o *Term) *Term {
	if c.applyOpt != nil {
		if r := c.applyOpt(T, f, o); r != nil {
			return r
		}
	}
	return c.App("app_"+T, o.Sort, f, o)
}

// Ctor builds a datatype value.
func (c *Ctx) Ctor(s Sort, args ...*Term) *Term {
	d := c.dts[s]
	if len(args) != len(d.Sels) {
		panic("ctor arity " + string(s))
	}
	// eta: mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && len(args[0].Args) == 1 && args[0].Op == d.Sels[0] {
		x := args[0].Args[0]
		ok := x.Sort == s
		for i, a := range args {
			if !(a.Op == d.Sels[i] && len(a.Args) == 1 && a.Args[0] == x) {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return c.mk(d.Ctor, s, args...)
}

// Sel selects field i of a datatype value.
func (c *Ctx) Sel(x *Term, i int) *Term {
	d := c.dts[x.Sort]
	if d == nil {
		panic("Sel on " + string(x.Sort) + " " + show(x))
	}
	if x.Op == d.Ctor {
		return x.Args[i]
	}
	if x.Op == "ite" {
		return c.Ite(x.Args[0], c.Sel(x.Args[1], i), c.Sel(x.Args[2], i))
	}
	return c.mk(d.Sels[i], d.FSorts[i], x)
}

// Upd replaces field i of a datatype value.
func (c *Ctx) Upd(x *Term, i int, v *Term) *Term {
	d := c.dts[x.Sort]
	args := make([]*Term, len(d.Sels))
	for j := range d.Sels {
		if j == i {
			args[j] = v
		} else {
			args[j] = c.Sel(x, j)
		}
	}
	return c.Ctor(x.Sort, args...)
}

// distinct reports whether a and b are certainly different.
func (c *Ctx) distinct(a, b *Term) bool {
	return c.Eq(a, b) == c.False
}

func (c *Ctx) Select(a, i *Term) *Term {
	_, vs := splitArr(a.Sort)
	for {
		if a.Op == "store" {
			e := c.Eq(a.Args[1], i)
			if e == c.True {
				return a.Args[2]
			}
			if e == c.False {
				a = a.Args[0]
				continue
			}
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	if a.Op == "ite" {
		return c.Ite(a.Args[0], c.Select(a.Args[1], i), c.Select(a.Args[2], i))
	}
	return c.mk("select", vs, a, i)
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	ks, vs := splitArr(a.Sort)
	if i.Sort != ks || v.Sort != vs {
		panic(fmt.Sprintf("store sort mismatch %s [%s] := %s", a.Sort, i.Sort, v.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return c.mk("store", a.Sort, a, i, v)
}

// ConstArr is the constant array.
func (c *Ctx) ConstArr(s Sort, v *Term) *Term {
	return c.mk("constarr", s, v)
}

// Forall builds a universal quantifier.
func (c *Ctx) Forall(bs []*Term, pats [][]*Term, body *Term) *Term {
	return c.quant("forall", bs, pats, body)
}

func (c *Ctx) Exists(bs []*Term, body *Term) *Term { return c.quant("exists", bs, nil, body) }

func (c *Ctx) quant(q string, bs []*Term, pats [][]*Term, body *Term) *Term {
	if body == c.True || body == c.False || len(bs) == 0 {
		return body
	}
	var use []*Term
	for _, b := range bs {
		if occurs(b, body) {
			use = append(use, b)
		}
	}
	if len(use) == 0 {
		return body
	}
	t := c.raw(&Term{Op: q, Args: []*Term{body}, Sort: SBool, Bound: use, Pats: pats})
	t.HasBV = hasFreeBV(t)
	return t
}

// arithInst gives instances of a quantified body that has the bound variable in comparisons only
// (so that a solver has nothing to match): the body at what the variable is compared with and next
// to it.  They follow from the quantified formula, which with them added says the same as without.
func (c *Ctx) arithInst(b, body *Term) []*Term {
	if b.Sort != SInt {
		return nil
	}
	at := map[*Term]bool{c.Zero: true}
	bad := false
	var rec func(*Term)
	rec = func(t *Term) {
		if bad || !occurs(b, t) {
			return
		}
		switch t.Op {
		case "and", "or", "not", "=>":
		case "ite":
			if t.Sort != SBool {
				bad = true
			}
		case "=", "<", "<=":
			if t.Args[0].Sort == SBool {
				break
			}
			if t.Args[0].Sort != SInt {
				bad = true
				return
			}
			m := map[*Term]int64{}
			var k int64
			c.lin(t.Args[0], 1, m, &k)
			c.lin(t.Args[1], -1, m, &k)
			n := m[b]
			delete(m, b)
			for x := range m {
				if occurs(b, x) || x.HasBV {
					bad = true
				}
			}
			if n != 1 && n != -1 || bad {
				bad = true
				return
			}
			for x := range m {
				m[x] *= -n
			}
			at[c.fromLin(m, -n*k)] = true
			return
		default:
			bad = true
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(body)
	if bad || len(at) > 8 {
		return nil
	}
	var out []*Term
	done := map[*Term]bool{}
	for t := range at {
		for _, x := range []*Term{t, c.Sub(t, c.Int(1)), c.Add(t, c.Int(1))} {
			if !done[x] {
				done[x] = true
				out = append(out, c.Subst(body, map[*Term]*Term{b: x}))
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func hasFreeBV(t *Term) bool {
	fv := map[*Term]bool{}
	freeBV(t, map[*Term]bool{}, fv)
	return len(fv) > 0
}

func freeBV(t *Term, bound, out map[*Term]bool) {
	if !t.HasBV && len(t.Bound) == 0 {
		return
	}
	if len(t.Args) == 0 {
		if t.HasBV && !bound[t] {
			out[t] = true
		}
		return
	}
	if len(t.Bound) > 0 {
		nb := map[*Term]bool{}
		for k := range bound {
			nb[k] = true
		}
		for _, b := range t.Bound {
			nb[b] = true
		}
		bound = nb
	}
	for _, a := range t.Args {
		freeBV(a, bound, out)
	}
}

func occurs(x, t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Subst replaces terms (by identity) in t and re-simplifies.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, args, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, args []*Term, rec func(*Term) *Term) *Term {
	switch t.Op {
	case "and":
		return c.And(args...)
	case "or":
		return c.Or(args...)
	case "not":
		return c.Not(args[0])
	case "=>":
		return c.Imp(args[0], args[1])
	case "=":
		return c.Eq(args[0], args[1])
	case "ite":
		return c.Ite(args[0], args[1], args[2])
	case "select":
		return c.Select(args[0], args[1])
	case "store":
		return c.Store(args[0], args[1], args[2])
	case "<=":
		return c.Le(args[0], args[1])
	case "<":
		return c.Lt(args[0], args[1])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = c.Add(r, a)
		}
		return r
	case "forall", "exists":
		pats := t.Pats
		if len(pats) > 0 {
			np := make([][]*Term, len(pats))
			for i, p := range pats {
				for _, x := range p {
					np[i] = append(np[i], rec(x))
				}
			}
			pats = np
		}
		return c.quant(t.Op, t.Bound, pats, args[0])
	}
	if d := c.dts[t.Sort]; d != nil && t.Op == d.Ctor {
		return c.Ctor(t.Sort, args...)
	}
	if T, ok := optName(t.Op, "fold_"); ok && len(args) == 3 {
		return c.Fold(T, args[0], args[1], args[2])
	}
	if T, ok := optName(t.Op, "app_"); ok && len(args) == 2 {
		return c.appOpt(T, args[0], args[1])
	}
	switch t.Op {
	case "strcat":
		return c.Concat(args[0], args[1])
	case "*":
		return c.Mul(args[0], args[1])
	}
	if len(args) == 1 {
		if d := c.dts[args[0].Sort]; d != nil {
			for i, s := range d.Sels {
				if s == t.Op {
					return c.Sel(args[0], i)
				}
			}
		}
	}
	return c.mk(t.Op, t.Sort, args...)
}

func optName(op, pre string) (string, bool) {
	op = strings.Trim(op, "|")
	if strings.HasPrefix(op, pre) {
		return op[len(pre):], true
	}
	return "", false
}

// Free collects constants (0-ary symbols) of a term.
func symbolsOf(t *Term, out map[*Term]bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if len(t.Args) == 0 {
			out[t] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

func show(t *Term) string {
	if t == nil {
		return "<nil>"
	}
	var sb strings.Builder
	writeTerm(&sb, t, nil, 400)
	return sb.String()
}

func writeTerm(sb *strings.Builder, t *Term, named map[*Term]string, limit int) {
	if limit > 0 && sb.Len() > limit {
		sb.WriteString("...")
		return
	}
	if n, ok := named[t]; ok {
		sb.WriteString(n)
		return
	}
	if len(t.Bound) > 0 {
		pats := t.Pats
		if len(pats) == 0 && limit == 0 {
			pats = inferPats(t.Bound, t.Args[0])
		}
		sb.WriteString("(" + t.Op + " (")
		for i, b := range t.Bound {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString("(" + b.Op + " " + string(b.Sort) + ")")
		}
		sb.WriteString(") ")
		if len(pats) > 0 {
			sb.WriteString("(! ")
		}
		writeTerm(sb, t.Args[0], named, limit)
		if len(pats) > 0 {
			for _, p := range pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					writeTerm(sb, x, named, limit)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	if t.Op == "constarr" {
		sb.WriteString("((as const " + string(t.Sort) + ") ")
		writeTerm(sb, t.Args[0], named, limit)
		sb.WriteString(")")
		return
	}
	if len(t.Args) == 0 {
		sb.WriteString(t.Op)
		return
	}
	sb.WriteByte('(')
	sb.WriteString(t.Op)
	for _, a := range t.Args {
		sb.WriteByte(' ')
		writeTerm(sb, a, named, limit)
	}
	sb.WriteByte(')')
}
