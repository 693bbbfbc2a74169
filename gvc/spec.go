package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Expr is a contract expression.
type Expr struct {
	Op    string // id int str flt field index call un bin forall exists if is as deref
	Name  string
	Args  []*Expr
	Typ   string
	Binds []Bind
	Trig  [][]*Expr
	Int   int64
}

type Bind struct{ Name, Typ string }

type tok struct {
	k string // id int str op eof
	s string
}

func lex(src string) ([]tok, error) {
	var out []tok
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				j++
			}
			out = append(out, tok{"str", src[i+1 : j]})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, tok{"int", src[i:j]})
			i = j
		case c == '_' || c == '$' || c == '@' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i + 1
			for j < len(src) && (src[j] == '_' || src[j] == '\'' || src[j] >= '0' && src[j] <= '9' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z') {
				j++
			}
			out = append(out, tok{"id", src[i:j]})
			i = j
		default:
			ok := false
			for _, op := range []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "{:", "(", ")", "[", "]", "{", "}", ",", ".", "!", "<", ">", "+", "-", "*", "?", ":", "=", ";"} {
				if strings.HasPrefix(src[i:], op) {
					out = append(out, tok{"op", op})
					i += len(op)
					ok = true
					break
				}
			}
			if !ok {
				return nil, fmt.Errorf("bad character %q in %q", c, src)
			}
		}
	}
	out = append(out, tok{"eof", ""})
	return out, nil
}

type parser struct {
	t   []tok
	i   int
	src string
}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *parser) isOp(s string) bool {
	t := p.peek()
	return t.k == "op" && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.isOp(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("expected %q, got %q in %q", s, p.peek().s, p.src))
	}
}

func parseExpr(src string) (e *Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("parse: %v", r)
		}
	}()
	t, err := lex(src)
	if err != nil {
		return nil, err
	}
	p := &parser{t: t, src: src}
	e = p.expr(0)
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("parse: trailing %q in %q", p.peek().s, src)
	}
	return e, nil
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "is": 5, "+": 6, "-": 6, "as": 8}

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		op := t.s
		if t.k == "id" && (op != "in" && op != "is" && op != "as") {
			break
		}
		if t.k != "op" && t.k != "id" {
			break
		}
		pr, ok := prec[op]
		if !ok || pr < min {
			break
		}
		p.next()
		switch op {
		case "is", "as":
			l = &Expr{Op: op, Args: []*Expr{l}, Typ: p.typ()}
			if op == "as" {
				l = p.postfix(l)
			}
		case "==>":
			r := p.expr(pr)
			l = &Expr{Op: "bin", Name: op, Args: []*Expr{l, r}}
		default:
			r := p.expr(pr + 1)
			l = &Expr{Op: "bin", Name: op, Args: []*Expr{l, r}}
			// chained comparison a <= b < c
			for (op == "<" || op == "<=") && (p.isOp("<") || p.isOp("<=")) {
				o2 := p.next().s
				r2 := p.expr(pr + 1)
				l = &Expr{Op: "bin", Name: "&&", Args: []*Expr{l, {Op: "bin", Name: o2, Args: []*Expr{r, r2}}}}
				r = r2
				op = o2
			}
		}
	}
	return l
}

func (p *parser) unary() *Expr {
	t := p.peek()
	if t.k == "op" {
		switch t.s {
		case "!", "-":
			p.next()
			return &Expr{Op: "un", Name: t.s, Args: []*Expr{p.unary()}}
		case "*":
			p.next()
			return &Expr{Op: "deref", Args: []*Expr{p.unary()}}
		}
	}
	if t.k == "id" {
		switch t.s {
		case "forall", "exists":
			p.next()
			var bs []Bind
			for {
				n := p.next().s
				names := []string{n}
				for p.accept(",") {
					names = append(names, p.next().s)
				}
				ty := p.typ()
				for _, n := range names {
					bs = append(bs, Bind{n, ty})
				}
				if !p.accept(";") {
					break
				}
			}
			var trig [][]*Expr
			for p.accept("{:") {
				var g []*Expr
				for {
					g = append(g, p.expr(0))
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				trig = append(trig, g)
			}
			p.expect("::")
			return &Expr{Op: t.s, Binds: bs, Trig: trig, Args: []*Expr{p.expr(0)}}
		case "if":
			p.next()
			c := p.expr(0)
			if p.next().s != "then" {
				panic("expected then in " + p.src)
			}
			a := p.expr(0)
			if p.next().s != "else" {
				panic("expected else in " + p.src)
			}
			b := p.expr(0)
			return &Expr{Op: "if", Args: []*Expr{c, a, b}}
		}
	}
	return p.postfix(p.primary())
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "int":
		n, _ := strconv.ParseInt(t.s, 10, 64)
		return &Expr{Op: "int", Int: n}
	case "str":
		return &Expr{Op: "str", Name: t.s}
	case "id":
		if t.s == "zero" || t.s == "nilof" || t.s == "box" || t.s == "typetag" || t.s == "emptyset" || t.s == "emptymap" {
			// type argument
			p.expect("(")
			ty := p.typ()
			e := &Expr{Op: t.s, Typ: ty}
			for p.accept(",") {
				e.Args = append(e.Args, p.expr(0))
			}
			p.expect(")")
			return e
		}
		return &Expr{Op: "id", Name: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.expect(")")
			return e
		}
	}
	panic(fmt.Sprintf("unexpected %q in %q", t.s, p.src))
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.accept("."):
			n := p.next()
			e = &Expr{Op: "field", Name: n.s, Args: []*Expr{e}}
		case p.accept("["):
			i := p.expr(0)
			p.expect("]")
			e = &Expr{Op: "index", Args: []*Expr{e, i}}
		case p.accept("("):
			args := []*Expr{e}
			for !p.isOp(")") {
				args = append(args, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = &Expr{Op: "call", Args: args}
		default:
			return e
		}
	}
}

// typ parses a type and returns its text.
func (p *parser) typ() string {
	switch {
	case p.accept("*"):
		return "*" + p.typ()
	case p.accept("["):
		p.expect("]")
		return "[]" + p.typ()
	}
	t := p.next()
	if t.k != "id" {
		panic(fmt.Sprintf("type expected, got %q in %q", t.s, p.src))
	}
	if t.s == "map" {
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "map[" + k + "]" + p.typ()
	}
	if t.s == "chan" {
		return "chan " + p.typ()
	}
	if t.s == "set" || t.s == "fmap" {
		p.expect("[")
		k := p.typ()
		p.expect("]")
		if t.s == "set" {
			return "set[" + k + "]"
		}
		return "fmap[" + k + "]" + p.typ()
	}
	s := t.s
	if p.isOp(".") {
		p.next()
		s += "." + p.next().s
	}
	if t.s == "struct" || t.s == "interface" {
		p.expect("{")
		p.expect("}")
		s += "{}"
	}
	return s
}

// Clause is one line of a contract.
type Clause struct {
	Kind   string
	Labels []string
	Text   string
	E      *Expr
	ID     string
	// modifies
	Comp string
	Locs []*Expr
	Bind *Bind
}

// Contract of a function or interface method.
type Contract struct {
	Key     string
	Recv    string
	RecvTyp string
	Params  []string
	Results []string
	Props   []string
	Req     []*Clause
	Ens     []*Clause
	Mod     []*Clause
	Inv     []*Clause
	Ret     []*Clause
	OnCall  []*Clause
	OnRel   []*Clause // what holds at each exclusive release (old: at the acquisition)
	GoRel   []*Clause // the same for the goroutines it starts
	GoExit  []*Clause // what holds when such a goroutine ends
	GoStep  []*Clause // what one step of their loops does (events of the step)
	Step    *Clause
	Flags   map[string]string
	File    *SpecFile
	Iface   string
}

type Fun struct {
	Name     string
	Params   []Bind
	Body     *Expr
	Res      string
	File     *SpecFile
	Uninterp bool
}

// Impl says that a concrete type is verified against an interface's contracts.
type Impl struct {
	Typ, Iface string
	File       *SpecFile
}

type SpecFile struct {
	Path    string
	Pkg     *types.Package
	Imports map[string]string
	Specs   *Specs
}

type Ghost struct {
	Name string
	Args []string // key types
	Val  string
	File *SpecFile
	Deep bool
}

type Guard struct {
	Typ   string // short type name
	Field string
	Mu    string
	Deep  bool
}

// Specs is everything in the contract files.
type Specs struct {
	prog       *Prog
	Funcs      map[string]*Contract
	Ifaces     map[string]*Contract // "pkg.Iface.Method"
	Funs       map[string]*Fun      // by "pkgpath.name" and name
	Ghosts     map[string]*Ghost
	Immutable  map[string]bool // "type.field" or "*type" cells
	Guards     map[string]*Guard
	Pure       map[string]bool // method names that are state independent
	Monitors   map[string][]*Clause
	MonFile    map[string]*SpecFile
	MonRecv    map[string]string
	Files      []*SpecFile
	Assumes    []string
	Errs       []loadErr
	JSON       [][3]string
	JSONPkg    []*types.Package
	Lemmas     []*Clause
	NonNil     map[string]bool
	OpenRoles  map[string]bool
	RoleInv    map[string]bool
	RoleClause map[string]*Clause
	RoleFile   map[string]*SpecFile
	Impls      []Impl
	Reps       []*Rep
	Models     map[string]string // full name -> short name of the function that stands for it
	Reads      map[string]bool // iface methods that only read the guarded object
	errs       []string
}

var clauseKw = map[string]bool{"package": true, "import": true, "immutable": true, "guard": true, "ghost": true, "fun": true, "func": true, "iface": true, "method": true, "props": true, "requires": true, "ensures": true, "modifies": true, "loopinv": true, "flag": true, "pure": true, "extern": true, "monitor": true, "moninv": true, "assumption": true, "oncall": true, "ufun": true, "reads": true, "axiom": true, "nonnil": true, "open": true, "rolerecv": true, "impl": true, "deepghost": true, "loopstep": true, "jsonrecord": true, "onrelease": true, "gorelease": true, "goexit": true, "gostep": true, "rep": true, "repfun": true, "repmod": true, "repreq": true, "model": true}

// Rep says what the ghost state of an interface contract is for one implementation.
type Rep struct {
	Typ, Recv string
	File      *SpecFile
	Funs      map[string]*Fun
	Mod       []*Clause
	Req       []*Clause // holds of every object the package makes
}

type loadErr struct {
	file, text string
	err        error
}

func loadSpecs(prog *Prog, dir string) (*Specs, error) {
	s := &Specs{prog: prog, Models: map[string]string{}, Funcs: map[string]*Contract{}, Ifaces: map[string]*Contract{}, Funs: map[string]*Fun{}, Ghosts: map[string]*Ghost{}, Immutable: map[string]bool{}, Guards: map[string]*Guard{}, Pure: map[string]bool{}, Monitors: map[string][]*Clause{}, MonFile: map[string]*SpecFile{}, MonRecv: map[string]string{}, Reads: map[string]bool{}, NonNil: map[string]bool{}, OpenRoles: map[string]bool{}, RoleInv: map[string]bool{}, RoleClause: map[string]*Clause{}, RoleFile: map[string]*SpecFile{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := s.load(f); err != nil {
			// only the properties that the file speaks of are affected directly
			b, _ := os.ReadFile(f)
			s.Errs = append(s.Errs, loadErr{f, string(b), err})
		}
	}
	return s, nil
}

func firstWord(l string) string {
	l = strings.TrimSpace(l)
	if i := strings.IndexAny(l, " \t("); i >= 0 {
		return l[:i]
	}
	return l
}

func (s *Specs) load(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	f := &SpecFile{Path: path, Imports: map[string]string{}, Specs: s}
	s.Files = append(s.Files, f)
	var items []string
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, "#"); i >= 0 {
			l = l[:i]
		}
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		if clauseKw[firstWord(l)] {
			items = append(items, strings.TrimSpace(l))
		} else if len(items) > 0 {
			items[len(items)-1] += " " + strings.TrimSpace(l)
		}
	}
	var cur *Contract
	var iface string
	nclause := 0
	for _, it := range items {
		kw := firstWord(it)
		rest := strings.TrimSpace(it[len(kw):])
		switch kw {
		case "package":
			p := rest
			if p == "netscrape" {
				p = modPath
			} else if _, ok := s.prog.tpkgs[p]; !ok {
				p = modPath + "/pkg/" + rest
			}
			f.Pkg = s.prog.tpkgs[p]
			if f.Pkg == nil {
				return fmt.Errorf("no package %s", rest)
			}
			cur = nil
		case "import":
			w := strings.Fields(rest)
			p := w[1]
			if p == "netscrape" {
				p = modPath
			} else if s.prog.tpkgs[modPath+"/pkg/"+p] != nil {
				p = modPath + "/pkg/" + p
			}
			if s.prog.tpkgs[p] == nil {
				return fmt.Errorf("no package %s", w[1])
			}
			f.Imports[w[0]] = p
		case "immutable":
			for _, w := range strings.Fields(rest) {
				w = strings.Trim(w, ",")
				if strings.HasPrefix(w, "*") {
					s.Immutable["*"+shortPkg(f.Pkg.Path())+"."+w[1:]] = true
				} else {
					s.Immutable[shortPkg(f.Pkg.Path())+"."+w] = true
				}
			}
		case "model":
			i := strings.LastIndex(rest, " by ")
			if i < 0 {
				return fmt.Errorf("model %s", rest)
			}
			s.Models[strings.Trim(strings.TrimSpace(rest[:i]), "\"")] = shortPkg(f.Pkg.Path()) + "." + strings.TrimSpace(rest[i+4:])
		case "pure":
			for _, w := range strings.Fields(rest) {
				s.Pure[strings.Trim(w, ",")] = true
			}
		case "reads":
			for _, w := range strings.Fields(rest) {
				s.Reads[strings.Trim(w, ",")] = true
			}
		case "nonnil":
			for _, w := range strings.Fields(rest) {
				s.NonNil[strings.Trim(w, ",")] = true
			}
		case "open":
			for _, w := range strings.Fields(rest) {
				s.OpenRoles[shortPkg(f.Pkg.Path())+"."+strings.Trim(w, ",")] = true
			}
		case "rolerecv":
			// rolerecv Type.field expr over ch, x
			w := strings.SplitN(rest, " ", 2)
			cl, err := parseClause(kw, w[1])
			if err != nil {
				return err
			}
			k := shortPkg(f.Pkg.Path()) + "." + w[0]
			cl.ID = "rolerecv:" + k
			s.RoleInv[k] = true
			s.RoleClause[k] = cl
			s.RoleFile[k] = f
		case "impl":
			w := strings.Fields(rest)
			s.Impls = append(s.Impls, Impl{w[0], w[1], f})
		case "rep":
			// rep *T recv
			w := strings.Fields(rest)
			s.Reps = append(s.Reps, &Rep{Typ: w[0], Recv: w[1], File: f, Funs: map[string]*Fun{}})
		case "repmod":
			cls, err := parseModifies(rest)
			if err != nil {
				return err
			}
			r := s.Reps[len(s.Reps)-1]
			r.Mod = append(r.Mod, cls...)
		case "repreq":
			r := s.Reps[len(s.Reps)-1]
			cl, err := parseClause(kw, rest)
			if err != nil {
				return err
			}
			cl.ID = "repreq:" + r.Typ
			r.Req = append(r.Req, cl)
		case "repfun":
			r := s.Reps[len(s.Reps)-1]
			fn, err := parseFun(f, rest, false)
			if err != nil {
				return err
			}
			fn.Params = append([]Bind{{r.Recv, r.Typ}}, fn.Params...)
			r.Funs[fn.Name] = fn
		case "jsonrecord":
			// jsonrecord Type Cxx: every field survives JSON encoding
			w := strings.Fields(rest)
			s.JSON = append(s.JSON, [3]string{shortPkg(f.Pkg.Path()) + "." + w[0], w[1], w[0]})
			s.JSONPkg = append(s.JSONPkg, f.Pkg)
		case "assumption":
			s.Assumes = append(s.Assumes, rest)
		case "guard":
			// guard Type.field by mu [deep]
			w := strings.Fields(rest)
			tf := strings.SplitN(w[0], ".", 2)
			g := &Guard{Typ: shortPkg(f.Pkg.Path()) + "." + tf[0], Field: tf[1], Mu: w[2], Deep: len(w) > 3}
			s.Guards[g.Typ+"."+g.Field] = g
		case "ghost", "deepghost":
			// ghost name(T, T) T
			i := strings.Index(rest, "(")
			j := strings.LastIndex(rest, ")")
			g := &Ghost{Name: strings.TrimSpace(rest[:i]), File: f, Val: strings.TrimSpace(rest[j+1:])}
			for _, a := range strings.Split(rest[i+1:j], ",") {
				if a = strings.TrimSpace(a); a != "" {
					g.Args = append(g.Args, a)
				}
			}
			g.Deep = kw == "deepghost"
			s.Ghosts[g.Name] = g
		case "fun", "ufun":
			fn, err := parseFun(f, rest, kw == "ufun")
			if err != nil {
				return err
			}
			key := fmt.Sprintf("%s/%d", fn.Name, len(fn.Params))
			if _, ok := s.Funs[key]; ok {
				return fmt.Errorf("fun %s redefined", key)
			}
			s.Funs[key] = fn
		case "axiom":
			e, err := parseExpr(rest)
			if err != nil {
				return err
			}
			s.Lemmas = append(s.Lemmas, &Clause{Kind: "axiom", E: e, Text: rest, Comp: path})
		case "iface":
			iface = rest
			cur = nil
		case "monitor":
			// monitor Type recv
			w := strings.Fields(rest)
			iface = "monitor:" + shortPkg(f.Pkg.Path()) + "." + w[0]
			s.MonRecv[shortPkg(f.Pkg.Path())+"."+w[0]] = w[1]
			s.MonFile[shortPkg(f.Pkg.Path())+"."+w[0]] = f
			cur = nil
		case "moninv":
			cl, err := parseClause(kw, rest)
			if err != nil {
				return err
			}
			k := strings.TrimPrefix(iface, "monitor:")
			cl.ID = fmt.Sprintf("%s.inv%d", k, len(s.Monitors[k]))
			s.Monitors[k] = append(s.Monitors[k], cl)
		case "func", "method", "extern":
			if kw == "extern" {
				rest = strings.TrimSpace(strings.TrimPrefix(rest, "func"))
			}
			c, err := parseHeader(rest)
			if err != nil {
				return err
			}
			c.File = f
			c.Flags = map[string]string{}
			switch kw {
			case "method":
				n := iface
				if !strings.Contains(n, ".") {
					n = shortPkg(f.Pkg.Path()) + "." + n
				} else {
					w := strings.SplitN(n, ".", 2)
					n = shortPkg(f.Imports[w[0]]) + "." + w[1]
				}
				c.Iface = n
				c.Recv = "self"
				c.Key = n + "." + c.Key
				s.Ifaces[c.Key] = c
			default:
				if kw == "extern" {
					c.Flags["extern"] = "1"
				}
				if c.RecvTyp != "" {
					c.Key = shortPkg(f.Pkg.Path()) + ".(" + strings.TrimPrefix(c.RecvTyp, "*") + ")." + c.Key
				} else {
					c.Key = shortPkg(f.Pkg.Path()) + "." + c.Key
				}
				s.Funcs[c.Key] = c
			}
			cur = c
			nclause = 0
		case "props":
			cur.Props = strings.Fields(strings.ReplaceAll(rest, ",", " "))
		case "flag":
			w := strings.SplitN(rest, " ", 2)
			v := "1"
			if len(w) > 1 {
				v = w[1]
			}
			cur.Flags[w[0]] = v
		case "modifies":
			cls, err := parseModifies(rest)
			if err != nil {
				return fmt.Errorf("%s: %v", cur.Key, err)
			}
			cur.Mod = append(cur.Mod, cls...)
		case "loopstep":
			// loopstep (T).Method(arg, ..) : len
			j := strings.LastIndex(rest, ":")
			cl := &Clause{Kind: kw, Text: rest, ID: cur.Key + "/loopstep"}
			if strings.HasPrefix(rest, "[") {
				k := strings.Index(rest, "]")
				cl.Labels = strings.Fields(strings.ReplaceAll(rest[1:k], ",", " "))
				rest = strings.TrimSpace(rest[k+1:])
				j = strings.LastIndex(rest, ":")
			}
			k := strings.Index(rest, ").") + 2
			k += strings.Index(rest[k:], "(")
			cl.Comp = strings.TrimSpace(rest[:k])
			for _, a := range splitTop(rest[k+1:strings.LastIndex(rest[:j], ")")], ',') {
				x, err := parseExpr(a)
				if err != nil {
					return err
				}
				cl.Locs = append(cl.Locs, x)
			}
			x, err := parseExpr(rest[j+1:])
			if err != nil {
				return err
			}
			cl.E = x
			cur.Step = cl
		case "requires", "ensures", "loopinv", "oncall", "onrelease", "gorelease", "goexit", "gostep":
			cl, err := parseClause(kw, rest)
			if err != nil {
				return fmt.Errorf("%s: %v", cur.Key, err)
			}
			nclause++
			cl.ID = fmt.Sprintf("%s/%s%d", cur.Key, kw, nclause)
			switch kw {
			case "requires":
				cur.Req = append(cur.Req, cl)
			case "ensures":
				cur.Ens = append(cur.Ens, cl)
			case "loopinv":
				cur.Inv = append(cur.Inv, cl)
			case "oncall":
				cur.OnCall = append(cur.OnCall, cl)
			case "onrelease":
				cur.OnRel = append(cur.OnRel, cl)
			case "gorelease":
				cur.GoRel = append(cur.GoRel, cl)
			case "gostep":
				cur.GoStep = append(cur.GoStep, cl)
			case "goexit":
				cur.GoExit = append(cur.GoExit, cl)
			}
		}
	}
	return nil
}

func parseClause(kw, rest string) (*Clause, error) {
	cl := &Clause{Kind: kw}
	if strings.HasPrefix(rest, "[") {
		j := strings.Index(rest, "]")
		for _, l := range strings.Fields(strings.ReplaceAll(rest[1:j], ",", " ")) {
			cl.Labels = append(cl.Labels, l)
		}
		rest = strings.TrimSpace(rest[j+1:])
	}
	cl.Text = rest
	if kw == "oncall" {
		// oncall name: expr
		j := strings.Index(rest, ":")
		cl.Comp = strings.TrimSpace(rest[:j])
		rest = rest[j+1:]
	}
	e, err := parseExpr(rest)
	if err != nil {
		return nil, err
	}
	cl.E = e
	return cl, nil
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case sep:
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	out = append(out, strings.TrimSpace(s[st:]))
	return out
}

// modifies items:
//
//	Type.field(expr)      field of the object
//	map(expr)             contents of a map
//	maps(T) m :: pred     contents of every map m of type T with pred
//	elems(expr)           elements of a slice
//	cell(expr)            what a pointer points to
//	ghost name(expr)      ghost state at a key
//	any Comp              whole component
func parseModifies(rest string) ([]*Clause, error) {
	var out []*Clause
	for _, it := range splitTop(rest, ',') {
		cl := &Clause{Kind: "modifies", Text: it}
		switch {
		case strings.HasPrefix(it, "maps("):
			j := strings.Index(it, ")")
			cl.Comp = "maps:" + it[5:j]
			r := strings.TrimSpace(it[j+1:])
			k := strings.Index(r, "::")
			cl.Bind = &Bind{strings.TrimSpace(r[:k]), it[5:j]}
			e, err := parseExpr(r[k+2:])
			if err != nil {
				return nil, err
			}
			cl.E = e
		case strings.HasPrefix(it, "any "):
			cl.Comp = "any:" + strings.TrimSpace(it[4:])
		case strings.HasPrefix(it, "ghost "):
			r := strings.TrimSpace(it[6:])
			i := strings.Index(r, "(")
			if i < 0 {
				cl.Comp = "anyghost:" + r
				break
			}
			cl.Comp = "ghost:" + r[:i]
			e, err := parseExpr(r[i+1 : len(r)-1])
			if err != nil {
				return nil, err
			}
			cl.E = e
		default:
			i := strings.Index(it, "(")
			h := it[:i]
			e, err := parseExpr(it[i+1 : len(it)-1])
			if err != nil {
				return nil, err
			}
			cl.E = e
			if h == "map" || h == "elems" || h == "cell" {
				cl.Comp = h
			} else {
				cl.Comp = "field:" + h
			}
		}
		out = append(out, cl)
	}
	return out, nil
}

func parseHeader(h string) (*Contract, error) {
	c := &Contract{}
	h = strings.TrimSpace(h)
	if strings.HasPrefix(h, "(") {
		j := strings.Index(h, ")")
		w := strings.Fields(h[1:j])
		if len(w) == 2 {
			c.Recv, c.RecvTyp = w[0], w[1]
		} else {
			return nil, fmt.Errorf("bad receiver in %q", h)
		}
		h = strings.TrimSpace(h[j+1:])
	}
	i := strings.Index(h, "(")
	if i < 0 {
		return nil, fmt.Errorf("bad header %q", h)
	}
	c.Key = strings.TrimSpace(h[:i])
	j := strings.Index(h, ")")
	for _, a := range strings.Split(h[i+1:j], ",") {
		if a = strings.TrimSpace(a); a != "" {
			c.Params = append(c.Params, strings.Fields(a)[0])
		}
	}
	r := strings.TrimSpace(h[j+1:])
	r = strings.Trim(r, "()")
	for _, a := range strings.Split(r, ",") {
		if a = strings.TrimSpace(a); a != "" {
			c.Results = append(c.Results, strings.Fields(a)[0])
		}
	}
	return c, nil
}

// resolveType turns the text of a type into a type.
func (f *SpecFile) resolveType(s string) (types.Type, error) {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "*"):
		t, err := f.resolveType(s[1:])
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case strings.HasPrefix(s, "[]"):
		t, err := f.resolveType(s[2:])
		if err != nil {
			return nil, err
		}
		return types.NewSlice(t), nil
	case strings.HasPrefix(s, "chan "):
		t, err := f.resolveType(s[5:])
		if err != nil {
			return nil, err
		}
		return types.NewChan(types.SendRecv, t), nil
	case strings.HasPrefix(s, "set["):
		k, err := f.resolveType(s[4 : len(s)-1])
		if err != nil {
			return nil, err
		}
		return &MathMap{k, tBool}, nil
	case strings.HasPrefix(s, "fmap["):
		d := 0
		for i := 4; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					k, err := f.resolveType(s[5:i])
					if err != nil {
						return nil, err
					}
					v, err := f.resolveType(s[i+1:])
					if err != nil {
						return nil, err
					}
					return &MathMap{k, v}, nil
				}
			}
		}
	case strings.HasPrefix(s, "map["):
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					k, err := f.resolveType(s[4:i])
					if err != nil {
						return nil, err
					}
					v, err := f.resolveType(s[i+1:])
					if err != nil {
						return nil, err
					}
					return types.NewMap(k, v), nil
				}
			}
		}
	case s == "any" || s == "interface{}":
		return types.NewInterfaceType(nil, nil), nil
	case s == "ref":
		return types.Typ[types.UnsafePointer], nil
	case s == "struct{}":
		return types.NewStruct(nil, nil), nil
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type(), nil
		}
	}
	pkg := f.Pkg
	name := s
	if i := strings.Index(s, "."); i >= 0 {
		ip, ok := f.Imports[s[:i]]
		if !ok {
			return nil, fmt.Errorf("%s: unknown package %s", f.Path, s[:i])
		}
		pkg = f.Specs.prog.tpkgs[ip]
		name = s[i+1:]
	}
	o := pkg.Scope().Lookup(name)
	if o == nil {
		return nil, fmt.Errorf("%s: unknown type %s", f.Path, s)
	}
	return o.Type(), nil
}

func parseFun(f *SpecFile, rest string, ufun bool) (*Fun, error) {
	// fun name(a T, b T) R = expr
	i := strings.Index(rest, "(")
	name := strings.TrimSpace(rest[:i])
	d := 0
	j := i
	for ; j < len(rest); j++ {
		if rest[j] == '(' {
			d++
		}
		if rest[j] == ')' {
			d--
			if d == 0 {
				break
			}
		}
	}
	fn := &Fun{Name: name, File: f}
	for _, a := range strings.Split(rest[i+1:j], ",") {
		a = strings.TrimSpace(a)
		if a == "" {
			continue
		}
		k := strings.IndexAny(a, " ")
		fn.Params = append(fn.Params, Bind{a[:k], strings.TrimSpace(a[k+1:])})
	}
	after := strings.TrimSpace(rest[j+1:])
	if ufun {
		fn.Uninterp = true
		fn.Res = after
	} else {
		k := strings.Index(after, "=")
		fn.Res = strings.TrimSpace(after[:k])
		e, err := parseExpr(after[k+1:])
		if err != nil {
			return nil, fmt.Errorf("fun %s: %v", name, err)
		}
		fn.Body = e
	}
	return fn, nil
}
