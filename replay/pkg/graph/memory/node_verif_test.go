package memory_test

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	"gonum.org/v1/gonum/graph/encoding"
)

type vid struct{ s string }

func (v *vid) String() string { return v.s }

// vplain is an entity without a DOT ID.
type vplain struct {
	n   int
	uid *vid
}

func (e *vplain) UID() uuid.UID      { return e.uid }
func (e *vplain) Type() string       { return "t" }
func (e *vplain) Attrs() attrs.Attrs { return nil }

// vdot is an entity with a DOT ID.
type vdot struct {
	vplain
	dot string
}

func (e *vdot) DOTID() string     { return e.dot }
func (e *vdot) SetDOTID(s string) { e.dot = s }

type vattrs struct {
	m    map[string]string
	fail string
}

func (a *vattrs) Keys(context.Context) ([]string, error) {
	if a.fail == "keys" {
		return nil, errors.New("keys")
	}
	var l []string
	for k := range a.m {
		l = append(l, k)
	}
	return l, nil
}

func (a *vattrs) Get(_ context.Context, k string) (string, error) {
	if a.fail == "get" {
		return "", errors.New("get")
	}
	return a.m[k], nil
}

func (a *vattrs) Set(_ context.Context, k, v string) error { a.m[k] = v; return nil }

func vseed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

func TestVerifC18(t *testing.T) {
	words := []string{"", "a", "b", "A b", "é", "x/y"}
	seen := map[string]bool{}
	for round := int64(0); round < 5000; round++ {
		rnd := rand.New(rand.NewSource(vseed()*1000003 + round))
		w := func() string { return words[rnd.Intn(len(words))] }
		var hist []string
		failed := func(f string, a ...interface{}) {
			t.Helper()
			t.Fatalf("FAILING INPUT (round %d): %s\nhistory: %s", round, fmt.Sprintf(f, a...), strings.Join(hist, " "))
		}
		var o graph.Options
		var src *vattrs
		gen := func() (l []graph.Option) {
			o = graph.Options{}
			src = nil
			for i, k := 0, rnd.Intn(5); i < k; i++ {
				switch rnd.Intn(8) {
				case 0, 1:
					o.UID = &vid{w()}
					l = append(l, graph.WithUID(o.UID))
					hist = append(hist, fmt.Sprintf("WithUID(%q)", o.UID))
				case 2, 3:
					o.DOTID = w()
					l = append(l, graph.WithDOTID(o.DOTID))
					hist = append(hist, fmt.Sprintf("WithDOTID(%q)", o.DOTID))
				case 4, 5:
					src = &vattrs{m: map[string]string{}, fail: []string{"", "", "keys", "get"}[rnd.Intn(4)]}
					for j := rnd.Intn(4); j > 0; j-- {
						src.m[w()] = w()
					}
					o.Attrs = src
					l = append(l, graph.WithAttrs(src))
					hist = append(hist, fmt.Sprintf("WithAttrs(%+v)", src))
				case 6:
					o.Weight = float64(rnd.Intn(5)) / 2
					l = append(l, graph.WithWeight(o.Weight))
					hist = append(hist, fmt.Sprintf("WithWeight(%v)", o.Weight))
				default:
					l = append(l, graph.WithName(w()), graph.WithUpsert(), graph.WithNoCache())
				}
			}
			return
		}
		dots := func(what string, l []encoding.Attribute, src *vattrs) {
			t.Helper()
			want := map[string]string{}
			if src != nil {
				want = src.m
				if src.fail != "" && (src.fail == "keys" || len(src.m) > 0) {
					if len(l) != 0 {
						failed("%s renders %v of a failing source", what, l)
					}
					return
				}
			}
			got := map[string]string{}
			for _, a := range l {
				if v, ok := want[a.Key]; !ok || v != a.Value {
					failed("%s renders %v, want %v", what, l, want)
				}
				got[a.Key] = a.Value
			}
			if len(got) != len(want) || len(l) != len(want) {
				failed("%s renders %v, want %v", what, l, want)
			}
		}
		fresh := func(what string, a attrs.Attrs) {
			t.Helper()
			if a == nil {
				failed("%s has no attributes", what)
			}
			if ks, err := a.Keys(context.Background()); err != nil || len(ks) != 0 {
				failed("%s starts with attributes %v", what, ks)
			}
			_ = a.Set(context.Background(), "verif", "1")
		}
		mkNode := func(i int64) *memory.Node {
			p := vplain{rnd.Int(), &vid{w()}}
			var e graph.Entity = &p
			want := p.uid.s
			if rnd.Intn(2) == 0 {
				d := &vdot{p, w()}
				e, want = d, d.dot
			}
			hist = append(hist, fmt.Sprintf("NewNode(%d, %T %q):", i, e, want))
			n, err := memory.NewNode(i, e, gen()...)
			if err != nil {
				failed("NewNode: %v", err)
			}
			if o.DOTID != "" {
				want = o.DOTID
			}
			if n.ID() != i || n.Entity != e || n.UID() != e.UID() || n.DOTID() != want {
				failed("the node has ID %d, entity %v, DOT ID %q; want %d, %v, %q", n.ID(), n.Entity, n.DOTID(), i, e, want)
			}
			dots("the node", n.Attributes(), src)
			if o.Attrs == nil {
				fresh("the node", n.Attrs())
			} else if n.Attrs() != o.Attrs {
				failed("the node has other attributes than given")
			}
			as := n.Attrs()
			x := w()
			n.SetDOTID(x)
			if n.DOTID() != x || n.ID() != i || n.Entity != e || n.Attrs() != as {
				failed("SetDOTID(%q) gives %+v", x, n)
			}
			return n
		}
		a, b := mkNode(rnd.Int63n(5)), mkNode(rnd.Int63n(5))
		hist = append(hist, "NewEdge:")
		e, err := memory.NewEdge(a, b, gen()...)
		if err != nil {
			failed("NewEdge: %v", err)
		}
		check := func(what string, e *memory.Edge, a, b *memory.Node, dot string, weight float64) {
			t.Helper()
			if e.From() != a || e.To() != b || e.Weight() != weight {
				failed("%s joins %v and %v with weight %v, want %v, %v, %v", what, e.From(), e.To(), e.Weight(), a, b, weight)
			}
			if n, err := e.FromNode(); err != nil || n != graph.Node(a) {
				failed("%s: FromNode %v %v", what, n, err)
			}
			if n, err := e.ToNode(); err != nil || n != graph.Node(b) {
				failed("%s: ToNode %v %v", what, n, err)
			}
			if e.DOTID() != dot {
				failed("%s has DOT ID %q, want %q", what, e.DOTID(), dot)
			}
		}
		dot := o.DOTID
		switch {
		case dot != "":
			if e.UID() == nil || e.UID().String() != dot {
				failed("the edge has UID %v, want its DOT ID %q", e.UID(), dot)
			}
		case o.UID != nil:
			if e.UID() != o.UID {
				failed("the edge has UID %v, want %v", e.UID(), o.UID)
			}
			dot = o.UID.String()
		default:
			dot = e.UID().String()
			if dot == "" || seen[dot] {
				failed("the edge's UID %q is not fresh", dot)
			}
			seen[dot] = true
		}
		check("the edge", e, a, b, dot, o.Weight)
		dots("the edge", e.Attributes(), src)
		if o.Attrs == nil {
			fresh("the edge", e.Attrs())
		} else if e.Attrs() != o.Attrs {
			failed("the edge has other attributes than given")
		}
		uid, as := e.UID(), e.Attrs()
		x := w()
		e.SetDOTID(x)
		hist = append(hist, fmt.Sprintf("SetDOTID(%q)", x))
		check("the edge after SetDOTID", e, a, b, x, o.Weight)
		r, ok := e.ReversedEdge().(*memory.Edge)
		if !ok {
			failed("ReversedEdge gives a %T", e.ReversedEdge())
		}
		check("the reversed edge", r, b, a, x, o.Weight)
		check("the edge after ReversedEdge", e, a, b, x, o.Weight)
		if e.UID() != uid || r.UID() != uid || e.Attrs() != as || r.Attrs() != as {
			failed("reversing or setting the DOT ID changes the UID or the attributes")
		}
		vgraphData(t, rnd, w, failed, &hist)
	}
}

// vgraphData checks what a graph reports about itself.
func vgraphData(t *testing.T, rnd *rand.Rand, w func() string, failed func(string, ...interface{}), hist *[]string) {
	var l []graph.Option
	var o graph.Options
	for i, k := 0, rnd.Intn(4); i < k; i++ {
		switch rnd.Intn(3) {
		case 0:
			o.UID = &vid{w()}
			l = append(l, graph.WithUID(o.UID))
		case 1:
			o.DOTID = w()
			l = append(l, graph.WithDOTID(o.DOTID))
		default:
			o.DOTOptions = graph.DOTOptions{
				GraphAttrs: memattrs.NewFromMap(map[string]string{"g": w()}),
				NodeAttrs:  memattrs.NewFromMap(map[string]string{"n": w()}),
				EdgeAttrs:  memattrs.NewFromMap(map[string]string{"e": w()}),
			}
			l = append(l, graph.WithDOTOptions(o.DOTOptions))
		}
	}
	*hist = append(*hist, fmt.Sprintf("graph: %+v", o))
	type gr interface {
		UID() uuid.UID
		DOTID() string
		DOTAttributers() (graph, node, edge encoding.Attributer)
	}
	var gs []gr
	if g, err := memory.NewWDG(l...); err != nil {
		failed("NewWDG: %v", err)
	} else {
		gs = append(gs, g)
	}
	if g, err := memory.NewWUG(l...); err != nil {
		failed("NewWUG: %v", err)
	} else {
		gs = append(gs, g)
	}
	for _, g := range gs {
		if g.UID() == nil || o.UID != nil && g.UID() != o.UID {
			failed("%T: UID %v, want %v", g, g.UID(), o.UID)
		}
		want := o.DOTID
		if want == "" {
			want = g.UID().String()
		}
		if want == "" && o.UID == nil {
			failed("%T: empty UID", g)
		}
		if g.DOTID() != want {
			failed("%T: DOT ID %q, want %q", g, g.DOTID(), want)
		}
		a, n, e := g.DOTAttributers()
		for i, p := range [][2]interface{}{{a, o.DOTOptions.GraphAttrs}, {n, o.DOTOptions.NodeAttrs}, {e, o.DOTOptions.EdgeAttrs}} {
			if p[1] != nil && p[0] != p[1] {
				failed("%T: DOT attributes %d are %v, want %v", g, i, p[0], p[1])
			}
		}
	}
}
