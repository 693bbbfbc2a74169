package memory_test

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
)

// vnode is a graph node, but none of memory.Node.
type vnode struct{ vplain }

type vpair struct{ f, t string }

type vlink struct {
	uid    string
	weight float64
	attrs  attrs.Attrs
}

// vgraph is what a graph should hold.
type vgraph struct {
	g        memory.Graph
	directed bool
	nodes    map[string]*memory.Node
	links    map[vpair]vlink
	hist     []string
	failed   func(prop, f string, a ...interface{})
}

var vwords = []string{"", "a", "b", "c", "d", "A"}

// IDs nodes may be made with.
var vids = []int64{0, 1, 2, 3, 4, 5, 6, 7, -1, -7, 100, 1 << 40, math.MaxInt64 - 1, math.MinInt64}

func (m *vgraph) log(f string, a ...interface{}) { m.hist = append(m.hist, fmt.Sprintf(f, a...)) }

func (m *vgraph) link(f, t string) (vlink, bool) {
	if l, ok := m.links[vpair{f, t}]; ok {
		return l, true
	}
	if !m.directed {
		l, ok := m.links[vpair{t, f}]
		return l, ok
	}
	return vlink{}, false
}

func (m *vgraph) checkEdge(what string, e graph.Edge, f, t string, w vlink) {
	x, ok := e.(*memory.Edge)
	if !ok || x == nil {
		m.failed("C08", "%s gives %T", what, e)
	}
	fn, _ := x.FromNode()
	tn, _ := x.ToNode()
	if fn != graph.Node(m.nodes[f]) || tn != graph.Node(m.nodes[t]) {
		m.failed("C08", "%s: the ends are not the nodes %q and %q of the graph", what, f, t)
	}
	if x.UID().String() != w.uid || x.Weight() != w.weight || x.Attrs() != w.attrs {
		m.failed("C08", "%s: UID %q weight %v, not UID %q weight %v and its attributes", what, x.UID().String(), x.Weight(), w.uid, w.weight)
	}
}

func (m *vgraph) check() {
	ctx := context.Background()
	ids := map[int64]bool{}
	for _, w := range vwords {
		n, err := m.g.Node(ctx, &vid{w})
		if want, ok := m.nodes[w]; ok {
			if err != nil || n != graph.Node(want) {
				m.failed("C07", "Node(%q) is not the node stored, err %v", w, err)
			}
			ids[want.ID()] = true
		} else if err != graph.ErrNodeNotFound || n != nil {
			m.failed("C07", "Node(%q) of an absent node: %v, %v", w, n, err)
		}
	}
	ns, err := m.g.Nodes(ctx)
	if err != nil {
		m.failed("C07", "Nodes: %v", err)
	}
	seen := map[graph.Node]bool{}
	for _, n := range ns {
		if n == nil || seen[n] {
			m.failed("C07", "Nodes lists %v twice or nil", n)
		}
		seen[n] = true
	}
	for _, n := range m.nodes {
		if !seen[n] {
			m.failed("C07", "Nodes does not list %q", n.UID().String())
		}
	}
	if len(seen) != len(m.nodes) || len(ids) != len(m.nodes) {
		m.failed("C07", "Nodes lists %d nodes, not %d", len(seen), len(m.nodes))
	}
	for _, f := range vwords {
		succ := map[graph.Node]bool{}
		for _, t := range vwords {
			e, err := m.g.Edge(ctx, &vid{f}, &vid{t})
			if m.nodes[f] == nil || m.nodes[t] == nil {
				if err != graph.ErrNodeNotFound || e != nil {
					m.failed("C08", "Edge(%q, %q) of an absent node: %v, %v", f, t, e, err)
				}
				continue
			}
			w, ok := m.link(f, t)
			if !ok {
				if err != graph.ErrEdgeNotExist || e != nil {
					m.failed("C08", "Edge(%q, %q) of an absent link: %v, %v", f, t, e, err)
				}
				continue
			}
			if err != nil {
				m.failed("C08", "Edge(%q, %q): %v", f, t, err)
			}
			m.checkEdge(fmt.Sprintf("Edge(%q, %q)", f, t), e, f, t, w)
			succ[m.nodes[t]] = true
		}
		from, err := m.g.From(ctx, &vid{f})
		if err != nil {
			m.failed("C08", "From(%q): %v", f, err)
		}
		for _, n := range from {
			if !succ[n] {
				m.failed("C08", "From(%q) lists what is no successor, or lists it twice", f)
			}
			delete(succ, n)
		}
		if len(succ) > 0 {
			m.failed("C08", "From(%q) misses %d successors", f, len(succ))
		}
	}
	es, err := m.g.Edges(ctx)
	if err != nil {
		m.failed("C08", "Edges: %v", err)
	}
	got := map[vpair]bool{}
	for _, e := range es {
		fn, _ := e.FromNode()
		tn, _ := e.ToNode()
		f, t := fn.UID().String(), tn.UID().String()
		w, ok := m.link(f, t)
		if !ok || got[vpair{f, t}] || !m.directed && got[vpair{t, f}] {
			m.failed("C08", "Edges lists %q to %q, which is no link or listed twice", f, t)
		}
		got[vpair{f, t}] = true
		m.checkEdge("Edges", e, f, t, w)
	}
	if len(got) != len(m.links) {
		m.failed("C08", "Edges lists %d links, not %d", len(got), len(m.links))
	}
}

func (m *vgraph) add(n graph.Node, upsert bool) {
	ctx := context.Background()
	var opts []graph.Option
	if upsert {
		opts = append(opts, graph.WithUpsert())
	}
	err := m.g.AddNode(ctx, n, opts...)
	x, ok := n.(*memory.Node)
	if !ok {
		m.log("AddNode(a %T): %v", n, err)
		if err != graph.ErrInvalidNode {
			m.failed("C07", "adding a %T gives %v", n, err)
		}
		return
	}
	k := x.UID().String()
	m.log("AddNode(%q, ID %d, upsert %v): %v", k, x.ID(), upsert, err)
	_, dup := m.nodes[k]
	dup = dup && !upsert
	for w, o := range m.nodes {
		if o.ID() == x.ID() && w != k {
			dup = true
		}
	}
	if dup {
		if err != graph.ErrDuplicateNode {
			m.failed("C07", "adding a node whose UID or ID is taken gives %v", err)
		}
		return
	}
	if err != nil {
		m.failed("C07", "AddNode gives %v", err)
	}
	m.nodes[k] = x
}

func (m *vgraph) subgraph(rnd *rand.Rand) {
	ctx := context.Background()
	root, depth := vwords[rnd.Intn(len(vwords))], rnd.Intn(5)
	g, err := m.g.SubGraph(ctx, &vid{root}, depth)
	m.log("SubGraph(%q, %d): %v", root, depth, err)
	if m.nodes[root] == nil {
		if err != graph.ErrNodeNotFound {
			m.failed("C09", "SubGraph of an absent node: %v", err)
		}
		return
	}
	if err != nil || g == nil {
		m.failed("C09", "SubGraph: %v", err)
	}
	in, last := map[string]bool{root: true}, []string{root}
	for d := 0; d < depth; d++ {
		var next []string
		for _, f := range last {
			for t := range m.nodes {
				if _, ok := m.link(f, t); ok && !in[t] {
					in[t] = true
					next = append(next, t)
				}
			}
		}
		last = next
	}
	ns, err := g.Nodes(ctx)
	if err != nil {
		m.failed("C09", "Nodes of the subgraph: %v", err)
	}
	got := map[string]bool{}
	for _, n := range ns {
		k := n.UID().String()
		if !in[k] || got[k] {
			m.failed("C09", "the subgraph has the node %q, which is not within the depth or listed twice", k)
		}
		got[k] = true
		if n.Attrs() != m.nodes[k].Attrs() {
			m.failed("C09", "the node %q of the subgraph has other attributes", k)
		}
	}
	for k := range in {
		if !got[k] {
			m.failed("C09", "the subgraph has no node %q", k)
		}
		for t := range in {
			e, err := g.Edge(ctx, &vid{k}, &vid{t})
			w, ok := m.link(k, t)
			if !ok {
				if err == nil {
					m.failed("C09", "the subgraph links %q to %q", k, t)
				}
				continue
			}
			if err != nil || e == nil {
				m.failed("C09", "the subgraph has no link from %q to %q: %v", k, t, err)
			}
			if e.Weight() != w.weight {
				m.failed("C09", "the subgraph's link from %q to %q weighs %v, not %v", k, t, e.Weight(), w.weight)
			}
			fn, _ := e.FromNode()
			tn, _ := e.ToNode()
			if fn.UID().String() != k || tn.UID().String() != t {
				m.failed("C09", "the subgraph's link from %q to %q has other ends", k, t)
			}
			x, _ := e.Attrs().Get(ctx, "k")
			y, _ := w.attrs.Get(ctx, "k")
			ks, _ := e.Attrs().Keys(ctx)
			if x != y || len(ks) != 1 {
				m.failed("C09", "the subgraph's link from %q to %q has other attributes: %q, not %q", k, t, x, y)
			}
			_ = e.Attrs().Set(ctx, "k", "changed")
			if z, _ := w.attrs.Get(ctx, "k"); z != y {
				m.failed("C09", "the subgraph's link from %q to %q shares its attributes", k, t)
			}
		}
	}
}

func vhistories(t *testing.T, prop string, rounds int64) {
	for round := int64(0); round < rounds; round++ {
		rnd := rand.New(rand.NewSource(vseed()*1000003 + round))
		m := &vgraph{directed: rnd.Intn(2) == 0, nodes: map[string]*memory.Node{}, links: map[vpair]vlink{}}
		m.failed = func(p, f string, a ...interface{}) {
			t.Helper()
			if p != prop {
				// what this property says no longer applies
				panic(vstop{})
			}
			t.Fatalf("FAILING INPUT (round %d, directed %v): %s\nhistory:\n  %s", round, m.directed, fmt.Sprintf(f, a...), strings.Join(m.hist, "\n  "))
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(vstop); ok {
						return
					}
					t.Fatalf("FAILING INPUT (round %d, directed %v): panic: %v\nhistory:\n  %s", round, m.directed, r, strings.Join(m.hist, "\n  "))
				}
			}()
			m.run(rnd)
		}()
	}
}

type vstop struct{}

func vweight(opts []graph.Option) float64 {
	o := graph.Options{}
	for _, apply := range opts {
		apply(&o)
	}
	return o.Weight
}

func (m *vgraph) run(rnd *rand.Rand) {
	ctx := context.Background()
	if m.directed {
		g, err := memory.NewWDG()
		if err != nil {
			m.failed("C07", "NewWDG: %v", err)
		}
		m.g = g
	} else {
		g, err := memory.NewWUG()
		if err != nil {
			m.failed("C07", "NewWUG: %v", err)
		}
		m.g = g
	}
	word := func() string { return vwords[rnd.Intn(len(vwords))] }
	n := 0
	for i := 0; i < 25; i++ {
		n++
		switch op := rnd.Intn(12); {
		case op < 3:
			w := word()
			a := memattrs.New()
			var ent graph.Entity = &vplain{n, &vid{w}}
			if rnd.Intn(2) == 0 {
				ent = &vdot{vplain{n, &vid{w}}, word()}
			}
			x, err := m.g.NewNode(ctx, ent, graph.WithAttrs(a))
			m.log("NewNode(%q): %v", w, err)
			if err != nil {
				m.failed("C07", "NewNode: %v", err)
			}
			if o, ok := m.nodes[w]; ok {
				if x != graph.Node(o) {
					m.failed("C07", "NewNode of the stored UID %q does not give the stored node", w)
				}
			} else {
				y, ok := x.(*memory.Node)
				if !ok || y.UID().String() != w || y.Attrs() != attrs.Attrs(a) {
					m.failed("C07", "NewNode(%q) gives another node", w)
				}
				for _, o := range m.nodes {
					if o.ID() == y.ID() {
						m.failed("C07", "NewNode gives the ID %d, which %q has", y.ID(), o.UID().String())
					}
				}
			}
			m.add(x, rnd.Intn(3) == 0)
		case op == 3:
			if rnd.Intn(10) == 0 {
				m.add(&vnode{vplain{n, &vid{word()}}}, rnd.Intn(2) == 0)
				break
			}
			x, err := memory.NewNode(vids[rnd.Intn(len(vids))], &vplain{n, &vid{word()}})
			if err != nil {
				m.failed("C07", "NewNode: %v", err)
			}
			m.add(x, rnd.Intn(3) > 0)
		case op == 4:
			w := word()
			err := m.g.RemoveNode(ctx, &vid{w})
			m.log("RemoveNode(%q): %v", w, err)
			if err != nil {
				m.failed("C07", "RemoveNode: %v", err)
			}
			delete(m.nodes, w)
			for p := range m.links {
				if p.f == w || p.t == w {
					delete(m.links, p)
				}
			}
		case op < 9:
			f, t := word(), word()
			a := memattrs.New()
			_ = a.Set(ctx, "k", strconv.Itoa(n))
			id := "l" + strconv.Itoa(n)
			if rnd.Intn(3) == 0 {
				id = word()
			}
			opts := []graph.Option{graph.WithAttrs(a), graph.WithWeight(float64(rnd.Intn(4) - 1)), graph.WithUID(&vid{id})}
			weight := vweight(opts)
			e, err := m.g.Link(ctx, &vid{f}, &vid{t}, opts...)
			m.log("Link(%q, %q): %v", f, t, err)
			if m.nodes[f] == nil || m.nodes[t] == nil {
				if !errors.Is(err, graph.ErrNodeNotFound) {
					m.failed("C08", "linking an absent node gives %v", err)
				}
				break
			}
			if f == t {
				if err == nil {
					m.failed("C08", "linking %q to itself succeeds", f)
				}
				break
			}
			if err != nil {
				m.failed("C08", "Link: %v", err)
			}
			w, ok := m.link(f, t)
			if !ok {
				w = vlink{id, weight, a}
				m.links[vpair{f, t}] = w
			}
			m.checkEdge("Link", e, f, t, w)
		case op == 9:
			f, t := word(), word()
			err := m.g.Unlink(ctx, &vid{f}, &vid{t})
			m.log("Unlink(%q, %q): %v", f, t, err)
			if err != nil {
				m.failed("C08", "Unlink: %v", err)
			}
			delete(m.links, vpair{f, t})
			if !m.directed {
				delete(m.links, vpair{t, f})
			}
		default:
			m.subgraph(rnd)
		}
		m.check()
	}
}

func TestVerifC07(t *testing.T) { vhistories(t, "C07", 6000) }
func TestVerifC08(t *testing.T) { vhistories(t, "C08", 6000) }
func TestVerifC09(t *testing.T) { vhistories(t, "C09", 6000) }

// TestVerifC12 runs the operations side by side: a lost lock is a data race or a deadlock.
func TestVerifC12(t *testing.T) {
	ctx := context.Background()
	d, err := memory.NewWDG()
	if err != nil {
		t.Fatal(err)
	}
	u, err := memory.NewWUG()
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan struct{})
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 200; i++ {
					for _, x := range []memory.Graph{d, u} {
						a, b := &vid{strconv.Itoa(i % 5)}, &vid{strconv.Itoa((i + g) % 3)}
						for _, w := range []*vid{a, b} {
							if n, err := x.NewNode(ctx, &vplain{i, w}); err == nil {
								_ = x.AddNode(ctx, n)
								_ = x.AddNode(ctx, n, graph.WithUpsert())
							}
						}
						_, _ = x.Link(ctx, a, b)
						_, _ = x.Node(ctx, a)
						_, _ = x.Nodes(ctx)
						_, _ = x.Edge(ctx, a, b)
						_, _ = x.Edges(ctx)
						_, _ = x.From(ctx, a)
						_, _ = x.SubGraph(ctx, a, 2)
						if y, ok := x.(interface{ DOT() (string, error) }); ok && i%20 == 0 {
							_, _ = y.DOT()
						}
						_ = x.Unlink(ctx, a, b)
						_ = x.RemoveNode(ctx, b)
					}
				}
			}(g)
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		panic("FAILING INPUT: four goroutines running the operations of the graph are stuck")
	}
}
