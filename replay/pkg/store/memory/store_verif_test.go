package memory_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	gm "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/store"
	"github.com/milosgajdos/netscrape/pkg/store/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

type vid struct{ s string }

func (v *vid) String() string { return v.s }

type vent struct {
	n   int
	uid uuid.UID
}

func (e *vent) UID() uuid.UID      { return e.uid }
func (e *vent) Type() string       { return "t" }
func (e *vent) Attrs() attrs.Attrs { return nil }

// vfault is a graph some of whose calls fail.
type vfault struct {
	gm.Graph
	at  int // the calls until one fails, if positive
	err error
	hit bool
}

func (g *vfault) fail() bool {
	if g.at > 0 {
		g.at--
		if g.at == 0 {
			g.hit = true
			return true
		}
	}
	return false
}

func (g *vfault) NewNode(ctx context.Context, e graph.Entity, o ...graph.Option) (graph.Node, error) {
	if g.fail() {
		return nil, g.err
	}
	return g.Graph.NewNode(ctx, e, o...)
}

func (g *vfault) AddNode(ctx context.Context, n graph.Node, o ...graph.Option) error {
	if g.fail() {
		return g.err
	}
	return g.Graph.AddNode(ctx, n, o...)
}

func (g *vfault) Node(ctx context.Context, u uuid.UID) (graph.Node, error) {
	if g.fail() {
		return nil, g.err
	}
	return g.Graph.Node(ctx, u)
}

func (g *vfault) RemoveNode(ctx context.Context, u uuid.UID, o ...graph.Option) error {
	if g.fail() {
		return g.err
	}
	return g.Graph.RemoveNode(ctx, u, o...)
}

func (g *vfault) Link(ctx context.Context, f, t uuid.UID, o ...graph.Option) (graph.Edge, error) {
	if g.fail() {
		return nil, g.err
	}
	return g.Graph.Link(ctx, f, t, o...)
}

func (g *vfault) Unlink(ctx context.Context, f, t uuid.UID, o ...graph.Option) error {
	if g.fail() {
		return g.err
	}
	return g.Graph.Unlink(ctx, f, t, o...)
}

var vwords = []string{"", "a", "b", "c", "A"}

var verrs = []error{errors.New("boom"), io.EOF, context.Canceled, graph.ErrEdgeNotExist, graph.ErrUnsupported, graph.ErrInvalidNode, store.ErrNotExist, store.ErrUnsupported}

type vpair struct{ f, t string }

type vnode struct {
	e store.Entity
	a attrs.Attrs
}

type vstop struct{}

// vstore is what a store should hold.
type vstore struct {
	s        *memory.Memory
	g        *vfault // nil: a graph that does not fail
	raw      gm.Graph
	directed bool
	nodes    map[string]vnode
	links    map[vpair]attrs.Attrs
	hist     []string
	failed   func(prop, f string, a ...interface{})
}

func (m *vstore) log(f string, a ...interface{}) { m.hist = append(m.hist, fmt.Sprintf(f, a...)) }

func (m *vstore) link(f, t string) (attrs.Attrs, bool) {
	if a, ok := m.links[vpair{f, t}]; ok {
		return a, true
	}
	if !m.directed {
		a, ok := m.links[vpair{t, f}]
		return a, ok
	}
	return nil, false
}

func (m *vstore) isNode(what string, x store.Entity, w vnode) string {
	n, ok := x.(*gm.Node)
	if !ok || n == nil {
		return fmt.Sprintf("%s gives a %T", what, x)
	}
	if n.Entity != graph.Entity(w.e) {
		return fmt.Sprintf("%s does not give the entity stored", what)
	}
	if w.a != nil && n.Attrs() != w.a || n.Attrs() == nil {
		return fmt.Sprintf("%s gives other attributes", what)
	}
	return ""
}

func (m *vstore) check(prop string) {
	ctx := context.Background()
	if m.g != nil {
		m.g.at = 0
	}
	for _, w := range vwords {
		x, err := m.s.Get(ctx, &vid{w})
		want, ok := m.nodes[w]
		if !ok {
			if err != store.ErrEntityNotFound || x != nil {
				m.failed(prop, "Get(%q) of an absent entity: %v, %v", w, x, err)
			}
			continue
		}
		if err != nil {
			m.failed(prop, "Get(%q): %v", w, err)
		}
		if s := m.isNode(fmt.Sprintf("Get(%q)", w), x, want); s != "" {
			m.failed(prop, "%s", s)
		}
	}
	n := 0
	for _, f := range vwords {
		for _, t := range vwords {
			e, err := m.raw.Edge(ctx, &vid{f}, &vid{t})
			a, ok := m.link(f, t)
			if ok != (err == nil) {
				m.failed(prop, "%q is linked to %q: %v (%v)", f, t, err == nil, err)
			}
			if ok && (e.Attrs() == nil || a != nil && e.Attrs() != a) {
				m.failed(prop, "the link from %q to %q has other attributes", f, t)
			}
			if ok {
				n++
			}
		}
	}
}

// arm makes one of the next calls of the graph fail, or none.
func (m *vstore) arm(rnd *rand.Rand, n int) {
	if m.g == nil {
		return
	}
	m.g.at, m.g.hit = 0, false
	if rnd.Intn(3) == 0 {
		m.g.at, m.g.err = 1+rnd.Intn(2*n), verrs[rnd.Intn(len(verrs))]
		m.log("  the graph's call number %d will fail with %q", m.g.at, m.g.err)
	}
}

// outcome judges the error of a call: of the graph, or want.
func (m *vstore) outcome(prop, what string, err, want error) bool {
	if m.g != nil && m.g.hit {
		if err != m.g.err {
			m.failed(prop, "%s: the graph failed with %q, the store gives %v", what, m.g.err, err)
		}
		return false
	}
	if err != want {
		m.failed(prop, "%s gives %v, not %v", what, err, want)
	}
	return err == nil
}

// wantAdd, wantLink: the error to be expected
func (m *vstore) wantAdd(k string, up bool) error {
	if _, ok := m.nodes[k]; ok && !up {
		return store.ErrAlreadyExists
	}
	return nil
}

func (m *vstore) wantLink(f, t string) error {
	_, x := m.nodes[f]
	_, y := m.nodes[t]
	if !x || !y {
		return store.ErrEntityNotFound
	}
	if f == t {
		return graph.ErrUnsupported
	}
	return nil
}

func (m *vstore) didLink(f, t string, a attrs.Attrs) {
	if _, ok := m.link(f, t); !ok {
		m.links[vpair{f, t}] = a
	}
}

func (m *vstore) didDelete(k string) {
	delete(m.nodes, k)
	for p := range m.links {
		if p.f == k || p.t == k {
			delete(m.links, p)
		}
	}
}

func (m *vstore) didUnlink(f, t string) {
	delete(m.links, vpair{f, t})
	if !m.directed {
		delete(m.links, vpair{t, f})
	}
}

func (m *vstore) run(rnd *rand.Rand) {
	ctx := context.Background()
	if m.directed {
		g, err := gm.NewWDG()
		if err != nil {
			m.failed("", "NewWDG: %v", err)
		}
		m.raw = g
	} else if rnd.Intn(2) == 0 {
		g, err := gm.NewWUG()
		if err != nil {
			m.failed("", "NewWUG: %v", err)
		}
		m.raw = g
	}
	var opts []memory.Option
	if m.raw != nil {
		if rnd.Intn(2) == 0 {
			m.g = &vfault{Graph: m.raw}
			opts = append(opts, memory.WithGraph(m.g))
		} else {
			opts = append(opts, memory.WithGraph(m.raw))
		}
	}
	s, err := memory.NewStore(opts...)
	if err != nil {
		m.failed("C10", "NewStore: %v", err)
	}
	m.s = s
	if m.raw == nil {
		g, err := s.Graph()
		if err != nil {
			m.failed("C10", "Graph: %v", err)
		}
		m.raw = g.(gm.Graph)
	}
	word := func() string { return vwords[rnd.Intn(len(vwords))] }
	ids := func(ws []string) []uuid.UID {
		var us []uuid.UID
		for _, w := range ws {
			us = append(us, &vid{w})
		}
		return us
	}
	words := func() []string {
		var ws []string
		for i := rnd.Intn(5); i > 0; i-- {
			ws = append(ws, word())
		}
		return ws
	}
	n := 0
	for i := 0; i < 25; i++ {
		n++
		var a attrs.Attrs
		var sopts []store.Option
		up := rnd.Intn(3) == 0
		if rnd.Intn(3) > 0 {
			x := memattrs.New()
			_ = x.Set(ctx, "n", strconv.Itoa(n))
			a = x
			sopts = append(sopts, store.WithAttrs(a))
		}
		if up {
			sopts = append(sopts, store.WithUpsert())
		}
		prop := "C10"
		switch op := rnd.Intn(16); {
		case op < 4:
			k := word()
			e := &vent{n, &vid{k}}
			m.arm(rnd, 2)
			err := s.Add(ctx, e, sopts...)
			m.log("Add(%q, upsert %v): %v", k, up, err)
			if m.outcome("C10", "Add", err, m.wantAdd(k, up)) {
				m.nodes[k] = vnode{e, a}
			}
		case op == 4:
			k := word()
			m.arm(rnd, 1)
			x, err := s.Get(ctx, &vid{k})
			m.log("Get(%q): %v", k, err)
			var want error
			if _, ok := m.nodes[k]; !ok {
				want = store.ErrEntityNotFound
			}
			if m.outcome("C10", "Get", err, want) {
				if s := m.isNode("Get", x, m.nodes[k]); s != "" {
					m.failed("C10", "%s", s)
				}
			} else if x != nil {
				m.failed("C10", "Get gives an entity and an error")
			}
		case op == 5:
			k := word()
			m.arm(rnd, 1)
			err := s.Delete(ctx, &vid{k})
			m.log("Delete(%q): %v", k, err)
			if m.outcome("C10", "Delete", err, nil) {
				m.didDelete(k)
			}
		case op < 9:
			f, t := word(), word()
			m.arm(rnd, 1)
			err := s.Link(ctx, &vid{f}, &vid{t}, sopts...)
			m.log("Link(%q, %q): %v", f, t, err)
			if m.outcome("C10", "Link", err, m.wantLink(f, t)) {
				m.didLink(f, t, a)
			}
		case op == 9:
			f, t := word(), word()
			m.arm(rnd, 1)
			err := s.Unlink(ctx, &vid{f}, &vid{t})
			m.log("Unlink(%q, %q): %v", f, t, err)
			if m.outcome("C10", "Unlink", err, nil) {
				m.didUnlink(f, t)
			}
		case op < 12:
			prop = "C11"
			ks := words()
			var es []store.Entity
			for i, k := range ks {
				es = append(es, &vent{n*10 + i, &vid{k}})
			}
			m.arm(rnd, 1+len(ks))
			at := 0
			if m.g != nil {
				at = m.g.at
			}
			err := s.BulkAdd(ctx, es, sopts...)
			m.log("BulkAdd(%q, upsert %v): %v", ks, up, err)
			var want error
			for i, k := range ks {
				if at == 1 || at == 2 {
					at = -1
					want = m.g.err
				} else if at > 2 {
					at -= 2
				}
				if want == nil {
					want = m.wantAdd(k, up)
				}
				if want != nil {
					break
				}
				m.nodes[k] = vnode{es[i], a}
			}
			if err != want {
				m.failed("C11", "BulkAdd gives %v, not %v", err, want)
			}
		case op == 12:
			prop = "C11"
			ks := words()
			m.arm(rnd, 1+len(ks))
			at := 0
			if m.g != nil {
				at = m.g.at
			}
			xs, err := s.BulkGet(ctx, ids(ks))
			m.log("BulkGet(%q): %v", ks, err)
			var want error
			for i, k := range ks {
				if at == i+1 {
					want = m.g.err
				} else if _, ok := m.nodes[k]; !ok {
					want = store.ErrEntityNotFound
				}
				if want != nil {
					break
				}
			}
			if err != want {
				m.failed("C11", "BulkGet gives %v, not %v", err, want)
			}
			if err != nil {
				if len(xs) != 0 {
					m.failed("C11", "BulkGet gives entities and an error")
				}
				break
			}
			if len(xs) != len(ks) {
				m.failed("C11", "BulkGet gives %d entities, not %d", len(xs), len(ks))
			}
			for i, x := range xs {
				if s := m.isNode(fmt.Sprintf("item %d of BulkGet", i), x, m.nodes[ks[i]]); s != "" {
					m.failed("C11", "%s", s)
				}
			}
		case op == 13:
			prop = "C11"
			ks := words()
			m.arm(rnd, 1+len(ks))
			at := 0
			if m.g != nil {
				at = m.g.at
			}
			err := s.BulkDelete(ctx, ids(ks))
			m.log("BulkDelete(%q): %v", ks, err)
			var want error
			for i, k := range ks {
				if at == i+1 {
					want = m.g.err
					break
				}
				m.didDelete(k)
			}
			if err != want {
				m.failed("C11", "BulkDelete gives %v, not %v", err, want)
			}
		case op == 14:
			prop = "C11"
			f, ks := word(), words()
			m.arm(rnd, 1+len(ks))
			at := 0
			if m.g != nil {
				at = m.g.at
			}
			err := s.BulkLink(ctx, &vid{f}, ids(ks), sopts...)
			m.log("BulkLink(%q, %q): %v", f, ks, err)
			var want error
			for i, k := range ks {
				if at == i+1 {
					want = m.g.err
				} else {
					want = m.wantLink(f, k)
				}
				if want != nil {
					break
				}
				m.didLink(f, k, a)
			}
			if err != want {
				m.failed("C11", "BulkLink gives %v, not %v", err, want)
			}
		default:
			prop = "C11"
			f, ks := word(), words()
			m.arm(rnd, 1+len(ks))
			at := 0
			if m.g != nil {
				at = m.g.at
			}
			err := s.BulkUnlink(ctx, &vid{f}, ids(ks))
			m.log("BulkUnlink(%q, %q): %v", f, ks, err)
			var want error
			for i, k := range ks {
				if at == i+1 {
					want = m.g.err
					break
				}
				m.didUnlink(f, k)
			}
			if err != want {
				m.failed("C11", "BulkUnlink gives %v, not %v", err, want)
			}
		}
		m.check(prop)
	}
}

func vseed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func vhistories(t *testing.T, prop string, rounds int64) {
	for round := int64(0); round < rounds; round++ {
		rnd := rand.New(rand.NewSource(vseed()*1000003 + round))
		m := &vstore{directed: rnd.Intn(2) == 0, nodes: map[string]vnode{}, links: map[vpair]attrs.Attrs{}}
		m.failed = func(p, f string, a ...interface{}) {
			t.Helper()
			if p != prop {
				panic(vstop{})
			}
			t.Fatalf("FAILING INPUT (round %d, directed %v, failing graph %v): %s\nhistory:\n  %s", round, m.directed, m.g != nil, fmt.Sprintf(f, a...), strings.Join(m.hist, "\n  "))
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(vstop); ok {
						return
					}
					t.Fatalf("FAILING INPUT (round %d, directed %v): panic: %v\nhistory:\n  %s", round, m.directed, r, strings.Join(m.hist, "\n  "))
				}
			}()
			m.run(rnd)
		}()
	}
}

func TestVerifC10(t *testing.T) {
	u := &vid{"u"}
	s, err := memory.NewStore(memory.WithUID(u))
	if err != nil || s.UID() != uuid.UID(u) {
		t.Fatalf("FAILING INPUT: NewStore with a UID: %v", err)
	}
	vhistories(t, "C10", 6000)
}

func TestVerifC11(t *testing.T) { vhistories(t, "C11", 6000) }

// TestVerifC12 runs the operations side by side: a lost lock is a data race or a deadlock.
func TestVerifC12(t *testing.T) {
	ctx := context.Background()
	s, err := memory.NewStore()
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan struct{})
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 300; i++ {
					a, b := &vid{strconv.Itoa(i % 5)}, &vid{strconv.Itoa((i + g) % 3)}
					_ = s.Add(ctx, &vent{i, a}, store.WithUpsert())
					_ = s.Add(ctx, &vent{i, b})
					_, _ = s.Get(ctx, a)
					_ = s.Link(ctx, a, b)
					_, _ = s.Graph()
					_ = s.BulkAdd(ctx, []store.Entity{&vent{i, b}, &vent{i, a}}, store.WithUpsert())
					_, _ = s.BulkGet(ctx, []uuid.UID{a, b})
					_ = s.BulkLink(ctx, a, []uuid.UID{b, a})
					_ = s.Unlink(ctx, a, b)
					_ = s.BulkUnlink(ctx, a, []uuid.UID{b})
					_ = s.Delete(ctx, b)
					_ = s.BulkDelete(ctx, []uuid.UID{a, b})
				}
			}(g)
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		panic("FAILING INPUT: four goroutines running the operations of the store are stuck")
	}
}
