import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
only=sys.argv[1:]
def S(id,*a,**k):
    if not only or id in only: seed(id,*a,**k)
G="pkg/graph/memory"; F=G+"/wg.go"
PRE='''package memory

import (
	"context"
	"sync"
	"testing"
	"time"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
)

type dent struct{ uid string }

func (e *dent) UID() uuid.UID      { return memuid.NewFromString(e.uid) }
func (e *dent) Type() string       { return "t" }
func (e *dent) Attrs() attrs.Attrs { return memattrs.New() }

var (
	ctx = context.Background()
	_   sync.Mutex
	_   time.Duration
	_   graph.Graph
)

func du(s string) uuid.UID { return memuid.NewFromString(s) }

func mk(t *testing.T, uids ...string) *WDG {
	g, err := NewWDG()
	if err != nil {
		t.Fatal(err)
	}
	for _, s := range uids {
		n, err := g.NewNode(ctx, &dent{s})
		if err != nil {
			t.Fatal(err)
		}
		if err := g.AddNode(ctx, n); err != nil {
			t.Fatal(err)
		}
	}
	return g
}

func dlink(t *testing.T, g *WDG, a, b string, w float64) {
	if _, err := g.Link(ctx, du(a), du(b), graph.WithWeight(w)); err != nil {
		t.Fatal(err)
	}
}

func dweight(t *testing.T, g graph.Graph, a, b string) float64 {
	e, err := g.(*WDG).Edge(ctx, du(a), du(b))
	if err != nil {
		t.Fatalf("%s %s: %v", a, b, err)
	}
	return e.(*Edge).Weight()
}
'''
S("c09-reciprocal","C09",G,[(F,"			if to, ok := sgNodes[peer.ID()]; ok {\n","			// NOTE: skip the nodes which have already been linked\n			if to, ok := sgNodes[peer.ID()]; ok && !sg.HasEdgeBetween(id, peer.ID()) {\n")],
 "two nodes of the subgraph linked in both directions","only one of the two links of nodes linked both ways is in the subgraph",PRE+'''
func TestDemo(t *testing.T) {
	g := mk(t, "a", "b")
	dlink(t, g, "a", "b", 1)
	dlink(t, g, "b", "a", 2)
	s, err := g.SubGraph(ctx, du("a"), 2)
	if err != nil {
		t.Fatal(err)
	}
	if dweight(t, s, "a", "b") != 1 || dweight(t, s, "b", "a") != 2 {
		t.Fatal("weights")
	}
}
''')
S("c09-processed-dropped","C09",G,[(F,"		nodes := g.WeightedGraphBuilder.From(id)\n","		delete(sgNodes, id)\n\n		nodes := g.WeightedGraphBuilder.From(id)\n")],
 "a link to a node the loop has already been at","links to nodes that have been processed before are lost",PRE+'''
func TestDemo(t *testing.T) {
	g := mk(t, "a", "b", "c")
	dlink(t, g, "a", "b", 1)
	dlink(t, g, "b", "c", 2)
	dlink(t, g, "c", "a", 3)
	for i := 0; i < 50; i++ {
		s, err := g.SubGraph(ctx, du("a"), 5)
		if err != nil {
			t.Fatal(err)
		}
		if dweight(t, s, "a", "b") != 1 || dweight(t, s, "b", "c") != 2 || dweight(t, s, "c", "a") != 3 {
			t.Fatal("weights")
		}
	}
}
''')
S("c07-negative-id","C07",G,[(F,"	g.WeightedGraphBuilder.RemoveNode(gnode.ID())\n","	// NOTE: the builder only knows the IDs it has assigned\n	if id := gnode.ID(); id >= 0 {\n		g.WeightedGraphBuilder.RemoveNode(id)\n	}\n")],
 "a node with a negative ID made by NewNode of the package","a removed node with a negative ID is still listed",PRE+'''
func TestDemo(t *testing.T) {
	g := mk(t, "a")
	n, err := NewNode(-5, &dent{"b"})
	if err != nil {
		t.Fatal(err)
	}
	if err := g.AddNode(ctx, n); err != nil {
		t.Fatal(err)
	}
	if err := g.RemoveNode(ctx, du("b")); err != nil {
		t.Fatal(err)
	}
	if ns, _ := g.Nodes(ctx); len(ns) != 1 {
		t.Fatalf("%d nodes", len(ns))
	}
}
''')
S("c12-from-unlocked","C12",G,[(F,"	graphNodes := gonum.NodesOf(gnodes)\n\n	g.mu.RUnlock()\n","	g.mu.RUnlock()\n\n	graphNodes := gonum.NodesOf(gnodes)\n")],
 "From running while another goroutine changes the links","the neighbours are read from the graph without the lock",PRE+'''
func TestDemo(t *testing.T) {
	g := mk(t, "a", "b", "c", "d", "e")
	dlink(t, g, "a", "b", 1)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 2000; i++ {
			_, _ = g.Link(ctx, du("a"), du("c"))
			_, _ = g.Link(ctx, du("a"), du("d"))
			_ = g.Unlink(ctx, du("a"), du("c"))
			_ = g.Unlink(ctx, du("a"), du("d"))
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 2000; i++ {
			_, _ = g.From(ctx, du("a"))
		}
	}()
	wg.Wait()
}
''',race=True)
B="pkg/broker/memory"
S("c12-receive-leaks-lock","C12",B,[(B+"/subscriber.go","		s.RUnlock()\n		return broker.ErrSubscriptionInactive\n","		return broker.ErrSubscriptionInactive\n")],
 "Receive on an inactive subscription followed by Unsubscribe","Receive returns with the lock held, Unsubscribe blocks forever",'''package memory

import (
	"context"
	"testing"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	m, err := New()
	if err != nil {
		t.Fatal(err)
	}
	if err := m.Open(ctx); err != nil {
		t.Fatal(err)
	}
	s, err := m.Sub(ctx, "t")
	if err != nil {
		t.Fatal(err)
	}
	_ = s.Unsubscribe(ctx)
	_ = s.Receive(ctx, func(context.Context, broker.Message) error { return nil })
	done := make(chan struct{})
	go func() {
		_ = s.Unsubscribe(ctx)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("blocked")
	}
}
''')
P="pkg/plan/simple"
S("c12-plan-delete-rlock","C12",P,[(P+"/simple.go","	p.mu.Lock()\n	defer p.mu.Unlock()\n	return p.delete(ctx, uid, opts...)\n","	p.mu.RLock()\n	defer p.mu.RUnlock()\n	return p.delete(ctx, uid, opts...)\n")],
 "Delete running together with Get or another Delete","Delete changes the index under the read lock",'''package simple

import (
	"context"
	"sync"
	"testing"

	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	p, err := NewSimple()
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	wg.Add(2)
	for k := 0; k < 2; k++ {
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				_ = p.Delete(ctx, memuid.NewFromString("x"))
				_, _ = p.Get(ctx, memuid.NewFromString("x"))
			}
		}()
	}
	wg.Wait()
}
''',race=True)
ST="pkg/store/memory"
S("c12-bulkget-relocks","C12",ST,[(ST+"/store.go","		e, err := m.get(ctx, uid, opts...)\n","		e, err := m.Get(ctx, uid, opts...)\n")],
 "a writer waiting for the lock while BulkGet is running","BulkGet takes the read lock again while it holds it, and blocks when a writer waits",'''package memory

import (
	"context"
	"sync"
	"testing"
	"time"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
)

type dent struct{ uid string }

func (e *dent) UID() uuid.UID      { return memuid.NewFromString(e.uid) }
func (e *dent) Type() string       { return "t" }
func (e *dent) Attrs() attrs.Attrs { return memattrs.New() }

func TestDemo(t *testing.T) {
	ctx := context.Background()
	s, err := NewStore()
	if err != nil {
		t.Fatal(err)
	}
	var uids []uuid.UID
	for _, x := range []string{"a", "b", "c", "d"} {
		if err := s.Add(ctx, &dent{x}); err != nil {
			t.Fatal(err)
		}
		for k := 0; k < 50; k++ {
			uids = append(uids, memuid.NewFromString(x))
		}
	}
	done := make(chan struct{})
	go func() {
		var wg sync.WaitGroup
		wg.Add(4)
		for k := 0; k < 4; k++ {
			go func(k int) {
				defer wg.Done()
				for i := 0; i < 2000; i++ {
					if k < 2 {
						_, _ = s.BulkGet(ctx, uids)
					} else {
						_ = s.Delete(ctx, memuid.NewFromString("z"))
					}
				}
			}(k)
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("blocked")
	}
}
''')
