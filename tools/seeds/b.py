import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
only=sys.argv[1:]
def S(id,*a,**k):
    if not only or id in only: seed(id,*a,**k)
PRE='''package memory

import (
	"context"
	"testing"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
)

type dent struct{ uid, dot string }

func (e *dent) UID() uuid.UID      { return memuid.NewFromString(e.uid) }
func (e *dent) Type() string       { return "t" }
func (e *dent) Attrs() attrs.Attrs { return memattrs.New() }
func (e *dent) DOTID() string      { return e.dot }
func (e *dent) SetDOTID(s string)  { e.dot = s }

func mustAdd(t *testing.T, g *WG, uid, dot string) graph.Node {
	n, err := g.NewNode(context.Background(), &dent{uid, dot})
	if err != nil {
		t.Fatal(err)
	}
	if err := g.AddNode(context.Background(), n); err != nil {
		t.Fatal(err)
	}
	return n
}

'''
U='memuid.NewFromString'
S("c07-newnode-by-dotid","C07","pkg/graph/memory",[("pkg/graph/memory/wg.go","if n, ok := g.nodes[node.UID().String()]; ok {","if n, ok := g.nodes[node.DOTID()]; ok {")],
"an entity whose DOT ID differs from its UID, made into a node twice","NewNode looks for the stored node under the DOT ID, so it makes a second node for a stored UID (or hands out another entity's node)",PRE+'''
func TestDemo(t *testing.T) {
	g, err := NewWDG()
	if err != nil {
		t.Fatal(err)
	}
	n := mustAdd(t, g.WG, "a", "x")
	m, err := g.NewNode(context.Background(), &dent{"a", "x"})
	if err != nil || m != n {
		t.Fatal("NewNode of a stored UID does not return the stored node")
	}
}
''')
S("c07-remove-by-entity","C07","pkg/graph/memory",[("pkg/graph/memory/wg.go","	delete(g.nodes, uid.String())","	delete(g.nodes, gnode.DOTID())")],
"a node whose DOT ID differs from its UID is removed","RemoveNode drops the index entry of the DOT ID, so the removed node can still be looked up",PRE+'''
func TestDemo(t *testing.T) {
	g, err := NewWDG()
	if err != nil {
		t.Fatal(err)
	}
	mustAdd(t, g.WG, "a", "x")
	if err := g.RemoveNode(context.Background(), memuid.NewFromString("a")); err != nil {
		t.Fatal(err)
	}
	if _, err := g.Node(context.Background(), memuid.NewFromString("a")); err != graph.ErrNodeNotFound {
		t.Fatal("a removed node is still found")
	}
}
''')
S("c08-edges-by-uid","C08","pkg/graph/memory",[("pkg/graph/memory/wg.go","""	edges := make([]graph.Edge, len(graphEdges))

	for i, e := range graphEdges {
		edges[i] = e.(*Edge)
	}
""","""	edges := make([]graph.Edge, 0, len(graphEdges))
	seen := make(map[string]bool)

	for _, e := range graphEdges {
		uid := e.(*Edge).UID().String()
		if seen[uid] {
			continue
		}
		seen[uid] = true
		edges = append(edges, e.(*Edge))
	}
""")],
"two links that were given the same UID","Edges lists only one of the links with the same UID",PRE+'''
func TestDemo(t *testing.T) {
	g, err := NewWDG()
	if err != nil {
		t.Fatal(err)
	}
	ctx := context.Background()
	for _, k := range []string{"a", "b", "c"} {
		mustAdd(t, g.WG, k, k)
	}
	for _, k := range []string{"b", "c"} {
		if _, err := g.Link(ctx, memuid.NewFromString("a"), memuid.NewFromString(k), graph.WithDOTID("owns")); err != nil {
			t.Fatal(err)
		}
	}
	if es, err := g.Edges(ctx); err != nil || len(es) != 2 {
		t.Fatal(len(es), err)
	}
}
''')
S("c08-unlink-both","C08","pkg/graph/memory",[("pkg/graph/memory/wg.go","""	g.WeightedGraphBuilder.RemoveEdge(f.(*Node).ID(), t.(*Node).ID())
""","""	g.WeightedGraphBuilder.RemoveEdge(f.(*Node).ID(), t.(*Node).ID())
	g.WeightedGraphBuilder.RemoveEdge(t.(*Node).ID(), f.(*Node).ID())
""")],
"a directed graph with links both ways between two nodes","unlinking one way removes the link of the other way too",PRE+'''
func TestDemo(t *testing.T) {
	g, err := NewWDG()
	if err != nil {
		t.Fatal(err)
	}
	ctx := context.Background()
	a, b := memuid.NewFromString("a"), memuid.NewFromString("b")
	mustAdd(t, g.WG, "a", "a")
	mustAdd(t, g.WG, "b", "b")
	if _, err := g.Link(ctx, a, b); err != nil {
		t.Fatal(err)
	}
	if _, err := g.Link(ctx, b, a); err != nil {
		t.Fatal(err)
	}
	if err := g.Unlink(ctx, a, b); err != nil {
		t.Fatal(err)
	}
	if _, err := g.Edge(ctx, b, a); err != nil {
		t.Fatal("the link of the other way is gone:", err)
	}
}
''')
S("c08-from-self-excluded","C08","pkg/graph/memory",[("pkg/graph/memory/wg.go","""	for i, n := range graphNodes {
		nodes[i] = n.(*Node)
	}

	return nodes, nil
}

// Unlink""","""	for i, n := range graphNodes {
		if n.ID() < int64(len(nodes)) {
			i = int(n.ID())
		}
		nodes[i] = n.(*Node)
	}

	return nodes, nil
}

// Unlink""")],
"a node whose successors have small IDs with gaps","From places nodes by their ID, so some successors overwrite others",PRE+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	for i := 0; i < 50; i++ {
		g, err := NewWDG()
		if err != nil {
			t.Fatal(err)
		}
		for _, k := range []string{"a", "b", "c", "d"} {
			mustAdd(t, g.WG, k, k)
		}
		for _, k := range []string{"b", "d", "c"} {
			if _, err := g.Link(ctx, memuid.NewFromString("a"), memuid.NewFromString(k)); err != nil {
				t.Fatal(err)
			}
		}
		ns, err := g.From(ctx, memuid.NewFromString("a"))
		if err != nil {
			t.Fatal(err)
		}
		seen := map[string]bool{}
		for _, n := range ns {
			if n == nil {
				t.Fatal("From lists nil")
			}
			seen[n.UID().String()] = true
		}
		if len(seen) != 3 {
			t.Fatal(seen)
		}
	}
}
''')
S("c18-reversed-shares","C18","pkg/graph/memory",[("pkg/graph/memory/edge.go","""		uid:    e.uid,
		attrs:  e.attrs,
		from:   e.to,""","""		uid:    memuid.NewFromString(e.dotid),
		attrs:  e.attrs,
		from:   e.to,""")],
"an edge whose DOT ID was set after it was made is reversed","ReversedEdge derives the UID from the DOT ID, so an edge whose DOT ID was changed gets another UID when it is reversed",PRE+'''
func TestDemo(t *testing.T) {
	a, _ := NewNode(1, &dent{"a", "a"})
	b, _ := NewNode(2, &dent{"b", "b"})
	e, err := NewEdge(a, b)
	if err != nil {
		t.Fatal(err)
	}
	uid := e.UID().String()
	e.SetDOTID("other")
	if r := e.ReversedEdge().(*Edge); r.UID().String() != uid {
		t.Fatal("the reversed edge has another UID")
	}
}
''')
S("c18-attrs-copied-late","C18","pkg/graph/memory",[("pkg/graph/memory/node.go","""		attrs[i] = encoding.Attribute{
			Key:   k,
			Value: val,
		}
		i++""","""		attrs[i] = encoding.Attribute{
			Key:   k,
			Value: val,
		}
		if val != "" {
			i++
		}""")],
"a node attribute whose value is empty","the DOT attributes of a node lose (or blank) attributes with empty values",PRE+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	for i := 0; i < 20; i++ {
		a := memattrs.New()
		_ = a.Set(ctx, "k", "")
		_ = a.Set(ctx, "l", "1")
		n, err := NewNode(1, &dent{"a", "a"}, graph.WithAttrs(a))
		if err != nil {
			t.Fatal(err)
		}
		m := map[string]bool{}
		for _, x := range n.Attributes() {
			m[x.Key] = true
		}
		if !m["k"] || !m["l"] {
			t.Fatal(m)
		}
	}
}
''')
