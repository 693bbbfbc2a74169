import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
only=sys.argv[1:]
def S(id,*a,**k):
    if not only or id in only: seed(id,*a,**k)
P="pkg/store/memory"; F=P+"/store.go"
PRE='''package memory

import (
	"context"
	"errors"
	"testing"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	gm "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/store"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
)

type dent struct{ uid string }

func (e *dent) UID() uuid.UID      { return memuid.NewFromString(e.uid) }
func (e *dent) Type() string       { return "t" }
func (e *dent) Attrs() attrs.Attrs { return memattrs.New() }

var (
	errBoom = errors.New("boom")
	_       = graph.ErrDuplicateNode
	_       = store.ErrAlreadyExists
	ctx     = context.Background()
)

// failing is a graph whose calls fail while fail is set.
type failing struct {
	gm.Graph
	fail bool
}

func (f *failing) AddNode(c context.Context, n graph.Node, o ...graph.Option) error {
	if f.fail {
		return errBoom
	}
	return f.Graph.AddNode(c, n, o...)
}

func (f *failing) RemoveNode(c context.Context, u uuid.UID, o ...graph.Option) error {
	if f.fail {
		return errBoom
	}
	return f.Graph.RemoveNode(c, u, o...)
}

func (f *failing) Node(c context.Context, u uuid.UID) (graph.Node, error) {
	if f.fail {
		return nil, errBoom
	}
	return f.Graph.Node(c, u)
}

func u(s string) uuid.UID { return memuid.NewFromString(s) }

func mk(t *testing.T, uids ...string) (*Memory, *failing) {
	g, err := gm.NewWDG()
	if err != nil {
		t.Fatal(err)
	}
	f := &failing{Graph: g}
	s, err := NewStore(WithGraph(f))
	if err != nil {
		t.Fatal(err)
	}
	for _, x := range uids {
		if err := s.Add(ctx, &dent{x}); err != nil {
			t.Fatal(err)
		}
	}
	return s, f
}

'''
T="func TestDemo(t *testing.T) {\n"
S("c10-link-attrs","C10",P,[(F,"m.g.Link(ctx, from, to, graph.WithAttrs(lopts.Attrs))","m.g.Link(ctx, from, to)")],
"a link made with attributes","the attributes given for a link are lost",PRE+T+'''	s, f := mk(t, "a", "b")
	a := memattrs.New()
	_ = a.Set(ctx, "k", "v")
	if err := s.Link(ctx, u("a"), u("b"), store.WithAttrs(a)); err != nil {
		t.Fatal(err)
	}
	e, err := f.Edge(ctx, u("a"), u("b"))
	if err != nil {
		t.Fatal(err)
	}
	if v, _ := e.Attrs().Get(ctx, "k"); v != "v" {
		t.Fatal("the attributes of the link are lost")
	}
}
''')
S("c10-unlink-swapped","C10",P,[(F,"m.g.Unlink(ctx, from, to)","m.g.Unlink(ctx, to, from)")],
"a directed graph under the store","Unlink removes the opposite link",PRE+T+'''	s, f := mk(t, "a", "b")
	if err := s.Link(ctx, u("a"), u("b")); err != nil {
		t.Fatal(err)
	}
	if err := s.Unlink(ctx, u("a"), u("b")); err != nil {
		t.Fatal(err)
	}
	if _, err := f.Edge(ctx, u("a"), u("b")); err == nil {
		t.Fatal("the link is still there")
	}
}
''')
S("c10-add-masks-error","C10",P,[(F,"if err != nil && errors.Is(err, graph.ErrDuplicateNode) {","if err != nil {")],
"a graph whose AddNode fails for another reason than a duplicate","every failure of the graph is reported as already exists",PRE+T+'''	s, f := mk(t)
	f.fail = true
	if err := s.Add(ctx, &dent{"a"}); err != errBoom {
		t.Fatal("the error of the graph is not passed on:", err)
	}
}
''')
S("c10-get-masks-error","C10",P,[(F,"""		if errors.Is(err, graph.ErrNodeNotFound) {
			return nil, store.ErrEntityNotFound
		}
		return nil, err
""","""		return nil, store.ErrEntityNotFound
""")],
"a graph whose lookup fails for another reason than an absent node","every failure of the graph is reported as not found",PRE+T+'''	s, f := mk(t, "a")
	f.fail = true
	if _, err := s.Get(ctx, u("a")); err != errBoom {
		t.Fatal("the error of the graph is not passed on:", err)
	}
}
''')
S("c10-upsert-removes-first","C10",P,[(F,"	return m.g.AddNode(ctx, n, graph.WithUpsert())\n","""	if err := m.g.RemoveNode(ctx, e.UID()); err != nil {
		return err
	}

	return m.g.AddNode(ctx, n, graph.WithUpsert())
""")],
"an upsert of an entity that has links","the links of the upserted entity are dropped",PRE+T+'''	s, f := mk(t, "a", "b")
	if err := s.Link(ctx, u("a"), u("b")); err != nil {
		t.Fatal(err)
	}
	if err := s.Add(ctx, &dent{"a"}, store.WithUpsert()); err != nil {
		t.Fatal(err)
	}
	if _, err := f.Edge(ctx, u("a"), u("b")); err != nil {
		t.Fatal("the link of the upserted entity is gone")
	}
}
''')
S("c11-add-skips-existing","C11",P,[(F,"""		if err := m.add(ctx, ent, opts...); err != nil {
			return err
		}
	}
	return nil
}

// BulkGet""","""		if err := m.add(ctx, ent, opts...); err != nil && err != store.ErrAlreadyExists {
			return err
		}
	}
	return nil
}

// BulkGet""")],
"a bulk add with an entity that is stored already","the bulk add goes on and reports success",PRE+T+'''	s, _ := mk(t, "a")
	err := s.BulkAdd(ctx, []store.Entity{&dent{"a"}, &dent{"b"}})
	if err != store.ErrAlreadyExists {
		t.Fatal("no error for an entity stored twice:", err)
	}
	if _, err := s.Get(ctx, u("b")); err == nil {
		t.Fatal("the bulk add went on after the failure")
	}
}
''')
S("c11-link-opts","C11",P,[(F,"m.link(ctx, from, uid, opts...); err","m.link(ctx, from, uid, opts[:len(opts)/2]...); err")],
"a bulk link with options","half of the options are ignored, so attributes given for the links are lost",PRE+T+'''	s, f := mk(t, "a", "b")
	a := memattrs.New()
	_ = a.Set(ctx, "k", "v")
	if err := s.BulkLink(ctx, u("a"), []uuid.UID{u("b")}, store.WithAttrs(a)); err != nil {
		t.Fatal(err)
	}
	e, err := f.Edge(ctx, u("a"), u("b"))
	if err != nil {
		t.Fatal(err)
	}
	if v, _ := e.Attrs().Get(ctx, "k"); v != "v" {
		t.Fatal("the attributes of the link are lost")
	}
}
''')
S("c11-link-dedupe","C11",P,[(F,"""		if err := m.link(ctx, from, uid, opts...); err != nil {
			return err
		}
""","""		if uid.String() == from.String() {
			continue
		}
		if err := m.link(ctx, from, uid, opts...); err != nil {
			return err
		}
""")],
"a bulk link whose list holds the entity itself","the element is skipped instead of failing as the single link does",PRE+T+'''	s, f := mk(t, "a", "b")
	if err := s.BulkLink(ctx, u("a"), []uuid.UID{u("a"), u("b")}); err == nil {
		t.Fatal("no error for a link of an entity to itself")
	}
	if _, err := f.Edge(ctx, u("a"), u("b")); err == nil {
		t.Fatal("the bulk link went on after the failure")
	}
}
''')
S("c11-delete-last-error","C11",P,[(F,"""	for _, uid := range uids {
		if err := m.delete(ctx, uid, opts...); err != nil {
			return err
		}
	}
	return nil
""","""	var last error
	for _, uid := range uids {
		last = m.delete(ctx, uid, opts...)
	}
	return last
""")],
"a bulk delete over a graph that fails for one element only","the error is lost unless the last element fails, and deleting goes on",PRE+T+'''	s, f := mk(t, "a", "b")
	g := &once{failing: f, n: 1}
	s, err := NewStore(WithGraph(g))
	if err != nil {
		t.Fatal(err)
	}
	if err := s.BulkDelete(ctx, []uuid.UID{u("a"), u("b")}); err != errBoom {
		t.Fatal("the error is lost:", err)
	}
}

type once struct {
	*failing
	n int
}

func (o *once) RemoveNode(c context.Context, x uuid.UID, opts ...graph.Option) error {
	if o.n > 0 {
		o.n--
		return errBoom
	}
	return o.failing.RemoveNode(c, x, opts...)
}
''')
S("c11-get-partial","C11",P,[(F,"""		if err != nil {
			return nil, err
		}
		ents[i] = e
""","""		if err != nil {
			return ents[:i], err
		}
		ents[i] = e
""")],
"a bulk get with an absent UID after a stored one","entities are returned along with the error",PRE+T+'''	s, _ := mk(t, "a")
	es, err := s.BulkGet(ctx, []uuid.UID{u("a"), u("x")})
	if err != store.ErrEntityNotFound || len(es) != 0 {
		t.Fatal("entities along with an error:", es, err)
	}
}
''')
