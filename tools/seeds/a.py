import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
only=sys.argv[1:]
def S(id,*a,**k):
    if not only or id in only: seed(id,*a,**k)

S("c01-map-shared","C01","pkg/attrs/memory",[("pkg/attrs/memory/memory.go","""	a := make(Attrs)

	for k, v := range m {
		a[k] = v
	}
""","""	a := Attrs(m)
	if a == nil {
		a = make(Attrs)
	}
""")],"a set built from a map, then a change to either","NewFromMap keeps the caller's map, so later changes of the map show in the set and the other way round",'''package memory

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	m := map[string]string{"a": "1"}
	a := NewFromMap(m)
	_ = a.Set(context.Background(), "a", "2")
	if m["a"] != "1" {
		t.Fatal("setting a key of the set changed the map")
	}
}
''')

S("c01-empty-not-rendered","C01","pkg/attrs/memory",[("pkg/attrs/memory/dot.go","""		attrs[i] = encoding.Attribute{
			Key:   k,
			Value: v,
		}
		i++
	}
	return attrs""","""		if v == "" {
			continue
		}
		attrs[i] = encoding.Attribute{
			Key:   k,
			Value: v,
		}
		i++
	}
	return attrs[:i]""")],"an attribute whose value is empty","DOTAttrs leaves out attributes with an empty value",'''package memory

import "testing"

func TestDemo(t *testing.T) {
	if l := DOTAttrs(NewFromMap(map[string]string{"a": "", "b": "1"})); len(l) != 2 {
		t.Fatal(l)
	}
}
''')

S("c02-dotid-namespaced","C02","pkg/space/entity",[("pkg/space/entity/object.go","""		if res != nil {
			dotid""","""		if res != nil && res.Namespaced() {
			dotid""")],"an object of a resource that is not namespaced","such an object's DOT ID is its UID, not group/version/kind/namespace/name",'''package entity

import "testing"

func TestDemo(t *testing.T) {
	r, _ := NewResource("t", "n", "g", "v", "k", false)
	o, _ := NewObject("t", "name", "ns", r)
	if o.DOTID() != "g/v/k/ns/name" {
		t.Fatal(o.DOTID())
	}
}
''')

S("c02-uid-empty","C02","pkg/space/entity",[("pkg/space/entity/resource.go","""	uid := ropts.UID
	if uid == nil {
		uid = memuid.New()
	}""","""	uid := ropts.UID
	if uid == nil || uid.String() == "" {
		uid = memuid.NewFromString(ropts.DOTID)
	}
	if uid.String() == "" {
		uid = memuid.New()
	}""")],"a resource made with a DOT ID but no UID","two resources made with the same DOT ID and no UID share their UID",'''package entity

import "testing"

func TestDemo(t *testing.T) {
	a, _ := NewResource("t", "n", "g", "v", "k", false, WithDOTID("x"))
	b, _ := NewResource("t", "n", "g", "v", "k", false, WithDOTID("x"))
	if a.UID().String() == b.UID().String() {
		t.Fatal(a.UID())
	}
}
''')

S("c03-resource-partial","C03","pkg/space/marshal",[("pkg/space/marshal/marshal.go","""		r, err := ResourceFromSpace(e.Resource())
		if err != nil {
			return nil, err
		}
		ent.Resource = r""","""		if r, err := ResourceFromSpace(e.Resource()); err == nil {
			ent.Resource = r
		}""")],"an object whose resource's attributes fail to be read","the object's record silently lacks its resource",'''package marshal

import (
	"context"
	"errors"
	"testing"

	"github.com/milosgajdos/netscrape/pkg/space/entity"
)

type badAttrs struct{}

func (badAttrs) Keys(context.Context) ([]string, error)      { return nil, errors.New("keys") }
func (badAttrs) Get(context.Context, string) (string, error) { return "", nil }
func (badAttrs) Set(context.Context, string, string) error   { return nil }

func TestDemo(t *testing.T) {
	r, _ := entity.NewResource("t", "n", "g", "v", "k", false, entity.WithAttrs(badAttrs{}))
	o, _ := entity.NewObject("t", "name", "ns", r)
	if x, err := ObjectFromSpace(o); err == nil {
		t.Fatalf("%+v", x)
	}
}
''')

S("c04-type-shadowed","C04","pkg/space/marshal/json",[("pkg/space/marshal/types.go","""	Kind       string `json:"kind"`""","""	Kind       string `json:"type"`""")],"marshaling a resource whose type and kind differ","the resource's type is lost in JSON: the kind has the same field name and hides it",'''package json

import (
	"testing"

	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
)

func TestDemo(t *testing.T) {
	m, _ := NewMarshaler()
	r, _ := entity.NewResource("t", "n", "g", "v", "k", false)
	b, err := m.Marshal(r)
	if err != nil {
		t.Fatal(err)
	}
	var x space.Resource
	if err := m.Unmarshal(b, &x); err != nil || x.Type() != "t" || x.Kind() != "k" {
		t.Fatal(err, x.Type(), x.Kind())
	}
}
''')

S("c04-target-cleared","C04","pkg/space/marshal/json",[("pkg/space/marshal/json/json.go","""		var l marshal.Link
		if err := json.Unmarshal(b, &l); err != nil {
			return err
		}
		*x, err = marshal.LinkToSpace(l)""","""		var l marshal.Link
		err = json.Unmarshal(b, &l)
		*x, _ = marshal.LinkToSpace(l)""")],"unmarshaling malformed input into a link target","the target is replaced though the input is malformed",'''package json

import (
	"testing"

	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
)

func TestDemo(t *testing.T) {
	m, _ := NewMarshaler()
	l, _ := link.New(memuid.NewFromString("a"), memuid.NewFromString("b"))
	var x space.Link = l
	if err := m.Unmarshal([]byte("{"), &x); err == nil || x != space.Link(l) {
		t.Fatal(err, x)
	}
}
''')

S("c13-leftovers","C13","pkg/broker/memory",[("pkg/broker/memory/memory.go","""		delete(m.topics, topic)
""","""		if len(m.topics[topic].msg) == 0 {
			delete(m.topics, topic)
		}
""")],"a message left in a topic when the session closes, then a new session","the topic and its messages are still there after reopening",'''package memory

import (
	"context"
	"testing"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	b, _ := New(broker.WithCap(2))
	_ = b.Open(ctx)
	_ = b.Pub(ctx, "t", broker.Message{UID: "old"})
	_ = b.Close()
	_ = b.Open(ctx)
	s, err := b.Sub(ctx, "t")
	if err != nil {
		t.Fatal(err)
	}
	t0 := time.Now()
	err = s.Receive(ctx, func(context.Context, broker.Message) error {
		t.Error("a message of the old session")
		return nil
	}, broker.WithSubTimeout(50*time.Millisecond))
	if err != broker.ErrTimeout || time.Since(t0) < 50*time.Millisecond {
		t.Fatal("the new session's topic has already ended:", err)
	}
}
''')

S("c13-sub-topic-exit","C13","pkg/broker/memory",[("pkg/broker/memory/memory.go","""	q, ok := m.topics[topic]
	if !ok {
		q = queue{
			msg:  make(chan broker.Message, m.size),
			exit: m.exit,
		}
		m.topics[topic] = q
	}

	sub :=""","""	q, ok := m.topics[topic]
	if !ok {
		q = queue{
			msg:  make(chan broker.Message, m.size),
			exit: make(chan struct{}),
		}
		m.topics[topic] = q
	}

	sub :=""")],"a receiver waiting on a topic first made by subscribing when the broker closes","closing does not release the receivers and publishers of topics made by Sub",'''package memory

import (
	"context"
	"testing"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	b, _ := New(broker.WithCap(2))
	_ = b.Open(ctx)
	s, err := b.Sub(ctx, "t")
	if err != nil {
		t.Fatal(err)
	}
	time.AfterFunc(50*time.Millisecond, func() { _ = b.Close() })
	if err := s.Receive(ctx, func(context.Context, broker.Message) error { return nil }, broker.WithSubTimeout(2*time.Second)); err != nil {
		t.Fatal("closing does not release the receiver:", err)
	}
}
''')

S("c14-requeue","C14","pkg/broker/memory",[("pkg/broker/memory/subscriber.go","""		if err := h(ctx, msg); err != nil {
			return err
		}""","""		if err := h(ctx, msg); err != nil {
			select {
			case s.queue.msg <- msg:
			default:
			}
			return err
		}""")],"a handler that fails","the message is put back, so it is handled more than once",'''package memory

import (
	"context"
	"errors"
	"testing"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	b, _ := New(broker.WithCap(2))
	_ = b.Open(ctx)
	s, _ := b.Sub(ctx, "t")
	_ = b.Pub(ctx, "t", broker.Message{UID: "1"})
	n := 0
	h := func(context.Context, broker.Message) error { n++; return errors.New("x") }
	_ = s.Receive(ctx, h, broker.WithSubTimeout(50*time.Millisecond))
	_ = s.Receive(ctx, h, broker.WithSubTimeout(50*time.Millisecond))
	if n != 1 {
		t.Fatalf("handled %d times", n)
	}
}
''')

S("c14-sub-capacity","C14","pkg/broker/memory",[("pkg/broker/memory/memory.go","""			msg:  make(chan broker.Message, m.size),
			exit: m.exit,
		}
		m.topics[topic] = q
	}

	sub :=""","""			msg:  make(chan broker.Message, DefaultSize),
			exit: m.exit,
		}
		m.topics[topic] = q
	}

	sub :=""")],"a topic first made by subscribing, with a capacity other than the default","such a topic has the default capacity instead of the configured one",'''package memory

import (
	"context"
	"testing"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	b, _ := New(broker.WithCap(1))
	_ = b.Open(ctx)
	_, _ = b.Sub(ctx, "t")
	_ = b.Pub(ctx, "t", broker.Message{})
	if err := b.Pub(ctx, "t", broker.Message{}, broker.WithPubTimeout(20*time.Millisecond)); err != broker.ErrTimeout {
		t.Fatal("a second message fits:", err)
	}
}
''')

S("c15-drain-after-unsubscribe","C15","pkg/broker/memory",[("pkg/broker/memory/subscriber.go","""	if !s.active {
		s.RUnlock()""","""	if !s.active && len(s.queue.msg) == 0 {
		s.RUnlock()""")],"a message waiting in the topic when Receive is called after Unsubscribe","the ended subscription still takes messages",'''package memory

import (
	"context"
	"testing"

	"github.com/milosgajdos/netscrape/pkg/broker"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	for i := 0; i < 20; i++ {
		b, _ := New(broker.WithCap(2))
		_ = b.Open(ctx)
		s, _ := b.Sub(ctx, "t")
		_ = b.Pub(ctx, "t", broker.Message{})
		_ = s.Unsubscribe(ctx)
		if err := s.Receive(ctx, func(context.Context, broker.Message) error { return nil }); err != broker.ErrSubscriptionInactive {
			t.Fatal(err)
		}
	}
}
''')

S("c15-drops-topic","C15","pkg/broker/memory",[("pkg/broker/memory/memory.go","""				delete(m.subs[sub.topic], sub.id)""","""				delete(m.subs, sub.topic)""")],"two subscriptions of one topic, one of which unsubscribes","the broker forgets every subscription of the topic",'''package memory

import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	b, _ := New()
	_ = b.Open(ctx)
	s, _ := b.Sub(ctx, "t")
	o, _ := b.Sub(ctx, "t")
	id, _ := s.ID(ctx)
	oid, _ := o.ID(ctx)
	_ = s.Unsubscribe(ctx)
	for i := 0; i < 1000; i++ {
		b.RLock()
		_, gone := b.subs["t"][id]
		_, kept := b.subs["t"][oid]
		b.RUnlock()
		if !gone {
			if !kept {
				t.Fatal("the other subscription is gone")
			}
			return
		}
		time.Sleep(time.Millisecond)
	}
	t.Fatal("not removed")
}
''')

S("c16-republish","C16","pkg/broker/ingester/simple",[("pkg/broker/ingester/simple/ingester.go","""		return b.Pub(ctx, topic, *msg)
	}
""","""		if err = b.Pub(ctx, topic, *msg); err != broker.ErrTimeout {
			return err
		}
	}
	if m == nil {
		return b.Pub(ctx, topic, *msg)
	}
""")],"a publish that times out, with no marshaler given","the message is published a second time and the first error is lost",'''package simple

import (
	"context"
	"testing"

	"github.com/milosgajdos/netscrape/pkg/broker"
)

type brk struct {
	broker.Broker
	n int
}

func (b *brk) Pub(context.Context, string, broker.Message, ...broker.Option) error {
	b.n++
	return broker.ErrTimeout
}

func TestDemo(t *testing.T) {
	in, _ := NewIngester()
	b := &brk{}
	if err := in.Ingest(context.Background(), b, "t", 0, 1); err != broker.ErrTimeout || b.n != 1 {
		t.Fatal(err, b.n)
	}
}
''')

S("c16-timeout-ignored","C16","pkg/broker/digester/simple",[("pkg/broker/digester/simple/digester.go","""		if err := sub.Receive(ctx, h); err != nil {
			return err
		}""","""		if err := sub.Receive(ctx, h); err != nil && err != broker.ErrTimeout {
			return err
		}""")],"a receive that times out","Digest goes on after a receive timed out instead of returning the error",'''package simple

import (
	"context"
	"errors"
	"testing"

	"github.com/milosgajdos/netscrape/pkg/broker"
)

type sbs struct {
	broker.Subscriber
	n int
}

func (s *sbs) Receive(context.Context, broker.Handler, ...broker.Option) error {
	s.n++
	if s.n == 1 {
		return broker.ErrTimeout
	}
	return errors.New("second")
}

func TestDemo(t *testing.T) {
	d, _ := NewDigester()
	if err := d.Digest(context.Background(), &sbs{}); err != broker.ErrTimeout {
		t.Fatal(err)
	}
}
''')

S("c17-first-marshaler","C17",".",[("options.go","""		o.Marshaler = m
""","""		if o.Marshaler == nil {
			o.Marshaler = m
		}
""")],"a marshaler given both to NewRunner and to Run","the run's marshaler does not override the runner's",'''package netscrape

import (
	"context"
	"testing"

	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/plan"
)

type mar struct {
	broker.Marshaler
	n int
}

type scr struct{ o Options }

func (s *scr) Scrape(_ context.Context, _ plan.Plan, opts ...Option) error {
	for _, f := range opts {
		f(&s.o)
	}
	return nil
}

func TestDemo(t *testing.T) {
	a, b := &mar{n: 1}, &mar{n: 2}
	r, _ := NewRunner(WithMarshaler(a))
	s := &scr{}
	_ = r.Run(context.Background(), nil, s, WithMarshaler(b))
	if s.o.Marshaler != broker.Marshaler(b) {
		t.Fatal(s.o)
	}
}
''')
