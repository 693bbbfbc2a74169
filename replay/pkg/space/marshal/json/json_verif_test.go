package json_test

import (
	"context"
	stdjson "encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/space/marshal"
	"github.com/milosgajdos/netscrape/pkg/space/marshal/json"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
)

var verr = errors.New("verif: attribute source failed")

type vattrs struct{}

func (a *vattrs) Keys(context.Context) ([]string, error)      { return nil, verr }
func (a *vattrs) Get(context.Context, string) (string, error) { return "", verr }
func (a *vattrs) Set(_ context.Context, k, v string) error    { return nil }

// vboth is a resource and an object.
type vboth struct{ r *entity.Resource }

func (b *vboth) Namespace() string        { return "ns" }
func (b *vboth) Resource() space.Resource { return nil }

type vnamed interface {
	UID() uuid.UID
	Type() string
	Attrs() attrs.Attrs
	Name() string
	Group() string
	Version() string
	Kind() string
	Namespaced() bool
}

// vboth2 is a resource and an object.
type vboth2 struct {
	*vboth
	vnamed
}

func (b *vboth2) UID() uuid.UID      { return b.vnamed.UID() }
func (b *vboth2) Type() string       { return b.vnamed.Type() }
func (b *vboth2) Attrs() attrs.Attrs { return b.vnamed.Attrs() }
func (b *vboth2) Name() string       { return b.vnamed.Name() }
func (b *vboth2) Group() string      { return b.vnamed.Group() }
func (b *vboth2) Version() string    { return b.vnamed.Version() }
func (b *vboth2) Kind() string       { return b.vnamed.Kind() }
func (b *vboth2) Namespaced() bool   { return b.vnamed.Namespaced() }

// vel is an entity and a link.
type vel struct{ *entity.Entity }

func (b *vel) From() uuid.UID { return memuid.NewFromString("f") }
func (b *vel) To() uuid.UID   { return memuid.NewFromString("t") }

// vol is an object and a link.
type vol struct{ *entity.Object }

func (b *vol) From() uuid.UID { return memuid.NewFromString("f") }
func (b *vol) To() uuid.UID   { return memuid.NewFromString("t") }

func TestVerifC04(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	words := []string{"", "a", "b", "A b", "name", "é", "/", "<&>", "\"x\""}
	m, err := json.NewMarshaler()
	if err != nil {
		t.Fatal(err)
	}
	for round := int64(0); round < 4000; round++ {
		rnd := rand.New(rand.NewSource(seed*1000003 + round))
		w := func() string { return words[rnd.Intn(len(words))] }
		in := ""
		failed := func(f string, a ...interface{}) {
			t.Fatalf("FAILING INPUT (round %d): %s\ninput: %s", round, fmt.Sprintf(f, a...), in)
		}
		fail := rnd.Intn(8) == 0
		mka := func() map[string]string {
			a := map[string]string{}
			for i, n := 0, rnd.Intn(4); i < n; i++ {
				a[w()] = w()
			}
			return a
		}
		ent := func() (marshal.Entity, attrs.Attrs) {
			e := marshal.Entity{UID: w(), Type: w(), Attrs: mka()}
			return e, memattrs.NewFromMap(e.Attrs)
		}
		opts := func(e marshal.Entity, a attrs.Attrs, top bool) []entity.Option {
			if fail && top {
				a = &vattrs{}
			}
			return []entity.Option{entity.WithUID(memuid.NewFromString(e.UID)), entity.WithAttrs(a)}
		}
		mkr := func(top bool) (*marshal.Resource, *entity.Resource) {
			e, a := ent()
			r := &marshal.Resource{Entity: e, Name: w(), Group: w(), Version: w(), Kind: w(), Namespaced: rnd.Intn(2) == 0}
			s, err := entity.NewResource(e.Type, r.Name, r.Group, r.Version, r.Kind, r.Namespaced, opts(e, a, top)...)
			if err != nil {
				failed("%v", err)
			}
			return r, s
		}
		var x, want interface{}
		kind := rnd.Intn(5)
		switch kind {
		case 0:
			r, s := mkr(true)
			x, want = s, r
			if rnd.Intn(3) == 0 {
				x = &vboth2{&vboth{s}, s}
			}
		case 1:
			e, a := ent()
			o := &marshal.Object{Entity: e, Name: w(), Namespace: w()}
			var q space.Resource
			if rnd.Intn(3) > 0 {
				r, s := mkr(false)
				o.Resource, q = r, s
			}
			s, err := entity.NewObject(e.Type, o.Name, o.Namespace, q, opts(e, a, true)...)
			if err != nil {
				failed("%v", err)
			}
			x, want = s, o
			if rnd.Intn(3) == 0 {
				x = &vol{s}
			}
		case 2:
			e, a := ent()
			s, err := entity.New(e.Type, opts(e, a, true)...)
			if err != nil {
				failed("%v", err)
			}
			x, want = s, &e
			if rnd.Intn(3) == 0 {
				x = &vel{s}
			}
		case 3:
			l := &marshal.Link{UID: w(), From: w(), To: w(), Attrs: mka()}
			var a attrs.Attrs = memattrs.NewFromMap(l.Attrs)
			if fail {
				a = &vattrs{}
			}
			s, err := link.New(memuid.NewFromString(l.From), memuid.NewFromString(l.To), link.WithUID(memuid.NewFromString(l.UID)), link.WithAttrs(a))
			if err != nil {
				failed("%v", err)
			}
			x, want = s, l
		default:
			x = []interface{}{nil, 1, "x", struct{}{}, map[string]string{}, marshal.Entity{}}[rnd.Intn(6)]
		}
		in = fmt.Sprintf("%T %+v", x, x)
		b, err := m.Marshal(x)
		if kind == 4 {
			if !errors.Is(err, marshal.ErrUnsuportedType) || b != nil {
				failed("Marshal: %q, %v, want the unsupported-type error", b, err)
			}
		} else if fail {
			if !errors.Is(err, verr) || b != nil {
				failed("Marshal: %q, %v, want the attribute source's error", b, err)
			}
		} else {
			wb, werr := stdjson.Marshal(want)
			if werr != nil || err != nil {
				failed("Marshal: %v %v", err, werr)
			}
			if string(b) != string(wb) {
				failed("Marshal: %s\nwant %s", b, wb)
			}
			// back
			var got interface{}
			var unerr error
			fromRec := func() {
				switch kind {
				case 0:
					var r space.Resource
					if unerr = m.Unmarshal(b, &r); unerr == nil {
						got, unerr = marshal.ResourceFromSpace(r)
					}
				case 1:
					var r space.Object
					if unerr = m.Unmarshal(b, &r); unerr == nil {
						got, unerr = marshal.ObjectFromSpace(r)
					}
				case 2:
					var r space.Entity
					if unerr = m.Unmarshal(b, &r); unerr == nil {
						got, unerr = marshal.EntityFromSpace(r)
					}
				case 3:
					var r space.Link
					if unerr = m.Unmarshal(b, &r); unerr == nil {
						got, unerr = marshal.LinkFromSpace(r)
					}
				}
			}
			fromRec()
			if unerr != nil || !reflect.DeepEqual(got, want) {
				failed("marshaled and unmarshaled: %+v, %v, want %+v\nJSON: %s", got, unerr, want, b)
			}
		}
		// targets
		if kind < 4 && !fail {
			bad := append([]byte{}, b[:len(b)-1-rnd.Intn(3)]...)
			e0, _ := entity.New("old")
			o0, _ := entity.NewObject("old", "", "", nil)
			r0, _ := entity.NewResource("old", "", "", "", "", false)
			l0, _ := link.New(memuid.NewFromString("x"), memuid.NewFromString("y"))
			var e space.Entity = e0
			var o space.Object = o0
			var r space.Resource = r0
			var l space.Link = l0
			for _, p := range []interface{}{&e, &o, &r, &l} {
				if err := m.Unmarshal(bad, p); err == nil {
					failed("Unmarshal(%q, %T) gives no error", bad, p)
				}
			}
			if e != space.Entity(e0) || o != space.Object(o0) || r != space.Resource(r0) || l != space.Link(l0) {
				failed("Unmarshal of malformed %q changed its target", bad)
			}
			for _, p := range []interface{}{e, nil, e0, r0, new(string), marshal.Entity{}, &marshal.Entity{}} {
				if err := m.Unmarshal(b, p); !errors.Is(err, marshal.ErrUnsuportedType) {
					failed("Unmarshal(.., %T): %v, want the unsupported-type error", p, err)
				}
			}
			if err := m.Unmarshal([]byte(`{"uid":"u","type":"t","attrs":{"k":"v"}}`), &o); err != nil || o.UID().String() != "u" || o.Type() != "t" || o.Resource() != nil {
				failed("Unmarshal of a plain object: %v, %v", o, err)
			}
		}
	}
}
