package marshal_test

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/marshal"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

type vuid struct{ s string }

func (v *vuid) String() string { return v.s }

var verr = errors.New("verif: attribute source failed")

type vattrs struct {
	m    map[string]string
	fail string
}

func (a *vattrs) Keys(context.Context) ([]string, error) {
	if a.fail == "keys" {
		return nil, verr
	}
	var l []string
	for k := range a.m {
		l = append(l, k)
	}
	return l, nil
}

func (a *vattrs) Get(_ context.Context, k string) (string, error) {
	if a.fail == "get" {
		return "", verr
	}
	return a.m[k], nil
}

func (a *vattrs) Set(_ context.Context, k, v string) error { return nil }

type vent struct {
	uid   string
	typ   string
	attrs *vattrs
}

func (e *vent) UID() uuid.UID      { return &vuid{e.uid} }
func (e *vent) Type() string       { return e.typ }
func (e *vent) Attrs() attrs.Attrs { return e.attrs }

type vres struct {
	vent
	name, group, version, kind string
	nsd                        bool
}

func (e *vres) Name() string     { return e.name }
func (e *vres) Group() string    { return e.group }
func (e *vres) Version() string  { return e.version }
func (e *vres) Kind() string     { return e.kind }
func (e *vres) Namespaced() bool { return e.nsd }

type vobj struct {
	vent
	name, ns string
	res      *vres
}

func (e *vobj) Name() string      { return e.name }
func (e *vobj) Namespace() string { return e.ns }
func (e *vobj) Resource() space.Resource {
	if e.res == nil {
		return nil
	}
	return e.res
}

type vlink struct {
	vent
	from, to string
}

func (e *vlink) From() uuid.UID { return &vuid{e.from} }
func (e *vlink) To() uuid.UID   { return &vuid{e.to} }

func TestVerifC03(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	words := []string{"", "a", "b", "A b", "name", "é", "/", "\xff"}
	for round := int64(0); round < 6000; round++ {
		rnd := rand.New(rand.NewSource(seed*1000003 + round))
		w := func() string { return words[rnd.Intn(len(words))] }
		in := ""
		failed := func(f string, a ...interface{}) {
			t.Fatalf("FAILING INPUT (round %d): %s\ninput: %s", round, fmt.Sprintf(f, a...), in)
		}
		anyFail := false
		mk := func() vent {
			a := &vattrs{m: map[string]string{}}
			for i, n := 0, rnd.Intn(4); i < n; i++ {
				a.m[w()] = w()
			}
			if rnd.Intn(6) == 0 {
				a.fail = []string{"keys", "get"}[rnd.Intn(2)]
				if a.fail == "keys" || len(a.m) > 0 {
					anyFail = true
				}
			}
			return vent{w(), w(), a}
		}
		rec := func(e vent) marshal.Entity { return marshal.Entity{UID: e.uid, Type: e.typ, Attrs: e.attrs.m} }
		rrec := func(r *vres) *marshal.Resource {
			return &marshal.Resource{Entity: rec(r.vent), Name: r.name, Group: r.group, Version: r.version, Kind: r.kind, Namespaced: r.nsd}
		}
		mkr := func() *vres { return &vres{mk(), w(), w(), w(), w(), rnd.Intn(2) == 0} }
		sameA := func(what string, a attrs.Attrs, m map[string]string) {
			got, err := attrs.ToMap(context.Background(), a)
			if err != nil || len(got) != len(m) {
				failed("%s: attributes %v, %v, want %v", what, got, err, m)
			}
			for k, v := range m {
				if x, ok := got[k]; !ok || x != v {
					failed("%s: attributes %v, want %v", what, got, m)
				}
			}
		}
		var got, want interface{}
		var err error
		var back func()
		switch rnd.Intn(4) {
		case 0:
			e := mk()
			in = fmt.Sprintf("entity %+v attrs %+v", e, e.attrs)
			r := rec(e)
			want = &r
			x, er := marshal.EntityFromSpace(&e)
			got, err = x, er
			if x == nil {
				got = nil
			}
			back = func() {
				s, err := marshal.EntityToSpace(r)
				if err != nil || s.UID().String() != e.uid || s.Type() != e.typ {
					failed("EntityToSpace: %v, %v", s, err)
				}
				sameA("EntityToSpace", s.Attrs(), r.Attrs)
			}
		case 1:
			e := mkr()
			in = fmt.Sprintf("resource %+v attrs %+v", e, e.attrs)
			r := rrec(e)
			want = r
			x, er := marshal.ResourceFromSpace(e)
			got, err = x, er
			if x == nil {
				got = nil
			}
			back = func() {
				s, err := marshal.ResourceToSpace(*r)
				if err != nil || s.UID().String() != e.uid || s.Type() != e.typ || s.Name() != e.name || s.Group() != e.group || s.Version() != e.version || s.Kind() != e.kind || s.Namespaced() != e.nsd {
					failed("ResourceToSpace: %v, %v", s, err)
				}
				sameA("ResourceToSpace", s.Attrs(), r.Attrs)
			}
		case 2:
			e := &vobj{vent: mk(), name: w(), ns: w()}
			r := &marshal.Object{Entity: rec(e.vent), Name: e.name, Namespace: e.ns}
			if rnd.Intn(3) > 0 {
				e.res = mkr()
				r.Resource = rrec(e.res)
			}
			in = fmt.Sprintf("object %+v attrs %+v resource %+v", e, e.attrs, e.res)
			want = r
			x, er := marshal.ObjectFromSpace(e)
			got, err = x, er
			if x == nil {
				got = nil
			}
			back = func() {
				s, err := marshal.ObjectToSpace(*r)
				if err != nil || s.UID().String() != e.uid || s.Type() != e.typ || s.Name() != e.name || s.Namespace() != e.ns || (s.Resource() == nil) != (e.res == nil) {
					failed("ObjectToSpace: %v, %v", s, err)
				}
				sameA("ObjectToSpace", s.Attrs(), r.Attrs)
				if e.res != nil {
					q := s.Resource()
					if q.UID().String() != e.res.uid || q.Type() != e.res.typ || q.Name() != e.res.name || q.Group() != e.res.group || q.Version() != e.res.version || q.Kind() != e.res.kind || q.Namespaced() != e.res.nsd {
						failed("ObjectToSpace: resource %v", q)
					}
					sameA("ObjectToSpace resource", q.Attrs(), r.Resource.Attrs)
				}
			}
		default:
			e := &vlink{mk(), w(), w()}
			in = fmt.Sprintf("link %+v attrs %+v", e, e.attrs)
			r := &marshal.Link{UID: e.uid, From: e.from, To: e.to, Attrs: e.attrs.m}
			want = r
			x, er := marshal.LinkFromSpace(e)
			got, err = x, er
			if x == nil {
				got = nil
			}
			back = func() {
				s, err := marshal.LinkToSpace(*r)
				if err != nil || s.UID().String() != e.uid || s.From().String() != e.from || s.To().String() != e.to {
					failed("LinkToSpace: %v, %v", s, err)
				}
				sameA("LinkToSpace", s.Attrs(), r.Attrs)
			}
		}
		if anyFail {
			if err == nil || !errors.Is(err, verr) || got != nil {
				failed("a failing attribute source gives %+v, %v", got, err)
			}
		} else if err != nil || !reflect.DeepEqual(got, want) {
			failed("the record is %+v, %v, want %+v", got, err, want)
		}
		back()
	}
}
