package entity_test

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

type vuid struct{ s string }

func (v *vuid) String() string { return v.s }

type vres struct {
	space.Resource
	name, group, version, kind string
}

func (r *vres) Name() string    { return r.name }
func (r *vres) Group() string   { return r.group }
func (r *vres) Version() string { return r.version }
func (r *vres) Kind() string    { return r.kind }

type dotter interface {
	DOTID() string
	SetDOTID(string)
}

func TestVerifC02(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	words := []string{"", "a", "b", "kind", "group/version", "A b", "/", "v1", "é", "x\x00"}
	seen := map[string]bool{}
	for round := int64(0); round < 6000; round++ {
		rnd := rand.New(rand.NewSource(seed*1000003 + round))
		w := func() string { return words[rnd.Intn(len(words))] }
		var hist []string
		failed := func(f string, a ...interface{}) {
			t.Fatalf("FAILING INPUT (round %d): %s\ncall: %s", round, fmt.Sprintf(f, a...), strings.Join(hist, ", "))
		}
		var opts []entity.Option
		var uid uuid.UID
		var as attrs.Attrs
		dot := ""
		for i, n := 0, rnd.Intn(5); i < n; i++ {
			switch rnd.Intn(3) {
			case 0:
				uid = &vuid{w()}
				opts = append(opts, entity.WithUID(uid))
				hist = append(hist, fmt.Sprintf("WithUID(%q)", uid))
			case 1:
				as = memattrs.NewFromMap(map[string]string{w(): w()})
				opts = append(opts, entity.WithAttrs(as))
				hist = append(hist, "WithAttrs(..)")
			case 2:
				dot = w()
				opts = append(opts, entity.WithDOTID(dot))
				hist = append(hist, fmt.Sprintf("WithDOTID(%q)", dot))
			}
		}
		typ := w()
		var e space.Entity
		var more func()
		wantDot := ""
		hd := ""
		switch rnd.Intn(3) {
		case 0:
			hd = fmt.Sprintf("New(%q)", typ)
			x, err := entity.New(typ, opts...)
			if err != nil {
				failed("%s: %v", hd, err)
			}
			e, wantDot = x, "uid"
			more = func() {}
		case 1:
			name, group, version, kind, nsd := w(), w(), w(), w(), rnd.Intn(2) == 0
			hd = fmt.Sprintf("NewResource(%q, %q, %q, %q, %q, %v)", typ, name, group, version, kind, nsd)
			x, err := entity.NewResource(typ, name, group, version, kind, nsd, opts...)
			if err != nil {
				failed("%s: %v", hd, err)
			}
			e, wantDot = x, group+"/"+version+"/"+kind
			more = func() {
				if x.Name() != name || x.Group() != group || x.Version() != version || x.Kind() != kind || x.Namespaced() != nsd {
					failed("%s has name %q group %q version %q kind %q namespaced %v", hd, x.Name(), x.Group(), x.Version(), x.Kind(), x.Namespaced())
				}
			}
		default:
			name, ns := w(), w()
			var r space.Resource
			wantDot = "uid"
			if rnd.Intn(3) > 0 {
				v := &vres{name: w(), group: w(), version: w(), kind: w()}
				r = v
				wantDot = strings.Join([]string{v.group, v.version, v.kind, ns, name}, "/")
			}
			hd = fmt.Sprintf("NewObject(%q, %q, %q, %v)", typ, name, ns, r)
			x, err := entity.NewObject(typ, name, ns, r, opts...)
			if err != nil {
				failed("%s: %v", hd, err)
			}
			e = x
			more = func() {
				if x.Name() != name || x.Namespace() != ns || x.Resource() != r {
					failed("%s has name %q namespace %q resource %v", hd, x.Name(), x.Namespace(), x.Resource())
				}
			}
		}
		hist = append([]string{hd}, hist...)
		check := func() {
			if e.Type() != typ {
				failed("type %q, want %q", e.Type(), typ)
			}
			more()
			if e.UID() == nil || uid != nil && e.UID() != uid {
				failed("UID %v, want %v", e.UID(), uid)
			}
			if e.Attrs() == nil || as != nil && e.Attrs() != as {
				failed("attributes %v, want %v", e.Attrs(), as)
			}
		}
		check()
		if uid == nil {
			s := e.UID().String()
			if s == "" || seen[s] {
				failed("UID %q is not fresh", s)
			}
			seen[s] = true
		}
		if as == nil {
			ks, err := e.Attrs().Keys(context.Background())
			if err != nil || len(ks) != 0 {
				failed("attributes are not empty: %v %v", ks, err)
			}
			_ = e.Attrs().Set(context.Background(), "verif", "1")
		}
		if wantDot == "uid" {
			wantDot = e.UID().String()
		}
		if dot != "" {
			wantDot = dot
		}
		d := e.(dotter)
		if d.DOTID() != wantDot {
			failed("DOT ID %q, want %q", d.DOTID(), wantDot)
		}
		n := w()
		d.SetDOTID(n)
		hist = append(hist, fmt.Sprintf("SetDOTID(%q)", n))
		if d.DOTID() != n {
			failed("DOT ID %q, want %q", d.DOTID(), n)
		}
		check()
	}
}
