package memory_test

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"gonum.org/v1/gonum/graph/encoding"
)

var verr = errors.New("verif: attribute source failed")

// vattrs is an attribute source that can fail.
type vattrs struct {
	m       map[string]string
	failKey bool
	failGet string
	fails   bool
}

func (a *vattrs) Keys(context.Context) ([]string, error) {
	if a.failKey {
		return nil, verr
	}
	var l []string
	for k := range a.m {
		l = append(l, k)
	}
	return l, nil
}

func (a *vattrs) Get(_ context.Context, k string) (string, error) {
	if a.fails && k == a.failGet {
		return "", verr
	}
	return a.m[k], nil
}

func (a *vattrs) Set(_ context.Context, k, v string) error { a.m[k] = v; return nil }

func vshow(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(l)
	return "{" + strings.Join(l, " ") + "}"
}

func vsame(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// vcontents reads all of an attribute set; it complains about repeated keys.
func vcontents(a attrs.Attrs) (map[string]string, string) {
	ks, err := a.Keys(context.Background())
	if err != nil {
		return nil, "Keys: " + err.Error()
	}
	m := map[string]string{}
	for _, k := range ks {
		if _, ok := m[k]; ok {
			return nil, fmt.Sprintf("key %q listed twice", k)
		}
		v, err := a.Get(context.Background(), k)
		if err != nil {
			return nil, "Get: " + err.Error()
		}
		m[k] = v
	}
	return m, ""
}

func vpairs(l []encoding.Attribute) (map[string]string, string) {
	m := map[string]string{}
	for _, a := range l {
		if _, ok := m[a.Key]; ok {
			return nil, fmt.Sprintf("key %q rendered twice", a.Key)
		}
		m[a.Key] = a.Value
	}
	return m, ""
}

func TestVerifC01(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	words := []string{"", "a", "b", "A", " a", "name", "weight", "dotid", "label", "\x00", "é", "_x", "a=b"}
	ctx := context.Background()
	for round := int64(0); round < 6000; round++ {
		rnd := rand.New(rand.NewSource(seed*1000003 + round))
		w := func() string { return words[rnd.Intn(len(words))] }
		var hist []string
		failed := func(f string, a ...interface{}) {
			t.Fatalf("FAILING INPUT (round %d): %s\nhistory:\n  %s", round, fmt.Sprintf(f, a...), strings.Join(hist, "\n  "))
		}
		src := map[string]string{}
		for i, n := 0, rnd.Intn(6); i < n; i++ {
			src[w()] = w()
		}
		keep := map[string]string{}
		for k, v := range src {
			keep[k] = v
		}
		hist = append(hist, "source "+vshow(src))
		va := &vattrs{m: src}
		// conversions
		check := func(what string, got map[string]string, bad string, want map[string]string) {
			if bad != "" {
				failed("%s: %s", what, bad)
			}
			if !vsame(got, want) {
				failed("%s has %s, want %s", what, vshow(got), vshow(want))
			}
		}
		m, err := attrs.ToMap(ctx, va)
		if err != nil {
			failed("ToMap: %v", err)
		}
		check("ToMap", m, "", keep)
		fm := memory.NewFromMap(src)
		got, bad := vcontents(fm)
		check("NewFromMap", got, bad, keep)
		cp, err := memory.NewCopyFrom(ctx, va)
		if err != nil {
			failed("NewCopyFrom: %v", err)
		}
		got, bad = vcontents(cp)
		check("NewCopyFrom", got, bad, keep)
		got, bad = vpairs(memory.DOTAttrs(va))
		check("DOTAttrs", got, bad, keep)
		got, bad = vpairs(fm.Attributes())
		check("Attributes", got, bad, keep)
		// failing sources
		if va.failKey = rnd.Intn(2) == 0; !va.failKey && len(src) > 0 {
			va.fails = true
			var ks []string
			for k := range src {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			va.failGet = ks[rnd.Intn(len(ks))]
		}
		if va.failKey || va.fails {
			if m, err := attrs.ToMap(ctx, va); err == nil || !errors.Is(err, verr) || m != nil {
				failed("ToMap of a failing source (keys %v, get %v): %v, %v", va.failKey, va.fails, m, err)
			}
			if m, err := memory.NewCopyFrom(ctx, va); err == nil || !errors.Is(err, verr) || m != nil {
				failed("NewCopyFrom of a failing source (keys %v, get %v): %v, %v", va.failKey, va.fails, m, err)
			}
			if l := memory.DOTAttrs(va); len(l) != 0 {
				failed("DOTAttrs of a failing source: %v", l)
			}
		}
		va.failKey, va.fails = false, false
		// histories on the set, its copy and its map
		sets := []attrs.Attrs{fm, cp, memory.New()}
		mod := []map[string]string{{}, {}, {}}
		for k, v := range keep {
			mod[0][k] = v
			mod[1][k] = v
		}
		names := []string{"NewFromMap", "NewCopyFrom", "New"}
		for i, n := 0, rnd.Intn(12); i < n; i++ {
			j, k, v := rnd.Intn(len(sets)), w(), w()
			hist = append(hist, fmt.Sprintf("%s[%d].Set(%q, %q)", names[j], j, k, v))
			if err := sets[j].Set(ctx, k, v); err != nil {
				failed("Set: %v", err)
			}
			mod[j][k] = v
			if rnd.Intn(3) == 0 {
				j := rnd.Intn(len(sets))
				cp, err := memory.NewCopyFrom(ctx, sets[j])
				if err != nil {
					failed("NewCopyFrom: %v", err)
				}
				hist = append(hist, fmt.Sprintf("copy of %d", j))
				sets = append(sets, cp)
				names = append(names, fmt.Sprintf("copy of %d", j))
				m := map[string]string{}
				for k, v := range mod[j] {
					m[k] = v
				}
				mod = append(mod, m)
			}
			for j := range sets {
				got, bad := vcontents(sets[j])
				check(fmt.Sprintf("set %d", j), got, bad, mod[j])
				k := w()
				if v, err := sets[j].Get(ctx, k); err != nil || v != mod[j][k] {
					failed("set %d: Get(%q) = %q, %v, want %q", j, k, v, err, mod[j][k])
				}
			}
		}
		if !vsame(src, keep) {
			failed("the source became %s", vshow(src))
		}
	}
}
