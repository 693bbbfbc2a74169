package link_test

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
)

type vuid struct{ s string }

func (v *vuid) String() string { return v.s }

func TestVerifC02(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	words := []string{"", "a", "b", "A b", "é"}
	seen := map[string]bool{}
	for round := int64(0); round < 3000; round++ {
		rnd := rand.New(rand.NewSource(seed*1000003 + round))
		w := func() string { return words[rnd.Intn(len(words))] }
		var hist []string
		failed := func(f string, a ...interface{}) {
			t.Fatalf("FAILING INPUT (round %d): %s\ncall: %s", round, fmt.Sprintf(f, a...), strings.Join(hist, ", "))
		}
		var opts []link.Option
		var uid uuid.UID
		var as attrs.Attrs
		for i, n := 0, rnd.Intn(5); i < n; i++ {
			if rnd.Intn(2) == 0 {
				uid = &vuid{w()}
				opts = append(opts, link.WithUID(uid))
				hist = append(hist, fmt.Sprintf("WithUID(%q)", uid))
			} else {
				as = memattrs.NewFromMap(map[string]string{w(): w()})
				opts = append(opts, link.WithAttrs(as))
				hist = append(hist, "WithAttrs(..)")
			}
		}
		from, to := &vuid{w()}, &vuid{w()}
		hist = append([]string{fmt.Sprintf("New(%q, %q)", from, to)}, hist...)
		l, err := link.New(from, to, opts...)
		if err != nil {
			failed("%v", err)
		}
		if l.From() != from || l.To() != to {
			failed("from %v to %v", l.From(), l.To())
		}
		if l.UID() == nil || uid != nil && l.UID() != uid {
			failed("UID %v, want %v", l.UID(), uid)
		}
		if uid == nil {
			if s := l.UID().String(); s == "" || seen[s] {
				failed("UID %q is not fresh", s)
			} else {
				seen[s] = true
			}
		}
		if l.Attrs() == nil || as != nil && l.Attrs() != as {
			failed("attributes %v, want %v", l.Attrs(), as)
		}
		if as == nil {
			if ks, err := l.Attrs().Keys(context.Background()); err != nil || len(ks) != 0 {
				failed("attributes are not empty: %v %v", ks, err)
			}
			_ = l.Attrs().Set(context.Background(), "verif", "1")
		}
		s := w()
		if u := memuid.NewFromString(s); u.String() != s {
			failed("NewFromString(%q) is %q", s, u)
		}
	}
}
