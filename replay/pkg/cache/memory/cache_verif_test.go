package memory_test

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/cache"
	"github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

type vid struct{ s string }

func (v *vid) String() string { return v.s }

type vlink struct {
	n        int
	from, to *vid
}

func (l *vlink) UID() uuid.UID      { return &vid{strconv.Itoa(l.n)} }
func (l *vlink) From() uuid.UID     { return l.from }
func (l *vlink) To() uuid.UID       { return l.to }
func (l *vlink) Attrs() attrs.Attrs { return nil }

func vseed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

type pair struct{ f, t string }

// TestVerifC06 runs random histories of the cache against a relation.
func TestVerifC06(t *testing.T) {
	words := []string{"", "a", "b", "c", "ab", "A"}
	for round := int64(0); round < 4000; round++ {
		rnd := rand.New(rand.NewSource(vseed()*1000003 + round))
		var hist []string
		ctx := context.Background()
		c, err := memory.NewLinks()
		if err != nil {
			t.Fatalf("NewLinks: %v", err)
		}
		model := map[pair]cache.Link{}
		nl := 0
		failed := func(f string, a ...interface{}) {
			t.Fatalf("FAILING INPUT (round %d): %s\nhistory:\n  %s", round, fmt.Sprintf(f, a...), strings.Join(hist, "\n  "))
		}
		listed := func(what string, ls []cache.Link, want func(p pair) bool) {
			seen := map[pair]bool{}
			for _, l := range ls {
				if l == nil {
					failed("%s lists nil", what)
				}
				p := pair{l.From().String(), l.To().String()}
				if !want(p) || seen[p] || model[p] != l {
					failed("%s lists link %d (%q to %q) wrongly", what, l.(*vlink).n, p.f, p.t)
				}
				seen[p] = true
			}
			n := 0
			for p := range model {
				if want(p) {
					n++
				}
			}
			if n != len(seen) {
				failed("%s lists %d of %d links", what, len(seen), n)
			}
		}
		check := func() {
			for _, w := range words {
				w := w
				ls, err := c.GetFrom(ctx, &vid{w})
				if err != nil {
					failed("GetFrom: %v", err)
				}
				listed(fmt.Sprintf("GetFrom(%q)", w), ls, func(p pair) bool { return p.f == w })
				ls, err = c.GetTo(ctx, &vid{w})
				if err != nil {
					failed("GetTo: %v", err)
				}
				listed(fmt.Sprintf("GetTo(%q)", w), ls, func(p pair) bool { return p.t == w })
			}
			var us []uuid.UID
			for i := 0; i < 3; i++ {
				us = append(us, &vid{words[rnd.Intn(len(words))]})
			}
			us = append(us, us[rnd.Intn(3)])
			for _, dir := range []string{"From", "To"} {
				get := c.BulkGetFrom
				if dir == "To" {
					get = c.BulkGetTo
				}
				m, err := get(ctx, us)
				if err != nil {
					failed("BulkGet%s: %v", dir, err)
				}
				for _, u := range us {
					u := u
					listed(fmt.Sprintf("BulkGet%s[%q]", dir, u), m[u], func(p pair) bool {
						return dir == "From" && p.f == u.String() || dir == "To" && p.t == u.String()
					})
				}
				for k := range m {
					if k != us[0] && k != us[1] && k != us[2] {
						failed("BulkGet%s returns a key that was not asked for", dir)
					}
				}
			}
		}
		mk := func() *vlink {
			nl++
			return &vlink{nl, &vid{words[rnd.Intn(len(words))]}, &vid{words[rnd.Intn(len(words))]}}
		}
		put := func(l *vlink, up bool) {
			p := pair{l.from.s, l.to.s}
			if _, ok := model[p]; !ok || up {
				model[p] = l
			}
		}
		del := func(w string) {
			for p := range model {
				if p.f == w || p.t == w {
					delete(model, p)
				}
			}
		}
		n := 1 + rnd.Intn(10)
		for i := 0; i < n; i++ {
			var opts []cache.Option
			up := rnd.Intn(2) == 0
			if up {
				opts = append(opts, cache.WithUpsert())
			}
			var err error
			switch k := rnd.Intn(20); {
			case k < 9:
				l := mk()
				hist = append(hist, fmt.Sprintf("Put(link %d from %q to %q, upsert %v)", l.n, l.from, l.to, up))
				err = c.Put(ctx, l, opts...)
				put(l, up)
			case k < 13:
				var ls []cache.Link
				h := ""
				for j := rnd.Intn(5); j >= 0; j-- {
					l := mk()
					ls = append(ls, l)
					put(l, up)
					h += fmt.Sprintf(" link %d from %q to %q", l.n, l.from, l.to)
				}
				hist = append(hist, fmt.Sprintf("BulkPut(%s, upsert %v)", h, up))
				err = c.BulkPut(ctx, ls, opts...)
			case k < 16:
				w := words[rnd.Intn(len(words))]
				hist = append(hist, fmt.Sprintf("Delete(%q)", w))
				err = c.Delete(ctx, &vid{w})
				del(w)
			case k < 19:
				var us []uuid.UID
				for j := rnd.Intn(3); j >= 0; j-- {
					w := words[rnd.Intn(len(words))]
					us = append(us, &vid{w})
					del(w)
				}
				hist = append(hist, fmt.Sprintf("BulkDelete(%v)", us))
				err = c.BulkDelete(ctx, us)
			default:
				hist = append(hist, "Clear()")
				err = c.Clear(ctx)
				model = map[pair]cache.Link{}
			}
			if err != nil {
				failed("%v", err)
			}
			check()
		}
	}
}

// TestVerifC12 runs the operations side by side: a lost lock is a data race or a deadlock.
func TestVerifC12(t *testing.T) {
	ctx := context.Background()
	c, err := memory.NewLinks()
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan struct{})
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 300; i++ {
					a, b := &vid{strconv.Itoa(i % 5)}, &vid{strconv.Itoa((i + g) % 3)}
					_ = c.Put(ctx, &vlink{i, a, b}, cache.WithUpsert())
					_, _ = c.GetFrom(ctx, a)
					_, _ = c.GetTo(ctx, a)
					_ = c.BulkPut(ctx, []cache.Link{&vlink{i, b, a}})
					_, _ = c.BulkGetFrom(ctx, []uuid.UID{a, b})
					_, _ = c.BulkGetTo(ctx, []uuid.UID{a, b})
					_ = c.Delete(ctx, b)
					_ = c.BulkDelete(ctx, []uuid.UID{a, b})
					if i%10 == 0 {
						_ = c.Clear(ctx)
					}
				}
			}(g)
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		panic("FAILING INPUT: four goroutines running the operations of the cache are stuck")
	}
}
