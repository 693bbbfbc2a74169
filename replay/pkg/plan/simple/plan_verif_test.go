package simple_test

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

type vid struct{ s string }

func (v *vid) String() string { return v.s }

type vres struct {
	uid     *vid
	g, v, k string
}

func (r *vres) UID() uuid.UID   { return r.uid }
func (r *vres) Group() string   { return r.g }
func (r *vres) Version() string { return r.v }
func (r *vres) Kind() string    { return r.k }

func vseed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

// TestVerifC05 runs random histories of the plan against a map.
func TestVerifC05(t *testing.T) {
	words := []string{"", "a", "b", "ab", "A", "a/b", "v1", "x y"}
	for round := int64(0); round < 4000; round++ {
		rnd := rand.New(rand.NewSource(vseed()*1000003 + round))
		var hist []string
		ctx := context.Background()
		p, err := simple.NewSimple()
		if err != nil {
			t.Fatalf("NewSimple: %v", err)
		}
		model := map[string]plan.Resource{}
		failed := func(f string, a ...interface{}) {
			t.Fatalf("FAILING INPUT (round %d): %s\nhistory:\n  %s", round, fmt.Sprintf(f, a...), strings.Join(hist, "\n  "))
		}
		check := func() {
			for _, w := range words {
				r, err := p.Get(ctx, &vid{w})
				m, ok := model[w]
				if ok && (err != nil || r != m) {
					failed("Get(%q) = %v, %v; want the last resource added", w, r, err)
				}
				if !ok && (!errors.Is(err, plan.ErrResourceNotFound) || r != nil) {
					failed("Get(%q) = %v, %v; want not found", w, r, err)
				}
			}
			all, err := p.GetAll(ctx)
			if err != nil {
				failed("GetAll: %v", err)
			}
			seen := map[string]bool{}
			for _, r := range all {
				if r == nil || seen[r.UID().String()] || model[r.UID().String()] != r {
					failed("GetAll lists %v wrongly", r)
				}
				seen[r.UID().String()] = true
			}
			if len(all) != len(model) {
				failed("GetAll lists %d of %d resources", len(all), len(model))
			}
		}
		n := 1 + rnd.Intn(12)
		for i := 0; i < n; i++ {
			w := words[rnd.Intn(len(words))]
			if rnd.Intn(3) > 0 {
				r := &vres{&vid{w}, words[rnd.Intn(len(words))], words[rnd.Intn(len(words))], words[rnd.Intn(len(words))]}
				hist = append(hist, fmt.Sprintf("Add(uid %q group %q version %q kind %q)", w, r.g, r.v, r.k))
				if err := p.Add(ctx, r); err != nil {
					failed("Add: %v", err)
				}
				model[w] = r
			} else {
				hist = append(hist, fmt.Sprintf("Delete(uid %q)", w))
				if err := p.Delete(ctx, &vid{w}); err != nil {
					failed("Delete: %v", err)
				}
				delete(model, w)
			}
			check()
		}
	}
}

// TestVerifC12 runs the operations side by side: a lost lock is a data race or a deadlock.
func TestVerifC12(t *testing.T) {
	ctx := context.Background()
	p, err := simple.NewSimple()
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan struct{})
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 300; i++ {
					id := &vid{strconv.Itoa(i % 5)}
					_ = p.Add(ctx, &vres{uid: id})
					_, _ = p.Get(ctx, id)
					_, _ = p.GetAll(ctx)
					_ = p.Delete(ctx, id)
				}
			}(g)
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		panic("FAILING INPUT: four goroutines running Add, Get, GetAll and Delete are stuck")
	}
}
