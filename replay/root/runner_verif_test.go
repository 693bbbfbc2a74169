package netscrape_test

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/milosgajdos/netscrape"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/store"
)

type vstore struct {
	store.Store
	n int
}
type vbroker struct {
	broker.Broker
	n int
}
type vmarsh struct {
	broker.Marshaler
	n int
}

type vscraper struct {
	calls int
	ctx   context.Context
	p     plan.Plan
	o     netscrape.Options
	err   error
}

func (s *vscraper) Scrape(ctx context.Context, p plan.Plan, opts ...netscrape.Option) error {
	s.calls++
	s.ctx, s.p = ctx, p
	s.o = netscrape.Options{}
	for _, f := range opts {
		f(&s.o)
	}
	return s.err
}

type vkey struct{}

func TestVerifC17(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	for round := int64(0); round < 5000; round++ {
		rnd := rand.New(rand.NewSource(seed*1000003 + round))
		var hist []string
		n := 0
		want := netscrape.Options{}
		gen := func(o *netscrape.Options) (l []netscrape.Option) {
			for i, k := 0, rnd.Intn(5); i < k; i++ {
				n++
				switch rnd.Intn(3) {
				case 0:
					o.Store = &vstore{n: n}
					if rnd.Intn(8) == 0 {
						o.Store = nil
					}
					l = append(l, netscrape.WithStore(o.Store))
					hist = append(hist, fmt.Sprintf("WithStore(%v)", o.Store))
				case 1:
					o.Broker = &vbroker{n: n}
					if rnd.Intn(8) == 0 {
						o.Broker = nil
					}
					l = append(l, netscrape.WithBroker(o.Broker))
					hist = append(hist, fmt.Sprintf("WithBroker(%v)", o.Broker))
				default:
					o.Marshaler = &vmarsh{n: n}
					if rnd.Intn(8) == 0 {
						o.Marshaler = nil
					}
					l = append(l, netscrape.WithMarshaler(o.Marshaler))
					hist = append(hist, fmt.Sprintf("WithMarshaler(%v)", o.Marshaler))
				}
			}
			return
		}
		hist = append(hist, "NewRunner:")
		r, err := netscrape.NewRunner(gen(&want)...)
		if err != nil {
			t.Fatalf("FAILING INPUT (round %d): NewRunner: %v", round, err)
		}
		for run := 0; run < 1+rnd.Intn(3); run++ {
			hist = append(hist, "Run:")
			w := want
			opts := gen(&w)
			ctx := context.WithValue(context.Background(), vkey{}, run)
			p, _ := simple.NewSimple()
			s := &vscraper{}
			if rnd.Intn(2) == 0 {
				s.err = errors.New("scrape")
			}
			err := r.Run(ctx, p, s, opts...)
			if s.calls != 1 || s.ctx != ctx || s.p != plan.Plan(p) || err != s.err || s.o != w {
				t.Fatalf("FAILING INPUT (round %d): the scraper was called %d times with options %+v, want %+v (error %v, want %v)\nhistory: %s", round, s.calls, s.o, w, err, s.err, strings.Join(hist, " "))
			}
		}
	}
}
