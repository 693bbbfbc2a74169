package simple_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"
	"github.com/milosgajdos/netscrape/pkg/broker/digester/simple"
)

// vsubscr delivers n messages and then fails, or cancels the context.
type vsubscr struct {
	broker.Subscriber
	left   int
	calls  int
	ctx    context.Context
	cancel func()
	end    error
	ended  bool
}

func (s *vsubscr) Receive(ctx context.Context, h broker.Handler, opts ...broker.Option) error {
	s.calls++
	s.ctx = ctx
	if s.calls > 10000 {
		panic("FAILING INPUT: Digest does not stop once its context is cancelled")
	}
	if s.ended {
		panic("FAILING INPUT: Digest receives again after a receive failed")
	}
	if s.left == 0 {
		if s.cancel != nil {
			s.cancel()
			return nil
		}
		s.ended = true
		return s.end
	}
	s.left--
	return h(ctx, broker.Message{Data: []byte(fmt.Sprintf("<%d>", s.left))})
}

var verrs = []error{errors.New("verif"), broker.ErrTimeout, broker.ErrNotConnected, broker.ErrSubscriptionInactive, broker.ErrNotImplemented, io.EOF, context.DeadlineExceeded, context.Canceled}

func TestVerifC16(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	work := os.Getenv("VERIF_SCRATCH")
	if work == "" {
		work = t.TempDir()
	}
	stdout := os.Stdout
	defer func() { os.Stdout = stdout }()
	for round := int64(0); round < 2000; round++ {
		rnd := rand.New(rand.NewSource(seed*1000003 + round))
		var hist []string
		failed := func(f string, a ...interface{}) {
			os.Stdout = stdout
			t.Fatalf("FAILING INPUT (round %d): %s\nhistory: %s", round, fmt.Sprintf(f, a...), strings.Join(hist, " "))
		}
		type rec struct {
			n   int
			out []string
		}
		n := 0
		failAt := -1
		herr := verrs[rnd.Intn(len(verrs))]
		gen := func(r *rec) (*rec, []digester.Option) {
			var l []digester.Option
			for i, k := 0, rnd.Intn(3); i < k; i++ {
				n++
				r2 := &rec{n: n}
				r = r2
				hist = append(hist, fmt.Sprintf("WithHandler(%d)", n))
				l = append(l, digester.WithHandler(func(_ context.Context, m broker.Message) error {
					r2.out = append(r2.out, string(m.Data))
					if len(r2.out)-1 == failAt {
						return herr
					}
					return nil
				}))
			}
			return r, l
		}
		hist = append(hist, "NewDigester:")
		def, opts := gen(nil)
		d, err := simple.NewDigester(opts...)
		if err != nil {
			failed("NewDigester: %v", err)
		}
		for i := 0; i < 1+rnd.Intn(3); i++ {
			failAt = -1
			hist = append(hist, "Digest:")
			r, opts := gen(def)
			k := rnd.Intn(4)
			ctx, cancel := context.WithCancel(context.Background())
			s := &vsubscr{left: k, end: verrs[rnd.Intn(len(verrs))]}
			want := s.end
			if rnd.Intn(3) == 0 {
				s.cancel = cancel
				want = context.Canceled
			}
			if r != nil {
				r.out = nil
				if k > 0 && rnd.Intn(4) == 0 {
					failAt = rnd.Intn(k)
					want = herr
				}
			}
			hist = append(hist, fmt.Sprintf("%d messages, handler fails at %d, cancelled after them: %v", k, failAt, s.cancel != nil))
			f, err := ioutil.TempFile(work, "stdout")
			if err != nil {
				t.Fatal(err)
			}
			os.Stdout = f
			done := make(chan error, 1)
			go func() { done <- d.Digest(ctx, s, opts...) }()
			var got error
			select {
			case got = <-done:
			case <-time.After(20 * time.Second):
				failed("Digest does not return")
			}
			os.Stdout = stdout
			out, _ := ioutil.ReadFile(f.Name())
			f.Close()
			os.Remove(f.Name())
			cancel()
			var exp []string
			for j := k - 1; j >= 0; j-- {
				if failAt >= 0 && len(exp) > failAt {
					break
				}
				exp = append(exp, fmt.Sprintf("<%d>", j))
			}
			if !errors.Is(got, want) {
				failed("Digest returns %v, want %v", got, want)
			}
			if r == nil && string(out) != strings.Join(exp, "") {
				failed("standard output has %q, want %q", out, exp)
			}
			if r != nil && (strings.Join(r.out, "") != strings.Join(exp, "") || len(out) != 0) {
				failed("handler %d got %v (standard output %q), want %v", r.n, r.out, out, exp)
			}
		}
	}
}
