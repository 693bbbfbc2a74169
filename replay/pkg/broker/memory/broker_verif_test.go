package memory_test

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/memory"
)

func vseed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

const vlong = time.Hour

type vsub struct {
	n       int
	s       broker.Subscriber
	id      string
	topic   string
	session int
	active  bool
}

// vwithin fails the test unless f returns in good time.
func vwithin(t *testing.T, what string, f func()) {
	done := make(chan struct{})
	go func() {
		f()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatalf("FAILING INPUT: %s does not return", what)
	}
}

// vregistered lists the broker's registered subscription IDs; ok is false if they cannot be seen.
func vregistered(b *memory.Memory) (ids map[string]string, ok bool) {
	defer func() {
		if recover() != nil {
			ids, ok = nil, false
		}
	}()
	ids = map[string]string{}
	b.RLock()
	defer b.RUnlock()
	m := reflect.ValueOf(b).Elem().FieldByName("subs")
	for _, t := range m.MapKeys() {
		for _, i := range m.MapIndex(t).MapKeys() {
			ids[i.String()] = t.String()
		}
	}
	return ids, true
}

// vhistory runs a random history against a model of the broker.
func vhistory(t *testing.T, round int64) {
	rnd := rand.New(rand.NewSource(vseed()*1000003 + round))
	var hist []string
	failed := func(f string, a ...interface{}) {
		t.Helper()
		t.Fatalf("FAILING INPUT (round %d): %s\nhistory:\n  %s", round, fmt.Sprintf(f, a...), strings.Join(hist, "\n  "))
	}
	topics := []string{"", "a", "b"}
	capacity := rnd.Intn(4) + 1
	b, err := memory.New(broker.WithCap(capacity))
	if err != nil {
		failed("New: %v", err)
	}
	hist = append(hist, fmt.Sprintf("New(WithCap(%d))", capacity))
	connected, session := false, 0
	var cancels []context.CancelFunc
	var dead []bool
	queues := map[string][]string{}
	var subs []*vsub
	nmsg := 0
	bg := context.Background()
	end := func() {
		connected = false
		queues = map[string][]string{}
	}
	settle := func(s *vsub) {
		// the broker removes a subscription in the background
		for i := 0; ; i++ {
			ids, ok := vregistered(b)
			if !ok {
				return
			}
			if _, still := ids[s.id]; !still {
				for _, o := range subs {
					if o.session == session && connected && o.active && ids[o.id] != o.topic {
						failed("unsubscribing %d removed subscription %d from the broker", s.n, o.n)
					}
				}
				return
			}
			if i == 2000 {
				failed("subscription %d stays registered after Unsubscribe", s.n)
			}
			time.Sleep(time.Millisecond)
		}
	}
	defer func() {
		for _, c := range cancels {
			c()
		}
	}()
	n := 3 + rnd.Intn(14)
	for i := 0; i < n; i++ {
		topic := topics[rnd.Intn(len(topics))]
		switch k := rnd.Intn(24); {
		case k < 3 || i == 0 && k < 12:
			ctx, cancel := context.WithCancel(bg)
			hist = append(hist, fmt.Sprintf("Open() while connected=%v", connected))
			if err := b.Open(ctx); err != nil {
				failed("Open: %v", err)
			}
			if connected {
				cancel() // no effect: the open was a no-op
				hist = append(hist, "cancel that Open's context")
				break
			}
			connected = true
			session++
			cancels = append(cancels, cancel)
			dead = append(dead, false)
		case k < 5:
			hist = append(hist, fmt.Sprintf("Close() while connected=%v", connected))
			if err := b.Close(); err != nil {
				failed("Close: %v", err)
			}
			end()
		case k < 7:
			if len(cancels) == 0 {
				break
			}
			j := rnd.Intn(len(cancels))
			if dead[j] {
				break
			}
			dead[j] = true
			hist = append(hist, fmt.Sprintf("cancel the context of session %d (now %d, connected=%v)", j+1, session, connected))
			cancels[j]()
			if j+1 == session && connected {
				end()
				for i := 0; ; i++ {
					// subscribing leaves no message behind
					if _, err := b.Sub(bg, "probe"); errors.Is(err, broker.ErrNotConnected) {
						break
					}
					if i == 2000 {
						failed("the session stays open after its context was cancelled")
					}
					time.Sleep(time.Millisecond)
				}
			} else {
				time.Sleep(3 * time.Millisecond)
			}
		case k < 14:
			nmsg++
			m := broker.Message{UID: fmt.Sprintf("m%d", nmsg), Type: broker.Type(rnd.Intn(3)), Data: []byte(fmt.Sprint(nmsg)), Attrs: map[string]string{"n": fmt.Sprint(nmsg)}}
			full := len(queues[topic]) >= capacity
			to := vlong
			if full {
				to = time.Millisecond
			}
			hist = append(hist, fmt.Sprintf("Pub(%q, %s) connected=%v full=%v", topic, m.UID, connected, full))
			var err error
			vwithin(t, "history "+strings.Join(hist, "; "), func() { err = b.Pub(bg, topic, m, broker.WithPubTimeout(to)) })
			switch {
			case !connected:
				if !errors.Is(err, broker.ErrNotConnected) {
					failed("Pub: %v, want the not-connected error", err)
				}
			case full:
				if !errors.Is(err, broker.ErrTimeout) {
					failed("Pub on a full queue: %v, want the timeout error", err)
				}
			default:
				if err != nil {
					failed("Pub: %v", err)
				}
				queues[topic] = append(queues[topic], m.UID)
			}
		case k < 17:
			hist = append(hist, fmt.Sprintf("subscription %d = Sub(%q) connected=%v", len(subs), topic, connected))
			s, err := b.Sub(bg, topic)
			if !connected {
				if !errors.Is(err, broker.ErrNotConnected) {
					failed("Sub: %v, want the not-connected error", err)
				}
				break
			}
			if err != nil {
				failed("Sub: %v", err)
			}
			id, err := s.ID(bg)
			if err != nil || id == "" {
				failed("ID: %q %v", id, err)
			}
			for _, o := range subs {
				if o.id == id {
					failed("subscription ID %q is not fresh", id)
				}
			}
			if tp, err := s.Topic(bg); err != nil || tp != topic {
				failed("Topic: %q, %v, want %q", tp, err, topic)
			}
			subs = append(subs, &vsub{len(subs), s, id, topic, session, true})
			if ids, ok := vregistered(b); ok && ids[id] != topic {
				failed("the new subscription is not registered")
			}
		case k < 19:
			if len(subs) == 0 {
				break
			}
			s := subs[rnd.Intn(len(subs))]
			hist = append(hist, fmt.Sprintf("Unsubscribe %d (active=%v)", s.n, s.active))
			if err := s.s.Unsubscribe(bg); err != nil {
				failed("Unsubscribe: %v", err)
			}
			s.active = false
			if s.session == session && connected {
				settle(s)
			}
		default:
			if len(subs) == 0 {
				break
			}
			s := subs[rnd.Intn(len(subs))]
			live := s.session == session && connected
			q := queues[s.topic]
			to := vlong
			if live && len(q) == 0 {
				to = time.Millisecond
			}
			hist = append(hist, fmt.Sprintf("Receive on %d (active=%v, live=%v, queue %v)", s.n, s.active, live, q))
			var got []broker.Message
			herr := errors.New("handler")
			if rnd.Intn(2) == 0 {
				herr = nil
			}
			var err error
			vwithin(t, "history "+strings.Join(hist, "; "), func() {
				err = s.s.Receive(bg, func(_ context.Context, m broker.Message) error {
					got = append(got, m)
					return herr
				}, broker.WithSubTimeout(to))
			})
			switch {
			case !s.active:
				if !errors.Is(err, broker.ErrSubscriptionInactive) || len(got) != 0 {
					failed("Receive after Unsubscribe: %v, %v", err, got)
				}
			case !live:
				// a session's own subscriptions may still see what it left behind
				if len(got) > 1 || len(got) == 0 && err != nil {
					failed("Receive after the end of the session: %v, %v", err, got)
				}
			case len(q) == 0:
				if !errors.Is(err, broker.ErrTimeout) || len(got) != 0 {
					failed("Receive on an empty queue: %v, %v, want the timeout error", err, got)
				}
			default:
				if len(got) != 1 || got[0].UID != q[0] || string(got[0].Data) != q[0][1:] || got[0].Attrs["n"] != q[0][1:] || len(got[0].Attrs) != 1 || err != herr {
					failed("Receive: %+v, %v, want %s and %v", got, err, q[0], herr)
				}
				queues[s.topic] = q[1:]
			}
		}
	}
	if !connected {
		hist = append(hist, "Open()")
		ctx, cancel := context.WithCancel(bg)
		cancels = append(cancels, cancel)
		if err := b.Open(ctx); err != nil {
			failed("Open: %v", err)
		}
		session++
	}
	// what is left is exactly what the model says
	for _, topic := range topics {
		s, err := b.Sub(bg, topic)
		if err != nil {
			failed("Sub: %v", err)
		}
		for i := 0; i <= len(queues[topic]); i++ {
			var got []string
			_ = s.Receive(bg, func(_ context.Context, m broker.Message) error {
				got = append(got, m.UID)
				return nil
			}, broker.WithSubTimeout(2*time.Millisecond))
			if i < len(queues[topic]) {
				if len(got) != 1 || got[0] != queues[topic][i] {
					failed("topic %q holds %v, want %v next", topic, got, queues[topic][i:])
				}
			} else if len(got) != 0 {
				failed("topic %q holds %v, want nothing", topic, got)
			}
		}
	}
	_ = b.Close()
	if ids, ok := vregistered(b); ok && len(ids) != 0 {
		failed("subscriptions stay registered after Close: %v", ids)
	}
}

func vhistories(t *testing.T) {
	for round := int64(0); round < 400; round++ {
		vhistory(t, round)
	}
}

func TestVerifC13(t *testing.T) {
	vhistories(t)
	bg := context.Background()
	// waiting publishers and receivers are released by Close and by the context's end
	for _, how := range []string{"Close", "cancel"} {
		b, _ := memory.New(broker.WithCap(1), broker.WithPubTimeout(vlong))
		ctx, cancel := context.WithCancel(bg)
		_ = b.Open(ctx)
		_ = b.Pub(bg, "full", broker.Message{UID: "1"})
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			for _, topic := range []string{"x", "y"} {
				s, err := b.Sub(bg, topic)
				if err != nil {
					t.Fatalf("FAILING INPUT: Sub: %v", err)
				}
				wg.Add(2)
				go func() {
					defer wg.Done()
					_ = s.Receive(bg, func(context.Context, broker.Message) error { return nil }, broker.WithSubTimeout(vlong))
				}()
				go func() {
					defer wg.Done()
					_ = b.Pub(bg, "full", broker.Message{UID: "2"})
				}()
			}
		}
		time.Sleep(20 * time.Millisecond)
		if how == "Close" {
			_ = b.Close()
		} else {
			cancel()
		}
		vwithin(t, "a publisher or receiver waiting at the end of the session ("+how+")", wg.Wait)
		cancel()
	}
	// closing and opening side by side
	for round := 0; round < 200; round++ {
		b, _ := memory.New(broker.WithCap(1))
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 5; i++ {
					ctx, cancel := context.WithCancel(bg)
					_ = b.Open(ctx)
					if g%2 == 0 {
						cancel()
					}
					_ = b.Close()
					cancel()
				}
			}(g)
		}
		vwithin(t, "opening and closing side by side", wg.Wait)
	}
}

func TestVerifC14(t *testing.T) {
	vhistories(t)
	bg := context.Background()
	nop := func(context.Context, broker.Message) error { return nil }
	type tc struct {
		brk, opt time.Duration
		want     time.Duration
	}
	for _, c := range []tc{{60 * time.Millisecond, 0, 60 * time.Millisecond}, {vlong, 5 * time.Millisecond, 5 * time.Millisecond}, {time.Millisecond, 60 * time.Millisecond, 60 * time.Millisecond}, {0, 0, memory.DefaultTimeout}} {
		b, _ := memory.New(broker.WithCap(1), broker.WithPubTimeout(c.brk))
		_ = b.Open(bg)
		_ = b.Pub(bg, "t", broker.Message{UID: "1"})
		var opts []broker.Option
		if c.opt != 0 {
			opts = append(opts, broker.WithPubTimeout(c.opt))
		}
		var err error
		t0 := time.Now()
		vwithin(t, fmt.Sprintf("Pub on a full queue (broker timeout %v, option %v)", c.brk, c.opt), func() { err = b.Pub(bg, "t", broker.Message{UID: "2"}, opts...) })
		if d := time.Since(t0); !errors.Is(err, broker.ErrTimeout) || d < c.want {
			t.Fatalf("FAILING INPUT: Pub on a full queue (broker timeout %v, option %v): %v after %v, want the timeout error after %v", c.brk, c.opt, err, d, c.want)
		}
		s, err := b.Sub(bg, "empty")
		if err != nil {
			t.Fatalf("FAILING INPUT: Sub: %v", err)
		}
		want := c.opt
		opts = nil
		if want == 0 {
			want = memory.DefaultTimeout
			if c.brk != 0 {
				continue
			}
		} else {
			opts = append(opts, broker.WithSubTimeout(want))
		}
		t0 = time.Now()
		vwithin(t, fmt.Sprintf("Receive on an empty queue (option %v)", c.opt), func() { err = s.Receive(bg, nop, opts...) })
		if d := time.Since(t0); !errors.Is(err, broker.ErrTimeout) || d < want {
			t.Fatalf("FAILING INPUT: Receive on an empty queue (option %v): %v after %v, want the timeout error after %v", c.opt, err, d, want)
		}
		_ = b.Close()
	}
	for _, c := range []int{-1, -7, 0, 1, 3} {
		for _, first := range []string{"pub", "sub"} {
			b, _ := memory.New(broker.WithCap(c))
			_ = b.Open(bg)
			if first == "sub" {
				if _, err := b.Sub(bg, "t"); err != nil {
					t.Fatalf("FAILING INPUT: Sub: %v", err)
				}
			}
			want := c
			if c < 0 {
				want = memory.DefaultSize
			}
			n := 0
			for n <= want+2 {
				to := 2 * time.Second
				if n >= want {
					to = 2 * time.Millisecond
				}
				if b.Pub(bg, "t", broker.Message{UID: strconv.Itoa(n)}, broker.WithPubTimeout(to)) != nil {
					break
				}
				n++
			}
			if n != want {
				t.Fatalf("FAILING INPUT: with capacity %d a topic made by %s holds %d messages, want %d", c, first, n, want)
			}
			_ = b.Close()
		}
	}
	// many publishers and receivers of one topic: every message handled exactly once
	b, _ := memory.New(broker.WithCap(2))
	_ = b.Open(bg)
	var mu sync.Mutex
	seen := map[string]int{}
	var wg sync.WaitGroup
	const G, N = 4, 100
	for g := 0; g < G; g++ {
		wg.Add(2)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < N; i++ {
				if err := b.Pub(bg, "t", broker.Message{UID: fmt.Sprintf("%d/%d", g, i)}, broker.WithPubTimeout(10*time.Second)); err != nil {
					panic(fmt.Sprintf("FAILING INPUT: Pub with waiting receivers: %v", err))
				}
			}
		}(g)
		go func() {
			defer wg.Done()
			s, err := b.Sub(bg, "t")
			if err != nil {
				panic(fmt.Sprintf("FAILING INPUT: Sub: %v", err))
			}
			for i := 0; i < N; i++ {
				_ = s.Receive(bg, func(_ context.Context, m broker.Message) error {
					mu.Lock()
					seen[m.UID]++
					mu.Unlock()
					return nil
				}, broker.WithSubTimeout(10*time.Second))
			}
		}()
	}
	vwithin(t, "publishers and receivers of one topic", wg.Wait)
	if len(seen) != G*N {
		t.Fatalf("FAILING INPUT: %d publishers and receivers of one topic: %d of %d messages handled", G, len(seen), G*N)
	}
	_ = b.Close()
}

func TestVerifC15(t *testing.T) {
	vhistories(t)
	bg := context.Background()
	for round := 0; round < 300; round++ {
		b, _ := memory.New(broker.WithCap(1))
		_ = b.Open(bg)
		s, err := b.Sub(bg, "t")
		if err != nil {
			t.Fatalf("FAILING INPUT: Sub: %v", err)
		}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			_ = s.Receive(bg, func(context.Context, broker.Message) error { return nil }, broker.WithSubTimeout(vlong))
		}()
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := s.Unsubscribe(bg); err != nil {
					panic(fmt.Sprintf("FAILING INPUT: Unsubscribe side by side: %v", err))
				}
			}()
		}
		vwithin(t, "Unsubscribe side by side with a waiting Receive", wg.Wait)
		if err := s.Receive(bg, func(context.Context, broker.Message) error { return nil }); !errors.Is(err, broker.ErrSubscriptionInactive) {
			t.Fatalf("FAILING INPUT: Receive after Unsubscribe: %v", err)
		}
		_ = b.Close()
	}
}

// TestVerifC12 runs the operations side by side: a lost lock is a data race or a deadlock.
func TestVerifC12(t *testing.T) {
	bg := context.Background()
	b, _ := memory.New(broker.WithCap(2), broker.WithPubTimeout(time.Millisecond))
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 150; i++ {
				ctx, cancel := context.WithCancel(bg)
				_ = b.Open(ctx)
				topic := strconv.Itoa(i % 3)
				s, err := b.Sub(ctx, topic)
				_ = b.Pub(bg, topic, broker.Message{})
				if err == nil {
					var w sync.WaitGroup
					w.Add(2)
					go func() {
						defer w.Done()
						_ = s.Receive(bg, func(context.Context, broker.Message) error { return nil }, broker.WithSubTimeout(time.Millisecond))
					}()
					go func() {
						defer w.Done()
						_ = s.Unsubscribe(bg)
					}()
					_ = s.Unsubscribe(bg)
					w.Wait()
				}
				if (i+g)%3 == 0 {
					cancel()
				}
				if (i+g)%4 == 0 {
					_ = b.Close()
				}
				cancel()
			}
		}(g)
	}
	vwithin(t, "six goroutines using one broker", wg.Wait)
	// nothing waits on a channel while holding the lock
	b, _ = memory.New(broker.WithCap(0), broker.WithPubTimeout(vlong))
	_ = b.Open(bg)
	s, err := b.Sub(bg, "t")
	if err != nil {
		t.Fatal(err)
	}
	go func() { _ = b.Pub(bg, "u", broker.Message{}) }()
	go func() {
		_ = s.Receive(bg, func(context.Context, broker.Message) error { return nil }, broker.WithSubTimeout(vlong))
	}()
	time.Sleep(20 * time.Millisecond)
	vwithin(t, "Sub beside a waiting Pub and Receive", func() { _, _ = b.Sub(bg, "v") })
	vwithin(t, "Unsubscribe beside a waiting Receive", func() { _ = s.Unsubscribe(bg) })
	vwithin(t, "Close beside a waiting Pub", func() { _ = b.Close() })
}
