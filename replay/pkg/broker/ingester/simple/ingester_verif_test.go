package simple_test

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester/simple"
)

type vmarsh struct {
	n    int
	err  error
	seen []interface{}
}

func (m *vmarsh) Marshal(x interface{}) ([]byte, error) {
	m.seen = append(m.seen, x)
	if m.err != nil {
		return []byte("partial"), m.err
	}
	return []byte(fmt.Sprintf("%d:%v", m.n, x)), nil
}

type vbroker struct {
	broker.Broker
	ctx    context.Context
	topics []string
	msgs   []broker.Message
	err    error
}

func (b *vbroker) Pub(ctx context.Context, topic string, m broker.Message, opts ...broker.Option) error {
	b.ctx = ctx
	b.topics = append(b.topics, topic)
	b.msgs = append(b.msgs, m)
	return b.err
}

type vkey struct{}

var verrs = []error{errors.New("verif"), broker.ErrTimeout, broker.ErrNotConnected, broker.ErrTopicNotExist, broker.ErrNotImplemented, io.EOF, context.Canceled, context.DeadlineExceeded}

func TestVerifC16(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	for round := int64(0); round < 5000; round++ {
		rnd := rand.New(rand.NewSource(seed*1000003 + round))
		var hist []string
		failed := func(f string, a ...interface{}) {
			t.Fatalf("FAILING INPUT (round %d): %s\nhistory: %s", round, fmt.Sprintf(f, a...), strings.Join(hist, " "))
		}
		n := 0
		gen := func(m *vmarsh) (*vmarsh, []ingester.Option) {
			var l []ingester.Option
			for i, k := 0, rnd.Intn(3); i < k; i++ {
				n++
				m = &vmarsh{n: n}
				if rnd.Intn(4) == 0 {
					m.err = verrs[rnd.Intn(len(verrs))]
				}
				hist = append(hist, fmt.Sprintf("WithMarshaler(%d, err %v)", n, m.err))
				l = append(l, ingester.WithMarshaler(m))
			}
			return m, l
		}
		hist = append(hist, "NewIngester:")
		def, opts := gen(nil)
		in, err := simple.NewIngester(opts...)
		if err != nil {
			failed("NewIngester: %v", err)
		}
		for i := 0; i < 1+rnd.Intn(3); i++ {
			data := []interface{}{1, "x", nil, map[string]int{"a": 1}, make(chan int), []byte{1, 2}}[rnd.Intn(6)]
			typ := broker.Type(rnd.Intn(4))
			topic := []string{"", "a", "b"}[rnd.Intn(3)]
			hist = append(hist, fmt.Sprintf("Ingest(%q, %v, %v):", topic, typ, data))
			m, opts := gen(def)
			b := &vbroker{}
			if rnd.Intn(3) == 0 {
				b.err = verrs[rnd.Intn(len(verrs))]
			}
			ctx := context.WithValue(context.Background(), vkey{}, i)
			err := in.Ingest(ctx, b, topic, typ, data, opts...)
			var want []byte
			var werr error
			if m == nil {
				want, werr = json.Marshal(data)
			} else if m.err != nil {
				werr = m.err
			} else {
				want = []byte(fmt.Sprintf("%d:%v", m.n, data))
			}
			if werr != nil {
				if err == nil || err.Error() != werr.Error() || len(b.msgs) != 0 {
					failed("marshaling fails: %v (want %v), published %v", err, werr, b.msgs)
				}
				continue
			}
			if len(b.msgs) != 1 {
				failed("published %d messages", len(b.msgs))
			}
			if err != b.err || b.topics[0] != topic || b.msgs[0].Type != typ || !bytes.Equal(b.msgs[0].Data, want) || b.msgs[0].UID != "" || len(b.msgs[0].Attrs) != 0 || b.ctx != ctx {
				failed("published %+v (data %s) on %q, error %v; want data %s, error %v", b.msgs[0], b.msgs[0].Data, b.topics[0], err, want, b.err)
			}
		}
	}
}
