package persistence

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"sync"
	"testing"
	"time"

	"vsa/internal/ratelimiter/core"
)

func quiet() func() {
	o := os.Stdout
	n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return func() {}
	}
	os.Stdout = n
	return func() { os.Stdout = o; n.Close() }
}

var pKeys = []string{"a", "b", "user:1", "user", "1:a", "", "x y", "ключ", "a:b:c", "%", "'; --", `"q"`, "\n"}

func (v *vf) key() string {
	if v.coin() {
		return pKeys[v.intn(2)]
	}
	return pKeys[v.intn(len(pKeys))]
}

// entries builds a batch; missing ids only when holes is set.
func (v *vf) entries(max int, holes bool) []CommitEntry {
	n := v.intn(max)
	var es []CommitEntry
	for i := 0; i < n; i++ {
		e := CommitEntry{Key: v.key(), Vector: v.num(0), CommitID: fmt.Sprintf("id-%d-%d", v.n, i)}
		switch v.intn(12) {
		case 0:
			if len(es) > 0 {
				e.CommitID = es[v.intn(len(es))].CommitID
			}
		case 1:
			e.CommitID = "id:" + pKeys[v.intn(len(pKeys))]
		}
		if holes && v.intn(2*n+2) == 0 {
			e.CommitID = ""
		}
		if v.intn(3) == 0 {
			t := v.num(0)
			e.FencingToken = &t
		}
		es = append(es, e)
	}
	for _, e := range es {
		v.did("{%q %d %q %s}", e.Key, e.Vector, e.CommitID, tokStr(e.FencingToken))
	}
	return es
}

func (v *vf) anErr() error {
	es := []error{errors.New("down"), context.DeadlineExceeded, context.Canceled, io.EOF, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, errors.New("connection reset by peer")}
	e := es[v.intn(len(es))]
	if v.intn(4) == 0 {
		e = fmt.Errorf("client: %w", e)
	}
	return e
}

func tokStr(p *int64) string {
	if p == nil {
		return "-"
	}
	return fmt.Sprint(*p)
}

func clone(es []CommitEntry) []CommitEntry {
	out := append([]CommitEntry(nil), es...)
	for i := range out {
		if p := out[i].FencingToken; p != nil {
			t := *p
			out[i].FencingToken = &t
		}
	}
	return out
}

// ---- P03

type kafkaMsg struct {
	topic, key string
	value      []byte
}
type fakeProducer struct {
	msgs   []kafkaMsg
	failAt int
	err    error
}

func (f *fakeProducer) Produce(ctx context.Context, topic string, key, value []byte, headers map[string]string) error {
	f.msgs = append(f.msgs, kafkaMsg{topic, string(key), append([]byte(nil), value...)})
	if len(f.msgs)-1 == f.failAt {
		return f.err
	}
	return nil
}

func TestVerif_P03_messages(t *testing.T) {
	v := verif(t, "P03", 1)
	for v.more() {
		es := v.entries(12, v.intn(3) == 0)
		in := clone(es)
		topic := []string{"t", "vsa-commits", "x.y"}[v.intn(3)]
		f := &fakeProducer{failAt: -1, err: v.anErr()}
		if v.intn(3) == 0 {
			f.failAt = v.intn(12)
		}
		v.did("topic %s fail at %d", topic, f.failAt)
		k := NewKafkaPersister(f, topic)
		ctx := context.Background()
		cancel := func() {}
		if v.coin() {
			ctx, cancel = context.WithTimeout(ctx, time.Minute)
		}
		var err error
		v.safe("CommitBatch", func() { err = k.CommitBatch(ctx, es) })
		cancel()
		// every message matches its entry, in order
		if len(f.msgs) > len(in) {
			v.fail("%d messages for %d commits", len(f.msgs), len(in))
		}
		missing := -1
		for i, e := range in {
			if e.CommitID == "" {
				missing = i
				break
			}
		}
		for i, m := range f.msgs {
			e := in[i]
			var got struct {
				Key      *string `json:"key"`
				VC       *int64  `json:"vc"`
				CommitID *string `json:"commit_id"`
				Tok      *int64  `json:"fencing_token"`
			}
			if er := json.Unmarshal(m.value, &got); er != nil {
				v.fail("message %d is not JSON: %s", i, m.value)
			}
			if m.topic != topic || m.key != e.CommitID || e.CommitID == "" {
				v.fail("message %d has topic %q key %q, want %q %q", i, m.topic, m.key, topic, e.CommitID)
			}
			if got.Key == nil || *got.Key != e.Key || got.VC == nil || *got.VC != e.Vector || got.CommitID == nil || *got.CommitID != e.CommitID || tokStr(got.Tok) != tokStr(e.FencingToken) {
				v.fail("message %d is %s, want %+v token %s", i, m.value, e, tokStr(e.FencingToken))
			}
		}
		failed := f.failAt >= 0 && len(f.msgs) > f.failAt
		switch {
		case failed && (err == nil || len(f.msgs) != f.failAt+1):
			v.fail("after a failure at %d: %d messages, error %v", f.failAt, len(f.msgs), err)
		case !failed && missing >= 0 && (err == nil || len(f.msgs) > missing):
			v.fail("a missing id at %d: %d messages, error %v", missing, len(f.msgs), err)
		case !failed && missing < 0 && (err != nil || len(f.msgs) != len(in)):
			v.fail("%d messages for %d commits, error %v", len(f.msgs), len(in), err)
		}
	}
	v.covered("batches of up to 11 commits, with repeated and missing ids, tokens and a failure at any position")
}

// ---- P04

type fakeBackend struct {
	mu  sync.Mutex
	got [][]CommitEntry
	err error
}

func (f *fakeBackend) CommitBatch(ctx context.Context, es []CommitEntry) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if ctx == nil || ctx.Err() != nil {
		return errors.New("bad context")
	}
	f.got = append(f.got, clone(es))
	return f.err
}

func TestVerif_P04_shim(t *testing.T) {
	v := verif(t, "P04", 0.7)
	seen := map[string]bool{}
	for v.more() {
		if len(seen) > 400000 {
			seen = map[string]bool{}
		}
		f := &fakeBackend{}
		s := NewIdemShim(f)
		for r := 0; r < 4; r++ {
			f.err = nil
			if v.intn(3) == 0 {
				f.err = v.anErr()
			}
			n := v.intn(10)
			if v.intn(20) == 0 {
				n = v.intn(300)
			}
			var cs []core.Commit
			for i := 0; i < n; i++ {
				cs = append(cs, core.Commit{Key: v.key(), Vector: v.num(0)})
			}
			if n < 20 {
				v.did("batch %v error %v", cs, f.err)
			} else {
				v.did("batch of %d error %v", n, f.err)
			}
			in := append([]core.Commit(nil), cs...)
			before := len(f.got)
			var err error
			v.safe("CommitBatch", func() { err = s.CommitBatch(cs) })
			if n == 0 {
				if err != nil || len(f.got) != before {
					v.fail("an empty batch: %d calls, error %v", len(f.got)-before, err)
				}
				continue
			}
			if len(f.got) != before+1 || err != f.err {
				v.fail("%d calls, error %v want %v", len(f.got)-before, err, f.err)
			}
			es := f.got[before]
			if len(es) != len(in) {
				v.fail("%d entries for %d commits", len(es), len(in))
			}
			for i, e := range es {
				if e.Key != in[i].Key || e.Vector != in[i].Vector {
					v.fail("entry %d is %+v, want %+v", i, e, in[i])
				}
				if e.CommitID == "" || seen[e.CommitID] {
					v.fail("entry %d has the id %q, empty or used before", i, e.CommitID)
				}
				seen[e.CommitID] = true
			}
		}
	}
	v.covered("four batches through one shim, all ids compared")
}

func TestVerif_P04_concurrent(t *testing.T) {
	v := verif(t, "P04", 0.2)
	for v.more() {
		f := &fakeBackend{}
		s := NewIdemShim(f)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 20; i++ {
					_ = s.CommitBatch([]core.Commit{{Key: "k", Vector: 1}, {Key: "k", Vector: 1}, {Key: "l", Vector: 2}})
				}
			}()
		}
		wg.Wait()
		ids := map[string]bool{}
		for _, es := range f.got {
			for _, e := range es {
				if ids[e.CommitID] {
					v.fail("two concurrent commits share the id %q", e.CommitID)
				}
				ids[e.CommitID] = true
			}
		}
		if len(ids) != 8*20*3 {
			v.fail("%d ids for %d commits", len(ids), 8*20*3)
		}
	}
	v.covered("eight goroutines through one shim")
}

func TestVerif_P04_factory(t *testing.T) {
	v := verif(t, "P04", 0.1)
	defer quiet()()
	for v.more() {
		sel := []string{"", "mock", "redis", "kafka", "postgres", "Redis", "kafka ", "mysql", "mock2", "red"}[v.intn(10)]
		o := DemoOptions{RedisMarkerTTL: time.Duration(v.num(0)), KafkaTopic: []string{"", "t", "vsa-commits", "x"}[v.intn(4)]}
		if v.coin() {
			o.RedisAddr = "127.0.0.1:1"
		}
		v.did("selector %q options %+v", sel, o)
		var p core.Persister
		var err error
		v.safe("BuildPersister", func() { p, err = BuildPersister(sel, o) })
		switch sel {
		case "", "mock":
			if _, shim := p.(*IdemShim); err != nil || p == nil || shim || fmt.Sprintf("%T", p) != fmt.Sprintf("%T", core.NewMockPersister()) {
				v.fail("got %T, %v", p, err)
			}
		case "redis":
			s, ok := p.(*IdemShim)
			if !ok || err != nil {
				v.fail("got %T, %v", p, err)
			}
			r, ok := s.impl.(*RedisPersister)
			if !ok {
				v.fail("backend %T", s.impl)
			}
			ttl := o.RedisMarkerTTL
			if ttl <= 0 {
				ttl = 24 * time.Hour
			}
			if r.markerTTL != ttl {
				v.fail("marker lifetime %v, want %v", r.markerTTL, ttl)
			}
			_, log := r.client.(LoggingRedisEvaler)
			g, real := r.client.(*GoRedisEvaler)
			if o.RedisAddr == "" && !log || o.RedisAddr != "" && (!real || g.c.Options().Addr != o.RedisAddr) {
				v.fail("client %T", r.client)
			}
			if real {
				g.c.Close()
			}
		case "kafka":
			s, ok := p.(*IdemShim)
			if !ok || err != nil {
				v.fail("got %T, %v", p, err)
			}
			k, ok := s.impl.(*KafkaPersister)
			if !ok {
				v.fail("backend %T", s.impl)
			}
			want := o.KafkaTopic
			if want == "" {
				want = "vsa-commits"
			}
			if _, log := k.producer.(LoggingKafkaProducer); k.topic != want || !log {
				v.fail("topic %q producer %T", k.topic, k.producer)
			}
		default:
			if err == nil || p != nil {
				v.fail("got %T, %v", p, err)
			}
		}
	}
	v.covered("selectors with any options")
}
