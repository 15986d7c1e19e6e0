package tfd

import (
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"testing"
	"time"
	"unsafe"
)

type tCell [2]uint64

func (v *vf) tID() uint64 {
	switch v.intn(12) {
	case 0:
		return 0
	case 1:
		return v.rng.Uint64()
	case 2:
		return uint64(1) << 63
	default:
		return uint64(v.intn(6))
	}
}

// tPair is a cell; some share their packed id with others.
func (v *vf) tPair() (uint64, uint64) {
	k, b := v.tID(), v.tID()
	switch v.intn(4) {
	case 0: // same packed id as (0, x)
		b = (k*0x9e3779b97f4a7c15)>>1 ^ uint64(v.intn(3))
	case 1:
		b ^= uint64(1) << 63
	}
	return k, b
}

func (v *vf) tEnv(ch Channel) Envelope {
	k, b := v.tPair()
	d := v.num(1 << 40)
	s := uint64(v.intn(50))
	if v.intn(8) == 0 {
		s = v.rng.Uint64()
	}
	return Envelope{Channel: ch, Footprint: Footprint{KeyID: k, Time: TimeFootprint{BucketID: b}, Scope: ch}, Delta: d, SeqEnd: s}
}

// ---- T01

func tFnv(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func TestVerif_T01_Classify(t *testing.T) {
	v := verif(t, "T01", 0.2)
	keys := []string{"", "a", "b", "alice", "\x00", "a\x00b", "kéy", "a b"}
	for v.more() {
		op := Op{Key: keys[v.intn(len(keys))], Bucket: keys[v.intn(len(keys))], Amount: v.num(0), SeqEnd: v.rng.Uint64()}
		bits := v.intn(128)
		if v.coin() {
			bits = 96&^(1<<uint(v.intn(8))) | 1<<uint(v.intn(12))&31
		}
		op.IsBackdated, op.IsCrossKey, op.ChangesPolicy, op.NeedsExternalDecision, op.IsGlobal, op.IsSingleKey, op.IsConservativeDelta =
			bits&1 != 0, bits&2 != 0, bits&4 != 0, bits&8 != 0, bits&16 != 0, bits&32 != 0, bits&64 != 0
		v.did("Classify(%+v)", op)
		ch, fp, d, err := Classify(op)
		if (err != nil) != (op.Key == "") {
			v.fail("error %v", err)
		}
		if err != nil {
			if ch == ChannelScalar {
				v.fail("an operation without a key on the scalar lane")
			}
			continue
		}
		want := ChannelVector
		if bits&31 == 0 && bits&96 == 96 {
			want = ChannelScalar
		}
		if ch != want || fp.Scope != want {
			v.fail("lane %v scope %v, expected %v", ch, fp.Scope, want)
		}
		if fp.KeyID != HashKey(op.Key) || fp.Time.All != (op.Bucket == "") || (op.Bucket != "" && fp.Time.BucketID != HashKey(op.Bucket)) {
			v.fail("footprint %+v", fp)
		}
		if d != op.Amount {
			v.fail("amount %d", d)
		}
	}
	for _, k := range keys {
		if HashKey(k) != HashKey(string([]byte(k))) || HashKey(k) != tFnv(k) {
			v.fail("id of %q is %d", k, HashKey(k))
		}
	}
	v.covered("operations")
}

func TestVerif_T01_Disjoint(t *testing.T) {
	v := verif(t, "T01", 0.2)
	fp := func() Footprint {
		return Footprint{KeyID: uint64(v.intn(3)), Time: TimeFootprint{BucketID: uint64(v.intn(3)), All: v.intn(3) == 0}, Scope: Channel(v.intn(3) / 2)}
	}
	for v.more() {
		f, g := fp(), fp()
		v.did("%+v / %+v", f, g)
		share := f.KeyID == g.KeyID && (f.Time.All || g.Time.All || f.Time.BucketID == g.Time.BucketID)
		want := f.Scope == ChannelScalar && g.Scope == ChannelScalar && !share
		if got := f.Disjoint(g); got != want {
			v.fail("Disjoint = %v", got)
		}
		if f.Disjoint(g) != g.Disjoint(f) {
			v.fail("not symmetric")
		}
	}
	v.covered("pairs of footprints")
}

// ---- T02

// tShards reaches the shards of an accumulator, if it has a list of them.
func tShards(a *SAccumulator) []*SShard {
	f := reflect.ValueOf(a).Elem().FieldByName("shards")
	if !f.IsValid() || f.Type() != reflect.TypeOf([]*SShard(nil)) {
		return nil
	}
	return *(*[]*SShard)(unsafe.Pointer(f.UnsafeAddr()))
}

func TestVerif_T02_Accumulator(t *testing.T) {
	v := verif(t, "T02", 0.8)
	for v.more() {
		p, o, th := v.intn(5)-1, v.intn(5)-1, v.intn(40)-2
		tc := []time.Duration{time.Hour, 0, time.Nanosecond, -1}[v.intn(4)]
		v.did("NewSAccumulator(%d, %d, %d, %v)", p, o, th, tc)
		a := NewSAccumulator(p, o, th, tc)
		held := map[tCell]int64{}
		seq := map[tCell]uint64{}
		in := map[tCell]bool{}
		emit := func(bs []SBatch, only func(c tCell) bool) {
			seen := map[tCell]bool{}
			for _, b := range bs {
				c := tCell{b.KeyID, b.BucketID}
				if !in[c] {
					v.fail("emitted a cell that holds nothing: %+v", b)
				}
				if seen[c] {
					v.fail("emitted twice in one flush: %+v", b)
				}
				seen[c] = true
				if !only(c) {
					v.fail("emitted a cell of another key: %+v", b)
				}
				if b.NetDelta != held[c] || b.SeqEnd != seq[c] {
					v.fail("emitted %+v, held %d up to %d", b, held[c], seq[c])
				}
			}
			for c := range in {
				if only(c) && !seen[c] {
					v.fail("the flush does not emit %v, which holds %d", c, held[c])
				}
				if only(c) {
					delete(in, c)
					delete(held, c)
					delete(seq, c)
				}
			}
		}
		n := v.intn(60)
		if v.intn(10) == 0 {
			n = 1500
		}
		wide := v.coin()
		for i := 0; i < n; i++ {
			switch v.intn(12) {
			case 0:
				if n > 1000 && v.intn(20) > 0 {
					continue
				}
				v.did("FlushAll")
				emit(a.FlushAll(), func(tCell) bool { return true })
			case 1:
				ss := tShards(a)
				if len(ss) == 0 {
					continue
				}
				k := v.tID()
				v.did("FlushKey(%d) of every shard", k)
				var out []SBatch
				v.within(20*time.Second, "FlushKey", func() {
					for _, s := range ss {
						s.FlushKey(k, &out)
					}
				})
				emit(out, func(c tCell) bool { return c[0] == k })
			default:
				e := v.tEnv(ChannelScalar)
				if wide {
					e.Footprint.Time.BucketID += uint64(i)
				}
				if v.intn(10) == 0 {
					e.Channel = ChannelVector
				}
				v.did("Ingest(%d,%d,%d,%d ch %d)", e.Footprint.KeyID, e.Footprint.Time.BucketID, e.Delta, e.SeqEnd, e.Channel)
				if i%97 == 96 || n < 100 {
					v.within(20*time.Second, "Ingest", func() { a.Ingest(e) })
				} else {
					a.Ingest(e)
				}
				if e.Channel == ChannelScalar {
					c := tCell{e.Footprint.KeyID, e.Footprint.Time.BucketID}
					in[c] = true
					held[c] += e.Delta
					if e.SeqEnd > seq[c] {
						seq[c] = e.SeqEnd
					}
				}
			}
		}
		v.did("FlushAll")
		emit(a.FlushAll(), func(tCell) bool { return true })
		emit(a.FlushAll(), func(tCell) bool { return true })
	}
	v.covered("histories of ingests and flushes")
}

// ---- T03

func TestVerif_T03_Compress(t *testing.T) {
	v := verif(t, "T03", 0.8)
	for v.more() {
		n := []int{0, 1, 2, 3, 5, 8, 20, 63, 64, 65, 66, 120, 300}[v.intn(13)]
		wide := v.coin()
		var in []SBatch
		sum := map[tCell]int64{}
		top := map[tCell]uint64{}
		for i := 0; i < n; i++ {
			k, b := v.tPair()
			if wide {
				b += uint64(v.intn(n))
			}
			s := SBatch{KeyID: k, BucketID: b, NetDelta: v.num(1 << 40), SeqEnd: uint64(v.intn(30))}
			if v.intn(5) == 0 && len(in) > 0 { // cancels an earlier one
				p := in[v.intn(len(in))]
				s = SBatch{p.KeyID, p.BucketID, -sum[tCell{p.KeyID, p.BucketID}], uint64(v.intn(30))}
			}
			if v.intn(6) == 0 {
				s.SeqEnd = v.rng.Uint64()
			}
			in = append(in, s)
			c := tCell{s.KeyID, s.BucketID}
			sum[c] += s.NetDelta
			if s.SeqEnd > top[c] {
				top[c] = s.SeqEnd
			}
		}
		v.did("Compress(%+v)", in)
		var out []SBatch
		v.within(20*time.Second, "Compress", func() { out = SimpleVSA{}.Compress(append([]SBatch(nil), in...)) })
		seen := map[tCell]bool{}
		for _, b := range out {
			c := tCell{b.KeyID, b.BucketID}
			if seen[c] {
				v.fail("two batches of cell %v", c)
			}
			seen[c] = true
			if b.NetDelta != sum[c] || b.SeqEnd != top[c] || b.NetDelta == 0 {
				v.fail("cell %v is %+v, expected %d up to %d", c, b, sum[c], top[c])
			}
			if _, ok := sum[c]; !ok {
				v.fail("invented cell %v", c)
			}
		}
		for c, s := range sum {
			if s != 0 && !seen[c] {
				v.fail("dropped cell %v with %d", c, s)
			}
		}
	}
	v.covered("batch slices")
}

// ---- T04

type tSink struct {
	mu    sync.Mutex
	sum   map[tCell]int64
	empty int
	slow  time.Duration
}

func (s *tSink) OnSBatches(b []SBatch) {
	if s.slow > 0 {
		time.Sleep(s.slow)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(b) == 0 {
		s.empty++
	}
	for _, x := range b {
		s.sum[tCell{x.KeyID, x.BucketID}] += x.NetDelta
	}
}

func TestVerif_T04_Service(t *testing.T) {
	v := verif(t, "T04", 0.9)
	for v.more() {
		buf := []int{0, 1, 2, 8, 300}[v.intn(5)]
		fi := []time.Duration{time.Hour, time.Hour, time.Millisecond, 0, 50 * time.Microsecond}[v.intn(5)]
		var tr VSATransformer
		if v.coin() {
			tr = SimpleVSA{}
		}
		sink := &tSink{sum: map[tCell]int64{}}
		if v.intn(6) == 0 {
			sink.slow = 200 * time.Microsecond
		}
		v.did("service buffer %d interval %v compressing %v slow %v", buf, fi, tr != nil, sink.slow)
		svc := NewSService(NewSAccumulator(v.intn(4), v.intn(5), v.intn(20), time.Hour), tr, sink, SServiceOptions{Buffer: buf, FlushInterval: fi})
		started := v.intn(4) > 0
		if started {
			svc.Start()
			if v.coin() {
				svc.Start()
			}
		}
		var mu sync.Mutex
		sum := map[tCell]int64{}
		check := func(what string) {
			sink.mu.Lock()
			defer sink.mu.Unlock()
			for c, s := range sum {
				if sink.sum[c] != s {
					v.fail("after %s cell %v reached the sink with %d, accepted %d", what, c, sink.sum[c], s)
				}
			}
			for c, s := range sink.sum {
				if s != sum[c] {
					v.fail("after %s cell %v has %d at the sink, accepted %d", what, c, s, sum[c])
				}
			}
			if sink.empty > 0 {
				v.fail("the sink was called with an empty list")
			}
		}
		offer := func(e Envelope, try bool) {
			ok := true
			if try {
				ok = svc.TryIngest(e)
			} else {
				svc.Ingest(e)
			}
			if ok && e.Channel == ChannelScalar {
				mu.Lock()
				sum[tCell{e.Footprint.KeyID, e.Footprint.Time.BucketID}] += e.Delta
				mu.Unlock()
			}
		}
		for round := 0; round < 1+v.intn(3); round++ {
			var es []Envelope
			for i := 0; i < v.intn(80); i++ {
				es = append(es, v.tEnv(Channel(v.intn(5)/4)))
			}
			try := v.coin() || !started
			v.did("round of %d (try %v)", len(es), try)
			v.within(20*time.Second, "ingestion", func() {
				if v.n%3 == 0 && started {
					var wg sync.WaitGroup
					for g := 0; g < 4; g++ {
						g := g
						wg.Add(1)
						go func() {
							defer wg.Done()
							for i := g; i < len(es); i += 4 {
								offer(es[i], try && i%2 == 0)
							}
						}()
					}
					wg.Wait()
				} else {
					for _, e := range es {
						offer(e, try)
					}
				}
			})
			if !started && v.coin() {
				svc.Start()
				started = true
			}
			if started && v.coin() {
				v.did("Flush")
				v.within(20*time.Second, "Flush", func() {
					if v.n%4 == 0 {
						var wg sync.WaitGroup
						for g := 0; g < 3; g++ {
							wg.Add(1)
							go func() { defer wg.Done(); svc.Flush() }()
						}
						wg.Wait()
					} else {
						svc.Flush()
					}
				})
				check("Flush")
			}
		}
		if !started {
			svc.Start()
		}
		v.did("Stop")
		v.within(20*time.Second, "Stop", svc.Stop)
		check("Stop")
		if v.n%8 == 0 {
			time.Sleep(2 * time.Millisecond)
			check("the end")
		}
	}
	if !eventually(10*time.Second, func() bool { return runtime.NumGoroutine() < 30 }) {
		v.fail("workers still run after Stop")
	}
	v.covered("service histories")
}

// ---- T05

func tSame(a, b Envelope) bool {
	a.HashPrev, b.HashPrev = [16]byte{}, [16]byte{}
	return a == b
}

func TestVerif_T05_Lanes(t *testing.T) {
	v := verif(t, "T05", 0.5)
	links := map[tCell][16]byte{}
	for v.more() {
		r := NewVRouter()
		q := map[uint64][]Envelope{}
		n, many := v.intn(60), v.intn(12) == 0
		if many {
			n = 4000
		}
		for i := 0; i < n; i++ {
			k := v.tID()
			if many && i > 20 {
				k = 3
			}
			if v.intn(8) == 0 && (!many || i < 20 || i == n-1) {
				v.did("drain %d", k)
				out := r.Route(k).Drain()
				if len(out) != len(q[k]) {
					v.fail("drained %d envelopes of %d, queued %d", len(out), k, len(q[k]))
				}
				for j := range out {
					if !tSame(out[j], q[k][j]) || out[j].HashPrev != q[k][j].HashPrev {
						v.fail("drained %+v at %d, queued %+v", out[j], j, q[k][j])
					}
				}
				delete(q, k)
				continue
			}
			e := v.tEnv(Channel(v.intn(4) / 3))
			if v.coin() {
				e.Channel = ChannelVector
			}
			e.Footprint.KeyID = k
			for j := range e.HashPrev {
				e.HashPrev[j] = byte(v.intn(256))
			}
			if !many || i < 20 {
				v.did("route %+v", e)
			}
			got := r.Route(k).Enqueue(e)
			if !tSame(got, e) {
				v.fail("content changed to %+v", got)
			}
			if e.Channel != ChannelVector {
				continue
			}
			c := tCell{k, e.SeqEnd}
			if l, ok := links[c]; ok && l != got.HashPrev {
				v.fail("audit link of key %d at %d is %x, was %x", k, e.SeqEnd, got.HashPrev, l)
			}
			links[c] = got.HashPrev
			q[k] = append(q[k], got)
		}
		for k := range q {
			out := r.Route(k).Drain()
			if len(out) != len(q[k]) {
				v.fail("drained %d envelopes of %d, queued %d", len(out), k, len(q[k]))
			}
			for j := range out {
				if out[j] != q[k][j] {
					v.fail("drained %+v at %d, queued %+v", out[j], j, q[k][j])
				}
			}
		}
	}
	v.covered("queue histories")
}

func TestVerif_T05_Concurrent(t *testing.T) {
	v := verif(t, "T05", 0.4)
	for v.more() {
		r := NewVRouter()
		const G, N = 6, 60
		var wg sync.WaitGroup
		for g := 0; g < G; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < N; i++ {
					k := uint64(i % 3)
					r.Route(k).Enqueue(Envelope{Channel: ChannelVector, Footprint: Footprint{KeyID: k, Scope: ChannelVector}, Delta: int64(g), SeqEnd: uint64(g*N + i)})
				}
			}()
		}
		drained := map[uint64][]Envelope{}
		for i := 0; i < 20; i++ {
			k := uint64(i % 3)
			drained[k] = append(drained[k], r.Route(k).Drain()...)
		}
		wg.Wait()
		total := 0
		for k := uint64(0); k < 3; k++ {
			all := append(drained[k], r.Route(k).Drain()...)
			total += len(all)
			last := map[int64]uint64{}
			for _, e := range all {
				if p, ok := last[e.Delta]; ok && e.SeqEnd <= p {
					v.fail("key %d: goroutine %d's envelope %d comes after %d", k, e.Delta, p, e.SeqEnd)
				}
				last[e.Delta] = e.SeqEnd
			}
		}
		if total != G*N {
			v.fail("%d envelopes drained of %d", total, G*N)
		}
	}
	v.covered("concurrent rounds")
}

// ---- T06

func TestVerif_T06_Pipeline(t *testing.T) {
	v := verif(t, "T06", 0.9)
	for v.more() {
		sink := &tSink{sum: map[tCell]int64{}}
		p := NewPipeline(PipelineOptions{Shards: v.intn(3), OrderPow2: v.intn(4), CountThresh: 10, TimeCap: time.Hour,
			FlushInterval: []time.Duration{time.Hour, time.Millisecond}[v.intn(2)], Buffer: 1 + v.intn(4), SSink: sink})
		p.Start()
		sum := map[tCell]int64{}
		q := map[uint64][]Envelope{}
		bad := ""
		v.within(30*time.Second, "Handle", func() {
			for i := 0; i < v.intn(120); i++ {
				e := v.tEnv(Channel(v.intn(2)))
				calls := 0
				var cb func(Envelope)
				if v.coin() {
					cb = func(g Envelope) {
						calls++
						if !tSame(g, e) {
							bad = fmt.Sprintf("the callback got %+v for %+v", g, e)
						}
						e.HashPrev = g.HashPrev
						if v.intn(10) == 0 {
							out := p.DrainV(e.Footprint.KeyID)
							if len(out) == 0 || out[len(out)-1] != g {
								bad = fmt.Sprintf("at the callback the envelope is not queued: %+v", e)
							}
							q[e.Footprint.KeyID] = nil
							calls += 1000
						}
					}
				}
				v.did("Handle(%+v, callback %v)", e, cb != nil)
				p.Handle(e, cb)
				if e.Channel == ChannelScalar {
					sum[tCell{e.Footprint.KeyID, e.Footprint.Time.BucketID}] += e.Delta
					if calls != 0 {
						bad = "a scalar envelope reached the callback"
					}
				} else {
					if cb != nil && calls%1000 != 1 {
						bad = fmt.Sprintf("the callback ran %d times", calls%1000)
					}
					if calls < 1000 {
						q[e.Footprint.KeyID] = append(q[e.Footprint.KeyID], e)
					}
				}
				if bad != "" {
					return
				}
			}
		})
		if bad != "" {
			v.fail("%s", bad)
		}
		stop := func() {}
		if v.coin() {
			v.within(20*time.Second, "FlushS", p.FlushS)
			stop = p.Stop
		} else {
			v.within(20*time.Second, "Stop", p.Stop)
		}
		sink.mu.Lock()
		for c := range sink.sum {
			if _, ok := sum[c]; !ok && sink.sum[c] != 0 {
				v.fail("the scalar lane has cell %v, which no scalar envelope named", c)
			}
		}
		for c, s := range sum {
			if sink.sum[c] != s {
				v.fail("cell %v: scalar lane has %d, handed over %d", c, sink.sum[c], s)
			}
		}
		sink.mu.Unlock()
		for k, es := range q {
			out := p.DrainV(k)
			if len(out) != len(es) {
				v.fail("key %d: %d envelopes queued, %d handed over", k, len(out), len(es))
			}
			for j := range es {
				if !tSame(out[j], es[j]) {
					v.fail("key %d: queued %+v, handed over %+v", k, out[j], es[j])
				}
			}
		}
		stop()
	}
	v.covered("pipeline histories")
}

// ---- T07

func TestVerif_T07_Reconstruct(t *testing.T) {
	v := verif(t, "T07", 0.8)
	for v.more() {
		a, b := NewState(), NewState()
		total := map[tCell]int64{}
		for round := 0; round < 1+v.intn(3); round++ {
			var all, vs []Envelope
			var ss []SBatch
			for i := 0; i < v.intn(50); i++ {
				e := v.tEnv(Channel(v.intn(2)))
				if len(all) > 0 && v.intn(5) == 0 { // the same again, perhaps with another delta
					d := e.Delta
					e = all[v.intn(len(all))]
					if v.coin() {
						e.Delta = d
					}
				}
				all = append(all, e)
				total[tCell{e.Footprint.KeyID, e.Footprint.Time.BucketID}] += e.Delta
				if e.Channel == ChannelScalar {
					sb := SBatch{e.Footprint.KeyID, e.Footprint.Time.BucketID, e.Delta, e.SeqEnd}
					merged := false
					for j := range ss {
						if v.coin() && ss[j].KeyID == sb.KeyID && ss[j].BucketID == sb.BucketID {
							ss[j].NetDelta += sb.NetDelta
							merged = true
							break
						}
					}
					if !merged {
						ss = append(ss, sb)
					}
				} else {
					vs = append(vs, e)
				}
			}
			v.rng.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
			v.rng.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
			v.did("round %+v batches %+v ordered %+v", all, ss, vs)
			a.Reconstruct(ss, vs)
			b.BaselineApply(all)
			for _, st := range []*State{a, b} {
				for c, x := range st.Cells() {
					if x != total[c] {
						v.fail("cell %v is %d, expected %d", c, x, total[c])
					}
				}
				for c, x := range total {
					if st.Cells()[c] != x {
						v.fail("cell %v is %d, expected %d", c, st.Cells()[c], x)
					}
				}
			}
		}
	}
	v.covered("mixed histories")
}
