import sys; sys.path.insert(0,'/verif/tools')
from bug import bug
T='plugin/tfd/'
bug('T01-disjoint-all','T01',[(T+'types.go','''	if f.Time.All || other.Time.All {
		return false
	}''','''	if f.Time.All {
		return false
	}''')],'plugin/tfd','''
package tfd
import "testing"
func TestDemo(t *testing.T) {
	a := Footprint{KeyID: 1, Time: TimeFootprint{All: true}}
	b := Footprint{KeyID: 1, Time: TimeFootprint{BucketID: 9}}
	if a.Disjoint(b) || b.Disjoint(a) { t.Fatal(a.Disjoint(b), b.Disjoint(a)) }
}
''','a bucket footprint compared with an all-buckets footprint of the same key, in that order','overlapping footprints are reported independent and the relation is not symmetric')
bug('T02-flush-drops-zero','T02',[(T+'saccumulator.go','''		*out = append(*out, batch)
		// clear slot
		s.keys[i] = 0
		s.keyIDs[i] = 0
		s.bucketIDs[i] = 0
		s.sums[i] = 0
		s.seqEnds[i] = 0
	}
	s.used = 0''','''		if batch.NetDelta != 0 {
			*out = append(*out, batch)
		}
		// clear slot
		s.keys[i] = 0
		s.keyIDs[i] = 0
		s.bucketIDs[i] = 0
		s.sums[i] = 0
		s.seqEnds[i] = 0
	}
	s.used = 0''')],'plugin/tfd','''
package tfd
import ("testing";"time")
func TestDemo(t *testing.T) {
	s := newSShard(4, 100, time.Hour)
	e := Envelope{Footprint: Footprint{KeyID: 7}, Delta: 1, SeqEnd: 50}
	s.Ingest(e)
	e.Delta, e.SeqEnd = -1, 60
	s.Ingest(e)
	var o []SBatch
	s.Flush(&o)
	e.Delta, e.SeqEnd = 1, 55
	s.Ingest(e)
	s.Flush(&o)
	top := uint64(0)
	for _, b := range o { if b.SeqEnd > top { top = b.SeqEnd } }
	if top != 60 { t.Fatal(o) }
}
''','a cell whose deltas cancel to zero between flushes','the cell is cleared without being emitted, so its sequence number is lost')
bug('T03-map-path-seq','T03',[(T+'vsa_integration.go','''			if b.SeqEnd > prev.SeqEnd {
				prev.SeqEnd = b.SeqEnd
			}
			m[k] = prev''','''			if b.SeqEnd >= prev.SeqEnd {
				prev.SeqEnd = b.SeqEnd
				m[k] = prev
			}''')],'plugin/tfd','''
package tfd
import "testing"
func TestDemo(t *testing.T) {
	var in []SBatch
	for i := 0; i < 100; i++ { in = append(in, SBatch{KeyID: 1, BucketID: uint64(i % 2), NetDelta: 1, SeqEnd: uint64(1000 - i)}) }
	out := SimpleVSA{}.Compress(in)
	for _, b := range out { if b.NetDelta != 50 { t.Fatal(out) } }
	if len(out) != 2 { t.Fatal(out) }
}
''','more than 64 batches and a later batch of a cell with a smaller sequence number','the delta of such a batch is lost')
bug('T04-empty-sink','T04',[(T+'sservice.go','''		if len(b) > 0 && s.sink != nil {''','''		if b != nil && s.sink != nil {''')],'plugin/tfd','''
package tfd
import ("testing";"time";"sync")
type dsink struct{ mu sync.Mutex; empty int }
func (d *dsink) OnSBatches(b []SBatch) { d.mu.Lock(); defer d.mu.Unlock(); if len(b) == 0 { d.empty++ } }
func TestDemo(t *testing.T) {
	d := &dsink{}
	s := NewSService(NewSAccumulator(1, 4, 1000, time.Hour), SimpleVSA{}, d, SServiceOptions{FlushInterval: time.Hour})
	s.Start()
	e := Envelope{Footprint: Footprint{KeyID: 7}, Delta: 5, SeqEnd: 1}
	s.Ingest(e); e.Delta = -5; s.Ingest(e)
	s.Stop()
	if d.empty != 0 { t.Fatal("the sink was called with no batches") }
}
''','a flush in which every cell cancels to zero, with compression on','the sink is called with an empty batch list')
bug('T05-hash-of-position','T05',[(T+'vactors.go','''	a.prev = Hash128(a.keyID, env.SeqEnd)''','''	a.prev = Hash128(a.keyID, env.SeqEnd+uint64(a.queue.Len()>>10))''')],'plugin/tfd','''
package tfd
import "testing"
func TestDemo(t *testing.T) {
	a := NewVRouter().Route(3)
	for i := 0; i < 1500; i++ {
		a.Enqueue(Envelope{Channel: ChannelVector, Footprint: Footprint{KeyID: 3}, SeqEnd: uint64(i)})
	}
	for i, e := range a.Drain() {
		if e.HashPrev != Hash128(3, uint64(i)) { t.Fatal(i) }
	}
}
''','more than 1023 envelopes queued for one key','the audit link depends on how many envelopes are queued')
bug('T06-zero-vector','T06',[(T+'pipeline.go','''	if persistV != nil {
		persistV(env)''','''	if persistV != nil && env.Delta != 0 {
		persistV(env)''')],'plugin/tfd','''
package tfd
import ("testing";"time")
type dsink struct{}
func (dsink) OnSBatches(b []SBatch) {}
func TestDemo(t *testing.T) {
	p := NewPipeline(PipelineOptions{Shards: 1, OrderPow2: 4, CountThresh: 10, TimeCap: time.Hour, FlushInterval: time.Hour, SSink: dsink{}})
	n := 0
	p.Handle(Envelope{Channel: ChannelVector, Footprint: Footprint{KeyID: 1}, SeqEnd: 4}, func(Envelope) { n++ })
	if n != 1 { t.Fatal(n) }
}
''','an ordered envelope with a zero delta (a policy change, say)','the persistence callback is not called for it')
bug('T07-adjacent-equal','T07',[(T+'reconstruct.go','''	for _, e := range vEnvs {
		s.applyV(e)''','''	for i, e := range vEnvs {
		if i > 0 && e == vEnvs[i-1] {
			continue // already applied
		}
		s.applyV(e)''')],'plugin/tfd','''
package tfd
import "testing"
func TestDemo(t *testing.T) {
	e := Envelope{Channel: ChannelVector, Footprint: Footprint{KeyID: 1, Time: TimeFootprint{BucketID: 2}}, Delta: 5, SeqEnd: 4}
	a, b := NewState(), NewState()
	a.BaselineApply([]Envelope{e, e})
	b.Reconstruct(nil, []Envelope{e, e})
	k := [2]uint64{1, 2}
	if a.Cells()[k] != 10 || b.Cells()[k] != 10 { t.Fatal(a.Cells(), b.Cells()) }
}
''','two ordered envelopes with equal content next to each other in order','the second is dropped by reconstruction, though arrival order applies both')
