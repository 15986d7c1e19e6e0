package core

import (
	"errors"
	"fmt"
	"os"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"vsa"
)

func quiet() func() {
	o := os.Stdout
	n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return func() {}
	}
	os.Stdout = n
	return func() { os.Stdout = o; n.Close() }
}

// kRec records batches; on decides the answer and may act as other goroutines would.
type kRec struct {
	mu      sync.Mutex
	batches [][]Commit
	oks     []bool
	on      func(n int, b []Commit) error
	flight  int32
	overlap int32
}

func (r *kRec) CommitBatch(b []Commit) error {
	if atomic.AddInt32(&r.flight, 1) > 1 {
		atomic.StoreInt32(&r.overlap, 1)
	}
	defer atomic.AddInt32(&r.flight, -1)
	c := append([]Commit(nil), b...)
	r.mu.Lock()
	n := len(r.batches)
	r.batches = append(r.batches, c)
	r.oks = append(r.oks, false)
	r.mu.Unlock()
	var err error
	if r.on != nil {
		err = r.on(n, c)
	}
	if err == nil {
		r.mu.Lock()
		r.oks[n] = true
		r.mu.Unlock()
	}
	return err
}
func (r *kRec) PrintFinalMetrics() {}

func (r *kRec) count() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.batches) }

func kKey(i int) string {
	return []string{"", "a", "b", "alice", "a:b", "\x00", "kéy", "a b", "A", "0", "00", "key-10", "key-11"}[i%13] + func() string {
		if i >= 13 {
			return fmt.Sprint(i / 13)
		}
		return ""
	}()
}

func kOpts(v *vf) vsa.Options {
	o := vsa.Options{}
	if v.coin() {
		o.Stripes = v.intn(40)
	}
	o.CheapUpdateChooser = v.intn(4) == 0
	o.PerPUpdateChooser = v.intn(4) == 0
	if v.intn(4) == 0 {
		o.HierarchicalGroups = v.intn(5)
	}
	return o
}

func kManaged(s *Store, key string) *managedVSA {
	x, ok := s.counters.Load(key)
	if !ok {
		return nil
	}
	return x.(*managedVSA)
}

func goroutines() int { return runtime.NumGoroutine() }

// settled is the number of goroutines once those on their way out are gone.
func settled() int {
	n := runtime.NumGoroutine()
	for i := 0; i < 6; i++ {
		time.Sleep(100 * time.Microsecond)
		if m := runtime.NumGoroutine(); m < n {
			n, i = m, 0
		}
	}
	return n
}

// ---- K01

func TestVerif_K01_Races(t *testing.T) {
	defer quiet()()
	v := verif(t, "K01", 0.4)
	for v.more() {
		budget := v.num(1 << 40)
		o := kOpts(v)
		o.UseCachedGate = v.coin()
		o.CacheInterval = time.Hour
		base := settled()
		s := NewStoreWithOptions(budget, o)
		nk, ng := 1+v.intn(4), 2+v.intn(10)
		v.did("NewStoreWithOptions(%d, %+v); %d keys, %d goroutines", budget, o, nk, ng)
		got := make([][]*vsa.VSA, ng)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := 0; g < ng; g++ {
			got[g] = make([]*vsa.VSA, nk)
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for i := 0; i < nk; i++ {
					k := (i + g) % nk
					got[g][k] = s.GetOrCreate(kKey(k))
				}
			}(g)
		}
		before := time.Now().UnixNano()
		close(start)
		v.within(20*time.Second, "concurrent lookups", wg.Wait)
		after := time.Now().UnixNano()
		seen := map[*vsa.VSA]int{}
		for k := 0; k < nk; k++ {
			a := got[0][k]
			if a == nil {
				v.fail("no accumulator for key %d", k)
			}
			for g := range got {
				if got[g][k] != a {
					v.fail("two accumulators for key %q", kKey(k))
				}
			}
			if s.GetOrCreate(kKey(k)) != a {
				v.fail("a later lookup of %q returns another accumulator", kKey(k))
			}
			if j, dup := seen[a]; dup {
				v.fail("keys %q and %q share an accumulator", kKey(j), kKey(k))
			}
			seen[a] = k
			m := kManaged(s, kKey(k))
			if m == nil || m.instance != a {
				v.fail("key %q not stored with its accumulator", kKey(k))
			}
			if l := atomic.LoadInt64(&m.lastAccessed); l < before || l > time.Now().UnixNano() {
				v.fail("last access %d outside [%d,%d]", l, before, after)
			}
			if !m.armed.Load() {
				v.fail("a new key is not armed")
			}
			if sc, n := a.State(); sc != budget || n != 0 {
				v.fail("a new accumulator has state (%d,%d), budget %d", sc, n, budget)
			}
		}
		want := base
		if o.UseCachedGate {
			want += nk
		}
		if !eventually(2*time.Second, func() bool { return goroutines() <= want }) {
			v.fail("%d background goroutines for %d accumulators: a losing accumulator is not shut down", goroutines()-base, nk)
		}
		if o.UseCachedGate && goroutines() < want {
			v.fail("only %d background goroutines for %d accumulators: a live accumulator was shut down or the options were not used", goroutines()-base, nk)
		}
		// removing one key
		d := v.intn(nk)
		for k := 0; k < nk; k++ {
			got[0][k].Update(int64(k + 1))
		}
		s.Delete(kKey(d))
		s.Delete("no such key")
		if kManaged(s, kKey(d)) != nil {
			v.fail("key %q is still stored after Delete", kKey(d))
		}
		if o.UseCachedGate && !eventually(2*time.Second, func() bool { return goroutines() <= want-1 }) {
			v.fail("the accumulator of a removed key keeps its goroutine")
		}
		for k := 0; k < nk; k++ {
			if k == d {
				continue
			}
			m := kManaged(s, kKey(k))
			if m == nil || m.instance != got[0][k] {
				v.fail("removing %q changed %q", kKey(d), kKey(k))
			}
			if _, n := m.instance.State(); n != int64(k+1) {
				v.fail("removing %q changed the vector of %q to %d", kKey(d), kKey(k), n)
			}
		}
		if o.UseCachedGate && goroutines() < want-1 {
			time.Sleep(2 * time.Millisecond)
			if goroutines() < want-1 {
				v.fail("removing one key stopped other accumulators")
			}
		}
		n := s.GetOrCreate(kKey(d))
		if n == got[0][d] {
			v.fail("a removed accumulator came back")
		}
		if sc, p := n.State(); sc != budget || p != 0 {
			v.fail("a recreated key has state (%d,%d)", sc, p)
		}
		s.CloseAll()
		s.CloseAll()
		if !eventually(2*time.Second, func() bool { return goroutines() <= base }) {
			v.fail("%d goroutines left after CloseAll", goroutines()-base)
		}
		for k := 0; k < nk; k++ {
			if k == d {
				continue
			}
			if m := kManaged(s, kKey(k)); m == nil || m.instance != got[0][k] {
				v.fail("CloseAll removed or changed key %q", kKey(k))
			} else if _, p := m.instance.State(); p != int64(k+1) {
				v.fail("CloseAll changed the vector of %q", kKey(k))
			}
		}
	}
	v.covered("concurrent lookups, removal and shutdown")
}

func TestVerif_K01_Refresh(t *testing.T) {
	defer quiet()()
	v := verif(t, "K01", 0.1)
	s := NewStore(7)
	for v.more() {
		k := kKey(v.intn(20))
		a := s.GetOrCreate(k)
		if d := v.num(50); v.coin() {
			a.Update(d)
		} else {
			a.Commit(d)
		}
		m := kManaged(s, k)
		old := time.Now().Add(-time.Duration(v.intn(1000)) * time.Hour).UnixNano()
		atomic.StoreInt64(&m.lastAccessed, old)
		arm := v.coin()
		m.armed.Store(arm)
		t0 := time.Now().UnixNano()
		v.did("GetOrCreate(%q), last access %d", k, old)
		if s.GetOrCreate(k) != a || kManaged(s, k) != m {
			v.fail("another accumulator")
		}
		if l := atomic.LoadInt64(&m.lastAccessed); l < t0 {
			v.fail("a lookup leaves the last access at %d", l)
		}
		if m.armed.Load() != arm {
			v.fail("a lookup changed the armed state")
		}
	}
	v.covered("repeated lookups")
}

func TestVerif_K01_DeleteRace(t *testing.T) {
	defer quiet()()
	v := verif(t, "K01", 0.2)
	for v.more() {
		base := settled()
		s := NewStoreWithOptions(3, vsa.Options{UseCachedGate: true, CacheInterval: time.Hour})
		v.did("lookups of k racing removals")
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 6; i++ {
					if g < 2 {
						s.Delete("k")
					} else if s.GetOrCreate("k") == nil {
						v.t.Error("nil accumulator")
					}
				}
			}(g)
		}
		v.within(20*time.Second, "lookups and removals", wg.Wait)
		live := 0
		if kManaged(s, "k") != nil {
			live = 1
		}
		if !eventually(2*time.Second, func() bool { return goroutines() <= base+live }) {
			v.fail("%d background goroutines for %d stored accumulators", goroutines()-base, live)
		}
		s.CloseAll()
		if !eventually(2*time.Second, func() bool { return goroutines() <= base }) {
			v.fail("goroutines left after CloseAll")
		}
	}
	v.covered("lookups racing removals")
}

// ---- K02, K03

type kModel struct {
	s, n  int64
	armed bool
	idle  time.Duration
	v     *vsa.VSA
}

func kSort(b []Commit) []Commit {
	b = append([]Commit(nil), b...)
	sort.Slice(b, func(i, j int) bool { return b[i].Key < b[j].Key || b[i].Key == b[j].Key && b[i].Vector < b[j].Vector })
	return b
}

func abs64(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

// kCycles runs commit cycles against the model; prop selects what is compared.
func kCycles(v *vf, final bool) {
	thr := v.num(200)
	if v.coin() {
		thr = int64(v.intn(8))
	}
	low := int64(v.intn(8)) - 1
	if v.intn(4) == 0 {
		low = v.num(100)
	}
	age := []time.Duration{0, -time.Second, time.Minute, time.Hour}[v.intn(4)]
	budget := v.num(1 << 40)
	s := NewStoreWithOptions(budget, kOpts(v))
	fail := []int{0, 0, 30, 100}[v.intn(4)]
	rec := &kRec{}
	var failed []bool
	rec.on = func(n int, b []Commit) error {
		f := v.rng.Intn(100) < fail
		failed = append(failed, f)
		if f {
			return errors.New("no")
		}
		return nil
	}
	w := NewWorker(s, rec, thr, low, time.Hour, age, time.Hour, time.Hour)
	v.did("budget %d threshold %d low %d age %v", budget, thr, low, age)
	model := map[string]*kModel{}
	nk := v.intn(8)
	if v.intn(10) == 0 {
		nk = 20 + v.intn(40)
	}
	for i := 0; i < nk; i++ {
		model[kKey(i)] = &kModel{s: budget, armed: true, v: s.GetOrCreate(kKey(i))}
	}
	for round := 0; round < 1+v.intn(6); round++ {
		now := time.Now()
		keys := make([]string, 0, nk)
		for i := 0; i < nk; i++ {
			keys = append(keys, kKey(i))
		}
		for _, k := range keys {
			m := model[k]
			if v.intn(3) > 0 {
				d := v.num(1 << 30)
				switch v.intn(4) {
				case 0:
					d = thr - m.n + int64(v.intn(3)) - 1
				case 1:
					d = low - m.n + int64(v.intn(3)) - 1
				case 2:
					if v.coin() {
						d = -m.n
					} else {
						d = -m.n - thr
					}
				}
				m.v.Update(d)
				m.n += d
			}
			m.idle = []time.Duration{0, 0, age - 10*time.Second, age, age + 20*time.Second, 1000 * time.Hour, -time.Hour}[v.intn(7)]
			atomic.StoreInt64(&kManaged(s, k).lastAccessed, now.Add(-m.idle).UnixNano())
			v.did("%q vector %d idle %v armed %v", k, m.n, m.idle, m.armed)
		}
		var want []Commit
		for _, k := range keys {
			m := model[k]
			if final {
				if m.n != 0 {
					want = append(want, Commit{Key: k, Vector: m.n})
				}
				continue
			}
			el := false
			if abs64(m.n) >= thr {
				el = low <= 0 || m.armed
			} else if low > 0 && abs64(m.n) <= low {
				m.armed = true
			}
			if age > 0 && m.n != 0 && m.idle >= age {
				el = true
			}
			if el {
				m.armed = false
				want = append(want, Commit{Key: k, Vector: m.n})
			}
		}
		n0 := rec.count()
		if final {
			v.did("final flush")
			v.safe("runFinalFlush", w.runFinalFlush)
		} else {
			v.did("commit cycle")
			v.safe("runCommitCycle", w.runCommitCycle)
		}
		n1 := rec.count()
		if len(want) == 0 {
			if n1 != n0 {
				v.fail("a batch of %v although no key is eligible", rec.batches[n0])
			}
			continue
		}
		if n1 != n0+1 {
			v.fail("%d batches instead of one", n1-n0)
		}
		a, b := kSort(want), kSort(rec.batches[n0])
		if fmt.Sprint(a) != fmt.Sprint(b) {
			v.fail("batch %v instead of %v", b, a)
		}
		ok := !failed[len(failed)-1]
		if ok {
			for _, c := range want {
				model[c.Key].s -= abs64(c.Vector)
				model[c.Key].n = 0
			}
		}
		for _, k := range keys {
			m := model[k]
			mm := kManaged(s, k)
			if mm == nil || mm.instance != m.v {
				v.fail("key %q lost", k)
			}
			sc, n := m.v.State()
			if sc != m.s || n != m.n {
				v.fail("key %q has scalar %d vector %d instead of %d and %d (write ok: %v)", k, sc, n, m.s, m.n, ok)
			}
			if !final && mm.armed.Load() != m.armed {
				v.fail("key %q has armed %v instead of %v", k, mm.armed.Load(), m.armed)
			}
			if l := atomic.LoadInt64(&mm.lastAccessed); l != now.Add(-m.idle).UnixNano() {
				v.fail("a cycle changed the last access of %q", k)
			}
		}
	}
}

func TestVerif_K02_Cycles(t *testing.T) {
	defer quiet()()
	v := verif(t, "K02", 0.8)
	for v.more() {
		kCycles(v, false)
	}
	v.covered("histories of commit cycles against a model of eligibility")
}

func TestVerif_K03_Cycles(t *testing.T) {
	defer quiet()()
	v := verif(t, "K03", 0.3)
	for v.more() {
		kCycles(v, v.intn(4) == 0)
	}
	v.covered("histories of cycles with failing writes")
}

// Overlapping cycles of all three kinds on one store: what was persisted is what was folded.
func TestVerif_K03_Overlap(t *testing.T) {
	defer quiet()()
	v := verif(t, "K03", 0.4)
	for v.more() {
		budget := int64(1 << 40)
		s := NewStore(budget)
		nk := 1 + v.intn(4)
		rec := &kRec{}
		failN := v.intn(5)
		rec.on = func(n int, b []Commit) error {
			time.Sleep(time.Duration(n%3) * 100 * time.Microsecond)
			if n < failN {
				return errors.New("no")
			}
			return nil
		}
		w := NewWorker(s, rec, 1, 0, time.Hour, 0, time.Minute, time.Hour)
		used := make([]int64, nk)
		acc := make([]*vsa.VSA, nk)
		for i := range used {
			used[i] = int64(1 + v.intn(9))
			if v.intn(4) == 0 {
				used[i] = -used[i]
			}
			acc[i] = s.GetOrCreate(kKey(i))
			acc[i].Update(used[i])
			if i > 0 { // key 0 stays fresh and keeps being used
				atomic.StoreInt64(&kManaged(s, kKey(i)).lastAccessed, time.Now().Add(-time.Hour).UnixNano())
			}
		}
		v.did("vectors %v, the first %d writes fail, overlapping cycles", used, failN)
		var wg sync.WaitGroup
		var more int64
		cyc := []func(){w.runCommitCycle, w.runFinalFlush, w.runEvictionCycle, w.runCommitCycle, w.runEvictionCycle, w.runFinalFlush}
		nc := 2 + v.intn(5)
		for i := 0; i < nc; i++ {
			wg.Add(1)
			f := cyc[v.intn(len(cyc))]
			go func() { defer wg.Done(); f() }()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				acc[0].Update(1)
				atomic.AddInt64(&more, 1)
				runtime.Gosched()
			}
		}()
		v.within(30*time.Second, "overlapping cycles", wg.Wait)
		if used[0] > 0 {
			used[0] += more
		} else {
			continue // mixed signs while running: no simple total
		}
		sums := make([]int64, nk)
		for i, b := range rec.batches {
			if !rec.oks[i] {
				continue
			}
			for _, c := range b {
				for k := range sums {
					if kKey(k) == c.Key {
						sums[k] += c.Vector
					}
				}
			}
		}
		for k := range sums {
			sc, n := acc[k].State()
			if sums[k]+n != used[k] {
				v.fail("key %q: used %d, persisted %d, still pending %d", kKey(k), used[k], sums[k], n)
			}
			if budget-sc != abs64(sums[k]) {
				v.fail("key %q: persisted %d but folded %d", kKey(k), sums[k], budget-sc)
			}
		}
	}
	v.covered("overlapping commit, eviction and flush cycles")
}

// ---- K04

func TestVerif_K04_Flush(t *testing.T) {
	defer quiet()()
	v := verif(t, "K04", 0.3)
	for v.more() {
		kCycles(v, true)
	}
	v.covered("final flushes against a model")
}

func TestVerif_K04_Stop(t *testing.T) {
	defer quiet()()
	v := verif(t, "K04", 0.6)
	for v.more() {
		budget := int64(1 << 40)
		s := NewStore(budget)
		rec := &kRec{}
		bad := v.intn(4) == 0
		slow := time.Duration(v.intn(3)) * time.Millisecond
		rec.on = func(n int, b []Commit) error {
			time.Sleep(slow)
			if bad {
				return errors.New("no")
			}
			return nil
		}
		periodic := v.coin()
		ci, ei := time.Hour, time.Hour
		if periodic {
			ci, ei = time.Duration(1+v.intn(3))*time.Millisecond, time.Millisecond
		}
		base := settled()
		w := NewWorker(s, rec, int64(1+v.intn(9)), int64(v.intn(3)), ci, 0, time.Hour, ei)
		used := map[string]int64{}
		for i := 0; i < v.intn(6); i++ {
			n := int64(v.intn(12)) - 4
			s.GetOrCreate(kKey(i)).Update(n)
			used[kKey(i)] = n
		}
		v.did("vectors %v, periodic %v, failing %v, slow %v", used, periodic, bad, slow)
		v.within(10*time.Second, "Start", w.Start)
		if periodic {
			time.Sleep(time.Duration(v.intn(6)) * time.Millisecond)
		}
		ns := 1 + v.intn(3)
		var wg sync.WaitGroup
		for i := 0; i < ns; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						fmt.Fprintf(vfOut, "\nVERIF-FAIL property=K04 case %d: Stop panics: %v\n", v.n, e)
					}
				}()
				w.Stop()
			}()
		}
		v.within(20*time.Second, "Stop", wg.Wait)
		if atomic.LoadInt32(&rec.flight) != 0 {
			v.fail("a write is in flight after Stop returned")
		}
		nb := rec.count()
		if !eventually(time.Second, func() bool { return goroutines() <= base }) {
			v.fail("%d goroutines left after Stop", goroutines()-base)
		}
		v.within(10*time.Second, "a second Stop", w.Stop)
		if periodic {
			time.Sleep(3 * time.Millisecond)
		}
		if rec.count() != nb {
			v.fail("something was persisted after Stop returned")
		}
		sums := map[string]int64{}
		for i, b := range rec.batches {
			for _, c := range b {
				if rec.oks[i] {
					sums[c.Key] += c.Vector
				}
			}
		}
		zero := true
		for k, n := range used {
			zero = zero && n == 0
			sc, p := s.GetOrCreate(k).State()
			if bad {
				if sc != budget || p != n {
					v.fail("after failing writes %q has (%d,%d), want vector %d", k, sc, p, n)
				}
				continue
			}
			if p != 0 || sums[k] != n || budget-sc != abs64(n) {
				v.fail("key %q: used %d, persisted %d, folded %d, still pending %d", k, n, sums[k], budget-sc, p)
			}
		}
		if !periodic {
			want := 1
			if zero {
				want = 0
			}
			if nb != want {
				v.fail("%d batches instead of %d", nb, want)
			}
			for _, b := range rec.batches {
				for _, c := range b {
					if c.Vector != used[c.Key] || c.Vector == 0 {
						v.fail("the final batch has %v, used %v", b, used)
					}
				}
			}
		}
	}
	v.covered("stops at any moment, repeated and concurrent")
}

// ---- K05

func TestVerif_K05_Evict(t *testing.T) {
	defer quiet()()
	v := verif(t, "K05", 0.8)
	for v.more() {
		budget := v.num(1 << 40)
		o := kOpts(v)
		o.UseCachedGate = v.intn(4) == 0
		o.CacheInterval = time.Hour
		base := settled()
		s := NewStoreWithOptions(budget, o)
		rec := &kRec{}
		age := []time.Duration{time.Minute, time.Hour, 24 * time.Hour}[v.intn(3)]
		w := NewWorker(s, rec, 5, 0, time.Hour, 0, age, time.Hour)
		nk := v.intn(8)
		type ent struct {
			n, use       int64
			idle         time.Duration
			fails        bool
			touch        int // 0: no; 1: touched while some other key is written; 2: while it is written itself
			wrote, tried int
			touched      bool
			m            *managedVSA
		}
		es := map[string]*ent{}
		var keys []string
		for i := 0; i < nk; i++ {
			k := kKey(i)
			e := &ent{n: int64(v.intn(7)) - 2, idle: []time.Duration{0, age - 20*time.Second, age + 20*time.Second, 100 * age, -time.Hour, 2 * age}[v.intn(6)], fails: v.intn(4) == 0, use: int64(v.intn(3))}
			if v.intn(4) == 0 {
				e.n = v.num(1 << 40)
			}
			if v.intn(3) == 0 {
				e.touch = 1 + v.intn(2)
			}
			s.GetOrCreate(k).Update(e.n)
			e.m = kManaged(s, k)
			atomic.StoreInt64(&e.m.lastAccessed, time.Now().Add(-e.idle).UnixNano())
			es[k] = e
			keys = append(keys, k)
			v.did("%q vector %d idle %v touch %d use %d fails %v", k, e.n, e.idle, e.touch, e.use, e.fails)
		}
		v.did("age %v budget %d", age, budget)
		gone := map[string]bool{}
		note := func() {
			for _, k := range keys {
				if kManaged(s, k) == nil {
					gone[k] = true
				}
			}
		}
		rec.on = func(n int, b []Commit) error {
			note()
			if len(b) != 1 || es[b[0].Key] == nil {
				v.fail("unexpected batch %v", b)
			}
			e := es[b[0].Key]
			e.tried++
			if gone[b[0].Key] {
				v.fail("%q was removed before its vector was written", b[0].Key)
			}
			if b[0].Vector != e.n {
				v.fail("%q written with %d instead of %d", b[0].Key, b[0].Vector, e.n)
			}
			for _, k := range keys {
				x := es[k]
				if x.touched || gone[k] || !(x.touch == 1 && k != b[0].Key && x.tried == 0 || x.touch == 2 && k == b[0].Key) {
					continue
				}
				x.touched = true
				v.did("%q is used while %q is written", k, b[0].Key)
				s.GetOrCreate(k).Update(x.use)
				if k != b[0].Key {
					x.n += x.use
				}
			}
			if e.fails {
				return errors.New("no")
			}
			e.wrote++
			return nil
		}
		v.safe("runEvictionCycle", w.runEvictionCycle)
		live := 0
		for _, k := range keys {
			e := es[k]
			m := kManaged(s, k)
			if m != nil {
				live++
			}
			if m != nil && m != e.m {
				v.fail("%q has another entry", k)
			}
			sc, n := e.m.instance.State()
			stale := e.idle > age
			otherTouched := e.touched && e.touch == 1
			switch {
			case !stale || otherTouched:
				if m == nil {
					v.fail("%q was removed though touched recently (idle %v, touched during the cycle: %v)", k, e.idle, e.touched)
				}
				if e.tried != 0 || sc != budget || n != e.n {
					v.fail("%q was kept but is not intact: tried %d, scalar %d of %d, vector %d of %d", k, e.tried, sc, budget, n, e.n)
				}
			case e.n == 0:
				if e.tried != 0 {
					v.fail("%q has nothing pending but was written", k)
				}
				if m != nil {
					v.fail("idle key %q was not removed", k)
				}
			default:
				if e.tried != 1 {
					v.fail("%q with vector %d was written %d times", k, e.n, e.tried)
				}
				use := int64(0)
				if e.touched {
					use = e.use
				}
				if e.fails {
					if m == nil {
						v.fail("%q was removed though its write failed", k)
					}
					if sc != budget || n != e.n+use {
						v.fail("%q after a failed write: scalar %d of %d, vector %d of %d", k, sc, budget, n, e.n+use)
					}
					continue
				}
				if e.touched && m == nil {
					v.fail("%q was removed though it was used while its vector was written", k)
				}
				if !e.touched && m != nil {
					v.fail("idle key %q was not removed", k)
				}
				if e.n > 0 && (n != use || sc != budget-e.n) {
					v.fail("%q: persisted %d, left scalar %d of %d, vector %d of %d", k, e.n, sc, budget, n, use)
				}
			}
		}
		if o.UseCachedGate && !eventually(2*time.Second, func() bool { return goroutines() <= base+live }) {
			v.fail("%d background goroutines for %d kept accumulators", goroutines()-base, live)
		}
		if o.UseCachedGate && goroutines() < base+live {
			v.fail("kept accumulators were shut down")
		}
		s.CloseAll()
		if !eventually(2*time.Second, func() bool { return goroutines() <= base }) {
			v.fail("goroutines left")
		}
	}
	v.covered("eviction cycles with touches and failing writes")
}
