import sys; sys.path.insert(0,'/verif/tools')
from bug import bug
C='internal/ratelimiter/core/'
REC='''
type rec struct { mu sync.Mutex; b [][]Commit; on func([]Commit) error }
func (r *rec) CommitBatch(b []Commit) error { r.mu.Lock(); r.b = append(r.b, append([]Commit(nil), b...)); r.mu.Unlock(); if r.on != nil { return r.on(b) }; return nil }
func (r *rec) PrintFinalMetrics() {}
'''
bug('K01-close-only-clean','K01',[(C+'store.go','''		managed := v.(*managedVSA)
		// Ensure any background goroutines inside VSA are stopped.
		managed.instance.Close()
	}
}''','''		managed := v.(*managedVSA)
		// Ensure any background goroutines inside VSA are stopped.
		if _, pending := managed.instance.State(); pending == 0 {
			managed.instance.Close()
		}
	}
}''')],'internal/ratelimiter/core','''
package core
import ("runtime";"testing";"time";"vsa")
func TestDemo(t *testing.T) {
	s := NewStoreWithOptions(10, vsa.Options{UseCachedGate: true, CacheInterval: time.Hour})
	base := runtime.NumGoroutine()
	s.GetOrCreate("a").Update(3)
	s.Delete("a")
	for i := 0; i < 500 && runtime.NumGoroutine() > base; i++ { time.Sleep(time.Millisecond) }
	if runtime.NumGoroutine() > base { t.Fatal("refresher of a removed key still runs") }
}
''','a key removed while it still has pending usage, with the cached gate on','its accumulator is not shut down: the background refresher leaks')
bug('K01-touch-on-write-only','K01',[(C+'store.go','''		managed := actual.(*managedVSA)
		atomic.StoreInt64(&managed.lastAccessed, time.Now().UnixNano())
		return managed.instance
	}

	// Miss''','''		managed := actual.(*managedVSA)
		// Avoid dirtying the cache line for exhausted keys: nothing can be consumed from them.
		if managed.instance.Available() > 0 {
			atomic.StoreInt64(&managed.lastAccessed, time.Now().UnixNano())
		}
		return managed.instance
	}

	// Miss''')],'internal/ratelimiter/core','''
package core
import ("testing";"time")
func TestDemo(t *testing.T) {
	s := NewStore(2)
	s.GetOrCreate("a").Update(2)
	last := func() int64 { var l int64; s.ForEach(func(k string, m *managedVSA) { l = m.lastAccessed }); return l }
	l := last()
	time.Sleep(2*time.Millisecond)
	s.GetOrCreate("a")
	if last() <= l { t.Fatal("the lookup did not refresh the last access") }
}
''','a lookup of a key whose budget is exhausted','the last-access time is not refreshed, so a denied but busy key is evicted and its budget reset')
bug('K02-rearm-signed','K02',[(C+'worker.go','''!v.armed.Load() && absVec <= w.lowCommitThreshold {''','''!v.armed.Load() && vec <= w.lowCommitThreshold {''')],'internal/ratelimiter/core','''
package core
import ("sync";"testing";"time")
'''+REC+'''
func TestDemo(t *testing.T) {
	s := NewStore(1000)
	r := &rec{}
	w := NewWorker(s, r, 10, 3, time.Hour, 0, time.Hour, time.Hour)
	a := s.GetOrCreate("a")
	a.Update(-10); w.runCommitCycle() // committed, disarmed
	a.Update(-7); w.runCommitCycle()  // above the low watermark: stays disarmed
	a.Update(-4); w.runCommitCycle()
	if len(r.b) != 1 { t.Fatal(r.b) }
}
''','a disarmed key with a negative vector between the low watermark and the threshold','the key is re-armed above the low watermark')
bug('K02-age-positive','K02',[(C+'worker.go','''w.commitMaxAge > 0 && vec != 0 &&''','''w.commitMaxAge > 0 && vec > 0 &&''')],'internal/ratelimiter/core','''
package core
import ("sync";"sync/atomic";"testing";"time")
'''+REC+'''
func TestDemo(t *testing.T) {
	s := NewStore(1000)
	r := &rec{}
	w := NewWorker(s, r, 10, 3, time.Hour, time.Minute, time.Hour, time.Hour)
	s.GetOrCreate("a").Update(-2)
	s.ForEach(func(k string, m *managedVSA) { atomic.StoreInt64(&m.lastAccessed, time.Now().Add(-time.Hour).UnixNano()) })
	w.runCommitCycle()
	if len(r.b) != 1 { t.Fatal(r.b) }
}
''','a key with a negative remainder below the threshold, idle for the maximum age','the remainder is never persisted by age')
bug('K03-fold-current','K03',[(C+'worker.go','''	// On successful persistence, update the internal state of each VSA.
	for i := range vsaToCommit {
		vsaToCommit[i].Commit(vectorsToCommit[i])
	}''','''	// On successful persistence, update the internal state of each VSA.
	for i := range vsaToCommit {
		if _, cur := vsaToCommit[i].State(); cur >= vectorsToCommit[i] && vectorsToCommit[i] > 0 {
			vectorsToCommit[i] = cur
		}
		vsaToCommit[i].Commit(vectorsToCommit[i])
	}''')],'internal/ratelimiter/core','''
package core
import ("sync";"testing";"time")
'''+REC+'''
func TestDemo(t *testing.T) {
	s := NewStore(1000)
	a := s.GetOrCreate("a")
	r := &rec{}
	r.on = func([]Commit) error { a.Update(3); return nil }
	w := NewWorker(s, r, 10, 0, time.Hour, 0, time.Hour, time.Hour)
	a.Update(10)
	w.runCommitCycle()
	if sc, n := a.State(); sc != 990 || n != 3 { t.Fatal(sc, n) }
}
''','consumption of a key while the batch write is in flight','usage that was never persisted is folded in and lost')
bug('K03-fold-after-partial','K03',[(C+'worker.go','''		fmt.Printf("ERROR: Failed to commit batch: %v\\n", err)
		// First-class KPI: record commit error
		churn.ObserveCommitError(1)
		// In a real system, you would have retry logic here.
		return
	}''','''		fmt.Printf("ERROR: Failed to commit batch: %v\\n", err)
		// First-class KPI: record commit error
		churn.ObserveCommitError(1)
		// Retry once; a second failure leaves everything pending for the next cycle.
		retry := commits
		if len(retry) > 1 {
			retry = retry[:len(retry)-1]
		}
		if w.persister.CommitBatch(retry) != nil {
			return
		}
	}''')],'internal/ratelimiter/core','''
package core
import ("errors";"sync";"testing";"time")
'''+REC+'''
func TestDemo(t *testing.T) {
	s := NewStore(1000)
	r := &rec{}
	n := 0
	var ok []Commit
	r.on = func(b []Commit) error { n++; if n == 1 { return errors.New("no") }; ok = append(ok, b...); return nil }
	w := NewWorker(s, r, 10, 0, time.Hour, 0, time.Hour, time.Hour)
	for _, k := range []string{"a", "b", "c"} { s.GetOrCreate(k).Update(10) }
	w.runCommitCycle()
	folded := 0
	s.ForEach(func(k string, m *managedVSA) { if _, p := m.instance.State(); p == 0 { folded++ } })
	if folded != len(ok) { t.Fatal(folded, ok) }
}
''','a batch of several keys whose first write fails and whose retry succeeds','a key that was not in the successful write is folded in: its usage is lost')
bug('K04-flush-positive','K04',[(C+'worker.go','''		_, vector := v.instance.State()
		if vector != 0 {
			commits = append(commits, Commit{Key: key, Vector: vector})''','''		_, vector := v.instance.State()
		if vector != 0 && vector != -w.commitThreshold {
			commits = append(commits, Commit{Key: key, Vector: vector})''')],'internal/ratelimiter/core','''
package core
import ("sync";"testing";"time")
'''+REC+'''
func TestDemo(t *testing.T) {
	s := NewStore(1000)
	r := &rec{}
	w := NewWorker(s, r, 5, 0, time.Hour, 0, time.Hour, time.Hour)
	s.GetOrCreate("a").Update(-5)
	w.Start()
	w.Stop()
	if len(r.b) != 1 || r.b[0][0].Vector != -5 { t.Fatal(r.b) }
}
''','a key whose vector is exactly minus the commit threshold when the worker stops','its remainder is not flushed')
bug('K04-bounded-wait','K04',[(C+'worker.go','''	close(w.stopChan)
	w.wg.Wait()
}''','''	close(w.stopChan)
	done := make(chan struct{})
	go func() {
		w.wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * w.commitInterval):
		// Do not let a stuck backend hold up the shutdown.
	}
}''')],'internal/ratelimiter/core','''
package core
import ("sync";"sync/atomic";"testing";"time")
'''+REC+'''
func TestDemo(t *testing.T) {
	s := NewStore(1000)
	r := &rec{}
	var done int32
	r.on = func([]Commit) error { time.Sleep(1500*time.Millisecond); atomic.StoreInt32(&done, 1); return nil }
	w := NewWorker(s, r, 50, 0, 100*time.Millisecond, 0, time.Hour, time.Hour)
	s.GetOrCreate("a").Update(5)
	w.Start()
	w.Stop()
	if atomic.LoadInt32(&done) != 1 { t.Fatal("Stop returned before the final flush was done") }
}
''','a final write that takes longer than three commit intervals','Stop returns while the final flush is still running, so the process exits and loses it')
bug('K05-failure-ends-cycle','K05',[(C+'worker.go','''					fmt.Printf("ERROR: Failed to commit batch: %v\\n", err)
					churn.ObserveCommitError(1)
					continue
				}''','''					fmt.Printf("ERROR: Failed to commit batch: %v\\n", err)
					churn.ObserveCommitError(1)
					return
				}''')],'internal/ratelimiter/core','''
package core
import ("errors";"sync";"sync/atomic";"testing";"time")
'''+REC+'''
func TestDemo(t *testing.T) {
	s := NewStore(1000)
	r := &rec{}
	r.on = func(b []Commit) error { if b[0].Vector == 1 { return errors.New("no") }; return nil }
	w := NewWorker(s, r, 50, 0, time.Hour, 0, time.Minute, time.Hour)
	for _, k := range []string{"a","b","c","d","e","f","g","h"} { s.GetOrCreate(k).Update(2) }
	for _, k := range []string{"bad1","bad2","bad3"} { s.GetOrCreate(k).Update(1) }
	s.ForEach(func(k string, m *managedVSA) { atomic.StoreInt64(&m.lastAccessed, time.Now().Add(-time.Hour).UnixNano()) })
	w.runEvictionCycle()
	n := 0
	s.ForEach(func(k string, m *managedVSA) { n++ })
	if n != 3 { t.Fatal(n) }
}
''','several idle keys, the write of one of them fails','the cycle stops: other idle keys are neither persisted nor removed')
bug('K05-recheck-only-pending','K05',[(C+'worker.go','''			if time.Since(time.Unix(0, last)) <= w.evictionAge {
				// Touched recently; skip eviction.
				continue
			}
			_, vector := managed.instance.State()''','''			_, vector := managed.instance.State()
			if vector != 0 && time.Since(time.Unix(0, last)) <= w.evictionAge {
				// Touched recently; skip eviction.
				continue
			}''')],'internal/ratelimiter/core','''
package core
import ("sync";"sync/atomic";"testing";"time")
'''+REC+'''
func TestDemo(t *testing.T) {
	bad := 0
	for i := 0; i < 40; i++ {
		s := NewStore(1000)
		r := &rec{}
		w := NewWorker(s, r, 50, 0, time.Hour, 0, time.Minute, time.Hour)
		for _, k := range []string{"a","b","c","d"} { s.GetOrCreate(k) }
		s.GetOrCreate("x").Update(1)
		s.ForEach(func(k string, m *managedVSA) { atomic.StoreInt64(&m.lastAccessed, time.Now().Add(-time.Hour).UnixNano()) })
		seen := map[string]bool{}
		touched := map[string]bool{}
		r.on = func(b []Commit) error { s.ForEach(func(k string, m *managedVSA) { if k != b[0].Key { s.GetOrCreate(k); touched[k] = true } }); return nil }
		w.runEvictionCycle()
		s.ForEach(func(k string, m *managedVSA) { seen[k] = true })
		for k := range touched { if !seen[k] { bad++ } }
	}
	if bad > 0 { t.Fatal(bad, "keys touched during the cycle were evicted") }
}
''','a key with nothing pending touched between the scan and its turn','a key in use is evicted')
