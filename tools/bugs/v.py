import sys; sys.path.insert(0,'/verif/tools')
from bug import bug
bug('V01-refund-group','V01',[('vsa.go','''	v.stripes[idx].val.Add(-n)
	if v.hGroups > 0 {
		g := idx / v.hStride
		v.hGroupSum[g].Add(-n)
	}''','''	v.stripes[idx].val.Add(-n)
	if v.hGroups > 0 {
		if g := idx / v.hStride; g > 0 {
			v.hGroupSum[g].Add(-n)
		}
	}''')],'.','''
package vsa
import "testing"
func TestDemo(t *testing.T) {
	v := NewWithOptions(1000, Options{Stripes: 8, HierarchicalGroups: 4})
	for i := 0; i < 16; i++ { v.Update(10) }
	for i := 0; i < 16; i++ {
		_, before := v.State()
		if !v.TryRefund(1) { t.Fatal("refused") }
		if _, n := v.State(); n != before-1 { t.Fatalf("refund %d: pending %d, was %d", i, n, before) }
	}
}
''','hierarchical groups and refunds landing on a stripe of the first group','the group sums keep refunded units, so the pending net differs from the history')
bug('V01-checkcommit-negative','V01',[('vsa.go','''	if abs(net) >= threshold {
		return true, net
	}
	return false, 0''','''	if net >= threshold || -net > threshold {
		return true, net
	}
	return false, 0''')],'.','''
package vsa
import "testing"
func TestDemo(t *testing.T) {
	v := New(1000); v.Update(-50)
	if ok, n := v.CheckCommit(50); !ok || n != -50 { t.Fatal(ok, n) }
}
''','a negative pending vector whose magnitude equals the threshold exactly','the commit check answers false at the threshold')
bug('V03-approx-negative-commit','V03',[('vsa.go','''	v.approxNet.Add(-delta)
	v.tryMu.Unlock()''','''	v.approxNet.Add(-mag)
	v.tryMu.Unlock()''')],'.','''
package vsa
import "testing"
func TestDemo(t *testing.T) {
	v := NewWithOptions(1000, Options{FastPathGuard: 10})
	v.Update(-300); v.Commit(-300) // scalar 700, nothing pending
	if v.Available() != 700 { t.Fatal(v.Available()) }
	if !v.TryConsume(600) { t.Fatal("a covered request was denied") }
}
''','a commit of a negative vector followed by a large consumption','the running net is wrong after the commit, so a covered request is denied')
bug('V06-hstride-floor','V06',[('vsa.go','''		v.hStride = (s + h - 1) / h''','''		v.hStride = s / h''')],'.','''
package vsa
import "testing"
func TestDemo(t *testing.T) {
	v := NewWithOptions(1000, Options{Stripes: 8, HierarchicalGroups: 3})
	for i := 0; i < 20; i++ { v.Update(1) }
	if v.Available() != 980 { t.Fatal(v.Available()) }
}
''','a group count that does not divide the stripe count','an update on the last stripes indexes past the group sums and panics')
bug('V05-refund-cached','V05',[('vsa.go','''	if n > net {
		n = net // clamp: never overshoot below zero net
	}''','''	if n > net && v.hGroups == 0 {
		n = net // clamp: never overshoot below zero net
	} else if g := int64(v.hGroups); g > 0 && n/g > net {
		n = net
	}''')],'.','''
package vsa
import "testing"
func TestDemo(t *testing.T) {
	v := NewWithOptions(1000, Options{Stripes: 8, HierarchicalGroups: 4})
	v.Update(10); v.TryRefund(12)
	if _, n := v.State(); n != 0 { t.Fatal(n) }
}
''','hierarchical groups and a refund slightly larger than what is pending','the vector goes negative')
bug('V07-close-race','V07',[('vsa.go','''	v.closeOnce.Do(func() {
		if v.stopCh != nil {
			close(v.stopCh)
		}
	})''','''	if v.stopCh == nil {
		return
	}
	select {
	case <-v.stopCh:
	default:
		close(v.stopCh)
	}''')],'.','''
package vsa
import ("testing"; "sync"; "time")
func TestDemo(t *testing.T) {
	end := time.Now().Add(15 * time.Second)
	for time.Now().Before(end) {
		v := NewWithOptions(10, Options{UseCachedGate: true, CacheInterval: time.Hour})
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := 0; i < 8; i++ { wg.Add(1); go func() { defer wg.Done(); <-start; v.Close() }() }
		close(start); wg.Wait()
	}
}
''','two concurrent closes that both see the channel open','close of a closed channel panics')
bug('V02-commit-cached-net','V02',[('vsa.go',"""	net := v.currentVector()
	if net == 0 {
		v.tryMu.Unlock()
		return
	}
	// Magnitude""","""	net := v.currentVector()
	if v.useCachedGate && !v.cachedAt.IsZero() {
		net = v.cachedNet.Load() // the refresher has already scanned the stripes
	}
	if net == 0 {
		v.tryMu.Unlock()
		return
	}
	// Magnitude""")] if False else [('vsa.go',"""	if net == 0 {
		v.tryMu.Unlock()
		return
	}
	// Magnitude""","""	if v.useCachedGate && abs(v.cachedNet.Load()) > abs(net) {
		net = v.cachedNet.Load()
	}
	if net == 0 {
		v.tryMu.Unlock()
		return
	}
	// Magnitude""")],'.',"""
package vsa
import ("testing"; "time")
func TestDemo(t *testing.T) {
	v := NewWithOptions(1000, Options{UseCachedGate: true, CacheInterval: 20 * time.Millisecond})
	defer v.Close()
	v.Update(100)
	time.Sleep(100 * time.Millisecond)
	v.cacheInterval = time.Hour
	v.Update(-60) // 40 pending, the cache may still say 100
	a := v.Available()
	v.Commit(100)
	if v.Available() != a { t.Fatalf("availability %d became %d", a, v.Available()) }
}
""",'the cached gate on, a cached net that is larger than the present one, and a commit of more than is pending','the commit folds more than is pending, so availability changes')
bug('V04-commit-outside-lock','V04',[('vsa.go',"""	v.tryMu.Lock()
	// Recompute current net under the lock to derive a safe, aligned delta.
	net := v.currentVector()
	if net == 0 {
		v.tryMu.Unlock()
		return
	}
""","""	// Recompute current net to derive a safe, aligned delta.
	net := v.currentVector()
	if net == 0 {
		return
	}
	v.tryMu.Lock()
""")],'.',"""
package vsa
import ("testing"; "sync"; "time")
func TestDemo(t *testing.T) {
	end := time.Now().Add(20 * time.Second)
	for time.Now().Before(end) {
		v := NewWithOptions(100, Options{Stripes: 64})
		v.TryConsume(10)
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := 0; i < 8; i++ { wg.Add(1); go func() { defer wg.Done(); <-start; v.Commit(10) }() }
		close(start); wg.Wait()
		if v.Available() != 90 { t.Fatalf("available %d after concurrent commits of ten pending units", v.Available()) }
	}
}
""",'two commits of the same key that both compute the net before either takes the lock','the same pending units are folded twice')
