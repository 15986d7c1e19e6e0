package vsa

import (
	"fmt"
	"math"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// driver of the accumulator against its abstract state (S, N)

const vLim = int64(1) << 60

func vAbs(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}
func vMin(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func (v *vf) opts(cached, fast bool) Options {
	small := func() int {
		return []int{0, 0, -1, 1, 2, 3, 5, 7, 8, 9, 12, 16, 31, 33, 63, 64, 65, 100, 1 << 20, math.MaxInt, math.MinInt, -5}[v.intn(22)]
	}
	o := Options{Stripes: small(), CheapUpdateChooser: v.intn(4) == 0, PerPUpdateChooser: v.intn(4) == 0}
	if v.coin() {
		o.GroupCount = small()
		o.GroupSlack = v.num(0)
	}
	if v.coin() {
		o.HierarchicalGroups = small()
	}
	if cached && v.intn(3) == 0 {
		o.UseCachedGate = true
		o.CacheInterval = []time.Duration{0, -1, time.Hour, time.Nanosecond, math.MinInt64}[v.intn(5)]
		o.CacheSlack = v.num(0)
	}
	if fast && v.intn(3) == 0 {
		o.FastPathGuard = v.num(0)
	}
	return o
}

type vModel struct{ S, N int64 }

func (m vModel) avail() int64 { return m.S - vAbs(m.N) }

// stepwise drives one accumulator; want selects the clause the property owns.
func vDrive(v *vf, own map[string]bool, cached, fast bool) {
	for v.more() {
		o := v.opts(cached, fast)
		s0 := v.num(vLim)
		if v.coin() {
			s0 = int64(v.intn(200))
		}
		v.did("NewWithOptions(%d, %+v)", s0, o)
		var a *VSA
		mk := func() { a = NewWithOptions(s0, o) }
		if own["panic"] {
			v.safe("construction", mk)
		} else {
			mk()
		}
		m := vModel{s0, 0}
		check := func(kind, what string) {
			s, n := a.State()
			if own[kind] && (s != m.S || n != m.N) {
				v.fail("%s: state (%d,%d), expected (%d,%d) with options %+v", what, s, n, m.S, m.N, o)
			}
			if av := a.Available(); own["avail"] && av != s-vAbs(n) {
				v.fail("after %s availability %d is not %d-|%d|, options %+v", what, av, s, n, o)
			}
			s2, n2 := a.State()
			if own["read"] && (s2 != s || n2 != n) {
				v.fail("reading changed (%d,%d) to (%d,%d)", s, n, s2, n2)
			}
			if av := a.Available(); own["avail"] && av != m.avail() && own["hist"] {
				v.fail("after %s availability %d, the history gives %d", what, av, m.avail())
			}
			m = vModel{s2, n2}
		}
		check("new", "construction")
		steps := 1 + v.intn(40)
		run := func() {
			for i := 0; i < steps; i++ {
				switch v.intn(7) {
				case 0, 1:
					x := v.num(0)
					if r := m.N + x; x > vLim || x < -vLim || r > vLim || r < -vLim {
						x = 1
					}
					v.did("Update(%d)", x)
					a.Update(x)
					m.N += x
					check("update", fmt.Sprintf("Update(%d)", x))
				case 2, 3:
					x := v.num(0)
					if v.coin() && m.avail() > 0 {
						x = m.avail() + int64(v.intn(5)) - 2
					}
					if r := m.N + x; x > 0 && r > 2*vLim {
						x = 1
					}
					pre := m
					ok := a.TryConsume(x)
					v.did("TryConsume(%d)=%v", x, ok)
					if own["grant"] && ok && (x <= 0 || pre.avail() < x) {
						v.fail("TryConsume(%d) granted with availability %d, options %+v", x, pre.avail(), o)
					}
					if own["deny"] && !ok && x > 0 && pre.avail() >= x && !o.UseCachedGate {
						v.fail("TryConsume(%d) denied with availability %d, options %+v", x, pre.avail(), o)
					}
					if ok {
						m.N += x
					}
					check("consume", fmt.Sprintf("TryConsume(%d)=%v", x, ok))
					if own["grant"] && ok && pre.N >= 0 && a.Available() != pre.avail()-x {
						v.fail("granted %d, availability went from %d to %d", x, pre.avail(), a.Available())
					}
				case 4:
					x := v.num(0)
					if v.coin() {
						x = m.N + int64(v.intn(3)) - 1
					}
					pre := m
					ok := a.TryRefund(x)
					v.did("TryRefund(%d)=%v", x, ok)
					if own["refund"] && ok != (x > 0 && pre.N > 0) {
						v.fail("TryRefund(%d)=%v with pending %d", x, ok, pre.N)
					}
					if ok {
						m.N -= vMin(x, m.N)
					}
					check("refund", fmt.Sprintf("TryRefund(%d)=%v with pending %d", x, ok, pre.N))
				case 5:
					x := v.num(0)
					if v.coin() {
						x = m.N
					}
					pre := m
					v.did("Commit(%d)", x)
					a.Commit(x)
					k := vMin(vAbs(x), vAbs(m.N))
					if x == math.MinInt64 {
						k = vAbs(m.N)
					}
					m.S -= k
					if m.N > 0 {
						m.N -= k
					} else {
						m.N += k
					}
					check("commit", fmt.Sprintf("Commit(%d) of (%d,%d)", x, pre.S, pre.N))
					if own["commit"] && a.Available() != pre.avail() {
						v.fail("Commit(%d) changed availability %d to %d", x, pre.avail(), a.Available())
					}
				case 6:
					x := v.num(0)
					if v.coin() {
						x = vAbs(m.N) + int64(v.intn(3)) - 1
					}
					yes, n := a.CheckCommit(x)
					v.did("CheckCommit(%d)=%v,%d", x, yes, n)
					if own["checkcommit"] && (yes != (vAbs(m.N) >= x) || yes && n != m.N) {
						v.fail("CheckCommit(%d)=(%v,%d) with pending %d", x, yes, n, m.N)
					}
					check("read", fmt.Sprintf("CheckCommit(%d)", x))
				}
			}
		}
		if own["panic"] {
			v.safe("an operation", run)
		} else {
			run()
		}
		a.Close()
	}
	v.covered("random operation sequences over random option values")
}

func vOwn(s string) map[string]bool {
	m := map[string]bool{}
	for _, k := range strings.Fields(s) {
		m[k] = true
	}
	return m
}

func TestVerif_V01_state(t *testing.T) {
	vDrive(verif(t, "V01", 1), vOwn("new avail read update consume refund commit hist checkcommit"), true, true)
}
func TestVerif_V02_commit(t *testing.T) {
	vDrive(verif(t, "V02", 1), vOwn("commit"), true, true)
}
func TestVerif_V03_gate(t *testing.T) {
	vDrive(verif(t, "V03", 1), vOwn("grant deny consume"), true, true)
}
func TestVerif_V05_refund(t *testing.T) {
	vDrive(verif(t, "V05", 1), vOwn("refund"), true, true)
}
func TestVerif_V06_options(t *testing.T) {
	vDrive(verif(t, "V06", 0.4), vOwn("panic new"), true, true)
}

// the same operations give the same answers whatever the options
func TestVerif_V06_equivalent(t *testing.T) {
	v := verif(t, "V06", 0.6)
	for v.more() {
		s0 := int64(v.intn(300))
		if v.intn(4) == 0 {
			s0 = v.num(vLim)
		}
		var as []*VSA
		var os []Options
		for i := 0; i < 4; i++ {
			o := v.opts(false, false)
			if i == 0 {
				o = Options{}
			}
			as, os = append(as, NewWithOptions(s0, o)), append(os, o)
		}
		v.did("scalar %d options %+v", s0, os)
		for i := 0; i < 30; i++ {
			op, x := v.intn(6), v.num(1<<40)
			var first string
			for j, a := range as {
				var r string
				switch op {
				case 0:
					a.Update(x)
				case 1, 2:
					r = fmt.Sprint(a.TryConsume(x))
				case 3:
					r = fmt.Sprint(a.TryRefund(x))
				case 4:
					a.Commit(x)
				case 5:
					r = fmt.Sprint(a.CheckCommit(x))
				}
				s, n := a.State()
				r += fmt.Sprint(" state ", s, n, " avail ", a.Available())
				if j == 0 {
					first = r
					v.did("op%d(%d)->%s", op, x, r)
				} else if r != first {
					v.fail("operation %d(%d) gives %q with options %+v and %q with the default", op, x, r, os[j], first)
				}
			}
		}
	}
	v.covered("operation sequences in four configurations each")
}

// concurrent gated operations
func TestVerif_V04_concurrent(t *testing.T) {
	v := verif(t, "V04", 1)
	for v.more() {
		o := v.opts(true, false)
		budget := int64(v.intn(2000))
		a := NewWithOptions(budget, o)
		v.did("budget %d, options %+v, 8 goroutines", budget, o)
		var granted atomic.Int64
		var bad atomic.Value
		stop := make(chan struct{})
		var rd, wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			rd.Add(1)
			go func() {
				defer rd.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					if av := a.Available(); av < 0 {
						bad.Store(fmt.Sprintf("Available() = %d during concurrent operations", av))
					}
					s, n := a.State()
					if s-vAbs(n) < 0 || n < 0 {
						bad.Store(fmt.Sprintf("State() = (%d,%d) during concurrent operations", s, n))
					}
				}
			}()
		}
		for g := 0; g < 6; g++ {
			seed := v.rng.Int63()
			kind := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				x := uint64(seed)*2 + 1
				next := func(n uint64) int64 {
					x ^= x << 13
					x ^= x >> 7
					x ^= x << 17
					return int64(x % n)
				}
				for i := 0; i < 400; i++ {
					switch {
					case kind < 4:
						n := 1 + next(9)
						if a.TryConsume(n) {
							granted.Add(n)
						} else if next(8) == 0 {
							runtime.Gosched()
						}
					case kind == 4:
						// refund one unit at a time: success means exactly one unit came back
						if granted.Load() > 0 && a.TryRefund(1) {
							granted.Add(-1)
						}
					default:
						if ok, n := a.CheckCommit(1); ok {
							a.Commit(n)
						}
					}
				}
			}()
		}
		wg.Wait()
		close(stop)
		rd.Wait()
		if m := bad.Load(); m != nil {
			v.fail("%s, options %+v", m, o)
		}
		s, n := a.State()
		if g := granted.Load(); g > budget {
			v.fail("granted %d of a budget of %d, options %+v", g, budget, o)
		} else if s-vAbs(n) != budget-g || n < 0 {
			v.fail("granted %d of %d but state is (%d,%d), options %+v", g, budget, s, n, o)
		}
		a.Close()
	}
	v.covered("schedules of eight goroutines")
}

func vGoroutines() int {
	buf := make([]byte, 1<<20)
	return strings.Count(string(buf[:runtime.Stack(buf, true)]), "vsa.(*VSA).")
}

func TestVerif_V07_background(t *testing.T) {
	v := verif(t, "V07", 0.6)
	base := vGoroutines()
	for v.more() {
		o := v.opts(true, true)
		if v.coin() {
			o.UseCachedGate = true
			o.CacheInterval = []time.Duration{0, -3, time.Nanosecond, time.Hour}[v.intn(4)]
		}
		a := NewWithOptions(int64(v.intn(100)), o)
		v.did("options %+v", o)
		runtime.Gosched()
		if !o.UseCachedGate && vGoroutines() != base {
			v.fail("a goroutine without the cached gate, options %+v", o)
		}
		if o.UseCachedGate && !eventually(2*time.Second, func() bool { return vGoroutines() == base+1 }) {
			v.fail("%d goroutines for one accumulator with the cached gate", vGoroutines()-base)
		}
		a.Update(v.num(1 << 40))
		a.Commit(v.num(1 << 40))
		s, n := a.State()
		v.safe("closing", func() {
			var wg sync.WaitGroup
			for i := 0; i < 1+v.intn(3); i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if e := recover(); e != nil {
							v.fail("a concurrent Close panics: %v", e)
						}
					}()
					a.Close()
				}()
			}
			wg.Wait()
			a.Close()
		})
		if s2, n2 := a.State(); s2 != s || n2 != n || a.Available() != s-vAbs(n) {
			v.fail("closing changed (%d,%d) to (%d,%d)", s, n, s2, n2)
		}
		if !eventually(2*time.Second, func() bool { return vGoroutines() == base }) {
			v.fail("the goroutine is still running after Close, options %+v", o)
		}
	}
	v.covered("constructions and closings")
}

// the gate's answers show what the refresher stored: with no slack and an idle accumulator, a
// covered request is granted once a refresh has happened.
func TestVerif_V07_refresh(t *testing.T) {
	v := verif(t, "V07", 0.4)
	for v.more() {
		o := v.opts(false, false)
		o.UseCachedGate, o.CacheInterval, o.CacheSlack = true, 20*time.Microsecond, 0
		o.GroupSlack = 0
		b := int64(10 + v.intn(1000))
		a := NewWithOptions(b, o)
		v.did("budget %d options %+v", b, o)
		n := b - int64(v.intn(5))
		if !a.TryConsume(n) {
			v.fail("a fresh accumulator denies %d of %d", n, b)
		}
		a.Commit(n / 2)
		want := n - n/2
		s, _ := a.State()
		if !eventually(5*time.Second, func() bool { return a.cachedNet.Load() == want }) {
			v.fail("the cached net is %d, the pending net has been %d for seconds", a.cachedNet.Load(), want)
		}
		// while it refreshes, commits and consumptions leave only nets that existed
		for i := 0; i < 200; i++ {
			a.TryRefund(1 << 40)
			a.TryConsume(5)
			_, p := a.State()
			a.Commit(p)
			if c := a.cachedNet.Load(); c != 0 && c != 5 && c != want {
				v.fail("cached net %d, but the pending net was only 0, 5 and %d", c, want)
			}
		}
		if s2, n2 := a.State(); s2 > s || n2 < 0 {
			v.fail("state (%d,%d) after (%d,..)", s2, n2, s)
		}
		a.Close()
	}
	v.covered("refreshes")
}
