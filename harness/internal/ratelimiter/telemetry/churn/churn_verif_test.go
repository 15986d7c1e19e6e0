package churn

import (
	"math"
	"sync"
	"testing"

	"github.com/prometheus/client_golang/prometheus"
	"github.com/prometheus/client_golang/prometheus/testutil"
)

func exported() map[string]float64 {
	m := map[string]float64{}
	for n, c := range map[string]prometheus.Collector{"naive": naiveWritesTotal, "rows": commitsRowsTotal, "errors": commitErrorsTotal} {
		m[n] = testutil.ToFloat64(c)
	}
	return m
}

func (v *vf) rate() float64 {
	switch v.intn(6) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return -v.rng.Float64()
	case 3:
		return 1 + v.rng.Float64()
	case 4:
		return v.rng.Float64() * math.Pow(2, -float64(v.intn(64)))
	}
	return v.rng.Float64()
}

func (v *vf) key() string {
	if v.intn(12) == 0 {
		return ""
	}
	if v.intn(12) == 0 {
		return "\xd5\x6b\xb9\x53\x42\x87\x08\x36" // its FNV-1a hash is zero
	}
	b := make([]byte, 1+v.intn(12))
	for i := range b {
		b[i] = byte(v.intn(256))
	}
	return string(b)
}

// ---- C01

func TestVerif_C01_Histories(t *testing.T) {
	v := verif(t, "C01", 0.4)
	defer Enable(Config{})
	for v.more() {
		rate, on := v.rate(), v.coin()
		set := func() {
			rate, on = v.rate(), v.coin()
			v.did("Enable(%v, rate %v)", on, rate)
			v.safe("Enable", func() { Enable(Config{Enabled: on, SampleRate: rate}) })
			if Enabled() != on {
				v.fail("Enabled() = %v after Enable(%v)", Enabled(), on)
			}
		}
		set()
		w := exported()
		for i, n := 0, 1+v.intn(40); i < n; i++ {
			b, na, si := naiveWritesAll.Load(), commitRowsInternal.Load(), naiveWritesInternal.Load()
			var db, dr, ds int64
			switch v.intn(6) {
			case 0:
				set()
			case 1, 2:
				k, ok := v.key(), v.coin()
				v.did("ObserveRequest(%q, %v)", k, ok)
				v.safe("ObserveRequest", func() { ObserveRequest(k, ok) })
				if on && ok {
					w["naive"]++
					db = 1
					if k != "" && sampled(k) {
						ds = 1
					}
				}
			case 3:
				k := v.intn(7) - 1
				if v.coin() {
					k = v.intn(2000) - 50
				}
				v.did("ObserveBatch(%d)", k)
				v.safe("ObserveBatch", func() { ObserveBatch(k) })
				if on && k > 0 {
					w["rows"] += float64(k)
					dr = int64(k)
				}
			case 4:
				k := v.intn(7) - 2
				v.did("ObserveCommitError(%d)", k)
				v.safe("ObserveCommitError", func() { ObserveCommitError(k) })
				if on && k > 0 {
					w["errors"] += float64(k)
				}
			case 5:
				k, n := v.key(), v.num(0)
				v.did("ObserveCommit(%q, %d)", k, n)
				v.safe("ObserveCommit", func() { ObserveCommit(k, n) })
			}
			for n, x := range exported() {
				if x != w[n] {
					v.fail("the %s counter is %v, want %v", n, x, w[n])
				}
			}
			if naiveWritesAll.Load()-b != db || commitRowsInternal.Load()-na != dr || naiveWritesInternal.Load()-si != ds {
				v.fail("the summary grew by %d writes (%d of sampled keys) and %d rows, want %d (%d) and %d", naiveWritesAll.Load()-b, naiveWritesInternal.Load()-si, commitRowsInternal.Load()-na, db, ds, dr)
			}
			k := v.key()
			got := sampled(k)
			switch {
			case got != sampled(k):
				v.fail("the decision for %q changes", k)
			case rate <= 0 && got:
				v.fail("rate %v samples %q", rate, k)
			case rate >= 1 && !got:
				v.fail("rate %v does not sample %q", rate, k)
			}
		}
	}
	v.covered("random histories of enabling, disabling and observing")
}

// The decision depends on the key and the rate only, not on when or how often it is asked.
func TestVerif_C01_Sampling(t *testing.T) {
	v := verif(t, "C01", 0.2)
	defer Enable(Config{})
	for v.more() {
		rate := v.rate()
		keys := make([]string, 1+v.intn(30))
		was := make([]bool, len(keys))
		v.did("rate %v", rate)
		Enable(Config{Enabled: true, SampleRate: rate})
		for i := range keys {
			keys[i] = v.key()
			was[i] = sampled(keys[i])
		}
		for n := 0; n < 3; n++ {
			if v.coin() {
				Enable(Config{Enabled: true, SampleRate: v.rate()})
				Enable(Config{Enabled: v.coin(), SampleRate: rate, TopN: v.intn(9)})
			}
			for j := range keys {
				i := v.intn(len(keys))
				if j == 0 {
					ObserveRequest(keys[i], true)
				}
				if sampled(keys[i]) != was[i] {
					v.fail("the decision for key %q changed from %v", keys[i], was[i])
				}
			}
		}
	}
	v.covered("the sampling decision of a key asked again")
}

func TestVerif_C01_Concurrent(t *testing.T) {
	v := verif(t, "C01", 0.2)
	defer Enable(Config{})
	for v.more() {
		rate := v.rate()
		Enable(Config{Enabled: true, SampleRate: rate})
		w := exported()
		g, n := 2+v.intn(6), 1+v.intn(60)
		v.did("%d goroutines, %d observations each, rate %v", g, n, rate)
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < n; j++ {
					ObserveRequest("k", j%3 != 0)
					ObserveBatch(j % 4)
					ObserveCommitError(j % 2)
				}
			}()
		}
		wg.Wait()
		for j := 0; j < n; j++ {
			if j%3 != 0 {
				w["naive"] += float64(g)
			}
			w["rows"] += float64(g * (j % 4))
			w["errors"] += float64(g * (j % 2))
		}
		for n, x := range exported() {
			if x != w[n] {
				v.fail("the %s counter is %v, want %v", n, x, w[n])
			}
		}
	}
	v.covered("concurrent observations")
}
