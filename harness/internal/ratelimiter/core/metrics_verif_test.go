package core

import (
	"errors"
	"fmt"
	"io"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/prometheus/client_golang/prometheus"

	"vsa/internal/ratelimiter/telemetry/churn"
)

// report runs the final report and returns what it printed.
func report(p Persister) string {
	r, w, err := os.Pipe()
	if err != nil {
		return ""
	}
	o := os.Stdout
	os.Stdout = w
	done := make(chan []byte)
	go func() { b, _ := io.ReadAll(r); done <- b }()
	p.PrintFinalMetrics()
	w.Close()
	os.Stdout = o
	b := <-done
	r.Close()
	return string(b)
}

func counts(rep string) map[string]int64 {
	m := map[string]int64{}
	for _, f := range regexp.MustCompile(`(?m)^(\w+)\s+(-?\d+)\s*$`).FindAllStringSubmatch(rep, -1) {
		n, _ := strconv.ParseInt(f[2], 10, 64)
		m[f[1]] = n
	}
	return m
}

// ---- M01

func TestVerif_M01_Totals(t *testing.T) {
	defer quiet()()
	v := verif(t, "M01", 0.25)
	for v.more() {
		a, b, c := getEventTotals()
		w := [3]int64{a, b, c}
		fs := []func(int64){RecordAttempt, RecordAdmit, RecordRefund}
		names := []string{"RecordAttempt", "RecordAdmit", "RecordRefund"}
		for i, n := 0, 1+v.intn(20); i < n; i++ {
			k, x := v.intn(3), v.num(0)
			v.did("%s(%d)", names[k], x)
			v.safe(names[k], func() { fs[k](x) })
			if x > 0 {
				w[k] += x
			}
			a, b, c := getEventTotals()
			if g := [3]int64{a, b, c}; g != w {
				v.fail("totals are %v, want %v", g, w)
			}
		}
		// from many goroutines
		ng, per := 2+v.intn(6), 1+v.intn(40)
		v.did("%d goroutines record 1, 0 and -1 %d times", ng, per)
		var wg sync.WaitGroup
		for g := 0; g < ng; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < per; i++ {
					for _, f := range fs {
						f(1)
						f(0)
						f(-1)
					}
				}
			}()
		}
		wg.Wait()
		a, b, c = getEventTotals()
		for i := range w {
			w[i] += int64(ng * per)
		}
		if g := [3]int64{a, b, c}; g != w {
			v.fail("totals are %v, want %v", g, w)
		}
		for n, x := range counts(report(NewMockPersister())) {
			i := map[string]int{"Attempted": 1, "Admits": 2, "Refunds": 3}[n]
			if i > 0 && x != w[i-1] {
				v.fail("the report says %s %d, want %d", n, x, w[i-1])
			}
		}
		resetEventTotals()
	}
	v.covered("recorded amounts")
}

func TestVerif_M01_Persister(t *testing.T) {
	defer quiet()()
	v := verif(t, "M01", 0.25)
	for v.more() {
		p := NewMockPersister()
		m, ok := p.(*mockPersister)
		if !ok {
			t.Skip("another demo persister")
		}
		var rows, batches, sum int64
		batch := func() []Commit {
			b := []Commit{}
			for i, n := 0, v.intn(5); i < n; i++ {
				b = append(b, Commit{Key: kKey(v.intn(20)), Vector: v.num(1 << 55)})
			}
			return b
		}
		add := func(b []Commit) {
			if len(b) == 0 {
				return
			}
			batches++
			rows += int64(len(b))
			for _, c := range b {
				if c.Vector < 0 {
					sum -= c.Vector
				} else {
					sum += c.Vector
				}
			}
		}
		for i, n := 0, v.intn(5); i < n; i++ {
			b := batch()
			v.did("%v", b)
			cp := append([]Commit(nil), b...)
			v.safe("CommitBatch", func() {
				if err := p.CommitBatch(b); err != nil {
					v.fail("CommitBatch: %v", err)
				}
			})
			if fmt.Sprint(cp) != fmt.Sprint(b) {
				v.fail("the batch %v becomes %v", cp, b)
			}
			add(b)
		}
		bs := make([][]Commit, 2+v.intn(6))
		for i := range bs {
			bs[i] = batch()
			add(bs[i])
		}
		v.did("at once: %v", bs)
		var wg sync.WaitGroup
		for _, b := range bs {
			wg.Add(1)
			go func(b []Commit) { defer wg.Done(); _ = p.CommitBatch(b) }(b)
		}
		wg.Wait()
		if m.totalBatches != batches || m.totalWrites != rows || m.totalRequests != sum {
			v.fail("totals are %d batches, %d rows and %d, want %d, %d and %d", m.totalBatches, m.totalWrites, m.totalRequests, batches, rows, sum)
		}
		for n, x := range counts(report(p)) {
			if n == "Writes" && x != rows || n == "Batches" && x != batches {
				v.fail("the report says %s %d, want %d rows in %d batches", n, x, rows, batches)
			}
		}
	}
	v.covered("batches for the demo persister")
}

func TestVerif_M01_Thresholds(t *testing.T) {
	defer quiet()()
	v := verif(t, "M01", 0.2)
	for v.more() {
		resetThresholdsForTests()
		want := map[string]string{}
		for i, n := 0, v.intn(12); i < n; i++ {
			k := []string{"a", "b", "", "commit_threshold", "rate limit", "Attempted", "A"}[v.intn(7)]
			switch v.intn(5) {
			case 0:
				x := []string{"", "x", "1", "a b"}[v.intn(4)]
				v.did("SetThreshold(%q, %q)", k, x)
				SetThreshold(k, x)
				want[k] = x
			case 1:
				x := v.num(0)
				v.did("SetThresholdInt64(%q, %d)", k, x)
				SetThresholdInt64(k, x)
				want[k] = fmt.Sprint(x)
			case 2:
				d := time.Duration(v.num(0))
				v.did("SetThresholdDuration(%q, %d)", k, d)
				SetThresholdDuration(k, d)
				want[k] = d.String()
			case 3:
				f := []float64{0, 0.5, 1e9, -3, 1.0 / 3}[v.intn(5)]
				v.did("SetThresholdFloat64(%q, %v)", k, f)
				SetThresholdFloat64(k, f)
				want[k] = strconv.FormatFloat(f, 'g', -1, 64)
			default:
				b := v.coin()
				v.did("SetThresholdBool(%q, %v)", k, b)
				SetThresholdBool(k, b)
				want[k] = strconv.FormatBool(b)
			}
		}
		got := getThresholdSnapshot()
		if fmt.Sprint(got) != fmt.Sprint(want) {
			v.fail("the registry holds %q, want %q", got, want)
		}
		got["new"] = "x"
		if g := getThresholdSnapshot(); fmt.Sprint(g) != fmt.Sprint(want) {
			v.fail("writing to a snapshot changes the registry to %q", g)
		}
		rep := report(NewMockPersister())
		var ks []string
		for k := range want {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if k != "" && want[k] != "" && !regexp.MustCompile(`(?m)^`+regexp.QuoteMeta(k)+`\s+`+regexp.QuoteMeta(want[k])+`\s*$`).MatchString(rep) && strings.Contains(rep, "Configured thresholds") {
				v.fail("the report does not give %q as %q", k, want[k])
			}
		}
		// concurrently
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 20; i++ {
					SetThresholdInt64(fmt.Sprintf("g%d.%d", g, i%5), int64(i))
					getThresholdSnapshot()
				}
			}(g)
		}
		wg.Wait()
		m := getThresholdSnapshot()
		for g := 0; g < 4; g++ {
			for i := 15; i < 20; i++ {
				if x := m[fmt.Sprintf("g%d.%d", g, i%5)]; x != fmt.Sprint(i) {
					v.fail("the last value of g%d.%d is %q, want %d", g, i%5, x, i)
				}
			}
		}
	}
	resetThresholdsForTests()
	v.covered("threshold registries")
}

// ---- C01

func churnTotals(v *vf) map[string]float64 {
	fs, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		v.t.Skip(err)
	}
	m := map[string]float64{}
	for _, f := range fs {
		if strings.HasPrefix(f.GetName(), "vsa_") && len(f.GetMetric()) == 1 && f.GetMetric()[0].GetCounter() != nil {
			m[f.GetName()] = f.GetMetric()[0].GetCounter().GetValue()
		}
	}
	return m
}

// Every batch the worker writes, in any cycle, is reported with its rows, and every failed one once.
func TestVerif_C01_Worker(t *testing.T) {
	defer quiet()()
	v := verif(t, "C01", 0.3)
	defer churn.Enable(churn.Config{})
	for v.more() {
		on := v.intn(5) > 0
		churn.Enable(churn.Config{Enabled: on, SampleRate: 1})
		s := NewStore(1000000)
		r := &kRec{}
		r.on = func(int, []Commit) error {
			if v.intn(4) == 0 {
				return errors.New("refused")
			}
			return nil
		}
		w := NewWorker(s, r, int64(1+v.intn(5)), 0, time.Hour, 0, time.Nanosecond, time.Hour)
		for i, n := 0, 1+v.intn(6); i < n; i++ {
			for j := 0; j < 4; j++ {
				x := int64(v.intn(13) - 6)
				k := kKey(v.intn(4))
				v.did("%s%+d", k, x)
				s.GetOrCreate(k).Update(x)
			}
			before := churnTotals(v)
			b0 := len(r.batches)
			switch v.intn(3) {
			case 0:
				v.did("commit cycle")
				v.safe("runCommitCycle", w.runCommitCycle)
			case 1:
				v.did("final flush")
				v.safe("runFinalFlush", w.runFinalFlush)
			case 2:
				time.Sleep(time.Microsecond)
				v.did("eviction cycle")
				v.safe("runEvictionCycle", w.runEvictionCycle)
			}
			rows, errs := 0, 0
			for i := b0; i < len(r.batches); i++ {
				if r.oks[i] {
					rows += len(r.batches[i])
				} else {
					errs++
				}
			}
			if !on {
				rows, errs = 0, 0
			}
			now := churnTotals(v)
			if d := now["vsa_commits_rows_total"] - before["vsa_commits_rows_total"]; d != float64(rows) {
				v.fail("the row counter grew by %v for %d rows written (telemetry enabled: %v)", d, rows, on)
			}
			if d := now["vsa_commit_errors_total"] - before["vsa_commit_errors_total"]; d != float64(errs) {
				v.fail("the failure counter grew by %v for %d failed batches (telemetry enabled: %v)", d, errs, on)
			}
			if d := now["vsa_naive_writes_total"] - before["vsa_naive_writes_total"]; d != 0 {
				v.fail("a cycle added %v baseline writes", d)
			}
		}
	}
	v.covered("rows and failures reported by commit cycles, final flushes and eviction cycles")
}
