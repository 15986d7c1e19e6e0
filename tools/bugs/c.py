import sys; sys.path.insert(0,'/verif/tools')
from bug import bug
C='internal/ratelimiter/core/'
T='internal/ratelimiter/telemetry/churn/'
W='''
package core
import ("errors";"testing";"time";"github.com/prometheus/client_golang/prometheus";"vsa/internal/ratelimiter/telemetry/churn")
type flaky struct { fail bool }
func (f *flaky) CommitBatch(b []Commit) error { if f.fail { return errors.New("down") }; return nil }
func (f *flaky) PrintFinalMetrics() {}
func total(name string) float64 {
	fs, _ := prometheus.DefaultGatherer.Gather()
	for _, f := range fs { if f.GetName() == name { return f.GetMetric()[0].GetCounter().GetValue() } }
	return -1
}
'''
bug('C01-batch-before-write','C01',[(C+'worker.go','''	// Persist the batch of commits.
	err := w.persister''','''	// Telemetry: record the batch, then persist it.
	churn.ObserveBatch(len(commits))
	err := w.persister'''),(C+'worker.go','''	// Telemetry: record batch size and per-key vectors
	churn.ObserveBatch(len(commits))
	for _, c''','''	// Telemetry: record per-key vectors
	for _, c''')],C[:-1],W+'''
func TestDemo(t *testing.T) {
	churn.Enable(churn.Config{Enabled: true, SampleRate: 1})
	defer churn.Enable(churn.Config{})
	s, p := NewStore(1000), &flaky{fail: true}
	w := NewWorker(s, p, 2, 0, time.Hour, 0, time.Hour, time.Hour)
	s.GetOrCreate("a").Update(3)
	n := total("vsa_commits_rows_total")
	w.runCommitCycle()
	p.fail = false
	w.runCommitCycle()
	if d := total("vsa_commits_rows_total") - n; d != 1 { t.Fatalf("%v rows counted, one was written", d) }
}
''','a commit cycle whose write fails, with telemetry enabled','rows of a batch that was never written are counted, and counted again by its retry')
bug('C01-error-per-row','C01',[(C+'worker.go','''		// First-class KPI: record commit error on final flush
		churn.ObserveCommitError(1)''','''		// First-class KPI: record commit error on final flush
		churn.ObserveCommitError(len(vectorsToCommit))''')],C[:-1],W+'''
func TestDemo(t *testing.T) {
	churn.Enable(churn.Config{Enabled: true, SampleRate: 1})
	defer churn.Enable(churn.Config{})
	s, p := NewStore(1000), &flaky{fail: true}
	w := NewWorker(s, p, 2, 0, time.Hour, 0, time.Hour, time.Hour)
	s.GetOrCreate("a").Update(3)
	s.GetOrCreate("b").Update(1)
	n := total("vsa_commit_errors_total")
	w.runFinalFlush()
	if d := total("vsa_commit_errors_total") - n; d != 1 { t.Fatalf("%v failures counted for one failed batch", d) }
}
''','a final flush of several keys that fails, with telemetry enabled','one failed batch is counted as several failures')
bug('C01-rate-zero-samples','C01',[(T+'prom_counters.go','''	if thr == 0 {
		return false
	}
	h := hashKey(key)
''','''	h := hashKey(key)
''')],T[:-1],'''
package churn
import "testing"
func TestDemo(t *testing.T) {
	Enable(Config{Enabled: true, SampleRate: 0})
	defer Enable(Config{})
	if sampled("\\xd5\\x6b\\xb9\\x53\\x42\\x87\\x08\\x36") { t.Fatal("a key is sampled at rate zero") }
}
''','a key whose hash is zero, at rate zero','rate zero no longer samples no key: zero is also a valid inclusive threshold')
bug('C01-unkeyed-baseline','C01',[(T+'prom_counters.go','''		naiveWritesTotal.Inc()
		// Increment unsampled naive baseline so write_reduction_est remains accurate even at low sampling rates
		naiveWritesAll.Add(1)
		if key != "" && sampled(key) {
''','''		if key == "" {
			return
		}
		naiveWritesTotal.Inc()
		// Increment unsampled naive baseline so write_reduction_est remains accurate even at low sampling rates
		naiveWritesAll.Add(1)
		if sampled(key) {
''')],T[:-1],'''
package churn
import ("testing";"github.com/prometheus/client_golang/prometheus/testutil")
func TestDemo(t *testing.T) {
	Enable(Config{Enabled: true, SampleRate: 1})
	defer Enable(Config{})
	n := testutil.ToFloat64(naiveWritesTotal)
	ObserveRequest("", true)
	ObserveRequest("a", true)
	if d := testutil.ToFloat64(naiveWritesTotal) - n; d != 2 { t.Fatalf("two admitted requests counted as %v", d) }
}
''','an admitted request observed without a key','it is missing from the baseline of writes')
