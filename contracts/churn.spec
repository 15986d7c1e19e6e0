// Counters. $prom is what was added to a counter.
package vsa/internal/ratelimiter/telemetry/churn

def cnt(k) = ghost("$prom", k)
def naive() = payload(naiveWritesTotal)
def rows() = payload(commitsRowsTotal)
def errors() = payload(commitErrorsTotal)
def on() = modEnabled
def rank(f) = app("frank", f)
def only(k, c, n) = cnt(k) == old(cnt(k)) + ite(k == c, n, 0)

contract ObserveRequest(key, admitted)
  option client quiet
  option safety C01
  any k
  ensures[C01] "one baseline write per admitted request" cnt(naive()) == old(cnt(naive())) + ite(on() && admitted, 1, 0)
  ensures[C01] "the baseline of the summary" naiveWritesAll == wrap64(old(naiveWritesAll) + ite(on() && admitted, 1, 0))
  ensures[C01] "no other counter" implies(k != naive(), cnt(k) == old(cnt(k))) && commitRowsInternal == old(commitRowsInternal)
  ensures[C01] "nothing per key while disabled" implies(!on() || !admitted, naiveWritesInternal == old(naiveWritesInternal) && sumAbsGlobal == old(sumAbsGlobal))
  ensures[C01] "per key exactly when sampled" implies(on() && admitted && key != "", naiveWritesInternal == wrap64(old(naiveWritesInternal) + ite(picked(key), 1, 0)))
  ensures[C01] "still as enabled as before" iff(on(), old(on())) && samplingThreshold == old(samplingThreshold)

contract ObserveBatch(n)
  option client quiet
  option safety C01
  any k
  ensures[C01] "the rows of the batch" cnt(rows()) == old(cnt(rows())) + ite(on() && n > 0, n, 0)
  ensures[C01] "the rows of the summary" commitRowsInternal == wrap64(old(commitRowsInternal) + ite(on() && n > 0, n, 0))
  ensures[C01] "no other counter" implies(k != rows(), cnt(k) == old(cnt(k))) && naiveWritesAll == old(naiveWritesAll)
  ensures[C01] "one observation per batch" ghost("$hist", payload(rowsPerBatch)) == old(ghost("$hist", payload(rowsPerBatch))) + ite(on() && n > 0, 1, 0)

contract ObserveCommit(key, vec)
  option client quiet
  option safety C01
  any k
  ensures[C01] "no counter" cnt(k) == old(cnt(k)) && naiveWritesAll == old(naiveWritesAll) && commitRowsInternal == old(commitRowsInternal)
  ensures[C01] "nothing per key while disabled" implies(!on() || key == "" || vec == 0 || !picked(key), sumNetGlobal == old(sumNetGlobal))

contract ObserveCommitError(n)
  option client quiet
  option safety C01
  any k
  ensures[C01] "the failures" cnt(errors()) == old(cnt(errors())) + ite(on() && n > 0, n, 0)
  ensures[C01] "no other counter" implies(k != errors(), cnt(k) == old(cnt(k))) && naiveWritesAll == old(naiveWritesAll) && commitRowsInternal == old(commitRowsInternal)

// the sampling decision
def hash(key) = app("fnv.sum", app("fnv.str", app("fnv.init"), key))
def picked(key) = samplingThreshold != 0 && hash(key) <= samplingThreshold

contract sampled(key) (b)
  option safety C01
  ensures[C01] "a function of the key and the rate" iff(b, picked(key))
  ensures[C01] "no key at rate zero" implies(samplingThreshold == 0, !b)
  ensures[C01] "every key at rate one" implies(samplingThreshold == 18446744073709551615, b)

contract Enabled() (b)
  ensures[C01] "as configured" iff(b, on())

contract Enable(cfg)
  option safety C01
  option stub startOrUpdateExporter:updated startMetricsEndpoint:served
  requires ghost("$updated") == 0 && ghost("$served") == 0
  ensures[C01] "on exactly when asked for" iff(on(), cfg.Enabled)
  ensures[C01] "rate zero or less samples no key" implies(!bapp("fnan", cfg.SampleRate) && rank(cfg.SampleRate) <= 0, samplingThreshold == 0)
  ensures[C01] "rate one or more samples every key" implies(!bapp("fnan", cfg.SampleRate) && rank(cfg.SampleRate) >= 4607182418800017408, samplingThreshold == 18446744073709551615)
  ensures[C01] "no counter" cnt(naive()) == old(cnt(naive())) && cnt(rows()) == old(cnt(rows())) && cnt(errors()) == old(cnt(errors()))
  ensures[C01] "and the exporter is told" ghost("$updated") == 1
