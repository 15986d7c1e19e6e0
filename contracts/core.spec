// The store and the background worker. Accumulators are seen through their contracts: S, N.
package vsa/internal/ratelimiter/core

def inst(m) = ref(m.instance)
def has_(s, k) = has(s.counters, k)
def Sk(s, k) = ghost("$S", s.counters[k].instance)
def Nk(s, k) = ghost("$N", s.counters[k].instance)

// different keys have different entries, and those have different accumulators
def existing(r) = 0 < r && r < 1099511627776
def R_store(s) = ref(s) != 0 && forall(kk, implies(has(s.counters, kk), existing(ref(s.counters[kk])) && existing(ref(s.counters[kk].instance)) && app("keyof", ref(s.counters[kk])) == kk && app("ownerof", ref(s.counters[kk].instance)) == ref(s.counters[kk])))
def domk(s) = forall(kk, implies(has(s.counters, kk), -big < Nk(s, kk) && Nk(s, kk) < big))
def big = 2305843009213693952

def batches() = ghost("$batches")
def blen() = ghost("$bLen")
def bkey(q) = ghost("$bKey", q)
def bvec(q) = ghost("$bVec", q)
def sent(k) = batches() == 1 && some(q, k, 0 <= q && q < blen() && bkey(q) == k)

contract Worker.runFinalFlush(w)
  option setup worker
  option safety K04
  option inverse vsa/internal/ratelimiter/core.Store.counters.vpay:keyof vsa/internal/ratelimiter/core.managedVSA.instance:ownerof
  any k q q2
  option count telemetry/churn.ObserveBatch:reported telemetry/churn.ObserveCommitError:failures
  requires ghost("$reported") == 0 && ghost("$failures") == 0
  requires R_store(w.store)
  requires w.cycleMu.held == 0 && w.persister != nil && ref(w) != 0
  requires ghost("$batches") == 0
  domain domk(w.store)
  at[K03,K04] "cycles exclude each other" vsa.VSA.State : w.cycleMu.held >= 1
  at[K03,K04] "cycles exclude each other" vsa.VSA.Commit : w.cycleMu.held >= 1
  at[K03,K04] "cycles exclude each other" invoke:vsa/internal/ratelimiter/core.Persister.CommitBatch : w.cycleMu.held >= 1
  ensures[K04] "at most one batch" batches() <= 1
  ensures[K04] "an empty batch is not sent" implies(batches() == 1, blen() > 0)
  ensures[K04] "only stored keys" implies(batches() == 1 && 0 <= q && q < blen(), has(w.store.counters, bkey(q)))
  ensures[K04] "only pending keys" implies(batches() == 1 && 0 <= q && q < blen(), bvec(q) != 0)
  ensures[K04] "each key with its exact vector" implies(batches() == 1 && 0 <= q && q < blen() && bkey(q) == k, bvec(q) == old(Nk(w.store, k)))
  ensures[K04] "each key once" implies(batches() == 1 && 0 <= q && q < q2 && q2 < blen(), bkey(q) != bkey(q2))
  ensures[K04] "every pending key" implies(has(w.store.counters, k) && old(Nk(w.store, k)) != 0, sent(k))

  ensures[K04] "after a successful write nothing is pending" implies(has(w.store.counters, k) && (batches() == 0 || bghost("$bOK")), Nk(w.store, k) == 0)
  ensures[K04] "a successful write folds each vector into its scalar" implies(has(w.store.counters, k) && (batches() == 0 || bghost("$bOK")), Sk(w.store, k) == old(Sk(w.store, k)) - abs(old(Nk(w.store, k))))
  ensures[K04] "after a failed write all is pending" implies(has(w.store.counters, k) && batches() == 1 && !bghost("$bOK"), Nk(w.store, k) == old(Nk(w.store, k)) && Sk(w.store, k) == old(Sk(w.store, k)))
  at[C01] "a batch is reported with its rows, once written" telemetry/churn.ObserveBatch : batches() == 1 && bghost("$bOK") && a0 == blen() && ghost("$reported") == 0
  at[C01] "rows are reported as written" telemetry/churn.ObserveCommit : bghost("$bOK") && sent(a0) && a1 == old(Nk(w.store, a0))
  at[C01] "a failed batch is reported as one failure" telemetry/churn.ObserveCommitError : batches() == 1 && !bghost("$bOK") && a0 == 1 && ghost("$failures") == 0
  ensures[C01] "every written batch is reported" ghost("$reported") == ite(batches() == 1 && bghost("$bOK"), 1, 0)
  ensures[C01] "every failed batch is reported" ghost("$failures") == ite(batches() == 1 && !bghost("$bOK"), 1, 0)

def low(w) = w.lowCommitThreshold
def armed(s, k) = s.counters[k].armed
def reach(w, k) = abs(Nk(w.store, k)) >= w.commitThreshold
def byThreshold(w, k) = reach(w, k) && (low(w) <= 0 || armed(w.store, k))
def idle(w, k) = w.commitMaxAge > 0 && Nk(w.store, k) != 0 && ghost("$now") - w.store.counters[k].lastAccessed >= w.commitMaxAge
def rearms(w, k) = low(w) > 0 && !reach(w, k) && abs(Nk(w.store, k)) <= low(w)

contract Worker.runCommitCycle(w)
  option merge yes
  option setup worker
  option safety K02
  option inverse vsa/internal/ratelimiter/core.Store.counters.vpay:keyof vsa/internal/ratelimiter/core.managedVSA.instance:ownerof
  any k q q2
  option count telemetry/churn.ObserveBatch:reported telemetry/churn.ObserveCommitError:failures
  requires ghost("$reported") == 0 && ghost("$failures") == 0
  requires R_store(w.store)
  requires w.cycleMu.held == 0 && w.persister != nil && ref(w) != 0
  requires ghost("$batches") == 0
  domain domk(w.store)
  cases low(w) <= 0
  cases w.commitMaxAge > 0
  at[K03,K04] "cycles exclude each other" vsa.VSA.State : w.cycleMu.held >= 1
  at[K03,K04] "cycles exclude each other" vsa.VSA.Commit : w.cycleMu.held >= 1
  at[K03,K04] "cycles exclude each other" invoke:vsa/internal/ratelimiter/core.Persister.CommitBatch : w.cycleMu.held >= 1
  ensures[K02] "at most one batch" batches() <= 1
  ensures[K02] "no batch when no key is eligible" implies(batches() == 1, blen() > 0)
  ensures[K02] "only stored keys" implies(batches() == 1 && 0 <= q && q < blen(), has(w.store.counters, bkey(q)))
  ensures[K02] "each key once" implies(batches() == 1 && 0 <= q && q < q2 && q2 < blen(), bkey(q) != bkey(q2))
  ensures[K02,K03] "each key with its exact vector" implies(batches() == 1 && 0 <= q && q < blen() && bkey(q) == k, bvec(q) == old(Nk(w.store, k)))
  ensures[K02] "no ineligible key" implies(batches() == 1 && 0 <= q && q < blen() && bkey(q) == k && !old(byThreshold(w, k)), old(Nk(w.store, k)) != 0 && w.commitMaxAge > 0 && ghost("$now") - old(w.store.counters[k].lastAccessed) >= w.commitMaxAge)
  ensures[K02] "every eligible key" implies(has(w.store.counters, k) && old(byThreshold(w, k) || idle(w, k)), sent(k))
  ensures[K02] "a key in a batch is disarmed" implies(low(w) > 0 && has(w.store.counters, k) && sent(k), !armed(w.store, k))
  ensures[K02] "a key is armed again only at the low watermark" implies(low(w) > 0 && has(w.store.counters, k) && armed(w.store, k), old(armed(w.store, k)) || old(rearms(w, k)))
  ensures[K02] "a key at the low watermark is armed again" implies(low(w) > 0 && has(w.store.counters, k) && (old(rearms(w, k)) || old(armed(w.store, k))) && !sent(k), armed(w.store, k))
  ensures[K03] "after a successful write the batch is folded in" implies(has(w.store.counters, k) && sent(k) && bghost("$bOK"), Nk(w.store, k) == 0 && Sk(w.store, k) == old(Sk(w.store, k)) - abs(old(Nk(w.store, k))))
  ensures[K03] "every other key is untouched" implies(has(w.store.counters, k) && !(sent(k) && bghost("$bOK")), Nk(w.store, k) == old(Nk(w.store, k)) && Sk(w.store, k) == old(Sk(w.store, k)))
  at[C01] "a batch is reported with its rows, once written" telemetry/churn.ObserveBatch : batches() == 1 && bghost("$bOK") && a0 == blen() && ghost("$reported") == 0
  at[C01] "rows are reported as written" telemetry/churn.ObserveCommit : bghost("$bOK") && sent(a0) && a1 == old(Nk(w.store, a0))
  at[C01] "a failed batch is reported as one failure" telemetry/churn.ObserveCommitError : batches() == 1 && !bghost("$bOK") && a0 == 1 && ghost("$failures") == 0
  ensures[C01] "every written batch is reported" ghost("$reported") == ite(batches() == 1 && bghost("$bOK"), 1, 0)
  ensures[C01] "every failed batch is reported" ghost("$failures") == ite(batches() == 1 && !bghost("$bOK"), 1, 0)

// The loops: cycles run until the stop is seen, then the final flush, once, and nothing after it.
contract Worker.commitLoop(w)
  option safety K04
  option setup worker
  option stub Worker.runCommitCycle:cycles Worker.runFinalFlush:final
  option signal w.stopChan
  requires ref(w) != 0 && ref(w.stopChan) != 0 && w.commitInterval > 0
  requires ghost("$final") == 0 && ghost("$stopseen") == 0
  at[K04] "no cycle after the stop" Worker.runCommitCycle : ghost("$stopseen") == 0 && ghost("$final") == 0
  at[K04] "the final flush runs on the stop" Worker.runFinalFlush : ghost("$stopseen") > 0 && ghost("$final") == 0
  keeps[K04] "running" ghost("$final") == 0 && ghost("$stopseen") == 0
  ensures[K04] "the loop ends only when told to stop" ghost("$stopseen") > 0
  ensures[K04] "one final flush" ghost("$final") == 1
  ensures[K04] "no goroutine" spawned() == 0

contract Worker.evictionLoop(w)
  option safety K04
  option setup worker
  option stub Worker.runEvictionCycle:cycles
  option signal w.stopChan
  requires ref(w) != 0 && ref(w.stopChan) != 0 && w.evictionInterval > 0
  requires ghost("$stopseen") == 0
  at[K04] "no cycle after the stop" Worker.runEvictionCycle : ghost("$stopseen") == 0
  keeps[K04] "running" ghost("$stopseen") == 0
  ensures[K04] "the loop ends only when told to stop" ghost("$stopseen") > 0
  ensures[K04] "no goroutine" spawned() == 0

contract Worker.Start(w)
  option safety K04
  option setup worker
  option spawn run
  option stub Worker.commitLoop:commits Worker.evictionLoop:evictions
  option count sync.WaitGroup.Done:done
  requires ref(w) != 0
  requires ghost("$commits") == 0 && ghost("$evictions") == 0 && ghost("$done") == 0 && ghost("$spawns") == 0 && w.wg.n == 0
  at[K04] "a goroutine is registered before it starts" go : w.wg.n >= 1
  at[K04] "a goroutine reports its end only after its loop" sync.WaitGroup.Done : ghost("$commits") + ghost("$evictions") > ghost("$done")
  ensures[K04] "both loops run, once" ghost("$commits") == 1 && ghost("$evictions") == 1
  ensures[K04] "each in a goroutine of its own" ghost("$spawns") == 2
  ensures[K04] "both ends are reported" ghost("$done") == 2 && w.wg.n == 0

def R_stop(w) = 0 <= w.stopped && w.stopped <= 1 && ref(w.stopChan) != 0 && implies(closed(w.stopChan), w.stopped == 1)

contract Worker.Stop(w)
  option safety K04
  option setup worker
  option race stop
  requires ref(w) != 0 && R_stop(w) && ghost("$wgwaits") == 0
  at[K04] "waiting begins after the loops are told" sync.WaitGroup.Wait : closed(w.stopChan)
  ensures[K04] "stopped" w.stopped == 1
  ensures[K04] "still consistent" R_stop(w)

contract Worker.Stop'first(w)
  option safety K04
  option setup worker
  requires ref(w) != 0 && R_stop(w) && ghost("$wgwaits") == 0
  ensures[K04] "the first stop tells the loops and waits for both" implies(old(w.stopped) == 0, closed(w.stopChan) && ghost("$wgwaits") == 1)
  ensures[K04] "stopping again does nothing" implies(old(w.stopped) == 1, ghost("$wgwaits") == 0 && iff(closed(w.stopChan), old(closed(w.stopChan))))

contract NewWorker(store, persister, hi, lo, ci, ma, ea, ei) (w)
  option safety K04
  ensures[K02,K03,K04,K05,G01] "with the given parts and settings" ref(w) != 0 && ref(w.store) == ref(store) && w.persister == persister && w.commitThreshold == hi && w.lowCommitThreshold == lo && w.commitInterval == ci && w.commitMaxAge == ma && w.evictionAge == ea && w.evictionInterval == ei
  ensures[K04] "not stopped" w.stopped == 0 && ref(w.stopChan) != 0 && !closed(w.stopChan) && R_stop(w)
  ensures[K03,K05] "no cycle is running" w.cycleMu.held == 0
  ensures[K04] "no goroutine" spawned() == 0

// Requests go on while a batch is written: what is folded is what was written, as far as it is
// still pending, and never anything consumed since.
def bN(s, k) = ghost("$bN", s.counters[k].instance)
def bS(s, k) = ghost("$bS", s.counters[k].instance)
def fold(s, k, v) = Sk(s, k) == bS(s, k) - min(abs(v), abs(bN(s, k))) && Nk(s, k) == ite(bN(s, k) > 0, bN(s, k) - min(abs(v), abs(bN(s, k))), bN(s, k) + min(abs(v), abs(bN(s, k))))

contract Worker.runFinalFlush'env(w)
  option setup worker
  option interference yes
  option inverse vsa/internal/ratelimiter/core.Store.counters.vpay:keyof vsa/internal/ratelimiter/core.managedVSA.instance:ownerof
  any k
  requires R_store(w.store)
  requires w.cycleMu.held == 0 && w.persister != nil && ref(w) != 0
  requires ghost("$batches") == 0
  domain domk(w.store)
  ensures[K03,K04] "a successful write folds what was written" implies(has(w.store.counters, k) && sent(k) && bghost("$bOK"), fold(w.store, k, old(Nk(w.store, k))))
  ensures[K03,K04] "and nothing else" implies(has(w.store.counters, k) && batches() == 1 && !(sent(k) && bghost("$bOK")), Sk(w.store, k) == bS(w.store, k) && Nk(w.store, k) == bN(w.store, k))

contract Worker.runCommitCycle'env(w)
  option merge yes
  option setup worker
  option interference yes
  option inverse vsa/internal/ratelimiter/core.Store.counters.vpay:keyof vsa/internal/ratelimiter/core.managedVSA.instance:ownerof
  any k
  requires R_store(w.store)
  requires w.cycleMu.held == 0 && w.persister != nil && ref(w) != 0
  requires ghost("$batches") == 0
  domain domk(w.store)
  cases low(w) <= 0
  cases w.commitMaxAge > 0
  ensures[K03] "a successful write folds what was written" implies(has(w.store.counters, k) && sent(k) && bghost("$bOK"), fold(w.store, k, old(Nk(w.store, k))))
  ensures[K03] "and nothing else" implies(has(w.store.counters, k) && batches() == 1 && !(sent(k) && bghost("$bOK")), Sk(w.store, k) == bS(w.store, k) && Nk(w.store, k) == bN(w.store, k))

def age(w) = w.evictionAge
def last(s, k) = s.counters[k].lastAccessed
def removed(s, k) = old(has(s.counters, k)) && !has(s.counters, k)
def tries(k) = ghost("$pcount", k)
def wrote(k) = ghost("$pok", k)

// One eviction cycle, for an arbitrary key: requests may have touched any key after the scan.
contract Worker.runEvictionCycle(w)
  option setup worker
  option safety K05
  option single yes
  option touch yes
  option merge yes
  option count vsa.VSA.Close:closes@0 telemetry/churn.ObserveBatch:reported telemetry/churn.ObserveCommitError:failures telemetry/churn.ObserveCommit:rowsof@0
  requires ghost("$reported") == 0 && ghost("$failures") == 0 && ghost("$oks") == 0 && ghost("$errs") == 0 && forall(kk, ghost("$rowsof", kk) == 0)
  option inverse vsa/internal/ratelimiter/core.Store.counters.vpay:keyof vsa/internal/ratelimiter/core.managedVSA.instance:ownerof
  any k
  requires R_store(w.store)
  requires w.cycleMu.held == 0 && w.persister != nil && ref(w) != 0
  requires forall(kk, tries(kk) == 0 && wrote(kk) == 0)
  requires forall(kk, ghost("$closes", kk) == 0)
  domain domk(w.store)
  at[K03,K05] "cycles exclude each other" vsa.VSA.State : w.cycleMu.held >= 1
  at[K03,K05] "cycles exclude each other" vsa.VSA.Commit : w.cycleMu.held >= 1
  at[K03,K05] "cycles exclude each other" invoke:vsa/internal/ratelimiter/core.Persister.CommitBatch : w.cycleMu.held >= 1
  ensures[K05] "no key appears" implies(has(w.store.counters, k), old(has(w.store.counters, k)))
  at[K05] "a key is removed only when still idle" sync.Map.LoadAndDelete : ghost("$now") - last(w.store, payload(a1)) > age(w)
  at[K05] "a key is removed only when still idle" sync.Map.Delete : ghost("$now") - last(w.store, payload(a1)) > age(w)
  at[K05] "nothing is pending when a key is removed" sync.Map.LoadAndDelete : Nk(w.store, payload(a1)) == 0
  at[K05] "nothing is pending when a key is removed" sync.Map.Delete : Nk(w.store, payload(a1)) == 0
  keeps[K05] "time goes on" ghost("$now") >= old(ghost("$now"))
  ensures[K05] "a pending vector is written once, exactly" tries(k) <= 1 && implies(tries(k) == 1, old(has(w.store.counters, k)) && ghost("$pvec", k) == old(Nk(w.store, k)) && old(Nk(w.store, k)) != 0)
  ensures[K05] "and before the key is removed" implies(removed(w.store, k) && old(Nk(w.store, k)) != 0, wrote(k) == 1)
  ensures[K05] "a failed write keeps the key and its vector" implies(tries(k) == 1 && wrote(k) == 0, has(w.store.counters, k) && Nk(w.store, k) == old(Nk(w.store, k)) && Sk(w.store, k) == old(Sk(w.store, k)))
  ensures[K05] "a kept key is intact" implies(has(w.store.counters, k) && tries(k) == 0, Nk(w.store, k) == old(Nk(w.store, k)) && Sk(w.store, k) == old(Sk(w.store, k)))
  ensures[K05] "what was written is folded in" implies(old(has(w.store.counters, k)) && wrote(k) == 1, Nk(w.store, k) == 0 && Sk(w.store, k) == old(Sk(w.store, k)) - abs(old(Nk(w.store, k))))
  ensures[K05] "every idle key is dealt with" implies(old(has(w.store.counters, k)) && old(ghost("$now")) - old(last(w.store, k)) > age(w) && old(ghost("$now")) - last(w.store, k) > age(w), removed(w.store, k) || tries(k) == 1 && wrote(k) == 0)
  ensures[K05] "a removed accumulator is shut down, a kept one is not" implies(old(has(w.store.counters, k)), iff(removed(w.store, k), ghost("$closes", w.store.counters[k].instance) >= 1))
  at[C01] "a written row is reported as a batch of one" telemetry/churn.ObserveBatch : a0 == 1 && ghost("$reported") < ghost("$oks")
  at[C01] "a failed write is reported as one failure" telemetry/churn.ObserveCommitError : a0 == 1 && ghost("$failures") < ghost("$errs")
  at[C01] "the row is reported as written" telemetry/churn.ObserveCommit : wrote(a0) == 1 && ghost("$rowsof", a0) == 0 && a1 == ghost("$pvec", a0)
  keeps[C01] "all is reported" ghost("$reported") == ghost("$oks") && ghost("$failures") == ghost("$errs")
  ensures[C01] "every write is reported" ghost("$reported") == ghost("$oks") && ghost("$failures") == ghost("$errs")
  ensures[C01] "with its row" ghost("$rowsof", k) == wrote(k)

// Requests go on while the vector of a key is written: every request touches its key first.
contract Worker.runEvictionCycle'env(w)
  option setup worker
  option single yes
  option touch yes
  option interference yes
  option inverse vsa/internal/ratelimiter/core.Store.counters.vpay:keyof vsa/internal/ratelimiter/core.managedVSA.instance:ownerof
  requires R_store(w.store)
  requires w.cycleMu.held == 0 && w.persister != nil && ref(w) != 0
  domain domk(w.store)
  at[K05] "a key is removed only when still idle" sync.Map.LoadAndDelete : ghost("$now") - last(w.store, payload(a1)) > age(w)
  at[K05] "a key is removed only when still idle" sync.Map.Delete : ghost("$now") - last(w.store, payload(a1)) > age(w)
  at[K05] "nothing is pending when a key is removed" sync.Map.LoadAndDelete : Nk(w.store, payload(a1)) == 0
  at[K05] "nothing is pending when a key is removed" sync.Map.Delete : Nk(w.store, payload(a1)) == 0

// The store. Other goroutines may create the entry of the key between two operations on the map.
def entry_(s, k) = ref(s.counters[k])
def mine(r) = r >= 1099511627776
def shut(v) = ghost("$closes", v)

contract Store.GetOrCreate(s, key) (v)
  option safety K01
  option setup store
  option count vsa.VSA.Close:closes@0 vsa.NewWithOptions:made
  option inverse vsa/internal/ratelimiter/core.Store.counters.vpay:keyof vsa/internal/ratelimiter/core.managedVSA.instance:ownerof
  any k
  requires R_store(s) && s.initialScalar >= 0 && s.initialScalar < big
  requires ghost("$made") == 0 && ghost("$lost") == 0 && forall(kk, shut(kk) == 0)
  at[K01] "a new accumulator gets the configured budget" vsa.NewWithOptions : a0 == s.initialScalar
  at[K01] "and the configured options" vsa.NewWithOptions : a1 == s.vsaOptions
  ensures[K01] "the accumulator of the key" ref(v) != 0 && has(s.counters, key) && ref(s.counters[key].instance) == ref(v)
  ensures[K01] "the same one as long as the key is stored" implies(old(has(s.counters, key)), ref(v) == old(ref(s.counters[key].instance)) && entry_(s, key) == old(entry_(s, key)) && ghost("$made") == 0)
  ensures[K01] "the last access is refreshed" s.counters[key].lastAccessed >= old(ghost("$now")) && s.counters[key].lastAccessed <= ghost("$now")
  ensures[K01] "a new key starts armed with nothing pending" implies(mine(entry_(s, key)), s.counters[key].armed && ghost("$N", v) == 0 && ghost("$S", v) == s.initialScalar)
  ensures[K01] "one accumulator is made on a miss" ghost("$made") <= 1
  ensures[K01] "an accumulator that lost the race is shut down" implies(ghost("$made") == 1, iff(mine(entry_(s, key)), ghost("$lost") == 0))
  ensures[K01] "the one returned is not" shut(v) == 0
  ensures[K01] "other keys are untouched" implies(k != key, iff(has(s.counters, k), old(has(s.counters, k))) && entry_(s, k) == old(entry_(s, k)) && implies(has(s.counters, k), last(s, k) == old(last(s, k)) && Nk(s, k) == old(Nk(s, k)) && Sk(s, k) == old(Sk(s, k)) && ref(s.counters[k].instance) != ref(v) && shut(s.counters[k].instance) == 0))
  ensures[K01] "no goroutine of its own" spawned() == 0

contract Store.Delete(s, key)
  option safety K01
  option count vsa.VSA.Close:closes@0
  option inverse vsa/internal/ratelimiter/core.Store.counters.vpay:keyof vsa/internal/ratelimiter/core.managedVSA.instance:ownerof
  any k
  requires R_store(s)
  requires forall(kk, shut(kk) == 0)
  ensures[K01] "the key is gone" !has(s.counters, key)
  ensures[K01,K05] "its accumulator is shut down" implies(old(has(s.counters, key)), shut(old(ref(s.counters[key].instance))) >= 1)
  ensures[K01] "other keys are untouched" implies(k != key, iff(has(s.counters, k), old(has(s.counters, k))) && entry_(s, k) == old(entry_(s, k)) && implies(has(s.counters, k), shut(s.counters[k].instance) == 0 && Nk(s, k) == old(Nk(s, k)) && Sk(s, k) == old(Sk(s, k))))

contract Store.CloseAll(s)
  option safety K01
  option count vsa.VSA.Close:closes@0
  option inverse vsa/internal/ratelimiter/core.Store.counters.vpay:keyof vsa/internal/ratelimiter/core.managedVSA.instance:ownerof
  any k
  requires R_store(s)
  requires forall(kk, shut(kk) == 0)
  ensures[K01] "every accumulator is shut down" implies(has(s.counters, k), shut(s.counters[k].instance) >= 1)
  ensures[K01] "keys and counters stay" iff(has(s.counters, k), old(has(s.counters, k))) && implies(has(s.counters, k), Nk(s, k) == old(Nk(s, k)) && Sk(s, k) == old(Sk(s, k)))

contract NewStoreWithOptions(budget, opts) (s)
  option safety K01
  any k
  ensures[K01,G01] "an empty store with the configuration" ref(s) != 0 && s.initialScalar == budget && s.vsaOptions == opts && !has(s.counters, k)

contract NewStore(budget) (s)
  option safety K01
  any k
  ensures[K01] "an empty store with the budget" ref(s) != 0 && s.initialScalar == budget && !has(s.counters, k)

// ---- process-wide totals

ghost attempts() = attempted
ghost admitted() = admits
ghost refunded() = refunds
def plus(n, d) = ite(d > 0, wrap64(n + d), n)

contract RecordAttempt(n)
  option client yes
  option safety M01
  sets[M01] attempts() = plus(attempts(), n)
  sets[M01] admitted() = admitted()
  sets[M01] refunded() = refunded()

contract RecordAdmit(n)
  option client yes
  option safety M01
  sets[M01] attempts() = attempts()
  sets[M01] admitted() = plus(admitted(), n)
  sets[M01] refunded() = refunded()

contract RecordRefund(n)
  option client yes
  option safety M01
  sets[M01] attempts() = attempts()
  sets[M01] admitted() = admitted()
  sets[M01] refunded() = plus(refunded(), n)

contract RecordAttempt'env(n)
  option shared G:vsa/internal/ratelimiter/core.attempted
  ensures[M01] "nothing recorded meanwhile is lost" cong64(attempts(), old(attempts()) + ghost("$others") - old(ghost("$others")) + ite(n > 0, n, 0))

contract RecordAdmit'env(n)
  option shared G:vsa/internal/ratelimiter/core.admits
  ensures[M01] "nothing recorded meanwhile is lost" cong64(admitted(), old(admitted()) + ghost("$others") - old(ghost("$others")) + ite(n > 0, n, 0))

contract RecordRefund'env(n)
  option shared G:vsa/internal/ratelimiter/core.refunds
  ensures[M01] "nothing recorded meanwhile is lost" cong64(refunded(), old(refunded()) + ghost("$others") - old(ghost("$others")) + ite(n > 0, n, 0))

contract getEventTotals() (a, b, c)
  option safety M01
  ensures[M01] "the totals recorded" a == attempts() && b == admitted() && c == refunded()

def mag(x) = ite(x < 0, -x, x)

contract mockPersister.CommitBatch(p, commits) (err)
  option safety M01
  guarded[M01] p.mu | true | vsa/internal/ratelimiter/core.mockPersister.totalRequests vsa/internal/ratelimiter/core.mockPersister.totalWrites vsa/internal/ratelimiter/core.mockPersister.totalBatches
  requires ref(p) != 0
  domain p.mu.held == 0
  ensures[M01] "never fails" err == nil
  ensures[M01] "one batch, unless it is empty" p.totalBatches == ite(len(commits) > 0, wrap64(old(p.totalBatches) + 1), old(p.totalBatches))
  ensures[M01] "its rows" p.totalWrites == ite(len(commits) > 0, wrap64(old(p.totalWrites) + len(commits)), old(p.totalWrites))
  ensures[M01] "the magnitudes of its vectors" cong64(p.totalRequests, old(p.totalRequests) + sum(i, 0, len(commits), mag(commits[i].Vector)))
  ensures[M01] "in one critical section" acquired() <= 1
  ensures[M01] "the lock is released" p.mu.held == 0

contract NewMockPersister() (p)
  ensures[M01] "starts at nothing" tag(p) == tagof("*vsa/internal/ratelimiter/core.mockPersister") && unbox("*vsa/internal/ratelimiter/core.mockPersister", payload(p)).totalBatches == 0 && unbox("*vsa/internal/ratelimiter/core.mockPersister", payload(p)).totalWrites == 0 && unbox("*vsa/internal/ratelimiter/core.mockPersister", payload(p)).totalRequests == 0

def isSet(m, k) = maphas("map[string]string", m, k)
def setTo(m, k) = mapget("map[string]string", m, k)

contract SetThreshold(name, value)
  option safety M01
  guarded[M01] thresholdsMu | true | map[string]string.dom map[string]string
  any other
  domain thresholdsMu.held == 0 && thresholdsMu.readers >= 0
  ensures[M01] "the last value set" isSet(thresholds, name) && setTo(thresholds, name) == value
  ensures[M01] "others keep theirs" implies(other != name, iff(isSet(thresholds, other), old(isSet(thresholds, other))) && setTo(thresholds, other) == old(setTo(thresholds, other)))
  ensures[M01] "the lock is released" thresholdsMu.held == 0

contract SetThresholdInt64(name, n)
  option safety M01
  any other
  domain thresholdsMu.held == 0 && thresholdsMu.readers >= 0
  ensures[M01] "the last value set" isSet(thresholds, name) && setTo(thresholds, name) == dec(n)
  ensures[M01] "others keep theirs" implies(other != name, iff(isSet(thresholds, other), old(isSet(thresholds, other))) && setTo(thresholds, other) == old(setTo(thresholds, other)))

contract getThresholdSnapshot() (m)
  option safety M01
  any k
  domain thresholdsMu.held == 0 && thresholdsMu.readers >= 0
  ensures[M01] "every threshold with its value" iff(isSet(m, k), isSet(thresholds, k)) && implies(isSet(m, k), setTo(m, k) == setTo(thresholds, k))
  ensures[M01] "a copy" m != thresholds
  ensures[M01] "nothing is changed" iff(isSet(thresholds, k), old(isSet(thresholds, k))) && setTo(thresholds, k) == old(setTo(thresholds, k))

contract SetThresholdDuration(name, d)
  option safety M01
  any other
  domain thresholdsMu.held == 0 && thresholdsMu.readers >= 0
  ensures[M01] "set, others keep theirs" isSet(thresholds, name) && implies(other != name, iff(isSet(thresholds, other), old(isSet(thresholds, other))) && setTo(thresholds, other) == old(setTo(thresholds, other)))

contract SetThresholdBool(name, b)
  option safety M01
  any other
  domain thresholdsMu.held == 0 && thresholdsMu.readers >= 0
  ensures[M01] "set, others keep theirs" isSet(thresholds, name) && implies(other != name, iff(isSet(thresholds, other), old(isSet(thresholds, other))) && setTo(thresholds, other) == old(setTo(thresholds, other)))

contract SetThresholdFloat64(name, f)
  option safety M01
  any other
  domain thresholdsMu.held == 0 && thresholdsMu.readers >= 0
  ensures[M01] "set, others keep theirs" isSet(thresholds, name) && implies(other != name, iff(isSet(thresholds, other), old(isSet(thresholds, other))) && setTo(thresholds, other) == old(setTo(thresholds, other)))

contract mockPersister.PrintFinalMetrics(p)
  requires ref(p) != 0
  domain p.mu.held == 0 && thresholdsMu.held == 0 && thresholdsMu.readers >= 0
  at[M01] "reports the attempts" fmt.Printf : implies(len(a1) == 2 && tag(a1[1]) == tagof("int64") && payload(a1[0]) == "Attempted", payload(a1[1]) == attempts())
  at[M01] "reports the admits" fmt.Printf : implies(len(a1) == 2 && tag(a1[1]) == tagof("int64") && payload(a1[0]) == "Admits", payload(a1[1]) == admitted())
  at[M01] "reports the refunds" fmt.Printf : implies(len(a1) == 2 && tag(a1[1]) == tagof("int64") && payload(a1[0]) == "Refunds", payload(a1[1]) == refunded())
  at[M01] "reports the rows" fmt.Printf : implies(len(a1) == 2 && tag(a1[1]) == tagof("int64") && payload(a1[0]) == "Writes", payload(a1[1]) == p.totalWrites)
  at[M01] "reports the batches" fmt.Printf : implies(len(a1) == 2 && tag(a1[1]) == tagof("int64") && payload(a1[0]) == "Batches", payload(a1[1]) == p.totalBatches)
