#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the text is reviewable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook))
    assert len(title)<=80,(id,len(title))
    P.append(d)
VS="vsa.go"; ST="internal/ratelimiter/core/store.go"; WK="internal/ratelimiter/core/worker.go"
API="internal/ratelimiter/api/server.go"; PE="internal/ratelimiter/persistence/"; TF="plugin/tfd/"
p("V01","Availability equals the scalar minus the magnitude of the pending net",
 "In every configuration of the accumulator and after any sequence of its operations, reported availability equals the scalar minus the absolute value of the pending vector, and the pending vector equals all updates plus granted consumptions minus granted refunds minus the amounts already committed. The scalar changes only through a commit, an operation that reports failure changes nothing observable, and reading (availability, state, commit check) changes nothing; the commit check answers true with the pending vector exactly when its magnitude reaches the threshold.",
 ["inputs","histories","configurations"],"all option combinations, all states whose totals stay inside the int64 domain, all argument values, all operation sequences",
 "Tests sample a few configurations and a few random sequences; a stripe, group or offset that is missed only in one option combination or only for one sign is not sampled.",
 [VS],[("Available/State/currentVector/CheckCommit","vsa.go"),("Update/TryConsume/TryRefund/Commit keep stripes, group sums and the approximate net in step","vsa.go")],
 [("scalar","durable base S","vsa.go VSA"),("stripes/committedOffset/hGroupSum/approxNet","pending net and its redundant copies","vsa.go VSA")],["Available","State","CheckCommit"])
p("V02","A commit never changes availability and folds at most what is pending",
 "Committing any amount, at any moment and in any configuration, leaves availability unchanged: it moves the smaller of the requested magnitude and the pending magnitude out of the pending vector, towards zero, and lowers the scalar by exactly that magnitude. Committing zero, or committing when nothing is pending, changes nothing.",
 ["inputs","histories","configurations"],"all states inside the int64 domain, all commit arguments (stale, oversized, of the wrong sign, extreme), all configurations",
 "Unit tests commit the exact current vector, or a handful of stale ones; they do not cover every sign/size relation between the argument and the pending net.",
 [VS],[("Commit recomputes the net under the lock and clamps","vsa.go Commit")],[("committedOffset","sum of folded amounts","vsa.go VSA")],["Available","State"])
p("V03","A consumption is granted only when the budget covers it",
 "Executed one at a time, a request to consume n units is granted only if n is positive and at least n units are available immediately before it, in every configuration including all the approximate gates, and then availability drops by exactly n when the pending vector is not negative. A request for zero or fewer units is always denied, and in every configuration without the cached gate a positive request that the available budget covers is always granted.",
 ["inputs","histories","configurations"],"all option combinations (cached gate, grouped scan, fast path, hierarchical sums, stripes), all histories leading to the current state including a stale cache, every int64 request size",
 "The approximate gates are tested with a few sizes in a few states; over-admission needs a particular stripe distribution, a stale cache or a request near the integer limit.",
 [VS],[("TryConsume gates","vsa.go TryConsume")],[("cachedNet","possibly stale net","vsa.go VSA"),("approxNet","running net","vsa.go VSA")],["TryConsume result","Available"])
p("V04","No oversubscription under any interleaving of gated operations",
 "When any number of goroutines consume, refund and commit on one accumulator whose lock-free fast path is off, every granted consumption had its full amount available at the instant it took effect and every operation takes effect atomically. In particular the total granted and not refunded never exceeds the initial budget, and concurrent readers never see a negative availability or a half-applied commit.",
 ["schedules","inputs","configurations"],"all interleavings of consume, refund, commit and the reading operations, any number of goroutines, all configurations without the fast path",
 "Stress tests run a few schedules the Go scheduler happens to produce; a check-then-act window of a few instructions is almost never hit.",
 [VS],[("tryMu critical sections","vsa.go TryConsume/TryRefund/Commit/Available/State/CheckCommit")],[("tryMu","serialises gate, refund and commit","vsa.go VSA")],["TryConsume result","Available","State"])
p("V05","A refund returns at most what is pending and never touches the scalar",
 "A refund request succeeds exactly when the requested amount is positive and the pending vector is positive; it then reduces the pending vector by the smaller of the two, so the vector never goes negative and availability rises by exactly that amount. The scalar is never changed by a refund and a refused refund changes nothing.",
 ["inputs","histories","configurations"],"all int64 amounts, all states in the domain, all configurations",
 "Tests refund small amounts in a few states; extreme amounts and option-specific bookkeeping (group sums, running net) are not covered.",
 [VS],[("TryRefund clamp","vsa.go TryRefund")],[],["TryRefund result","State","Available"])
p("V06","Every option combination builds a working, equivalent accumulator",
 "For any combination of option values, including zero, negative and very large ones, construction succeeds with nothing pending and availability equal to the initial scalar, and no later operation can panic or address storage outside what was built. Apart from the cached gate's conservative denials and the lock-free fast path's races, the options change only performance: the same sequence of operations gives the same answers in every configuration.",
 ["configurations","inputs","histories"],"all option values, all initial scalars, all operation sequences",
 "Tests build a few hand-picked option sets; out-of-range group counts, strides and stripe counts combine in ways no test enumerates.",
 [VS],[("NewWithOptions clamps and derived strides","vsa.go NewWithOptions"),("nextPow2/min/max","vsa.go")],[("mask/hStride/groupStride","derived geometry","vsa.go VSA")],["all operations"])
p("V07","Background refresh exists only on demand, stops on close, changes no counts",
 "An accumulator starts a background goroutine only when the cached gate is requested and closing it ends that goroutine; closing may be repeated and done concurrently without panic, and neither the refresher nor closing changes scalar, pending vector or availability. Each refresh stores the true pending net of that moment as the cached value.",
 ["schedules","configurations","histories"],"all configurations, any number and interleaving of close calls, any state at refresh time",
 "Goroutine lifetime and repeated closing are tested once for one configuration; a refresh that forgets the committed offset or a group shows only later and only as wrong gating.",
 [VS],[("runAggregator","vsa.go"),("Close","vsa.go")],[("stopCh/closeOnce","refresher control","vsa.go VSA")],["goroutine count","Close","TryConsume with cached gate"])
p("K01","One accumulator per key, whatever the races; keys never share budget",
 "All concurrent and later lookups of the same key return the same accumulator until that key is evicted, and different keys always get different accumulators, each starting with the configured budget and options. A lookup refreshes the key's last-access time, an accumulator that loses a creation race is shut down rather than leaked, removing a key shuts its accumulator down and touches no other key, and shutting the store down shuts down every accumulator.",
 ["schedules","inputs","configurations"],"all keys, all interleavings of lookups and removals, all store configurations",
 "The tests race one key a few times and cannot see a losing instance that leaks or a rarely returned second instance.",
 [ST],[("GetOrCreate Load/LoadOrStore","internal/ratelimiter/core/store.go"),("Delete/CloseAll/ForEach","internal/ratelimiter/core/store.go")],[("counters","key to managed accumulator","internal/ratelimiter/core/store.go Store")],["GetOrCreate","Delete","CloseAll"])
p("K02","A commit cycle persists exactly the eligible keys, once, with their vector",
 "One commit cycle hands the persistence layer at most one batch, containing each eligible key exactly once with its pending vector and no ineligible key; no batch is sent when no key is eligible. A key is eligible when the magnitude of its vector reaches the commit threshold and it is armed (or hysteresis is off), or when its vector is non-zero and it has been idle for at least the configured maximum age; a key put into a batch is disarmed and becomes armed again only once seen, below the threshold, at or under the low watermark.",
 ["inputs","histories","configurations"],"all stores (any number of keys, any vectors including negative ones, any idle times), all threshold/low-watermark/max-age settings",
 "Tests use one to three keys and a couple of threshold settings; boundary values, negative vectors and combinations of hysteresis and age are not enumerated.",
 [WK],[("runCommitCycle selection","internal/ratelimiter/core/worker.go")],[("armed/lastAccessed","hysteresis and age","internal/ratelimiter/core/store.go managedVSA")],["batch received by the persister"])
p("K03","A persisted batch is folded into exactly its keys; a failed one leaves all",
 "After a successful batch write, each key of the batch has exactly its persisted vector (as far as refunds made during the write left it pending) folded into its own scalar and every other key is untouched, so availability of every key is unchanged and nothing persisted is still pending. After a failed batch write no key's scalar or vector changes, so the whole batch is still pending for a later cycle or the final flush, and no two cycles ever persist the same pending amount twice.",
 ["histories","fault_sequences","schedules"],"all batches, all success/failure sequences of the persistence layer, all interleavings of the background cycles",
 "Fault tests fail one batch once; cross-key mix-ups, double application after a failure, or overlap of two background cycles need particular batches and schedules.",
 [WK],[("apply loop after CommitBatch","internal/ratelimiter/core/worker.go runCommitCycle/runFinalFlush"),("cycle serialisation","internal/ratelimiter/core/worker.go")],[],["persister batches versus scalar/vector of each key"])
p("K04","Graceful stop persists every pending remainder exactly once",
 "Stopping the worker triggers a final flush that sends, in a single batch, every key whose vector is non-zero, each once with its exact vector and regardless of thresholds, and then folds them so nothing is pending; keys with a zero vector are not sent, and a failing final write leaves all vectors pending. The first stop returns only after both background loops have finished, stopping again (also concurrently) is a harmless no-op, and nothing is persisted by the worker after that stop has returned.",
 ["histories","schedules","fault_sequences"],"all stores, all moments of stopping relative to the periodic cycles, repeated and concurrent stops, success or failure of the last write",
 "Tests stop once with a few keys; they do not cover concurrent stops, sub-threshold negative remainders or the ordering of the two loops.",
 [WK],[("Stop/commitLoop/runFinalFlush","internal/ratelimiter/core/worker.go")],[("stopped/stopChan/wg","shutdown state","internal/ratelimiter/core/worker.go Worker")],["persister batches","Stop return"])
p("K05","Eviction removes only idle keys and never drops unpersisted usage",
 "An eviction cycle removes a key only if it is still idle for longer than the eviction age when re-checked at removal, and a key touched more recently is kept with its state intact. A non-zero pending vector is persisted (once, exact value) before the key is removed, if that write fails the key stays with its vector pending and the cycle goes on with the other keys, and an evicted accumulator's background work is stopped.",
 ["inputs","histories","fault_sequences"],"all stores and idle times, keys touched between scan and removal, all success/failure patterns of the per-key writes",
 "Tests evict one idle key with one persister outcome; re-touch between scan and removal and mixed failures among many keys are not covered.",
 [WK,ST],[("runEvictionCycle","internal/ratelimiter/core/worker.go"),("Delete","internal/ratelimiter/core/store.go")],[],["persister batches","store contents"])
p("A01","The check endpoint admits, denies and reports exactly what happened",
 "A check request without an API key answers 400 and consumes nothing; otherwise exactly one unit of that key's budget is consumed and the answer is 200 with status OK, or, when the budget is exhausted, nothing is consumed and the answer is 429 with status Exceeded and a retry hint of 60 seconds. Both answers carry the configured limit and the availability of that key after the decision, headers are complete before the status line is sent, and the status is written once.",
 ["inputs","histories"],"all keys, all budgets and limits, any preceding history of requests, commits and refunds",
 "HTTP tests issue short request sequences for a few keys and compare a few headers.",
 [API],[("handleCheckRateLimit","internal/ratelimiter/api/server.go")],[],["HTTP status, headers","accumulator state"])
p("A02","The release endpoint returns at most one unit and always answers 204",
 "A release request without an API key answers 400 and refunds nothing; any other release request answers 204, refunds one unit of that key when it has pending consumption, and changes nothing otherwise. The refund counter grows by one exactly when a unit was actually refunded.",
 ["inputs","histories"],"all keys and all preceding histories",
 "Tests issue one or two releases; refunds after a commit, on fresh keys or beyond what is pending are sampled at best once.",
 [API],[("handleRelease","internal/ratelimiter/api/server.go")],[],["HTTP status","accumulator state","refund counter"])
p("M01","Process event totals count every attempt, admit and refund exactly once",
 "The process-wide totals of attempts, admits and refunds grow by exactly the positive amounts recorded (non-positive amounts are ignored), each check request adds one attempt and, only if admitted, one admit. The demo persister's totals equal the number of non-empty batches, the number of rows in them and the sum of the magnitudes of the vectors, under any concurrency, and the threshold registry returns the last value set for each name.",
 ["inputs","schedules","histories"],"all recorded amounts, all batches (including negative vectors and empty batches), concurrent recording",
 "Tests record a few amounts; they do not cover negative vectors, empty batches or mixtures of denied and admitted requests in any order.",
 ["internal/ratelimiter/core/metrics.go","internal/ratelimiter/core/persistence.go",API],[("RecordAttempt/RecordAdmit/RecordRefund","internal/ratelimiter/core/metrics.go"),("mockPersister.CommitBatch","internal/ratelimiter/core/persistence.go")],[],["final metrics report"])
p("P01","Relational persistence applies each commit exactly once, batch atomically",
 "For every batch, a commit whose id was never applied lowers its key's stored scalar (if that key is stored or missing keys are created) by exactly its vector and records its id, a commit whose id was already applied changes nothing, and either the whole batch takes effect or none of it. A missing id or any statement failure returns an error and leaves the database unchanged, and a fencing token older than the stored one never replaces it.",
 ["inputs","histories","fault_sequences"],"all batches (duplicates inside a batch, repeated batches, any keys, vectors and tokens), a failure of any statement, both key-creation modes",
 "The tests run against a fake driver that answers every statement alike and so cannot see whether the update takes effect, is repeated, or is rolled back.",
 [PE+"postgres.go"],[("CommitBatch transaction","internal/ratelimiter/persistence/postgres.go")],[("applied_commits","applied ids","postgres.go schema"),("counters","stored scalars","postgres.go schema")],["table contents after CommitBatch"])
p("P02","Redis persistence applies each commit id at most once per key",
 "For every batch, each commit is applied by one atomic script call on that key's own counter and marker, in batch order; the counter drops by exactly the vector the first time an id is seen for the key and is unchanged on every retry while the marker lives, and the marker always gets a positive time-to-live, the configured or defaulted one rounded up to whole seconds. A missing id or a failing call stops the batch with an error before any later commit is sent, so retrying the whole batch is safe.",
 ["inputs","histories","fault_sequences"],"all batches, all retry patterns, a failure at any position, all marker lifetimes",
 "Tests use a recording client that never executes the script, so wrong script logic or mixed-up arguments pass.",
 [PE+"redis.go"],[("redisLuaScript","internal/ratelimiter/persistence/redis.go"),("CommitBatch","internal/ratelimiter/persistence/redis.go")],[],["script calls","counter and marker contents"])
p("P03","Kafka persistence emits each commit once, in order, keyed by its id",
 "For every batch the producer receives one message per commit in batch order on the configured topic, keyed by the commit id and carrying that commit's key, vector, id and fencing token unchanged. A missing id or a producer failure stops the batch with an error and no later commit is produced; an empty batch produces nothing.",
 ["inputs","fault_sequences"],"all batches, with and without fencing tokens, a failure at any position",
 "Tests check one or two messages of one batch.",
 [PE+"kafka.go"],[("CommitBatch","internal/ratelimiter/persistence/kafka.go")],[],["produced messages"])
p("P04","The adapter shim and factory forward every commit unchanged, under unique ids",
 "Every non-empty batch given to the adapter is forwarded exactly once, with the same keys and vectors in the same order, each under a fresh non-empty id that no other commit shares, and the backend's error is returned unchanged; an empty batch is not forwarded. The factory returns the adapter the selector names, with its documented defaults, and an error for every other selector.",
 ["inputs","configurations","fault_sequences"],"all batches, all selectors and option values, backend success or failure",
 "Tests forward one or two commits; uniqueness over many ids and order over long batches are not covered.",
 [PE+"shim.go",PE+"factory.go"],[("IdemShim.CommitBatch/randomID","internal/ratelimiter/persistence/shim.go"),("BuildPersister","internal/ratelimiter/persistence/factory.go")],[],["entries received by the backend"])
p("T01","Only provably commutative operations take the scalar lane",
 "An operation is classified to the scalar lane exactly when it has a key, is single-key and a conservative delta, and carries none of the order-sensitive flags; everything else goes to the ordered lane, and an operation without a key is an error. The footprint carries the id of exactly that key and bucket (all buckets when none is named) and the amount is passed through unchanged; two footprints are reported independent only if both are scalar and they share no key-and-bucket, and that relation is symmetric.",
 ["inputs"],"all operations (every flag combination, any key, bucket and amount) and all pairs of footprints",
 "Tests enumerate a few flag combinations and a few footprint pairs.",
 [TF+"classifier.go",TF+"types.go"],[("Classify","plugin/tfd/classifier.go"),("Disjoint","plugin/tfd/types.go")],[],["Classify result","Disjoint"])
p("T02","The scalar accumulator loses, merges or duplicates nothing",
 "For any sequence of ingested scalar envelopes and flushes, the deltas emitted for each key and bucket plus those still held equal the deltas ingested for exactly that key and bucket, and the largest sequence number emitted for a cell is the largest ingested for it since its last emission. Different keys or buckets are never merged, a flush empties what it emits and only that, and ingestion always terminates, however many distinct cells are ingested between flushes.",
 ["inputs","histories","configurations"],"all key/bucket ids including ones whose packed ids collide or are zero, all table sizes, all sequences of ingest, flush and per-key flush",
 "Tests ingest a few small ids into large tables; collisions, a full table and a zero packed id never occur there.",
 [TF+"saccumulator.go",TF+"saccumulator_wrap.go"],[("SShard.Ingest/probe/Flush/FlushKey","plugin/tfd/saccumulator.go"),("SAccumulator.Ingest/FlushAll","plugin/tfd/saccumulator_wrap.go")],[("keys/keyIDs/bucketIDs/sums/seqEnds/used","open-addressed table","plugin/tfd/saccumulator.go SShard")],["emitted batches"])
p("T03","Batch compression preserves every cell's net effect",
 "Compressing any slice of batches returns at most one batch per key and bucket, whose delta is the sum of the input deltas for that key and bucket and whose sequence number is the largest among them. A cell whose sum is zero is dropped, no other cell is dropped, invented or merged with another, whatever the size of the input.",
 ["inputs"],"all input slices, below, at and above the size where the algorithm switches, any ids and deltas",
 "Tests compress a handful of batches on either side of the switch; collisions, probe wrap-around and sums that cancel late are not covered.",
 [TF+"vsa_integration.go"],[("SimpleVSA.Compress","plugin/tfd/vsa_integration.go")],[],["Compress result"])
p("T04","The batching service delivers every accepted envelope exactly once",
 "Every scalar envelope accepted by the service before a stop or flush request begins has, when that request returns, reached the sink exactly once in net effect for its own key and bucket, and a non-blocking offer that reports refusal is never delivered. Vector envelopes are ignored, the sink is never called with an empty batch list, and stopping ends the worker after a last drain and flush.",
 ["schedules","histories"],"all interleavings of producers, ticks, flush requests and stop, all envelope sequences and buffer sizes",
 "Timing-based tests observe one schedule; an envelope lost between the last receive and the final flush needs a particular interleaving.",
 [TF+"sservice.go"],[("run select loop, drain and flush","plugin/tfd/sservice.go"),("Ingest/TryIngest/Flush/Stop","plugin/tfd/sservice.go")],[],["sink calls"])
p("T05","The ordered lane keeps per-key order and a reproducible audit link",
 "Ordered envelopes of one key are returned by draining in exactly the order they were routed, each once, with content unchanged except for the audit link, and draining one key affects no other key. The audit link is a pure function of the key and the envelope's sequence number, and envelopes of the scalar lane are never queued.",
 ["inputs","histories"],"all sequences of routed envelopes and drains over any keys",
 "Tests route a few envelopes of one or two keys.",
 [TF+"vactors.go",TF+"types.go"],[("VActor.Enqueue/Drain","plugin/tfd/vactors.go"),("VRouter.Route","plugin/tfd/vactors.go"),("Hash128","plugin/tfd/types.go")],[],["Drain result"])
p("T06","The pipeline sends each envelope to exactly one lane",
 "A scalar envelope handed to the pipeline is accepted by the scalar lane exactly once, falling back to waiting when the buffer is full, and never reaches the ordered lane or the persistence callback. A vector envelope is queued exactly once for its own key and the callback, when given, is called exactly once for it, after queuing, with the same envelope including its audit link.",
 ["inputs","histories"],"all envelopes, full and non-full buffers, with and without a callback",
 "Tests push a few envelopes through an empty buffer.",
 [TF+"pipeline.go"],[("Pipeline.Handle","plugin/tfd/pipeline.go")],[],["lanes' contents","callback calls"])
p("T07","Reconstruction equals arrival-order application",
 "For any mix of scalar and ordered envelopes, reconstructing from the scalar batches in any order and the ordered envelopes in any order gives, for every key and bucket, the same value as applying all envelopes in arrival order. Applying touches only the cells named and adds to what a cell already holds.",
 ["inputs","histories"],"all envelope sequences, all permutations of batches and envelopes, all initial states",
 "Tests compare a few short logs in one or two orders.",
 [TF+"reconstruct.go"],[("Reconstruct/BaselineApply","plugin/tfd/reconstruct.go")],[("cells","value per key and bucket","plugin/tfd/reconstruct.go State")],["Cells"])
p("S01","The file logs return exactly what was appended, in order",
 "After any sequence of appends, flushes and reopenings, reading a log back after a close or flush returns every appended record once, in order, with every field unchanged. A malformed line in the file is skipped without losing the records around it, appending nothing writes nothing, and concurrent appends never interleave inside a record.",
 ["inputs","histories","schedules"],"all records (extreme values, every field), all append/flush/close/reopen sequences, concurrent writers",
 "Tests append a few records with small values in one go.",
 ["internal/sinks/sbatch_file_sink.go","internal/sinks/venv_file_sink.go"],[("OnSBatches/Append/AppendAll/Flush/Close","internal/sinks"),("ReadAllSLog/ReadAllVLog","internal/sinks")],[],["ReadAllSLog","ReadAllVLog"])
p("G01","Graceful shutdown of the service loses no admitted request",
 "On a termination signal the service first stops accepting and finishes in-flight requests, then stops the worker so its final flush covers every admitted request, then prints the final metrics and stops background refreshers. Every command-line setting reaches the component it configures: budget, accumulator options, thresholds, intervals, ages and persistence options.",
 ["schedules","configurations"],"all flag values, any moment of the signal relative to requests and commit cycles",
 "No test runs the service's main function through a shutdown with requests in flight or checks that each flag reaches its component.",
 ["cmd/ratelimiter-api/main.go"],[("main wiring and shutdown sequence","cmd/ratelimiter-api/main.go")],[],["order of shutdown calls","arguments at construction"])
p("C01","Churn telemetry counts exactly and never counts while disabled",
 "While telemetry is disabled no observation changes any counter; while enabled every admitted request adds one to the baseline write counter, every batch adds its number of rows to the row counter and every failure adds its count, and denied requests and non-positive counts add nothing. The per-key sampling decision depends only on the key and the rate: rate zero samples no key and rate one samples every key.",
 ["inputs","histories","configurations"],"all keys, rates, counts and sequences of enabling, disabling and observing",
 "Tests observe one or two events at the two extreme rates.",
 ["internal/ratelimiter/telemetry/churn/prom_counters.go"],[("ObserveRequest/ObserveBatch/ObserveCommit/ObserveCommitError/sampled/Enable","internal/ratelimiter/telemetry/churn/prom_counters.go")],[],["exported counters"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
