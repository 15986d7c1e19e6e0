// The persistence adapters, against collaborators that may answer anything.
package vsa/internal/ratelimiter/persistence

def id_(es, i) = old(es[i].CommitID)
def key_(es, i) = old(es[i].Key)
def vec_(es, i) = old(es[i].Vector)
def hastok(es, i) = old(ref(es[i].FencingToken)) != 0
def tok(es, i) = old(*es[i].FencingToken)

def made() = ghost("$prod")
def failed() = ghost("$prod.failed")

contract KafkaPersister.CommitBatch(k, ctx, entries) (ret)
  option safety P03
  option open invoke:KafkaProducer.Produce:prod
  any q
  requires ref(k) != 0 && k.producer != nil
  requires made() == 0 && failed() == 0
  at[P03] "no more messages than commits" invoke:KafkaProducer.Produce : made() < len(entries)
  at[P03] "on the configured topic" invoke:KafkaProducer.Produce : a2 == k.topic
  at[P03] "keyed by its id, in batch order" invoke:KafkaProducer.Produce : str(a3) == id_(entries, made())
  at[P03] "never without an id" invoke:KafkaProducer.Produce : id_(entries, made()) != ""
  at[P03] "with its key" invoke:KafkaProducer.Produce : jsonhas(a4, "key") && json(a4, "key") == key_(entries, made())
  at[P03] "with its vector" invoke:KafkaProducer.Produce : jsonhas(a4, "vc") && json(a4, "vc") == vec_(entries, made())
  at[P03] "with its id" invoke:KafkaProducer.Produce : jsonhas(a4, "commit_id") && json(a4, "commit_id") == id_(entries, made())
  at[P03] "with its fencing token" invoke:KafkaProducer.Produce : iff(jsonhas(a4, "fencing_token"), hastok(entries, made())) && implies(hastok(entries, made()), json(a4, "fencing_token") == tok(entries, made()))
  at[P03] "nothing after a failure" invoke:KafkaProducer.Produce : failed() == 0
  ensures[P03] "every commit is produced" implies(ret == nil, made() == len(entries))
  ensures[P03] "a failure is reported" implies(failed() > 0, ret != nil)
  ensures[P03] "a missing id is reported" implies(0 <= q && q < len(entries) && id_(entries, q) == "", ret != nil)
  ensures[P03] "an error has a reason" implies(ret != nil, failed() > 0 || made() < len(entries) && id_(entries, made()) == "")

contract NewKafkaPersister(p, topic) (k)
  ensures[P03,P04] "with the given parts" ref(k) != 0 && k.producer == p && k.topic == topic

// ---- the adapter shim: calls() and failed_() are those of the backend

def calls() = ghost("$fwd")
def cvec(cs, i) = old(cs[i].Vector)
def ckey(cs, i) = old(cs[i].Key)

contract IdemShim.CommitBatch(s, commits) (ret)
  option safety P04
  option open invoke:IdempotentPersister.CommitBatch:fwd
  any q q2
  requires ref(s) != 0 && s.impl != nil
  requires calls() == 0 && ghost("$fwd.failed") == 0
  at[P04] "an empty batch is not forwarded" invoke:IdempotentPersister.CommitBatch : len(commits) > 0
  at[P04] "to the configured backend" invoke:IdempotentPersister.CommitBatch : a0 == s.impl
  at[P04] "every commit, once" invoke:IdempotentPersister.CommitBatch : len(a2) == len(commits) && calls() == 0
  at[P04] "same keys in the same order" invoke:IdempotentPersister.CommitBatch : implies(0 <= q && q < len(commits), a2[q].Key == ckey(commits, q))
  at[P04] "same vectors in the same order" invoke:IdempotentPersister.CommitBatch : implies(0 <= q && q < len(commits), a2[q].Vector == cvec(commits, q))
  at[P04] "with an id" invoke:IdempotentPersister.CommitBatch : implies(0 <= q && q < len(commits), a2[q].CommitID != "")
  at[P04] "ids differ within a batch" invoke:IdempotentPersister.CommitBatch : implies(0 <= q && q < q2 && q2 < len(commits), a2[q].CommitID != a2[q2].CommitID)
  at[P04] "ids are new" invoke:IdempotentPersister.CommitBatch : implies(0 <= q && q < len(commits), app("serial", a2[q].CommitID) >= old(ghost("$draws")) && app("serial", a2[q].CommitID) < ghost("$draws"))
  ensures[P04] "a non-empty batch is forwarded" implies(len(commits) > 0, calls() == 1)
  ensures[P04] "the backend's error is returned unchanged" implies(ghost("$fwd.failed") > 0, tag(ret) == ghost("$fwd.errtag") && payload(ret) == ghost("$fwd.errpay"))
  ensures[P04] "no error of its own" implies(ghost("$fwd.failed") == 0, ret == nil)

contract NewIdemShim(impl) (s)
  ensures[P04] "with the given backend" ref(s) != 0 && s.impl == impl

// ---- the factory

def shim(p) = unbox("*vsa/internal/ratelimiter/persistence.IdemShim", payload(p))
def redis_(p) = unbox("*vsa/internal/ratelimiter/persistence.RedisPersister", payload(shim(p).impl))
def kafka_(p) = unbox("*vsa/internal/ratelimiter/persistence.KafkaPersister", payload(shim(p).impl))
def isshim(p) = tag(p) == tagof("*vsa/internal/ratelimiter/persistence.IdemShim") && payload(p) != 0
def day() = 86400000000000

contract BuildPersister(adapter, opts) (p, err)
  option safety P04
  option open github.com/redis/go-redis/v9.NewClient:dial
  requires ghost("$dial") == 0
  at[P04] "the client gets the address" github.com/redis/go-redis/v9.NewClient : a0.Addr == opts.RedisAddr
  ensures[P04,G01] "mock by default" implies(adapter == "" || adapter == "mock", err == nil && tag(p) == tagof("*vsa/internal/ratelimiter/core.mockPersister") && payload(p) != 0)
  ensures[P04,G01] "redis" implies(adapter == "redis", err == nil && isshim(p) && tag(shim(p).impl) == tagof("*vsa/internal/ratelimiter/persistence.RedisPersister"))
  ensures[P04,G01] "redis marker lifetime" implies(adapter == "redis", redis_(p).markerTTL == ite(opts.RedisMarkerTTL <= 0, day(), opts.RedisMarkerTTL))
  ensures[P04,G01] "redis without an address logs" implies(adapter == "redis" && opts.RedisAddr == "", tag(redis_(p).client) == tagof("vsa/internal/ratelimiter/persistence.LoggingRedisEvaler") && ghost("$dial") == 0)
  ensures[P04,G01] "redis with an address connects" implies(adapter == "redis" && opts.RedisAddr != "", tag(redis_(p).client) == tagof("*vsa/internal/ratelimiter/persistence.GoRedisEvaler") && ghost("$dial") == 1)
  ensures[P04,G01] "kafka" implies(adapter == "kafka", err == nil && isshim(p) && tag(shim(p).impl) == tagof("*vsa/internal/ratelimiter/persistence.KafkaPersister"))
  ensures[P04,G01] "kafka topic" implies(adapter == "kafka", kafka_(p).topic == ite(opts.KafkaTopic == "", "vsa-commits", opts.KafkaTopic))
  ensures[P04,G01] "kafka logs" implies(adapter == "kafka", tag(kafka_(p).producer) == tagof("vsa/internal/ratelimiter/persistence.LoggingKafkaProducer"))
  ensures[P04,G01] "any other selector is refused" implies(adapter != "" && adapter != "mock" && adapter != "redis" && adapter != "kafka", err != nil)
  ensures[P04,G01] "with nothing" implies(err != nil, p == nil)

contract NewRedisPersister(client, ttl) (r)
  ensures[P02,P04] "with the given parts" ref(r) != 0 && r.client == client && r.markerTTL == ite(ttl <= 0, day(), ttl) && r.markerTTL > 0

// ---- Redis: the script is run against a store in any state; n() entries have succeeded so far

def n() = ghost("$eval")
def esc(id) = app("replaced", app("replaced", id, "%", "%25"), ":", "%3A")
def counter(es) = cat("counter:", key_(es, n()))
def marker(es) = cat("commit:", key_(es, n()), ":", esc(id_(es, n())))
def seen(es) = bghost("old$r.has", marker(es))
def val(k) = ghost("$r.val", k)
def wasval(k) = ghost("old$r.val", k)
def has_(k) = bghost("$r.has", k)
def washas(k) = bghost("old$r.has", k)
def ttl(k) = ghost("$r.ttl", k)
def wasttl(k) = ghost("old$r.ttl", k)

contract RedisPersister.CommitBatch(r, ctx, entries) (ret)
  option safety P02
  any q other
  requires ref(r) != 0 && r.client != nil && r.markerTTL > 0
  requires n() == 0 && ghost("$eval.failed") == 0
  at[P02] "no more calls than commits" lua.start : n() < len(entries)
  at[P02] "never without an id" lua.start : id_(entries, n()) != ""
  at[P02] "nothing after a failure" lua.start : ghost("$eval.failed") == 0
  at[P02] "a retry changes no counter" lua.end : implies(seen(entries), val(counter(entries)) == wasval(counter(entries)))
  at[P02] "a retry succeeds" lua.end : implies(seen(entries), !a0)
  at[P02] "the marker stays" lua.end : implies(seen(entries), has_(marker(entries)))
  at[P02] "and keeps its expiry" lua.end : implies(seen(entries) && wasttl(marker(entries)) > 0, ttl(marker(entries)) > 0)
  at[P02] "the first time by exactly its vector" lua.end : implies(!seen(entries) && !a0, val(counter(entries)) == wasval(counter(entries)) - vec_(entries, n()))
  at[P02] "the first time leaves a marker" lua.end : implies(!seen(entries) && !a0, has_(marker(entries)))
  at[P02] "that lives as long as configured and expires" lua.end : implies(!seen(entries) && !a0, ttl(marker(entries)) > 0 && ttl(marker(entries)) * 1000000000 >= old(r.markerTTL) && (ttl(marker(entries)) - 1) * 1000000000 < old(r.markerTTL))
  at[P02] "only the store can refuse an update" lua.end : implies(a0 && a1, vec_(entries, n()) == -9223372036854775808)
  at[P02] "a failed update changes no counter" lua.end : implies(a0, val(counter(entries)) == wasval(counter(entries)))
  at[P02] "and leaves no marker" lua.end : implies(a0, has_(marker(entries)) == washas(marker(entries)))
  at[P02] "no other counter" lua.end : implies(other != counter(entries), val(other) == wasval(other))
  at[P02] "no other key" lua.end : implies(other != counter(entries) && other != marker(entries), has_(other) == washas(other) && ttl(other) == wasttl(other))
  at[P02] "the counter's own key" lua.end : implies(washas(counter(entries)), has_(counter(entries))) && implies(wasttl(counter(entries)) == 0, ttl(counter(entries)) == 0)
  ensures[P02] "success means every commit was sent" implies(ret == nil, n() == len(entries))
  ensures[P02] "a failure is reported" implies(ghost("$eval.failed") > 0, ret != nil)
  ensures[P02] "a missing id is an error" implies(0 <= q && q < len(entries) && id_(entries, q) == "", ret != nil)
  ensures[P02] "an error has a reason" implies(ret != nil, ghost("$eval.failed") > 0 || n() < len(entries) && id_(entries, n()) == "")


// ---- the relational adapter: statements in order, inside one transaction

def mark() = ghost("$mark")
def cur(es) = mark() - 1
def settled(es) = ghost("$owed") == 0 || vec_(es, cur(es)) == 0

contract PostgresPersister.CommitBatch(p, ctx, entries) (ret)
  option safety P01
  any q
  requires ref(p) != 0 && ref(p.db) != 0
  requires ghost("$tx") == 0 && ghost("$begun") == 0 && ghost("$committed") == 0 && ghost("$failed") == 0 && mark() == 0 && ghost("$owed") == 0 && ghost("$ins") == 0
  requires forall(kk, ghost("$created", kk) == 0)
  at[P01] "one transaction per batch" sql.begin : ghost("$begun") == 0
  at[P01] "statements run inside the transaction" sql.outside : false
  at[P01] "statements run inside the transaction" sql.exec : ghost("$tx") == 1
  at[P01] "an applied id is no error" sql.conflict : false
  at[P01] "each id is recorded, in order" sql.marker : mark() < len(entries) && a0 == id_(entries, mark())
  at[P01] "never without an id" sql.marker : id_(entries, mark()) != ""
  at[P01] "with its key and vector" sql.marker : a1 == key_(entries, mark()) && a2 == vec_(entries, mark())
  at[P01] "the previous commit is applied" sql.marker : settled(entries)
  at[P01] "only a new commit changes a counter" sql.apply : ghost("$ins") == 1
  at[P01] "and only once" sql.apply : ghost("$owed") == 1
  at[P01] "only its own key, always" sql.apply : iff(a1, a0 == key_(entries, cur(entries)))
  at[P01] "by exactly its vector" sql.apply : implies(a1, a2 == vec_(entries, cur(entries)))
  at[P01] "a missing key is created first" sql.apply : implies(p.createMissingKeys, ghost("$created", key_(entries, cur(entries))) > 0)
  at[P01] "keys are created only when asked, with nothing" sql.create : p.createMissingKeys && a1 == 0 && a2 == 0
  at[P01] "only a new commit changes a token" sql.token : ghost("$ins") == 1 && hastok(entries, cur(entries))
  at[P01] "only its own key's token" sql.token : implies(a1, a0 == key_(entries, cur(entries)))
  at[P01] "a newer token is never replaced by an older one" sql.token : implies(a1 && !a2, !a4 && a5 >= a3)
  at[P01] "tokens come from the commit" sql.token : implies(a1 && !a4, a5 == tok(entries, cur(entries)) || !a2 && a5 == a3)
  at[P01] "nothing is committed after a failure" sql.commit : ghost("$failed") == 0
  at[P01] "all commits are in" sql.commit : mark() == len(entries) && settled(entries)
  ensures[P01] "success means the whole batch" implies(ret == nil && len(entries) > 0, ghost("$committed") == 1)
  ensures[P01] "an error means none of it" implies(ret != nil, ghost("$committed") == 0)
  ensures[P01] "a missing id is an error" implies(0 <= q && q < len(entries) && id_(entries, q) == "", ret != nil)
  ensures[P01] "no transaction is left open" ghost("$tx") != 1
  ensures[P01] "an empty batch does nothing" implies(len(entries) == 0, ghost("$begun") == 0)
  ensures[P01] "an error has a reason" implies(forall(kk, 0, len(entries), id_(entries, kk) != ""), ret == nil || ghost("$failed") > 0)

contract GoRedisEvaler.Eval(g, ctx, script, keys, args) (res, err)
  option open github.com/redis/go-redis/v9.cmdable.Eval:req github.com/redis/go-redis/v9.Cmd.Result:ans
  any q
  requires ref(g) != 0 && ref(g.c) != 0
  requires ghost("$req") == 0 && ghost("$ans") == 0 && ghost("$ans.failed") == 0
  at[P02] "the script, once" github.com/redis/go-redis/v9.cmdable.Eval : a2 == script && ghost("$req") == 0
  at[P02] "with its keys" github.com/redis/go-redis/v9.cmdable.Eval : len(a3) == len(keys) && implies(0 <= q && q < len(keys), a3[q] == keys[q])
  at[P02] "with its arguments" github.com/redis/go-redis/v9.cmdable.Eval : len(a4) == len(args) && implies(0 <= q && q < len(args), tag(a4[q]) == tag(args[q]) && payload(a4[q]) == payload(args[q]))
  ensures[P02] "sent" ghost("$req") == 1 && ghost("$ans") == 1
  ensures[P02] "its error is returned" implies(ghost("$ans.failed") > 0, tag(err) == ghost("$ans.errtag") && payload(err) == ghost("$ans.errpay"))
  ensures[P02] "and no other" implies(ghost("$ans.failed") == 0, err == nil)
