// The HTTP handlers, through the contracts of the accumulator; one request at a time.
package vsa/internal/ratelimiter/api

def core_store(s) = s.store
def key(r) = app("urlvalue", app("urlquery", ref(r.URL)), "api_key")
def stored(s, k) = has(s.store.counters, k)
def acc(s, k) = ref(s.store.counters[k].instance)
def Nk(s, k) = ghost("$N", s.store.counters[k].instance)
def Sk(s, k) = ghost("$S", s.store.counters[k].instance)
def exact(s, k) = !bghost("$gated", s.store.counters[k].instance)
def availk(s, k) = Sk(s, k) - abs(Nk(s, k))
// what the key may still consume before the request: a new key has the whole budget
def before(s, k) = ite(stored(s, k), availk(s, k), s.store.initialScalar)
def pending(s, k) = ite(stored(s, k), Nk(s, k), 0)
def hdr(n) = ghost("$hdr", n)
def status() = ghost("$status")
def existing(r) = 0 < r && r < 1099511627776
def R_store(s) = ref(s) != 0 && forall(kk, implies(has(s.counters, kk), existing(ref(s.counters[kk])) && existing(ref(s.counters[kk].instance)) && app("keyof", ref(s.counters[kk])) == kk && app("ownerof", ref(s.counters[kk].instance)) == ref(s.counters[kk])))
def bigger = 2305843009213693952
def attempts() = ghost("$attempts")
def admitted() = ghost("$admitted")
def refunded() = ghost("$refunded")

contract Server.handleCheckRateLimit(s, w, r)
  option safety A01
  option inverse vsa/internal/ratelimiter/core.Store.counters.vpay:keyof vsa/internal/ratelimiter/core.managedVSA.instance:ownerof
  option count telemetry/churn.ObserveRequest:observed
  any k
  requires ghost("$observed") == 0
  requires ref(s) != 0 && ref(r) != 0 && ref(r.URL) != 0 && w != nil
  requires R_store(s.store) && s.store.initialScalar >= 0 && s.store.initialScalar < bigger
  requires status() == 0
  at[A01] "one status line" http.again : false
  at[A01] "no key: refused" http.status : implies(key(r) == "", a0 == 400)
  at[A01] "admitted or exhausted" http.status : implies(key(r) != "", a0 == 200 || a0 == 429)
  at[A01] "200 with status OK" http.status : implies(a0 == 200, hdr("X-Ratelimit-Status") == "OK")
  at[A01] "429 with status Exceeded" http.status : implies(a0 == 429, hdr("X-Ratelimit-Status") == "Exceeded")
  at[A01] "retry after 60 seconds" http.status : implies(a0 == 429, hdr("Retry-After") == "60")
  at[A01] "the configured limit" http.status : implies(a0 != 400, hdr("X-Ratelimit-Limit") == dec(s.rateLimit))
  at[A01] "what remains of the key" http.status : implies(a0 != 400, stored(s, key(r)) && hdr("X-Ratelimit-Remaining") == dec(availk(s, key(r))))
  ensures[A01] "answered" status() != 0
  ensures[A01] "no key: nothing is consumed" implies(key(r) == "" && old(stored(s, k)), stored(s, k) && Nk(s, k) == old(Nk(s, k)))
  ensures[A01] "admitted: one unit, which was there" implies(status() == 200, pending(s, key(r)) == old(pending(s, key(r))) + 1 && old(before(s, key(r))) >= 1)
  ensures[A01] "denied: nothing" implies(status() == 429, pending(s, key(r)) == old(pending(s, key(r))))
  ensures[A01] "denied only when the budget is exhausted" implies(status() == 429 && exact(s, key(r)), old(before(s, key(r))) < 1)
  ensures[A01] "no other key" implies(k != key(r) && old(stored(s, k)), stored(s, k) && acc(s, k) == old(acc(s, k)) && Nk(s, k) == old(Nk(s, k)) && Sk(s, k) == old(Sk(s, k)))
  ensures[A01] "the scalar is not touched" implies(old(stored(s, key(r))), Sk(s, key(r)) == old(Sk(s, key(r))) && acc(s, key(r)) == old(acc(s, key(r))))
  at[C01] "an admitted request is observed as such, a denied one as such" telemetry/churn.ObserveRequest : a0 == key(r) && ghost("$observed") == 0 && key(r) != ""
  at[C01] "with the decision" telemetry/churn.ObserveRequest : iff(a1, pending(s, key(r)) != old(pending(s, key(r))))
  ensures[C01] "once" implies(key(r) != "", ghost("$observed") == 1)
  ensures[M01] "one attempt per request" attempts() == ite(key(r) == "", old(attempts()), wrap64(old(attempts()) + 1))
  ensures[M01] "one admit per admitted request" admitted() == ite(status() == 200, wrap64(old(admitted()) + 1), old(admitted()))
  ensures[M01] "no refund" refunded() == old(refunded())

contract Server.handleRelease(s, w, r)
  option safety A02
  option inverse vsa/internal/ratelimiter/core.Store.counters.vpay:keyof vsa/internal/ratelimiter/core.managedVSA.instance:ownerof
  any k
  requires ref(s) != 0 && ref(r) != 0 && ref(r.URL) != 0 && w != nil
  requires R_store(s.store) && s.store.initialScalar >= 0 && s.store.initialScalar < bigger
  requires status() == 0
  at[A02] "one status line" http.again : false
  at[A02] "204, or 400 without a key" http.status : a0 == ite(key(r) == "", 400, 204)
  ensures[A02] "answered" status() != 0
  ensures[A02] "no key: nothing is refunded" implies(key(r) == "" && old(stored(s, k)), stored(s, k) && Nk(s, k) == old(Nk(s, k)))
  ensures[A02] "one unit of what is pending" implies(key(r) != "", pending(s, key(r)) == old(pending(s, key(r))) - ite(old(pending(s, key(r))) > 0, 1, 0))
  ensures[A02] "no other key" implies(k != key(r) && old(stored(s, k)), stored(s, k) && acc(s, k) == old(acc(s, k)) && Nk(s, k) == old(Nk(s, k)) && Sk(s, k) == old(Sk(s, k)))
  ensures[A02] "the scalar is not touched" implies(old(stored(s, key(r))), Sk(s, key(r)) == old(Sk(s, key(r))) && acc(s, key(r)) == old(acc(s, key(r))))
  ensures[A02,M01] "a refund is counted exactly when one happened" refunded() == ite(key(r) != "" && old(pending(s, key(r))) > 0, wrap64(old(refunded()) + 1), old(refunded()))
  ensures[M01] "no attempt, no admit" attempts() == old(attempts()) && admitted() == old(admitted())

contract NewServer(store, limit) (s)
  ensures[A01,A02,G01] "with the given parts" ref(s) != 0 && s.store == store && s.rateLimit == limit

// with other requests at any moment between the accumulator operations
def availv(v) = ghost("$S", v) - abs(ghost("$N", v))

contract Server.handleCheckRateLimit'env(s, w, r)
  option setup requests
  option inverse vsa/internal/ratelimiter/core.Store.counters.vpay:keyof vsa/internal/ratelimiter/core.managedVSA.instance:ownerof
  option count vsa.VSA.TryConsume:tries vsa.VSA.Update:updates
  requires ref(s) != 0 && ref(r) != 0 && ref(r.URL) != 0 && w != nil
  requires R_store(s.store) && s.store.initialScalar >= 0 && s.store.initialScalar < bigger
  requires status() == 0 && ghost("$tries") == 0 && ghost("$updates") == 0
  at[A01] "a unit is taken only while it is there" vsa.VSA.Update : a1 <= 0 || availv(a0) >= a1
  at[A01] "one attempt" vsa.VSA.TryConsume : a1 == 1 && ghost("$tries") == 0
  at[A01] "no key: nothing is consumed" vsa.VSA.TryConsume : key(r) != ""

contract Server.handleRelease'env(s, w, r)
  option setup requests
  option inverse vsa/internal/ratelimiter/core.Store.counters.vpay:keyof vsa/internal/ratelimiter/core.managedVSA.instance:ownerof
  option count vsa.VSA.TryRefund:tries
  requires ref(s) != 0 && ref(r) != 0 && ref(r.URL) != 0 && w != nil
  requires R_store(s.store) && s.store.initialScalar >= 0 && s.store.initialScalar < bigger
  requires status() == 0 && ghost("$tries") == 0
  at[A02] "a unit is returned only while it is pending" vsa.VSA.Update : a1 == 0 || a1 == -1 && ghost("$N", a0) > 0
  at[A02] "at most one" vsa.VSA.TryRefund : a1 == 1 && ghost("$tries") == 0
  ensures[A02,M01] "counted when one was returned" refunded() == old(refunded()) || refunded() == wrap64(old(refunded()) + 1)
