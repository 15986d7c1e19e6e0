// The accumulator. Its abstract state is the pair (S, N): the scalar and the pending net.
package vsa

def big = 2305843009213693952

def stripeSum(v) = sum(i, 0, len(v.stripes), v.stripes[i].val)
def groupSum(v) = sum(i, 0, v.hGroups, v.hGroupSum[i])
ghost S(v) = v.scalar
ghost N(v) = wrap64(stripeSum(v) - v.committedOffset)
bghost gated(v) = v.useCachedGate
def avail(v) = S(v) - abs(N(v))

// geometry fixed by the constructor
def R_geom(v) = len(v.stripes) >= 8 && len(v.stripes) <= 64 && v.mask == len(v.stripes) - 1 && ispow2(len(v.stripes)) && ref(v) != 0
      && v.hGroups >= 0 && v.hGroups <= 64 && len(v.hGroupSum) == v.hGroups
      && implies(v.hGroups > 0, v.hStride >= 1 && v.hStride <= 64 && (len(v.stripes) - 1) / v.hStride < v.hGroups)
      && implies(v.groupCount > 1, v.groupStride >= 1 && v.groupStride <= 64)
// the redundant counters agree with the stripes
def R_inv(v) = R_geom(v) && v.approxNet == N(v) && implies(v.hGroups > 0, cong64(groupSum(v), stripeSum(v)))
def R_apart(v, w) = ref(v) != ref(w) && arr(v.stripes) != arr(w.stripes) && arr(v.hGroupSum) != arr(w.hGroupSum)
def dom(v) = -big < S(v) && S(v) < big && -big < N(v) && N(v) < big
def R_dom(v) = v.groupRR < 72057594037927936 && v.tryMu.held == 0

contract VSA.Update(v, value)
  option client yes
  option safety V06
  requires R_inv(v)
  domain dom(v)
  domain R_dom(v)
  other w v
  requires R_apart(v, w)
  ensures[V01] "the scalar is unchanged" S(v) == old(S(v))
  sets[V01,V06] S(v) = S(v)
  sets[V01,V06] N(v) = wrap64(N(v) + value)
  ensures[V01,V02,V03,V05,V06] "the counters agree" R_inv(v)
  ensures[V01,K01] "no other accumulator changes" R_same(w)

def R_same(w) = S(w) == old(S(w)) && N(w) == old(N(w)) && w.approxNet == old(w.approxNet) && groupSum(w) == old(groupSum(w))

contract VSA.Available(v) (a)
  option client yes
  option safety V06
  guarded[V04] v.tryMu | true | vsa.VSA.scalar vsa.VSA.committedOffset []vsa.stripe.val vsa.VSA.approxNet []sync/atomic.Int64 vsa.VSA.rr vsa.VSA.groupRR
  readonly[V04,V06] vsa.VSA. | vsa.VSA.scalar vsa.VSA.committedOffset vsa.VSA.approxNet vsa.VSA.rr vsa.VSA.groupRR vsa.VSA.chooser vsa.VSA.cachedNet vsa.VSA.cachedAt
  ensures[V04] "one critical section" implies(true, acquired() <= 1)
  ensures[V04] "the lock is released" v.tryMu.held == 0
  requires R_inv(v)
  domain dom(v)
  domain R_dom(v)
  other w v
  requires R_apart(v, w)
  ensures[V01,V04,V06] "scalar minus magnitude of the net" a == S(v) - abs(N(v))
  sets[V01] S(v) = S(v)
  sets[V01] N(v) = N(v)
  ensures[V01,V02,V03,V05,V06] "the counters agree" R_inv(v)
  ensures[V01,K01] "no other accumulator changes" R_same(w)

contract VSA.State(v) (s, n)
  option client yes
  option safety V06
  guarded[V04] v.tryMu | true | vsa.VSA.scalar vsa.VSA.committedOffset []vsa.stripe.val vsa.VSA.approxNet []sync/atomic.Int64 vsa.VSA.rr vsa.VSA.groupRR
  readonly[V04,V06] vsa.VSA. | vsa.VSA.scalar vsa.VSA.committedOffset vsa.VSA.approxNet vsa.VSA.rr vsa.VSA.groupRR vsa.VSA.chooser vsa.VSA.cachedNet vsa.VSA.cachedAt
  ensures[V04] "one critical section" implies(true, acquired() <= 1)
  ensures[V04] "the lock is released" v.tryMu.held == 0
  requires R_inv(v)
  domain dom(v)
  domain R_dom(v)
  other w v
  requires R_apart(v, w)
  ensures[V01,V04,V06] "the scalar" s == S(v)
  ensures[V01,V04,V06] "the pending net" n == N(v)
  sets[V01] S(v) = S(v)
  sets[V01] N(v) = N(v)
  ensures[V01,V02,V03,V05,V06] "the counters agree" R_inv(v)
  ensures[V01,K01] "no other accumulator changes" R_same(w)

contract VSA.CheckCommit(v, t) (yes, n)
  option client yes
  option safety V06
  guarded[V04] v.tryMu | true | vsa.VSA.scalar vsa.VSA.committedOffset []vsa.stripe.val vsa.VSA.approxNet []sync/atomic.Int64 vsa.VSA.rr vsa.VSA.groupRR
  readonly[V04,V06] vsa.VSA. | vsa.VSA.scalar vsa.VSA.committedOffset vsa.VSA.approxNet vsa.VSA.rr vsa.VSA.groupRR vsa.VSA.chooser vsa.VSA.cachedNet vsa.VSA.cachedAt
  ensures[V04] "one critical section" implies(true, acquired() <= 1)
  ensures[V04] "the lock is released" v.tryMu.held == 0
  requires R_inv(v)
  domain dom(v)
  domain R_dom(v)
  other w v
  requires R_apart(v, w)
  ensures[V01,V06] "true exactly at the threshold" yes == (abs(N(v)) >= t)
  ensures[V01,V06] "with the pending net" implies(yes, n == N(v))
  sets[V01] S(v) = S(v)
  sets[V01] N(v) = N(v)
  ensures[V01,V02,V03,V05,V06] "the counters agree" R_inv(v)
  ensures[V01,K01] "no other accumulator changes" R_same(w)

contract VSA.Commit(v, m)
  option client yes
  option safety V06
  guarded[V04] v.tryMu | true | vsa.VSA.scalar vsa.VSA.committedOffset []vsa.stripe.val vsa.VSA.approxNet []sync/atomic.Int64 vsa.VSA.rr vsa.VSA.groupRR
  readonly[V04,V06] vsa.VSA. | vsa.VSA.scalar vsa.VSA.committedOffset vsa.VSA.approxNet vsa.VSA.rr vsa.VSA.groupRR vsa.VSA.chooser vsa.VSA.cachedNet vsa.VSA.cachedAt
  ensures[V04] "one critical section" implies(true, acquired() <= 1)
  ensures[V04] "the lock is released" v.tryMu.held == 0
  requires R_inv(v)
  domain dom(v)
  domain R_dom(v)
  other w v
  requires R_apart(v, w)
  let k = min(abs(m), abs(N(v)))
  sets[V01,V02,V04,V06] S(v) = S(v) - k
  sets[V01,V02,V04,V06] N(v) = ite(N(v) > 0, N(v) - k, N(v) + k)
  ensures[V02] "availability is unchanged" S(v) - abs(N(v)) == old(S(v) - abs(N(v)))
  ensures[V01,V02,V03,V05,V06] "the counters agree" R_inv(v)
  ensures[V01,K01] "no other accumulator changes" R_same(w)

contract VSA.TryConsume(v, n) (ok)
  option client yes
  option safety V06
  guarded[V04] v.tryMu | v.fastPathGuard <= 0 | vsa.VSA.scalar vsa.VSA.committedOffset []vsa.stripe.val vsa.VSA.approxNet []sync/atomic.Int64 vsa.VSA.rr vsa.VSA.groupRR
  readonly[V04,V06] vsa.VSA. | vsa.VSA.scalar vsa.VSA.committedOffset vsa.VSA.approxNet vsa.VSA.rr vsa.VSA.groupRR vsa.VSA.chooser vsa.VSA.cachedNet vsa.VSA.cachedAt
  ensures[V04] "one critical section" implies(v.fastPathGuard <= 0, acquired() <= 1)
  ensures[V04] "the lock is released" v.tryMu.held == 0
  requires R_inv(v)
  domain dom(v)
  domain R_dom(v)
  other w v
  requires R_apart(v, w)
  ensures[V03,V04,V06] "granted only when covered" implies(ok, n > 0 && old(avail(v)) >= n)
  ensures[V03,V06] "a covered request is granted" implies(n > 0 && old(avail(v)) >= n && !gated(v), ok)
  ensures[V03] "availability drops by n" implies(ok && old(N(v)) >= 0, avail(v) == old(avail(v)) - n)
  sets[V01,V03,V04,V06] S(v) = S(v)
  sets[V01,V03,V04,V06] N(v) = ite(ok, N(v) + n, N(v))
  ensures[V01,V02,V03,V05,V06] "the counters agree" R_inv(v)
  ensures[V01,K01] "no other accumulator changes" R_same(w)

contract VSA.TryRefund(v, n) (ok)
  option client yes
  option safety V06
  guarded[V04] v.tryMu | true | vsa.VSA.scalar vsa.VSA.committedOffset []vsa.stripe.val vsa.VSA.approxNet []sync/atomic.Int64 vsa.VSA.rr vsa.VSA.groupRR
  readonly[V04,V06] vsa.VSA. | vsa.VSA.scalar vsa.VSA.committedOffset vsa.VSA.approxNet vsa.VSA.rr vsa.VSA.groupRR vsa.VSA.chooser vsa.VSA.cachedNet vsa.VSA.cachedAt
  ensures[V04] "one critical section" implies(true, acquired() <= 1)
  ensures[V04] "the lock is released" v.tryMu.held == 0
  requires R_inv(v)
  domain dom(v)
  domain R_dom(v)
  other w v
  requires R_apart(v, w)
  ensures[V04,V05,V06] "succeeds exactly when something is pending" ok == (n > 0 && old(N(v)) > 0)
  sets[V04,V05,V06] S(v) = S(v)
  sets[V01,V04,V05,V06] N(v) = ite(ok, N(v) - min(n, N(v)), N(v))
  ensures[V05] "the net does not go negative" implies(ok, N(v) >= 0)
  ensures[V05] "availability rises by what was refunded" implies(ok, avail(v) == old(avail(v)) + min(n, old(N(v))))
  ensures[V01,V02,V03,V05,V06] "the counters agree" R_inv(v)
  ensures[V01,K01] "no other accumulator changes" R_same(w)

// What the constructor builds, for every option value.
contract NewWithOptions(s0, o) (v)
  option client yes
  option safety V06
  allocates v
  ensures[V06,K01] "the scalar is the initial value" S(v) == s0
  ensures[V06,K01] "nothing is pending" N(v) == 0
  ensures[V06,A01] "the cached gate only when asked for" gated(v) == o.UseCachedGate
  ensures[V06,V01] "availability is the initial scalar" S(v) - abs(N(v)) == s0
  ensures[V01,V02,V03,V05,V06] "the counters agree" R_inv(v)
  ensures[V06,V04] "the lock is free" v.tryMu.held == 0 && v.groupRR == 0
  ensures[V07] "a goroutine exactly when the cached gate is on" spawned() == ite(o.UseCachedGate, 1, 0)
  ensures[V07] "it can be stopped" R_stoppable(v) && !v.closeOnce.done
  ensures[V07,V06] "it ticks" implies(o.UseCachedGate, v.cacheInterval > 0)
  ensures[V06,V03] "the gates are those asked for" v.useCachedGate == o.UseCachedGate && iff(v.fastPathGuard > 0, o.FastPathGuard > 0)

contract New(s0) (v)
  option client yes
  option safety V06
  allocates v
  ensures[V06] "the scalar is the initial value" S(v) == s0
  ensures[V06] "nothing is pending" N(v) == 0
  ensures[V06] "no cached gate" !gated(v)
  ensures[V01,V02,V03,V05,V06] "the counters agree" R_inv(v)
  ensures[V07] "no goroutine" spawned() == 0 && v.stopCh == nil
  ensures[V06,V03] "no approximate gate" !v.useCachedGate && v.fastPathGuard <= 0

// the refresher is running exactly when it can be told to stop
def R_stoppable(v) = iff(v.useCachedGate, v.stopCh != nil) && implies(v.stopCh != nil, iff(closed(v.stopCh), v.closeOnce.done))

contract VSA.Close(v)
  option client yes
  option safety V07
  requires R_inv(v)
  requires R_stoppable(v)
  domain R_dom(v)
  other w v
  requires R_apart(v, w)
  sets[V07] S(v) = S(v)
  sets[V07] N(v) = N(v)
  ensures[V07] "the refresher is told to stop" implies(v.useCachedGate, closed(v.stopCh))
  ensures[V07] "closing again is harmless" R_stoppable(v) && v.closeOnce.done
  ensures[V07] "no goroutine" spawned() == 0
  ensures[V07] "the counters agree" R_inv(v)
  ensures[V07,K01] "no other accumulator changes" R_same(w)

contract VSA.runAggregator(v)
  option safety V07
  guarded[V07] v.tryMu | true | vsa.VSA.scalar vsa.VSA.committedOffset []vsa.stripe.val vsa.VSA.approxNet []sync/atomic.Int64 vsa.VSA.rr vsa.VSA.groupRR
  requires R_inv(v)
  requires R_stoppable(v)
  requires v.cacheInterval > 0
  domain dom(v)
  domain R_dom(v)
  sets[V07] S(v) = S(v)
  sets[V07] N(v) = N(v)
  ensures[V07] "a refresh stores the pending net" v.cachedNet == N(v) || v.cachedNet == old(v.cachedNet)
  ensures[V07] "the counters agree" R_inv(v)
  ensures[V07] "no goroutine" spawned() == 0

// The induction behind V04: with gated operations atomic (one critical section each, above), the
// steps below are the only ones, and B is what holds between them. G is granted minus refunded.
def B(S0, S, N, G) = S0 >= 0 && N >= 0 && S - N >= 0 && G == S0 - S + N
lemma[V04] budget_start(S0)
  requires S0 >= 0
  ensures[V04] "holds initially" B(S0, S0, 0, 0)
lemma[V04] budget_bound(S0, S, N, G)
  requires B(S0, S, N, G)
  ensures[V04] "granted and not refunded is within the budget" G <= S0
  ensures[V04] "availability is not negative" S - abs(N) >= 0
lemma[V04] budget_grant(S0, S, N, G, n)
  requires B(S0, S, N, G) && n > 0 && S - abs(N) >= n
  ensures[V04] "a grant keeps it" B(S0, S, N + n, G + n)
lemma[V04] budget_refund(S0, S, N, G, n)
  requires B(S0, S, N, G) && n > 0 && N > 0
  ensures[V04] "a refund keeps it" B(S0, S, N - min(n, N), G - min(n, N))
lemma[V04] budget_commit(S0, S, N, G, m)
  requires B(S0, S, N, G)
  let k = min(abs(m), abs(N))
  ensures[V04] "a commit keeps it" B(S0, S - k, ite(N > 0, N - k, N + k), G)
