// The two-lane processing plugin.
package vsa/plugin/tfd

def id(s) = app("fnv.sum", app("fnv.str", app("fnv.init"), s))

contract HashKey(s) (h)
  ensures[T01] "the id is a function of the text" h == id(s)

def forcedV(op) = op.IsBackdated || op.IsCrossKey || op.ChangesPolicy || op.NeedsExternalDecision || op.IsGlobal
def isS(op) = op.Key != "" && op.IsSingleKey && op.IsConservativeDelta && !forcedV(op)

contract Classify(op) (ch, fp, d, err)
  option safety T01
  ensures[T01] "scalar exactly when provably commutative" iff(ch == 0, isS(op))
  ensures[T01] "otherwise ordered" implies(ch != 0, ch == 1)
  ensures[T01] "an operation without a key is an error" iff(err != nil, op.Key == "")
  ensures[T01] "the footprint names the key" implies(op.Key != "", fp.KeyID == id(op.Key))
  ensures[T01] "the footprint names the bucket" implies(op.Key != "" && op.Bucket != "", fp.Time.BucketID == id(op.Bucket) && !fp.Time.All)
  ensures[T01] "no bucket means all" implies(op.Key != "" && op.Bucket == "", fp.Time.All)
  ensures[T01] "the footprint is of the lane" implies(op.Key != "", fp.Scope == ch)
  ensures[T01] "the amount is passed through" implies(op.Key != "", d == op.Amount)

def overlap(f, g) = f.KeyID == g.KeyID && (f.Time.All || g.Time.All || f.Time.BucketID == g.Time.BucketID)

contract Footprint.Disjoint(f, g) (b)
  option safety T01
  ensures[T01] "independent only if both scalar without a common cell" iff(b, f.Scope == 0 && g.Scope == 0 && !overlap(f, g))

lemma[T01] disjoint_symmetric(fs, fk, fb, fa, gs, gk, gb, ga)
  ensures[T01] "a common cell is symmetric" iff(fk == gk && (fa == 1 || ga == 1 || fb == gb), gk == fk && (ga == 1 || fa == 1 || gb == fb))

// A queue is the sequence of its values.
def qlen(a) = ghost("$llen", a.queue)
def qval(a, i) = unbox("vsa/plugin/tfd.Envelope", ghost("container/list.Element.Value.pay", app("inj.lnode", ref(a.queue), ghost("$lstart", a.queue) + i)))
def R_actor(a) = ref(a) != 0 && ref(a.queue) != 0 && a.mu.held == 0
// its elements are envelopes
def R_typed(a, q) = implies(0 <= q && q < qlen(a), ghost("container/list.Element.Value.tag", app("inj.lnode", ref(a.queue), ghost("$lstart", a.queue) + q)) == tagof("vsa/plugin/tfd.Envelope"))
def R_alltyped(a) = forall(kk, implies(0 <= kk && kk < qlen(a), ghost("container/list.Element.Value.tag", app("inj.lnode", ref(a.queue), ghost("$lstart", a.queue) + kk)) == tagof("vsa/plugin/tfd.Envelope")))
def sameLink(e, f) = e.HashPrev[0] == f.HashPrev[0] && e.HashPrev[1] == f.HashPrev[1] && e.HashPrev[2] == f.HashPrev[2] && e.HashPrev[3] == f.HashPrev[3] && e.HashPrev[4] == f.HashPrev[4] && e.HashPrev[5] == f.HashPrev[5] && e.HashPrev[6] == f.HashPrev[6] && e.HashPrev[7] == f.HashPrev[7] && e.HashPrev[8] == f.HashPrev[8] && e.HashPrev[9] == f.HashPrev[9] && e.HashPrev[10] == f.HashPrev[10] && e.HashPrev[11] == f.HashPrev[11] && e.HashPrev[12] == f.HashPrev[12] && e.HashPrev[13] == f.HashPrev[13] && e.HashPrev[14] == f.HashPrev[14] && e.HashPrev[15] == f.HashPrev[15]
def sameBody(e, f) = e.Channel == f.Channel && e.Footprint.KeyID == f.Footprint.KeyID && e.Footprint.Time.BucketID == f.Footprint.Time.BucketID && e.Footprint.Time.All == f.Footprint.Time.All && e.Footprint.Scope == f.Footprint.Scope && e.Delta == f.Delta && e.SeqEnd == f.SeqEnd

contract VActor.Enqueue(a, env) (out)
  option safety T05
  any q q2
  other b a
  requires R_actor(a)
  requires ref(a.queue) != ref(b.queue)
  requires 0 <= q && q < qlen(a)
  guarded[T05] a.mu | true | $list
  ensures[T05] "an ordered envelope is queued once" qlen(a) == old(qlen(a)) + ite(env.Channel == 1, 1, 0)
  ensures[T05] "at the end" implies(env.Channel == 1, sameBody(qval(a, qlen(a) - 1), env))
  ensures[T05] "what was queued stays as it was" sameBody(qval(a, q), old(qval(a, q)))
  ensures[T05] "no other queue changes" qlen(b) == old(qlen(b))
  ensures[T05] "the result is what was queued" sameBody(out, env)
  ensures[T05] "with the audit link" implies(env.Channel == 1, sameLink(qval(a, qlen(a) - 1), out))
  ensures[T05] "the queue holds envelopes" implies(old(R_typed(a, q2)) , R_typed(a, q2))
  ensures[T05] "what was queued keeps its link" sameLink(qval(a, q), old(qval(a, q)))
  ensures[T05] "the lock is released" a.mu.held == 0
  pure[T05] "the audit link is a function of key and sequence number, byte 0" ite(env.Channel == 1, out.HashPrev[0], 0) | a.keyID, env.SeqEnd, env.Channel
  pure[T05] "the audit link is a function of key and sequence number, byte 1" ite(env.Channel == 1, out.HashPrev[1], 0) | a.keyID, env.SeqEnd, env.Channel
  pure[T05] "the audit link is a function of key and sequence number, byte 2" ite(env.Channel == 1, out.HashPrev[2], 0) | a.keyID, env.SeqEnd, env.Channel
  pure[T05] "the audit link is a function of key and sequence number, byte 3" ite(env.Channel == 1, out.HashPrev[3], 0) | a.keyID, env.SeqEnd, env.Channel
  pure[T05] "the audit link is a function of key and sequence number, byte 4" ite(env.Channel == 1, out.HashPrev[4], 0) | a.keyID, env.SeqEnd, env.Channel
  pure[T05] "the audit link is a function of key and sequence number, byte 5" ite(env.Channel == 1, out.HashPrev[5], 0) | a.keyID, env.SeqEnd, env.Channel
  pure[T05] "the audit link is a function of key and sequence number, byte 6" ite(env.Channel == 1, out.HashPrev[6], 0) | a.keyID, env.SeqEnd, env.Channel
  pure[T05] "the audit link is a function of key and sequence number, byte 7" ite(env.Channel == 1, out.HashPrev[7], 0) | a.keyID, env.SeqEnd, env.Channel
  pure[T05] "the audit link is a function of key and sequence number, byte 8" ite(env.Channel == 1, out.HashPrev[8], 0) | a.keyID, env.SeqEnd, env.Channel
  pure[T05] "the audit link is a function of key and sequence number, byte 9" ite(env.Channel == 1, out.HashPrev[9], 0) | a.keyID, env.SeqEnd, env.Channel
  pure[T05] "the audit link is a function of key and sequence number, byte 10" ite(env.Channel == 1, out.HashPrev[10], 0) | a.keyID, env.SeqEnd, env.Channel
  pure[T05] "the audit link is a function of key and sequence number, byte 11" ite(env.Channel == 1, out.HashPrev[11], 0) | a.keyID, env.SeqEnd, env.Channel
  pure[T05] "the audit link is a function of key and sequence number, byte 12" ite(env.Channel == 1, out.HashPrev[12], 0) | a.keyID, env.SeqEnd, env.Channel
  pure[T05] "the audit link is a function of key and sequence number, byte 13" ite(env.Channel == 1, out.HashPrev[13], 0) | a.keyID, env.SeqEnd, env.Channel
  pure[T05] "the audit link is a function of key and sequence number, byte 14" ite(env.Channel == 1, out.HashPrev[14], 0) | a.keyID, env.SeqEnd, env.Channel
  pure[T05] "the audit link is a function of key and sequence number, byte 15" ite(env.Channel == 1, out.HashPrev[15], 0) | a.keyID, env.SeqEnd, env.Channel

contract VActor.Drain(a) (out)
  option safety T05
  any q
  other b a
  requires R_actor(a)
  requires ref(a.queue) != ref(b.queue)
  requires R_alltyped(a)
  requires 0 <= q
  guarded[T05] a.mu | true | $list
  ensures[T05] "everything queued is returned" len(out) == old(qlen(a))
  ensures[T05] "in order, unchanged" implies(q < len(out), sameBody(out[q], old(qval(a, q))))
  ensures[T05] "with its audit link" implies(q < len(out), sameLink(out[q], old(qval(a, q))))
  ensures[T05] "the queue is empty" qlen(a) == 0
  ensures[T05] "no other queue changes" qlen(b) == old(qlen(b))
  ensures[T05] "the lock is released" a.mu.held == 0

def act(r, k) = mapget(r, "actors", k)
def R_router(r) = ref(r) != 0 && r.mu.held == 0 && ref(r.actors) != 0 && forall(kk, implies(ref(act(r, kk)) != 0, R_actor(act(r, kk)) && act(r, kk).keyID == kk && app("queueof", ref(act(r, kk).queue)) == ref(act(r, kk))))

contract VRouter.Route(r, key) (a)
  option safety T05
  any k2
  requires R_router(r)
  guarded[T05] r.mu | true | map[uint64]*vsa/plugin/tfd.VActor.dom map[uint64]*vsa/plugin/tfd.VActor
  ensures[T05,T06] "the actor of the key" ref(a) != 0 && ref(act(r, key)) == ref(a) && a.keyID == key
  ensures[T05,T06] "the same one as before" implies(ref(old(act(r, key))) != 0, ref(a) == ref(old(act(r, key))))
  ensures[T05,T06] "a new one is empty" implies(ref(old(act(r, key))) == 0, qlen(a) == 0 && ref(a.queue) != 0 && a.mu.held == 0)
  ensures[T05,T06] "no other key's actor changes" implies(k2 != key, ref(act(r, k2)) == ref(old(act(r, k2))))
  ensures[T05] "the lock is released" r.mu.held == 0

contract NewVRouter() (r)
  option safety T05
  any k
  ensures[T05] "no key has an actor" ref(r) != 0 && ref(r.actors) != 0 && ref(act(r, k)) == 0 && r.mu.held == 0

def sent(s) = ghost("chan.sent", s.in)
def lastsent(s) = unbox("vsa/plugin/tfd.Envelope", ghost("chan.last", s.in))
def isold(b) = ref(b) != 0

contract SService.TryIngest(s, env) (ok)
  option safety T04
  requires ref(s) != 0 && ref(s.in) != 0 && !closed(s.in)
  ensures[T04,T06] "accepted means delivered to the worker once" sent(s) == old(sent(s)) + ite(ok && env.Channel == 0, 1, 0)
  ensures[T04,T06] "with its content" implies(ok && env.Channel == 0, sameBody(lastsent(s), env))
  ensures[T04,T06] "an ordered envelope is ignored" implies(env.Channel != 0, ok)

contract SService.Ingest(s, env)
  option safety T04
  requires ref(s) != 0 && ref(s.in) != 0 && !closed(s.in)
  ensures[T04,T06] "delivered to the worker once" sent(s) == old(sent(s)) + ite(env.Channel == 0, 1, 0)
  ensures[T04,T06] "with its content" implies(env.Channel == 0, sameBody(lastsent(s), env))

def akey(p, env) = act(p.v, env.Footprint.KeyID)
def calls(f) = ghost("$calls", f)
def callarg(f) = unbox("vsa/plugin/tfd.Envelope", ghost("$callarg", f))

contract Pipeline.Handle(p, env, persist)
  option safety T06
  option callbacks yes
  any k
  requires R_router(p.v)
  domain env.Channel == 0 || env.Channel == 1
  requires ref(p) != 0 && ref(p.s) != 0 && ref(p.s.in) != 0 && !closed(p.s.in)
  ensures[T06] "a scalar envelope goes to the scalar lane once" sent(p.s) == old(sent(p.s)) + ite(env.Channel == 0, 1, 0)
  ensures[T06] "with its content" implies(env.Channel == 0, sameBody(lastsent(p.s), env))
  ensures[T06] "a scalar envelope is never queued" implies(env.Channel == 0 && ref(old(act(p.v, k))) != 0, qlen(old(act(p.v, k))) == old(qlen(act(p.v, k))))
  ensures[T06] "an ordered envelope is queued once for its key" implies(env.Channel == 1, qlen(akey(p, env)) == ite(ref(old(akey(p, env))) != 0, old(qlen(akey(p, env))), 0) + 1)
  ensures[T06] "as it is" implies(env.Channel == 1, sameBody(qval(akey(p, env), qlen(akey(p, env)) - 1), env))
  ensures[T06] "no other key's queue changes" implies(env.Channel == 1 && k != env.Footprint.KeyID && ref(old(act(p.v, k))) != 0, qlen(old(act(p.v, k))) == old(qlen(act(p.v, k))))
  ensures[T06] "the callback is called once for an ordered envelope only" implies(persist != nil, calls(persist) == old(calls(persist)) + ite(env.Channel == 1, 1, 0))
  ensures[T06] "with the envelope as queued" implies(persist != nil && env.Channel == 1, sameBody(callarg(persist), env) && sameLink(callarg(persist), qval(akey(p, env), qlen(akey(p, env)) - 1)))
  ensures[T06] "after queuing" implies(persist != nil && env.Channel == 1, ghost("$call.llen", akey(p, env).queue) == qlen(akey(p, env)))

contract SService.run(s)
  option safety T04
  option setup service
  any kk bb
  requires ref(s) != 0 && ref(s.acc) != 0 && s.sink != nil && s.opts.FlushInterval > 0
  requires ref(s.in) != 0 && ref(s.stopCh) != 0 && ref(s.doneCh) != 0 && ref(s.flushReqCh) != 0
  requires ref(s.in) != ref(s.stopCh)
  requires !closed(s.doneCh)
  requires ghost("$R") == 0 && ghost("$H") == 0 && ghost("$D") == 0 && ghost("$stopseen") == 0
  keeps[T04] "received is held or delivered" ghost("$R") == ghost("$H") + ghost("$D")
  keeps[T04] "the worker has not ended" !closed(s.doneCh)
  ensures[T04] "the worker ends only when told to stop" ghost("$stopseen") > 0
  ensures[T04] "everything received was delivered" ghost("$R") == ghost("$D") && bghost("$drained")
  ensures[T04] "the end is signalled" closed(s.doneCh)

contract SService.Start(s)
  option safety T04
  requires ref(s) != 0
  ensures[T04] "one worker, started once" spawned() == ite(old(s.once.done), 0, 1) && ghost("$go:vsa/plugin/tfd.SService.run") - old(ghost("$go:vsa/plugin/tfd.SService.run")) == spawned()
  ensures[T04] "not again" s.once.done

contract SService.Stop(s)
  option safety T04
  requires ref(s) != 0 && ref(s.stopCh) != 0 && !closed(s.stopCh) && ref(s.stopCh) != ref(s.doneCh)
  ensures[T04] "the worker is told to stop" closed(s.stopCh)
  ensures[T04] "and its end is awaited" ghost("chan.nrecv", s.doneCh) == old(ghost("chan.nrecv", s.doneCh)) + 1

contract SService.Flush(s)
  option safety T04
  requires ref(s) != 0 && ref(s.flushReqCh) != 0 && !closed(s.flushReqCh)
  ensures[T04] "one request" ghost("chan.sent", s.flushReqCh) == old(ghost("chan.sent", s.flushReqCh)) + 1
  ensures[T04] "with a channel of its own" ghost("chan.last", s.flushReqCh) >= 1099511627776 && !closed(ghost("chan.last", s.flushReqCh))
  ensures[T04] "whose answer is awaited" ghost("chan.nrecv", ghost("chan.last", s.flushReqCh)) == 1

contract NewSService(acc, v, sink, o) (s)
  option safety T04
  ensures[T04] "a working service" ref(s) != 0 && ref(s.in) != 0 && ref(s.stopCh) != 0 && ref(s.doneCh) != 0 && ref(s.flushReqCh) != 0 && s.opts.FlushInterval > 0
  ensures[T04] "with its parts" ref(s.acc) == ref(acc) && s.vsa == v && s.sink == sink
  ensures[T04] "not started, not stopped" !s.once.done && !closed(s.stopCh) && !closed(s.doneCh) && !closed(s.in) && !closed(s.flushReqCh)
  ensures[T04] "separate channels" ref(s.in) != ref(s.stopCh) && ref(s.stopCh) != ref(s.doneCh)

// A shard: free slots hold nothing; the tables are separate and of one length.
def n_(s) = len(s.keys)
def R_tabs(s) = ref(s) != 0 && len(s.keyIDs) == n_(s) && len(s.bucketIDs) == n_(s) && len(s.sums) == n_(s) && len(s.seqEnds) == n_(s) && n_(s) >= 1 && s.mask == n_(s) - 1 && n_(s) < 1099511627776
def R_free(s) = forall(ii, implies(0 <= ii && ii < n_(s) && s.keys[ii] == 0, s.sums[ii] == 0 && s.seqEnds[ii] == 0))
// assumed: a cell has at most one slot, here its slotof (the probe order keeps it so; see T02 in DESIGN.md)
def R_once(s) = forall(ii, implies(0 <= ii && ii < n_(s) && s.keys[ii] != 0, app("slotof", s.keyIDs[ii], s.bucketIDs[ii]) == ii))
def usedSum(s) = sum(ii, 0, n_(s), ite(s.keys[ii] != 0, 1, 0))
def cellAt(s, i, k, b) = s.keys[i] != 0 && s.keyIDs[i] == k && s.bucketIDs[i] == b
def held(s, k, b) = sum(ii, 0, n_(s), ite(cellAt(s, ii, k, b), s.sums[ii], 0))
def slots(s, k, b) = sum(ii, 0, n_(s), ite(cellAt(s, ii, k, b), 1, 0))
def above(s, k, b, z) = sum(ii, 0, n_(s), ite(cellAt(s, ii, k, b) && s.seqEnds[ii] >= z, 1, 0))
def small(x) = -1099511627776 < x && x < 1099511627776

def outSum(o, a, b2, k, b) = sum(ii, a, b2, ite(o[ii].KeyID == k && o[ii].BucketID == b, o[ii].NetDelta, 0))
def outCnt(o, a, b2, k, b) = sum(ii, a, b2, ite(o[ii].KeyID == k && o[ii].BucketID == b, 1, 0))
def outAbove(o, a, b2, k, b, z) = sum(ii, a, b2, ite(o[ii].KeyID == k && o[ii].BucketID == b && o[ii].SeqEnd >= z, 1, 0))

contract SShard.Flush(s, out)
  option safety T02
  option cell out
  option apart s.keys s.keyIDs s.bucketIDs s.seqEnds s.sums
  option witness yes
  any k b z q
  requires R_tabs(s)
  requires R_free(s)
  requires s.used == usedSum(s)
  ensures[T02] "each cell is emitted with what it held" outSum(deref(out), old(len(deref(out))), len(deref(out)), k, b) == old(held(s, k, b))
  ensures[T02] "as often as it has slots" outCnt(deref(out), old(len(deref(out))), len(deref(out)), k, b) == old(slots(s, k, b))
  ensures[T02] "with its sequence numbers" outAbove(deref(out), old(len(deref(out))), len(deref(out)), k, b, z) == old(above(s, k, b, z))
  ensures[T02] "what was emitted before stays" len(deref(out)) >= old(len(deref(out))) && implies(0 <= q && q < old(len(deref(out))), deref(out)[q].KeyID == old(deref(out)[q].KeyID) && deref(out)[q].BucketID == old(deref(out)[q].BucketID) && deref(out)[q].NetDelta == old(deref(out)[q].NetDelta) && deref(out)[q].SeqEnd == old(deref(out)[q].SeqEnd))
  ensures[T02] "nothing is held after" implies(0 <= q && q < n_(s), s.keys[q] == 0) && s.used == 0
  ensures[T02] "free slots hold nothing" implies(0 <= q && q < n_(s), s.sums[q] == 0 && s.seqEnds[q] == 0)
  ensures[T02] "the tables stay" R_tabs(s) && n_(s) == old(n_(s))

contract SShard.probe(s, k, keyID, bucketID) (i)
  option modular yes
  option safety T02
  option apart s.keys s.keyIDs s.bucketIDs s.seqEnds s.sums
  requires R_tabs(s)
  ensures[T02] "a slot" 0 <= i && i < n_(s)
  ensures[T02] "of the cell, or free" s.keys[i] == 0 || (s.keys[i] == k && s.keyIDs[i] == keyID && s.bucketIDs[i] == bucketID)

contract SShard.rehash(s, n)
  option modular yes
  option safety T02
  option apart s.keys s.keyIDs s.bucketIDs s.seqEnds s.sums
  option modifies s.keys s.keyIDs s.bucketIDs s.seqEnds s.sums s.mask
  option witness yes
  any k b z
  requires R_tabs(s)
  requires R_free(s)
  requires 1 <= n && n < 1099511627776
  domain R_once(s)
  keeps[T02] "what was moved came from an earlier slot" forall(ii, implies(0 <= ii && ii < n_(s) && s.keys[ii] != 0, app("slotof", s.keyIDs[ii], s.bucketIDs[ii]) < iter()))
  keeps[T02] "free slots hold nothing" implies(iter() >= 0, R_free(s))
  keeps[T02] "the tables stay" implies(iter() >= 0, R_tabs(s) && n_(s) == n)
  keeps[T02] "the deltas are moved" held(s, k, b) == sum(jj, 0, iter(), ite(old(cellAt(s, jj, k, b)), old(s.sums[jj]), 0))
  keeps[T02] "the slots are moved" slots(s, k, b) == sum(jj, 0, iter(), ite(old(cellAt(s, jj, k, b)), 1, 0))
  keeps[T02] "the sequence numbers are moved" above(s, k, b, z) == sum(jj, 0, iter(), ite(old(cellAt(s, jj, k, b)) && old(s.seqEnds[jj]) >= z, 1, 0))
  keeps[T02] "the used slots are moved" usedSum(s) == sum(jj, 0, iter(), ite(old(s.keys[jj]) != 0, 1, 0))
  ensures[T02] "nothing is lost" held(s, k, b) == old(held(s, k, b))
  ensures[T02] "or duplicated" slots(s, k, b) == old(slots(s, k, b))
  ensures[T02] "sequence numbers stay" above(s, k, b, z) == old(above(s, k, b, z))
  ensures[T02] "as many used" usedSum(s) == old(usedSum(s))
  ensures[T02] "free slots hold nothing" R_free(s)
  ensures[T02] "well-formed" R_tabs(s) && n_(s) == n

contract SShard.Ingest(s, env)
  option safety T02
  option apart s.keys s.keyIDs s.bucketIDs s.seqEnds s.sums
  any k b z q
  requires R_tabs(s)
  requires R_free(s)
  requires s.used == usedSum(s) && s.used < n_(s)
  domain n_(s) < 274877906944
  ensures[T02] "the cell holds the delta, no other cell changes" cong64(held(s, k, b), old(held(s, k, b)) + ite(env.Footprint.KeyID == k && env.Footprint.Time.BucketID == b, env.Delta, 0))
  ensures[T02] "and the sequence number" iff(above(s, k, b, z) > 0, old(above(s, k, b, z)) > 0 || (env.Footprint.KeyID == k && env.Footprint.Time.BucketID == b && env.SeqEnd >= z))
  ensures[T02] "the tables stay well-formed" R_tabs(s)
  ensures[T02] "free slots hold nothing" R_free(s)
  ensures[T02] "the slots in use are counted" s.used == usedSum(s)
  ensures[T02] "a slot stays free" s.used < n_(s)

contract SShard.FlushKey(s, keyID, out)
  option safety T02
  option cell out
  option apart s.keys s.keyIDs s.bucketIDs s.seqEnds s.sums
  option witness yes
  any k b z q
  requires R_tabs(s)
  requires R_free(s)
  requires s.used == usedSum(s)
  domain R_once(s)
  ensures[T02] "each cell of the key is emitted with what it held" outSum(deref(out), old(len(deref(out))), len(deref(out)), k, b) == ite(k == keyID, old(held(s, k, b)), 0)
  ensures[T02] "as often as it has slots" outCnt(deref(out), old(len(deref(out))), len(deref(out)), k, b) == ite(k == keyID, old(slots(s, k, b)), 0)
  ensures[T02] "with its sequence numbers" outAbove(deref(out), old(len(deref(out))), len(deref(out)), k, b, z) == ite(k == keyID, old(above(s, k, b, z)), 0)
  ensures[T02] "what was emitted before stays" len(deref(out)) >= old(len(deref(out))) && implies(0 <= q && q < old(len(deref(out))), deref(out)[q].KeyID == old(deref(out)[q].KeyID) && deref(out)[q].BucketID == old(deref(out)[q].BucketID) && deref(out)[q].NetDelta == old(deref(out)[q].NetDelta) && deref(out)[q].SeqEnd == old(deref(out)[q].SeqEnd))
  ensures[T02] "the other cells hold what they held" held(s, k, b) == ite(k == keyID, 0, old(held(s, k, b)))
  ensures[T02] "and their sequence numbers" above(s, k, b, z) == ite(k == keyID, 0, old(above(s, k, b, z)))
  ensures[T02] "free slots hold nothing" R_free(s)
  ensures[T02] "the slots in use are counted" s.used == usedSum(s)
  ensures[T02] "the tables stay" R_tabs(s) && n_(s) == old(n_(s))

contract newSShard(order, count, cap) (s)
  option safety T02
  any q
  domain 0 <= order && order <= 30
  ensures[T02] "well-formed" R_tabs(s)
  ensures[T02] "nothing is held" implies(0 <= q && q < n_(s), s.keys[q] == 0 && s.sums[q] == 0 && s.seqEnds[q] == 0)
  ensures[T02] "no slot is in use" s.used == 0

contract SAccumulator.shardIndex(a, k, b) (i)
  option safety T02
  requires ref(a) != 0 && len(a.shards) >= 1
  ensures[T02] "one of the shards" 0 <= i && i < len(a.shards)
  pure[T02] "the same for equal cells" i | len(a.shards), k, b

// The reference application: a cell is a sum.
def cell(s, k, b) = ite(maphas(s, "cells", arrayof(k, b)), mapget(s, "cells", arrayof(k, b)), 0)
def R_state(s) = ref(s) != 0 && ref(s.cells) != 0
def ofB(x, k, b) = x.KeyID == k && x.BucketID == b
def ofE(x, k, b) = x.Footprint.KeyID == k && x.Footprint.Time.BucketID == b
def sumB(l, n, k, b) = sum(jj, 0, n, ite(ofB(l[jj], k, b), l[jj].NetDelta, 0))
def sumE(l, n, k, b) = sum(jj, 0, n, ite(ofE(l[jj], k, b), l[jj].Delta, 0))

contract NewState() (s)
  option safety T07
  any k b
  ensures[T07] "no cell holds anything" R_state(s) && cell(s, k, b) == 0

contract State.applyS(s, x)
  option safety T07
  any k b
  requires R_state(s)
  ensures[T07] "adds to the cell named only" cong64(cell(s, k, b), old(cell(s, k, b)) + ite(ofB(x, k, b), x.NetDelta, 0))

contract State.applyV(s, x)
  option safety T07
  any k b
  requires R_state(s)
  ensures[T07] "adds to the cell named only" cong64(cell(s, k, b), old(cell(s, k, b)) + ite(ofE(x, k, b), x.Delta, 0))

contract State.BaselineApply(s, l)
  option safety T07
  any k b
  requires R_state(s)
  keeps[T07] "the envelopes so far are added" cong64(cell(s, k, b), old(cell(s, k, b)) + sumE(l, iter(), k, b))
  ensures[T07] "every envelope is added to its cell" cong64(cell(s, k, b), old(cell(s, k, b)) + old(sumE(l, len(l), k, b)))

contract State.Reconstruct(s, l, v)
  option safety T07
  any k b
  requires R_state(s)
  keeps[T07] "the batches so far are added" implies(loopnum() == 1, cong64(cell(s, k, b), old(cell(s, k, b)) + sumB(l, iter(), k, b)))
  keeps[T07] "the envelopes so far are added" implies(loopnum() == 2, cong64(cell(s, k, b), entry(cell(s, k, b)) + sumE(v, iter(), k, b)))
  ensures[T07] "every batch and every envelope is added to its cell" cong64(cell(s, k, b), old(cell(s, k, b)) + old(sumB(l, len(l), k, b)) + old(sumE(v, len(v), k, b)))
