From b964234b8d7eedba967f36137b6864e91393a5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 01/18] fix: fast path admission check overflows for huge
 request sizes

---
 vsa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vsa.go b/vsa.go
index 035f2cd..7cc709d 100644
--- a/vsa.go
+++ b/vsa.go
@@ -328,7 +328,7 @@ func (v *VSA) TryConsume(n int64) bool {
 	if v.fastPathGuard > 0 {
 		s := v.scalar.Load()
 		approx := v.approxNet.Load()
-		if s-abs(approx) >= n+v.fastPathGuard {
+		if avail := s - abs(approx); avail >= n && avail-n >= v.fastPathGuard {
 			// Reserve without taking the lock; bounded risk thanks to guard.
 			idx := int(v.chooser.Add(1)) & v.mask
 			v.stripes[idx].val.Add(n)
-- 
2.43.0


From 44995e9c3a0a5073ad1211ced7096cef4385bab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 02/18] fix: cached and grouped gates admit beyond the
 available budget

---
 vsa.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vsa.go b/vsa.go
index 7cc709d..8d37f08 100644
--- a/vsa.go
+++ b/vsa.go
@@ -377,6 +377,11 @@ func (v *VSA) TryConsume(n int64) bool {
 			return false
 		}
 	}
+	// The cached net can be stale and the grouped estimate can be too low: never reserve
+	// beyond what the running net (exact under the lock) leaves available.
+	if v.scalar.Load()-abs(v.approxNet.Load()) < n {
+		return false
+	}
 	// Reserve by updating a stripe (use round-robin under lock to avoid an atomic)
 	idx := int(v.rr) & v.mask
 	v.rr++
-- 
2.43.0


From cd6ebabc646c7795b11445b8dc3dc91579c914e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 03/18] fix: readers can observe a half-applied commit

---
 vsa.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vsa.go b/vsa.go
index 8d37f08..b40ccfb 100644
--- a/vsa.go
+++ b/vsa.go
@@ -219,6 +219,9 @@ func (v *VSA) Update(value int64) {
 // Available returns the real-time available resource count: S - |A_net|.
 // We compute A_net by summing stripes and subtracting committedOffset.
 func (v *VSA) Available() int64 {
+	// Under the lock so that a concurrent Commit is seen entirely or not at all.
+	v.tryMu.Lock()
+	defer v.tryMu.Unlock()
 	s := v.scalar.Load()
 	net := v.currentVector()
 	return s - abs(net)
@@ -264,13 +267,17 @@ func (v *VSA) chooseIdxForUpdate() int {
 
 // State returns the current scalar and effective vector values.
 func (v *VSA) State() (scalar, vector int64) {
+	v.tryMu.Lock()
+	defer v.tryMu.Unlock()
 	return v.scalar.Load(), v.currentVector()
 }
 
 // CheckCommit determines if a commit is required for the given threshold.
 // It returns (true, vector) when |vector| ≥ threshold.
 func (v *VSA) CheckCommit(threshold int64) (bool, int64) {
+	v.tryMu.Lock()
 	net := v.currentVector()
+	v.tryMu.Unlock()
 	if abs(net) >= threshold {
 		return true, net
 	}
-- 
2.43.0


From 812123f456aad28336892178cee7fcb36c4a1db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 04/18] fix: GetOrCreate leaks the refresher of an instance
 that lost the creation race

---
 internal/ratelimiter/core/store.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index 1ef1723..488564f 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -93,6 +93,8 @@ func (s *Store) GetOrCreate(key string) *vsa.VSA {
 
 	// Try to publish; if another goroutine won the race, reuse that instance.
 	if actual, loaded := s.counters.LoadOrStore(key, newManaged); loaded {
+		// Lost the race: stop the discarded instance's background work.
+		inst.Close()
 		managed := actual.(*managedVSA)
 		atomic.StoreInt64(&managed.lastAccessed, now)
 		return managed.instance
-- 
2.43.0


From 636384bd9e213672df34638a5e112eee873bf9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 05/18] fix: overlapping worker cycles persist the same vector
 twice

---
 internal/ratelimiter/core/worker.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index a828eaf..10e9e00 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -42,6 +42,9 @@ type Worker struct {
 	stopChan           chan struct{}
 	wg                 sync.WaitGroup
 	stopped            uint32
+	// cycleMu serialises the cycles of both loops: each reads a vector, persists it and only
+	// then folds it in, so two overlapping cycles would persist the same amount twice.
+	cycleMu sync.Mutex
 }
 
 // NewWorker creates and configures a new background worker.
@@ -113,6 +116,8 @@ func (w *Worker) commitLoop() {
 
 // runCommitCycle collects all necessary commits and persists them as a batch.
 func (w *Worker) runCommitCycle() {
+	w.cycleMu.Lock()
+	defer w.cycleMu.Unlock()
 	var commits []Commit
 	var vsaToCommit []*vsa.VSA
 	var vectorsToCommit []int64
@@ -183,6 +188,8 @@ func (w *Worker) runCommitCycle() {
 
 // runFinalFlush commits any non-zero vectors regardless of threshold. It is intended for shutdown.
 func (w *Worker) runFinalFlush() {
+	w.cycleMu.Lock()
+	defer w.cycleMu.Unlock()
 	var commits []Commit
 	var vsaToCommit []*vsa.VSA
 	var vectorsToCommit []int64
@@ -233,6 +240,8 @@ func (w *Worker) evictionLoop() {
 
 // runEvictionCycle finds and removes stale VSA instances.
 func (w *Worker) runEvictionCycle() {
+	w.cycleMu.Lock()
+	defer w.cycleMu.Unlock()
 	var keysToEvict []string
 	now := time.Now()
 
-- 
2.43.0


From e5a1808c5064d7dd1e45f36eeb1c4e9487e189a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:34 +0000
Subject: [PATCH 06/18] fix: shut the HTTP server down before the final flush
 so no admitted request is lost

---
 cmd/ratelimiter-api/main.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cmd/ratelimiter-api/main.go b/cmd/ratelimiter-api/main.go
index d100042..eb1286a 100644
--- a/cmd/ratelimiter-api/main.go
+++ b/cmd/ratelimiter-api/main.go
@@ -222,7 +222,13 @@ func main() {
 
 	fmt.Println("\nShutting down server...")
 
-	// 7. First, stop the background worker. This will trigger a final commit
+	// 7. First, gracefully shut down the HTTP server with a timeout, so that no request is
+	// admitted after the worker's final flush.
+	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
+	defer cancel()
+	shutdownErr := httpServer.Shutdown(ctx)
+
+	// 8. Now stop the background worker. This will trigger a final commit
 	// of any pending VSA vectors to ensure no data is lost.
 	worker.Stop()
 
@@ -232,11 +238,8 @@ func main() {
 	// Stop any background cached-gate aggregators inside VSA instances.
 	store.CloseAll()
 
-	// 8. Now, gracefully shut down the HTTP server with a timeout.
-	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-	defer cancel()
-	if err := httpServer.Shutdown(ctx); err != nil {
-		log.Fatalf("Server shutdown failed: %v", err)
+	if shutdownErr != nil {
+		log.Fatalf("Server shutdown failed: %v", shutdownErr)
 	}
 
 	fmt.Println("Server gracefully stopped.")
-- 
2.43.0


From 9d7ebf370fd8b35179dd844e288a6c05e929ece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 07/18] fix: Postgres commits never update the scalar because
 their own marker hides them

---
 internal/ratelimiter/persistence/postgres.go | 37 ++++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/internal/ratelimiter/persistence/postgres.go b/internal/ratelimiter/persistence/postgres.go
index 12ff200..e880843 100644
--- a/internal/ratelimiter/persistence/postgres.go
+++ b/internal/ratelimiter/persistence/postgres.go
@@ -43,12 +43,10 @@ import (
 // Idempotent transaction per commit entry:
 //   INSERT INTO applied_commits(commit_id, key, vc) VALUES ($1,$2,$3)
 //     ON CONFLICT DO NOTHING;
-//   -- If the commit exists, skip the counter update via NOT EXISTS guard.
+//   -- If no row was inserted the commit exists already: skip the counter update.
 //   UPDATE counters
-//     SET scalar = scalar - $3
-//     WHERE key = $2 AND NOT EXISTS (
-//       SELECT 1 FROM applied_commits WHERE commit_id = $1
-//     );
+//     SET scalar = scalar - $2
+//     WHERE key = $1;
 // Optionally, pre-create the counter row to avoid UPDATE=0 when key is unknown.
 
 // PostgresPersister applies commits idempotently using the safe pattern above.
@@ -107,26 +105,35 @@ func (p *PostgresPersister) CommitBatch(ctx context.Context, entries []CommitEnt
 			return errors.New("CommitEntry.CommitID must be set")
 		}
 		// Applied marker first (OK to no-op on duplicate)
-		if _, err := tx.ExecContext(ctx,
+		res, err := tx.ExecContext(ctx,
 			`INSERT INTO applied_commits(commit_id, key, vc) VALUES ($1,$2,$3) ON CONFLICT DO NOTHING`,
-			e.CommitID, e.Key, e.Vector); err != nil {
+			e.CommitID, e.Key, e.Vector)
+		if err != nil {
+			return fmt.Errorf("insert applied_commits(%s): %w", e.CommitID, err)
+		}
+		// The marker row is visible to later statements of this transaction, so whether the
+		// commit is new is decided by the insert itself, not by a NOT EXISTS guard.
+		inserted, err := res.RowsAffected()
+		if err != nil {
 			return fmt.Errorf("insert applied_commits(%s): %w", e.CommitID, err)
 		}
+		if inserted == 0 {
+			continue // already applied
+		}
 		// Optional fencing: require provided token to be >= last_token, then set it.
 		if e.FencingToken != nil {
-			// Update last_token only if we're not re-applying a known commit id.
 			if _, err := tx.ExecContext(ctx,
-				`UPDATE counters SET last_token = GREATEST(COALESCE(last_token, $3), $3)
-                  WHERE key = $1 AND NOT EXISTS (SELECT 1 FROM applied_commits WHERE commit_id = $2) AND (last_token IS NULL OR $3 >= last_token)`,
-				e.Key, e.CommitID, *e.FencingToken); err != nil {
+				`UPDATE counters SET last_token = GREATEST(COALESCE(last_token, $2), $2)
+                  WHERE key = $1 AND (last_token IS NULL OR $2 >= last_token)`,
+				e.Key, *e.FencingToken); err != nil {
 				return fmt.Errorf("update last_token(%s): %w", e.Key, err)
 			}
 		}
-		// Apply scalar update if the commit was not already applied.
+		// Apply the scalar update: the commit was not applied before.
 		if _, err := tx.ExecContext(ctx,
-			`UPDATE counters SET scalar = scalar - $3
-               WHERE key = $2 AND NOT EXISTS (SELECT 1 FROM applied_commits WHERE commit_id = $1)`,
-			e.CommitID, e.Key, e.Vector); err != nil {
+			`UPDATE counters SET scalar = scalar - $2
+               WHERE key = $1`,
+			e.Key, e.Vector); err != nil {
 			return fmt.Errorf("update counters(%s): %w", e.Key, err)
 		}
 	}
-- 
2.43.0


From e0e8af1aa47aa574b01b1d97b9779b01939c7c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 08/18] fix: scalar shard merges colliding cells, loses packed
 id 0 and hangs when full

---
 plugin/tfd/saccumulator.go | 39 +++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/plugin/tfd/saccumulator.go b/plugin/tfd/saccumulator.go
index 09291d8..2847d8c 100644
--- a/plugin/tfd/saccumulator.go
+++ b/plugin/tfd/saccumulator.go
@@ -57,22 +57,50 @@ func newSShard(orderPow2 uint, countThreshold int, timeCap time.Duration) *SShar
 	}
 }
 
-func (s *SShard) probe(k uint64) int {
+// probe returns the slot of (keyID, bucketID), packed as k, or the free slot to claim for it.
+// The packed id only steers the probing: distinct cells may share it. At least one slot is
+// always free, so the search ends.
+func (s *SShard) probe(k, keyID, bucketID uint64) int {
 	// simple linear probing
 	i := int(k & s.mask)
 	for {
 		kk := s.keys[i]
-		if kk == 0 || kk == k {
+		if kk == 0 || (kk == k && s.keyIDs[i] == keyID && s.bucketIDs[i] == bucketID) {
 			return i
 		}
 		i = (i + 1) & int(s.mask)
 	}
 }
 
+// rehash moves all entries to fresh tables of n slots (a power of two above s.used).
+func (s *SShard) rehash(n int) {
+	keys, keyIDs, bucketIDs, sums, seqEnds := s.keys, s.keyIDs, s.bucketIDs, s.sums, s.seqEnds
+	s.keys = make([]uint64, n)
+	s.keyIDs = make([]uint64, n)
+	s.bucketIDs = make([]uint64, n)
+	s.sums = make([]int64, n)
+	s.seqEnds = make([]uint64, n)
+	s.mask = uint64(n - 1)
+	for j := range keys {
+		if keys[j] == 0 {
+			continue
+		}
+		i := s.probe(keys[j], keyIDs[j], bucketIDs[j])
+		s.keys[i] = keys[j]
+		s.keyIDs[i] = keyIDs[j]
+		s.bucketIDs[i] = bucketIDs[j]
+		s.sums[i] = sums[j]
+		s.seqEnds[i] = seqEnds[j]
+	}
+}
+
 // Ingest merges an S-envelope's delta into the shard accumulator.
 func (s *SShard) Ingest(env Envelope) {
 	k := packKeyBucket(env.Footprint.KeyID, env.Footprint.Time.BucketID)
-	i := s.probe(k)
+	if k == 0 {
+		k = 1 // 0 marks an empty slot
+	}
+	i := s.probe(k, env.Footprint.KeyID, env.Footprint.Time.BucketID)
 	if s.keys[i] == 0 {
 		s.keys[i] = k
 		s.keyIDs[i] = env.Footprint.KeyID
@@ -83,6 +111,9 @@ func (s *SShard) Ingest(env Envelope) {
 	if env.SeqEnd > s.seqEnds[i] {
 		s.seqEnds[i] = env.SeqEnd
 	}
+	if s.used >= len(s.keys) {
+		s.rehash(2 * len(s.keys)) // keep a free slot
+	}
 	// time-based flush check
 	s.maybeFlush()
 }
@@ -146,4 +177,6 @@ func (s *SShard) FlushKey(keyID uint64, out *[]SBatch) {
 		s.seqEnds[i] = 0
 		s.used--
 	}
+	// clearing slots breaks probe chains: re-insert what remains
+	s.rehash(len(s.keys))
 }
-- 
2.43.0


From 9b92c1a14e0ee4640d285a9a233266bccc858aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 09/18] fix: persisted vector envelopes lack the audit link

---
 plugin/tfd/pipeline.go | 2 +-
 plugin/tfd/vactors.go  | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/plugin/tfd/pipeline.go b/plugin/tfd/pipeline.go
index 1d0a785..32e80d1 100644
--- a/plugin/tfd/pipeline.go
+++ b/plugin/tfd/pipeline.go
@@ -89,7 +89,7 @@ func (p *Pipeline) Handle(env Envelope, persistV func(Envelope)) {
 		return
 	}
 	act := p.v.Route(env.Footprint.KeyID)
-	act.Enqueue(env)
+	env = act.Enqueue(env) // persist the audit link too
 	if persistV != nil {
 		persistV(env)
 	}
diff --git a/plugin/tfd/vactors.go b/plugin/tfd/vactors.go
index e596177..1a1ff40 100644
--- a/plugin/tfd/vactors.go
+++ b/plugin/tfd/vactors.go
@@ -31,15 +31,16 @@ func newVActor(keyID uint64) *VActor {
 	return &VActor{keyID: keyID, queue: list.New()}
 }
 
-// Enqueue appends a V-envelope and updates the prev-hash link.
-func (a *VActor) Enqueue(env Envelope) {
+// Enqueue appends a V-envelope, updates the prev-hash link and returns the envelope as queued.
+func (a *VActor) Enqueue(env Envelope) Envelope {
 	if env.Channel != ChannelVector {
-		return
+		return env
 	}
 	// compute prev-hash as a function of key and last seqEnd
 	a.prev = Hash128(a.keyID, env.SeqEnd)
 	env.HashPrev = a.prev
 	a.queue.PushBack(env)
+	return env
 }
 
 // Drain returns all queued envelopes in order and clears the queue.
-- 
2.43.0


From 80c0f548115488942c2e2d2923b33c2420ac84a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 10/18] fix: concurrent ordered envelopes race on the router
 map and the actor queue

---
 plugin/tfd/vactors.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/plugin/tfd/vactors.go b/plugin/tfd/vactors.go
index 1a1ff40..f829918 100644
--- a/plugin/tfd/vactors.go
+++ b/plugin/tfd/vactors.go
@@ -18,10 +18,12 @@ package tfd
 
 import (
 	"container/list"
+	"sync"
 )
 
 // VActor represents a per-key ordered queue with an audit chain.
 type VActor struct {
+	mu    sync.Mutex // guards prev and queue: callers enqueue from many goroutines
 	keyID uint64
 	prev  [16]byte
 	queue *list.List // of Envelope
@@ -36,6 +38,8 @@ func (a *VActor) Enqueue(env Envelope) Envelope {
 	if env.Channel != ChannelVector {
 		return env
 	}
+	a.mu.Lock()
+	defer a.mu.Unlock()
 	// compute prev-hash as a function of key and last seqEnd
 	a.prev = Hash128(a.keyID, env.SeqEnd)
 	env.HashPrev = a.prev
@@ -45,6 +49,8 @@ func (a *VActor) Enqueue(env Envelope) Envelope {
 
 // Drain returns all queued envelopes in order and clears the queue.
 func (a *VActor) Drain() []Envelope {
+	a.mu.Lock()
+	defer a.mu.Unlock()
 	var out []Envelope
 	for e := a.queue.Front(); e != nil; e = e.Next() {
 		out = append(out, e.Value.(Envelope))
@@ -55,6 +61,7 @@ func (a *VActor) Drain() []Envelope {
 
 // VRouter sharded map from keyID to actor.
 type VRouter struct {
+	mu     sync.Mutex // guards actors
 	actors map[uint64]*VActor
 }
 
@@ -63,6 +70,8 @@ func NewVRouter() *VRouter {
 }
 
 func (r *VRouter) Route(keyID uint64) *VActor {
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	act := r.actors[keyID]
 	if act == nil {
 		act = newVActor(keyID)
-- 
2.43.0


From 69fd059e7194a206cbe34d4978d771553087d175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:14 +0000
Subject: [PATCH 11/18] fix: Commit of the smallest int64 folds at most what is
 pending

Negating math.MinInt64 leaves it negative, so the clamp to the pending net
was skipped and the commit folded a wrong amount.
---
 vsa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vsa.go b/vsa.go
index b40ccfb..e7890b9 100644
--- a/vsa.go
+++ b/vsa.go
@@ -307,7 +307,7 @@ func (v *VSA) Commit(committedVector int64) {
 	// Magnitude we can safely commit is limited by the current net, and we must
 	// move towards zero with the sign of the current net (not the possibly-stale input).
 	mag := abs(committedVector)
-	if mag > abs(net) {
+	if mag > abs(net) || mag < 0 { // mag < 0: the magnitude of the smallest int64 overflows
 		mag = abs(net)
 	}
 	var delta int64
-- 
2.43.0


From 33330fdcace6cb2a2ceb4bab3e6d21c8c0072a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:40 +0000
Subject: [PATCH 12/18] fix: the cached-gate refresh stores a net that never
 existed

The refresher summed the stripes and read the committed offset without the
lock, so a commit in between produced a value the pending net never had.
---
 vsa.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/vsa.go b/vsa.go
index e7890b9..f66fcb7 100644
--- a/vsa.go
+++ b/vsa.go
@@ -453,19 +453,12 @@ func (v *VSA) runAggregator() {
 	for {
 		select {
 		case now := <-t.C:
-			var sum int64
-			if v.hGroups > 0 {
-				for i := 0; i < v.hGroups; i++ {
-					sum += v.hGroupSum[i].Load()
-				}
-			} else {
-				for i := range v.stripes {
-					sum += v.stripes[i].val.Load()
-				}
-			}
-			net := sum - v.committedOffset.Load()
-			v.cachedNet.Store(net)
+			// Under the lock: a sum read while gated operations run mixes the stripes of
+			// one moment with the committed offset of another.
+			v.tryMu.Lock()
+			v.cachedNet.Store(v.currentVector())
 			v.cachedAt.Store(now.UnixNano())
+			v.tryMu.Unlock()
 		case <-v.stopCh:
 			return
 		}
-- 
2.43.0


From 972808501d3c2e885146f1d32cb2e8d000e286d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:48 +0000
Subject: [PATCH 13/18] fix: keep a key touched while its eviction write was in
 flight

---
 internal/ratelimiter/core/worker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index 10e9e00..e78d92a 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -274,6 +274,10 @@ func (w *Worker) runEvictionCycle() {
 					continue
 				}
 				managed.instance.Commit(vector)
+				if atomic.LoadInt64(&managed.lastAccessed) != last {
+					// Touched while the write was in flight; evicting now would drop that usage.
+					continue
+				}
 			}
 			w.store.Delete(key)
 		}
-- 
2.43.0


From 991eb1429939383abeb53dfe98b37e394e441636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:13 +0000
Subject: [PATCH 14/18] fix: a marker lifetime below one second left the Redis
 marker without expiry

---
 internal/ratelimiter/persistence/redis.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/ratelimiter/persistence/redis.go b/internal/ratelimiter/persistence/redis.go
index f77618d..2f7f3cc 100644
--- a/internal/ratelimiter/persistence/redis.go
+++ b/internal/ratelimiter/persistence/redis.go
@@ -82,12 +82,17 @@ func (r *RedisPersister) CommitBatch(ctx context.Context, entries []CommitEntry)
 	if len(entries) == 0 {
 		return nil
 	}
+	// EXPIRE takes whole seconds: round up, so that a sub-second lifetime still expires.
+	ttlSeconds := int(r.markerTTL / time.Second)
+	if r.markerTTL%time.Second > 0 {
+		ttlSeconds++
+	}
 	for _, e := range entries {
 		if e.CommitID == "" {
 			return errors.New("CommitEntry.CommitID must be set")
 		}
 		keys := []string{RedisCounterKey(e.Key), RedisCommitMarkerKey(e.Key, e.CommitID)}
-		args := []interface{}{e.Vector, int(r.markerTTL.Seconds())}
+		args := []interface{}{e.Vector, ttlSeconds}
 		if _, err := r.client.Eval(ctx, redisLuaScript, keys, args...); err != nil {
 			return fmt.Errorf("redis eval key=%s commit=%s: %w", e.Key, e.CommitID, err)
 		}
-- 
2.43.0


From df49c197da8ca6da21952f176a1112e210582769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:13 +0000
Subject: [PATCH 15/18] fix: the Redis script rounded large vectors and kept
 the marker of a failed update

---
 internal/ratelimiter/persistence/redis.go | 27 +++++++++++++++--------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/internal/ratelimiter/persistence/redis.go b/internal/ratelimiter/persistence/redis.go
index 2f7f3cc..11cf292 100644
--- a/internal/ratelimiter/persistence/redis.go
+++ b/internal/ratelimiter/persistence/redis.go
@@ -30,10 +30,10 @@ type RedisEvaler interface {
 }
 
 // RedisPersister applies commits idempotently using a Lua script:
-// 1) SETNX commit:<key>:<commit_id> 1
-// 2) If set -> HINCRBY counter:<key> scalar -vector
-// 3) EXPIRE the marker (TTL) for leak protection
-// If SETNX fails (already applied), returns OK and makes no changes.
+// 1) EXISTS commit:<key>:<commit_id>
+// 2) If absent -> HINCRBY counter:<key> scalar -vector
+// 3) SET the marker and EXPIRE it (TTL) for leak protection
+// If the marker exists (already applied), returns OK and makes no changes.
 type RedisPersister struct {
 	client    RedisEvaler
 	markerTTL time.Duration
@@ -53,13 +53,22 @@ func NewRedisPersister(client RedisEvaler, markerTTL time.Duration) *RedisPersis
 const redisLuaScript = `
 local counterKey = KEYS[1]
 local markerKey = KEYS[2]
-local vector = tonumber(ARGV[1])
+-- kept as a decimal string: Lua numbers are doubles and would round a large vector
+local vector = ARGV[1]
 local ttlSeconds = tonumber(ARGV[2])
--- try to set the idempotency marker
-local set = redis.call('SETNX', markerKey, 1)
-if set == 1 then
+-- look for the idempotency marker
+local applied = redis.call('EXISTS', markerKey)
+if applied == 0 then
   -- apply the update; convention: scalar = scalar - vector
-  redis.call('HINCRBY', counterKey, 'scalar', -vector)
+  local delta = '-' .. vector
+  if vector == '0' then
+    delta = '0'
+  elseif string.sub(vector, 1, 1) == '-' then
+    delta = string.sub(vector, 2)
+  end
+  redis.call('HINCRBY', counterKey, 'scalar', delta)
+  -- the marker comes last: an update that fails must leave none, or a retry would skip it
+  redis.call('SET', markerKey, 1)
   if ttlSeconds and ttlSeconds > 0 then
     redis.call('EXPIRE', markerKey, ttlSeconds)
   end
-- 
2.43.0


From 8724d798aa661776372633689da3d58ae52861ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:13 +0000
Subject: [PATCH 16/18] fix: commits of different keys could share one Redis
 marker

---
 internal/ratelimiter/persistence/redis.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ratelimiter/persistence/redis.go b/internal/ratelimiter/persistence/redis.go
index 11cf292..1c9dd79 100644
--- a/internal/ratelimiter/persistence/redis.go
+++ b/internal/ratelimiter/persistence/redis.go
@@ -20,6 +20,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"strings"
 	"time"
 )
 
@@ -81,7 +82,12 @@ end
 
 // Keys layout helpers (public for interoperability with other components)
 func RedisCounterKey(key string) string { return fmt.Sprintf("counter:%s", key) }
+
+// RedisCommitMarkerKey escapes colons in the commit id: without that key "a", id "b:c" and
+// key "a:b", id "c" would share one marker.
 func RedisCommitMarkerKey(key, commitID string) string {
+	commitID = strings.ReplaceAll(commitID, "%", "%25")
+	commitID = strings.ReplaceAll(commitID, ":", "%3A")
 	return fmt.Sprintf("commit:%s:%s", key, commitID)
 }
 
-- 
2.43.0


From d1dcef17a2a37613d718118c6b91a2c813fcbe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:07 +0000
Subject: [PATCH 17/18] fix: report the eviction's final commit to churn
 telemetry

---
 internal/ratelimiter/core/worker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index e78d92a..e3bf31d 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -271,8 +271,12 @@ func (w *Worker) runEvictionCycle() {
 				fmt.Printf("  - Final commit for %s, vector: %d\n", key, vector)
 				if err := w.persister.CommitBatch([]Commit{{Key: key, Vector: vector}}); err != nil {
 					fmt.Printf("ERROR: Failed to commit batch: %v\n", err)
+					churn.ObserveCommitError(1)
 					continue
 				}
+				// Telemetry: this write is a batch of one row
+				churn.ObserveBatch(1)
+				churn.ObserveCommit(key, vector)
 				managed.instance.Commit(vector)
 				if atomic.LoadInt64(&managed.lastAccessed) != last {
 					// Touched while the write was in flight; evicting now would drop that usage.
-- 
2.43.0


From 9f22d5a8ebd949f4c3ea8356b98bbfd68e28261d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:23 +0000
Subject: [PATCH 18/18] fix: start on a fresh line when a log ends in a torn
 record

---
 internal/sinks/sbatch_file_sink.go | 24 +++++++++++++++++++++++-
 internal/sinks/venv_file_sink.go   |  6 +++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/internal/sinks/sbatch_file_sink.go b/internal/sinks/sbatch_file_sink.go
index 29e77ea..3546019 100644
--- a/internal/sinks/sbatch_file_sink.go
+++ b/internal/sinks/sbatch_file_sink.go
@@ -40,14 +40,36 @@ type SBatchFileSink struct {
 // NewSBatchFileSink opens (or creates) the file at path in append mode with
 // a buffered writer. Call Close() when done.
 func NewSBatchFileSink(path string) (*SBatchFileSink, error) {
-	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
+	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_RDWR, 0o644)
 	if err != nil {
 		return nil, err
 	}
+	if err := endTornLine(f); err != nil {
+		_ = f.Close()
+		return nil, err
+	}
 	s := &SBatchFileSink{f: f, w: bufio.NewWriterSize(f, 1<<20 /*1MiB*/), path: path, lastFlush: time.Now()}
 	return s, nil
 }
 
+// endTornLine ends the last line of a log whose writer died in the middle of a
+// record, so that the next record starts on a line of its own.
+func endTornLine(f *os.File) error {
+	fi, err := f.Stat()
+	if err != nil || !fi.Mode().IsRegular() || fi.Size() == 0 {
+		return err
+	}
+	last := make([]byte, 1)
+	if _, err := f.ReadAt(last, fi.Size()-1); err != nil {
+		return err
+	}
+	if last[0] == '\n' {
+		return nil
+	}
+	_, err = f.Write([]byte{'\n'})
+	return err
+}
+
 // OnSBatches writes the batches as JSON lines.
 func (s *SBatchFileSink) OnSBatches(b []tfd.SBatch) {
 	if len(b) == 0 {
diff --git a/internal/sinks/venv_file_sink.go b/internal/sinks/venv_file_sink.go
index 991c15d..1716520 100644
--- a/internal/sinks/venv_file_sink.go
+++ b/internal/sinks/venv_file_sink.go
@@ -37,10 +37,14 @@ type VEnvFileSink struct {
 }
 
 func NewVEnvFileSink(path string) (*VEnvFileSink, error) {
-	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
+	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_RDWR, 0o644)
 	if err != nil {
 		return nil, err
 	}
+	if err := endTornLine(f); err != nil {
+		_ = f.Close()
+		return nil, err
+	}
 	return &VEnvFileSink{f: f, w: bufio.NewWriterSize(f, 1<<20), path: path, lastFlush: time.Now()}, nil
 }
 
-- 
2.43.0

