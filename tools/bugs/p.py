import sys; sys.path.insert(0,'/verif/tools')
from bug import bug
P='internal/ratelimiter/persistence/'
bug('P03-zero-token','P03',[(P+'kafka.go','''		b, err := json.Marshal(msg)''','''		// Tokens start at 1; zero means that fencing is off.
		if e.FencingToken != nil && *e.FencingToken <= 0 {
			msg.FencingToken = nil
		}
		b, err := json.Marshal(msg)''')],'internal/ratelimiter/persistence','''
package persistence
import ("context";"strings";"testing")
type prod struct{ v []string }
func (p *prod) Produce(ctx context.Context, topic string, key, value []byte, h map[string]string) error { p.v = append(p.v, string(value)); return nil }
func TestDemo(t *testing.T) {
	p := &prod{}; z := int64(0)
	if err := NewKafkaPersister(p, "t").CommitBatch(context.Background(), []CommitEntry{{Key: "a", Vector: 1, CommitID: "x", FencingToken: &z}}); err != nil { t.Fatal(err) }
	if !strings.Contains(p.v[0], "\\"fencing_token\\":0") { t.Fatal("token lost: " + p.v[0]) }
}
''','a commit whose fencing token is zero or negative','the message carries no token, so the consumer applies it unfenced')
bug('P03-timeout-continues','P03',[(P+'kafka.go','''			return fmt.Errorf("kafka produce key=%s commit=%s: %w", e.Key, e.CommitID, err)''','''			lastErr = fmt.Errorf("kafka produce key=%s commit=%s: %w", e.Key, e.CommitID, err)
			if errors.Is(err, context.DeadlineExceeded) {
				continue // slow broker: give the rest of the batch a chance
			}
			return lastErr'''),(P+'kafka.go','''	nowMs := time.Now().UnixMilli()''','''	var lastErr error
	nowMs := time.Now().UnixMilli()'''),(P+'kafka.go','''		}
	}
	return nil
}''','''		}
	}
	return lastErr
}''')],'internal/ratelimiter/persistence','''
package persistence
import ("context";"testing")
type prod struct{ n int }
func (p *prod) Produce(ctx context.Context, topic string, key, value []byte, h map[string]string) error { p.n++; if p.n == 1 { return context.DeadlineExceeded }; return nil }
func TestDemo(t *testing.T) {
	p := &prod{}
	err := NewKafkaPersister(p, "t").CommitBatch(context.Background(), []CommitEntry{{Key: "a", Vector: 1, CommitID: "x"}, {Key: "a", Vector: 2, CommitID: "y"}})
	if err == nil || p.n != 1 { t.Fatal("commits were produced after a failed one", p.n, err) }
}
''','a producer timeout in the middle of a batch','later commits of the batch are produced after one that failed')
bug('P04-chunked','P04',[(P+'shim.go','''	return s.impl.CommitBatch(context.Background(), entries)''','''	const maxBatch = 64
	for len(entries) > maxBatch {
		if err := s.impl.CommitBatch(context.Background(), entries[:maxBatch]); err != nil {
			return err
		}
		entries = entries[maxBatch:]
	}
	return s.impl.CommitBatch(context.Background(), entries)''')],'internal/ratelimiter/persistence','''
package persistence
import ("context";"errors";"testing";"vsa/internal/ratelimiter/core")
type back struct{ n, rows int }
func (b *back) CommitBatch(ctx context.Context, e []CommitEntry) error { b.n++; if b.n > 1 { return errors.New("down") }; b.rows += len(e); return nil }
func TestDemo(t *testing.T) {
	b := &back{}
	err := NewIdemShim(b).CommitBatch(make([]core.Commit, 65))
	if b.n != 1 || err != nil && b.rows > 0 { t.Fatal("part of a batch was applied although it failed", b.n, b.rows, err) }
}
''','a batch of more than 64 keys','the batch is forwarded in several calls, so a failure leaves part of it applied and the worker sends that part again')
bug('P04-short-id','P04',[(P+'shim.go','''	return string(dst)''','''	return string(dst[:6])''')],'internal/ratelimiter/persistence','''
package persistence
import ("context";"testing";"vsa/internal/ratelimiter/core")
type back struct{ ids map[string]int }
func (b *back) CommitBatch(ctx context.Context, e []CommitEntry) error { for _, x := range e { b.ids[x.CommitID]++ }; return nil }
func TestDemo(t *testing.T) {
	b := &back{map[string]int{}}
	s := NewIdemShim(b)
	for i := 0; i < 200; i++ { s.CommitBatch(make([]core.Commit, 200)) }
	for id, n := range b.ids { if n > 1 { t.Fatal("the id is shared", id, n) } }
}
''','tens of thousands of commits','two commits share an id, so the backend drops the second as a duplicate')
bug('P04-ttl-floor','P04',[(P+'factory.go','''		if ttl <= 0 {''','''		if ttl < time.Minute {''')],'internal/ratelimiter/persistence','''
package persistence
import ("testing";"time")
func TestDemo(t *testing.T) {
	p, _ := BuildPersister("redis", DemoOptions{RedisMarkerTTL: 30*time.Second})
	if d := p.(*IdemShim).impl.(*RedisPersister).markerTTL; d != 30*time.Second { t.Fatal(d) }
}
''','a configured marker lifetime below a minute','the option is replaced by the default of 24 hours')
H=open('/verif/harness/internal/ratelimiter/persistence/sql_verif_test.go').read()
H=H[:H.index('func TestVerif_P01_batches')].replace('\t"reflect"\n','').replace('\t"time"\n','')
SQLH=H+'''
func run(d *fdb, db *sql.DB, mk bool, es ...CommitEntry) error { return NewPostgresPersister(db, mk).CommitBatch(context.Background(), es) }
'''
PG=P+'postgres.go'
bug('P01-stale-token-skips','P01',[(PG,'''			if _, err := tx.ExecContext(ctx,
				`UPDATE counters SET last_token''','''			fres, err := tx.ExecContext(ctx,
				`UPDATE counters SET last_token'''),(PG,'''				e.Key, *e.FencingToken); err != nil {
				return fmt.Errorf("update last_token(%s): %w", e.Key, err)
			}''','''				e.Key, *e.FencingToken)
			if err != nil {
				return fmt.Errorf("update last_token(%s): %w", e.Key, err)
			}
			if n, err := fres.RowsAffected(); err == nil && n == 0 {
				continue // fenced off
			}''')],'internal/ratelimiter/persistence',SQLH+'''
func TestDemo(t *testing.T) {
	d, db, done := newFDB(); defer done()
	five, three := int64(5), int64(3)
	d.cnt["a"] = fcRow{10, &five}
	if err := run(d, db, false, CommitEntry{Key: "a", Vector: 1, CommitID: "x", FencingToken: &three}); err != nil { t.Fatal(err) }
	if len(d.app) == 1 && d.cnt["a"].scalar != 9 { t.Fatal("the id is recorded but the usage is lost", d.cnt["a"].scalar) }
}
''','a commit with a fencing token older than the stored one (or for a key that is not stored)','its id is recorded but its vector is never applied')
bug('P01-missing-id-commits','P01',[(PG,'''	for _, e := range entries {
		if e.CommitID == "" {
			return''','''	for i, e := range entries {
		if e.CommitID == "" {
			if i > 0 {
				_ = tx.Commit() // keep what is applied so far
			}
			return''')],'internal/ratelimiter/persistence',SQLH+'''
func TestDemo(t *testing.T) {
	d, db, done := newFDB(); defer done()
	d.cnt["a"] = fcRow{scalar: 10}
	if err := run(d, db, false, CommitEntry{Key: "a", Vector: 1, CommitID: "x"}, CommitEntry{Key: "a", Vector: 1}); err == nil { t.Fatal("no error") }
	if len(d.app) > 0 || d.cnt["a"].scalar != 10 { t.Fatal("part of a failed batch was committed", d.app, d.cnt) }
}
''','a batch with a missing id after a good commit','the first part of a batch that fails is committed')
bug('P01-create-unfenced-only','P01',[(PG,'''		for _, e := range entries {
			if _, err := tx.ExecContext(ctx,
				`INSERT INTO counters''','''		for _, e := range entries {
			if e.FencingToken != nil {
				continue // the owner of the token provisions the key
			}
			if _, err := tx.ExecContext(ctx,
				`INSERT INTO counters''')],'internal/ratelimiter/persistence',SQLH+'''
func TestDemo(t *testing.T) {
	d, db, done := newFDB(); defer done()
	n := int64(1)
	if err := run(d, db, true, CommitEntry{Key: "a", Vector: 2, CommitID: "x", FencingToken: &n}); err != nil { t.Fatal(err) }
	if d.cnt["a"].scalar != -2 { t.Fatal("the usage of a new key is lost", d.cnt) }
}
''','the first batch of a key carrying a fencing token, with missing keys created','the key is not stored and its usage is lost although its id is recorded')
bug('P01-token-overwrite','P01',[(PG,'''SET last_token = GREATEST(COALESCE(last_token, $2), $2)''','''SET last_token = $2'''),(PG,'''(last_token IS NULL OR $2 >= last_token)''','''(last_token IS NULL OR $2 <> last_token)''')],'internal/ratelimiter/persistence',SQLH+'''
func TestDemo(t *testing.T) {
	d, db, done := newFDB(); defer done()
	five, three := int64(5), int64(3)
	d.cnt["a"] = fcRow{10, &five}
	if err := run(d, db, false, CommitEntry{Key: "a", Vector: 1, CommitID: "x", FencingToken: &three}); err != nil { t.Fatal(err) }
	if *d.cnt["a"].token != 5 { t.Fatal("an older token replaces a newer one", *d.cnt["a"].token) }
}
''','a commit whose fencing token is older than the stored one','the stored token goes back')
R=open('/verif/harness/internal/ratelimiter/persistence/redis_verif_test.go').read()
R=R[:R.index('// ---- P02')].replace('\t"bufio"\n','').replace('\t"io"\n','').replace('\t"net"\n','').replace('\t"testing"\n','\t"testing"\n').replace('\t"time"\n','\t"time"\n')
RD=P+'redis.go'
bug('P02-timeout-continues','P02',[(RD,'''		if _, err := r.client.Eval(ctx, redisLuaScript, keys, args...); err != nil {
			return''','''		if _, err := r.client.Eval(ctx, redisLuaScript, keys, args...); err != nil {
			if errors.Is(err, context.DeadlineExceeded) && ctx.Err() == nil {
				continue // one slow call must not hold up the other keys
			}
			return''')],'internal/ratelimiter/persistence',R+'''
func TestDemo(t *testing.T) {
	f := &fredis{db: map[string]*rval{}, failAt: 0, err: context.DeadlineExceeded}
	err := NewRedisPersister(f, time.Hour).CommitBatch(context.Background(), []CommitEntry{{Key: "a", Vector: 1, CommitID: "x"}, {Key: "a", Vector: 2, CommitID: "y"}})
	if err == nil { t.Fatal("a commit is lost without an error", f.db) }
}
''','a call that times out in the middle of a batch','the commit is lost, later ones are sent and no error is reported')
bug('P02-reused-keys','P02',[(RD,'''	for _, e := range entries {
		if e.CommitID == "" {
			return errors''','''	var keys []string
	lastKey := ""
	for _, e := range entries {
		if e.CommitID == "" {
			return errors'''),(RD,'''		keys := []string{RedisCounterKey(e.Key), RedisCommitMarkerKey(e.Key, e.CommitID)}
''','''		if keys == nil || e.Key != lastKey {
			keys = []string{RedisCounterKey(e.Key), RedisCommitMarkerKey(e.Key, e.CommitID)}
			lastKey = e.Key
		}
''')],'internal/ratelimiter/persistence',R+'''
func TestDemo(t *testing.T) {
	f := &fredis{db: map[string]*rval{}, failAt: -1}
	err := NewRedisPersister(f, time.Hour).CommitBatch(context.Background(), []CommitEntry{{Key: "a", Vector: 1, CommitID: "x"}, {Key: "a", Vector: 2, CommitID: "y"}})
	if err != nil { t.Fatal(err) }
	if s := f.db["counter:a"].hash["scalar"]; s != "-3" { t.Fatal("counter", s) }
}
''','two commits of one key in a row','the second is taken for a retry of the first and lost')
bug('P02-short-ttl-kept','P02',[(RD,'''if ttlSeconds and ttlSeconds > 0 then''','''if ttlSeconds and ttlSeconds > 1 then''')],'internal/ratelimiter/persistence',R+'''
func TestDemo(t *testing.T) {
	f := &fredis{db: map[string]*rval{}, failAt: -1}
	if err := NewRedisPersister(f, time.Second).CommitBatch(context.Background(), []CommitEntry{{Key: "a", Vector: 1, CommitID: "x"}}); err != nil { t.Fatal(err) }
	for k, e := range f.db { if e.hash == nil && e.ttl == 0 { t.Fatal("marker without expiry", k) } }
}
''','a marker lifetime of one second','the marker never expires')
bug('P02-expire-counter','P02',[(RD,'''    redis.call('EXPIRE', markerKey, ttlSeconds)
''','''    redis.call('EXPIRE', markerKey, ttlSeconds)
    if vector == '0' then
      redis.call('EXPIRE', counterKey, ttlSeconds)
    end
''')],'internal/ratelimiter/persistence',R+'''
func TestDemo(t *testing.T) {
	f := &fredis{db: map[string]*rval{"counter:a": {hash: map[string]string{"scalar": "5"}}}, failAt: -1}
	if err := NewRedisPersister(f, time.Minute).CommitBatch(context.Background(), []CommitEntry{{Key: "a", Vector: 0, CommitID: "x"}}); err != nil { t.Fatal(err) }
	if f.db["counter:a"].ttl != 0 { t.Fatal("the counter expires") }
}
''','a commit with a zero vector','the counter gets an expiry and is lost with it')
