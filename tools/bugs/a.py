import sys; sys.path.insert(0,'/verif/tools')
from bug import bug
A='internal/ratelimiter/api/server.go'
C='internal/ratelimiter/core/'
IMP='''
package api
import ("net/http/httptest";"testing";"vsa/internal/ratelimiter/core")
var _ = httptest.NewRequest
func check(s *Server, k string) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	s.handleCheckRateLimit(w, httptest.NewRequest("GET", "/check?api_key="+k, nil))
	return w
}
func release(s *Server, k string) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	s.handleRelease(w, httptest.NewRequest("GET", "/release?api_key="+k, nil))
	return w
}
'''
bug('A01-remaining-derived','A01',[(A,'''	core.RecordAttempt(1)
	if !userVSA.TryConsume(1) {''','''	core.RecordAttempt(1)
	available := userVSA.Available()
	if !userVSA.TryConsume(1) {'''),(A,'''	remaining := userVSA.Available()

	// 5.''','''	// One unit less than before; saves a second scan of the stripes.
	remaining := available - 1

	// 5.''')],'internal/ratelimiter/api',IMP+'''
func TestDemo(t *testing.T) {
	st := core.NewStore(10)
	s := NewServer(st, 10)
	st.GetOrCreate("a").Update(-3)
	w := check(s, "a")
	if g := w.Header().Get("X-RateLimit-Remaining"); g != "8" { t.Fatalf("remaining %s, 8 are available", g) }
}
''','a key whose pending vector is negative (credited by an update), where consuming a unit raises the availability; or another request between the two reads','the reported remaining budget is not the availability after the decision')
bug('A01-headers-late','A01',[(A,'''		// Adding a Retry-After header is a good practice for rate limiting.
		w.Header().Set("Retry-After", "60") // Retry after 60 seconds
		w.WriteHeader(http.StatusTooManyRequests)''','''		if remaining < 0 {
			// Over-committed key: back off harder.
			w.WriteHeader(http.StatusTooManyRequests)
		}
		// Adding a Retry-After header is a good practice for rate limiting.
		w.Header().Set("Retry-After", "60") // Retry after 60 seconds
		if remaining < 0 {
			return
		}
		w.WriteHeader(http.StatusTooManyRequests)''')],'internal/ratelimiter/api',IMP+'''
func TestDemo(t *testing.T) {
	st := core.NewStore(2)
	s := NewServer(st, 2)
	st.GetOrCreate("a").Update(5)
	w := check(s, "a").Result()
	if w.StatusCode != 429 || w.Header.Get("Retry-After") != "60" { t.Fatalf("%d, retry after %q", w.StatusCode, w.Header.Get("Retry-After")) }
}
''','a denied request for a key whose availability is negative','the status line is sent before the retry hint is set, so the client never sees it')
bug('A02-refund-by-limit','A02',[(A,'''	if userVSA.TryRefund(1) {
		core.RecordRefund(1)
	}''','''	// Anything below the configured limit has been consumed and can be given back.
	if userVSA.Available() < s.rateLimit {
		userVSA.Update(-1)
		core.RecordRefund(1)
	}''')],'internal/ratelimiter/api',IMP+'''
func TestDemo(t *testing.T) {
	st := core.NewStore(5)
	s := NewServer(st, 5)
	check(s, "a")
	v := st.GetOrCreate("a")
	v.Commit(1)
	release(s, "a")
	if sc, n := v.State(); sc != 4 || n != 0 { t.Fatalf("scalar %d, pending %d after a release with nothing pending", sc, n) }
}
''','a release after the consumption was committed (nothing pending, availability below the limit), or two releases racing','a unit that is not pending is returned: the pending vector turns negative and the refund is counted')
IMP2=IMP.replace('"testing"','"testing";"os";"io";"regexp";"strconv"')
bug('A02-count-first','A02',[(A,'''	if userVSA.TryRefund(1) {
		core.RecordRefund(1)
	}''','''	// Count first so that a report taken meanwhile never shows fewer refunds than happened.
	core.RecordRefund(1)
	if !userVSA.TryRefund(1) {
		core.RecordRefund(-1)
	}''')],'internal/ratelimiter/api',IMP2+'''
func TestDemo(t *testing.T) {
	n := func() int64 { return refunds(t) }
	s := NewServer(core.NewStore(5), 5)
	a := n()
	release(s, "a")
	if b := n(); b != a { t.Fatalf("%d refunds counted, none happened", b-a) }
}
func refunds(t *testing.T) int64 {
	r, w, _ := os.Pipe()
	o := os.Stdout
	os.Stdout = w
	core.NewMockPersister().PrintFinalMetrics()
	os.Stdout = o
	w.Close()
	b, _ := io.ReadAll(r)
	m := regexp.MustCompile(`Refunds\\s+(\\d+)`).FindStringSubmatch(string(b))
	x, _ := strconv.ParseInt(m[1], 10, 64)
	return x
}
''','a release of a key with nothing pending','the refund counter grows although nothing was refunded: taking the count back is ignored, the counter only accepts positive amounts')
bug('M01-admit-counts-key','M01',[(A,'''	core.RecordAttempt(1)
	if !userVSA.TryConsume(1) {''','''	defer core.RecordAttempt(1) // off the critical path
	if !userVSA.TryConsume(1) {
		if userVSA.Available() < 0 {
			// Over-committed: retried by the client, which is the attempt that counts.
			core.RecordAttempt(-1)
		}'''),(C+'metrics.go','''	if n > 0 {
		attempted.Add(n)
	}''','''	if n != 0 {
		attempted.Add(n)
	}''')],'internal/ratelimiter/api',IMP.replace('"testing"','"testing";"os";"io";"regexp";"strconv"')+'''
func TestDemo(t *testing.T) {
	st := core.NewStore(2)
	s := NewServer(st, 2)
	st.GetOrCreate("a").Update(5)
	a := attempts()
	check(s, "a")
	if b := attempts(); b != a+1 { t.Fatalf("%d attempts counted for one request", b-a) }
}
func attempts() int64 {
	r, w, _ := os.Pipe()
	o := os.Stdout
	os.Stdout = w
	core.NewMockPersister().PrintFinalMetrics()
	os.Stdout = o
	w.Close()
	b, _ := io.ReadAll(r)
	m := regexp.MustCompile(`Attempted\\s+(\\d+)`).FindStringSubmatch(string(b))
	x, _ := strconv.ParseInt(m[1], 10, 64)
	return x
}
''','a request for a key whose availability is negative','the attempt is not counted')
bug('M01-magnitude-of-sum','M01',[(C+'persistence.go','''		v := c.Vector
		if v < 0 {
			v = -v // sum absolute magnitude; supports increment/decrement semantics
		}
		totalRequests += v
	}''','''		totalRequests += c.Vector
	}
	if totalRequests < 0 {
		totalRequests = -totalRequests // magnitude; supports increment/decrement semantics
	}''')],'internal/ratelimiter/core','''
package core
import "testing"
func TestDemo(t *testing.T) {
	p := NewMockPersister().(*mockPersister)
	_ = p.CommitBatch([]Commit{{Key: "a", Vector: 5}, {Key: "b", Vector: -5}})
	if p.totalRequests != 10 { t.Fatalf("magnitudes sum to %d, want 10", p.totalRequests) }
}
''','a batch with vectors of both signs','the total is the magnitude of the sum, not the sum of the magnitudes')
bug('M01-skip-empty-threshold','M01',[(C+'metrics.go','''	thresholdsMu.Lock()
	thresholds[name] = value
	thresholdsMu.Unlock()
}''','''	thresholdsMu.RLock()
	old, known := thresholds[name]
	thresholdsMu.RUnlock()
	if known && len(old) == len(value) && old >= value {
		return // unchanged
	}
	thresholdsMu.Lock()
	thresholds[name] = value
	thresholdsMu.Unlock()
}''')],'internal/ratelimiter/core','''
package core
import "testing"
func TestDemo(t *testing.T) {
	SetThresholdInt64("x", 50)
	SetThresholdInt64("x", 40)
	if g := getThresholdSnapshot()["x"]; g != "40" { t.Fatalf("x is %s after being set to 40", g) }
}
''','a threshold set again to a smaller value of the same length','the registry keeps the old value')
