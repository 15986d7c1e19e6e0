package api

import (
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"regexp"
	"strconv"
	"sync"
	"testing"
	"time"

	"vsa"
	"vsa/internal/ratelimiter/core"
)

// rec is a response writer that keeps the headers as they were when the status line was sent.
type rec struct {
	h      http.Header
	sent   http.Header
	status []int
	body   []byte
}

func (r *rec) Header() http.Header { return r.h }
func (r *rec) WriteHeader(c int) {
	if len(r.status) == 0 {
		r.sent = r.h.Clone()
	}
	r.status = append(r.status, c)
}
func (r *rec) Write(b []byte) (int, error) {
	if len(r.status) == 0 {
		r.WriteHeader(200)
	}
	r.body = append(r.body, b...)
	return len(b), nil
}

func ask(v *vf, m *http.ServeMux, method, target string) *rec {
	w := &rec{h: http.Header{}}
	req := httptest.NewRequest(method, target, nil)
	v.safe(method+" "+target, func() { m.ServeHTTP(w, req) })
	if len(w.status) == 0 { // net/http would answer 200
		w.WriteHeader(200)
	}
	return w
}

func apiOpts(v *vf, gate bool) vsa.Options {
	o := vsa.Options{}
	if v.coin() {
		o.Stripes = v.intn(40)
	}
	o.CheapUpdateChooser = v.intn(4) == 0
	o.PerPUpdateChooser = v.intn(4) == 0
	if v.intn(4) == 0 {
		o.HierarchicalGroups = v.intn(5)
	}
	if v.intn(4) == 0 {
		o.GroupCount, o.GroupSlack = v.intn(6), int64(v.intn(20))
	}
	if gate {
		o.UseCachedGate, o.CacheInterval, o.CacheSlack = true, time.Duration(1+v.intn(2000))*time.Microsecond, int64(v.intn(8))
	}
	return o
}

func query(v *vf) (string, string) { // raw query, key
	ks := []string{"alice", "bob", "a b", "a&b", "a=b", "kéy", "\x00", "/", "ALICE", "alice ", "0"}
	switch v.intn(12) {
	case 0:
		return "", ""
	case 1:
		return "api_key=", ""
	case 2:
		return "key=alice", ""
	case 3:
		k := ks[v.intn(len(ks))]
		return "x=1&api_key=" + url.QueryEscape(k) + "&api_key=other", k
	case 4:
		return "api_key=&api_key=alice", ""
	}
	k := ks[v.intn(3)]
	if v.coin() {
		k = ks[v.intn(len(ks))]
	}
	return "api_key=" + url.QueryEscape(k), k
}

type acct struct{ s, n int64 }

func (a *acct) avail() int64 {
	if a.n < 0 {
		return a.s + a.n
	}
	return a.s - a.n
}

// printed runs the final report and returns its counts.
func printed(p core.Persister) map[string]int64 {
	r, w, err := os.Pipe()
	if err != nil {
		return nil
	}
	o := os.Stdout
	os.Stdout = w
	done := make(chan []byte)
	go func() { b, _ := io.ReadAll(r); done <- b }()
	p.PrintFinalMetrics()
	w.Close()
	os.Stdout = o
	b := <-done
	r.Close()
	m := map[string]int64{}
	for _, f := range regexp.MustCompile(`(?m)^(\w+)\s+(-?\d+)\s*$`).FindAllStringSubmatch(string(b), -1) {
		n, _ := strconv.ParseInt(f[2], 10, 64)
		m[f[1]] = n
	}
	return m
}

// history sends random requests, mixed with what the worker does, against a model.
func history(v *vf, t *testing.T, prop string) {
	budget := v.num(1 << 40)
	if v.coin() {
		budget = int64(v.intn(6))
	}
	limit := v.num(0)
	o := apiOpts(v, false)
	st := core.NewStoreWithOptions(budget, o)
	srv := NewServer(st, limit)
	mux := http.NewServeMux()
	srv.RegisterRoutes(mux)
	v.did("budget %d, limit %d, %+v", budget, limit, o)
	model := map[string]*acct{}
	at := func(k string) *acct {
		if model[k] == nil {
			model[k] = &acct{budget, 0}
		}
		return model[k]
	}
	rep := core.NewMockPersister()
	tot := printed(rep)
	want := map[string]int64{"Attempted": tot["Attempted"], "Admits": tot["Admits"], "Refunds": tot["Refunds"]}
	verify := func(after string) {
		for k, a := range model {
			s, n := st.GetOrCreate(k).State()
			if s != a.s || n != a.n {
				v.fail("after %s key %q has scalar %d and net %d, want %d and %d", after, k, s, n, a.s, a.n)
			}
		}
	}
	for i, steps := 0, 1+v.intn(25); i < steps; i++ {
		q, k := query(v)
		method := []string{"GET", "GET", "GET", "POST", "PUT"}[v.intn(5)]
		switch c := v.intn(10); {
		case c < 6 && prop != "A02" || c < 3:
			v.did("%s /check?%s", method, q)
			w := ask(v, mux, method, "/check?"+q)
			if len(w.status) != 1 {
				v.fail("/check?%s writes the status %d times", q, len(w.status))
			}
			if k == "" {
				if w.status[0] != 400 {
					v.fail("/check?%s without a key answers %d", q, w.status[0])
				}
				break
			}
			a := at(k)
			had := a.avail()
			code, name := 429, "Exceeded"
			want["Attempted"]++
			if had >= 1 {
				code, name = 200, "OK"
				a.n++
				want["Admits"]++
			}
			if w.status[0] != code {
				v.fail("/check?%s with %d available answers %d, want %d", q, had, w.status[0], code)
			}
			hs := map[string]string{"X-RateLimit-Status": name, "X-RateLimit-Limit": fmt.Sprint(limit), "X-RateLimit-Remaining": fmt.Sprint(a.avail())}
			if code == 429 {
				hs["Retry-After"] = "60"
			}
			for h, x := range hs {
				if g := w.sent.Values(h); len(g) != 1 || g[0] != x {
					v.fail("/check?%s (status %d) sends %s=%q, want %q", q, code, h, g, x)
				}
			}
		case c < 8:
			v.did("%s /release?%s", method, q)
			w := ask(v, mux, method, "/release?"+q)
			if len(w.status) != 1 {
				v.fail("/release?%s writes the status %d times", q, len(w.status))
			}
			if k == "" {
				if w.status[0] != 400 {
					v.fail("/release?%s without a key answers %d", q, w.status[0])
				}
				break
			}
			if w.status[0] != 204 {
				v.fail("/release?%s answers %d", q, w.status[0])
			}
			if a := at(k); a.n > 0 {
				a.n--
				want["Refunds"]++
			}
		case k == "":
		case c == 8:
			a := at(k)
			s, n := st.GetOrCreate(k).State()
			if s != a.s || n != a.n {
				v.fail("key %q has scalar %d and net %d, want %d and %d", k, s, n, a.s, a.n)
			}
			v.did("commit %d of %q", a.n, k)
			st.GetOrCreate(k).Commit(a.n)
			if a.n < 0 {
				a.s += a.n
			} else {
				a.s -= a.n
			}
			a.n = 0
		default:
			a := at(k)
			d := int64(v.intn(7)) - 3
			v.did("update %q by %d", k, d)
			st.GetOrCreate(k).Update(d)
			a.n += d
		}
		verify(fmt.Sprintf("%s (key %q)", method, k))
	}
	got := printed(rep)
	for n, x := range want {
		if g, ok := got[n]; ok && g != x && (n != "Refunds" || prop != "A01") && (n == "Refunds" || prop == "M01") {
			v.fail("the report says %s %d, want %d", n, g, x)
		}
	}
	st.CloseAll()
}

func TestVerif_A01_Histories(t *testing.T) {
	v := verif(t, "A01", 0.5)
	for v.more() {
		history(v, t, "A01")
	}
	v.covered("histories of check and release requests, commits and updates")
}

func TestVerif_A02_Histories(t *testing.T) {
	v := verif(t, "A02", 0.6)
	for v.more() {
		history(v, t, "A02")
	}
	v.covered("histories of check and release requests, commits and updates")
}

func TestVerif_M01_Histories(t *testing.T) {
	v := verif(t, "M01", 0.3)
	for v.more() {
		history(v, t, "M01")
	}
	v.covered("histories of check and release requests, commits and updates")
}

// concurrent requests for few keys; with the exact gate all of the budget is handed out.
func TestVerif_A01_Concurrent(t *testing.T) {
	v := verif(t, "A01", 0.5)
	for v.more() {
		budget := int64(v.intn(40))
		gate := v.intn(3) == 0
		o := apiOpts(v, gate)
		o.GroupCount, o.GroupSlack = 0, 0
		st := core.NewStoreWithOptions(budget, o)
		srv := NewServer(st, 7)
		mux := http.NewServeMux()
		srv.RegisterRoutes(mux)
		ng, per := 2+v.intn(6), 1+v.intn(30)
		v.did("budget %d, %+v, %d goroutines with %d requests", budget, o, ng, per)
		var mu sync.Mutex
		oks, total, low := int64(0), int64(0), int64(math.MaxInt64)
		bad := ""
		var wg sync.WaitGroup
		for g := 0; g < ng; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < per; i++ {
					w := &rec{h: http.Header{}}
					mux.ServeHTTP(w, httptest.NewRequest("GET", "/check?api_key=k", nil))
					mu.Lock()
					total++
					rem, err := strconv.ParseInt(w.sent.Get("X-RateLimit-Remaining"), 10, 64)
					if len(w.status) != 1 || err != nil || w.status[0] != 200 && w.status[0] != 429 {
						bad = fmt.Sprintf("status %v, remaining %q", w.status, w.sent.Get("X-RateLimit-Remaining"))
					} else if w.status[0] == 200 {
						oks++
					}
					if err == nil && rem < low {
						low = rem
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if bad != "" {
			v.fail("a request ends with %s", bad)
		}
		if oks > budget {
			v.fail("%d requests admitted with a budget of %d", oks, budget)
		}
		if w := min(budget, total); !gate && oks != w {
			v.fail("%d of %d requests admitted with a budget of %d", oks, total, budget)
		}
		if low < 0 || low < budget-total {
			v.fail("a remaining budget of %d is reported, the budget is %d and %d requests were sent", low, budget, total)
		}
		if _, n := st.GetOrCreate("k").State(); n != oks {
			v.fail("%d requests admitted, %d units consumed", oks, n)
		}
		st.CloseAll()
	}
	v.covered("concurrent check requests")
}

// concurrent releases return what is pending once.
func TestVerif_A02_Concurrent(t *testing.T) {
	v := verif(t, "A02", 0.4)
	for v.more() {
		budget, used := int64(v.intn(40)), int64(0)
		st := core.NewStoreWithOptions(budget, apiOpts(v, false))
		srv := NewServer(st, 7)
		mux := http.NewServeMux()
		srv.RegisterRoutes(mux)
		for i, n := 0, v.intn(30); i < n; i++ {
			if st.GetOrCreate("k").TryConsume(1) {
				used++
			}
		}
		rep := core.NewMockPersister()
		r0 := printed(rep)["Refunds"]
		ng, per := 2+v.intn(6), 1+v.intn(8)
		v.did("budget %d, %d units used, %d goroutines with %d releases", budget, used, ng, per)
		var wg sync.WaitGroup
		var mu sync.Mutex
		bad := 0
		for g := 0; g < ng; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < per; i++ {
					w := &rec{h: http.Header{}}
					mux.ServeHTTP(w, httptest.NewRequest("GET", "/release?api_key=k", nil))
					if len(w.status) != 1 || w.status[0] != 204 {
						mu.Lock()
						bad++
						mu.Unlock()
					}
				}
			}()
		}
		wg.Wait()
		if bad > 0 {
			v.fail("%d releases do not answer 204", bad)
		}
		back := min(used, int64(ng*per))
		if _, n := st.GetOrCreate("k").State(); n != used-back {
			v.fail("after %d releases of %d units %d are pending, want %d", ng*per, used, n, used-back)
		}
		if m, ok := printed(rep)["Refunds"]; ok && r0+back != m {
			v.fail("%d units came back, the refund counter grew by %d", back, m-r0)
		}
		st.CloseAll()
	}
	v.covered("concurrent releases")
}
