package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

// The service runs as a child process: the test binary with VERIF_SERVICE set runs main.
func init() {
	if os.Getenv("VERIF_SERVICE") != "" {
		main()
		os.Exit(0)
	}
}

type output struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (o *output) Write(p []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.Write(p)
}
func (o *output) String() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.String()
}

type service struct {
	cmd  *exec.Cmd
	addr string
	out  output
	done chan struct{}
}

func freeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return ""
	}
	defer l.Close()
	return l.Addr().String()
}

var client = &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: 20 * time.Second}

func startService(v *vf, flags ...string) *service {
	s := &service{addr: freeAddr(), done: make(chan struct{})}
	flags = append(flags, "-http_addr="+s.addr)
	v.did("service %s", strings.Join(flags, " "))
	s.cmd = exec.Command(os.Args[0], flags...)
	s.cmd.Env = append(os.Environ(), "VERIF_SERVICE=1")
	s.cmd.Stdout, s.cmd.Stderr = &s.out, &s.out
	if s.cmd.Start() != nil {
		return nil
	}
	go func() { _ = s.cmd.Wait(); close(s.done) }()
	up := eventually(60*time.Second, func() bool {
		c, err := net.DialTimeout("tcp", s.addr, time.Second)
		if err == nil {
			c.Close()
		}
		return err == nil || s.ended()
	})
	if !up || s.ended() {
		// the port may have been taken meanwhile; a service that never listens is a failing input
		o := s.out.String()
		s.kill()
		if strings.Contains(o, "address already in use") {
			return nil
		}
		v.fail("the service does not listen on the address it was given: %.300s", o)
	}
	return s
}

func (s *service) ended() bool {
	select {
	case <-s.done:
		return true
	default:
		return false
	}
}
func (s *service) kill() { _ = s.cmd.Process.Kill(); <-s.done }

// ask returns the status of a request, 0 when there was no answer.
func (s *service) ask(key string) (int, http.Header) {
	r, err := client.Get("http://" + s.addr + "/check?api_key=" + key)
	if err != nil {
		return 0, nil
	}
	io.Copy(io.Discard, r.Body)
	r.Body.Close()
	return r.StatusCode, r.Header
}

// end signals the service while requests are in flight and returns how many more were admitted,
// and how many got no answer.
func (s *service) end(v *vf, keys int, idle bool) (admitted, unknown int64) {
	var wg sync.WaitGroup
	var stop atomic.Bool
	var late atomic.Int64 // when an answer comes too late to be owed: the service waits 5 s for requests
	late.Store(1 << 62)
	clients, halves := v.intn(5), v.intn(3)
	if idle {
		clients, halves = 0, 0
	}
	count := func(ok bool) {
		if ok && time.Now().UnixNano() < late.Load() {
			atomic.AddInt64(&admitted, 1)
		} else {
			atomic.AddInt64(&unknown, 1)
		}
	}
	for i := 0; i < clients; i++ {
		wg.Add(1)
		go func(k string) {
			defer wg.Done()
			for !stop.Load() {
				c, _ := s.ask(k)
				if c == 200 || c == 0 {
					count(c == 200)
				}
				if c == 0 {
					return
				}
			}
		}(fmt.Sprintf("k%d", v.intn(keys)))
	}
	// requests whose head arrives only after the signal
	type half struct{ c net.Conn }
	var hs []half
	for i := 0; i < halves; i++ {
		if c, err := net.Dial("tcp", s.addr); err == nil {
			fmt.Fprintf(c, "GET /check?api_key=k%d HTTP/1.1\r\nHost: x\r\n", v.intn(keys))
			hs = append(hs, half{c})
		}
	}
	time.Sleep(time.Duration(20+v.intn(50)) * time.Millisecond)
	sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[v.intn(2)]
	v.did("signal %v with %d requests half sent", sig, len(hs))
	late.Store(time.Now().Add(2 * time.Second).UnixNano())
	_ = s.cmd.Process.Signal(sig)
	time.Sleep(time.Duration(20+v.intn(150)) * time.Millisecond)
	for _, h := range hs {
		fmt.Fprint(h.c, "Connection: close\r\n\r\n")
		_ = h.c.SetReadDeadline(time.Now().Add(15 * time.Second))
		r, err := http.ReadResponse(bufio.NewReader(h.c), nil)
		if err != nil || r.StatusCode == 200 {
			count(err == nil)
		}
		h.c.Close()
	}
	select {
	case <-s.done:
	case <-time.After(40 * time.Second):
		stop.Store(true)
		s.kill()
		v.fail("the service does not end after the signal")
	}
	stop.Store(true)
	wg.Wait()
	return
}

var vectorLine = regexp.MustCompile(`KEY: (\S+) +VECTOR: (-?\d+)`)
var tableLine = regexp.MustCompile(`(?m)^(\S.*?) {2,}(\S+)\r?$`)

func persisted(o string) (rows, sum int64) {
	for _, m := range vectorLine.FindAllStringSubmatch(o, -1) {
		n, _ := strconv.ParseInt(m[2], 10, 64)
		rows++
		sum += n
	}
	return
}

func TestVerif_G01_Shutdown(t *testing.T) {
	v := verif(t, "G01", 0.5)
	for v.more() {
		limit := 1 + v.intn(60)
		names := map[string]string{
			"rate_limit": strconv.Itoa(limit), "commit_threshold": "1000", "commit_low_watermark": strconv.Itoa(v.intn(9)),
			"commit_interval": fmt.Sprintf("%dms", 20+v.intn(30)), "commit_max_age": "0s", "eviction_age": "1h0m0s", "eviction_interval": fmt.Sprintf("%dm0s", 2+v.intn(9)),
			"churn_top_n": strconv.Itoa(1 + v.intn(60)), "churn_key_hash_len": strconv.Itoa(1 + v.intn(20)), "churn_sample": "0.5", "churn_log_interval": "17s",
		}
		fires := "" // which setting must make the worker persist before the signal
		switch v.intn(5) {
		case 0:
			names["commit_threshold"], fires = "3", "commit_threshold"
		case 1:
			names["commit_max_age"], fires = "41ms", "commit_max_age"
		case 2:
			names["eviction_age"], names["eviction_interval"], fires = "400ms", "43ms", "eviction_age"
		case 3:
			names["commit_threshold"], names["commit_interval"] = "2", "2h0m0s"
		}
		if limit < 3 && fires == "commit_threshold" {
			fires = "" // three requests would not be admitted
		}
		fires0 := fires
		var flags []string
		for k, x := range names {
			flags = append(flags, "-"+k+"="+x)
		}
		for _, f := range []string{"vsa_use_cached_gate", "vsa_cheap_update_chooser", "churn_metrics"} {
			if v.intn(4) == 0 {
				flags = append(flags, "-"+f)
			}
		}
		// with a slack of the whole budget the cached gate admits nothing, however old its view is
		closed := fires == "" && v.intn(4) == 0
		if closed {
			flags = append(flags, "-vsa_use_cached_gate", "-vsa_cache_slack="+strconv.Itoa(limit+v.intn(3)))
		}
		s := startService(v, flags...)
		if s == nil {
			continue
		}
		gated := strings.Contains(strings.Join(flags, " "), "cached_gate")
		var admitted int64
		n := 3 + v.intn(limit+4)
		v.did("%d requests of one key", n)
		for i := 0; i < n; i++ {
			c, h := s.ask("k0")
			if c == 200 {
				admitted++
			}
			if l := h.Get("X-RateLimit-Limit"); c == 200 && l != strconv.Itoa(limit) {
				s.kill()
				v.fail("limit %s announced, the setting is %d", l, limit)
			}
		}
		if want := int64(min(n, limit)); !gated && fires == "" && admitted != want {
			s.kill()
			v.fail("%d of %d requests admitted with a budget of %d", admitted, n, limit)
		}
		if closed && admitted > 0 {
			s.kill()
			v.fail("%d of %d requests admitted with a budget of %d and a slack at least as large", admitted, n, limit)
		}
		if fires != "" && admitted >= 3 {
			if !eventually(30*time.Second, func() bool { r, _ := persisted(s.out.String()); return r > 0 || strings.Contains(s.out.String(), "Final commit") }) {
				s.kill()
				v.fail("nothing is persisted although %s is %s", fires0, names[fires0])
			}
		} else if fires == "" {
			time.Sleep(time.Duration(v.intn(120)) * time.Millisecond)
			if r, _ := persisted(s.out.String()); r > 0 {
				s.kill()
				v.fail("a row is persisted before the signal although no setting asks for it: %.300s", s.out.String())
			}
		}
		a, unknown := s.end(v, 3, fires == "eviction_age")
		admitted += a
		o := s.out.String()
		rows, sum := persisted(o)
		if sum < admitted || sum > admitted+unknown {
			v.fail("%d requests admitted (%d without answer), %d persisted at the end", admitted, unknown, sum)
		}
		if c := strings.Count(o, "Final persistence metrics"); c != 1 {
			v.fail("final metrics printed %d times: %.300s", c, tail(o))
		}
		tab := map[string]string{}
		for _, m := range tableLine.FindAllStringSubmatch(o[strings.Index(o, "Final persistence metrics"):], -1) {
			tab[m[1]] = m[2]
		}
		if tab["Writes"] != strconv.FormatInt(rows, 10) {
			v.fail("final metrics report %s writes of %d", tab["Writes"], rows)
		}
		names["http_addr"] = s.addr
		for k, x := range names {
			if g, ok := tab[k]; ok && g != x {
				v.fail("setting %s is %s, reported as %s", k, x, g)
			}
		}
	}
	v.covered("a service process with random settings ended by a signal while requests are in flight")
}

// A key idle for less than the eviction age stays, however often the store is scanned.
func TestVerif_G01_Ages(t *testing.T) {
	v := verif(t, "G01", 0.05)
	for v.more() {
		s := startService(v, "-commit_threshold=1000", "-eviction_age=3s", "-eviction_interval=1s")
		if s == nil {
			return
		}
		var t0 time.Time
		slow := false
		for i := 0; i < 2; i++ {
			if i > 0 {
				time.Sleep(1400 * time.Millisecond)
			}
			slow = slow || i > 0 && time.Since(t0) > 2700*time.Millisecond
			t0 = time.Now()
			s.ask("k0")
		}
		time.Sleep(1900 * time.Millisecond)
		gone := strings.Contains(s.out.String(), "Evicting")
		slow = slow || time.Since(t0) > 2700*time.Millisecond
		v.did("requests of one key 1.4 s apart")
		s.end(v, 1, true)
		if gone && !slow {
			v.fail("the key is evicted with an eviction age of 3 s")
		}
	}
	v.covered("a service process with a key in use")
}

// A client that never finishes its request makes the graceful shutdown time out.
func TestVerif_G01_StuckClient(t *testing.T) {
	v := verif(t, "G01", 0.05)
	for v.more() {
		s := startService(v, "-commit_threshold=1000")
		if s == nil {
			return
		}
		var admitted int64
		for i := 0; i < 5; i++ {
			if c, _ := s.ask("k0"); c == 200 {
				admitted++
			}
		}
		c, err := net.Dial("tcp", s.addr)
		if err == nil {
			fmt.Fprint(c, "GET /check?api_key=k0 HTTP/1.1\r\nHost: x\r\n")
			defer c.Close()
			time.Sleep(100 * time.Millisecond)
		}
		v.did("5 requests and one that never completes")
		a, unknown := s.end(v, 1, true)
		admitted += a
		o := s.out.String()
		if _, sum := persisted(o); sum < admitted || sum > admitted+unknown {
			v.fail("%d requests admitted, %d persisted at the end", admitted, sum)
		}
		if n := strings.Count(o, "Final persistence metrics"); n != 1 {
			v.fail("final metrics printed %d times: %.300s", n, tail(o))
		}
	}
	v.covered("a service process whose graceful shutdown times out")
}

func tail(o string) string {
	if len(o) > 300 {
		return o[len(o)-300:]
	}
	return o
}

// fakeRedis answers EVAL and records it.
type fakeRedis struct {
	l   net.Listener
	mu  sync.Mutex
	sum map[string]int64
	ttl map[string]bool
}

func (f *fakeRedis) serve() {
	for {
		c, err := f.l.Accept()
		if err != nil {
			return
		}
		go func() {
			defer c.Close()
			r := bufio.NewReader(c)
			for {
				a, err := readCommand(r)
				if err != nil {
					return
				}
				if strings.ToUpper(a[0]) != "EVAL" {
					fmt.Fprint(c, "-ERR unknown command\r\n")
					continue
				}
				f.mu.Lock()
				if len(a) >= 6 {
					n, _ := strconv.ParseInt(a[5], 10, 64)
					f.sum[a[3]] += n
				}
				if len(a) >= 7 {
					f.ttl[a[6]] = true
				}
				f.mu.Unlock()
				fmt.Fprint(c, ":1\r\n")
			}
		}()
	}
}

func readCommand(r *bufio.Reader) ([]string, error) {
	line := func(p byte) (int, error) {
		s, err := r.ReadString('\n')
		if err != nil || s[0] != p {
			return 0, fmt.Errorf("protocol: %q %v", s, err)
		}
		return strconv.Atoi(strings.TrimSpace(s[1:]))
	}
	n, err := line('*')
	if err != nil || n < 1 {
		return nil, fmt.Errorf("no command")
	}
	var a []string
	for i := 0; i < n; i++ {
		m, err := line('$')
		if err != nil {
			return nil, err
		}
		b := make([]byte, m+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		a = append(a, string(b[:m]))
	}
	return a, nil
}

func TestVerif_G01_RedisSettings(t *testing.T) {
	v := verif(t, "G01", 0.2)
	for v.more() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return
		}
		f := &fakeRedis{l: l, sum: map[string]int64{}, ttl: map[string]bool{}}
		go f.serve()
		ttl := 1 + v.intn(500)
		s := startService(v, "-persistence_adapter=redis", "-redis_addr="+l.Addr().String(), fmt.Sprintf("-redis_marker_ttl=%ds", ttl), "-commit_interval=30ms")
		if s == nil {
			l.Close()
			continue
		}
		var admitted int64
		for i := 0; i < 1+v.intn(8); i++ {
			if c, _ := s.ask("k0"); c == 200 {
				admitted++
			}
		}
		a, unknown := s.end(v, 1, false)
		admitted += a
		l.Close()
		f.mu.Lock()
		sum := f.sum["counter:k0"]
		if admitted > 0 && (sum < admitted || sum > admitted+unknown) {
			v.fail("%d requests admitted (%d without answer), the store at redis_addr was sent %d", admitted, unknown, sum)
		}
		for x := range f.ttl {
			if x != strconv.Itoa(ttl) {
				v.fail("marker lifetime %s, the setting is %d s", x, ttl)
			}
		}
		f.mu.Unlock()
	}
	v.covered("a service process that persists to a Redis stand-in")
}
