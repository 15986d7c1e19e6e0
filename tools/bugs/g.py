import sys; sys.path.insert(0,'/verif/tools')
from bug import bug
M='cmd/ratelimiter-api/main.go'
D='cmd/ratelimiter-api'
H='''
package main
import ("bufio";"bytes";"fmt";"io";"net";"net/http";"os";"os/exec";"regexp";"strings";"syscall";"testing";"time")
var _ = bufio.NewReader
var _ = regexp.MustCompile
var _ = io.EOF
func init() { if os.Getenv("DEMO_SERVICE") != "" { main(); os.Exit(0) } }
func serve(t *testing.T, flags ...string) (string, *exec.Cmd, *bytes.Buffer) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { t.Fatal(err) }
	a := l.Addr().String()
	l.Close()
	c := exec.Command(os.Args[0], append(flags, "-http_addr="+a)...)
	c.Env = append(os.Environ(), "DEMO_SERVICE=1")
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	if err := c.Start(); err != nil { t.Fatal(err) }
	for i := 0; i < 500; i++ { if n, err := net.Dial("tcp", a); err == nil { n.Close(); return a, c, &b }; time.Sleep(20*time.Millisecond) }
	t.Fatal("no listener")
	return "", nil, nil
}
func check(a, k string) int { r, err := http.Get("http://" + a + "/check?api_key=" + k); if err != nil { return 0 }; r.Body.Close(); return r.StatusCode }
func stop(c *exec.Cmd) { c.Process.Signal(syscall.SIGTERM); d := make(chan struct{}); go func() { c.Wait(); close(d) }(); select { case <-d: case <-time.After(40*time.Second): c.Process.Kill(); <-d } }
var _ = fmt.Sprint
var _ = strings.Count
'''
bug('G01-metrics-only-when-clean','G01',[(M,'''	// 8. Now stop the''','''	if shutdownErr != nil {
		log.Fatalf("Server shutdown failed: %v", shutdownErr)
	}

	// 8. Now stop the''')] if 0 else [(M,'''	persister.PrintFinalMetrics()

''','''	if shutdownErr == nil {
		persister.PrintFinalMetrics()
	}

''')],D,H+'''
func TestDemo(t *testing.T) {
	a, c, b := serve(t, "-commit_threshold=1000")
	check(a, "k")
	// a request that never completes makes the graceful shutdown time out
	n, err := net.Dial("tcp", a)
	if err != nil { t.Fatal(err) }
	defer n.Close()
	fmt.Fprint(n, "GET /check?api_key=k HTTP/1.1\\r\\nHost: x\\r\\n")
	time.Sleep(100*time.Millisecond)
	stop(c)
	if strings.Count(b.String(), "Final persistence metrics") != 1 { t.Fatalf("no final metrics: %s", b.String()) }
}
''','a client that keeps the graceful shutdown waiting until it times out','the final metrics are not printed')
bug('G01-swapped-ages','G01',[(M,'''		*evictionAge,        // Idle time before a key can be dropped
		*evictionInterval,   // How often we scan for idle keys''','''		*evictionInterval,   // How often we scan for idle keys
		*evictionAge,        // Idle time before a key can be dropped''')],D,H+'''
func TestDemo(t *testing.T) {
	a, c, b := serve(t, "-commit_threshold=1000", "-eviction_age=4s", "-eviction_interval=1s")
	check(a, "k")
	time.Sleep(2500*time.Millisecond)
	check(a, "k")
	time.Sleep(2200*time.Millisecond)
	early := strings.Contains(b.String(), "Evicting")
	stop(c)
	if early { t.Fatal("a key touched 2.5 s ago was evicted with an eviction age of 4 s") }
}
''','an eviction age and an eviction interval that differ','the store is scanned every eviction age and keys live for the eviction interval')
bug('G01-cancelled-shutdown','G01',[(M,'''	shutdownErr := httpServer.Shutdown(ctx)
''','''	cancel()
	shutdownErr := httpServer.Shutdown(ctx)
''')] if 0 else [(M,'''	defer cancel()
''','''	cancel()
''')],D,H+'''
func TestDemo(t *testing.T) {
	a, c, b := serve(t, "-commit_threshold=1000")
	n, err := net.Dial("tcp", a)
	if err != nil { t.Fatal(err) }
	defer n.Close()
	fmt.Fprint(n, "GET /check?api_key=k HTTP/1.1\\r\\nHost: x\\r\\n")
	time.Sleep(100*time.Millisecond)
	c.Process.Signal(syscall.SIGTERM)
	time.Sleep(300*time.Millisecond)
	fmt.Fprint(n, "Connection: close\\r\\n\\r\\n")
	r, err := http.ReadResponse(bufio.NewReader(n), nil)
	stop(c)
	if err != nil || r.StatusCode != 200 || !strings.Contains(b.String(), "VECTOR: 1") { t.Fatalf("the request in flight at the signal was not finished: %v %s", err, b.String()) }
}
''','a request in flight at the moment of the signal','requests in flight are cut off instead of finished')
bug('G01-slack-crossed','G01',[(M,'''		CacheSlack:         *vsaCacheSlack,
''','''		CacheSlack:         *vsaGroupSlack,
'''),(M,'''		GroupSlack:         *vsaGroupSlack,
''','''		GroupSlack:         *vsaCacheSlack,
''')],D,H+'''
func TestDemo(t *testing.T) {
	a, c, _ := serve(t, "-rate_limit=10", "-vsa_use_cached_gate", "-vsa_cache_slack=6")
	defer stop(c)
	n := 0
	for i := 0; i < 10; i++ { if check(a, "k") == 200 { n++ } }
	if n > 4 { t.Fatalf("%d of a budget of 10 admitted with a slack of 6", n) }
}
''','the cached gate with a slack of its own','the slack given for one gate is used by the other')
