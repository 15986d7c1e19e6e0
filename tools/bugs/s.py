import sys; sys.path.insert(0,'/verif/tools')
from bug import bug
D='internal/sinks/'
V,S=D+'venv_file_sink.go',D+'sbatch_file_sink.go'
H='''
package sinks
import ("testing";"path/filepath";"strings";"sync";"os";"bytes";"time";tfd "vsa/plugin/tfd")
var _ = strings.Repeat
var _ sync.Mutex
var _ = os.Args
var _ bytes.Buffer
var _ time.Time
'''
bug('S01-reader-default-buffer','S01',[(V,'''	buf := make([]byte, 0, 1<<20)
	scanner.Buffer(buf, 1<<26)
''','')],D[:-1],H+'''
func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "v.log")
	s, err := NewVEnvFileSink(p)
	if err != nil { t.Fatal(err) }
	s.Append(tfd.Envelope{Delta: 1})
	if err := s.Close(); err != nil { t.Fatal(err) }
	// What a power loss leaves of a record whose blocks were never written.
	f, err := os.OpenFile(p, os.O_APPEND|os.O_WRONLY, 0)
	if err != nil { t.Fatal(err) }
	if _, err := f.Write(make([]byte, 100000)); err != nil { t.Fatal(err) }
	_ = f.Close()
	if s, err = NewVEnvFileSink(p); err != nil { t.Fatal(err) }
	s.Append(tfd.Envelope{Delta: 2})
	if err := s.Close(); err != nil { t.Fatal(err) }
	out, err := ReadAllVLog(p)
	if err != nil || len(out) != 2 { t.Fatalf("%d of 2 records read, error %v", len(out), err) }
}
''','a log whose torn last record left more than 64 KiB behind','the reader stops there and never returns the records after it')
bug('S01-close-before-flush','S01',[(S,'''	_ = s.w.Flush()
	return s.f.Close()
''','''	if time.Since(s.lastFlush) > 100*time.Millisecond {
		_ = s.w.Flush()
	}
	return s.f.Close()
''')],D[:-1],H+'''
func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "s.log")
	s, err := NewSBatchFileSink(p)
	if err != nil { t.Fatal(err) }
	s.OnSBatches(make([]tfd.SBatch, 1))
	_ = s.Flush()
	s.OnSBatches(make([]tfd.SBatch, 2))
	if err := s.Close(); err != nil { t.Fatal(err) }
	out, err := ReadAllSLog(p)
	if err != nil || len(out) != 3 { t.Fatalf("%d of 3 records read, error %v", len(out), err) }
}
''','a sink closed less than 100 ms after its last flush, with batches written in between','the last batches never reach the file')
bug('S01-unlocked-flush','S01',[(V,'''func (s *VEnvFileSink) Flush() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.lastFlush = time.Now()
	return s.w.Flush()
''','''func (s *VEnvFileSink) Flush() error {
	s.mu.Lock()
	s.lastFlush = time.Now()
	w := s.w
	s.mu.Unlock()
	return w.Flush()
''')],D[:-1],H+'''
func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "v.log")
	s, err := NewVEnvFileSink(p)
	if err != nil { t.Fatal(err) }
	var wg sync.WaitGroup
	stop := make(chan struct{})
	wg.Add(1)
	go func() { defer wg.Done(); for { select { case <-stop: return; default: _ = s.Flush() } } }()
	for i := 0; i < 2000; i++ { s.Append(tfd.Envelope{Delta: int64(i)}) }
	close(stop)
	wg.Wait()
	_ = s.Close()
	out, err := ReadAllVLog(p)
	if err != nil || len(out) != 2000 { t.Fatalf("%d of 2000 records read, error %v", len(out), err) }
}
''','a Flush while another goroutine appends','the buffer is written and appended to at once: records are lost or torn',race=True)
bug('S01-coalesced-batch','S01',[(S,'''	for _, sb := range b {
		if err''','''	for i, sb := range b {
		if i > 0 && sb == b[i-1] {
			// already in the log
			continue
		}
		if err''')],D[:-1],H+'''
func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "s.log")
	s, err := NewSBatchFileSink(p)
	if err != nil { t.Fatal(err) }
	s.OnSBatches(make([]tfd.SBatch, 2))
	if err := s.Close(); err != nil { t.Fatal(err) }
	out, err := ReadAllSLog(p)
	if err != nil || len(out) != 2 { t.Fatalf("%d of 2 records read, error %v", len(out), err) }
}
''','two equal batches next to each other in one call','the second of two equal batches is not logged, so a replay misses its amount')
