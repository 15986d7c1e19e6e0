package sinks

import (
	"bytes"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	tfd "vsa/plugin/tfd"
)

func (v *vf) u64() uint64 {
	switch v.intn(6) {
	case 0:
		return 0
	case 1:
		return math.MaxUint64 - uint64(v.intn(3))
	case 2:
		return 1<<53 + uint64(v.intn(5)) - 2
	case 3:
		return uint64(v.intn(10))
	}
	return v.rng.Uint64()
}

func (v *vf) envelope() tfd.Envelope {
	e := tfd.Envelope{Channel: tfd.Channel(v.intn(4) - 1), Delta: v.num(0), SeqEnd: v.u64()}
	e.Footprint = tfd.Footprint{KeyID: v.u64(), Time: tfd.TimeFootprint{BucketID: v.u64(), All: v.coin()}, Scope: tfd.Channel(v.intn(2))}
	if v.coin() {
		v.rng.Read(e.HashPrev[:])
	}
	return e
}

func (v *vf) batch() tfd.SBatch {
	return tfd.SBatch{KeyID: v.u64(), BucketID: v.u64(), NetDelta: v.num(0), SeqEnd: v.u64()}
}

// sLog is one of the two logs: records are compared as R.
type sLog[R comparable] struct {
	name   string
	open   func(path string) (interface{}, error)
	append func(l interface{}, rs []R)
	flush  func(l interface{}) error
	close  func(l interface{}) error
	read   func(path string) ([]R, error)
	make   func(v *vf) R
}

var vLog = &sLog[tfd.Envelope]{"V log",
	func(p string) (interface{}, error) { return NewVEnvFileSink(p) },
	func(l interface{}, rs []tfd.Envelope) {
		if len(rs) == 1 {
			l.(*VEnvFileSink).Append(rs[0])
		} else {
			l.(*VEnvFileSink).AppendAll(rs)
		}
	},
	func(l interface{}) error { return l.(*VEnvFileSink).Flush() },
	func(l interface{}) error { return l.(*VEnvFileSink).Close() },
	ReadAllVLog, (*vf).envelope}

var bLog = &sLog[tfd.SBatch]{"S log",
	func(p string) (interface{}, error) { return NewSBatchFileSink(p) },
	func(l interface{}, rs []tfd.SBatch) { l.(*SBatchFileSink).OnSBatches(rs) },
	func(l interface{}) error { return l.(*SBatchFileSink).Flush() },
	func(l interface{}) error { return l.(*SBatchFileSink).Close() },
	ReadAllSLog, (*vf).batch}

func (g *sLog[R]) check(v *vf, path string, want []R) {
	got, err := g.read(path)
	if err != nil {
		v.fail("%s: reading: %v", g.name, err)
		return
	}
	for i := range want {
		if i >= len(got) || got[i] != want[i] {
			var x interface{} = "nothing"
			if i < len(got) {
				x = got[i]
			}
			v.fail("%s: record %d of %d is %+v, appended was %+v", g.name, i, len(want), x, want[i])
			return
		}
	}
	if len(got) > len(want) {
		v.fail("%s: %d records for %d appended, the first extra one is %+v", g.name, len(got), len(want), got[len(want)])
	}
}

func sHistories[R comparable](v *vf, g *sLog[R], dir string) {
	path := filepath.Join(dir, "log")
	os.Remove(path)
	var want []R
	l, err := g.open(path)
	if err != nil {
		return
	}
	v.did("%s", g.name)
	size := func() int64 {
		fi, err := os.Stat(path)
		if err != nil {
			return -1
		}
		return fi.Size()
	}
	for i, n := 0, 1+v.intn(15); i < n; i++ {
		switch k := v.intn(9); k {
		case 0, 1, 2, 3, 4:
			m := []int{0, 1, 2, 3, 40}[k]
			if v.intn(100) == 0 {
				m = 16000 // more than the buffer holds
			}
			rs := make([]R, m)
			for j := range rs {
				if j > 0 && v.intn(4) == 0 {
					rs[j] = rs[j-1] // equal records are records of their own
					continue
				}
				rs[j] = g.make(v)
			}
			v.did("append %d", m)
			v.safe("append", func() { g.append(l, rs) })
			want = append(want, rs...)
		case 5, 6:
			v.did("flush")
			if err := g.flush(l); err != nil {
				v.fail("%s: flush: %v", g.name, err)
			}
			g.check(v, path, want)
			a := size()
			g.append(l, nil)
			if g.flush(l); size() != a {
				v.fail("%s: appending nothing wrote %d bytes", g.name, size()-a)
			}
		case 7, 8:
			v.did("close")
			if err := g.close(l); err != nil {
				v.fail("%s: close: %v", g.name, err)
			}
			g.check(v, path, want)
			if k == 8 {
				// what another writer, or one that died, left in the file
				bad := []string{"{\n", "\n", "not json\n", "[1,2\n", "\x00\xff\n", "\"x\"\n", strings.Repeat("x", 70000) + "\n", strings.Repeat("{", 2000000) + "\n", `{"KeyID":`, `{"Channel":1,"Footprint":{`, "}"}
				j := v.intn(len(bad))
				b := bad[j]
				v.did("malformed %.20q", b)
				f, err := os.OpenFile(path, os.O_APPEND|os.O_WRONLY, 0)
				if err != nil {
					return
				}
				f.WriteString(b)
				f.Close()
			}
			v.did("reopen")
			l, err = g.open(path)
			if err != nil {
				v.fail("%s: reopening: %v", g.name, err)
				return
			}
		}
	}
	g.close(l)
	g.check(v, path, want)
}

// ---- S01

func TestVerif_S01_Histories(t *testing.T) {
	v := verif(t, "S01", 0.5)
	dir := t.TempDir()
	for v.more() {
		if v.coin() {
			sHistories(v, vLog, dir)
		} else {
			sHistories(v, bLog, dir)
		}
	}
	v.covered("histories of appends, flushes, reopenings and malformed lines")
}

func sConcurrent[R comparable](v *vf, g *sLog[R], dir string) {
	path := filepath.Join(dir, "log")
	os.Remove(path)
	l, err := g.open(path)
	if err != nil {
		return
	}
	n, m := 2+v.intn(6), 1+v.intn(80)
	v.did("%s: %d writers, %d appends each", g.name, n, m)
	rs := make([][]R, n)
	left := map[R]int{}
	for i := range rs {
		for j := 0; j < m; j++ {
			r := g.make(v)
			rs[i] = append(rs[i], r)
			left[r]++
		}
	}
	var wg sync.WaitGroup
	for i := range rs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < m; {
				k := min(m, j+1+(i+j)%3)
				g.append(l, rs[i][j:k])
				j = k
				if j%7 == 0 {
					g.flush(l)
				}
			}
		}()
	}
	wg.Wait()
	g.close(l)
	got, err := g.read(path)
	if err != nil {
		v.fail("%s: reading: %v", g.name, err)
	}
	for _, r := range got {
		left[r]--
	}
	for r, n := range left {
		if n != 0 {
			v.fail("%s: %+v is missing %d times", g.name, r, n)
			return
		}
	}
	b, _ := os.ReadFile(path)
	if c := bytes.Count(b, []byte("\n")); c != n*m {
		v.fail("%s: %d lines for %d records", g.name, c, n*m)
	}
}

func TestVerif_S01_Concurrent(t *testing.T) {
	v := verif(t, "S01", 0.3)
	dir := t.TempDir()
	for v.more() {
		if v.coin() {
			sConcurrent(v, vLog, dir)
		} else {
			sConcurrent(v, bLog, dir)
		}
	}
	v.covered("concurrent writers")
}
