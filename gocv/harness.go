package main

// The replay search: drivers in /verif/harness exercise the real code (go test -overlay) for an
// input that breaks the property. Bounded; never counted as proof.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

type harnessResult struct {
	ran    bool
	failed bool
	input  string
	output string
	cmd    string
	secs   float64
	note   string
}

func (h *harnessResult) summary() string {
	if h == nil || !h.ran {
		return "no driver for this property"
	}
	if h.note != "" {
		return h.note
	}
	return fmt.Sprintf("%.1fs, %s", h.secs, strings.Join(regexp.MustCompile(`(?m)VERIF-COVERED .*`).FindAllString(h.output, -1), "; "))
}

// runHarness runs the driver tests TestVerif_<prop>... of every package that has one.
func runHarness(prop, seed string, deep bool, hints []string) *harnessResult {
	hd := filepath.Join(verifDir(), "harness")
	h := &harnessResult{}
	overlay := map[string]string{}
	pkgs := []string{}
	name := map[string]string{}
	filepath.Walk(hd, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, "_verif_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(hd, p)
		b, _ := os.ReadFile(p)
		d := filepath.Dir(rel)
		if m := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(b); m != nil {
			name[d] = string(m[1])
		}
		overlay[filepath.Join(*repoDir, rel)] = p
		if strings.Contains(string(b), "func TestVerif_"+prop+"_") {
			for _, q := range pkgs {
				if q == d {
					return nil
				}
			}
			pkgs = append(pkgs, d)
		}
		return nil
	})
	if len(pkgs) == 0 {
		return h
	}
	// only the files of packages in use
	for k := range overlay {
		d, _ := filepath.Rel(*repoDir, filepath.Dir(k))
		use := false
		for _, q := range pkgs {
			use = use || q == d
		}
		if !use {
			delete(overlay, k)
		}
	}
	tmp, err := os.MkdirTemp("", "gocv-harness-")
	if err != nil {
		h.note = err.Error()
		return h
	}
	defer os.RemoveAll(tmp)
	common, _ := os.ReadFile(filepath.Join(hd, "common.go.txt"))
	for i, d := range pkgs {
		f := filepath.Join(tmp, fmt.Sprintf("common%d_test.go", i))
		os.WriteFile(f, bytes.Replace(common, []byte("package PKG"), []byte("package "+name[d]), 1), 0o644)
		overlay[filepath.Join(*repoDir, d, "zz_common_verif_test.go")] = f
	}
	ov := filepath.Join(tmp, "overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	os.WriteFile(ov, b, 0o644)
	budget := 12
	if *tier == "thorough" {
		budget = 120
	}
	if deep {
		budget *= 3
	}
	h.ran = true
	t0 := time.Now()
	for _, pk := range pkgs {
		args := []string{"test", "-overlay", ov, "-count=1", "-v", "-run", "^TestVerif_" + prop + "_", "-timeout", "600s", "./" + pk}
		ctx, cancel := context.WithTimeout(context.Background(), 640*time.Second)
		cmd := exec.CommandContext(ctx, "go", args...)
		cmd.Dir = *repoDir
		cmd.Env = append(goEnv(), "VERIF_SEED="+seed, fmt.Sprintf("VERIF_BUDGET=%d", budget), "VERIF_HINTS="+strings.Join(hints, ","), "VERIF_SCRATCH="+tmp, "TMPDIR="+tmp)
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		err := cmd.Run()
		cancel()
		o := out.String()
		h.output += o
		h.cmd = fmt.Sprintf("cd %s && VERIF_SEED=%s VERIF_BUDGET=%d VERIF_HINTS=%s go %s   (overlay: each /verif/harness/P/x_verif_test.go as /repo/P/x_verif_test.go)", *repoDir, seed, budget, strings.Join(hints, ","), strings.Join(args, " "))
		if err != nil {
			// only an explicit finding of a driver counts
			if m := regexp.MustCompile(`(?m)VERIF-FAIL .*`).FindString(o); m != "" {
				h.failed = true
				h.input = m
				break
			}
			if m := regexp.MustCompile(`(?m)^(panic: |fatal error: ).*`).FindString(o); m != "" && !strings.Contains(m, "test timed out") && !strings.Contains(m, "out of memory") {
				h.failed = true
				h.input = "the real code stops with " + m
				break
			}
			h.note = "the driver did not run to its end: " + tailOf(o, 600)
		}
	}
	h.secs = time.Since(t0).Seconds()
	if len(h.output) > 20000 {
		h.output = h.output[:20000]
	}
	return h
}

func tailOf(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
