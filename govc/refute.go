package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

// The bounded companion of the proofs: property-specific runs of the real code
// against an independent oracle. It replays counterexamples; it proves nothing.

type refFail struct{ Key, Text string }

type refResult struct {
	Fails []refFail
	// Siblings are runs that break other properties of the same component.
	Siblings []refFail
	Stats    map[string]any
	Evals    int64
	Err      string
}

func refute(root, repo, prop, tier string, seed int) *refResult {
	res := &refResult{Stats: map[string]any{"label": "bounded"}}
	dir := filepath.Join(workDir(root), "refute-"+prop)
	_ = os.MkdirAll(dir, 0o755)
	repl := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(root, "refute", "*.go"))
	for _, f := range fs {
		repl[filepath.Join(repo, "zz_refute", filepath.Base(f))] = f
	}
	data, _ := json.Marshal(map[string]any{"Replace": repl})
	ov := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ov, data, 0o644); err != nil {
		res.Err = err.Error()
		return res
	}
	limit := 120 * time.Second
	if tier == "thorough" {
		limit = 600 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit+60*time.Second)
	defer cancel()
	bin := filepath.Join(dir, "refute.test")
	env := append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOWORK=off",
		"VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier)
	args := []string{"test", "-c", "-overlay", ov, "-vet=off", "-o", bin}
	if prop == "C01" {
		args = append(args, "-race")
	}
	build := exec.CommandContext(ctx, "go", append(args, "./zz_refute")...)
	build.Dir = repo
	build.Env = env
	if b, err := build.CombinedOutput(); err != nil {
		res.Err = "build: " + tailOf(string(b), 4000)
		return res
	}
	defer os.Remove(bin)
	cmd := exec.CommandContext(ctx, bin, "-test.count=1", "-test.timeout", limit.String(), "-test.run", "^TestRefute"+prop+"$", "-test.v")
	cmd.Dir = dir
	cmd.Env = env
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	err := cmd.Run()
	res.Stats["wall_s"] = time.Since(t0).Seconds()
	text := out.String()
	sc := bufio.NewScanner(strings.NewReader(text))
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	passed, ran := false, false
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		switch {
		case strings.HasPrefix(l, "REFUTE "):
			var f refFail
			if json.Unmarshal([]byte(l[7:]), &f) == nil {
				res.Fails = append(res.Fails, f)
			}
		case strings.HasPrefix(l, "REFUTE-SIBLING "):
			var f refFail
			if json.Unmarshal([]byte(l[15:]), &f) == nil {
				res.Siblings = append(res.Siblings, f)
			}
		case strings.HasPrefix(l, "REFSTAT "):
			var m map[string]any
			if json.Unmarshal([]byte(l[8:]), &m) == nil {
				for k, v := range m {
					res.Stats[k] = v
				}
				if n, ok := m["evaluations"].(float64); ok {
					res.Evals = int64(n)
				}
			}
		case strings.HasPrefix(l, "--- PASS: TestRefute"):
			passed, ran = true, true
		case strings.HasPrefix(l, "--- FAIL: TestRefute"):
			ran = true
		}
	}
	if err == nil && passed {
		return res
	}
	if len(res.Fails) > 0 {
		return res
	}
	switch {
	case strings.Contains(text, "WARNING: DATA RACE"):
		i := strings.Index(text, "WARNING: DATA RACE")
		res.Fails = append(res.Fails, refFail{"data-race", tailOf(text[i:], 6000)})
	case strings.Contains(text, "panic: test timed out"), strings.Contains(text, "all goroutines are asleep"):
		res.Fails = append(res.Fails, refFail{"no-return", "an operation did not return\n" + tailOf(text, 8000)})
	case strings.Contains(text, "fatal error: "), strings.Contains(text, "panic: "):
		res.Fails = append(res.Fails, refFail{"crash", tailOf(text, 8000)})
	case ran:
		res.Fails = append(res.Fails, refFail{"failed", tailOf(text, 4000)})
	default:
		res.Err = tailOf(text, 4000)
		if err != nil {
			res.Err += " " + err.Error()
		}
	}
	return res
}

func tailOf(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func refuteCmd(root, repo string, args []string) int {
	fs := flag.NewFlagSet("refute", flag.ExitOnError)
	prop := fs.String("p", "", "property")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	_ = fs.Parse(args)
	if *tier == "" {
		*tier = "quick"
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	r := refute(root, repo, *prop, *tier, seed)
	for _, f := range r.Fails {
		fmt.Printf("-- %s\n%s\n", f.Key, f.Text)
	}
	fmt.Println(r.Stats, r.Err)
	if len(r.Fails) > 0 {
		return 1
	}
	if r.Err != "" {
		return 2
	}
	return 0
}

func workDir(root string) string {
	if d := os.Getenv("GOVC_WORK"); d != "" {
		return d
	}
	return filepath.Join(root, "work")
}
