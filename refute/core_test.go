// Package refute looks for inputs on which the real code breaks a property.
// It is the bounded companion of the proofs: what it finds is replayable, what
// it does not find proves nothing.
package refute

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type R struct {
	t        *testing.T
	prop     string
	rng      *rand.Rand
	thorough bool
	evals    int64
	seen     map[uint64]struct{}
	samples  []string
	failed   map[string]bool
	soft     map[string]bool
	siblings map[string]bool
	start    time.Time
	budget   time.Duration

	mu   sync.Mutex
	cur  func() string
	at   time.Time
	done chan struct{}
}

func run(t *testing.T, id, rule string, quick time.Duration, f func(r *R)) {
	seed := int64(1)
	if n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = n
	}
	r := &R{t: t, prop: id, rng: rand.New(rand.NewSource(seed)), seen: map[uint64]struct{}{}, failed: map[string]bool{}, soft: map[string]bool{}, siblings: map[string]bool{},
		start: time.Now(), budget: quick, thorough: os.Getenv("VERIF_TIER") == "thorough", done: make(chan struct{})}
	if r.thorough {
		r.budget = 20 * quick
	}
	go r.watch()
	r.Guard("panic", nil, func() { f(r) })
	close(r.done)
	st, _ := json.Marshal(map[string]any{"evaluations": r.evals, "distinct_nontrivial": len(r.seen), "rule": rule, "samples": r.samples})
	fmt.Printf("\nREFSTAT %s\n", st)
	if len(r.failed)+len(r.soft) > 0 {
		t.Fail()
	}
}

// watch reports an operation that does not return.
func (r *R) watch() {
	for {
		select {
		case <-r.done:
			return
		case <-time.After(time.Second):
		}
		r.mu.Lock()
		cur, at := r.cur, r.at
		r.mu.Unlock()
		if cur != nil && time.Since(at) > 20*time.Second {
			fmt.Printf("\nREFUTE %s\n", mustJSON(map[string]string{"Key": "no-return", "Text": "does not return: " + cur()}))
			os.Exit(1)
		}
	}
}

func mustJSON(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// More tells whether there is time for another case.
func (r *R) More() bool { return len(r.failed) == 0 && time.Since(r.start) < r.budget }

// N scales a number of cases with the tier.
func (r *R) N(quick int) int {
	if r.thorough {
		return quick * 20
	}
	return quick
}

// Eval counts one case; sig identifies it, "" marks it trivial.
func (r *R) Eval(sig string) {
	r.evals++
	if sig == "" {
		return
	}
	h := fnv.New64a()
	_, _ = h.Write([]byte(sig))
	if len(r.seen) < 1<<21 {
		r.seen[h.Sum64()] = struct{}{}
	}
	if len(r.samples) < 5 && r.evals%7 == 1 {
		if len(sig) > 300 {
			sig = sig[:300] + "..."
		}
		r.samples = append(r.samples, sig)
	}
}

// Fail reports a violation, once for each key.
func (r *R) Fail(key, format string, a ...any) {
	if r.failed[key] {
		return
	}
	r.failed[key] = true
	txt := fmt.Sprintf(format, a...)
	if len(txt) > 8000 {
		txt = txt[:8000] + "..."
	}
	fmt.Printf("\nREFUTE %s\n", mustJSON(map[string]string{"Key": key, "Text": txt}))
}

// Sibling notes that a run broke other properties of the component than the one
// looked for. It is no failure of this one; the check shows it only where a proof
// of this one failed and nothing closer was found.
func (r *R) Sibling(props, key, format string, a ...any) {
	if r.siblings[key] || len(r.siblings) > 4 {
		return
	}
	r.siblings[key] = true
	txt := fmt.Sprintf(format, a...)
	if len(txt) > 8000 {
		txt = txt[:8000] + "..."
	}
	fmt.Printf("\nREFUTE-SIBLING %s\n", mustJSON(map[string]string{"Key": key, "Text": "(breaks " + props + ") " + txt}))
}

// Soft reports a violation that the rest of the run can be told apart from, so that it goes on.
func (r *R) Soft(prop, key, format string, a ...any) {
	if prop != r.prop || r.soft[key] {
		return
	}
	r.soft[key] = true
	fmt.Printf("\nREFUTE %s\n", mustJSON(map[string]string{"Key": key, "Text": fmt.Sprintf(format, a...)}))
}

// Guard runs f; a panic in it is a violation.
func (r *R) Guard(key string, what func() string, f func()) (ok bool) {
	if what != nil {
		r.mu.Lock()
		r.cur, r.at = what, time.Now()
		r.mu.Unlock()
		defer func() {
			r.mu.Lock()
			r.cur = nil
			r.mu.Unlock()
		}()
	}
	defer func() {
		if p := recover(); p != nil {
			w := ""
			if what != nil {
				w = what()
			}
			r.Fail(key, "panic: %v\n%s\n%s", p, w, stack())
			ok = false
		}
	}()
	f()
	return true
}

func stack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "runtime/") || strings.Contains(l, "core_test.go") {
			continue
		}
		out = append(out, l)
	}
	if len(out) > 24 {
		out = out[:24]
	}
	return strings.Join(out, "\n")
}
