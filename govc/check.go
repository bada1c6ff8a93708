package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type finding struct{ prop, key, what string }

func loadFindings(root string) []finding {
	data, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		f := finding{}
		rest := strings.TrimSpace(l[len("finding:"):])
		for _, k := range []string{"property=", "key="} {
			if !strings.HasPrefix(rest, k) {
				continue
			}
			w := rest[len(k):]
			if i := strings.IndexByte(w, ' '); i >= 0 {
				w, rest = w[:i], strings.TrimSpace(w[i:])
			} else {
				rest = ""
			}
			if k == "property=" {
				f.prop = w
			} else {
				f.key = w
			}
		}
		f.what = rest
		out = append(out, f)
	}
	return out
}

func findingFor(known []finding, prop, key string) *finding {
	for i := range known {
		if known[i].prop == prop && known[i].key == key {
			return &known[i]
		}
	}
	return nil
}

// key names an obligation independently of line numbers.
func (o *Obl) key() string {
	return strings.ReplaceAll(o.Fn+"/"+o.Kind+"/"+o.Name, " ", "-")
}

func (o *Obl) matters(prop string) bool { return (&Clause{tags: o.Tags}).matters(prop) }

type fnReport struct {
	Name        string `json:"function"`
	Contract    string `json:"contract"`
	Obligations int    `json:"obligations"`
	Discharged  int    `json:"discharged"`
	SolverMS    int64  `json:"solver_ms"`
	Why         string `json:"why"`
}

func check(root, repo string, args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("p", "", "property")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	noRefute := fs.Bool("no-refute", false, "proof only")
	verbose := fs.Bool("v", false, "print every obligation that is not proved at once")
	_ = fs.Parse(args)
	if *tier == "" {
		*tier = "quick"
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	t0 := time.Now()
	w, loadErr := newWorld(root, repo)
	known := loadFindings(root)
	refC := make(chan *refResult, 1)
	go func() {
		if *noRefute {
			refC <- &refResult{}
			return
		}
		res := refute(root, repo, *prop, *tier, seed)
		for _, rf := range res.Fails {
			if findingFor(known, *prop, rf.Key) == nil {
				hurry.Store(true)
			}
		}
		refC <- res
	}()

	stages := quickStages
	if *tier == "thorough" {
		stages = thoroughStages
		lastStart, deadline = 3*time.Hour, 4*time.Hour
	}
	if loadErr != nil {
		return notLoaded(root, repo, *prop, loadErr, <-refC, known)
	}
	// generate: the functions whose contracts state the property, then the contracts they rely on
	var reports []*fnReport
	var results []*FnResult
	var failed []*Obl
	done := map[string]bool{}
	todo := w.funcsFor(*prop)
	if len(todo) == 0 {
		fmt.Fprintf(os.Stderr, "no contract states %s\n", *prop)
		return 2
	}
	why := map[string]string{}
	for _, n := range todo {
		why[n] = "states the property"
	}
	var trusted = map[string]string{}
	for len(todo) > 0 {
		n := todo[0]
		todo = todo[1:]
		if done[n] {
			continue
		}
		done[n] = true
		c := w.specs.byFn[n]
		if c != nil && c.trusted {
			trusted["contract of "+n] = "assumed"
			continue
		}
		r := w.helpers[n]
		if r == nil {
			r = w.verifyFor(*prop, n, c)
		}
		results = append(results, r)
		if r.Err != "" {
			failed = append(failed, &Obl{Fn: n, Kind: "generation", Name: r.Err, Status: "failed", Output: r.Err})
		}
		if r.x == nil {
			continue
		}
		for _, k := range sortedKeys(r.x.trust) {
			trusted[k] = r.x.trust[k]
		}
		for _, k := range sortedKeys(r.x.used) {
			if !done[k] {
				if why[k] == "" {
					why[k] = "relied on by " + n
				}
				todo = append(todo, k)
			}
		}
	}
	for _, r := range results {
		if r.x == nil {
			continue
		}
		for _, o := range r.x.obls {
			o.Fn = r.Name
			o.known = findingFor(known, *prop, o.key()) != nil
		}
	}
	tsolve := time.Now()
	jobs := settle(w, *prop, results, stages, *verbose)
	solveWall := time.Since(tsolve)
	// vacuity: no return may be unreachable under the assumptions made, or the obligations there mean nothing
	var probes []job
	for _, r := range results {
		if r.x == nil {
			continue
		}
		for _, p := range r.probes {
			p.Fn = r.Name
			probes = append(probes, job{r.x, p})
		}
	}
	solveAll(probes, only(2, 0), 8, false)
	var vacuous []string
	reach := map[string]bool{}
	for _, j := range probes {
		if j.o.Status == "proved" {
			vacuous = append(vacuous, j.o.Fn+": "+j.o.Name)
			if j.o.Name == "entry" {
				failed = append(failed, &Obl{Fn: j.o.Fn, Kind: "vacuity", Name: "the precondition is contradictory", Status: "failed"})
			}
		} else if j.o.Name != "entry" {
			reach[j.o.Fn] = true
		}
	}
	for _, r := range results {
		if r.x != nil && r.Err == "" && !reach[r.Name] {
			failed = append(failed, &Obl{Fn: r.Name, Kind: "vacuity", Name: "no return is reachable", Status: "failed"})
		}
	}

	total, proved := 0, 0
	byBackend := map[string]int{}
	kinds := map[string]int{}
	var solverMS, slowest int64
	slowName := ""
	var named []string
	for _, r := range results {
		rep := &fnReport{Name: r.Name, Why: why[r.Name], Contract: "safety and lock discipline only"}
		if r.Contract != nil {
			rep.Contract = fmt.Sprintf("%d requires, %d ensures, %d loop specifications", len(r.Contract.requires), len(r.Contract.ensures), len(r.Contract.loops))
		}
		reports = append(reports, rep)
		if r.x == nil {
			continue
		}
		for _, o := range r.x.obls {
			if !o.matters(*prop) {
				continue
			}
			total++
			rep.Obligations++
			kinds[o.Kind]++
			rep.SolverMS += o.Millis
			solverMS += o.Millis
			if o.Millis > slowest {
				slowest, slowName = o.Millis, o.key()
			}
			if o.Status == "proved" {
				proved++
				rep.Discharged++
				byBackend[o.Backend]++
				if o.Kind == "post" && len(o.Tags) > 0 {
					named = append(named, o.Fn+"/"+o.Name)
				}
			} else {
				failed = append(failed, o)
			}
		}
	}
	second := map[string]int{}
	if *tier == "thorough" {
		second = secondOpinion(jobs)
	}
	ref := <-refC

	// what is new and what is known
	isKnown := func(key string) *finding { return findingFor(known, *prop, key) }
	shown := map[string]bool{}
	var newObl []*Obl
	nKnownObl := 0
	for _, o := range failed {
		if f := isKnown(o.key()); f != nil {
			nKnownObl++
			if !shown[f.what] {
				shown[f.what] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f.what)
			}
			continue
		}
		newObl = append(newObl, o)
	}
	var newRef []refFail
	for _, rf := range ref.Fails {
		if f := isKnown(rf.Key); f != nil {
			if !shown[f.what] {
				shown[f.what] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f.what)
			}
			continue
		}
		newRef = append(newRef, rf)
	}
	if len(newObl) > 0 && len(newRef) == 0 {
		// a proof of this property failed: runs on which the component misbehaves are its failing inputs
		newRef = ref.Siblings
	}
	violations := 0
	exit := 0
	if ref.Err != "" && len(newObl) == 0 {
		fmt.Fprintf(os.Stderr, "the bounded validation of %s could not run: %s\n", *prop, ref.Err)
		exit = 2
	}
	if len(newObl)+len(newRef) > 0 {
		violations = len(newObl) + len(newRef)
		exit = 1
		dir := filepath.Join(workDir(root), "replay")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, *prop+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s is violated by the code in %s\n\n", *prop, repo)
		if len(newRef) > 0 {
			sb.WriteString("FAILING INPUT against the real code\n")
			for _, rf := range newRef {
				fmt.Fprintf(&sb, "-- %s\n%s\n", rf.Key, rf.Text)
			}
			fmt.Fprintf(&sb, "replay: VERIF_SEED=%d VERIF_TIER=%s %s/bin/govc refute -p %s\n\n", seed, *tier, root, *prop)
		}
		if len(newObl) > 0 {
			sb.WriteString("FAILED OBLIGATIONS\n")
			for _, o := range newObl {
				fmt.Fprintf(&sb, "-- %s  at %s  status %s\n   guard %s\n   goal %s\n   solver output: %s\n", o.key(), o.Pos, o.Status, clip(o.g), clip(o.goal), o.Output)
			}
		}
		_ = os.WriteFile(path, []byte(sb.String()), 0o644)
		for i, o := range newObl {
			if i == 10 {
				fmt.Printf("... and %d more\n", len(newObl)-i)
				break
			}
			fmt.Printf("failed obligation: %s at %s (%s)\n", o.key(), o.Pos, o.Status)
		}
		for _, rf := range newRef {
			fmt.Printf("failing input: %s: %s\n", rf.Key, firstLine(rf.Text))
		}
		tail := ""
		if len(newRef) == 0 {
			tail = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", *prop, path, tail)
	}

	var tb []string
	tb = append(tb, trustedBase...)
	for _, k := range sortedKeys(trusted) {
		tb = append(tb, k+": "+trusted[k])
	}
	sort.Strings(named)
	cov := map[string]any{
		"obligations":                     total,
		"discharged":                      proved,
		"checker_cmd":                     fmt.Sprintf("%s/bin/govc check -p %s -tier %s", root, *prop, *tier),
		"trusted_base":                    tb,
		"functions_under_contract":        reports,
		"discharged_by":                   byBackend,
		"obligation_kinds":                kinds,
		"solver_ms":                       solverMS,
		"solver_wall_ms":                  solveWall.Milliseconds(),
		"slowest_obligation":              map[string]any{"name": slowName, "ms": slowest},
		"postconditions_stating_property": dedup(named),
		"unreachable_returns":             vacuous,
		"known_open_obligations":          nKnownObl,
		"bounded_validation":              ref.Stats,
	}
	if *tier == "thorough" {
		cov["confirmed_by_second_solver"] = second
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": "proof",
		"coverage": cov, "assumptions": assumptionsFor(root, *prop),
		"wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	evDir := filepath.Join(root, "evidence")
	if os.Getenv("GOVC_WORK") != "" {
		evDir = filepath.Join(workDir(root), "evidence")
	}
	_ = os.MkdirAll(evDir, 0o755)
	if err := os.WriteFile(filepath.Join(evDir, *prop+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d obligations in %d functions, %d discharged, solver %.1fs; bounded validation: %d evaluations; %.1fs\n",
		*prop, total, len(results), proved, float64(solverMS)/1000, ref.Evals, time.Since(t0).Seconds())
	return exit
}

// notLoaded reports a tree of which no obligation can be generated.
func notLoaded(root, repo, prop string, err error, ref *refResult, known []finding) int {
	fmt.Printf("failed obligation: loading %s: %v\n", repo, err)
	dir := filepath.Join(workDir(root), "replay")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, prop+".txt")
	text, tail := "FAILED OBLIGATIONS\n-- loading: "+err.Error()+"\n", " no-failing-input-found"
	for _, rf := range ref.Fails {
		if findingFor(known, prop, rf.Key) == nil {
			text += "FAILING INPUT\n-- " + rf.Key + "\n" + rf.Text + "\n"
			tail = ""
		}
	}
	_ = os.WriteFile(path, []byte(text), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, tail)
	return 1
}

// secondOpinion asks a different solver about every proved obligation.
func secondOpinion(jobs []job) map[string]int {
	out := map[string]int{}
	var again []job
	for _, j := range jobs {
		if j.o.Status != "proved" {
			continue
		}
		c := *j.o
		c.Status = ""
		again = append(again, job{j.x, &c})
	}
	solveAll(again, only(10, 2, 3), 4, false)
	for _, j := range again {
		switch j.o.Status {
		case "proved":
			out["confirmed by "+j.o.Backend]++
		case "refuted":
			out["CONTRADICTED by "+j.o.Output]++
		default:
			out["undecided within 10 s"]++
		}
	}
	return out
}

func clip(t *Term) string {
	if t == nil {
		return "-"
	}
	s := t.String()
	if len(s) > 3000 {
		s = s[:3000] + "…"
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func dedup(in []string) []string {
	var out []string
	for i, s := range in {
		if i == 0 || in[i-1] != s {
			out = append(out, s)
		}
	}
	return out
}

var trustedBase = []string{
	"go/packages, go/types and golang.org/x/tools/go/ssa: the SSA form verified is the program that runs",
	"govc (this repository): its translation of SSA instructions to logic and its rules for loops and calls",
	"z3 5.3.2, z3 4.8.12, cvc5 1.1.2: an answer unsat is right",
	"memory model: a heap of typed objects, no data race (C01 establishes the lock discipline of the shared types), no memory exhaustion, no unsafe code in this repository",
}

// assumptionsFor reads the assumptions recorded for a property (* for all).
func assumptionsFor(root, prop string) []string {
	data, _ := os.ReadFile(filepath.Join(root, "assumptions.txt"))
	out := []string{}
	for _, l := range strings.Split(string(data), "\n") {
		i := strings.IndexByte(l, ':')
		if i < 0 || strings.HasPrefix(l, "#") {
			continue
		}
		for _, p := range strings.Fields(l[:i]) {
			if p == "*" || p == prop || len(p) == 2 && p[1] == '*' && prop[:1] == p[:1] {
				out = append(out, strings.TrimSpace(l[i+1:]))
				break
			}
		}
	}
	return out
}
