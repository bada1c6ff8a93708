package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc fn NAME... | check ...")
		os.Exit(2)
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	repo := os.Getenv("GOVC_REPO")
	if repo == "" {
		repo = "/repo"
	}
	switch os.Args[1] {
	case "fn":
		devFn(root, repo, os.Args[2:])
	case "check":
		os.Exit(check(root, repo, os.Args[2:]))
	case "refute":
		os.Exit(refuteCmd(root, repo, os.Args[2:]))
	case "fields":
		fmt.Print(mustWorld(root, repo).dumpFields())
	case "list":
		w := mustWorld(root, repo)
		for _, k := range sortedKeys(w.funcs) {
			fmt.Println(k)
		}
	}
}

func mustWorld(root, repo string) *World {
	w, err := newWorld(root, repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return w
}

func newWorld(root, repo string) (*World, error) {
	t0 := time.Now()
	w, err := loadWorld(repo, filepath.Join(root, "harness"))
	if err != nil {
		w, err = loadWorld(repo, "")
	}
	if err != nil {
		return nil, err
	}
	t1 := time.Now()
	w.loadFields(filepath.Join(root, "contracts", "fields.txt"))
	w.specs, err = loadSpecs(filepath.Join(root, "contracts"))
	if err != nil {
		return nil, err
	}
	if err := w.runInit(); err != nil {
		return nil, err
	}
	debugf("load %v init %v", t1.Sub(t0), time.Since(t1))
	return w, nil
}

// devFn verifies functions by name (a trailing * matches a prefix) and prints what happened.
func devFn(root, repo string, names []string) {
	w := mustWorld(root, repo)
	var todo []string
	for _, n := range names {
		if strings.HasSuffix(n, "*") {
			for _, c := range w.specs.list {
				if strings.HasPrefix(c.name, n[:len(n)-1]) {
					todo = append(todo, c.name)
				}
			}
			continue
		}
		todo = append(todo, n)
	}
	for _, n := range todo {
		t0 := time.Now()
		r := w.verify(n, w.specs.byFn[n])
		if r.Err != "" {
			fmt.Printf("%s: ERROR %s\n", n, r.Err)
		}
		if r.x == nil {
			continue
		}
		gen := time.Since(t0)
		if only := os.Getenv("GOVC_ONLY"); only != "" {
			// while writing contracts: just these obligations
			var keep []*Obl
			for _, o := range r.x.obls {
				for _, s := range strings.Split(only, ",") {
					if strings.Contains(o.Kind+" "+o.Name, s) {
						keep = append(keep, o)
						break
					}
				}
			}
			r.x.obls = keep
		}
		settle(w, "", []*FnResult{r}, devStages(), os.Getenv("GOVC_V") != "")
		bad := 0
		for _, o := range r.x.obls {
			if o.Status != "proved" {
				bad++
				msg := ""
				if o.Status == "unknown" && strings.Contains(o.Output, "rror") {
					msg = o.Output
				}
				fmt.Printf("  %s %s [%s %s] %s %dms %s\n", o.Status, o.Pos, o.Kind, strings.Join(o.Tags, ","), o.Name, o.Millis, msg)
				if os.Getenv("GOVC_GOAL") != "" {
					fmt.Printf("     guard %s\n     goal %s\n", o.g, o.goal)
				}
			}
		}
		for _, p := range r.probes {
			solveAll([]job{{r.x, p}}, only(2, 0), 1, false)
			if p.Status == "proved" {
				fmt.Printf("  VACUOUS? %s %s\n", p.Name, p.Pos)
				if os.Getenv("GOVC_GOAL") != "" {
					fmt.Printf("     guard %s\n", p.g)
				}
			}
		}
		fmt.Printf("%s: %d obligations, %d open, %d facts, gen %v, total %v\n", n, len(r.x.obls), bad, len(r.x.facts), gen.Round(time.Millisecond), time.Since(t0).Round(time.Millisecond))
	}
}

func devStages() []stage {
	if os.Getenv("GOVC_FAST") != "" {
		return quickStages[:3]
	}
	return quickStages
}
