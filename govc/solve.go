package main

import (
	"bytes"
	"context"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var implTypes = map[string]*types.Interface{}

// query renders one obligation as SMT-LIB.
func (x *Exec) query(o *Obl) string { return render(x.roots(o)) }

func (x *Exec) roots(o *Obl) []*Term {
	var roots []*Term
	have := map[*Term]bool{}
	for _, c := range conj(o.g) {
		have[c] = true
	}
	seen := map[*Term]bool{}
	for _, f := range x.facts[:o.nfacts] {
		var rest []*Term
		dead := false
		for _, c := range conj(f.g) {
			if have[c] {
				continue
			}
			if have[Not(c)] {
				dead = true
				break
			}
			rest = append(rest, c)
		}
		if dead {
			continue
		}
		t := Implies(And(rest...), f.f)
		if t == True || seen[t] {
			continue
		}
		seen[t] = true
		roots = append(roots, t)
	}
	for _, c := range conj(o.g) {
		if !seen[c] {
			seen[c] = true
			roots = append(roots, c)
		}
	}
	return append(roots, Not(o.goal))
}

// assuming rewrites the roots of a query by what is assumed: literals of the path, of the
// goal's antecedents and of the case. Every step keeps the conjunction equivalent.
func assuming(roots []*Term, extra []*Term) []*Term {
	var lits []*Term
	isLit := map[*Term]bool{}
	add := func(t *Term) {
		for _, c := range conj(t) {
			if !isLit[c] && c != True {
				isLit[c] = true
				lits = append(lits, c)
			}
		}
	}
	for _, t := range extra {
		add(t)
	}
	work := append([]*Term{}, roots...)
	// the negated goal gives its antecedents
	var flat func(t *Term) []*Term
	flat = func(t *Term) []*Term {
		if t.is("not") {
			a := t.args[0]
			if a.is("=>") {
				return append(flat(a.args[0]), flat(Not(a.args[1]))...)
			}
			if a.is("or") {
				var out []*Term
				for _, d := range a.args {
					out = append(out, flat(Not(d))...)
				}
				return out
			}
		}
		if t.is("and") {
			var out []*Term
			for _, d := range t.args {
				out = append(out, flat(d)...)
			}
			return out
		}
		return []*Term{t}
	}
	// what a literal says is used everywhere, inside larger literals too
	m := map[*Term]*Term{}
	for round := 0; round < 4; round++ {
		var next []*Term
		n := len(m)
		for _, r := range work {
			for _, t := range flat(r) {
				if t.kind == KQuant || t.is("not") && t.args[0].kind == KQuant || t.bound || t.is("or") || t.is("=>") || t.is("ite") {
					next = append(next, t)
					continue
				}
				if t == False {
					return []*Term{False}
				}
				add(t)
			}
		}
		work = next
		for _, l := range lits {
			if l.is("not") {
				m[l.args[0]] = False
			} else {
				m[l] = True
				if v, c := eqLit(l); v != nil && v.kind != KInt && v.kind != KStr {
					m[v] = c
				}
			}
		}
		if round > 0 && len(m) == n {
			break
		}
		sub := substWith(m)
		for i, r := range work {
			work[i] = sub(r)
		}
		parts := func(t *Term) *Term {
			if len(t.args) == 0 || t.kind == KQuant {
				return t
			}
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = sub(a)
			}
			return rebuild(t, args)
		}
		var inside func(t *Term) *Term
		inside = func(t *Term) *Term {
			if t.is("not") {
				return Not(inside(t.args[0]))
			}
			if v, c := eqLit(t); v != nil {
				return Eq(parts(v), c)
			}
			return parts(t)
		}
		was := lits
		lits, isLit = nil, map[*Term]bool{}
		for _, l := range was {
			l = inside(l)
			if l == False {
				return []*Term{False}
			}
			work = append(work, l)
		}
	}
	for _, r := range work {
		add(r)
	}
	work = nil
	out := append([]*Term{}, lits...)
	seen := map[*Term]bool{}
	for _, r := range work {
		if r != True && !seen[r] {
			seen[r] = true
			out = append(out, r)
		}
	}
	return out
}

// focused is the query with the premises named for it only, and with what the heap has
// become replaced by names: whatever follows here follows from the whole query as well.
func (x *Exec) focused(o *Obl) []*Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *Term
		if !t.bound && t.sort != SBool && (t.is("ite") || t.is("store")) {
			r = Sym(fmt.Sprintf("abs!%d", t.id), t.sort)
		} else if t.kind == KQuant {
			var ps [][]*Term
			for _, p := range t.pats {
				var q []*Term
				for _, y := range p {
					q = append(q, rec(y))
				}
				ps = append(ps, q)
			}
			r = Quant(t.op == "forall", t.vars, ps, rec(t.args[0]))
		} else {
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = rec(a)
			}
			r = rebuild(t, args)
		}
		memo[t.id] = r
		return r
	}
	var out []*Term
	for _, t := range append(append(append([]*Term{}, o.by...), conj(o.g)...), Not(o.goal)) {
		if t != True {
			out = append(out, rec(t))
		}
	}
	return out
}

// relevant picks the premises that have to do with the goal (fewer premises: whatever
// follows from them follows from all).
func relevant(roots []*Term, tol int) []*Term {
	syms := make([]map[string]bool, len(roots))
	freq := map[string]int{}
	for i, r := range roots {
		syms[i] = map[string]bool{}
		symsOf(r, map[int]bool{}, func(t *Term) {
			if t.kind == KSym && t.op != "next0" {
				syms[i]["s:"+t.op] = true
			} else if _, ok := B.funs[t.op]; ok && t.kind == KApp {
				syms[i]["f:"+t.op] = true
			}
		})
		for k := range syms[i] {
			freq[k]++
		}
	}
	have := map[string]bool{}
	in := make([]bool, len(roots))
	for i, r := range roots {
		if r.is("not") && r.args[0].kind == KQuant {
			in[i] = true
			for k := range syms[i] {
				have[k] = true
			}
		}
	}
	if len(have) == 0 {
		return nil
	}
	for round := 0; round < 4; round++ {
		var add []int
		for i := range roots {
			if in[i] {
				continue
			}
			least := len(roots) + 1
			for k := range syms[i] {
				least = min(least, freq[k])
			}
			for k := range syms[i] {
				if have[k] && freq[k] <= tol*least/2 {
					add = append(add, i)
					break
				}
			}
		}
		for _, i := range add {
			in[i] = true
			for k := range syms[i] {
				have[k] = true
			}
		}
	}
	var out []*Term
	for i, r := range roots {
		if in[i] {
			out = append(out, r)
		}
	}
	return out
}

// splits gives conditions worth a case distinction: those that select between values.
func splits(roots []*Term, n int) []*Term {
	count := map[*Term]int{}
	seen := map[int]bool{}
	weight := 1
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.is("ite") && !t.args[0].bound {
			for _, c := range conj(t.args[0]) {
				if c.is("not") {
					c = c.args[0]
				}
				count[c] += weight
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	var out []*Term
	for _, r := range roots {
		if r.is("or") && len(r.args) <= 3 && !r.bound {
			for _, a := range r.args[1:] {
				if a.is("not") {
					a = a.args[0]
				}
				if a.kind != KQuant && len(out) < n {
					out = append(out, a)
				}
			}
		}
	}
	ors := out
	out = nil
	// what the goal depends on first
	weight = 1000
	for _, r := range roots {
		if r.is("not") && r.args[0].kind == KQuant {
			rec(r)
		}
	}
	weight = 1
	for _, r := range roots {
		rec(r)
	}
	var cs []*Term
	for c := range count {
		if c.kind != KQuant && !c.bound {
			cs = append(cs, c)
		}
	}
	sort.Slice(cs, func(i, j int) bool {
		if count[cs[i]] != count[cs[j]] {
			return count[cs[i]] > count[cs[j]]
		}
		return cs[i].id < cs[j].id
	})
	for _, c := range cs {
		dup := false
		for _, o := range out {
			dup = dup || o == c
		}
		if !dup && len(out) < n && (count[c] >= 1000 || len(ors) == 0) {
			out = append(out, c)
		}
	}
	for _, c := range ors {
		if len(out) < n {
			out = append(out, c)
		}
	}
	return out
}

func render(roots []*Term) string {
	var sb strings.Builder
	syms := map[*Term]bool{}
	funs := map[string]bool{}
	lits := map[*Term]bool{}
	sorts := map[Sort]bool{}
	var order []*Term
	seen := map[int]bool{}
	for _, r := range roots {
		symsOf(r, seen, func(t *Term) {
			sorts[t.sort] = true
			switch t.kind {
			case KSym:
				if !syms[t] {
					syms[t] = true
					order = append(order, t)
				}
			case KStr:
				lits[t] = true
			case KApp:
				if _, ok := B.funs[t.op]; ok {
					funs[t.op] = true
				}
			case KQuant:
				for _, v := range t.vars {
					sorts[v.sort] = true
				}
			}
		})
	}
	sb.WriteString("(set-option :print-success false)\n(set-logic ALL)\n(declare-sort Str 0)\n")
	sb.WriteString("(declare-datatypes ((Flt 0)) (((mkFlt (fcls Int) (fval Real)))))\n")
	sb.WriteString("(declare-datatypes ((Slice 0)) (((mkSlice (sl_arr Int) (sl_off Int) (sl_len Int) (sl_cap Int)))))\n")
	sb.WriteString("(declare-datatypes ((Any 0)) (((mkAny (atag Int) (ai Int) (astr Str) (af Flt) (asl Slice)))))\n")
	for _, si := range TY.stOrder {
		used := false
		for s := range sorts {
			if strings.Contains(string(s), string(si.sort)) {
				used = true
			}
		}
		if !used {
			// a struct inside a used struct
			for _, sj := range TY.stOrder {
				for _, fs := range sj.sorts {
					if strings.Contains(string(fs), string(si.sort)) {
						used = true
					}
				}
			}
		}
		if !used {
			continue
		}
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", quoteSym(string(si.sort)), quoteSym(si.con))
		for i := range si.fields {
			fmt.Fprintf(&sb, " (%s %s)", quoteSym(si.sels[i]), si.sorts[i])
		}
		sb.WriteString("))))\n")
	}
	p := newPrinter(&sb)
	var ls []*Term
	for _, l := range B.strOrd {
		if lits[l] {
			ls = append(ls, l)
		}
	}
	if !lits[StrT("")] {
		ls = append(ls, StrT(""))
	}
	for _, l := range ls {
		fmt.Fprintf(&sb, "(declare-const %s Str)\n", p.strName(l.op))
	}
	if len(ls) > 1 {
		sb.WriteString("(assert (distinct")
		for _, l := range ls {
			sb.WriteString(" " + p.strName(l.op))
		}
		sb.WriteString("))\n")
	}
	fnames := []string{}
	for f := range funs {
		fnames = append(fnames, f)
	}
	sort.Strings(fnames)
	// inverse functions used by axioms
	for _, f := range fnames {
		d := B.funs[f]
		fmt.Fprintf(&sb, "(declare-fun %s (", quoteSym(f))
		for i, a := range d.Args {
			if i > 0 {
				sb.WriteString(" ")
			}
			sb.WriteString(string(a))
		}
		fmt.Fprintf(&sb, ") %s)\n", d.Ret)
	}
	for _, s := range order {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", quoteSym(s.op), s.sort)
	}
	if funs["strlen"] {
		for _, l := range ls {
			fmt.Fprintf(&sb, "(assert (= (strlen %s) %d))\n", p.strName(l.op), len(l.op))
		}
		fmt.Fprintf(&sb, "(assert (forall ((s Str)) (! (<= 0 (strlen s)) :pattern ((strlen s)))))\n")
		fmt.Fprintf(&sb, "(assert (forall ((s Str)) (! (=> (= (strlen s) 0) (= s %s)) :pattern ((strlen s)))))\n", p.strName(""))
	}
	k := 0
	nsub := 0
	for _, f := range fnames {
		if strings.HasPrefix(f, "sub_") {
			nsub++
		}
	}
	if nsub > 0 {
		sb.WriteString("(declare-fun sub$kind (Int) Int)\n")
	}
	for _, f := range fnames {
		q := quoteSym(f)
		switch {
		case strings.HasPrefix(f, "sub_"):
			k++
			inv := quoteSym("inv$" + f)
			fmt.Fprintf(&sb, "(declare-fun %s (Int) Int)\n", inv)
			fmt.Fprintf(&sb, "(assert (forall ((r Int)) (! (and (= (%s (%s r)) r) (= (sub$kind (%s r)) %d) (< (%s r) (- 10000000))) :pattern ((%s r)))))\n", inv, q, q, k, q, q)
		case strings.HasPrefix(f, "box_"):
			d := B.funs[f]
			un := quoteSym("un" + f)
			if !funs["un"+f] {
				fmt.Fprintf(&sb, "(declare-fun %s (Int) %s)\n", un, d.Args[0])
			}
			fmt.Fprintf(&sb, "(assert (forall ((v %s)) (! (= (%s (%s v)) v) :pattern ((%s v)))))\n", d.Args[0], un, q, q)
		case f == "ref_tag":
			for i, t := range TY.tagType {
				if i == 0 || t == nil {
					continue
				}
				fmt.Fprintf(&sb, "(assert (= (ref_tag %d) %v))\n", i, isRefType(t))
			}
		case f == "comparable_tag":
			for i, t := range TY.tagType {
				if i == 0 || t == nil {
					continue
				}
				v := "false"
				if types.Comparable(t) {
					v = "true"
				}
				fmt.Fprintf(&sb, "(assert (= (comparable_tag %d) %s))\n", i, v)
			}
		case strings.HasPrefix(f, "impl_"):
			it := implTypes[f]
			if it == nil {
				continue
			}
			for i, t := range TY.tagType {
				if i == 0 || t == nil {
					continue
				}
				v := "false"
				if types.Implements(t, it) {
					v = "true"
				}
				fmt.Fprintf(&sb, "(assert (= (%s %d) %s))\n", q, i, v)
			}
		}
	}
	p.prepare(roots)
	for _, r := range roots {
		sb.WriteString("(assert ")
		p.write(&sb, r)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

var asConst = regexp.MustCompile(`\(\(as const (\(Array \S+ \S+\))\) ((?:d|lit)\$\d+)\)`)

// plainConst replaces constant arrays of something that is no literal (cvc5 does not take them) by axioms.
func plainConst(q string) string {
	if !asConst.MatchString(q) {
		return q
	}
	var sb strings.Builder
	names := map[string]string{}
	for _, line := range strings.SplitAfter(q, "\n") {
		line = asConst.ReplaceAllStringFunc(line, func(m string) string {
			p := asConst.FindStringSubmatch(m)
			key := p[1] + " " + p[2]
			n := names[key]
			if n == "" {
				n = fmt.Sprintf("carr$%d", len(names))
				names[key] = n
				ks := strings.Fields(strings.Trim(p[1], "()"))[1]
				fmt.Fprintf(&sb, "(declare-const %s %s)\n(assert (forall ((i %s)) (! (= (select %s i) %s) :pattern ((select %s i)))))\n", n, p[1], ks, n, p[2], n)
			}
			return n
		})
		sb.WriteString(line)
	}
	return sb.String()
}

type backend struct {
	name string
	argv func(sec int) []string
}

var backends = []backend{
	{"z3-5.3.2", func(s int) []string { return []string{"z3-new", "-smt2", "-in", fmt.Sprintf("-T:%d", s)} }},
	{"z3-5.3.2 (e-matching)", func(s int) []string {
		return []string{"z3-new", "-smt2", "-in", fmt.Sprintf("-T:%d", s), "smt.mbqi=false", "smt.auto_config=false"}
	}},
	{"z3-4.8.12", func(s int) []string {
		return []string{"z3", "-smt2", "-in", fmt.Sprintf("-T:%d", s), "smt.mbqi=false", "smt.auto_config=false"}
	}},
	{"cvc5-1.1.2", func(s int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000), "-"}
	}},
}

func runBackend(ctx context.Context, b backend, q string, sec int) (string, string) {
	ctx, cancel := context.WithTimeout(ctx, time.Duration(sec+3)*time.Second)
	defer cancel()
	if strings.HasPrefix(b.name, "cvc5") {
		q = plainConst(q)
	}
	a := b.argv(sec)
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	s := strings.TrimSpace(out.String())
	first := ""
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "(error") {
			return "error", s
		}
		if first == "" && (l == "sat" || l == "unsat" || l == "unknown") {
			first = l
		}
	}
	return first, s
}

type stage struct {
	sec   int
	bs    []attempt
	cases bool
}

// attempt is a back end and the form of the query it gets.
type attempt struct{ b, q int }

const (
	plainQ = iota
	rewrittenQ
	relevantQ
)

// Long attempts are not begun late in a run, so that it ends within its time.
var started = time.Now()
var lastStart = 400 * time.Second

// After this nothing is attempted any more: what is left counts as not proved.
var deadline = 600 * time.Second

// hurry is set once a failing input was found: what is left gets short attempts only.
var hurry atomic.Bool

// discharge decides one obligation: unsat proves it. The first attempt is at the query as
// generated; later ones are at the query rewritten under its own assumptions, and at cases of it.
func discharge(j job, mu *sync.Mutex, stages []stage) (status, by, out string, ms int64) {
	t0 := time.Now()
	if time.Since(started) > deadline {
		return "unknown", "", "no time left", 0
	}
	mu.Lock()
	roots := j.x.roots(j.o)
	q := render(roots)
	mu.Unlock()
	if d := os.Getenv("GOVC_DUMP"); d != "" && strings.Contains(j.o.Fn+" "+j.o.Name, d) {
		mu.Lock()
		dumpN++
		_ = os.WriteFile(fmt.Sprintf("/tmp/govc_dump_%d.smt2", dumpN), []byte("; "+j.o.Fn+" "+j.o.Name+"\n"+q), 0o644)
		mu.Unlock()
	}
	if len(j.o.by) > 0 {
		mu.Lock()
		fq := render(assuming(j.x.focused(j.o), nil))
		dumpN++
		n := dumpN
		mu.Unlock()
		if d := os.Getenv("GOVC_DUMP"); d != "" && strings.Contains(j.o.Fn+" "+j.o.Name, d) {
			_ = os.WriteFile(fmt.Sprintf("/tmp/govc_dump_by%d.smt2", n), []byte("; "+j.o.Fn+" "+j.o.Name+"\n"+fq), 0o644)
		}
		if by, ok := race(fq, 6, 0, 1); ok {
			return "proved", by, "", time.Since(t0).Milliseconds()
		}
	}
	qs := [3]string{q, "", ""} // plain, rewritten under its assumptions, and of that what the goal has to do with
	for k, st := range stages {
		if k > 0 && (j.o.known || time.Since(started) > deadline) || k > 2 && (hurry.Load() || time.Since(started) > lastStart) {
			break
		}
		if k == 1 {
			mu.Lock()
			roots = assuming(roots, nil)
			qs[1] = render(roots)
			qs[2] = qs[1]
			if rel := relevant(roots, 3); rel != nil {
				qs[2] = render(rel)
			}
			mu.Unlock()
			if d := os.Getenv("GOVC_DUMP"); d != "" && strings.Contains(j.o.Fn+" "+j.o.Name, d) {
				_ = os.WriteFile(fmt.Sprintf("/tmp/govc_dump_u%d.smt2", dumpN), []byte("; "+j.o.Fn+" "+j.o.Name+"\n"+qs[1]), 0o644)
			}
		}
		type ans struct {
			r, full, by string
			q           int
		}
		ctx, cancel := context.WithCancel(context.Background())
		ch := make(chan ans, len(st.bs))
		for _, a := range st.bs {
			b := backends[a.b]
			go func() {
				r, full := runBackend(ctx, b, qs[a.q], st.sec)
				ch <- ans{r, full, b.name, a.q}
			}()
		}
		for range st.bs {
			a := <-ch
			if a.r == "unsat" {
				cancel()
				return "proved", a.by, "", time.Since(t0).Milliseconds()
			}
			if a.r == "sat" && a.q != relevantQ {
				cancel()
				return "refuted", a.by, a.by + ": sat", time.Since(t0).Milliseconds()
			}
			if len(a.full) > 2000 {
				a.full = a.full[:2000]
			}
			out += a.by + ": " + a.full + "\n"
		}
		cancel()
		if st.cases && !hurry.Load() {
			if b, ok := byCases(roots, mu); ok {
				return "proved", b, "", time.Since(t0).Milliseconds()
			}
		}
	}
	return "unknown", "", out, time.Since(t0).Milliseconds()
}

// race asks several back ends and tells whether one of them refutes the query.
func race(q string, sec int, bs ...int) (string, bool) {
	qs := make([]string, len(bs))
	for i := range qs {
		qs[i] = q
	}
	return race2(qs, sec, bs...)
}

func race2(qs []string, sec int, bs ...int) (string, bool) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type ans struct{ r, by string }
	ch := make(chan ans, len(bs))
	for k, i := range bs {
		go func() {
			r, _ := runBackend(ctx, backends[i], qs[k], sec)
			ch <- ans{r, backends[i].name}
		}()
	}
	for range bs {
		if a := <-ch; a.r == "unsat" {
			return a.by, true
		}
	}
	return "", false
}

// byCases proves a query by a distinction of cases, each of which must be unsat.
func byCases(roots []*Term, mu *sync.Mutex) (string, bool) {
	limit := time.Now().Add(40 * time.Second)
	n := 0
	var rec func(roots []*Term, depth int) bool
	rec = func(roots []*Term, depth int) bool {
		mu.Lock()
		cs := splits(roots, 4)
		mu.Unlock()
		if len(cs) == 0 {
			return false
		}
		for _, neg := range []bool{false, true} {
			if time.Now().After(limit) {
				return false
			}
			mu.Lock()
			c := cs[0]
			if neg {
				c = Not(c)
			}
			rs := assuming(append([]*Term{c}, roots...), []*Term{c})
			q := render(rs)
			rel := relevant(rs, 3)
			qr := render(rel)
			mu.Unlock()
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "   %d of %d premises\n", len(rel), len(rs))
				_ = os.WriteFile("/tmp/govc_rel.smt2", []byte(qr), 0o644)
			}
			n++
			t0 := time.Now()
			_, ok := race2([]string{q, qr, qr}, 2, 0, 0, 1)
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "   case depth %d %v %dms %s\n", depth, ok, time.Since(t0).Milliseconds(), clip(c))
			}
			if ok {
				continue
			}
			if depth == 0 || !rec(rs, depth-1) {
				return false
			}
		}
		return true
	}
	if rec(roots, 4) {
		return fmt.Sprintf("z3-5.3.2 (%d cases)", n), true
	}
	return "", false
}

type job struct {
	x *Exec
	o *Obl
}

const z3New, eMatch, z3Old, cvc5 = 0, 1, 2, 3

var quickStages = []stage{
	{2, []attempt{{z3New, plainQ}}, false},
	{3, []attempt{{z3New, relevantQ}, {eMatch, relevantQ}}, false},
	{8, []attempt{{z3New, rewrittenQ}, {eMatch, rewrittenQ}, {z3Old, plainQ}, {cvc5, rewrittenQ}}, true},
	{25, []attempt{{z3New, plainQ}, {eMatch, plainQ}, {cvc5, relevantQ}}, false},
	{60, []attempt{{z3New, rewrittenQ}, {eMatch, plainQ}, {z3Old, rewrittenQ}, {cvc5, plainQ}, {z3New, relevantQ}}, false},
}

// thorough: longer limits.
var thoroughStages = []stage{
	{4, []attempt{{z3New, plainQ}}, false},
	{6, []attempt{{z3New, relevantQ}, {eMatch, relevantQ}}, false},
	{20, []attempt{{z3New, rewrittenQ}, {eMatch, rewrittenQ}, {z3Old, plainQ}, {cvc5, rewrittenQ}}, true},
	{90, []attempt{{z3New, plainQ}, {eMatch, plainQ}, {z3Old, rewrittenQ}, {cvc5, plainQ}, {z3New, relevantQ}}, false},
}

func only(sec int, bs ...int) []stage {
	st := stage{sec: sec}
	for _, b := range bs {
		st.bs = append(st.bs, attempt{b, plainQ})
	}
	return []stage{st}
}

func solveAll(jobs []job, stages []stage, workers int, progress bool) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan job)
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				s, by, out, ms := discharge(j, &mu, stages)
				j.o.Status, j.o.Backend, j.o.Output, j.o.Millis = s, by, out, ms
				if progress && (s != "proved" || ms > 3000) {
					fmt.Fprintf(os.Stderr, "  %-8s %6dms %s %s [%s] %s %s\n", s, ms, j.o.Fn, j.o.Pos, j.o.Kind, j.o.Name, by)
				}
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

var dumpN int

// settle discharges what the functions generated. A cut is an auxiliary assertion the
// generator adds by itself and assumes further on: where one is not proved the function
// is done again without cuts, so a cut never counts for anything but a step of a proof.
func settle(w *World, prop string, results []*FnResult, stages []stage, progress bool) (jobs []job) {
	collect := func(rs []*FnResult) (out []job) {
		for _, r := range rs {
			if r.x == nil {
				continue
			}
			for _, o := range r.x.obls {
				if o.matters(prop) && o.Status == "" {
					out = append(out, job{r.x, o})
				}
			}
		}
		return
	}
	jobs = collect(results)
	solveAll(jobs, stages, 8, progress)
	var again []*FnResult
	for _, r := range results {
		if r.x == nil {
			continue
		}
		for _, o := range r.x.obls {
			if o.Kind == "cut" && o.Status != "proved" {
				w.noCuts[r.Name] = true
				*r = *w.verifyFor(prop, r.Name, r.Contract)
				again = append(again, r)
				break
			}
		}
	}
	if len(again) == 0 {
		return
	}
	more := collect(again)
	solveAll(more, stages, 8, progress)
	redone := map[string]bool{}
	for _, r := range again {
		redone[r.Name] = true
	}
	for _, j := range jobs {
		if !redone[j.o.Fn] {
			more = append(more, j)
		}
	}
	return more
}
