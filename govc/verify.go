package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func newExec(w *World) *Exec {
	return &Exec{w: w, axioms: map[string]bool{}, nnil: map[int][]*Term{}, loopN: map[string]int{},
		trust: map[string]string{}, used: map[string]bool{}, guarded: map[string]bool{}, inlineOnly: map[string]bool{}}
}

func constOf(o *types.Const) *Term {
	switch o.Val().Kind() {
	case constant.Bool:
		return BoolT(constant.BoolVal(o.Val()))
	case constant.String:
		return StrT(constant.StringVal(o.Val()))
	case constant.Int:
		n, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
		return IntBig(n)
	}
	panic(stopErr{"constant " + o.Name()})
}

// runInit executes the package initialisers, dependencies first.
func (w *World) runInit() (err error) {
	x := newExec(w)
	x.initing = true
	x.quiet = 1
	st := &State{g: True, heap: map[string]*Term{}, next: IntT(-1000000), env: map[ssa.Value]*Val{}}
	done := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, i := range p.Imports() {
			if inModule(i) {
				visit(i)
			}
		}
		sp := w.prog.Package(p)
		if sp == nil {
			return
		}
		fn := sp.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			return
		}
		// the initialiser starts with a guard variable
		rs := x.runFunc(fn, st, nil, nil)
		var outs []*State
		for _, r := range rs {
			outs = append(outs, r.st)
		}
		if len(outs) == 0 {
			err = fmt.Errorf("initialisation of %s does not return", p.Path())
			return
		}
		// the branch on the guard: take the one that did the work
		best := outs[0]
		for _, o := range outs {
			a, _ := linear(o.next)
			_ = a
			if o.next.num != nil && best.next.num != nil && o.next.num.Cmp(best.next.num) > 0 || len(o.heap) > len(best.heap) {
				best = o
			}
		}
		best.g = True
		best.env = map[ssa.Value]*Val{}
		st = best
	}
	for _, k := range sortedKeys(w.pkgs) {
		visit(w.pkgs[k].Pkg)
	}
	w.init = st
	return
}

// msgCode is the numeric code a message type reports.
func (w *World) msgCode(mt *msgType) *Term {
	if mt.code != nil {
		return IntBig(mt.code)
	}
	fn := w.prog.LookupMethod(mt.ptr, w.tpkgs["messages"], "Type")
	x := newExec(w)
	x.quiet = 1
	st := &State{g: True, heap: map[string]*Term{}, next: IntT(1000), env: map[ssa.Value]*Val{}}
	rs := x.runFunc(fn, st, []*Val{T(IntT(999))}, nil)
	if len(rs) != 1 || rs[0].res[0].t == nil || !rs[0].res[0].t.isInt() {
		panic(stopErr{"the Type method of " + mt.name + " does not return a constant"})
	}
	mt.code = rs[0].res[0].t.num
	return IntBig(mt.code)
}

// FnResult is the outcome of generating the obligations of one function.
type FnResult struct {
	Name     string
	Contract *Contract
	x        *Exec
	rets     []int // fact counts at returns (vacuity probes)
	probes   []*Obl
	Err      string
}

func (w *World) verify(name string, c *Contract) (res *FnResult) { return w.verifyFor("", name, c) }

// verifyFor generates the obligations that matter to one property ("" for all).
func (w *World) verifyFor(prop, name string, c *Contract) (res *FnResult) {
	res = &FnResult{Name: name, Contract: c}
	if c != nil && c.lemma {
		w.verifyLemma(prop, c, res)
		return
	}
	fn := w.funcs[name]
	if fn == nil {
		res.Err = "no function " + name + " in the code"
		return
	}
	if len(fn.Blocks) == 0 {
		res.Err = "no body of " + name
		return
	}
	x := newExec(w)
	res.x = x
	x.fnName = name
	x.prop = prop
	x.top = c
	if c != nil {
		x.marshalOK = c.marshalOK
		for _, n := range c.inline {
			x.inlineOnly[n] = true
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stopErr); ok {
				res.Err = s.msg
				return
			}
			panic(r)
		}
	}()
	next0 := x.next0()
	x.facts = append(x.facts, fact{True, Ge(next0, IntT(1))})
	st := &State{g: True, heap: map[string]*Term{}, next: next0, env: map[ssa.Value]*Val{}}
	var args []*Val
	for i, p := range fn.Params {
		s := Sym(fmt.Sprintf("in%d_%s", i, sanitize(p.Name())+"_"+sanitize(name)), sortOf(p.Type()))
		s.old = true
		args = append(args, T(s))
		x.fact(st, wf(p.Type(), s, next0))
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				x.fact(st, And(Not(Eq(s, IntT(0))), Gt(s, IntT(0))))
				x.nnil[s.id] = append(x.nnil[s.id], True)
			}
		} else if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			x.fact(st, Ge(s, IntT(0)))
		}
	}
	// no lock is held on entry
	r := BVar("r", SInt)
	h0 := x.h(st, heldComp())
	x.facts = append(x.facts, fact{True, Forall([]*Term{r}, [][]*Term{{Select(h0, r)}}, Not(Select(h0, r)))})
	if m := w.guardFor(fn, args); m != nil {
		x.guard = m
		x.fact(st, Eq(Select(x.h(st, acqComp()), m.mutex), IntT(0)))
	}
	entry := st.clone()
	var env *specEnv
	if c != nil {
		env = x.contractEnv(c, fn, entry, args)
		env.old = entry
		x.topEnv = env
		x.named = map[string][]*Term{}
		x.stepped = map[*Term]bool{}
		for _, r := range c.requires {
			t := env.bool(r)
			x.fact(st, t)
			for _, c := range conj(t) {
				x.stepped[c] = true
			}
			x.named["requires"] = append(x.named["requires"], conj(t)...)
			x.named[r.name] = conj(t)
		}
		for _, a := range w.specs.axioms {
			x.axiom(env.bool(a))
		}
	}
	nentry := len(x.facts)
	rets := x.runFunc(fn, st, args, nil)
	if len(rets) == 0 {
		res.Err = "the function never returns"
	}
	for k, rt := range rets {
		rs := rt.st
		if rs.g == False {
			continue
		}
		x.pos = rt.pos
		if x.guard != nil {
			x.oblige(rs, "lock", "the lock is released on return", []string{"C01"}, Not(Select(x.h(rs, heldComp()), x.guard.mutex)))
		}
		if c != nil {
			e := *env
			e.vars = map[string]SV{}
			for k, v := range env.vars {
				e.vars[k] = v
			}
			e.st, e.old = rs, entry
			e.bindResults(c, fn.Signature, rt.res)
			for _, en := range c.ensures {
				if !en.matters(prop) {
					continue
				}
				for _, nt := range e.split(en) {
					kind := "post"
					if en.step {
						kind = "step"
					}
					n := len(x.obls)
					x.oblige(rs, kind, nt.name, en.tags, nt.t)
					if len(x.obls) > n && len(en.by) > 0 {
						for _, b := range en.by {
							if x.named[b] == nil {
								panic(stopErr{"no clause " + b + " before " + en.name})
							}
							x.obls[n].by = append(x.obls[n].by, x.named[b]...)
						}
					}
					if en.step {
						x.stepped[Implies(rs.g, nt.t)] = true
					}
				}
				if en.step {
					t := e.bool(en)
					x.fact(rs, t)
					x.named[en.name] = append(conj(t), True)
				}
			}
			x.checkFrame(c, &e, entry, rs)
		}
		res.probes = append(res.probes, &Obl{Name: fmt.Sprintf("return %d reachable", k), Pos: x.where(), Kind: "vacuity", nfacts: len(x.facts), g: rs.g, goal: False})
	}
	res.probes = append(res.probes, &Obl{Name: "entry", Kind: "vacuity", nfacts: nentry, g: True, goal: False})
	for _, o := range x.obls {
		o.Fn = name
	}
	return
}

// verifyLemma: a consequence of contracts and of the meaning of external functions, for all values of its parameters.
func (w *World) verifyLemma(prop string, c *Contract, res *FnResult) {
	x := newExec(w)
	res.x = x
	x.fnName, x.prop, x.top = c.name, prop, c
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stopErr); ok {
				res.Err = s.msg
				return
			}
			panic(r)
		}
	}()
	st := &State{g: True, heap: map[string]*Term{}, next: x.next0(), env: map[ssa.Value]*Val{}}
	x.facts = append(x.facts, fact{True, Ge(st.next, IntT(1))})
	env := &specEnv{x: x, vars: map[string]SV{}, st: st, old: st, pkg: w.tpkgs["wamp"]}
	for i, p := range c.params {
		t := w.resolveType(c.ptypes[i], env.pkg)
		s := Sym("lem_"+p, sortOf(t))
		x.fact(st, wf(t, s, st.next))
		env.vars[p] = SV{t: s, typ: t}
	}
	x.topEnv, x.named, x.stepped = env, map[string][]*Term{}, map[*Term]bool{}
	for _, r := range c.requires {
		x.fact(st, env.bool(r))
	}
	nentry := len(x.facts)
	for _, en := range c.ensures {
		if !en.matters(prop) {
			continue
		}
		for _, nt := range env.split(en) {
			x.oblige(st, "lemma", nt.name, en.tags, nt.t)
		}
	}
	res.probes = append(res.probes, &Obl{Name: "entry", Kind: "vacuity", nfacts: nentry, g: True, goal: False},
		&Obl{Name: "return 0 reachable", Kind: "vacuity", nfacts: len(x.facts), g: True, goal: False})
	for _, o := range x.obls {
		o.Fn = c.name
	}
}

// helperHolds tells whether a helper's contract is proved. Helpers structure a proof: where
// the code has no such function, or the contract does not hold of it, its callers see its body.
func (w *World) helperHolds(c *Contract, fn *ssa.Function) bool {
	if v, ok := w.helpers[c.name]; ok {
		return v != nil
	}
	w.helpers[c.name] = nil // while it is being verified (a recursive helper is inlined)
	if len(c.params) != len(fn.Params) {
		return false
	}
	r := w.verifyFor("", c.name, c)
	if r.Err != "" || r.x == nil {
		return false
	}
	settle(w, "", []*FnResult{r}, quickStages[:3], false)
	for _, o := range r.x.obls {
		if o.Status != "proved" {
			return false
		}
	}
	w.helpers[c.name] = r
	return true
}

// checkFrame: a function called by contract changes nothing but what the contract says.
func (x *Exec) checkFrame(c *Contract, e *specEnv, entry, rs *State) {
	if !c.modular {
		return
	}
	allowed := map[string][]*Term{}
	for _, m := range c.modifies {
		ee := *e
		ee.st = entry
		x.quiet++
		if comp, _, ref := ee.elems(m); comp != "" {
			x.quiet--
			allowed[comp] = append(allowed[comp], ref)
			continue
		}
		a := ee.addr(m)
		x.quiet--
		if a == nil {
			x.unsupported(rs, "modifies clause")
			continue
		}
		allowed[a.comp] = append(allowed[a.comp], a.ref)
	}
	for _, k := range sortedKeys(rs.heap) {
		v := rs.heap[k]
		if strings.HasPrefix(k, "V|") || v == entry.heap[k] || k == acqComp() {
			continue
		}
		h0 := x.h(entry, k)
		if v == h0 {
			continue
		}
		r := BVar("r", SInt)
		cond := []*Term{Lt(r, x.next0())}
		for _, a := range allowed[k] {
			cond = append(cond, Not(Eq(r, a)))
		}
		goal := Forall([]*Term{r}, nil, Implies(And(cond...), Eq(Select(v, r), Select(h0, r))))
		if frameOK(v, h0, allowed[k]) {
			goal = True
		}
		x.oblige(rs, "frame", "nothing else is modified: "+k, nil, goal)
	}
}

func newRef(i *Term) bool {
	if i.is("ite") {
		return newRef(i.args[1]) && newRef(i.args[2])
	}
	b, k := linear(i)
	return b != nil && b.kind == KSym && (b.op == "next0" || strings.HasPrefix(b.op, "next!")) && k.Sign() >= 0
}

// frameOK sees syntactically that only new or allowed cells differ.
func frameOK(v, h0 *Term, allowed []*Term) bool {
	for {
		switch {
		case v == h0:
			return true
		case v.is("store"):
			i := v.args[1]
			ok := false
			for _, a := range allowed {
				if a == i {
					ok = true
				}
			}
			if newRef(i) {
				ok = true
			}
			if !ok {
				return false
			}
			v = v.args[0]
		case v.is("ite"):
			return frameOK(v.args[1], h0, allowed) && frameOK(v.args[2], h0, allowed)
		default:
			return false
		}
	}
}

// guardFor describes the lock discipline of a method of the router's shared types.
func (w *World) guardFor(fn *ssa.Function, args []*Val) *guardSpec {
	recv := fn.Signature.Recv()
	if recv == nil || len(args) == 0 || args[0].t == nil {
		return nil
	}
	p, ok := recv.Type().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || !inModule(n.Obj().Pkg()) || shortPkg(n.Obj().Pkg().Path()) != "wamp" {
		return nil
	}
	mi := mutexField(n)
	if mi < 0 || !fn.Object().Exported() {
		return nil
	}
	g := &guardSpec{mutex: subRef(n, mi, args[0].t), owner: map[string]bool{}, self: map[string]string{}}
	g.collect(n, true)
	return g
}

func mutexField(t types.Type) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if ft := s.Field(i).Type(); isSyncType(ft) && strings.HasSuffix(syncName(ft), "Mutex") {
			return i
		}
	}
	return -1
}

// types whose objects never change once a router has them
var immutableTypes = map[string]bool{"SessionDetails": true}

func (g *guardSpec) collect(t types.Type, root bool) {
	switch u := types.Unalias(t).(type) {
	case *types.Named:
		if u.Obj().Pkg() == nil || !inModule(u.Obj().Pkg()) || immutableTypes[u.Obj().Name()] {
			return
		}
		s, ok := u.Underlying().(*types.Struct)
		if !ok {
			return
		}
		k := typeKey(u)
		if g.owner[k] || g.self[k] != "" {
			return
		}
		if mi := mutexField(u); mi >= 0 && !root {
			g.self[k] = s.Field(mi).Name()
			return
		}
		g.owner[k] = true
		for i := 0; i < s.NumFields(); i++ {
			g.collect(s.Field(i).Type(), false)
		}
	case *types.Pointer:
		g.collect(u.Elem(), false)
	case *types.Map:
		g.owner["map "+typeKey(u.Key())+"|"+typeKey(u.Elem())] = true
		g.collect(u.Elem(), false)
	case *types.Slice:
		g.owner["slice "+typeKey(u.Elem())] = true
		g.collect(u.Elem(), false)
	}
}

// ---- which functions decide which property ----

// absentPrivate: a contract of an unexported function that the code no longer has. What the function did is part of
// its former callers now, and is proved there.
func (w *World) absentPrivate(c *Contract) bool {
	if c.lemma || w.funcs[c.name] != nil {
		return false
	}
	n := c.name[strings.LastIndexByte(c.name, '.')+1:]
	return n != "" && n[0] >= 'a' && n[0] <= 'z'
}

func (w *World) funcsFor(prop string) []string {
	set := map[string]bool{}
	for _, c := range w.specs.list {
		if c.props[prop] && !w.absentPrivate(c) {
			set[c.name] = true
		}
	}
	if prop == "C01" {
		for name, fn := range w.funcs {
			recv := fn.Signature.Recv()
			if recv == nil || fn.Object() == nil || !fn.Object().Exported() {
				continue
			}
			if p, ok := recv.Type().(*types.Pointer); ok {
				if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && shortPkg(n.Obj().Pkg().Path()) == "wamp" && mutexField(n) >= 0 {
					set[name] = true
				}
			}
		}
	}
	// contracts relied on have to hold as well
	out := []string{}
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
