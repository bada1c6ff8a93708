package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopInfo is what contracts can say about a loop.
type loopInfo struct {
	kind   string // map, slice, string, other
	typ    types.Type
	iter   *Iter
	idxPhi *ssa.Phi
	idxOff int64 // completed iterations = phi + idxOff (when init is a constant)
	init   *Term
	seq    ssa.Value
	phis   []*ssa.Phi
	lenVal ssa.Value
	rangeI bool
	next   *ssa.Next
	fields []*ssa.FieldAddr // fields assigned in the loop, of objects from outside of it
	elems  []ssa.Value      // slices from outside the loop whose elements are assigned in it

	preState *State
	ghosts   map[string]*Term
}

func (x *Exec) loopInfo(fr *Frame, l *Loop, st *State) *loopInfo {
	li := &loopInfo{kind: "other"}
	for _, b := range fr.fn.Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					if d, ok := fa.X.(ssa.Instruction); !ok || !l.blocks[d.Block()] {
						li.fields = append(li.fields, fa)
					}
				}
				if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
					if d, ok := ia.X.(ssa.Instruction); !ok || !l.blocks[d.Block()] {
						li.elems = append(li.elems, ia.X)
					}
				}
			}
		}
	}
	for _, in := range l.head.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			li.phis = append(li.phis, in)
		case *ssa.Next:
			li.next = in
			if r, ok := in.Iter.(*ssa.Range); ok {
				li.typ = r.X.Type()
				if v := st.env[r]; v != nil {
					li.iter = v.it
				}
				li.kind = "map"
				if in.IsString {
					li.kind = "string"
				}
			}
		}
	}
	if li.next != nil {
		return li
	}
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return li
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return li
	}
	find := func(v ssa.Value) (*ssa.Phi, bool) {
		for _, p := range li.phis {
			if v == ssa.Value(p) {
				return p, false
			}
			if a, ok := v.(*ssa.BinOp); ok && a.Op == token.ADD && a.X == ssa.Value(p) && isOne(a.Y) {
				return p, true
			}
		}
		return nil, false
	}
	if bo.Op == token.LSS {
		p, plus := find(bo.X)
		if p != nil {
			// the latch must increment the phi by one
			inc := true
			for i, pr := range l.head.Preds {
				if l.blocks[pr] {
					a, ok := p.Edges[i].(*ssa.BinOp)
					if !(ok && a.Op == token.ADD && a.X == ssa.Value(p) && isOne(a.Y)) {
						inc = false
					}
				}
			}
			if inc {
				li.idxPhi = p
				li.rangeI = plus
				li.lenVal = bo.Y
			}
		}
	}
	if c, ok := bo.Y.(*ssa.Call); ok {
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			if _, ok := c.Call.Args[0].Type().Underlying().(*types.Slice); ok {
				li.kind, li.typ, li.seq = "slice", c.Call.Args[0].Type(), c.Call.Args[0]
			}
		}
	}
	return li
}

func isOne(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Value.ExactString() == "1"
}

func (x *Exec) rangeInstr(st *State, in *ssa.Range) {
	t := x.term(st, in.X)
	if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
		st.env[in] = &Val{it: &Iter{str: t}}
		return
	}
	x.iters++
	it := &Iter{m: t, mt: in.X.Type(), comp: fmt.Sprintf("V|%d", x.iters)}
	it.dom0 = x.mapDom(st, it.mt, t)
	st.heap[it.comp] = ConstArr(it.dom0.sort, False)
	ks, _ := arrParts(it.dom0.sort)
	it.enum, it.pos = Fresh("order", SArr(SInt, ks)), Fresh("place", SArr(ks, SInt))
	it.cnt = it.comp + "#"
	st.heap[it.cnt] = IntT(0)
	st.env[in] = &Val{it: it}
}

// nextStep is one step of a map iteration.
func (x *Exec) nextStep(st *State, in *ssa.Next, inserted bool) {
	it := x.val(st, in.Iter).it
	if it == nil || it.str != nil {
		k, v := Fresh("k", SInt), Fresh("r", SInt)
		ok := Fresh("ok", SBool)
		x.fact(st, And(Le(IntT(0), k), Le(IntT(0), v), Le(v, IntT(0x10ffff))))
		if it != nil {
			x.fact(st, Implies(ok, Lt(k, x.strlen(st, it.str))))
		}
		st.env[in] = &Val{tup: []*Val{T(ok), T(k), T(v)}}
		return
	}
	_, _, kt, vt := x.mapComps(it.mt)
	V := st.heap[it.comp]
	d := x.mapDom(st, it.mt, it.m)
	k := Fresh("key", sortOf(kt))
	ok := Fresh("more", SBool)
	n := *st
	n.g = And(st.g, ok)
	x.fact(&n, And(Select(d, k), Not(Select(V, k))))
	x.fact(&n, wf(kt, k, st.next))
	cnt := st.heap[it.cnt]
	x.fact(&n, And(Eq(Select(it.enum, cnt), k), Eq(Select(it.pos, k), cnt)))
	st.heap[it.cnt] = Ite(ok, Add(cnt, IntT(1)), cnt)
	if !inserted {
		m := *st
		m.g = And(st.g, Not(ok))
		if d == it.dom0 {
			// an iteration over a map that stays as it is visits all of it
			x.fact(&m, And(Eq(V, d), Eq(cnt, cardFun(d))))
			x.fact(&n, Lt(cnt, cardFun(d)))
		}
		q := BVar("k", sortOf(kt))
		// every key that was there from the beginning and still is was visited
		x.fact(&m, Forall([]*Term{q}, [][]*Term{{Select(V, q)}, {Select(d, q)}}, Implies(And(Select(it.dom0, q), Select(d, q)), Select(V, q))))
	}
	val := Select(x.mapVals(st, it.mt, it.m), k)
	x.wfVal(&n, vt, val)
	st.heap[it.comp] = Ite(ok, Store(V, k, True), V)
	st.env[in] = &Val{tup: []*Val{T(ok), T(k), T(val)}}
}

// constKeys gives the keys of a map whose domain is known to be a fixed set of literals.
func constKeys(dom *Term) ([]*Term, bool) {
	var ks []*Term
	seen := map[*Term]bool{}
	for dom.is("store") {
		k := dom.args[1]
		if k.kind != KInt && k.kind != KStr || seen[k] {
			return nil, false
		}
		seen[k] = true
		if dom.args[2] == True {
			ks = append([]*Term{k}, ks...)
		} else if dom.args[2] != False {
			return nil, false
		}
		dom = dom.args[0]
	}
	if dom.kind != KConstArr || dom.args[0] != False {
		return nil, false
	}
	return ks, true
}

type snapshot struct {
	nf     int
	axioms map[string]bool
	nnil   map[int][]*Term
	nobl   int
	unsup  int
	iters  int
	allocs int
}

func (x *Exec) save() *snapshot {
	s := &snapshot{nf: len(x.facts), nobl: len(x.obls), unsup: len(x.unsup), iters: x.iters, allocs: x.allocs}
	s.axioms = map[string]bool{}
	for k := range x.axioms {
		s.axioms[k] = true
	}
	s.nnil = map[int][]*Term{}
	for k, v := range x.nnil {
		s.nnil[k] = v
	}
	return s
}

func (x *Exec) restore(s *snapshot) {
	x.facts = x.facts[:s.nf:s.nf]
	x.axioms = s.axioms
	x.nnil = s.nnil
	x.obls = x.obls[:s.nobl:s.nobl]
	x.unsup = x.unsup[:s.unsup]
	x.iters = s.iters
	x.allocs = s.allocs
}

func (x *Exec) execLoop(fr *Frame, l *Loop, es []edge) []edge {
	pre := x.enter(fr, l.head, es)
	if pre == nil || pre.g == False {
		return nil
	}
	li := x.loopInfo(fr, l, pre)
	if li.kind == "map" && li.iter != nil {
		if ks, ok := constKeys(li.iter.dom0); ok && len(ks) <= 8 {
			return x.constMapLoop(fr, l, li, pre, ks)
		}
	}
	sp := x.findLoopSpec(li)
	if sp != nil && sp.unroll > 0 {
		ex, _ := x.unroll(fr, l, li, pre, sp.unroll, true)
		return ex
	}
	if sp == nil && li.kind != "map" {
		// short loops with a fixed number of iterations
		s := x.save()
		x.quiet++
		nret := len(fr.returns)
		_, rest := x.unroll(fr, l, li, pre.clone(), 24, false)
		fr.returns = fr.returns[:nret]
		x.quiet--
		x.restore(s)
		if rest == nil {
			ex, _ := x.unroll(fr, l, li, pre, 24, true)
			return ex
		}
	}
	return x.invLoop(fr, l, li, pre, sp)
}

// runBody executes the loop body once from a state at the head (phis bound).
func (x *Exec) runBody(fr *Frame, l *Loop, li *loopInfo, st *State) (latches, exits []edge) {
	return x.runRegionFrom(fr, l, st)
}

func (x *Exec) runRegionFrom(fr *Frame, l *Loop, st *State) (latches, exits []edge) {
	// execute the head from the given state, then the rest of the region
	var first []edge
	saveLoops := fr.loops
	first = x.runBlock(fr, l.head, st)
	var entry []edge
	for _, e := range first {
		if e.st.g == False {
			continue
		}
		switch {
		case e.to == l.head:
			latches = append(latches, e)
		case !l.blocks[e.to]:
			exits = append(exits, e)
		default:
			entry = append(entry, e)
		}
	}
	fr.loops = saveLoops
	if len(entry) > 0 {
		region := map[*ssa.BasicBlock]bool{}
		for b := range l.blocks {
			region[b] = true
		}
		delete(region, l.head)
		la, ex := x.runRegion(fr, region, l, entry)
		latches = append(latches, la...)
		exits = append(exits, ex...)
	}
	return
}

func (x *Exec) unroll(fr *Frame, l *Loop, li *loopInfo, st *State, n int, report bool) (exits []edge, rest *State) {
	for i := 0; i <= n; i++ {
		la, ex := x.runBody(fr, l, li, st)
		exits = append(exits, ex...)
		if len(la) == 0 {
			return exits, nil
		}
		st = x.enter(fr, l.head, la)
		if st == nil || st.g == False {
			return exits, nil
		}
	}
	if report {
		x.oblige(st, "unwind", fmt.Sprintf("loop finishes within %d iterations", n), nil, False)
	}
	return exits, st
}

// constMapLoop unrolls an iteration over a map with literal keys, in every order.
func (x *Exec) constMapLoop(fr *Frame, l *Loop, li *loopInfo, st *State, ks []*Term) (exits []edge) {
	vcomp := func(k *Term) string { return li.iter.comp + "|" + k.op }
	for _, k := range ks {
		st.heap[vcomp(k)] = False
	}
	kt := li.typ.Underlying().(*types.Map).Key()
	vals := x.mapVals(st, li.typ, li.iter.m)
	over := func(st *State, ok bool, k *Term) *State {
		n := st.clone()
		v := zeroOf(li.typ.Underlying().(*types.Map).Elem())
		kk := zeroOf(kt)
		if ok {
			kk, v = k, Select(vals, k)
		}
		n.env[li.next] = &Val{tup: []*Val{T(BoolT(ok)), T(kk), T(v)}}
		n.env[ssa.Value(li.next)] = n.env[li.next]
		return n
	}
	run := func(st *State) (la, ex []edge) {
		x.nextFixed(li.next, true)
		defer x.nextFixed(li.next, false)
		return x.runBody(fr, l, li, st)
	}
	next0, pre := st.next, st
	for range ks {
		c := Fresh("choice", sortOf(kt))
		var opts []*Term
		for _, k := range ks {
			opts = append(opts, And(Eq(c, k), Not(st.heap[vcomp(k)])))
		}
		x.fact(st, Or(opts...))
		var all []edge
		for _, k := range ks {
			n := over(st, true, k)
			n.g = And(n.g, Eq(c, k), Not(st.heap[vcomp(k)]))
			if n.g == False {
				continue
			}
			n.heap[vcomp(k)] = True
			la, ex := run(n)
			all = append(all, la...)
			exits = append(exits, ex...)
		}
		if len(all) == 0 {
			return exits
		}
		// all orders have been considered: the guards of the choices add up to the guard before them
		g := st.g
		complete := len(exits) == 0
		st = x.enter(fr, l.head, all)
		if st == nil {
			return exits
		}
		if complete {
			st.g = g
		}
		if len(ks) >= 3 && !x.w.noCuts[x.fnName] {
			x.cutErrors(l, pre, st, next0)
		}
	}
	la, ex := run(over(st, false, nil))
	exits = append(exits, ex...)
	if len(la) > 0 {
		x.oblige(la[0].st, "unwind", "iteration over a fixed map ends", nil, False)
	}
	return exits
}

// cutErrors states what is expected of the errors collected so far by an unrolled loop:
// none is nil, and they are kept in memory the loop allocated.
func (x *Exec) cutErrors(l *Loop, pre, st *State, next0 *Term) {
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		sl, ok := p.Type().Underlying().(*types.Slice)
		if !ok || !types.IsInterface(sl.Elem()) || st.env[p] == nil {
			continue
		}
		s := st.env[p].t
		if s == nil {
			continue
		}
		el := sl.Elem()
		comp := regContent(compElem(el), el)
		r := BVar("r", SInt)
		i := BVar("i", SInt)
		h0 := pre.heap[comp]
		if h0 == nil {
			h0 = x.h(pre, comp)
		}
		state := func() []*Term {
			e := seqElem(x, st, s, p.Type(), i)
			hr := Select(x.h(st, comp), r)
			return []*Term{
				Or(Eq(s, NilSlice()), Ge(SlArr(s), next0)),
				Forall([]*Term{i}, [][]*Term{{e}}, Implies(And(Le(IntT(0), i), Lt(i, SlLen(s))), Not(Eq(ATag(e), IntT(0))))),
				Forall([]*Term{r}, [][]*Term{{hr}}, Implies(Lt(r, next0), Eq(hr, Select(h0, r)))),
			}
		}
		for k, f := range state() {
			x.oblige(st, "cut", [...]string{"the errors collected are in new memory", "no error collected is nil", "collecting errors changes no other memory"}[k], nil, f)
		}
		// from here on nothing but this, and how many there are, is known of them
		ln := SlLen(s)
		s = MkSlice(Fresh("errs", SInt), Fresh("errs", SInt), ln, Fresh("errs", SInt))
		st.env[p] = T(s)
		st.heap[comp] = Fresh("errmem", x.compSort(comp))
		x.fact(st, wf(p.Type(), s, st.next))
		for _, f := range state() {
			x.fact(st, f)
		}
	}
}

func (x *Exec) nextFixed(n *ssa.Next, on bool) {
	if x.fixedNext == nil {
		x.fixedNext = map[*ssa.Next]int{}
	}
	if on {
		x.fixedNext[n]++
	} else {
		x.fixedNext[n]--
	}
}

// invLoop is a loop by its invariant.
func (x *Exec) invLoop(fr *Frame, l *Loop, li *loopInfo, pre *State, sp *LoopSpec) []edge {
	pos := x.pos
	name := "loop"
	if li.typ != nil {
		name = "loop over " + typeKey(li.typ)
	}
	li.init = nil
	if li.idxPhi != nil {
		li.init = x.val(pre, li.idxPhi).t
	}
	if sp != nil {
		x.ghostStep(pre, pre, li, sp, func(string) *Term { return Fresh("ghost", SArr(SInt, SInt)) })
		x.checkInvs(pre, pre, li, sp, "loop-init", name+": invariant holds on entry")
	}

	// which components does the body change?
	mod := map[string]bool{}
	starts, latchT := map[string]*Term{}, map[string][]*Term{}
	var before past
	serial := len(B.symbols)
	inserted := map[string]bool{}
	for round := 0; ; round++ {
		s := x.save()
		x.quiet++
		sv := x.inserts
		x.inserts = inserted
		nret := len(fr.returns)
		serial = len(B.symbols)
		st := x.havocLoop(pre, li, mod, nil, nil, nil, serial)
		starts = map[string]*Term{}
		for k, v := range st.heap {
			starts[k] = v
		}
		if li.next != nil && li.iter != nil {
			x.insertedIn(li, inserted)
		}
		var phi0 *Term
		if li.idxPhi != nil {
			phi0 = st.env[li.idxPhi].t
		}
		la, _ := x.runBody(fr, l, li, st)
		before = x.pastOf(li, pre, la, phi0, serial)
		latchT = map[string][]*Term{}
		changed := false
		for _, e := range la {
			for k, v := range e.st.heap {
				s0, ok := starts[k]
				if !ok {
					if strings.HasPrefix(k, "V|") {
						continue
					}
					// first touched in the body
					s0 = x.h(st, k)
					starts[k] = s0
				}
				if v != s0 {
					latchT[k] = append(latchT[k], v)
					if !mod[k] {
						mod[k] = true
						changed = true
					}
				}
			}
		}
		fr.returns = fr.returns[:nret]
		x.inserts = sv
		x.quiet--
		x.restore(s)
		if !changed && (round > 0 || !before.lost) || round > 6 {
			break
		}
	}
	if sv := x.inserts; sv != nil {
		for k := range inserted {
			sv[k] = true
		}
	}
	st := x.havocLoop(pre, li, mod, starts, latchT, sp, serial)
	li.preState = pre
	if li.next != nil && li.iter != nil {
		x.insertedIn(li, inserted)
	}
	heads := map[string]*Term{}
	if sp != nil {
		for _, g := range sp.ghosts {
			heads[g.name] = Fresh("ghost", SArr(SInt, SInt))
		}
		li.ghosts = heads
		for _, inv := range sp.invs {
			if !inv.matters(x.prop) {
				continue
			}
			x.fact(st, x.evalInv(st, pre, li, inv))
		}
	}
	x.assumePast(li, st, before)
	body := st.clone()
	nret := len(fr.returns)
	la, ex := x.runBody(fr, l, li, body)
	x.pos = pos
	if len(ex) == 1 && len(fr.returns) == nret {
		// only one way out: what holds there holds after the loop
		x.facts = append(x.facts, fact{pre.g, ex[0].st.g})
		ex[0].st.g = pre.g
	} else {
		x.invLoops++
	}
	if sp != nil && len(la) > 0 {
		for _, e := range la {
			n := x.enter(fr, l.head, []edge{e})
			if n == nil || n.g == False {
				continue
			}
			x.ghostStep(n, pre, li, sp, func(k string) *Term { return heads[k] })
			x.checkInvs(n, pre, li, sp, "loop-keep", name+": invariant preserved")
		}
	}
	return ex
}

// past is a condition under which an iteration is followed by another one, as a statement about
// the iteration's number (or key) v alone: every other name in it was given before the loop.
// Such a condition holds of all iterations before the current one.
type past struct {
	v    *Term
	cond *Term
	lost bool // some part of the condition mentions something else
}

func (x *Exec) pastOf(li *loopInfo, pre *State, la []edge, phi *Term, serial int) (p past) {
	var gs []*Term
	for _, e := range la {
		gs = append(gs, e.st.g)
	}
	if len(gs) == 0 {
		return
	}
	m := map[*Term]*Term{}
	if li.iter != nil && li.iter.str == nil {
		n := la[0].st.env[li.next]
		if n == nil || len(n.tup) < 2 || n.tup[1].t == nil || n.tup[1].t.kind != KSym {
			return
		}
		p.v = BVar("past", n.tup[1].t.sort)
		m[n.tup[1].t], m[n.tup[0].t] = p.v, True
	} else if phi != nil && phi.kind == KSym && li.init != nil {
		p.v = BVar("past", SInt)
		m[phi] = Sub(p.v, IntT(li.offset()))
		if li.rangeI {
			m[wrap1(Add(phi, IntT(1)), li.idxPhi.Type())] = p.v // it is an int: assumePast
		}
	} else {
		return
	}
	given := map[*Term]bool{}
	for _, c := range conj(pre.g) {
		given[c] = true
	}
	var parts []*Term
	for _, c := range conj(Or(gs...)) {
		if given[c] {
			continue
		}
		t := Subst(c, m)
		if t == True || !t.bound {
			continue
		}
		if maxSerial(t) < serial {
			parts = append(parts, t)
		} else {
			p.lost = true
		}
	}
	if len(parts) > 0 {
		p.cond = And(parts...)
	}
	return
}

// offset is what has to be added to the loop's counter to get the number of the current element.
func (li *loopInfo) offset() int64 {
	if li.rangeI {
		return 1
	}
	return 0
}

func (x *Exec) assumePast(li *loopInfo, st *State, p past) {
	if p.cond == nil {
		return
	}
	var when *Term
	if li.iter != nil {
		when = Select(st.heap[li.iter.comp], p.v)
		x.fact(st, Forall([]*Term{p.v}, [][]*Term{{when}}, Implies(when, p.cond)))
	} else {
		off := IntT(li.offset())
		when = And(Le(Add(li.init, off), p.v), Lt(p.v, Add(st.env[li.idxPhi].t, off)))
	}
	for _, r := range selectsOf(p.cond, p.v) {
		f := func(t *Term) *Term { return t }
		if i, k := linear(r.args[1]); i != nil && i.is("+") && len(i.args) == 2 {
			base := i.args[0]
			if base == p.v {
				base = i.args[1]
			}
			if !base.bound {
				// to be found by what is read
				base = Add(base, IntBig(k))
				f = substWith(map[*Term]*Term{r.args[1]: p.v, p.v: Sub(p.v, base)})
			}
		}
		x.fact(st, Forall([]*Term{p.v}, [][]*Term{{f(r)}}, f(Implies(when, p.cond))))
	}
}

// selectsOf gives the smallest reads in t that depend on variable v.
func selectsOf(t, v *Term) (out []*Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool // whether v occurs in t
	has := map[*Term]bool{}
	walk = func(t *Term) bool {
		if seen[t] {
			return has[t]
		}
		seen[t] = true
		if t == v {
			has[t] = true
			return true
		}
		if t.kind == KQuant {
			return false
		}
		in, below := false, len(out)
		for _, a := range t.args {
			if walk(a) {
				in = true
			}
		}
		if in && t.is("select") && len(out) == below {
			out = append(out, t)
		}
		has[t] = in
		return in
	}
	walk(t)
	return
}

func (x *Exec) insertedIn(li *loopInfo, inserted map[string]bool) {
	d, _, _, _ := x.mapComps(li.iter.mt)
	if x.insNext == nil {
		x.insNext = map[*ssa.Next]bool{}
	}
	x.insNext[li.next] = inserted[d]
}

// havocLoop gives an arbitrary state at the loop head.
func (x *Exec) havocLoop(pre *State, li *loopInfo, mod map[string]bool, starts map[string]*Term, latchT map[string][]*Term, sp *LoopSpec, serial int) *State {
	st := pre.clone()
	nb := x.newNext(pre.next)
	st.next = nb
	for _, k := range sortedStrings(mod) {
		old := x.h2(pre, k)
		if strings.HasPrefix(k, "V|") {
			v := Fresh("visited", old.sort)
			st.heap[k] = v
			if strings.HasSuffix(k, "#") {
				x.fact(st, Ge(v, IntT(0)))
				continue
			}
			if li.iter != nil && li.iter.comp == k && x.insNext != nil && !x.insNext[li.next] {
				ks, _ := arrParts(v.sort)
				q := BVar("k", ks)
				x.fact(st, Forall([]*Term{q}, [][]*Term{{Select(v, q)}}, Implies(Select(v, q), Select(li.iter.dom0, q))))
			}
			continue
		}
		fresh := func() *Term {
			f := Fresh("L|"+k, old.sort)
			x.compAxioms(k, f, nb)
			return f
		}
		if latchT == nil {
			st.heap[k] = fresh()
			continue
		}
		idx, okIdx, hasNew := []*Term{}, true, false
		seen := map[*Term]bool{}
		for _, t := range latchT[k] {
			if !writtenIdx(t, starts[k], serial, &idx, seen, &hasNew, map[*Term]bool{}) {
				okIdx = false
			}
		}
		if !strings.HasPrefix(string(old.sort), "(Array") {
			okIdx = false
		}
		if !okIdx {
			st.heap[k] = fresh()
			continue
		}
		f := fresh()
		if hasNew {
			r := BVar("r", SInt)
			cond := []*Term{Lt(r, pre.next)}
			for _, i := range idx {
				cond = append(cond, Not(Eq(r, i)))
			}
			x.fact(st, Forall([]*Term{r}, [][]*Term{{Select(f, r)}}, Implies(And(cond...), Eq(Select(f, r), Select(old, r)))))
			st.heap[k] = f
			continue
		}
		a := old
		for _, i := range idx {
			a = Store(a, i, Select(f, i))
		}
		st.heap[k] = a
	}
	if it := li.iter; it != nil && it.cnt != "" && mod[it.comp] {
		// what was visited is the beginning of the order
		V, n := st.heap[it.comp], st.heap[it.cnt]
		ks, _ := arrParts(V.sort)
		q, i := BVar("k", ks), BVar("i", SInt)
		at := Select(it.pos, q)
		x.fact(st, Forall([]*Term{q}, [][]*Term{{Select(V, q)}, {at}}, Iff(Select(V, q), And(Le(IntT(0), at), Lt(at, n), Eq(Select(it.enum, at), q)))))
		ki := Select(it.enum, i)
		x.fact(st, Forall([]*Term{i}, [][]*Term{{ki}}, Implies(And(Le(IntT(0), i), Lt(i, n)), And(Select(V, ki), Eq(Select(it.pos, ki), i)))))
	}
	for _, p := range li.phis {
		v := st.env[p]
		if v == nil || v.t == nil {
			if v != nil && v.a != nil {
				st.env[p] = &Val{bad: "address carried around a loop"}
			}
			continue
		}
		f := Fresh("phi_"+p.Comment, v.t.sort)
		st.env[p] = T(f)
		x.fact(st, wf(p.Type(), f, st.next))
	}
	if li.idxPhi != nil && li.init != nil {
		i := st.env[li.idxPhi].t
		x.fact(st, Ge(i, li.init))
		if li.rangeI && li.lenVal != nil {
			if lv := st.env[li.lenVal]; lv != nil && lv.t != nil {
				x.fact(st, Or(Eq(i, li.init), Lt(i, lv.t)))
			}
		}
	}
	return st
}

func (x *Exec) h2(st *State, k string) *Term {
	if strings.HasPrefix(k, "V|") {
		return st.heap[k]
	}
	return x.h(st, k)
}

// writtenIdx collects the indexes stored between start and t; false if some
// index depends on the iteration.
func writtenIdx(t, start *Term, serial int, idx *[]*Term, seen map[*Term]bool, hasNew *bool, done map[*Term]bool) bool {
	if t == start || done[t] {
		return true
	}
	done[t] = true
	if t.is("store") {
		i := t.args[1]
		if !seen[i] {
			if maxSerial(i) >= serial {
				b, _ := linear(i)
				if b != nil && b.kind == KSym && strings.HasPrefix(b.op, "next!") {
					*hasNew = true
				} else if ok := allocIte(i); ok {
					*hasNew = true
				} else {
					return false
				}
			} else {
				seen[i] = true
				*idx = append(*idx, i)
			}
		}
		return writtenIdx(t.args[0], start, serial, idx, seen, hasNew, done)
	}
	if t.is("ite") {
		return writtenIdx(t.args[1], start, serial, idx, seen, hasNew, done) &&
			writtenIdx(t.args[2], start, serial, idx, seen, hasNew, done)
	}
	return false
}

func allocIte(t *Term) bool {
	if t.is("ite") {
		return allocIte(t.args[1]) && allocIte(t.args[2])
	}
	return isAllocRef(t) && strings.HasPrefix(func() string { b, _ := linear(t); return b.op }(), "next!")
}

// ghostStep gives the loop's ghost arrays their values at the loop's head in state st.
func (x *Exec) ghostStep(st, pre *State, li *loopInfo, sp *LoopSpec, from func(string) *Term) {
	m := map[string]*Term{}
	for _, g := range sp.ghosts {
		if !applies(func() {
			env := x.loopEnv(st, pre, li)
			m[g.name] = Store(from(g.name), env.eval(g.idx).t, env.eval(g.val).t)
		}) {
			delete(m, g.name)
		}
	}
	li.ghosts = m
}

func (x *Exec) checkInvs(st, pre *State, li *loopInfo, sp *LoopSpec, kind, name string) {
	for _, inv := range sp.invs {
		if !inv.matters(x.prop) {
			continue
		}
		q := x.quiet
		var parts []namedTerm
		if !applies(func() { parts = x.loopEnv(st, pre, li).split(inv) }) {
			x.quiet = q
			continue
		}
		for _, nt := range parts {
			x.oblige(st, kind, name+": "+nt.name, inv.tags, nt.t)
		}
	}
}
