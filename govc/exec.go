package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: a term, an address of a non-struct location, a
// tuple, or an iterator.
type Val struct {
	t   *Term
	a   *Addr
	tup []*Val
	it  *Iter
	bad string
}

// Addr is the address of a location that holds a non-struct value.
type Addr struct {
	comp string
	ref  *Term
	idx  *Term // element index within an array component
	typ  types.Type
	// a field inside a struct value held in a component
	path []fieldStep
}

type fieldStep struct {
	st types.Type
	i  int
}

// Iter is a range iterator over a map or a string.
type Iter struct {
	m    *Term
	mt   types.Type
	comp string // pseudo component holding the visited set
	dom0 *Term
	str  *Term

	enum, pos *Term  // the order of this iteration: i-th key, and its inverse
	cnt       string // pseudo component counting the keys visited
}

func T(t *Term) *Val { return &Val{t: t} }

type deferred struct {
	cond *Term
	call *ssa.Defer
	args []*Val
	fn   *Val
}

// State is one symbolic state.
type State struct {
	g      *Term
	heap   map[string]*Term
	next   *Term
	epoch  int
	env    map[ssa.Value]*Val
	defers []*deferred
}

func (s *State) clone() *State {
	n := &State{g: s.g, next: s.next, epoch: s.epoch, heap: make(map[string]*Term, len(s.heap)), env: make(map[ssa.Value]*Val, len(s.env))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	n.defers = append(n.defers, s.defers...)
	return n
}

type fact struct{ g, f *Term }

// Obl is one proof obligation.
type Obl struct {
	Name   string
	Fn     string
	Kind   string
	Tags   []string
	Pos    string
	nfacts int
	g      *Term
	goal   *Term
	known  bool    // listed as a finding: not worth long attempts
	by     []*Term // premises it should follow from
	// result
	Status  string // proved, failed, unknown, trivial
	Backend string
	Millis  int64
	Output  string
}

type Exec struct {
	prop    string // the property being decided
	w       *World
	facts   []fact
	named   map[string][]*Term // what clauses say that are assumed
	stepped map[*Term]bool     // proved by a step
	obls    []*Obl
	quiet   int
	stack   []*ssa.Function
	top     *Contract
	topEnv  *specEnv
	axioms  map[string]bool
	nnil    map[int][]*Term // refs known non-nil, with the guards
	pos     token.Pos
	iters   int
	serial0 int
	loopN   map[string]int
	inserts map[string]bool // map components inserted into (recorded during dry runs)
	unsup   []string
	allocs  int
	steps   int
	guard   *guardSpec
	depth   int
	initing bool

	fixedNext map[*ssa.Next]int
	insNext   map[*ssa.Next]bool

	inlineOnly map[string]bool
	trust      map[string]string
	used       map[string]bool
	guarded    map[string]bool
	invLoops   int
	marshalOK  bool
	tail       *tailCall
	encoded    map[*Term]*Term
	decoded    map[string]bool // what was decoded already
	fnName     string
}

type stopErr struct{ msg string }

func (x *Exec) fact(st *State, f *Term) {
	if f == True || f.bound || st.g.bound || st.g == False {
		return
	}
	if f.is("and") {
		for _, a := range f.args {
			x.fact(st, a)
		}
		return
	}
	x.facts = append(x.facts, fact{st.g, f})
}

func (x *Exec) axiom(f *Term) {
	if f == True || f.bound {
		return
	}
	k := fmt.Sprint(f.id)
	if x.axioms[k] {
		return
	}
	x.axioms[k] = true
	x.facts = append(x.facts, fact{True, f})
}

func (x *Exec) where() string {
	if x.pos == token.NoPos {
		return ""
	}
	p := x.w.prog.Fset.Position(x.pos)
	f := strings.TrimPrefix(p.Filename, x.w.repo+"/")
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (x *Exec) oblige(st *State, kind, name string, tags []string, goal *Term) {
	if x.quiet > 0 || st.g == False {
		return
	}
	if goal == True {
		if kind == "post" || kind == "pre" || strings.HasPrefix(kind, "loop") {
			x.obls = append(x.obls, &Obl{Name: name, Kind: kind, Tags: tags, Pos: x.where(), g: st.g, goal: goal, Status: "proved", Backend: "simplifier"})
		}
		return
	}
	if impliedBy(st.g, goal) || x.stepped[goal] || x.stepped[Implies(st.g, goal)] {
		x.obls = append(x.obls, &Obl{Name: name, Kind: kind, Tags: tags, Pos: x.where(), g: st.g, goal: goal, Status: "proved", Backend: "simplifier"})
		return
	}
	x.obls = append(x.obls, &Obl{Name: name, Kind: kind, Tags: tags, Pos: x.where(), nfacts: len(x.facts), g: st.g, goal: goal})
}

// impliedBy tells syntactically that guard g contains goal.
func impliedBy(g, goal *Term) bool {
	have := map[*Term]bool{}
	for _, c := range conj(g) {
		have[c] = true
	}
	for _, c := range conj(goal) {
		if !have[c] {
			return false
		}
	}
	return true
}

// check is an obligation that is assumed afterwards.
func (x *Exec) check(st *State, kind, name string, goal *Term) {
	if x.quiet > 0 {
		return
	}
	x.oblige(st, kind, name, nil, goal)
	x.fact(st, goal)
}

func (x *Exec) unsupported(st *State, msg string) {
	if x.initing {
		return
	}
	if x.quiet == 0 {
		x.unsup = append(x.unsup, x.where()+": "+msg)
	}
	x.oblige(st, "unsupported", msg, nil, False)
}

func (x *Exec) nonnil(st *State, r *Term, what string) {
	if x.quiet > 0 {
		return
	}
	if isAllocRef(r) || isSubRef(r) || r.isInt() && r.num.Sign() != 0 {
		return
	}
	for _, g := range x.nnil[r.id] {
		if impliedBy(st.g, g) {
			return
		}
	}
	x.check(st, "nil", what, Not(Eq(r, IntT(0))))
	x.nnil[r.id] = append(x.nnil[r.id], st.g)
}

// ---- heap ----

func (x *Exec) compSort(comp string) Sort {
	s, ok := TY.compS[comp]
	if !ok {
		panic(stopErr{"unknown component " + comp})
	}
	return s
}

func (x *Exec) h(st *State, comp string) *Term {
	if t, ok := st.heap[comp]; ok {
		return t
	}
	if x.initing {
		t := x.emptyComp(comp)
		st.heap[comp] = t
		return t
	}
	name := fmt.Sprintf("H%d|%s", st.epoch, comp)
	t := Sym(name, x.compSort(comp))
	t.old = st.epoch == 0
	if st.epoch == 0 {
		x.compAxioms(comp, t, x.next0())
	}
	st.heap[comp] = t
	return t
}

func (x *Exec) next0() *Term { return Sym("next0", SInt) }

func (x *Exec) emptyComp(comp string) *Term {
	s := x.compSort(comp)
	if strings.HasPrefix(comp, "MD|") {
		_, vs := arrParts(s)
		return ConstArr(s, ConstArr(vs, False))
	}
	return Sym("I|"+comp, s)
}

// compAxioms states what any content of a component satisfies.
func (x *Exec) compAxioms(comp string, t, next *Term) {
	k := fmt.Sprintf("ca:%d", t.id)
	if x.axioms[k] {
		return
	}
	x.axioms[k] = true
	typ := compContent[comp]
	add := func(f *Term) { x.facts = append(x.facts, fact{True, f}) }
	r := BVar("r", SInt)
	switch {
	case strings.HasPrefix(comp, "F|"), strings.HasPrefix(comp, "P|"):
		if typ == nil {
			return
		}
		v := Select(t, r)
		add(Forall([]*Term{r}, [][]*Term{{v}}, wf(typ, v, next)))
	case strings.HasPrefix(comp, "M|"):
		if typ == nil {
			return
		}
		i := BVar("i", SInt)
		v := Select(Select(t, r), i)
		add(Forall([]*Term{r, i}, [][]*Term{{v}}, wf(typ, v, next)))
	case strings.HasPrefix(comp, "MV|"):
		if typ == nil {
			return
		}
		_, inner := arrParts(t.sort)
		ks, _ := arrParts(inner)
		k := BVar("k", ks)
		v := Select(Select(t, r), k)
		add(Forall([]*Term{r, k}, [][]*Term{{v}}, wf(typ, v, next)))
	case strings.HasPrefix(comp, "MD|"):
		_, inner := arrParts(t.sort)
		add(Eq(Select(t, IntT(0)), ConstArr(inner, False)))
	}
}

var compContent = map[string]types.Type{}

func regContent(comp string, t types.Type) string {
	compContent[comp] = t
	return comp
}

// wf states that v is a possible value of type typ in a heap whose references are below next.
func wf(typ types.Type, v, next *Term) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(typ); ok {
			return And(Le(IntBig(lo), v), Le(v, IntBig(hi)))
		}
		_ = u
	case *types.Pointer, *types.Map, *types.Chan:
		return Lt(v, next)
	case *types.Slice:
		return wfSlice(v, next)
	case *types.Interface:
		return wfAny(v, next)
	case *types.Struct:
		if u.NumFields() == 0 {
			return True
		}
		var cs []*Term
		for i, f := range structInfo(typ).fields {
			cs = append(cs, wf(f.Type(), structField(typ, v, i), next))
		}
		return And(cs...)
	}
	return True
}

var maxLen = IntT(1 << 48)

func wfSlice(v, next *Term) *Term {
	arr, off, ln, cp := SlArr(v), SlOff(v), SlLen(v), SlCap(v)
	return And(Lt(arr, next), Le(IntT(0), off), Le(IntT(0), ln), Le(ln, cp), Le(cp, maxLen), Le(off, maxLen),
		Implies(Eq(arr, IntT(0)), Eq(v, NilSlice())))
}

func wfAny(v, next *Term) *Term {
	return And(Le(IntT(0), ATag(v)), Implies(Eq(ATag(v), IntT(0)), Eq(v, NilAny())),
		Lt(SlArr(ASl(v)), next), Implies(refTag(ATag(v)), Lt(AI(v), next)))
}

// refTag says that the payload of an interface value with this tag is a reference.
func refTag(tag *Term) *Term {
	return mapLeaves(tag, func(l *Term) *Term {
		if l.isInt() {
			n := int(l.num.Int64())
			return BoolT(n > 0 && n < len(TY.tagType) && TY.tagType[n] != nil && isRefType(TY.tagType[n]))
		}
		return Fun("ref_tag", SBool, l)
	})
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	}
	return false
}

// wfVal adds the typing facts of a value that came out of the heap or in as a parameter.
func (x *Exec) wfVal(st *State, typ types.Type, v *Term) {
	if v == nil || v.bound {
		return
	}
	switch v.kind {
	case KInt, KStr, KBool:
		return
	}
	if v.is("ite") || strings.HasPrefix(v.op, "mk") {
		return
	}
	x.fact(st, wf(typ, v, st.next))
}

func (x *Exec) compAddr(a *Addr) string { return a.comp }

func (x *Exec) load(st *State, a *Addr) *Term {
	if a.ref != nil && a.ref.isInt() && a.ref.num.Sign() < 0 && x.w.init != nil && !x.initing {
		if v := x.initValue(a); v != nil {
			return v
		}
	}
	if x.initing && a.ref != nil && a.ref.isInt() && a.ref.num.Sign() < 0 {
		if k := -a.ref.num.Int64(); int(k) <= len(x.w.glist) && x.w.glist[k-1].Name() == "init$guard" {
			return False // every package is initialised once
		}
	}
	x.access(st, a.comp, a.ref, false)
	v := Select(x.h(st, a.comp), a.ref)
	if a.idx != nil {
		v = Select(v, a.idx)
	}
	for _, p := range a.path {
		v = structField(p.st, v, p.i)
	}
	x.wfVal(st, a.typ, v)
	return v
}

// initValue reads an immutable package variable.
func (x *Exec) initValue(a *Addr) *Term {
	k := -a.ref.num.Int64()
	if k < 1 || int(k) > len(x.w.glist) || x.w.mutable[x.w.glist[k-1]] {
		return nil
	}
	h, ok := x.w.init.heap[a.comp]
	if !ok {
		return nil
	}
	v := Select(h, a.ref)
	if a.idx != nil {
		v = Select(v, a.idx)
	}
	if v.is("select") {
		return nil
	}
	for _, p := range a.path {
		v = structField(p.st, v, p.i)
	}
	return v
}

func (x *Exec) store(st *State, a *Addr, v *Term) {
	x.access(st, a.comp, a.ref, true)
	h := x.h(st, a.comp)
	if len(a.path) > 0 {
		cur := Select(h, a.ref)
		if a.idx != nil {
			cur = Select(cur, a.idx)
		}
		v = updatePath(cur, a.path, v)
	}
	if a.idx != nil {
		v = Store(Select(h, a.ref), a.idx, v)
	}
	st.heap[a.comp] = Store(h, a.ref, v)
}

func updatePath(cur *Term, path []fieldStep, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	si := structInfo(p.st)
	var args []*Term
	for i := range si.fields {
		f := structField(p.st, cur, i)
		if i == p.i {
			f = updatePath(f, path[1:], v)
		}
		args = append(args, f)
	}
	return Con(si.con, si.sort, args...)
}

// loadStruct reads a whole struct at a reference.
func (x *Exec) loadAt(st *State, typ types.Type, ref *Term) *Term {
	if isEmptyStruct(typ) {
		return IntT(0)
	}
	if isStruct(typ) {
		si := structInfo(typ)
		var args []*Term
		for i, f := range si.fields {
			args = append(args, x.loadField(st, typ, i, ref, f.Type()))
		}
		return Con(si.con, si.sort, args...)
	}
	if isArray(typ) {
		el := typ.Underlying().(*types.Array).Elem()
		return x.load(st, &Addr{comp: regContent(compElem(el), el), ref: ref, typ: typ})
	}
	return x.load(st, &Addr{comp: regContent(compCell(typ), typ), ref: ref, typ: typ})
}

func (x *Exec) loadField(st *State, typ types.Type, i int, ref *Term, ft types.Type) *Term {
	a := x.fieldAddr(typ, i, ref)
	if a.a == nil {
		return x.loadAt(st, ft, a.t)
	}
	return x.load(st, a.a)
}

func (x *Exec) storeAt(st *State, typ types.Type, ref, v *Term) {
	if isEmptyStruct(typ) {
		return
	}
	if isSyncType(typ) {
		x.storeSync(st, typ, ref, v)
		return
	}
	if isStruct(typ) {
		si := structInfo(typ)
		for i, f := range si.fields {
			fv := structField(typ, v, i)
			a := x.fieldAddr(typ, i, ref)
			if a.a == nil {
				x.storeAt(st, f.Type(), a.t, fv)
			} else {
				x.store(st, a.a, fv)
			}
		}
		return
	}
	if isArray(typ) {
		el := typ.Underlying().(*types.Array).Elem()
		x.store(st, &Addr{comp: regContent(compElem(el), el), ref: ref, typ: typ}, v)
		return
	}
	x.store(st, &Addr{comp: regContent(compCell(typ), typ), ref: ref, typ: typ}, v)
}

// fieldAddr gives a reference for struct and array fields, an address otherwise.
func (x *Exec) fieldAddr(st types.Type, i int, ref *Term) *Val {
	u := st.Underlying().(*types.Struct)
	ft := u.Field(i).Type()
	if isStruct(ft) || isArray(ft) || isEmptyStruct(ft) {
		return T(subRef(st, i, ref))
	}
	comp, _ := compField(st, i)
	return &Val{a: &Addr{comp: regContent(comp, ft), ref: ref, typ: ft}}
}

func (x *Exec) alloc(st *State) *Term {
	r := st.next
	st.next = Add(st.next, IntT(1))
	x.allocs++
	return r
}

// zeroInit initialises a new object.
func (x *Exec) zeroInit(st *State, typ types.Type, ref *Term) {
	if isSyncType(typ) {
		x.zeroSync(st, typ, ref)
		return
	}
	if isEmptyStruct(typ) {
		return
	}
	if isStruct(typ) {
		si := structInfo(typ)
		for i, f := range si.fields {
			a := x.fieldAddr(typ, i, ref)
			if a.a == nil {
				x.zeroInit(st, f.Type(), a.t)
			} else {
				st.heap[a.a.comp] = Store(x.h(st, a.a.comp), a.a.ref, zeroOf(f.Type()))
			}
		}
		return
	}
	if isArray(typ) {
		el := typ.Underlying().(*types.Array).Elem()
		c := regContent(compElem(el), el)
		st.heap[c] = Store(x.h(st, c), ref, zeroOf(typ))
		return
	}
	c := regContent(compCell(typ), typ)
	st.heap[c] = Store(x.h(st, c), ref, zeroOf(typ))
}

// ---- merging ----

func guardDiff(g1, g2 *Term) *Term {
	in2 := map[*Term]bool{}
	for _, c := range conj(g2) {
		in2[c] = true
	}
	var cs []*Term
	for _, c := range conj(g1) {
		if !in2[c] {
			cs = append(cs, c)
		}
	}
	// a single complementary conjunct is enough
	in2n := map[*Term]bool{}
	for _, c := range conj(g2) {
		in2n[Not(c)] = true
	}
	for _, c := range cs {
		if in2n[c] {
			return c
		}
	}
	return And(cs...)
}

func (x *Exec) mergeVal(c *Term, a, b *Val) *Val {
	if a == b || a == nil || b == nil {
		if a == nil {
			return b
		}
		return a
	}
	switch {
	case a.t != nil && b.t != nil:
		if a.t == b.t {
			return a
		}
		return T(Ite(c, a.t, b.t))
	case a.a != nil && b.a != nil:
		if a.a.comp == b.a.comp && (a.a.idx == nil) == (b.a.idx == nil) && len(a.a.path) == 0 && len(b.a.path) == 0 {
			n := &Addr{comp: a.a.comp, ref: Ite(c, a.a.ref, b.a.ref), typ: a.a.typ}
			if a.a.idx != nil {
				n.idx = Ite(c, a.a.idx, b.a.idx)
			}
			return &Val{a: n}
		}
		return &Val{bad: "merge of unrelated addresses"}
	case a.tup != nil && b.tup != nil && len(a.tup) == len(b.tup):
		n := &Val{}
		for i := range a.tup {
			n.tup = append(n.tup, x.mergeVal(c, a.tup[i], b.tup[i]))
		}
		return n
	case a.it != nil && b.it != nil:
		return a
	}
	// an address that is representable as a reference
	ta, oka := x.addrTerm(a)
	tb, okb := x.addrTerm(b)
	if oka && okb {
		return T(Ite(c, ta, tb))
	}
	return &Val{bad: "merge of different kinds of values"}
}

// addrTerm gives the reference of a cell address.
func (x *Exec) addrTerm(v *Val) (*Term, bool) {
	if v.t != nil {
		return v.t, true
	}
	if v.a != nil && strings.HasPrefix(v.a.comp, "P|") && v.a.idx == nil && len(v.a.path) == 0 {
		return v.a.ref, true
	}
	return nil, false
}

func (x *Exec) merge2(a, b *State) *State {
	if a.g == False {
		return b
	}
	if b.g == False {
		return a
	}
	c := guardDiff(a.g, b.g)
	n := &State{g: Or(a.g, b.g), heap: map[string]*Term{}, env: map[ssa.Value]*Val{}}
	if a.epoch != b.epoch {
		// bring both to explicit components
		for k := range TY.compS {
			x.h(a, k)
			x.h(b, k)
		}
	}
	n.epoch = a.epoch
	if b.epoch > n.epoch {
		n.epoch = b.epoch
	}
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	for k := range keys {
		if strings.HasPrefix(k, "V|") {
			va, oka := a.heap[k]
			vb, okb := b.heap[k]
			switch {
			case !oka:
				n.heap[k] = vb
			case !okb:
				n.heap[k] = va
			default:
				n.heap[k] = Ite(c, va, vb)
			}
			continue
		}
		va, vb := x.h(a, k), x.h(b, k)
		n.heap[k] = mergeArr(c, va, vb)
	}
	ba, ka := linear(a.next)
	bb, kb := linear(b.next)
	if ba == bb {
		if ka.Cmp(kb) >= 0 {
			n.next = a.next
		} else {
			n.next = b.next
		}
	} else {
		n.next = x.newNext(a.next, b.next)
	}
	for k, v := range a.env {
		n.env[k] = x.mergeVal(c, v, b.env[k])
	}
	for k, v := range b.env {
		if _, ok := a.env[k]; !ok {
			n.env[k] = v
		}
	}
	// deferred calls
	i := 0
	for i < len(a.defers) && i < len(b.defers) && a.defers[i] == b.defers[i] {
		i++
	}
	n.defers = append(n.defers, a.defers[:i]...)
	for _, d := range a.defers[i:] {
		n.defers = append(n.defers, &deferred{And(d.cond, c), d.call, d.args, d.fn})
	}
	for _, d := range b.defers[i:] {
		n.defers = append(n.defers, &deferred{And(d.cond, Not(c)), d.call, d.args, d.fn})
	}
	return n
}

// mergeArr joins two arrays that differ in few cells: a store over the common base.
func mergeArr(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if !strings.HasPrefix(string(a.sort), "(Array") {
		return Ite(c, a, b)
	}
	// find a common base by walking the store chains
	chain := func(t *Term) []*Term {
		out := []*Term{t}
		for t.is("store") {
			t = t.args[0]
			out = append(out, t)
		}
		return out
	}
	ca, cb := chain(a), chain(b)
	pos := map[*Term]int{}
	for i, t := range ca {
		pos[t] = i
	}
	for j, t := range cb {
		i, ok := pos[t]
		if !ok {
			continue
		}
		// cells written in either
		var idx []*Term
		seen := map[*Term]bool{}
		for k := i - 1; k >= 0; k-- {
			if ix := ca[k].args[1]; !seen[ix] {
				seen[ix] = true
				idx = append(idx, ix)
			}
		}
		for k := j - 1; k >= 0; k-- {
			if ix := cb[k].args[1]; !seen[ix] {
				seen[ix] = true
				idx = append(idx, ix)
			}
		}
		for p := range idx {
			for q := p + 1; q < len(idx); q++ {
				if !distinctTerms(idx[p], idx[q]) {
					return Ite(c, a, b)
				}
			}
		}
		r := t
		for _, ix := range idx {
			va, vb := Select(a, ix), Select(b, ix)
			if va.sort != SInt && strings.HasPrefix(string(va.sort), "(Array") {
				r = Store(r, ix, mergeArr(c, va, vb))
			} else {
				r = Store(r, ix, Ite(c, va, vb))
			}
		}
		return r
	}
	return Ite(c, a, b)
}

func (x *Exec) mergeAll(sts []*State) *State {
	var live []*State
	for _, s := range sts {
		if s != nil && s.g != False {
			live = append(live, s)
		}
	}
	for len(live) > 1 {
		bi, bj := -1, -1
		best := 1 << 30
		for i := 0; i < len(live); i++ {
			for j := i + 1; j < len(live); j++ {
				o := Or(live[i].g, live[j].g)
				sz := 0
				for _, c := range conj(o) {
					if c.is("or") {
						sz += 10
					}
					sz++
				}
				if !o.is("or") {
					sz -= 5
				} else {
					sz += 50
				}
				if sz < best || sz == best {
					best, bi, bj = sz, i, j
				}
			}
		}
		m := x.merge2(live[bi], live[bj])
		live[bi] = m
		live = append(live[:bj], live[bj+1:]...)
	}
	if len(live) == 0 {
		return nil
	}
	return live[0]
}

// ---- frames ----

type Frame struct {
	fn      *ssa.Function
	loops   map[*ssa.BasicBlock]*Loop
	rpo     []*ssa.BasicBlock
	returns []retState
}

type retState struct {
	st  *State
	res []*Val
	pos token.Pos
}

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func analyse(fn *ssa.Function) (map[*ssa.BasicBlock]*Loop, []*ssa.BasicBlock) {
	loops := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					c := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[c] {
						continue
					}
					l.blocks[c] = true
					stack = append(stack, c.Preds...)
				}
			}
		}
	}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return loops, post
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

// runFunc executes a function body; the result is the list of return states.
func (x *Exec) runFunc(fn *ssa.Function, st *State, args, bind []*Val) []retState {
	if len(x.stack) > 60 {
		x.unsupported(st, "call depth")
		return nil
	}
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	if n > 2 {
		x.unsupported(st, "recursion in "+fn.String())
		return nil
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	fr := &Frame{fn: fn}
	fr.loops, fr.rpo = analyse(fn)
	in := st.clone()
	in.env = map[ssa.Value]*Val{}
	in.defers = nil
	for i, p := range fn.Params {
		in.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		in.env[p] = bind[i]
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	x.runRegion(fr, all, nil, []edge{{nil, fn.Blocks[0], in}})
	return fr.returns
}

// runRegion executes the blocks of a region from its entry edges. With a loop,
// the region is the loop's body and edges to its head come back as latches.
func (x *Exec) runRegion(fr *Frame, region map[*ssa.BasicBlock]bool, loop *Loop, entry []edge) (latches, exits []edge) {
	pend := map[*ssa.BasicBlock][]edge{}
	for _, e := range entry {
		pend[e.to] = append(pend[e.to], e)
	}
	route := func(es []edge) {
		for _, e := range es {
			if e.st == nil || e.st.g == False {
				continue
			}
			switch {
			case loop != nil && e.to == loop.head:
				latches = append(latches, e)
			case !region[e.to]:
				exits = append(exits, e)
			default:
				pend[e.to] = append(pend[e.to], e)
			}
		}
	}
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.rpo {
		if !region[b] || done[b] {
			continue
		}
		es := pend[b]
		if len(es) == 0 {
			continue
		}
		if l := fr.loops[b]; l != nil && (loop == nil || l.head != loop.head) {
			for k := range l.blocks {
				done[k] = true
			}
			route(x.execLoop(fr, l, es))
			continue
		}
		st := x.enter(fr, b, es)
		if st == nil || st.g == False {
			continue
		}
		route(x.runBlock(fr, b, st))
	}
	return
}

// enter merges the incoming edges of a block, binding its phis.
func (x *Exec) enter(fr *Frame, b *ssa.BasicBlock, es []edge) *State {
	var sts []*State
	for _, e := range es {
		st := e.st
		if e.from != nil {
			pi := -1
			for i, p := range b.Preds {
				if p == e.from {
					pi = i
				}
			}
			var vals []*Val
			var phis []*ssa.Phi
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				phis = append(phis, phi)
				vals = append(vals, x.val(st, phi.Edges[pi]))
			}
			if len(phis) > 0 {
				st = st.clone()
				for i, p := range phis {
					st.env[p] = vals[i]
				}
			}
		}
		sts = append(sts, st)
	}
	return x.mergeAll(sts)
}

func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State) []edge {
	return x.runInstrs(fr, b, st.clone(), 0)
}

// tailCall collects the ends of a function that is called at the end of another one: they are
// ends of the caller too, each on its own, as if the callee's body stood in the caller.
type tailCall struct {
	fn    *ssa.Function
	depth int
	taken bool
	ends  []retState
}

// tailOf tells which function, if any, block b of the function under contract calls last at instruction i.
func (x *Exec) tailOf(fr *Frame, b *ssa.BasicBlock, i int) *ssa.Function {
	call, ok := b.Instrs[i].(*ssa.Call)
	if !ok || x.top == nil || len(x.stack) != 1 {
		return nil
	}
	if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !ok {
		return nil
	}
	for _, in := range b.Instrs[i+1 : len(b.Instrs)-1] {
		switch in.(type) {
		case *ssa.Extract, *ssa.RunDefers, *ssa.DebugRef, *ssa.UnOp, *ssa.Store, *ssa.ChangeInterface, *ssa.MakeInterface:
		default:
			return nil
		}
	}
	return call.Call.StaticCallee()
}

func (x *Exec) runInstrs(fr *Frame, b *ssa.BasicBlock, st *State, from int) []edge {
	for k := from; k < len(b.Instrs); k++ {
		in := b.Instrs[k]
		if st.g == False {
			return nil
		}
		if f := x.tailOf(fr, b, k); f != nil {
			x.pos = in.Pos()
			tc := &tailCall{fn: f, depth: len(x.stack)}
			x.tail = tc
			env, defers := st.env, st.defers
			ns := x.instr(fr, st, in)
			x.tail = nil
			if !tc.taken {
				if st = ns; st == nil {
					return nil
				}
				continue
			}
			for _, e := range tc.ends {
				if e.st.g == False {
					continue
				}
				e.st.env = make(map[ssa.Value]*Val, len(env))
				for k, v := range env {
					e.st.env[k] = v
				}
				e.st.defers = append([]*deferred{}, defers...)
				res := &Val{tup: e.res}
				if len(e.res) == 1 {
					res = e.res[0]
				}
				e.st.env[in.(*ssa.Call)] = res
				x.runInstrs(fr, b, e.st, k+1)
			}
			return nil
		}
		if p := in.Pos(); p != token.NoPos {
			x.pos = p
		}
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := x.val(st, in.Cond).t
			s1, s2 := st, st.clone()
			s1.g = And(s1.g, c)
			s2.g = And(s2.g, Not(c))
			return []edge{{b, b.Succs[0], s1}, {b, b.Succs[1], s2}}
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var res []*Val
			for _, r := range in.Results {
				res = append(res, x.val(st, r))
			}
			fr.returns = append(fr.returns, retState{st, res, in.Pos()})
			return nil
		case *ssa.Panic:
			x.oblige(st, "panic", "panic is unreachable", nil, False)
			return nil
		default:
			st = x.instr(fr, st, in)
			if st == nil {
				return nil
			}
		}
	}
	return nil
}

// val evaluates an SSA operand.
func (x *Exec) val(st *State, v ssa.Value) *Val {
	switch v := v.(type) {
	case *ssa.Const:
		return T(constTerm(v))
	case *ssa.Global:
		r := IntT(x.w.globalRef(v))
		el := v.Type().(*types.Pointer).Elem()
		if isStruct(el) || isArray(el) || isEmptyStruct(el) {
			return T(r)
		}
		return &Val{a: &Addr{comp: regContent(compCell(el), el), ref: r, typ: el}}
	case *ssa.Function:
		return T(x.w.funcTerm(v, nil))
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	return &Val{bad: "no value for " + v.Name()}
}

// term evaluates an operand to a term.
func (x *Exec) term(st *State, v ssa.Value) *Term {
	val := x.val(st, v)
	if val.t != nil {
		return val.t
	}
	if t, ok := x.addrTerm(val); ok {
		return t
	}
	why := val.bad
	if why == "" {
		why = "address of a field used as a value"
	}
	x.unsupported(st, why)
	return Fresh("unsup", sortOf(v.Type()))
}

func constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	switch sortOf(t) {
	case SBool:
		return BoolT(constant.BoolVal(c.Value))
	case SStr:
		return StrT(constant.StringVal(c.Value))
	case SInt:
		v := constant.ToInt(c.Value)
		n, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			return Fresh("const", SInt)
		}
		return IntBig(n)
	case SFlt:
		r, ok := new(big.Rat).SetString(constant.ToFloat(c.Value).ExactString())
		if !ok {
			return Fresh("constf", SFlt)
		}
		return MkFlt(IntT(0), ratT(r))
	}
	return zeroOf(t)
}

func ratT(r *big.Rat) *Term {
	n, d := r.Num(), r.Denom()
	s := n.String() + ".0"
	if n.Sign() < 0 {
		s = "(- " + new(big.Int).Neg(n).String() + ".0)"
	}
	if d.Cmp(big.NewInt(1)) != 0 {
		s = "(/ " + s + " " + d.String() + ".0)"
	}
	return realT(s)
}

// instr executes one instruction (no control flow).
func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) *State {
	x.steps++
	if x.steps > 2000000 {
		panic(stopErr{"too many steps"})
	}
	set := func(v ssa.Value, t *Term) { st.env[v] = T(t) }
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		el := in.Type().(*types.Pointer).Elem()
		r := x.alloc(st)
		x.zeroInit(st, el, r)
		if isStruct(el) || isArray(el) || isEmptyStruct(el) {
			set(in, r)
		} else {
			st.env[in] = &Val{a: &Addr{comp: regContent(compCell(el), el), ref: r, typ: el}}
		}
	case *ssa.BinOp:
		set(in, x.binop(st, in))
	case *ssa.UnOp:
		return x.unop(st, in)
	case *ssa.ChangeInterface:
		set(in, x.term(st, in.X))
	case *ssa.ChangeType:
		st.env[in] = x.changeType(st, in)
	case *ssa.Convert:
		set(in, x.convert(st, in.X, in.X.Type(), in.Type()))
	case *ssa.MakeInterface:
		set(in, mkIface(in.X.Type(), x.term(st, in.X)))
	case *ssa.TypeAssert:
		x.typeAssert(st, in)
	case *ssa.Extract:
		v := x.val(st, in.Tuple)
		if v.tup == nil || in.Index >= len(v.tup) {
			x.unsupported(st, "extract from no tuple")
			set(in, Fresh("ext", sortOf(in.Type())))
		} else {
			st.env[in] = v.tup[in.Index]
		}
	case *ssa.Field:
		t := x.term(st, in.X)
		if isEmptyStruct(in.Type()) {
			set(in, IntT(0))
		} else {
			set(in, structField(in.X.Type(), t, in.Field))
		}
	case *ssa.FieldAddr:
		styp := in.X.Type().Underlying().(*types.Pointer).Elem()
		base := x.val(st, in.X)
		if base.a != nil { // inside a struct value held in a component
			ft := styp.Underlying().(*types.Struct).Field(in.Field).Type()
			a := *base.a
			a.path = append(append([]fieldStep{}, a.path...), fieldStep{styp, in.Field})
			a.typ = ft
			st.env[in] = &Val{a: &a}
			break
		}
		r := x.term(st, in.X)
		x.nonnil(st, r, "nil dereference of "+in.X.Name())
		st.env[in] = x.fieldAddr(styp, in.Field, r)
	case *ssa.Index:
		x.index(st, in)
	case *ssa.IndexAddr:
		x.indexAddr(st, in)
	case *ssa.Lookup:
		x.lookup(st, in)
	case *ssa.MakeMap:
		r := x.alloc(st)
		d, _, _, _ := x.mapComps(in.Type())
		_, ds := arrParts(x.compSort(d))
		st.heap[d] = Store(x.h(st, d), r, ConstArr(ds, False))
		set(in, r)
		if x.initing {
			x.w.initMap[r.num.Int64()] = true
		}
	case *ssa.MapUpdate:
		m := x.term(st, in.Map)
		k, v := x.term(st, in.Key), x.term(st, in.Value)
		x.nonnil(st, m, "assignment to an entry of a nil map")
		x.mapSet(st, in.Map.Type(), m, k, v)
	case *ssa.MakeSlice:
		ln, cp := x.term(st, in.Len), x.term(st, in.Cap)
		x.check(st, "bounds", "make: length and capacity in range", And(Le(IntT(0), ln), Le(ln, cp)))
		el := in.Type().Underlying().(*types.Slice).Elem()
		r := x.alloc(st)
		c := regContent(compElem(el), el)
		_, as := arrParts(x.compSort(c))
		st.heap[c] = Store(x.h(st, c), r, ConstArr(as, zeroOf(el)))
		set(in, MkSlice(r, IntT(0), ln, cp))
	case *ssa.MakeClosure:
		var bind []*Val
		for _, b := range in.Bindings {
			bind = append(bind, x.val(st, b))
		}
		set(in, x.w.funcTerm(in.Fn.(*ssa.Function), bind))
	case *ssa.Slice:
		x.slice(st, in)
	case *ssa.Store:
		x.storeInstr(st, in)
	case *ssa.Range:
		x.rangeInstr(st, in)
	case *ssa.Next:
		if x.fixedNext[in] > 0 {
			break
		}
		x.nextStep(st, in, x.insNext[in])
	case *ssa.Call:
		res, ns := x.call(st, &in.Call, in)
		if ns == nil || ns.g == False {
			return nil
		}
		if res == nil {
			res = &Val{tup: []*Val{}}
		}
		ns.env[in] = res
		return ns
	case *ssa.Defer:
		d := &deferred{cond: True, call: in}
		d.fn, d.args = x.callOperands(st, &in.Call)
		st.defers = append(st.defers, d)
	case *ssa.RunDefers:
		ds := st.defers
		st.defers = nil
		for i := len(ds) - 1; i >= 0; i-- {
			d := ds[i]
			if d.cond == True {
				_, ns := x.callWith(st, &d.call.Call, d.fn, d.args, nil)
				if ns == nil {
					return nil
				}
				st = ns
				continue
			}
			yes, no := st.clone(), st.clone()
			yes.g = And(yes.g, d.cond)
			no.g = And(no.g, Not(d.cond))
			_, ns := x.callWith(yes, &d.call.Call, d.fn, d.args, nil)
			st = x.mergeAll([]*State{ns, no})
			if st == nil {
				return nil
			}
		}
	case *ssa.SliceToArrayPointer:
		t := x.term(st, in.X)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		x.check(st, "bounds", "slice to array conversion", Le(IntT(n), SlLen(t)))
		x.unsupportedIf(st, Not(Eq(SlOff(t), IntT(0))), "slice to array pointer with an offset")
		set(in, SlArr(t))
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		x.unsupported(st, fmt.Sprintf("%T", in))
		if v, ok := in.(ssa.Value); ok {
			set(v, Fresh("unsup", sortOf(v.Type())))
		}
	default:
		x.unsupported(st, fmt.Sprintf("%T", in))
		if v, ok := in.(ssa.Value); ok {
			set(v, Fresh("unsup", sortOf(v.Type())))
		}
	}
	return st
}

func (x *Exec) unsupportedIf(st *State, c *Term, msg string) {
	if c == False {
		return
	}
	n := *st
	n.g = And(st.g, c)
	x.unsupported(&n, msg)
}

func (x *Exec) changeType(st *State, in *ssa.ChangeType) *Val {
	v := x.val(st, in.X)
	if v.t == nil {
		return v
	}
	return T(x.retype(v.t, in.X.Type(), in.Type()))
}

func (x *Exec) retype(t *Term, from, to types.Type) *Term {
	if sortOf(from) == sortOf(to) {
		return t
	}
	if isStruct(from) && isStruct(to) {
		a, b := structInfo(from), structInfo(to)
		var args []*Term
		for i := range a.fields {
			args = append(args, x.retype(structField(from, t, i), a.fields[i].Type(), b.fields[i].Type()))
		}
		return Con(b.con, b.sort, args...)
	}
	return t
}

func (x *Exec) storeInstr(st *State, in *ssa.Store) {
	a := x.val(st, in.Addr)
	el := in.Addr.Type().Underlying().(*types.Pointer).Elem()
	v := x.term(st, in.Val)
	switch {
	case a.a != nil:
		x.store(st, a.a, v)
	case a.t != nil:
		x.nonnil(st, a.t, "store through a nil pointer")
		x.storeAt(st, el, a.t, v)
	default:
		x.unsupported(st, "store: "+a.bad)
	}
}

func (x *Exec) unop(st *State, in *ssa.UnOp) *State {
	switch in.Op {
	case token.MUL:
		a := x.val(st, in.X)
		el := in.X.Type().Underlying().(*types.Pointer).Elem()
		switch {
		case a.a != nil:
			st.env[in] = T(x.load(st, a.a))
		case a.t != nil:
			x.nonnil(st, a.t, "nil dereference of "+in.X.Name())
			st.env[in] = T(x.loadAt(st, el, a.t))
		default:
			x.unsupported(st, "load: "+a.bad)
			st.env[in] = T(Fresh("unsup", sortOf(in.Type())))
		}
	case token.NOT:
		st.env[in] = T(Not(x.term(st, in.X)))
	case token.SUB:
		t := x.term(st, in.X)
		if t.sort == SFlt {
			st.env[in] = T(fltNeg(t))
		} else {
			st.env[in] = T(wrap1(Neg(t), in.Type()))
		}
	case token.XOR:
		st.env[in] = T(wrapMod(Sub(Neg(x.term(st, in.X)), IntT(1)), in.Type()))
	default:
		x.unsupported(st, "operator "+in.Op.String())
		st.env[in] = T(Fresh("unsup", sortOf(in.Type())))
	}
	return st
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert) {
	v := x.term(st, in.X)
	var ok, res *Term
	if isIface(in.AssertedType) {
		ok = x.implements(v, in.AssertedType)
		res = v
	} else {
		tag := IntT(int64(tagOf(in.AssertedType)))
		ok = Eq(ATag(v), tag)
		res = unIface(in.AssertedType, v)
		x.payloadFacts(st, v, in.AssertedType, ok)
	}
	if in.CommaOk {
		st.env[in] = &Val{tup: []*Val{T(Ite(ok, res, zeroOf(in.AssertedType))), T(ok)}}
		return
	}
	x.check(st, "assert", "type assertion to "+typeKey(in.AssertedType), ok)
	st.env[in] = T(res)
}

// payloadFacts: an interface value of a known concrete type is the boxed payload.
func (x *Exec) payloadFacts(st *State, v *Term, t types.Type, ok *Term) {
	if v.bound || v.is("mkAny") || ok == False {
		return
	}
	n := *st
	n.g = And(st.g, ok)
	p := unIface(t, v)
	x.fact(&n, Eq(v, mkIface(t, p)))
	if sortOf(t) == SBool {
		x.fact(&n, Or(Eq(AI(v), IntT(0)), Eq(AI(v), IntT(1))))
		return
	}
	if !p.is("ite") {
		x.fact(&n, wf(t, p, st.next))
	}
}

// implements gives the condition under which an interface value implements an interface type.
func (x *Exec) implements(v *Term, t types.Type) *Term {
	it := t.Underlying().(*types.Interface)
	tag := ATag(v)
	return mapLeaves(tag, func(l *Term) *Term {
		if l.isInt() {
			n := int(l.num.Int64())
			if n <= 0 || n >= len(TY.tagType) {
				return False
			}
			if ty := TY.tagType[n]; ty != nil {
				return BoolT(types.Implements(ty, it))
			}
		}
		if it.NumMethods() == 0 {
			return Not(Eq(l, IntT(0)))
		}
		in := "impl_" + sanitize(typeKey(t))
		implTypes[in] = it
		return And(Not(Eq(l, IntT(0))), Fun(in, SBool, l))
	})
}

// mapLeaves maps f over the leaves of a nest of ites.
func mapLeaves(t *Term, f func(*Term) *Term) *Term {
	if t.is("ite") {
		return Ite(t.args[0], mapLeaves(t.args[1], f), mapLeaves(t.args[2], f))
	}
	return f(t)
}

// leaves lists the distinct leaves of a nest of ites with their conditions.
func leaves(t *Term) (ls []*Term, cs []*Term) {
	idx := map[*Term]int{}
	var rec func(t, c *Term)
	rec = func(t, c *Term) {
		if c == False {
			return
		}
		if t.is("ite") {
			rec(t.args[1], And(c, t.args[0]))
			rec(t.args[2], And(c, Not(t.args[0])))
			return
		}
		if i, ok := idx[t]; ok {
			cs[i] = Or(cs[i], c)
			return
		}
		idx[t] = len(ls)
		ls = append(ls, t)
		cs = append(cs, c)
	}
	rec(t, True)
	return
}

// ---- maps ----

func (x *Exec) mapComps(t types.Type) (d, v string, kt, vt types.Type) {
	d, v, kt, vt = compMap(t)
	compContent[v] = vt
	return
}

func cardFun(dom *Term) *Term { return Fun("card_"+sanitize(string(dom.sort)), SInt, dom) }

func (x *Exec) mapDom(st *State, t types.Type, m *Term) *Term {
	d, _, _, _ := x.mapComps(t)
	x.access(st, d, m, false)
	if iv := x.initMapPart(d, m); iv != nil {
		return iv
	}
	return Select(x.h(st, d), m)
}

func (x *Exec) mapVals(st *State, t types.Type, m *Term) *Term {
	_, v, _, _ := x.mapComps(t)
	if iv := x.initMapPart(v, m); iv != nil {
		return iv
	}
	return Select(x.h(st, v), m)
}

// initMapPart reads a map built by package initialisation of a type that is
// never updated elsewhere.
func (x *Exec) initMapPart(comp string, m *Term) *Term {
	if x.initing || x.w.init == nil || !m.isInt() || !x.w.initMap[m.num.Int64()] || !strings.Contains(comp, "int|messages.Validator") {
		return nil
	}
	if h, ok := x.w.init.heap[comp]; ok {
		return Select(h, m)
	}
	return nil
}

func (x *Exec) mapSet(st *State, t types.Type, m, k, v *Term) {
	d, vc, _, _ := x.mapComps(t)
	x.access(st, d, m, true)
	if x.inserts != nil {
		x.inserts[d] = true
	}
	od := Select(x.h(st, d), m)
	nd := Store(od, k, True)
	x.cardStep(st, od, nd, k, true)
	st.heap[d] = Store(x.h(st, d), m, nd)
	st.heap[vc] = Store(x.h(st, vc), m, Store(Select(x.h(st, vc), m), k, v))
}

func (x *Exec) mapDelete(st *State, t types.Type, m, k *Term) {
	d, _, _, _ := x.mapComps(t)
	x.access(st, d, m, true)
	od := Select(x.h(st, d), m)
	nd := Store(od, k, False)
	x.cardStep(st, od, nd, k, false)
	st.heap[d] = Store(x.h(st, d), m, nd)
}

func (x *Exec) cardStep(st *State, od, nd, k *Term, ins bool) {
	if od.bound || nd.bound || x.initing {
		return
	}
	was := Select(od, k)
	if ins {
		x.fact(st, Eq(cardFun(nd), Add(cardFun(od), Ite(was, IntT(0), IntT(1)))))
	} else {
		x.fact(st, Eq(cardFun(nd), Sub(cardFun(od), Ite(was, IntT(1), IntT(0)))))
	}
	x.cardFacts(st, od)
	x.cardFacts(st, nd)
}

func (x *Exec) cardFacts(st *State, d *Term) {
	ks, _ := arrParts(d.sort)
	if d.bound {
		q := BVar("d", d.sort)
		cq := cardFun(q)
		x.axiom(Forall([]*Term{q}, [][]*Term{{cq}}, And(Ge(cq, IntT(0)), Implies(Gt(cq, IntT(0)), Select(q, Fun("wit_"+sanitize(string(d.sort)), ks, q))))))
		k := BVar("k", ks)
		x.axiom(Forall([]*Term{q, k}, [][]*Term{{Select(q, k), cq}}, Implies(Select(q, k), Gt(cq, IntT(0)))))
		return
	}
	c := cardFun(d)
	wit := Fun("wit_"+sanitize(string(d.sort)), ks, d)
	x.axiom(Ge(c, IntT(0)))
	x.axiom(Iff(Eq(c, IntT(0)), Eq(d, ConstArr(d.sort, False))))
	x.axiom(Implies(Gt(c, IntT(0)), Select(d, wit)))
	k := BVar("k", ks)
	x.axiom(Forall([]*Term{k}, [][]*Term{{Select(d, k)}}, Implies(Select(d, k), Gt(c, IntT(0)))))
}

func (x *Exec) mapLen(st *State, t types.Type, m *Term) *Term {
	d := x.mapDom(st, t, m)
	x.cardFacts(st, d)
	return cardFun(d)
}

func (x *Exec) mapGet(st *State, t types.Type, m, k *Term) (v, ok *Term) {
	_, _, _, vt := x.mapComps(t)
	d := x.mapDom(st, t, m)
	ok = Select(d, k)
	raw := Select(x.mapVals(st, t, m), k)
	if raw.kind == KApp && raw.op == "select" {
		x.wfVal(st, vt, raw)
	}
	return Ite(ok, raw, zeroOf(vt)), ok
}

func (x *Exec) lookup(st *State, in *ssa.Lookup) {
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s, i := x.term(st, in.X), x.term(st, in.Index)
		x.check(st, "bounds", "string index in range", And(Le(IntT(0), i), Lt(i, x.strlen(st, s))))
		r := Fun("str_at", SInt, s, i)
		x.fact(st, And(Le(IntT(0), r), Le(r, IntT(255))))
		st.env[in] = T(r)
		return
	}
	m, k := x.term(st, in.X), x.term(st, in.Index)
	v, ok := x.mapGet(st, in.X.Type(), m, k)
	if in.CommaOk {
		st.env[in] = &Val{tup: []*Val{T(v), T(ok)}}
	} else {
		st.env[in] = T(v)
	}
}

// ---- slices ----

func (x *Exec) indexAddr(st *State, in *ssa.IndexAddr) {
	i := x.term(st, in.Index)
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.term(st, in.X)
		x.check(st, "bounds", "index in range", And(Le(IntT(0), i), Lt(i, SlLen(s))))
		st.env[in] = &Val{a: &Addr{comp: regContent(compElem(u.Elem()), u.Elem()), ref: SlArr(s), idx: Add(SlOff(s), i), typ: u.Elem()}}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		r := x.term(st, in.X)
		x.nonnil(st, r, "nil array pointer")
		x.check(st, "bounds", "index in range", And(Le(IntT(0), i), Lt(i, IntT(at.Len()))))
		st.env[in] = &Val{a: &Addr{comp: regContent(compElem(at.Elem()), at.Elem()), ref: r, idx: i, typ: at.Elem()}}
	default:
		x.unsupported(st, "IndexAddr")
	}
}

func (x *Exec) index(st *State, in *ssa.Index) {
	i := x.term(st, in.Index)
	switch u := in.X.Type().Underlying().(type) {
	case *types.Array:
		x.check(st, "bounds", "index in range", And(Le(IntT(0), i), Lt(i, IntT(u.Len()))))
		st.env[in] = T(Select(x.term(st, in.X), i))
	default:
		s := x.term(st, in.X)
		if s.sort == SStr {
			x.check(st, "bounds", "string index in range", And(Le(IntT(0), i), Lt(i, x.strlen(st, s))))
			r := Fun("str_at", SInt, s, i)
			x.fact(st, And(Le(IntT(0), r), Le(r, IntT(255))))
			st.env[in] = T(r)
			return
		}
		x.unsupported(st, "Index")
		st.env[in] = T(Fresh("unsup", sortOf(in.Type())))
	}
}

func (x *Exec) slice(st *State, in *ssa.Slice) {
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.term(st, v)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		r := x.term(st, in.X)
		x.nonnil(st, r, "nil array pointer")
		lo, hi := opt(in.Low, IntT(0)), opt(in.High, IntT(at.Len()))
		mx := opt(in.Max, IntT(at.Len()))
		x.check(st, "bounds", "slice bounds", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, IntT(at.Len()))))
		st.env[in] = T(MkSlice(r, lo, Sub(hi, lo), Sub(mx, lo)))
	case *types.Slice:
		s := x.term(st, in.X)
		lo, hi := opt(in.Low, IntT(0)), opt(in.High, SlLen(s))
		mx := opt(in.Max, SlCap(s))
		x.check(st, "bounds", "slice bounds", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, SlCap(s))))
		if in.High != nil {
			x.unsupportedIf(st, Gt(hi, SlLen(s)), "slicing beyond the length")
		}
		r := MkSlice(SlArr(s), Add(SlOff(s), lo), Sub(hi, lo), Sub(mx, lo))
		// the nil slice stays nil
		st.env[in] = T(Ite(Eq(SlArr(s), IntT(0)), NilSlice(), r))
		if isAllocRef(SlArr(s)) || s.is("mkSlice") && !s.args[0].isInt() {
			if s.is("mkSlice") && isAllocRef(s.args[0]) {
				st.env[in] = T(r)
			}
		}
	case *types.Basic:
		s := x.term(st, in.X)
		ln := x.strlen(st, s)
		lo, hi := opt(in.Low, IntT(0)), opt(in.High, ln)
		x.check(st, "bounds", "string slice bounds", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, ln)))
		st.env[in] = T(x.substr(st, s, lo, hi))
	default:
		x.unsupported(st, "Slice")
		st.env[in] = T(Fresh("unsup", sortOf(in.Type())))
	}
}

// appendSlice is the append builtin with n elements taken from content src at offset so.
func (x *Exec) appendSlice(st *State, el types.Type, s, src, so, n *Term) *Term {
	c := regContent(compElem(el), el)
	x.access(st, c, SlArr(s), true)
	H := x.h(st, c)
	arr, off, ln, cp := SlArr(s), SlOff(s), SlLen(s), SlCap(s)
	nl := Add(ln, n)
	copyTo := func(base *Term) *Term {
		d := Add(off, ln)
		if n.isInt() && n.num.IsInt64() && n.num.Int64() <= 16 {
			r := base
			for i := int64(0); i < n.num.Int64(); i++ {
				r = Store(r, Add(d, IntT(i)), Select(src, Add(so, IntT(i))))
			}
			return r
		}
		return x.arrcopy(base, d, src, so, n)
	}
	old := Select(H, arr)
	inplace := Le(nl, cp)
	if inplace == False || cp.isInt() && cp.num.Sign() == 0 && n.isInt() && n.num.Sign() > 0 {
		inplace = False
	}
	if n.isInt() && n.num.Sign() == 0 {
		return s
	}
	if inplace == True {
		st.heap[c] = Store(H, arr, copyTo(old))
		return MkSlice(arr, off, nl, cp)
	}
	r := x.alloc(st)
	ncap := Fresh("cap", SInt)
	x.fact(st, And(Ge(ncap, nl), Le(ncap, maxLen)))
	x.fact(st, Le(nl, maxLen))
	grown := MkSlice(r, off, nl, ncap)
	content := copyTo(old)
	Hg := Store(H, r, content)
	if inplace == False {
		st.heap[c] = Hg
		return grown
	}
	Hi := Store(H, arr, content)
	_ = Hi
	// write the new content both to the fresh array (when grown) and in place (otherwise)
	st.heap[c] = Store(Hg, arr, Ite(inplace, content, old))
	res := Ite(inplace, MkSlice(arr, off, nl, cp), grown)
	// appending nothing to anything gives it back
	return Ite(Eq(n, IntT(0)), s, res)
}

func (x *Exec) arrcopy(base, d, src, s, n *Term) *Term {
	_, es := arrParts(base.sort)
	name := "arrcopy_" + sanitize(string(es))
	r := Fun(name, base.sort, base, d, src, s, n)
	k := "ax:" + name
	if !x.axioms[k] {
		x.axioms[k] = true
		C, D, S, so, N, i := BVar("C", base.sort), BVar("d", SInt), BVar("S", base.sort), BVar("s", SInt), BVar("n", SInt), BVar("i", SInt)
		e := Select(rawApp(name, base.sort, C, D, S, so, N), i)
		x.facts = append(x.facts, fact{True, Forall([]*Term{C, D, S, so, N, i}, [][]*Term{{e}},
			Eq(e, Ite(And(Le(D, i), Lt(i, Add(D, N))), Select(S, Add(so, Sub(i, D))), Select(C, i))))})
	}
	return r
}

// ---- diagnostics ----

func debugf(f string, a ...any) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func sortedStrings(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
