package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// resKey stands for the i-th result of an inlined call in a state's environment.
type resKey struct {
	ssa.Value
	n, i int
}

var resN int

func isBuiltinCall(c *ssa.CallCommon) (string, bool) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name(), true
	}
	return "", false
}

func (x *Exec) callOperands(st *State, c *ssa.CallCommon) (fn *Val, args []*Val) {
	if c.IsInvoke() {
		fn = T(x.term(st, c.Value))
	} else if _, ok := isBuiltinCall(c); !ok {
		fn = x.val(st, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	return
}

func (x *Exec) call(st *State, c *ssa.CallCommon, instr ssa.Instruction) (*Val, *State) {
	fn, args := x.callOperands(st, c)
	return x.callWith(st, c, fn, args, instr)
}

func (x *Exec) callWith(st *State, c *ssa.CallCommon, fn *Val, args []*Val, instr ssa.Instruction) (*Val, *State) {
	pos := x.pos
	defer func() { x.pos = pos }()
	if name, ok := isBuiltinCall(c); ok {
		return x.builtin(st, name, c, args)
	}
	if c.IsInvoke() {
		return x.invoke(st, fn.t, c.Value.Type(), c.Method, args)
	}
	if f := c.StaticCallee(); f != nil {
		var bind []*Val
		if len(f.FreeVars) > 0 && fn != nil && fn.t != nil && fn.t.isInt() {
			bind = x.w.clos[fn.t.num.Int64()].bind
		}
		return x.callFunc(st, f, args, bind)
	}
	return x.callDyn(st, fn.t, c.Signature(), args)
}

// callDyn calls a function value.
func (x *Exec) callDyn(st *State, f *Term, sig *types.Signature, args []*Val) (*Val, *State) {
	if f == nil {
		x.unsupported(st, "call of an unknown function value")
		return x.havocResult(st, sig), st
	}
	ls, cs := leaves(f)
	var outs []*State
	key, n := x.newRes(sig)
	for i, l := range ls {
		n1 := st.clone()
		n1.g = And(st.g, cs[i])
		if n1.g == False {
			continue
		}
		if !l.isInt() || l.num.Sign() <= 0 || int(l.num.Int64()) >= len(x.w.clos) {
			if l.isInt() && l.num.Sign() == 0 {
				x.oblige(n1, "nil", "call of a nil function", nil, False)
				continue
			}
			if l.kind == KSym || l.kind == KApp {
				x.check(n1, "nil", "call of a nil function", Not(Eq(l, IntT(0))))
			}
			x.unsupported(n1, "call of an unknown function value")
			x.bindRes(n1, key, n, x.havocResult(n1, sig))
			outs = append(outs, n1)
			continue
		}
		fv := x.w.clos[l.num.Int64()]
		r, ns := x.callFunc(n1, fv.fn, args, fv.bind)
		if ns == nil || ns.g == False {
			continue
		}
		x.bindRes(ns, key, n, r)
		outs = append(outs, ns)
	}
	return x.joinRes(st, outs, key, n, len(ls) > 1)
}

func (x *Exec) newRes(sig *types.Signature) (int, int) {
	resN++
	return resN, sig.Results().Len()
}

func (x *Exec) bindRes(st *State, key, n int, r *Val) {
	if n == 1 {
		st.env[resKey{nil, key, 0}] = r
		return
	}
	for i := 0; i < n; i++ {
		st.env[resKey{nil, key, i}] = r.tup[i]
	}
}

func (x *Exec) joinRes(st *State, outs []*State, key, n int, reset bool) (*Val, *State) {
	ns := x.mergeAll(outs)
	if ns == nil {
		return nil, nil
	}
	if ns == st {
		ns = st.clone()
	}
	var r *Val
	if n == 1 {
		r = ns.env[resKey{nil, key, 0}]
		delete(ns.env, resKey{nil, key, 0})
	} else {
		r = &Val{tup: []*Val{}}
		for i := 0; i < n; i++ {
			r.tup = append(r.tup, ns.env[resKey{nil, key, i}])
			delete(ns.env, resKey{nil, key, i})
		}
	}
	return r, ns
}

// havocResult gives arbitrary results of the signature's types, with references to existing objects.
func (x *Exec) havocResult(st *State, sig *types.Signature) *Val {
	mk := func(t types.Type) *Val {
		f := Fresh("ext", sortOf(t))
		x.fact(st, wf(t, f, x.next0()))
		return T(f)
	}
	n := sig.Results().Len()
	if n == 1 {
		return mk(sig.Results().At(0).Type())
	}
	r := &Val{tup: []*Val{}}
	for i := 0; i < n; i++ {
		r.tup = append(r.tup, mk(sig.Results().At(i).Type()))
	}
	return r
}

func extName(fn *ssa.Function) string {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	s := o.String()
	s = strings.ReplaceAll(s, "golang.org/x/", "x/")
	return strings.ReplaceAll(s, "github.com/hashicorp/go-immutable-radix/v2", "iradix")
}

func (x *Exec) callFunc(st *State, fn *ssa.Function, args, bind []*Val) (*Val, *State) {
	for i, a := range args {
		if a == nil || a.bad != "" {
			x.unsupported(st, "argument: "+func() string {
				if a == nil {
					return "nil"
				}
				return a.bad
			}())
			args[i] = T(Fresh("unsup", SInt))
		}
	}
	name := funcName(fn)
	var pkg *types.Package
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		pkg = fn.Origin().Pkg.Pkg
	} else if fn.Object() != nil {
		pkg = fn.Object().Pkg()
	}
	if x.initing && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil && fn.Synthetic != "" {
		return &Val{tup: []*Val{}}, st // package initialisers of imports run on their own
	}
	if inModule(pkg) {
		if x.w.specs != nil && !x.initing {
			if c := x.w.specs.byFn[name]; c != nil && c.modular && !x.inlineOnly[name] && (!c.helper || x.prop != "C01" && x.w.helperHolds(c, fn)) {
				return x.callContract(st, c, fn, args)
			}
		}
		if h := moduleHandlers[name]; h != nil {
			return h(x, st, fn, args)
		}
	} else if h := extHandlers[extName(fn)]; h != nil {
		return h(x, st, fn, args)
	}
	if len(fn.Blocks) > 0 && (inModule(pkg) || fn.Synthetic != "" || inlineExt[extName(fn)]) {
		return x.inline(st, fn, args, bind)
	}
	return x.unknownExt(st, fn, args)
}

func (x *Exec) inline(st *State, fn *ssa.Function, args, bind []*Val) (*Val, *State) {
	g := st.g
	inv0 := x.invLoops
	tail := x.tail
	x.tail = nil
	rs := x.runFunc(fn, st, args, bind)
	if tail != nil && tail.fn == fn && tail.depth == len(x.stack) {
		tail.taken, tail.ends = true, rs
		return nil, nil
	}
	key, n := x.newRes(fn.Signature)
	var outs []*State
	for _, r := range rs {
		if r.st.g == False {
			continue
		}
		r.st.env = map[ssa.Value]*Val{}
		r.st.defers = nil
		for i, v := range r.res {
			r.st.env[resKey{nil, key, i}] = v
		}
		outs = append(outs, r.st)
	}
	res, ns := x.joinRes(st, outs, key, n, true)
	if ns == nil {
		return nil, nil
	}
	ns.env = make(map[ssa.Value]*Val, len(st.env))
	for k, v := range st.env {
		ns.env[k] = v
	}
	ns.defers = append([]*deferred{}, st.defers...)
	if x.invLoops == inv0 {
		ns.g = g
	}
	return res, ns
}

// unknownExt is a function outside the module without a contract.
func (x *Exec) unknownExt(st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
	name := extName(fn)
	pure := false
	for _, p := range purePrefixes {
		if strings.HasPrefix(name, p) || strings.HasPrefix(name, "("+p) || strings.HasPrefix(name, "(*"+p) {
			pure = true
		}
	}
	if !pure {
		x.unsupported(st, "call of "+name+", which has no contract")
	}
	x.trust[name] = "no contract: results arbitrary, assumed not to panic"
	// memory handed over may change
	sig := fn.Signature
	off := 0
	if sig.Recv() != nil {
		off = 1
	}
	if !pure {
		for i := 0; i+off < len(args) && i < sig.Params().Len(); i++ {
			x.havocArg(st, sig.Params().At(i).Type(), args[i+off])
		}
	}
	return x.havocResult(st, sig), st
}

func (x *Exec) havocArg(st *State, t types.Type, v *Val) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if v.t == nil {
			return
		}
		c := regContent(compElem(u.Elem()), u.Elem())
		h := x.h(st, c)
		_, as := arrParts(h.sort)
		st.heap[c] = Store(h, SlArr(v.t), Fresh("hav", as))
	case *types.Map:
		if v.t == nil {
			return
		}
		d, vc, _, _ := x.mapComps(t)
		for _, k := range []string{d, vc} {
			h := x.h(st, k)
			_, as := arrParts(h.sort)
			st.heap[k] = Store(h, v.t, Fresh("hav", as))
		}
	case *types.Pointer:
		if v.a != nil {
			f := Fresh("hav", sortOf(u.Elem()))
			x.fact(st, wf(u.Elem(), f, x.next0()))
			x.store(st, v.a, f)
		} else if v.t != nil && isStruct(u.Elem()) && !isSyncType(u.Elem()) {
			f := Fresh("hav", sortOf(u.Elem()))
			x.fact(st, wf(u.Elem(), f, x.next0()))
			x.storeAt(st, u.Elem(), v.t, f)
		}
	}
}

// ---- builtins ----

func (x *Exec) builtin(st *State, name string, c *ssa.CallCommon, args []*Val) (*Val, *State) {
	term := func(i int) *Term {
		if args[i].t == nil {
			if t, ok := x.addrTerm(args[i]); ok {
				return t
			}
			x.unsupported(st, "builtin "+name+" argument")
			return Fresh("unsup", sortOf(c.Args[i].Type()))
		}
		return args[i].t
	}
	switch name {
	case "len":
		t := c.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return T(SlLen(term(0))), st
		case *types.Map:
			return T(x.mapLen(st, t, term(0))), st
		case *types.Basic:
			return T(x.strlen(st, term(0))), st
		case *types.Array:
			return T(IntT(u.Len())), st
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return T(IntT(a.Len())), st
			}
		}
	case "cap":
		if _, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			return T(SlCap(term(0))), st
		}
	case "append":
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		s := term(0)
		if b, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			src := Fun("strbytes", SArr(SInt, SInt), term(1))
			return T(x.appendSlice(st, el, s, src, IntT(0), x.strlen(st, term(1)))), st
		}
		a := term(1)
		comp := regContent(compElem(el), el)
		src := Select(x.h(st, comp), SlArr(a))
		return T(x.appendSlice(st, el, s, src, SlOff(a), SlLen(a))), st
	case "copy":
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		d := term(0)
		comp := regContent(compElem(el), el)
		x.access(st, comp, SlArr(d), true)
		var src, so, n *Term
		if b, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			src, so, n = Fun("strbytes", SArr(SInt, SInt), term(1)), IntT(0), x.strlen(st, term(1))
		} else {
			s := term(1)
			src, so, n = Select(x.h(st, comp), SlArr(s)), SlOff(s), SlLen(s)
		}
		k := Ite(Le(SlLen(d), n), SlLen(d), n)
		h := x.h(st, comp)
		st.heap[comp] = Store(h, SlArr(d), x.arrcopy(Select(h, SlArr(d)), SlOff(d), src, so, k))
		return T(k), st
	case "delete":
		m := term(0)
		x.mapDelete(st, c.Args[0].Type(), m, term(1))
		return &Val{tup: []*Val{}}, st
	case "clear":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Map:
			d, _, _, _ := x.mapComps(c.Args[0].Type())
			x.access(st, d, term(0), true)
			h := x.h(st, d)
			_, ds := arrParts(h.sort)
			st.heap[d] = Store(h, term(0), ConstArr(ds, False))
			return &Val{tup: []*Val{}}, st
		case *types.Slice:
			_ = u
		}
	case "min", "max":
		if sortOf(c.Args[0].Type()) == SInt {
			r := term(0)
			for i := 1; i < len(args); i++ {
				if name == "min" {
					r = Ite(Le(r, term(i)), r, term(i))
				} else {
					r = Ite(Le(r, term(i)), term(i), r)
				}
			}
			return T(r), st
		}
	case "print", "println", "ssa:wrapnilchk":
		if name == "ssa:wrapnilchk" {
			x.nonnil(st, term(0), "nil receiver")
			return args[0], st
		}
		return &Val{tup: []*Val{}}, st
	case "recover":
		return T(NilAny()), st
	}
	x.unsupported(st, "builtin "+name)
	r := c.Signature().Results()
	if r.Len() == 1 {
		return T(Fresh("unsup", sortOf(r.At(0).Type()))), st
	}
	return &Val{tup: []*Val{}}, st
}

// ---- interface calls ----

func (x *Exec) invoke(st *State, recv *Term, it types.Type, m *types.Func, args []*Val) (*Val, *State) {
	sig := m.Type().(*types.Signature)
	tag := ATag(recv)
	ls, cs := leaves(tag)
	known := false
	for _, l := range ls {
		if l.isInt() {
			known = true
		}
	}
	if !known && m.Name() == "Parse" && ifaceName(it) == "messages.Message" {
		// a message is of one of the types of package messages
		var is []*Term
		for _, mt := range x.w.msgTypes() {
			c := Eq(tag, IntT(int64(tagOf(mt.ptr))))
			is = append(is, c)
		}
		x.check(st, "pre", "message is of one of the message types", Or(is...))
		st = st.clone()
		st.g = And(st.g, Or(is...))
		r2 := mkIface(x.w.msgTypes()[0].ptr, AI(recv))
		for _, mt := range x.w.msgTypes()[1:] {
			r2 = Ite(Eq(tag, IntT(int64(tagOf(mt.ptr)))), mkIface(mt.ptr, AI(recv)), r2)
		}
		return x.invoke(st, r2, it, m, args)
	}
	if !known {
		x.ifaceNonnil(st, recv, "method "+m.Name()+" of a nil interface")
		return x.invokeUnknown(st, recv, it, m, args)
	}
	key, n := x.newRes(sig)
	var outs []*State
	for i, l := range ls {
		n1 := st.clone()
		n1.g = And(st.g, cs[i])
		if n1.g == False {
			continue
		}
		var r *Val
		var ns *State
		if !l.isInt() {
			x.ifaceNonnil(n1, recv, "method "+m.Name()+" of a nil interface")
			r, ns = x.invokeUnknown(n1, underVal(recv, cs[i]), it, m, args)
		} else if l.num.Sign() == 0 {
			x.oblige(n1, "nil", "method "+m.Name()+" of a nil interface", nil, False)
			continue
		} else {
			t := TY.tagType[l.num.Int64()]
			if t == nil {
				r, ns = x.invokeUnknown(n1, underVal(recv, cs[i]), it, m, args)
			} else {
				fn := x.w.prog.LookupMethod(t, m.Pkg(), m.Name())
				if fn == nil {
					x.unsupported(n1, "no method "+m.Name()+" on "+t.String())
					continue
				}
				rv := unIface(t, underVal(recv, cs[i]))
				r, ns = x.callFunc(n1, fn, append([]*Val{T(rv)}, args...), nil)
			}
		}
		if ns == nil || ns.g == False {
			continue
		}
		x.bindRes(ns, key, n, r)
		outs = append(outs, ns)
	}
	return x.joinRes(st, outs, key, n, true)
}

// underVal picks the branches of an ite that are consistent with a condition.
func underVal(t, c *Term) *Term {
	have := map[*Term]bool{}
	for _, a := range conj(c) {
		have[a] = true
	}
	for t.is("ite") {
		switch {
		case have[t.args[0]]:
			t = t.args[1]
		case have[Not(t.args[0])]:
			t = t.args[2]
		default:
			return t
		}
	}
	return t
}

func (x *Exec) ifaceNonnil(st *State, v *Term, what string) {
	if x.quiet > 0 {
		return
	}
	tag := ATag(v)
	if tag.isInt() && tag.num.Sign() > 0 {
		return
	}
	for _, g := range x.nnil[tag.id] {
		if impliedBy(st.g, g) {
			return
		}
	}
	x.check(st, "nil", what, Not(Eq(tag, IntT(0))))
	x.nnil[tag.id] = append(x.nnil[tag.id], st.g)
}

func ifaceName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		p := ""
		if n.Obj().Pkg() != nil {
			p = shortPkg(n.Obj().Pkg().Path()) + "."
		}
		return p + n.Obj().Name()
	}
	return t.String()
}

// invokeUnknown calls a method on a receiver of unknown dynamic type.
func (x *Exec) invokeUnknown(st *State, recv *Term, it types.Type, m *types.Func, args []*Val) (*Val, *State) {
	in := ifaceName(it)
	if h := ifaceHandlers[in+"."+m.Name()]; h != nil {
		return h(x, st, recv, args)
	}
	if h := ifaceHandlers["*."+m.Name()]; h != nil {
		return h(x, st, recv, args)
	}
	sig := m.Type().(*types.Signature)
	if sig.Params().Len() == 0 && sig.Results().Len() == 1 && (strings.HasSuffix(in, "Fields") || pureIfaces[in]) {
		return T(x.getter(st, m.Name(), recv, sig.Results().At(0).Type())), st
	}
	x.unsupported(st, "method "+in+"."+m.Name()+" on an unknown receiver")
	return x.havocResult(st, sig), st
}

// getter is a pure method of an opaque object.
func (x *Exec) getter(st *State, name string, recv *Term, t types.Type) *Term {
	r := Fun("get$"+name+"$"+sanitize(typeKey(t)), sortOf(t), recv)
	if !r.bound {
		x.axiom(wf(t, r, x.next0()))
	}
	return r
}

// ---- calls by contract ----

func (x *Exec) callContract(st *State, c *Contract, fn *ssa.Function, args []*Val) (*Val, *State) {
	env := x.contractEnv(c, fn, st, args)
	pos := x.pos
	for _, r := range c.requires {
		x.oblige(st, "pre", "precondition of "+c.name+": "+r.name, nil, env.bool(r))
	}
	x.pos = pos
	old := st.clone()
	st = st.clone()
	nb := x.newNext(st.next)
	oldNext := st.next
	st.next = nb
	for _, tn := range c.allocates {
		t := x.w.resolveType(tn, fn.Pkg.Pkg)
		for _, comp := range x.compsOf(t) {
			h := x.h(st, comp)
			f := Fresh("L|"+comp, h.sort)
			x.compAxioms(comp, f, nb)
			r := BVar("r", SInt)
			x.fact(st, Forall([]*Term{r}, [][]*Term{{Select(f, r)}}, Implies(Lt(r, oldNext), Eq(Select(f, r), Select(h, r)))))
			st.heap[comp] = f
		}
	}
	guard := x.guard
	if c.helper {
		x.guard = nil // C01 is decided with helpers inlined
	}
	for _, m := range c.modifies {
		env.st = old
		if comp, et, ref := env.elems(m); comp != "" {
			h := x.h(st, comp)
			_, as := arrParts(h.sort)
			f := Fresh("mod", as)
			i := BVar("i", SInt)
			x.fact(st, Forall([]*Term{i}, [][]*Term{{Select(f, i)}}, wf(et, Select(f, i), nb)))
			st.heap[comp] = Store(h, ref, f)
			continue
		}
		a := env.addr(m)
		if a == nil {
			x.unsupported(st, "modifies clause of "+c.name)
			continue
		}
		f := Fresh("mod", sortOf(a.typ))
		x.fact(st, wf(a.typ, f, nb))
		x.store(st, a, f)
	}
	x.guard = guard
	sig := fn.Signature
	res := &Val{tup: []*Val{}}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		f := Fresh("res_"+fn.Name(), sortOf(t))
		x.fact(st, wf(t, f, nb))
		res.tup = append(res.tup, T(f))
	}
	env.bindResults(c, sig, res.tup)
	env.st, env.old = st, old
	for _, e := range c.ensures {
		if e.local || !e.matters(x.prop) {
			continue
		}
		x.fact(st, env.bool(e))
	}
	x.used[c.name] = true
	if len(res.tup) == 1 {
		return res.tup[0], st
	}
	return res, st
}

// compsOf lists the heap components of a type's objects.
func (x *Exec) compsOf(t types.Type) []string {
	var out []string
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if isStruct(ft) {
				out = append(out, x.compsOf(ft)...)
				continue
			}
			c, _ := compField(t, i)
			out = append(out, regContent(c, ft))
		}
	case *types.Slice:
		out = append(out, regContent(compElem(u.Elem()), u.Elem()))
	case *types.Map:
		d, v, _, _ := x.mapComps(t)
		out = append(out, d, v)
	}
	return out
}

// ---- shared-state guard (C01) ----

func (x *Exec) access(st *State, comp string, ref *Term, write bool) {
	if x.guard == nil || x.quiet > 0 || x.initing || isAllocRef(ref) {
		return
	}
	m := x.guard.mutexFor(comp, ref)
	if m == nil {
		return
	}
	held := Select(x.h(st, heldComp()), m)
	what := "read"
	if write {
		what = "write"
	}
	key := fmt.Sprintf("%s %s %d %d", x.where(), comp, held.id, st.g.id)
	if x.guarded[key] {
		return
	}
	x.guarded[key] = true
	name := what + " of shared " + comp[strings.Index(comp, "|")+1:] + " holds the lock"
	if held == True {
		x.obls = append(x.obls, &Obl{Name: name, Kind: "guard", Tags: []string{"C01"}, Pos: x.where(), g: st.g, goal: held, Status: "proved", Backend: "simplifier"})
		return
	}
	x.oblige(st, "guard", name, []string{"C01"}, Or(held, Ge(ref, x.next0())))
}

func heldComp() string { return ghostComp("held", SArr(SInt, SBool)) }
func acqComp() string  { return ghostComp("acq", SArr(SInt, SInt)) }

// guardSpec says what the shared state is: the fields of the owner type and of
// the types only reachable through it.
type guardSpec struct {
	mutex *Term // the receiver's lock
	owner map[string]bool
	self  map[string]string // type key whose own mutex guards its fields -> field name
}

func (g *guardSpec) mutexFor(comp string, ref *Term) *Term {
	parts := strings.Split(comp, "|")
	switch parts[0] {
	case "F":
		if f, ok := g.self[parts[1]]; ok {
			if parts[2] == f {
				return nil
			}
			return Fun("sub_"+sanitize(parts[1]+"_"+f), SInt, ref)
		}
		if g.owner[parts[1]] {
			return g.mutex
		}
	case "M":
		if g.owner["slice "+parts[1]] {
			return g.mutex
		}
	case "MD", "MV":
		if g.owner["map "+parts[1]+"|"+parts[2]] {
			return g.mutex
		}
	}
	return nil
}

func isSyncType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}

func syncName(t types.Type) string {
	return types.Unalias(t).(*types.Named).Obj().Name()
}

func (x *Exec) zeroSync(st *State, t types.Type, ref *Term) {
	switch syncName(t) {
	case "Mutex", "RWMutex":
		st.heap[heldComp()] = Store(x.h(st, heldComp()), ref, False)
		st.heap[acqComp()] = Store(x.h(st, acqComp()), ref, IntT(0))
	case "Map":
		d, _ := smComps()
		h := x.h(st, d)
		_, as := arrParts(h.sort)
		st.heap[d] = Store(h, ref, ConstArr(as, False))
	}
}

// storeSync assigns a value of a type of package sync: the zero value resets the
// object, of any other nothing is known afterwards.
func (x *Exec) storeSync(st *State, t types.Type, ref, v *Term) {
	zero := Eq(v, zeroOf(t))
	reset := func(c string, z *Term) {
		h := x.h(st, c)
		x.access(st, c, ref, true)
		st.heap[c] = Store(h, ref, Ite(zero, z, Fresh("sync", z.sort)))
	}
	switch syncName(t) {
	case "Mutex", "RWMutex":
		reset(heldComp(), False)
		reset(acqComp(), IntT(0))
	case "Map":
		d, v := smComps()
		_, as := arrParts(x.h(st, d).sort)
		reset(d, ConstArr(as, False))
		h := x.h(st, v)
		_, vs := arrParts(h.sort)
		st.heap[v] = Store(h, ref, Fresh("sync", vs))
	}
}

func smComps() (string, string) {
	return ghostComp("smdom", SArr(SInt, SArr(SAny, SBool))), ghostComp("smval", SArr(SInt, SArr(SAny, SAny)))
}
