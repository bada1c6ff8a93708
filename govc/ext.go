package main

import (
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts of functions outside the module: the trusted base.

type handler func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State)
type ifaceHandler func(x *Exec, st *State, recv *Term, args []*Val) (*Val, *State)

// packages whose functions touch nothing but their results
var purePrefixes = []string{"fmt.", "strings.", "errors.", "strconv.", "unicode", "math.", "math/bits.", "time.", "path.", "encoding/hex.", "encoding/base64.", "unicode/utf8."}

// small library functions that are executed from their source when it is loaded
var inlineExt = map[string]bool{}

var extHandlers map[string]handler
var moduleHandlers map[string]handler
var ifaceHandlers map[string]ifaceHandler

var pureIfaces = map[string]bool{"auth.Response": true, "auth.Request": true, "auth.ClientAuthenticator": true}

func tup(vs ...*Term) *Val {
	r := &Val{tup: []*Val{}}
	for _, v := range vs {
		r.tup = append(r.tup, T(v))
	}
	return r
}

func none() *Val { return &Val{tup: []*Val{}} }

// newErr is a new non-nil error.
func (x *Exec) newErr(st *State) *Term {
	r := x.alloc(st)
	return MkAny(IntT(int64(namedTag("error value"))), r, StrT(""), FltZero(), NilSlice())
}

// someErr is an error that is nil exactly if ok holds.
func (x *Exec) errUnless(st *State, ok *Term) *Term {
	return Ite(ok, NilAny(), x.newErr(st))
}

func (x *Exec) str(st *State, v *Val) *Term { return x.bytesStr(st, v.t) }

func freshStr(p string) *Term { return Fresh(p, SStr) }

func strFun(name string, args ...*Term) *Term { return Fun(name, SStr, args...) }

func (x *Exec) freshSlice(st *State, t types.Type) *Term {
	f := Fresh("ext", SSlice)
	x.fact(st, wfSlice(f, x.next0()))
	return f
}

func hasSuffixT(x *Exec, st *State, a, b *Term) *Term {
	la, lb := x.strlen(st, a), x.strlen(st, b)
	return And(Le(lb, la), Eq(x.substr(st, a, Sub(la, lb), la), b))
}

func (x *Exec) lockOp(st *State, ref *Term) *State {
	h := x.h(st, heldComp())
	x.oblige(st, "lock", "lock is not taken while held", []string{"C01"}, Not(Select(h, ref)))
	x.fact(st, Not(Select(h, ref)))
	st.heap[heldComp()] = Store(h, ref, True)
	a := x.h(st, acqComp())
	n := Select(a, ref)
	if x.guard != nil && ref == x.guard.mutex {
		x.oblige(st, "lock", "operation takes its lock only once", []string{"C01"}, Eq(n, IntT(0)))
	}
	st.heap[acqComp()] = Store(a, ref, Add(n, IntT(1)))
	return st
}

func (x *Exec) unlockOp(st *State, ref *Term) *State {
	h := x.h(st, heldComp())
	x.oblige(st, "lock", "unlock of a held lock", []string{"C01"}, Select(h, ref))
	x.fact(st, Select(h, ref))
	st.heap[heldComp()] = Store(h, ref, False)
	return st
}

// fixedBytes gives new bytes of a known length.
func (x *Exec) fixedBytes(st *State, s *Term, n int64) *Term {
	x.axiom(Eq(x.strlen(st, s), IntT(n)))
	return x.newBytes(st, s)
}

func treeComps() (dom, val string) {
	return ghostComp("treedom", SArr(SInt, SArr(SStr, SBool))), ghostComp("treeval", SArr(SInt, SArr(SStr, SInt)))
}

func strPrefix(s, p *Term) *Term { return Fun("str_prefix", SBool, s, p) }

// lpm: the longest key of dom that is a prefix of s.
func (x *Exec) lpm(st *State, dom, s *Term) (key, ok *Term) {
	key, ok = Fun("lpm_key", SStr, dom, s), Fun("lpm_ok", SBool, dom, s)
	q := BVar("p", SStr)
	x.axiom(Implies(ok, And(Select(dom, key), strPrefix(s, key))))
	x.axiom(Forall([]*Term{q}, [][]*Term{{Select(dom, q)}}, Implies(And(Select(dom, q), strPrefix(s, q)),
		And(ok, Le(x.strlen(st, q), x.strlen(st, key)), Implies(Eq(x.strlen(st, q), x.strlen(st, key)), Eq(q, key))))))
	return
}

func fnTermName(x *Exec, t *Term) string {
	if t != nil && t.isInt() && t.num.Sign() > 0 && int(t.num.Int64()) < len(x.w.clos) {
		return x.w.clos[t.num.Int64()].fn.String()
	}
	return "?"
}

// cnRel relates a value with what a codec's decoder makes of its encoding.
func cnRel(a, b *Term) *Term { return Fun("cn", SBool, a, b) }

var anyT = types.Universe.Lookup("any").Type()
var anySlice = types.NewSlice(anyT)
var strSlice = types.NewSlice(types.Typ[types.String])
var anyMap = types.NewMap(types.Typ[types.String], anyT)

var numKinds = []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64,
	types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64}

// cnAxioms states the codec relation in the current heap.
func (x *Exec) cnAxioms(st *State) {
	a, b := BVar("a", SAny), BVar("b", SAny)
	// decoded values live in memory that is there from the start and that no one else knows
	s0 := &State{g: True, heap: map[string]*Term{}, env: map[ssa.Value]*Val{}}
	// source memory: what was there from the start is read from the start where nothing has changed it
	src := func(comp string, ref *Term) *Term {
		h, h0 := x.h(st, comp), x.h(s0, comp)
		debugf("cn source %s: %v %s", comp, frameOK(h, h0, nil), clip(h))
		if h != h0 && frameOK(h, h0, nil) {
			return Ite(Lt(ref, x.next0()), Select(h0, ref), Select(h, ref))
		}
		return Select(h, ref)
	}
	p := cnRel(a, b)
	tag := func(t types.Type) *Term { return IntT(int64(tagOf(t))) }
	add := func(vs []*Term, pats [][]*Term, f *Term) { x.axiom(Forall(vs, pats, f)) }
	pat := [][]*Term{{p}}
	vs := []*Term{a, b}
	add(vs, pat, Implies(And(p, Eq(ATag(a), tag(types.Typ[types.String]))), Eq(b, a)))
	add(vs, pat, Implies(And(p, Eq(ATag(a), tag(types.Typ[types.Bool]))), Eq(b, a)))
	lim := IntT(1 << 53)
	var opts []*Term
	for _, k := range numKinds {
		t := types.Typ[k]
		lo, hi, _ := intRange(t)
		opts = append(opts, And(Eq(b, mkIface(t, AI(a))), Le(IntBig(lo), AI(a)), Le(AI(a), IntBig(hi))))
	}
	opts = append(opts, Eq(b, mkIface(types.Typ[types.Float64], MkFlt(IntT(0), rawApp("to_real", "Real", AI(a))))))
	add(vs, pat, Implies(And(p, Eq(ATag(a), tag(types.Typ[types.Uint64])), Le(IntT(0), AI(a)), Le(AI(a), lim)), Or(opts...)))
	// lists
	me := src(regContent(compElem(anyT), anyT), SlArr(ASl(a)))
	mb := Select(x.h(s0, regContent(compElem(anyT), anyT)), SlArr(ASl(b)))
	i := BVar("i", SInt)
	isList := And(p, Eq(ATag(a), tag(anySlice)), Not(Eq(SlArr(ASl(a)), IntT(0))))
	add(vs, pat, Implies(isList, And(Eq(b, mkIface(anySlice, ASl(b))), Not(Eq(SlArr(ASl(b)), IntT(0))),
		Eq(SlLen(ASl(b)), SlLen(ASl(a))), wfSlice(ASl(b), x.next0()))))
	// i is an index of the decoded list's memory
	at := Sub(i, SlOff(ASl(b)))
	ei, ej := Select(me, Add(SlOff(ASl(a)), at)), Select(mb, i)
	add([]*Term{a, b, i}, [][]*Term{{p, ej}}, Implies(And(isList, Le(IntT(0), at), Lt(at, SlLen(ASl(a)))), cnRel(ei, ej)))
	ms := src(regContent(compElem(types.Typ[types.String]), types.Typ[types.String]), SlArr(ASl(a)))
	isStrs := And(p, Eq(ATag(a), tag(strSlice)), Not(Eq(SlArr(ASl(a)), IntT(0))))
	add(vs, pat, Implies(isStrs, And(Eq(b, mkIface(anySlice, ASl(b))), Not(Eq(SlArr(ASl(b)), IntT(0))),
		Eq(SlLen(ASl(b)), SlLen(ASl(a))), wfSlice(ASl(b), x.next0()))))
	add([]*Term{a, b, i}, [][]*Term{{p, ej}}, Implies(And(isStrs, Le(IntT(0), at), Lt(at, SlLen(ASl(a)))),
		Eq(ej, mkIface(types.Typ[types.String], Select(ms, Add(SlOff(ASl(a)), at))))))
	// maps
	d, v, _, _ := x.mapComps(anyMap)
	da, db := src(d, AI(a)), Select(x.h(s0, d), AI(b))
	va, vb := src(v, AI(a)), Select(x.h(s0, v), AI(b))
	k := BVar("k", SStr)
	isMap := And(p, Eq(ATag(a), tag(anyMap)), Not(Eq(AI(a), IntT(0))))
	add(vs, pat, Implies(isMap, And(Eq(b, mkIface(anyMap, AI(b))), Not(Eq(AI(b), IntT(0))), Lt(AI(b), x.next0()))))
	add([]*Term{a, b, k}, [][]*Term{{p, Select(db, k)}, {p, Select(vb, k)}}, Implies(isMap, And(Eq(Select(db, k), Select(da, k)),
		Implies(Select(da, k), cnRel(Select(va, k), Select(vb, k))))))
	// absent lists and maps come back as nothing
	add(vs, pat, Implies(And(p, Or(And(Eq(ATag(a), tag(anySlice)), Eq(SlArr(ASl(a)), IntT(0))), And(Eq(ATag(a), tag(strSlice)), Eq(SlArr(ASl(a)), IntT(0))), And(Eq(ATag(a), tag(anyMap)), Eq(AI(a), IntT(0))))), Eq(b, NilAny())))
}

// wire gives the list a decoder yields for an encoded list.
func (x *Exec) wire(st *State, src *Term) *Term {
	r := Fresh("wire", SSlice)
	x.fact(st, wfSlice(r, x.next0()))
	x.fact(st, Eq(SlLen(r), SlLen(src)))
	x.fact(st, Not(Eq(SlArr(r), IntT(0))))
	h := x.h(st, regContent(compElem(anyT), anyT))
	// the decoded elements, in memory no one else knows
	ms, mr := Select(h, SlArr(src)), Select(x.h(&State{g: True, heap: map[string]*Term{}}, regContent(compElem(anyT), anyT)), SlArr(r))
	n := int64(8)
	if l := SlLen(src); l.isInt() && l.num.IsInt64() && l.num.Int64() < n {
		n = l.num.Int64()
	}
	for i := int64(0); i < n; i++ {
		x.fact(st, Implies(Lt(IntT(i), SlLen(src)), cnRel(Select(ms, Add(SlOff(src), IntT(i))), Select(mr, Add(SlOff(r), IntT(i))))))
	}
	x.fact(st, Le(SlLen(src), IntT(8)))
	x.cnAxioms(st)
	return r
}

func marshalH(codec string) handler {
	return func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
		v := args[0].t
		s := freshStr("enc_" + codec)
		ok := Fresh("marshal_ok", SBool)
		if x.marshalOK {
			ok = True
		}
		x.fact(st, Implies(ok, Gt(x.strlen(st, s), IntT(0))))
		x.fact(st, Implies(ok, Eq(Fun("encoded_"+codec, SAny, s), v)))
		x.fact(st, Implies(ok, Fun("isenc_"+codec, SBool, s)))
		x.fact(st, Implies(ok, Eq(Fun("encoded_list_"+codec, SArr(SInt, SAny), s), Select(x.h(st, regContent(compElem(anyT), anyT)), SlArr(ASl(v))))))
		if x.encoded == nil {
			x.encoded = map[*Term]*Term{}
		}
		x.encoded[s] = v
		b := x.newBytes(st, s)
		if codec == "msgpack" {
			// what the encoder writes is one complete value (application data nested 9999 deep or more is left out)
			x.fact(st, Implies(ok, Ge(Fun("mp_end", SInt, Fun("strbytes", SArr(SInt, SInt), s), x.strlen(st, s), IntT(0), IntT(1), IntT(9999)), IntT(0))))
		}
		return tup(Ite(ok, b, NilSlice()), x.errUnless(st, ok)), st
	}
}

func (x *Exec) unmarshalInto(st *State, codec string, data, target *Term) (*Val, *State) {
	ok := Fresh("unmarshal_ok", SBool)
	pt := types.NewPointer(anySlice)
	tag := int64(tagOf(pt))
	if !(ATag(target).isInt() && ATag(target).num.Int64() == tag) {
		x.unsupported(st, codec+" decoding into something other than *[]any")
		return T(x.errUnless(st, ok)), st
	}
	ref := AI(target)
	s := x.bytesStr(st, data)
	comp := regContent(compCell(anySlice), anySlice)
	r := Fresh("decoded", SSlice)
	if x.decoded == nil {
		x.decoded = map[string]bool{}
	}
	if k := codec + strconv.Itoa(s.id); !x.decoded[k] {
		// what decoding these bytes yields is a function of the bytes; its memory belongs to this decoding alone
		x.decoded[k] = true
		ok, r = Fun("decodes_"+codec, SBool, s), Fun("decoded_"+codec, SSlice, s)
	}
	x.fact(st, wfSlice(r, x.next0()))
	// a known encoding decodes to what was encoded
	ls, cs := leaves(s)
	for li, l := range ls {
		v, known := x.encoded[l]
		if !known {
			continue
		}
		n := *st
		n.g = And(st.g, Eq(s, l))
		if l == s {
			n.g = st.g
		}
		if n.g == False {
			continue
		}
		x.fact(&n, Implies(Fun("isenc_"+codec, SBool, l), And(ok, Eq(SlLen(r), SlLen(ASl(v))))))
		h := x.h(st, regContent(compElem(anyT), anyT))
		x.fact(&n, Implies(Fun("isenc_"+codec, SBool, l), Not(Eq(SlArr(r), IntT(0)))))
		src := ASl(v)
		content := Subst(Select(h, SlArr(src)), assume(cs[li], true))
		for i := int64(0); i < 4; i++ {
			x.fact(&n, Implies(And(cs[li], Fun("isenc_"+codec, SBool, l), Lt(IntT(i), SlLen(src))),
				cnRel(Select(content, Add(SlOff(src), IntT(i))), Select(Select(x.h(&State{g: True, heap: map[string]*Term{}}, regContent(compElem(anyT), anyT)), SlArr(r)), Add(SlOff(r), IntT(i))))))
		}
		x.cnAxioms(st)
	}
	h := x.h(st, comp)
	part := Fresh("partial", SSlice)
	x.fact(st, wfSlice(part, x.next0()))
	st.heap[comp] = Store(h, ref, Ite(ok, r, part))
	return T(x.errUnless(st, ok)), st
}

// wfMsg: the message is one of the 24 types, with its fields present.
func (x *Exec) wfMsg(st *State, m *Term) *Term {
	var opts, cs []*Term
	for _, mt := range x.w.msgTypes() {
		is := Eq(ATag(m), IntT(int64(tagOf(mt.ptr))))
		opts = append(opts, is)
		cs = append(cs, Implies(is, x.wfMsgPtr(st, mt, AI(m))))
	}
	return And(append([]*Term{Or(opts...)}, cs...)...)
}

func (x *Exec) wfMsgPtr(st *State, mt *msgType, ref *Term) *Term {
	comp, ft := compField(mt.elem, 0)
	f := Select(x.h(st, regContent(comp, ft)), ref)
	return And(Not(Eq(ref, IntT(0))), Not(Eq(ATag(f), IntT(0))))
}

type msgType struct {
	name string
	ptr  types.Type
	elem types.Type
	code *big.Int
}

// msgTypes lists the message types of package messages: the types with a Type method and a Parse method.
func (w *World) msgTypes() []*msgType {
	if w.mtypes != nil {
		return w.mtypes
	}
	p := w.tpkgs["messages"]
	iface, _ := p.Scope().Lookup("Message").Type().Underlying().(*types.Interface)
	for _, n := range p.Scope().Names() {
		tn, ok := p.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok || s.NumFields() != 1 || !types.Implements(types.NewPointer(tn.Type()), iface) {
			continue
		}
		mt := &msgType{name: n, ptr: types.NewPointer(tn.Type()), elem: tn.Type()}
		w.mtypes = append(w.mtypes, mt)
	}
	return w.mtypes
}

func seqElem(x *Exec, st *State, sl *Term, t types.Type, i *Term) *Term {
	el := t.Underlying().(*types.Slice).Elem()
	return Select(Select(x.h(st, regContent(compElem(el), el)), SlArr(sl)), Add(SlOff(sl), i))
}

func init() {
	errH := func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) { return T(x.newErr(st)), st }
	strH := func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) { return T(freshStr("str")), st }
	intn := func(lo int64) handler {
		return func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			n := args[len(args)-1].t
			x.check(st, "pre", "random bound is positive", Gt(n, IntT(0)))
			if strings.HasPrefix(extName(fn), "x/exp/rand") {
				x.oblige(st, "post", "the random source is seeded from the clock", []string{"I01"}, BoolT(x.w.seededFromClock()))
			}
			r := Fresh("rnd", SInt)
			x.fact(st, And(Le(IntT(0), r), Lt(r, n)))
			return T(r), st
		}
	}
	anyRand := func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
		if strings.HasPrefix(extName(fn), "x/exp/rand") {
			x.oblige(st, "post", "the random source is seeded from the clock", []string{"I01"}, BoolT(x.w.seededFromClock()))
		}
		return x.havocResult(st, fn.Signature), st
	}
	contains := func(index bool) handler {
		return func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			t := fn.Signature.Params().At(0).Type()
			s, v := args[0].t, args[1].t
			c, w := Fresh("contains", SBool), Fresh("idx", SInt)
			i := BVar("i", SInt)
			eq := func(a *Term) *Term {
				if a.sort == SFlt {
					return fltEq(a, v)
				}
				return Eq(a, v)
			}
			x.fact(st, Implies(c, And(Le(IntT(0), w), Lt(w, SlLen(s)), eq(seqElem(x, st, s, t, w)))))
			lim := SlLen(s)
			at := Sub(i, SlOff(s))
			e := seqElem(x, st, s, t, at)
			x.fact(st, Forall([]*Term{i}, [][]*Term{{e}}, Implies(And(Le(IntT(0), at), Lt(at, Ite(c, w, lim))), Not(eq(e)))))
			if index {
				return T(Ite(c, w, IntT(-1))), st
			}
			return T(c), st
		}
	}
	hexEnc := func(x *Exec, st *State, b *Term) *Term {
		h := strFun("hex_enc", b)
		x.axiom(And(Fun("hex_ok", SBool, h), Eq(strFun("hex_dec", h), b), Eq(x.strlen(st, h), Mul(IntT(2), x.strlen(st, b)))))
		return h
	}
	eqBytes := func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
		return T(Eq(x.str(st, args[0]), x.str(st, args[1]))), st
	}
	lock := func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
		return none(), x.lockOp(st, args[0].t)
	}
	unlock := func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
		return none(), x.unlockOp(st, args[0].t)
	}
	extHandlers = map[string]handler{
		"fmt.Errorf": errH, "errors.New": errH,
		"fmt.Sprintf": strH, "fmt.Sprint": strH, "fmt.Sprintln": strH, "strings.Join": strH,
		"(time.Time).Format": strH,
		"errors.Join": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			s := args[0].t
			i := BVar("i", SInt)
			e := seqElem(x, st, s, fn.Signature.Params().At(0).Type(), i)
			null := Fresh("joinnil", SBool)
			w := Fresh("idx", SInt)
			x.fact(st, Implies(null, Forall([]*Term{i}, [][]*Term{{e}}, Implies(And(Le(IntT(0), i), Lt(i, SlLen(s))), Eq(ATag(e), IntT(0))))))
			x.fact(st, Implies(Not(null), And(Le(IntT(0), w), Lt(w, SlLen(s)), Not(Eq(ATag(seqElem(x, st, s, fn.Signature.Params().At(0).Type(), w)), IntT(0))))))
			for k := int64(0); k < 8; k++ {
				ek := seqElem(x, st, s, fn.Signature.Params().At(0).Type(), IntT(k))
				x.fact(st, Implies(And(null, Lt(IntT(k), SlLen(s))), Eq(ATag(ek), IntT(0))))
			}
			return T(x.errUnless(st, null)), st
		},
		"(*sync.Mutex).Lock": lock, "(*sync.Mutex).Unlock": unlock,
		"(*sync.RWMutex).Lock": lock, "(*sync.RWMutex).Unlock": unlock,
		"(*sync.RWMutex).RLock": lock, "(*sync.RWMutex).RUnlock": unlock,

		"(*sync.Map).Load": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			d, v := smComps()
			ok := Select(Select(x.h(st, d), args[0].t), args[1].t)
			val := Select(Select(x.h(st, v), args[0].t), args[1].t)
			x.fact(st, wfAny(val, st.next))
			return tup(Ite(ok, val, NilAny()), ok), st
		},
		"(*sync.Map).LoadAndDelete": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			d, v := smComps()
			dom := Select(x.h(st, d), args[0].t)
			ok := Select(dom, args[1].t)
			val := Select(Select(x.h(st, v), args[0].t), args[1].t)
			x.fact(st, wfAny(val, st.next))
			st.heap[d] = Store(x.h(st, d), args[0].t, Store(dom, args[1].t, False))
			return tup(Ite(ok, val, NilAny()), ok), st
		},
		"(*sync.Map).LoadOrStore": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			d, v := smComps()
			dom, vals := Select(x.h(st, d), args[0].t), Select(x.h(st, v), args[0].t)
			ok := Select(dom, args[1].t)
			val := Ite(ok, Select(vals, args[1].t), args[2].t)
			st.heap[d] = Store(x.h(st, d), args[0].t, Store(dom, args[1].t, True))
			st.heap[v] = Store(x.h(st, v), args[0].t, Store(vals, args[1].t, val))
			return tup(val, ok), st
		},
		"(*sync.Map).Store": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			d, v := smComps()
			st.heap[d] = Store(x.h(st, d), args[0].t, Store(Select(x.h(st, d), args[0].t), args[1].t, True))
			st.heap[v] = Store(x.h(st, v), args[0].t, Store(Select(x.h(st, v), args[0].t), args[1].t, args[2].t))
			return none(), st
		},
		"(*sync.Map).Delete": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			d, _ := smComps()
			st.heap[d] = Store(x.h(st, d), args[0].t, Store(Select(x.h(st, d), args[0].t), args[1].t, False))
			return none(), st
		},

		"iradix.New": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			d, _ := treeComps()
			r := x.alloc(st)
			_, ds := arrParts(x.compSort(d))
			st.heap[d] = Store(x.h(st, d), r, ConstArr(ds, False))
			return T(r), st
		},
		"(*iradix.Tree[T]).Insert": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			d, v := treeComps()
			x.nonnil(st, args[0].t, "nil radix tree")
			k := x.str(st, args[1])
			dom, vals := Select(x.h(st, d), args[0].t), Select(x.h(st, v), args[0].t)
			r := x.alloc(st)
			nd := Store(dom, k, True)
			x.cardStep(st, dom, nd, k, true)
			st.heap[d] = Store(x.h(st, d), r, nd)
			st.heap[v] = Store(x.h(st, v), r, Store(vals, k, args[2].t))
			return tup(r, Ite(Select(dom, k), Select(vals, k), IntT(0)), Select(dom, k)), st
		},
		"(*iradix.Tree[T]).Delete": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			d, v := treeComps()
			x.nonnil(st, args[0].t, "nil radix tree")
			k := x.str(st, args[1])
			dom, vals := Select(x.h(st, d), args[0].t), Select(x.h(st, v), args[0].t)
			r := x.alloc(st)
			nd := Store(dom, k, False)
			x.cardStep(st, dom, nd, k, false)
			st.heap[d] = Store(x.h(st, d), r, nd)
			st.heap[v] = Store(x.h(st, v), r, vals)
			return tup(r, Ite(Select(dom, k), Select(vals, k), IntT(0)), Select(dom, k)), st
		},
		"(*iradix.Tree[T]).Len": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			d, _ := treeComps()
			x.nonnil(st, args[0].t, "nil radix tree")
			dom := Select(x.h(st, d), args[0].t)
			x.cardFacts(st, dom)
			return T(cardFun(dom)), st
		},
		"(*iradix.Tree[T]).Root": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			x.nonnil(st, args[0].t, "nil radix tree")
			return T(args[0].t), st
		},
		"(*iradix.Node[T]).LongestPrefix": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			d, v := treeComps()
			dom, vals := Select(x.h(st, d), args[0].t), Select(x.h(st, v), args[0].t)
			key, ok := x.lpm(st, dom, x.str(st, args[1]))
			val := Select(vals, key)
			x.fact(st, Lt(val, st.next))
			return tup(Ite(ok, x.newBytes(st, key), NilSlice()), Ite(ok, val, IntT(0)), ok), st
		},
		"(*iradix.Node[T]).Get": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			d, v := treeComps()
			k := x.str(st, args[1])
			dom, vals := Select(x.h(st, d), args[0].t), Select(x.h(st, v), args[0].t)
			return tup(Ite(Select(dom, k), Select(vals, k), IntT(0)), Select(dom, k)), st
		},
		"(*iradix.Tree[T]).Get": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			d, v := treeComps()
			k := x.str(st, args[1])
			dom, vals := Select(x.h(st, d), args[0].t), Select(x.h(st, v), args[0].t)
			return tup(Ite(Select(dom, k), Select(vals, k), IntT(0)), Select(dom, k)), st
		},
		"path.Match": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			ok := Fun("path_ok", SBool, args[0].t, args[1].t)
			m := Fun("path_match", SBool, args[0].t, args[1].t)
			return tup(And(ok, m), x.errUnless(st, ok)), st
		},
		"math/rand.Intn": intn(0), "math/rand.Int63n": intn(0), "math/rand.Int31n": intn(0),
		"math/rand/v2.IntN": intn(0), "math/rand/v2.Int64N": intn(0), "math/rand/v2.Uint64N": intn(0),
		"x/exp/rand.Int63n": intn(0), "x/exp/rand.Intn": intn(0), "x/exp/rand.Uint64n": intn(0),
		"x/exp/rand.Int63": anyRand, "x/exp/rand.Uint64": anyRand,
		"x/exp/rand.Seed": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			if x.initing {
				x.w.seed = args[0].t
			}
			return none(), st
		},
		"time.Now": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			return T(Fresh("time_now", sortOf(fn.Signature.Results().At(0).Type()))), st
		},
		"(time.Time).UnixNano": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			r := Fun("unixnano", SInt, args[0].t)
			x.fact(st, wf(types.Typ[types.Int64], r, st.next))
			return T(r), st
		},
		"encoding/hex.EncodeToString": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			return T(hexEnc(x, st, x.str(st, args[0]))), st
		},
		"encoding/hex.DecodeString": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			ok, r := hexDec(x, st, args[0].t)
			return tup(x.newBytes(st, r), x.errUnless(st, ok)), st
		},
		"(*encoding/base64.Encoding).EncodeToString": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			b := x.str(st, args[1])
			h := strFun("b64_enc", b)
			x.axiom(And(Fun("b64_ok", SBool, h), Eq(strFun("b64_dec", h), b)))
			return T(h), st
		},
		"(*encoding/base64.Encoding).DecodeString": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			s := args[1].t
			ok := Fun("b64_ok", SBool, s)
			return tup(x.newBytes(st, strFun("b64_dec", s)), x.errUnless(st, ok)), st
		},
		"crypto/hmac.New": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			if n := fnTermName(x, args[0].t); n != "crypto/sha256.New" {
				x.unsupported(st, "HMAC with "+n)
			}
			r := x.alloc(st)
			k := ghostComp("hkey", SArr(SInt, SStr))
			d := ghostComp("hdata", SArr(SInt, SStr))
			st.heap[k] = Store(x.h(st, k), r, x.str(st, args[1]))
			st.heap[d] = Store(x.h(st, d), r, StrT(""))
			return T(MkAny(IntT(int64(namedTag("hmac-sha256"))), r, StrT(""), FltZero(), NilSlice())), st
		},
		"crypto/hmac.Equal": eqBytes, "bytes.Equal": eqBytes,
		"crypto/subtle.ConstantTimeCompare": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			return T(boolInt(Eq(x.str(st, args[0]), x.str(st, args[1])))), st
		},
		"bytes.HasSuffix": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			return T(hasSuffixT(x, st, x.str(st, args[0]), x.str(st, args[1]))), st
		},
		"strings.HasSuffix": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			return T(hasSuffixT(x, st, args[0].t, args[1].t)), st
		},
		"strings.HasPrefix": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			return T(strPrefix(args[0].t, args[1].t)), st
		},
		"x/crypto/pbkdf2.Key": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			if n := fnTermName(x, args[4].t); n != "crypto/sha256.New" {
				x.unsupported(st, "PBKDF2 with "+n)
			}
			x.check(st, "pre", "PBKDF2 key length is not negative", Ge(args[3].t, IntT(0)))
			x.check(st, "pre", "PBKDF2 key length is small enough to be allocated", Le(args[3].t, IntT(1<<30)))
			r := strFun("pbkdf2", x.str(st, args[0]), x.str(st, args[1]), args[2].t, args[3].t)
			x.fact(st, Eq(x.strlen(st, r), args[3].t))
			return T(x.newBytes(st, r)), st
		},
		"crypto/ed25519.NewKeyFromSeed": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			x.check(st, "pre", "ed25519 seed is 32 bytes long", Eq(SlLen(args[0].t), IntT(32)))
			return T(x.fixedBytes(st, strFun("ed_key", x.str(st, args[0])), 64)), st
		},
		"(crypto/ed25519.PrivateKey).Public": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			x.check(st, "pre", "ed25519 private key is 64 bytes long", Eq(SlLen(args[0].t), IntT(64)))
			b := x.fixedBytes(st, strFun("ed_pub", x.str(st, args[0])), 32)
			return T(mkIface(x.w.namedType("crypto/ed25519", "PublicKey"), b)), st
		},
		"crypto/ed25519.Sign": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			x.check(st, "pre", "ed25519 private key is 64 bytes long", Eq(SlLen(args[0].t), IntT(64)))
			k, m := x.str(st, args[0]), x.str(st, args[1])
			s := strFun("ed_sign", k, m)
			return T(x.fixedBytes(st, s, 64)), st
		},
		"x/crypto/nacl/sign.Open": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			sm := x.str(st, args[1])
			x.nonnil(st, args[2].t, "nil public key")
			pk := x.bstr(st, Select(x.h(st, byteComp()), args[2].t), IntT(0), IntT(32))
			ok := Fun("nacl_open", SBool, pk, sm)
			x.edFacts(st, pk, sm)
			b := x.newBytes(st, freshStr("opened"))
			return tup(Ite(ok, b, NilSlice()), ok), st
		},
		"crypto/ed25519.Verify": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			x.check(st, "pre", "ed25519 public key is 32 bytes long", Eq(SlLen(args[0].t), IntT(32)))
			pk := x.str(st, args[0])
			sm := x.strcat(st, x.str(st, args[2]), x.str(st, args[1]))
			x.edFacts(st, pk, sm)
			return T(And(Eq(x.strlen(st, x.str(st, args[2])), IntT(64)), Fun("nacl_open", SBool, pk, sm))), st
		},
		"crypto/rand.Read": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			s := args[0].t
			r := freshStr("random")
			ok := Fresh("rand_ok", SBool)
			x.fact(st, Eq(x.strlen(st, r), SlLen(s)))
			x.fact(st, Implies(ok, Fun("is_random", SBool, r)))
			h := x.h(st, byteComp())
			base := Select(h, SlArr(s))
			src := Fun("strbytes", SArr(SInt, SInt), r)
			if SlOff(s) == IntT(0) {
				st.heap[byteComp()] = Store(h, SlArr(s), src)
			} else {
				st.heap[byteComp()] = Store(h, SlArr(s), x.arrcopy(base, SlOff(s), src, IntT(0), SlLen(s)))
			}
			return tup(SlLen(s), x.errUnless(st, ok)), st
		},
		"encoding/json.Marshal": marshalH("json"), "github.com/fxamacker/cbor/v2.Marshal": marshalH("cbor"),
		"github.com/vmihailenco/msgpack/v5.Marshal": marshalH("msgpack"),
		"encoding/json.Unmarshal": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			return x.unmarshalInto(st, "json", args[0].t, args[1].t)
		},
		"github.com/vmihailenco/msgpack/v5.Unmarshal": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			return x.unmarshalInto(st, "msgpack", args[0].t, args[1].t)
		},
		"(github.com/fxamacker/cbor/v2.DecOptions).DecMode": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			r := x.alloc(st)
			return tup(MkAny(IntT(int64(namedTag("cbor.decMode"))), r, StrT(""), FltZero(), NilSlice()), NilAny()), st
		},
		"x/exp/slices.Contains": contains(false), "slices.Contains": contains(false),
		"x/exp/slices.Index": contains(true), "slices.Index": contains(true),
		"math.Log2": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			v := args[0].t
			r := Fun("log2", SFlt, v)
			if v.is("mkFlt") && v.args[1].is("ite") && v.args[1].args[1].is("to_real") {
				n, exact := v.args[1].args[1].args[0], v.args[1].args[0]
				for k := int64(0); k <= 24; k++ {
					lo, hi := IntT(1<<k), IntT(1<<(k+1))
					kk, k1 := ratT(new(big.Rat).SetInt64(k)), ratT(new(big.Rat).SetInt64(k+1))
					x.fact(st, Implies(And(exact, Eq(n, lo)), Eq(r, MkFlt(IntT(0), kk))))
					x.fact(st, Implies(And(exact, Lt(lo, n), Lt(n, hi)),
						And(Eq(FCls(r), IntT(0)), rawApp("<=", SBool, kk, FVal(r)), rawApp("<", SBool, FVal(r), k1), Eq(rawApp("to_int", SInt, FVal(r)), IntT(k)))))
				}
				return T(r), st
			}
			for k := int64(0); k <= 24; k++ {
				lo := ratT(new(big.Rat).SetInt64(1 << k))
				hi := ratT(new(big.Rat).SetInt64(1 << (k + 1)))
				kk, k1 := ratT(new(big.Rat).SetInt64(k)), ratT(new(big.Rat).SetInt64(k+1))
				fin := Eq(FCls(v), IntT(0))
				isInt := Eq(rawApp("to_real", "Real", rawApp("to_int", SInt, FVal(v))), FVal(v))
				x.fact(st, Implies(And(fin, Eq(FVal(v), lo)), Eq(r, MkFlt(IntT(0), kk))))
				x.fact(st, Implies(And(fin, isInt, rawApp("<", SBool, lo, FVal(v)), rawApp("<", SBool, FVal(v), hi)),
					And(Eq(FCls(r), IntT(0)), rawApp("<=", SBool, kk, FVal(r)), rawApp("<", SBool, FVal(r), k1))))
			}
			return T(r), st
		},
		"math/bits.OnesCount": popcount, "math/bits.OnesCount64": popcount, "math/bits.OnesCount32": popcount,
		"math/bits.TrailingZeros": tz, "math/bits.TrailingZeros64": tz, "math/bits.TrailingZeros32": tz,
		"math/bits.Len": bitlen, "math/bits.Len64": bitlen, "math/bits.Len32": bitlen,
		"encoding/binary.(bigEndian).Uint32": nil,
		"reflect.ValueOf": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			return T(Fun("rvalue", sortOf(fn.Signature.Results().At(0).Type()), args[0].t)), st
		},
		"(reflect.Value).Uint": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			v := args[0].t
			if !v.is("rvalue") {
				x.unsupported(st, "reflect")
				return x.havocResult(st, fn.Signature), st
			}
			a := v.args[0]
			var opts []*Term
			for _, k := range []types.BasicKind{types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64} {
				opts = append(opts, Eq(ATag(a), IntT(int64(tagOf(types.Typ[k])))))
				x.payloadFacts(st, a, types.Typ[k], opts[len(opts)-1])
			}
			x.check(st, "pre", "reflect: value of an unsigned kind", Or(opts...))
			r := AI(a)
			x.fact(st, wf(types.Typ[types.Uint64], r, st.next))
			return T(r), st
		},
		"fmt.Printf": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			return tup(Fresh("n", SInt), NilAny()), st
		},
	}
	delete(extHandlers, "encoding/binary.(bigEndian).Uint32")
	sliceDelete := func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
		t := fn.Signature.Params().At(0).Type()
		el := t.Underlying().(*types.Slice).Elem()
		s, i, j := args[0].t, args[1].t, args[2].t
		x.check(st, "bounds", "slices.Delete bounds", And(Le(IntT(0), i), Le(i, j), Le(j, SlLen(s))))
		c := regContent(compElem(el), el)
		x.access(st, c, SlArr(s), true)
		h := x.h(st, c)
		old := Select(h, SlArr(s))
		k := Sub(j, i)
		mv := x.arrcopy(old, Add(SlOff(s), i), old, Add(SlOff(s), j), Sub(SlLen(s), j))
		mv = x.arrcopy(mv, Add(SlOff(s), Sub(SlLen(s), k)), ConstArr(old.sort, zeroOf(el)), IntT(0), k)
		st.heap[c] = Store(h, SlArr(s), Ite(Eq(k, IntT(0)), old, mv))
		return T(MkSlice(SlArr(s), SlOff(s), Sub(SlLen(s), k), SlCap(s))), st
	}
	extHandlers["slices.Delete"], extHandlers["x/exp/slices.Delete"] = sliceDelete, sliceDelete
	clone := func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
		t := fn.Signature.Params().At(0).Type()
		el := t.Underlying().(*types.Slice).Elem()
		s := args[0].t
		c := regContent(compElem(el), el)
		h := x.h(st, c)
		r := x.alloc(st)
		cp := Fresh("cap", SInt)
		x.fact(st, And(Ge(cp, SlLen(s)), Le(cp, maxLen)))
		_, as := arrParts(h.sort)
		st.heap[c] = Store(h, r, x.arrcopy(ConstArr(as, zeroOf(el)), IntT(0), Select(h, SlArr(s)), SlOff(s), SlLen(s)))
		return T(Ite(Eq(SlArr(s), IntT(0)), NilSlice(), MkSlice(r, IntT(0), SlLen(s), cp))), st
	}
	extHandlers["slices.Clone"], extHandlers["x/exp/slices.Clone"] = clone, clone

	moduleHandlers = map[string]handler{
		"messages.vhWire": func(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
			return T(x.wire(st, args[0].t)), st
		},
	}
	ifaceHandlers = map[string]ifaceHandler{
		"error.Error": func(x *Exec, st *State, recv *Term, args []*Val) (*Val, *State) {
			return T(strFun("err_str", recv)), st
		},
		"*.Type": func(x *Exec, st *State, recv *Term, args []*Val) (*Val, *State) {
			var opts []*Term
			mts := x.w.msgTypes()
			r := IntT(0)
			for i := len(mts) - 1; i >= 0; i-- {
				is := Eq(ATag(recv), IntT(int64(tagOf(mts[i].ptr))))
				opts = append(opts, is)
				r = Ite(is, x.w.msgCode(mts[i]), r)
			}
			if x.quiet == 0 {
				x.check(st, "pre", "message is of one of the message types", Or(opts...))
			}
			return T(r), st
		},
		"messages.Message.Marshal": func(x *Exec, st *State, recv *Term, args []*Val) (*Val, *State) {
			r := x.freshSlice(st, anySlice)
			h := x.h(st, marshalledComp())
			st.heap[marshalledComp()] = Store(Store(h, IntT(0), recv), IntT(1), mkIface(anySlice, r))
			x.fact(st, Eq(marshalledList(r), Select(x.h(st, regContent(compElem(anyT), anyT)), SlArr(r))))
			return T(r), st
		},
		"serializers.Serializer.Serialize": func(x *Exec, st *State, recv *Term, args []*Val) (*Val, *State) {
			ok := Fun("serialize_ok", SBool, recv, args[0].t)
			s := strFun("serialized", recv, args[0].t)
			st.heap[sentComp()] = Store(x.h(st, sentComp()), IntT(0), args[0].t)
			return tup(Ite(ok, x.newBytes(st, s), x.freshSlice(st, strSlice)), x.errUnless(st, ok)), st
		},
		"serializers.Serializer.Deserialize": func(x *Exec, st *State, recv *Term, args []*Val) (*Val, *State) {
			s := x.str(st, args[0])
			ok := Fun("deserialize_ok", SBool, recv, s)
			m := Fun("deserialized", SAny, recv, s)
			x.fact(st, Implies(ok, x.wfMsg(st, m)))
			x.fact(st, wfAny(m, st.next))
			return tup(Ite(ok, m, NilAny()), x.errUnless(st, ok)), st
		},
		"serializers.Serializer.Static": func(x *Exec, st *State, recv *Term, args []*Val) (*Val, *State) {
			return T(Fun("serializer_static", SBool, recv)), st
		},
		"auth.ServerAuthenticator.Methods": func(x *Exec, st *State, recv *Term, args []*Val) (*Val, *State) {
			r := Fun("auth_methods", SSlice, recv)
			x.axiom(wfSlice(r, x.next0()))
			return T(r), st
		},
		"auth.ServerAuthenticator.Authenticate": func(x *Exec, st *State, recv *Term, args []*Val) (*Val, *State) {
			ok := Fresh("approved", SBool)
			resp := Fresh("response", SAny)
			x.fact(st, wfAny(resp, st.next))
			x.fact(st, Implies(ok, Not(Eq(ATag(resp), IntT(0)))))
			// a CRA response carries its embedded response
			cra := x.w.namedType("auth", "CRAResponse")
			cc, ct := compField(cra, 0)
			isCRA := Eq(ATag(resp), IntT(int64(tagOf(types.NewPointer(cra)))))
			x.fact(st, Implies(And(ok, isCRA), And(Not(Eq(AI(resp), IntT(0))), Lt(AI(resp), x.next0()), Not(Eq(ATag(Select(x.h(st, regContent(cc, ct)), AI(resp))), IntT(0))))))
			// and its key length can be allocated
			kc, kt := compField(cra, 4)
			x.fact(st, Implies(And(ok, isCRA), Le(Select(x.h(st, regContent(kc, kt)), AI(resp)), IntT(1<<30))))
			x.fact(st, Implies(ok, Eq(resp, MkAny(ATag(resp), AI(resp), AS(resp), AF(resp), ASl(resp)))))
			x.fact(st, Implies(ok, x.approval(st, recv, args[0].t, resp)))
			return tup(Ite(ok, resp, Fresh("refused", SAny)), x.errUnless(st, ok)), st
		},
		"auth.ClientAuthenticator.Authenticate": func(x *Exec, st *State, recv *Term, args []*Val) (*Val, *State) {
			ok := Fresh("answered", SBool)
			r := Fresh("authenticate", SInt)
			x.fact(st, Lt(r, x.next0()))
			for _, mt := range x.w.msgTypes() {
				if mt.name == "Authenticate" {
					x.fact(st, Implies(ok, x.wfMsgPtr(st, mt, r)))
				}
			}
			return tup(Ite(ok, r, IntT(0)), x.errUnless(st, ok)), st
		},
		"hash.Hash.Write": func(x *Exec, st *State, recv *Term, args []*Val) (*Val, *State) {
			return hashWrite(x, st, recv, args)
		},
		"hash.Hash.Sum": func(x *Exec, st *State, recv *Term, args []*Val) (*Val, *State) {
			d := ghostComp("hdata", SArr(SInt, SStr))
			k := ghostComp("hkey", SArr(SInt, SStr))
			m := strFun("hmac_sha256", Select(x.h(st, k), AI(recv)), Select(x.h(st, d), AI(recv)))
			x.unsupportedIf(st, Not(Eq(SlLen(args[0].t), IntT(0))), "Sum with a prefix")
			return T(x.fixedBytes(st, m, 32)), st
		},
		"github.com/fxamacker/cbor/v2.DecMode.Unmarshal": func(x *Exec, st *State, recv *Term, args []*Val) (*Val, *State) {
			return x.unmarshalInto(st, "cbor", args[0].t, args[1].t)
		},
	}
	ifaceHandlers["io.Writer.Write"] = hashWrite
}

func hashWrite(x *Exec, st *State, recv *Term, args []*Val) (*Val, *State) {
	d := ghostComp("hdata", SArr(SInt, SStr))
	cur := Select(x.h(st, d), AI(recv))
	st.heap[d] = Store(x.h(st, d), AI(recv), x.strcat(st, cur, x.str(st, args[0])))
	return tup(SlLen(args[0].t), NilAny()), st
}

func popcount(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
	v := args[0].t
	r := Fun("popcount", SInt, v)
	var ps []*Term
	for k := uint(0); k < 64; k++ {
		ps = append(ps, Eq(v, IntBig(new(big.Int).Lsh(big.NewInt(1), k))))
	}
	x.fact(st, And(Le(IntT(0), r), Le(r, IntT(64)), Iff(Eq(r, IntT(1)), Or(ps...)), Iff(Eq(r, IntT(0)), Eq(v, IntT(0)))))
	return T(r), st
}

func tz(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
	v := args[0].t
	r := Fun("trailingzeros", SInt, v)
	x.fact(st, And(Le(IntT(0), r), Le(r, IntT(64))))
	for k := uint(0); k < 64; k++ {
		x.fact(st, Implies(Eq(v, IntBig(new(big.Int).Lsh(big.NewInt(1), k))), Eq(r, IntT(int64(k)))))
	}
	return T(r), st
}

func bitlen(x *Exec, st *State, fn *ssa.Function, args []*Val) (*Val, *State) {
	v := args[0].t
	r := Fun("bitlen", SInt, v)
	x.fact(st, And(Le(IntT(0), r), Le(r, IntT(64))))
	for k := uint(0); k < 64; k++ {
		x.fact(st, Implies(And(Le(IntBig(new(big.Int).Lsh(big.NewInt(1), k)), v), Lt(v, IntBig(new(big.Int).Lsh(big.NewInt(1), k+1)))), Eq(r, IntT(int64(k+1)))))
	}
	return T(r), st
}

// marshalledComp: the message most recently marshalled and the list it gave.
func marshalledComp() string { return ghostComp("marshalled", SArr(SInt, SAny)) }

// marshalledList: the elements of the list when it was made.
func marshalledList(r *Term) *Term { return Fun("marshalled_list", SArr(SInt, SAny), r) }

// encodes: s is the codec's encoding of the list that m marshalled to.
func (x *Exec) encodes(st *State, codec string, s, m *Term) *Term {
	h := x.h(st, marshalledComp())
	v := Fun("encoded_"+codec, SAny, s)
	src, enc := ASl(Select(h, IntT(1))), ASl(v)
	j := BVar("j", SInt)
	ej := Select(Fun("encoded_list_"+codec, SArr(SInt, SAny), s), j)
	return And(Eq(Select(h, IntT(0)), m), Fun("isenc_"+codec, SBool, s), Eq(ATag(v), IntT(int64(tagOf(anySlice)))), Eq(SlLen(enc), SlLen(src)),
		Forall([]*Term{j}, [][]*Term{{ej}}, Implies(And(Le(SlOff(enc), j), Lt(j, Add(SlOff(enc), SlLen(enc)))),
			Eq(ej, Select(marshalledList(src), Add(SlOff(src), Sub(j, SlOff(enc))))))))
}

// sentComp: the message most recently given to a serializer.
func sentComp() string { return ghostComp("sent", SArr(SInt, SAny)) }

// hexDec: whether s is hex text, and the bytes it stands for.
func hexDec(x *Exec, st *State, s *Term) (*Term, *Term) {
	ok, r := Fun("hex_ok", SBool, s), strFun("hex_dec", s)
	x.fact(st, Implies(ok, Eq(Mul(IntT(2), x.strlen(st, r)), x.strlen(st, s))))
	if s.is("ite") {
		hexDec(x, st, s.args[1])
		hexDec(x, st, s.args[2])
	}
	if s.is("str_cat") {
		aok, a := hexDec(x, st, s.args[0])
		bok, b := hexDec(x, st, s.args[1])
		x.axiom(Implies(And(aok, bok), And(ok, Eq(r, x.strcat(st, a, b)))))
	}
	return ok, r
}

// edFacts: a message signed with a key opens under its public key.
func (x *Exec) edFacts(st *State, pk, sm *Term) {
	k, m := BVar("k", SStr), BVar("m", SStr)
	x.axiom(Forall([]*Term{k, m}, [][]*Term{{strFun("str_cat", strFun("ed_sign", k, m), m), strFun("ed_pub", k)}},
		Fun("nacl_open", SBool, strFun("ed_pub", k), strFun("str_cat", strFun("ed_sign", k, m), m))))
}

// approval is the ghost record of what an authenticator approved.
func (x *Exec) approval(st *State, authn, req, resp *Term) *Term {
	get := func(name string, s Sort) *Term {
		rt := x.w.namedType("auth", "Request")
		m, _, _ := types.LookupFieldOrMethod(rt, true, x.w.tpkgs["auth"], name)
		x.quiet++
		defer func() { x.quiet-- }()
		n := st.clone()
		n.g = True
		v, _ := x.invoke(n, req, rt, m.(*types.Func), nil)
		if v == nil || v.t == nil {
			return Fresh("noreq", s)
		}
		return v.t
	}
	cred := StrT("")
	for _, c := range [][2]string{{"TicketRequest", "ticket"}, {"RequestCryptoSign", "publicKey"}} {
		nt := x.w.namedType("auth", c[0])
		if nt == nil {
			continue
		}
		u := nt.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == c[1] {
				comp, ft := compField(nt, i)
				cred = Ite(Eq(ATag(req), IntT(int64(tagOf(types.NewPointer(nt))))), Select(x.h(st, regContent(comp, ft)), AI(req)), cred)
			}
		}
	}
	return Fun("approved", SBool, authn, get("AuthMethod", SStr), get("Realm", SStr), get("AuthID", SStr), get("AuthExtra", SInt), cred, resp)
}

func (w *World) namedType(pkg, name string) types.Type {
	p := w.tpkgs[pkg]
	if p == nil {
		for _, q := range w.tpkgs {
			if q.Path() == pkg {
				p = q
			}
		}
	}
	if p == nil {
		for _, q := range w.prog.AllPackages() {
			if q.Pkg.Path() == pkg {
				p = q.Pkg
			}
		}
	}
	if p == nil {
		return nil
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (w *World) seededFromClock() bool {
	if w.seed == nil {
		return false
	}
	found := false
	symsOf(w.seed, map[int]bool{}, func(t *Term) {
		if t.kind == KSym && (strings.HasPrefix(t.op, "time_now") || strings.HasPrefix(t.op, "random")) {
			found = true
		}
	})
	return found
}
