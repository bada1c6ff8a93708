package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) binop(st *State, in *ssa.BinOp) *Term {
	a, b := x.term(st, in.X), x.term(st, in.Y)
	xt := in.X.Type()
	switch in.Op {
	case token.EQL:
		return x.equal(st, a, b, xt)
	case token.NEQ:
		return Not(x.equal(st, a, b, xt))
	}
	if a.sort == SBool {
		switch in.Op {
		case token.AND, token.LAND:
			return And(a, b)
		case token.OR, token.LOR:
			return Or(a, b)
		}
	}
	if a.sort == SStr {
		switch in.Op {
		case token.ADD:
			return x.strcat(st, a, b)
		case token.LSS:
			return Fun("str_lt", SBool, a, b)
		case token.GTR:
			return Fun("str_lt", SBool, b, a)
		case token.LEQ:
			return Not(Fun("str_lt", SBool, b, a))
		case token.GEQ:
			return Not(Fun("str_lt", SBool, a, b))
		}
	}
	if a.sort == SFlt {
		switch in.Op {
		case token.LSS:
			return fltLt(a, b)
		case token.GTR:
			return fltLt(b, a)
		case token.LEQ:
			return Or(fltLt(a, b), fltEq(a, b))
		case token.GEQ:
			return Or(fltLt(b, a), fltEq(a, b))
		}
		return Fun("flt_"+sanitize(in.Op.String())+fmt.Sprint(int(in.Op)), SFlt, a, b)
	}
	return x.intOp(st, in.Op, a, b, in.Type(), in.Y.Type())
}

func (x *Exec) intOp(st *State, op token.Token, a, b *Term, t, yt types.Type) *Term {
	switch op {
	case token.LSS:
		return Lt(a, b)
	case token.GTR:
		return Gt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GEQ:
		return Ge(a, b)
	case token.ADD:
		return wrap1(Add(a, b), t)
	case token.SUB:
		return wrap1(Sub(a, b), t)
	case token.MUL:
		return wrapMod(Mul(a, b), t)
	case token.QUO, token.REM:
		x.check(st, "div", "division by zero", Not(Eq(b, IntT(0))))
		q := Ite(Ge(a, IntT(0)), Ite(Gt(b, IntT(0)), DivE(a, b), Neg(DivE(a, Neg(b)))),
			Ite(Gt(b, IntT(0)), Neg(DivE(Neg(a), b)), DivE(Neg(a), Neg(b))))
		if op == token.QUO {
			return wrapMod(q, t)
		}
		return Sub(a, Mul(b, q))
	case token.AND:
		if a.isInt() {
			a, b = b, a
		}
		if b.isInt() && b.num.Sign() >= 0 {
			n := new(big.Int).Add(b.num, big.NewInt(1))
			if n.BitLen() > 0 && new(big.Int).And(n, b.num).Sign() == 0 {
				return Mod(a, IntBig(n))
			}
			if a.isInt() && a.num.Sign() >= 0 {
				return IntBig(new(big.Int).And(a.num, b.num))
			}
			// contiguous mask: high part of a low part
			tz := b.num.TrailingZeroBits()
			m := new(big.Int).Add(new(big.Int).Rsh(b.num, tz), big.NewInt(1))
			if new(big.Int).And(m, new(big.Int).Rsh(b.num, tz)).Sign() == 0 {
				lo := IntBig(new(big.Int).Lsh(big.NewInt(1), tz))
				hi := IntBig(new(big.Int).Lsh(m, tz))
				return Sub(Mod(a, hi), Mod(a, lo))
			}
			r := Fun("bitand", SInt, a, b)
			x.fact(st, And(Le(IntT(0), r), Le(r, b)))
			return r
		}
		if b == Sub(a, IntT(1)) || isDec(a, b) {
			return x.clearlow(st, a)
		}
		if a == Sub(b, IntT(1)) || isDec(b, a) {
			return x.clearlow(st, b)
		}
		r := Fun("bitand", SInt, a, b)
		x.fact(st, Implies(And(Le(IntT(0), a), Le(IntT(0), b)), And(Le(IntT(0), r), Le(r, a), Le(r, b))))
		return r
	case token.OR:
		if a.isInt() && b.isInt() && a.num.Sign() >= 0 && b.num.Sign() >= 0 {
			return IntBig(new(big.Int).Or(a.num, b.num))
		}
		if b.isInt() && b.num.Sign() == 0 {
			return a
		}
		if a.isInt() && a.num.Sign() == 0 {
			return b
		}
		r := Fun("bitor", SInt, a, b)
		done := map[uint]bool{}
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			for c := range shlBits(p[0]) {
				if done[c] {
					continue
				}
				done[c] = true
				pw := IntBig(new(big.Int).Lsh(big.NewInt(1), c))
				x.fact(st, Implies(And(Eq(Mod(p[0], pw), IntT(0)), Le(IntT(0), p[1]), Lt(p[1], pw)), Eq(r, Add(p[0], p[1]))))
			}
		}
		x.fact(st, Implies(And(Le(IntT(0), a), Le(IntT(0), b)), And(Ge(r, a), Ge(r, b), Le(r, Add(a, b)))))
		return r
	case token.XOR:
		return Fun("bitxor", SInt, a, b)
	case token.AND_NOT:
		if b.isInt() && b.num.Sign() >= 0 {
			return Sub(a, x.intOp(st, token.AND, a, b, t, yt))
		}
		return Fun("bitandnot", SInt, a, b)
	case token.SHL, token.SHR:
		if !b.isInt() {
			if lo, _, ok := intRange(yt); ok && lo.Sign() < 0 {
				x.check(st, "shift", "negative shift count", Ge(b, IntT(0)))
			}
		}
		if op == token.SHL {
			if b.isInt() && b.num.IsInt64() {
				if b.num.Int64() >= 64 {
					return IntT(0)
				}
				return wrapMod(Mul(a, IntBig(new(big.Int).Lsh(big.NewInt(1), uint(b.num.Int64())))), t)
			}
			return wrapMod(Mul(a, x.pow2(st, b)), t)
		}
		if b.isInt() && b.num.IsInt64() {
			if b.num.Int64() >= 64 {
				return Ite(Ge(a, IntT(0)), IntT(0), IntT(-1))
			}
			return DivE(a, IntBig(new(big.Int).Lsh(big.NewInt(1), uint(b.num.Int64()))))
		}
		return Ite(Lt(b, IntT(64)), DivE(a, x.pow2(st, b)), Ite(Ge(a, IntT(0)), IntT(0), IntT(-1)))
	}
	x.unsupported(st, "operator "+op.String())
	return Fresh("unsup", SInt)
}

// isDec recognises b as the wrapped decrement of a.
func isDec(a, b *Term) bool {
	d := Sub(a, IntT(1))
	if b.is("ite") {
		for _, l := range b.args[1:] {
			if l == d || isDec(a, l) {
				return true
			}
		}
	}
	return false
}

// shlBits gives the shift distances syntactically visible in a term.
func shlBits(t *Term) map[uint]bool {
	out := map[uint]bool{}
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if d > 6 {
			return
		}
		if t.is("*") {
			for _, a := range t.args {
				if a.isInt() && a.num.Sign() > 0 {
					if z := a.num.TrailingZeroBits(); z > 0 {
						out[z] = true
					}
				}
			}
		}
		if t.isInt() && t.num.Sign() > 0 {
			if z := t.num.TrailingZeroBits(); z > 0 {
				out[z] = true
			}
		}
		if t.is("ite") || t.is("+") || t.is("mod") || t.is("bitor") || t.is("-") {
			for _, a := range t.args {
				rec(a, d+1)
			}
		}
	}
	rec(t, 0)
	return out
}

func (x *Exec) clearlow(st *State, a *Term) *Term {
	r := Fun("clearlow", SInt, a)
	var ps []*Term
	for k := uint(0); k < 64; k++ {
		ps = append(ps, Eq(a, IntBig(new(big.Int).Lsh(big.NewInt(1), k))))
	}
	x.axiom(Implies(Gt(a, IntT(0)), And(Le(IntT(0), r), Lt(r, a), Iff(Eq(r, IntT(0)), Or(ps...)))))
	x.axiom(Implies(Eq(a, IntT(0)), Eq(r, IntT(0))))
	return r
}

func (x *Exec) pow2(st *State, b *Term) *Term {
	if b.isInt() && b.num.IsInt64() && b.num.Int64() >= 0 && b.num.Int64() < 64 {
		return IntBig(new(big.Int).Lsh(big.NewInt(1), uint(b.num.Int64())))
	}
	r := IntT(0)
	for k := 63; k >= 0; k-- {
		r = Ite(Eq(b, IntT(int64(k))), IntBig(new(big.Int).Lsh(big.NewInt(1), uint(k))), r)
	}
	return r
}

func (x *Exec) equal(st *State, a, b *Term, t types.Type) *Term {
	switch {
	case a.sort == SSlice:
		// only comparable with nil
		if b == NilSlice() {
			return Eq(SlArr(a), IntT(0))
		}
		if a == NilSlice() {
			return Eq(SlArr(b), IntT(0))
		}
	case a.sort == SFlt:
		return fltEq(a, b)
	case a.sort == SAny:
		if b == NilAny() {
			return Eq(ATag(a), IntT(0))
		}
		if a == NilAny() {
			return Eq(ATag(b), IntT(0))
		}
		if x.quiet == 0 && !staticComparable(a) && !staticComparable(b) {
			x.check(st, "compare", "comparison of comparable dynamic types",
				Or(Not(Eq(ATag(a), ATag(b))), Fun("comparable_tag", SBool, ATag(a))))
		}
	}
	return Eq(a, b)
}

func staticComparable(a *Term) bool {
	if !a.is("mkAny") || !a.args[0].isInt() {
		return false
	}
	n := int(a.args[0].num.Int64())
	if n <= 0 || n >= len(TY.tagType) {
		return n == 0
	}
	return TY.tagType[n] == nil || types.Comparable(TY.tagType[n])
}

// ---- floats: class 0 finite, 1 +Inf, 2 -Inf, 3 NaN ----

func fltLt(a, b *Term) *Term {
	ca, cb := FCls(a), FCls(b)
	return Or(
		And(Eq(ca, IntT(0)), Eq(cb, IntT(0)), rawApp("<", SBool, FVal(a), FVal(b))),
		And(Eq(ca, IntT(2)), Or(Eq(cb, IntT(0)), Eq(cb, IntT(1)))),
		And(Eq(cb, IntT(1)), Or(Eq(ca, IntT(0)), Eq(ca, IntT(2)))))
}

func fltEq(a, b *Term) *Term {
	ca, cb := FCls(a), FCls(b)
	return Or(And(Eq(ca, IntT(0)), Eq(cb, IntT(0)), Eq(FVal(a), FVal(b))),
		And(Eq(ca, cb), Or(Eq(ca, IntT(1)), Eq(ca, IntT(2)))))
}

func fltNeg(a *Term) *Term {
	c := FCls(a)
	return MkFlt(Ite(Eq(c, IntT(1)), IntT(2), Ite(Eq(c, IntT(2)), IntT(1), c)), rawApp("-", "Real", FVal(a)))
}

// truncF is the truncation toward zero of a real.
func truncF(r *Term) *Term {
	return Ite(rawApp(">=", SBool, r, realT("0.0")), rawApp("to_int", SInt, r),
		Neg(rawApp("to_int", SInt, rawApp("-", "Real", r))))
}

func (x *Exec) convert(st *State, v ssa.Value, from, to types.Type) *Term {
	t := x.term(st, v)
	return x.convertT(st, t, from, to)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

var byteType = types.Typ[types.Uint8]

func byteComp() string { return regContent(compElem(byteType), byteType) }

func (x *Exec) convertT(st *State, t *Term, from, to types.Type) *Term {
	fs, ts := sortOf(from), sortOf(to)
	switch {
	case fs == SInt && ts == SInt:
		if _, ok := to.Underlying().(*types.Basic); !ok {
			return t
		}
		return wrapMod(t, to)
	case fs == SInt && ts == SStr:
		return Fun("runestr", SStr, t)
	case fs == SStr && ts == SSlice:
		if isByteSlice(to) {
			return x.newBytes(st, t)
		}
	case fs == SSlice && ts == SStr:
		if isByteSlice(from) {
			return x.bytesStr(st, t)
		}
	case fs == SStr && ts == SStr, fs == SSlice && ts == SSlice:
		return t
	case fs == SInt && ts == SFlt:
		if t.isInt() {
			return MkFlt(IntT(0), ratT(new(big.Rat).SetInt(t.num)))
		}
		lim := int64(1) << 53
		nm := "rnd64"
		if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			lim, nm = 1<<24, "rnd32"
		}
		exact := And(Le(IntT(-lim), t), Le(t, IntT(lim)))
		return MkFlt(IntT(0), Ite(exact, rawApp("to_real", "Real", t), Fun(nm, "Real", t)))
	case fs == SFlt && ts == SInt:
		lo, hi, ok := intRange(to)
		if ok {
			tr := truncF(FVal(t))
			in := And(Eq(FCls(t), IntT(0)), Le(IntBig(lo), tr), Le(tr, IntBig(hi)))
			other := Fun("f2i_"+typeKey(to), SInt, t)
			x.fact(st, And(Le(IntBig(lo), other), Le(other, IntBig(hi))))
			return Ite(in, tr, other)
		}
	case fs == SFlt && ts == SFlt:
		fb, _ := from.Underlying().(*types.Basic)
		tb, _ := to.Underlying().(*types.Basic)
		if fb != nil && tb != nil && tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
			return Fun("round32", SFlt, t)
		}
		return t
	}
	x.unsupported(st, "conversion "+from.String()+" to "+to.String())
	return Fresh("unsup", ts)
}

// ---- strings and byte slices ----

func (x *Exec) strlen(st *State, s *Term) *Term {
	if s.kind == KStr {
		return IntT(int64(len(s.op)))
	}
	l := Fun("strlen", SInt, s)
	if !s.bound {
		x.axiom(And(Le(IntT(0), l), Le(l, maxLen)))
		x.axiom(Iff(Eq(l, IntT(0)), Eq(s, StrT(""))))
	}
	return l
}

func (x *Exec) strcat(st *State, a, b *Term) *Term {
	if a.kind == KStr && b.kind == KStr {
		return StrT(a.op + b.op)
	}
	if a.kind == KStr && a.op == "" {
		return b
	}
	if b.kind == KStr && b.op == "" {
		return a
	}
	r := Fun("str_cat", SStr, a, b)
	x.axiom(Eq(x.strlen(st, r), Add(x.strlen(st, a), x.strlen(st, b))))
	return r
}

func (x *Exec) substr(st *State, s, lo, hi *Term) *Term {
	if lo == IntT(0) && hi == x.strlen(st, s) {
		return s
	}
	if s.is("str_cat") {
		// exact parts
		la := x.strlen(st, s.args[0])
		if lo == IntT(0) && hi == la {
			return s.args[0]
		}
	}
	r := Fun("str_sub", SStr, s, lo, hi)
	x.fact(st, Implies(And(Le(IntT(0), lo), Le(lo, hi), Le(hi, x.strlen(st, s))), Eq(x.strlen(st, r), Sub(hi, lo))))
	if s.is("str_cat") && !r.bound {
		la := x.strlen(st, s.args[0])
		x.axiom(Implies(And(Eq(lo, IntT(0)), Eq(hi, la)), Eq(r, s.args[0])))
		x.axiom(Implies(And(Eq(lo, la), Eq(hi, x.strlen(st, s))), Eq(r, s.args[1])))
	}
	return r
}

// newBytes allocates a byte slice holding the bytes of a string.
func (x *Exec) newBytes(st *State, s *Term) *Term {
	r := x.alloc(st)
	c := byteComp()
	st.heap[c] = Store(x.h(st, c), r, Fun("strbytes", SArr(SInt, SInt), s))
	n := x.strlen(st, s)
	cp := Fresh("cap", SInt)
	x.fact(st, And(Ge(cp, n), Le(cp, maxLen)))
	if s.kind == KStr {
		cp = n
	}
	return MkSlice(r, IntT(0), n, cp)
}

// bytesStr is the string with the bytes of a slice.
func (x *Exec) bytesStr(st *State, s *Term) *Term {
	content := Select(x.h(st, byteComp()), SlArr(s))
	return x.bstr(st, content, SlOff(s), SlLen(s))
}

func (x *Exec) bstr(st *State, content, off, n *Term) *Term {
	if n.isInt() && n.num.Sign() == 0 {
		return StrT("")
	}
	split := func(c *Term) *Term {
		yes, no := assume(c, true), assume(c, false)
		return Ite(c, x.bstr(st, Subst(content, yes), Subst(off, yes), Subst(n, yes)),
			x.bstr(st, Subst(content, no), Subst(off, no), Subst(n, no)))
	}
	if content.is("ite") {
		return split(content.args[0])
	}
	if content.is("select") && content.args[1].is("ite") {
		return split(content.args[1].args[0])
	}
	if n.is("ite") && !content.is("strbytes") {
		return split(n.args[0])
	}
	if content.is("strbytes") && off == IntT(0) && n == x.strlen(st, content.args[0]) {
		return content.args[0]
	}
	r := Fun("bstr", SStr, content, off, n)
	if !r.bound {
		x.axiom(Implies(Le(IntT(0), n), Eq(x.strlen(st, r), n)))
		if content.is("strbytes") {
			x.axiom(Implies(And(Eq(off, IntT(0)), Eq(n, x.strlen(st, content.args[0]))), Eq(r, content.args[0])))
		}
		if content.is("arrcopy_Int") {
			// what was copied reads as it did where it came from
			d, src, so, k := content.args[1], content.args[2], content.args[3], content.args[4]
			x.axiom(Implies(And(Le(d, off), Le(Add(off, n), Add(d, k))), Eq(r, x.bstr(st, src, Add(so, Sub(off, d)), n))))
		}
	}
	return r
}

// assume gives the substitution that a condition's truth value allows.
func assume(c *Term, v bool) map[*Term]*Term {
	m := map[*Term]*Term{}
	var rec func(c *Term, v bool)
	rec = func(c *Term, v bool) {
		switch {
		case c == True || c == False:
			return
		case c.is("not"):
			rec(c.args[0], !v)
			return
		case c.is("and") && v, c.is("or") && !v:
			m[c] = BoolT(v)
			for _, a := range c.args {
				rec(a, v)
			}
			return
		}
		m[c] = BoolT(v)
		if y, lit := eqLit(c); lit != nil && v && y.kind == KSym && y.sort == SInt {
			m[y] = lit
		}
	}
	rec(c, v)
	return m
}

// under simplifies t knowing the value of condition c.
func under(t, c *Term, v bool) *Term {
	if t.is("ite") {
		if t.args[0] == c {
			if v {
				return under(t.args[1], c, v)
			}
			return under(t.args[2], c, v)
		}
	}
	return t
}
