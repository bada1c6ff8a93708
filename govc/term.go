package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT-LIB sort, written out.
type Sort string

const (
	SBool  Sort = "Bool"
	SInt   Sort = "Int"
	SStr   Sort = "Str"
	SFlt   Sort = "Flt"
	SAny   Sort = "Any"
	SSlice Sort = "Slice"
)

func SArr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// arrParts splits an array sort into its index and value sort.
func arrParts(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	str = strings.TrimSuffix(strings.TrimPrefix(str, "(Array "), ")")
	if str[0] == '(' {
		d := 0
		for i, c := range str {
			if c == '(' {
				d++
			} else if c == ')' {
				d--
				if d == 0 {
					return Sort(str[:i+1]), Sort(strings.TrimSpace(str[i+1:]))
				}
			}
		}
	}
	i := strings.IndexByte(str, ' ')
	return Sort(str[:i]), Sort(str[i+1:])
}

type TKind uint8

const (
	KSym  TKind = iota // declared constant
	KInt               // integer literal
	KStr               // string literal
	KBool              // true / false
	KApp               // application
	KVar               // bound variable
	KQuant
	KConstArr
)

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	kind  TKind
	op    string
	args  []*Term
	sort  Sort
	num   *big.Int
	bound bool // contains a bound variable not bound inside
	// quantifiers
	vars []*Term
	pats [][]*Term
	// symbols: facts known syntactically
	old    bool // symbol is an initial heap array or an entry parameter
	serial int  // symbol creation order
}

type TermBank struct {
	tab     map[string]*Term
	n       int
	symbols []*Term // declared symbols in order
	funs    map[string]FunDecl
	funOrd  []string
	strs    map[string]*Term
	strOrd  []*Term
	fresh   int
	qvar    int
}

type FunDecl struct {
	Name string
	Args []Sort
	Ret  Sort
}

var B = newBank()

func newBank() *TermBank {
	return &TermBank{tab: map[string]*Term{}, funs: map[string]FunDecl{}, strs: map[string]*Term{}}
}

func (b *TermBank) mk(key string, f func() *Term) *Term {
	if t, ok := b.tab[key]; ok {
		return t
	}
	t := f()
	b.n++
	t.id = b.n
	b.tab[key] = t
	return t
}

var True, False *Term

func init() {
	True = B.mk("true", func() *Term { return &Term{kind: KBool, op: "true", sort: SBool} })
	False = B.mk("false", func() *Term { return &Term{kind: KBool, op: "false", sort: SBool} })
}

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func IntBig(n *big.Int) *Term {
	return B.mk("i:"+n.String(), func() *Term {
		return &Term{kind: KInt, op: n.String(), sort: SInt, num: new(big.Int).Set(n)}
	})
}
func IntT(n int64) *Term { return IntBig(big.NewInt(n)) }

func StrT(s string) *Term {
	if t, ok := B.strs[s]; ok {
		return t
	}
	t := B.mk("s:"+s, func() *Term {
		return &Term{kind: KStr, op: s, sort: SStr}
	})
	B.strs[s] = t
	B.strOrd = append(B.strOrd, t)
	return t
}

// Sym returns the declared constant of that name.
func Sym(name string, s Sort) *Term {
	return B.mk("y:"+name, func() *Term {
		t := &Term{kind: KSym, op: name, sort: s, serial: len(B.symbols)}
		B.symbols = append(B.symbols, t)
		return t
	})
}

// Fresh returns a new constant.
func Fresh(prefix string, s Sort) *Term {
	B.fresh++
	return Sym(fmt.Sprintf("%s!%d", sanitize(prefix), B.fresh), s)
}

func BVar(name string, s Sort) *Term {
	B.qvar++
	n := fmt.Sprintf("%s?%d", sanitize(name), B.qvar)
	return B.mk("v:"+n, func() *Term { return &Term{kind: KVar, op: n, sort: s, bound: true} })
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.', c == '!', c == '?', c == '@', c == '$', c == '~':
			sb.WriteRune(c)
		case c == '*':
			sb.WriteString("~p")
		case c == '[' || c == ']':
			sb.WriteString("~")
		default:
			sb.WriteString("_")
		}
	}
	return sb.String()
}

func DeclFun(name string, args []Sort, ret Sort) {
	if d, ok := B.funs[name]; ok {
		if d.Ret != ret || len(d.Args) != len(args) {
			panic("redeclared function " + name)
		}
		return
	}
	B.funs[name] = FunDecl{name, args, ret}
	B.funOrd = append(B.funOrd, name)
}

// rawApp builds an application without simplifying.
func rawApp(op string, s Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString("a:")
	sb.WriteString(op)
	sb.WriteByte(':')
	sb.WriteString(string(s))
	bound := false
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
		if a.bound {
			bound = true
		}
	}
	return B.mk(sb.String(), func() *Term {
		return &Term{kind: KApp, op: op, args: args, sort: s, bound: bound}
	})
}

// Fun applies a declared uninterpreted function.
func Fun(name string, ret Sort, args ...*Term) *Term {
	ss := make([]Sort, len(args))
	for i, a := range args {
		ss[i] = a.sort
	}
	DeclFun(name, ss, ret)
	return rawApp(name, ret, args...)
}

func (t *Term) isInt() bool { return t.kind == KInt }

func (t *Term) is(op string) bool { return t.kind == KApp && t.op == op }

func Not(a *Term) *Term {
	if a == True {
		return False
	}
	if a == False {
		return True
	}
	if a.is("not") {
		return a.args[0]
	}
	return rawApp("not", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == True {
			return true
		}
		if a == False {
			return false
		}
		if a.is("and") {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.id] {
			return true
		}
		if seen[Not(a).id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if a.sort != SBool {
			panic("And of non-bool " + a.String())
		}
		if !add(a) {
			return False
		}
	}
	out = litEqSimplify(out)
	if out == nil {
		return False
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return rawApp("and", SBool, out...)
}

// eqLit splits x = literal.
func eqLit(t *Term) (x, lit *Term) {
	if !t.is("=") {
		return nil, nil
	}
	a, b := t.args[0], t.args[1]
	if a.kind == KInt || a.kind == KStr {
		return b, a
	}
	if b.kind == KInt || b.kind == KStr {
		return a, b
	}
	return nil, nil
}

// litEqSimplify drops disequalities implied by an equality with a literal; nil when contradictory.
func litEqSimplify(out []*Term) []*Term {
	var val map[*Term]*Term
	for _, t := range out {
		if x, l := eqLit(t); x != nil {
			if val == nil {
				val = map[*Term]*Term{}
			}
			if o, ok := val[x]; ok && o != l {
				return nil
			}
			val[x] = l
		}
	}
	if val == nil {
		if out == nil {
			return []*Term{}
		}
		return out
	}
	res := []*Term{}
	for _, t := range out {
		if t.is("not") {
			if x, l := eqLit(t.args[0]); x != nil {
				if o, ok := val[x]; ok {
					if o == l {
						return nil
					}
					continue
				}
			}
		}
		res = append(res, t)
	}
	return res
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == False {
			return true
		}
		if a == True {
			return false
		}
		if a.is("or") {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.id] {
			return true
		}
		if seen[Not(a).id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if a.sort != SBool {
			panic("Or of non-bool " + a.String())
		}
		if !add(a) {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	if len(out) == 2 {
		// (g & c) | (g & !c) = g
		if r := factorOr(out[0], out[1]); r != nil {
			return r
		}
	}
	return rawApp("or", SBool, out...)
}

func conj(a *Term) []*Term {
	if a.is("and") {
		return a.args
	}
	return []*Term{a}
}

func factorOr(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	inB := map[int]bool{}
	for _, x := range cb {
		inB[x.id] = true
	}
	var common, ra []*Term
	for _, x := range ca {
		if inB[x.id] {
			common = append(common, x)
		} else {
			ra = append(ra, x)
		}
	}
	if len(common) == 0 && (len(ca) > 1 && len(cb) > 1) {
		return nil
	}
	inC := map[int]bool{}
	for _, x := range common {
		inC[x.id] = true
	}
	var rb []*Term
	for _, x := range cb {
		if !inC[x.id] {
			rb = append(rb, x)
		}
	}
	if len(ra) == 0 || len(rb) == 0 {
		return And(common...)
	}
	if len(ra) == 1 && len(rb) == 1 && Not(ra[0]) == rb[0] {
		return And(common...)
	}
	if len(ra) == 1 && ra[0] != nil && Not(ra[0]).is("or") || len(rb) == 1 && Not(rb[0]).is("or") {
		// fallthrough to generic form
		_ = ra
	}
	if len(common) == 0 {
		return nil
	}
	// (c & A) | (c & B) with A=!x : keep factored
	x, y := And(ra...), And(rb...)
	if Not(x) == y {
		return And(common...)
	}
	return And(append(append([]*Term{}, common...), rawApp("or", SBool, x, y))...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	if b.is("=>") {
		return Implies(And(a, b.args[0]), b.args[1])
	}
	return rawApp("=>", SBool, a, b)
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts differ: %s / %s\n%s\n%s", a.sort, b.sort, a, b))
	}
	if c.is("not") {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if a.is("ite") && a.args[0] == c {
		a = a.args[1]
	}
	if b.is("ite") && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// ite(c, store(x,i,v), x) over same base: keep
	return rawApp("ite", a.sort, c, a, b)
}

// allocParts decomposes base+k reference terms.
func linear(t *Term) (*Term, *big.Int) {
	if t.isInt() {
		return nil, t.num
	}
	if t.is("+") && len(t.args) == 2 && t.args[1].isInt() {
		return t.args[0], t.args[1].num
	}
	return t, big.NewInt(0)
}

// isOldRef tells that the term is known (syntactically) to be a reference that
// existed at entry: an entry parameter or something loaded from the entry heap.
func isOldRef(t *Term) bool {
	switch t.kind {
	case KSym:
		return t.old
	case KApp:
		switch t.op {
		case "select":
			return isOldRef(t.args[0])
		case "ite":
			return isOldRef(t.args[1]) && isOldRef(t.args[2])
		case "ai":
			return isOldRef(t.args[0])
		case "sl_arr":
			return isOldRef(t.args[0])
		}
		if strings.HasPrefix(t.op, "pget_") {
			return false
		}
	case KInt:
		return t.num.Sign() <= 0
	}
	return false
}

func isAllocRef(t *Term) bool {
	b, k := linear(t)
	return b != nil && b.kind == KSym && strings.HasPrefix(b.op, "next") && k.Sign() >= 0
}

func isSubRef(t *Term) bool { return t.kind == KApp && strings.HasPrefix(t.op, "sub_") }

// distinctTerms tells that two terms certainly denote different values.
// nextLow: allocation watermarks and what they are not below.
var nextLow = map[*Term][]*Term{}

// newNext is an allocation watermark not below others (one such always exists).
func (x *Exec) newNext(lower ...*Term) *Term {
	f := Fresh("next", SInt)
	x.facts = append(x.facts, fact{True, Ge(f, IntT(1))})
	for _, l := range lower {
		x.facts = append(x.facts, fact{True, Ge(f, l)})
	}
	nextLow[f] = lower
	return f
}

// above: a+ka > b+kb because of what is known of watermark a.
func above(a *Term, ka *big.Int, b *Term, kb *big.Int) bool {
	if a == nil || b == nil || ka.Sign() < 0 {
		return false
	}
	for _, l := range nextLow[a] {
		g, m := linear(l)
		if g == nil {
			continue
		}
		s := new(big.Int).Add(m, ka)
		if g == b && kb.Cmp(s) < 0 || g != b && above(g, s, b, kb) {
			return true
		}
	}
	return false
}

func distinctTerms(a, b *Term) bool {
	if a == b {
		return false
	}
	switch a.sort {
	case SInt:
		ba, ka := linear(a)
		bb, kb := linear(b)
		if ba == bb {
			return ka.Cmp(kb) != 0
		}
		if above(ba, ka, bb, kb) || above(bb, kb, ba, ka) {
			return true
		}
		if isAllocRef(a) && isOldRef(b) || isAllocRef(b) && isOldRef(a) {
			return true
		}
		sa, sb := isSubRef(a), isSubRef(b)
		if sa && sb {
			return a.op != b.op || distinctTerms(a.args[0], b.args[0])
		}
		if sa && (isAllocRef(b) || b.isInt()) || sb && (isAllocRef(a) || a.isInt()) {
			return true
		}
	case SStr:
		return a.kind == KStr && b.kind == KStr
	case SBool:
		return a == Not(b)
	case SAny:
		if a.is("mkAny") && b.is("mkAny") {
			for i := range a.args {
				if distinctTerms(a.args[i], b.args[i]) {
					return true
				}
			}
		}
	}
	if a.kind == KApp && b.kind == KApp && a.op == b.op && strings.HasPrefix(a.op, "mkS_") {
		for i := range a.args {
			if distinctTerms(a.args[i], b.args[i]) {
				return true
			}
		}
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts differ: %s / %s\n%s\n%s", a.sort, b.sort, a, b))
	}
	if a == b {
		return True
	}
	if distinctTerms(a, b) {
		return False
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	isLit := func(t *Term) bool { return t.kind == KInt || t.kind == KStr }
	if isLit(b) && a.is("ite") {
		x, y := Eq(a.args[1], b), Eq(a.args[2], b)
		if leafy(x) || leafy(y) {
			return Ite(a.args[0], x, y)
		}
	}
	if isLit(a) && b.is("ite") {
		return Eq(b, a)
	}
	if a.is("mkAny") && b.is("mkAny") {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.kind == KApp && b.kind == KApp && a.op == b.op && strings.HasPrefix(a.op, "mkS_") {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return rawApp("=", SBool, a, b)
}

func leafy(t *Term) bool { return t == True || t == False }

func Select(a, i *Term) *Term {
	_, vs := arrParts(a.sort)
	for {
		if a.is("store") {
			if a.args[1] == i {
				return a.args[2]
			}
			if distinctTerms(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		break
	}
	if a.kind == KConstArr {
		return a.args[0]
	}
	if a.is("ite") {
		return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
	}
	if i.is("ite") && a.is("store") {
		n, k := 0, 0
		caseLeaves(i, &n, &k)
		if n <= 6 && k > 0 {
			return selectEach(a, i, nil)
		}
	}
	return rawApp("select", vs, a, i)
}

// caseLeaves counts the cases of a term, and those that are new references.
func caseLeaves(t *Term, n, k *int) {
	if t.is("ite") && *n <= 6 {
		caseLeaves(t.args[1], n, k)
		caseLeaves(t.args[2], n, k)
		return
	}
	*n++
	if newRef(t) {
		*k++
	}
}

// selectEach reads an array at an index given by cases.
func selectEach(a, i *Term, lits []*Term) *Term {
	if i.is("ite") {
		c := i.args[0]
		return Ite(c, selectEach(a, i.args[1], append(lits[:len(lits):len(lits)], conj(c)...)),
			selectEach(a, i.args[2], append(lits[:len(lits):len(lits)], conj(Not(c))...)))
	}
	return underLits(Select(a, i), lits, 0)
}

// underLits simplifies cases by literals known to hold.
func underLits(t *Term, lits []*Term, depth int) *Term {
	if !t.is("ite") || depth > 6 {
		return t
	}
	c := t.args[0]
	nc := Not(c)
	for _, l := range lits {
		if l == c {
			return underLits(t.args[1], lits, depth)
		}
		if l == nc {
			return underLits(t.args[2], lits, depth)
		}
	}
	return Ite(c, underLits(t.args[1], append(lits[:len(lits):len(lits)], c), depth+1), underLits(t.args[2], append(lits[:len(lits):len(lits)], nc), depth+1))
}

func Store(a, i, v *Term) *Term {
	ks, vs := arrParts(a.sort)
	if i.sort != ks || v.sort != vs {
		panic(fmt.Sprintf("store sorts: %s [%s] := %s", a.sort, i.sort, v.sort))
	}
	if a.is("store") && a.args[1] == i {
		a = a.args[0]
	}
	if v.is("select") && v.args[0] == a && v.args[1] == i {
		return a
	}
	return rawApp("store", a.sort, a, i, v)
}

func ConstArr(s Sort, v *Term) *Term {
	return B.mk(fmt.Sprintf("ca:%s:%d", s, v.id), func() *Term {
		return &Term{kind: KConstArr, op: "constarr", args: []*Term{v}, sort: s}
	})
}

func Add(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return IntBig(new(big.Int).Add(a.num, b.num))
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		if b.num.Sign() == 0 {
			return a
		}
		if a.is("+") && len(a.args) == 2 && a.args[1].isInt() {
			return Add(a.args[0], IntBig(new(big.Int).Add(a.args[1].num, b.num)))
		}
		return rawApp("+", SInt, a, b)
	}
	// pull constants outwards
	ba, ka := linear(a)
	bb, kb := linear(b)
	if ka.Sign() != 0 || kb.Sign() != 0 {
		return Add(Add(ba, bb), IntBig(new(big.Int).Add(ka, kb)))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return rawApp("+", SInt, a, b)
}

func Neg(a *Term) *Term {
	if a.isInt() {
		return IntBig(new(big.Int).Neg(a.num))
	}
	return rawApp("-", SInt, a)
}

func Sub(a, b *Term) *Term {
	if b.isInt() {
		return Add(a, IntBig(new(big.Int).Neg(b.num)))
	}
	if a == b {
		return IntT(0)
	}
	ba, ka := linear(a)
	bb, kb := linear(b)
	if ba != nil && ba == bb {
		return IntBig(new(big.Int).Sub(ka, kb))
	}
	if ba != nil && bb != nil && (ka.Sign() != 0 || kb.Sign() != 0) {
		return Add(Sub(ba, bb), IntBig(new(big.Int).Sub(ka, kb)))
	}
	return rawApp("-", SInt, a, b)
}

func Mul(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return IntBig(new(big.Int).Mul(a.num, b.num))
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		if b.num.Sign() == 0 {
			return b
		}
		if b.num.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return rawApp("*", SInt, a, b)
}

// Mod and Div are SMT-LIB's (Euclidean for a positive divisor).
func Mod(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.num.Sign() > 0 {
		return IntBig(new(big.Int).Mod(a.num, b.num))
	}
	return rawApp("mod", SInt, a, b)
}

func DivE(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.num.Sign() > 0 {
		m := new(big.Int)
		q, _ := new(big.Int).DivMod(a.num, b.num, m)
		return IntBig(q)
	}
	return rawApp("div", SInt, a, b)
}

func Le(a, b *Term) *Term {
	if a == b {
		return True
	}
	ba, ka := linear(a)
	bb, kb := linear(b)
	if ba == bb {
		return BoolT(ka.Cmp(kb) <= 0)
	}
	return rawApp("<=", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	if a == b {
		return False
	}
	ba, ka := linear(a)
	bb, kb := linear(b)
	if ba == bb {
		return BoolT(ka.Cmp(kb) < 0)
	}
	return rawApp("<", SBool, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// ---- datatypes ----

// Con builds a constructor application, Sel a selector application with
// simplification through constructors and ite.
func Con(op string, s Sort, args ...*Term) *Term { return rawApp(op, s, args...) }

func Sel(sel string, con string, idx int, ret Sort, t *Term) *Term {
	if t.kind == KApp && t.op == con {
		return t.args[idx]
	}
	if t.is("ite") {
		return Ite(t.args[0], Sel(sel, con, idx, ret, t.args[1]), Sel(sel, con, idx, ret, t.args[2]))
	}
	return rawApp(sel, ret, t)
}

func MkSlice(arr, off, ln, cp *Term) *Term { return Con("mkSlice", SSlice, arr, off, ln, cp) }
func SlArr(t *Term) *Term                  { return Sel("sl_arr", "mkSlice", 0, SInt, t) }
func SlOff(t *Term) *Term                  { return Sel("sl_off", "mkSlice", 1, SInt, t) }
func SlLen(t *Term) *Term                  { return Sel("sl_len", "mkSlice", 2, SInt, t) }
func SlCap(t *Term) *Term                  { return Sel("sl_cap", "mkSlice", 3, SInt, t) }

var NilSlice = func() *Term { return MkSlice(IntT(0), IntT(0), IntT(0), IntT(0)) }

func MkAny(tag, ai, as, af, asl *Term) *Term { return Con("mkAny", SAny, tag, ai, as, af, asl) }
func ATag(t *Term) *Term                     { return Sel("atag", "mkAny", 0, SInt, t) }
func AI(t *Term) *Term                       { return Sel("ai", "mkAny", 1, SInt, t) }
func AS(t *Term) *Term                       { return Sel("astr", "mkAny", 2, SStr, t) }
func AF(t *Term) *Term                       { return Sel("af", "mkAny", 3, SFlt, t) }
func ASl(t *Term) *Term                      { return Sel("asl", "mkAny", 4, SSlice, t) }

func FltZero() *Term { return MkFlt(IntT(0), realT("0.0")) }
func MkFlt(cls, val *Term) *Term {
	return Con("mkFlt", SFlt, cls, val)
}
func FCls(t *Term) *Term { return Sel("fcls", "mkFlt", 0, SInt, t) }
func FVal(t *Term) *Term { return Sel("fval", "mkFlt", 1, "Real", t) }

func realT(s string) *Term {
	return B.mk("r:"+s, func() *Term { return &Term{kind: KApp, op: s, sort: "Real"} })
}

func NilAny() *Term {
	return MkAny(IntT(0), IntT(0), StrT(""), FltZero(), NilSlice())
}

// ---- quantifiers ----

func Quant(forall bool, vars []*Term, pats [][]*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	op := "exists"
	if forall {
		op = "forall"
	}
	// drop unused variables
	used := map[int]bool{}
	collectVars(body, used, map[int]bool{})
	var vs []*Term
	for _, v := range vars {
		if used[v.id] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	// bound variables are named by position, so that equal formulas are the same term
	h := qheight(body)
	ren := map[*Term]*Term{}
	for i, v := range vs {
		if n := fmt.Sprintf("q%d.%d", h, i); v.op != n {
			c := B.mk("v:"+n+":"+string(v.sort), func() *Term { return &Term{kind: KVar, op: n, sort: v.sort, bound: true} })
			ren[v] = c
		}
	}
	if len(ren) > 0 {
		f := substWith(ren)
		var ps [][]*Term
		for _, p := range pats {
			var q []*Term
			for _, x := range p {
				q = append(q, f(x))
			}
			ps = append(ps, q)
		}
		ws := make([]*Term, len(vs))
		for i, v := range vs {
			ws[i] = f(v)
		}
		return Quant(forall, ws, ps, f(body))
	}
	pats = okPats(pats, vs)
	var sb strings.Builder
	sb.WriteString("q:" + op)
	for _, v := range vs {
		fmt.Fprintf(&sb, ",%d", v.id)
	}
	fmt.Fprintf(&sb, ":%d", body.id)
	for _, p := range pats {
		sb.WriteString(";")
		for _, x := range p {
			fmt.Fprintf(&sb, ",%d", x.id)
		}
	}
	return B.mk(sb.String(), func() *Term {
		rest := map[int]bool{}
		for id := range used {
			rest[id] = true
		}
		for _, v := range vs {
			delete(rest, v.id)
		}
		return &Term{kind: KQuant, op: op, vars: vs, pats: pats, args: []*Term{body}, sort: SBool, bound: len(rest) > 0}
	})
}

// okPats keeps the patterns a solver can use: applications without connectives
// around bound variables, covering all variables.
func okPats(ps [][]*Term, vs []*Term) [][]*Term {
	var out [][]*Term
	for _, p := range ps {
		ok := true
		cov := map[int]bool{}
		for _, t := range p {
			if t.kind != KApp || len(t.args) == 0 || !patOK(t) {
				ok = false
			}
			collectVars(t, cov, map[int]bool{})
		}
		for _, v := range vs {
			if !cov[v.id] {
				ok = false
			}
		}
		if ok {
			out = append(out, p)
		}
	}
	return out
}

func isConnective(t *Term) bool {
	if t.kind == KQuant {
		return true
	}
	if t.kind != KApp {
		return false
	}
	switch t.op {
	case "and", "or", "not", "=>", "=", "ite", "<", "<=", ">", ">=":
		return true
	}
	return false
}

func patOK(t *Term) bool {
	if !t.bound {
		return true
	}
	if isConnective(t) {
		return false
	}
	for _, a := range t.args {
		if !patOK(a) {
			return false
		}
	}
	return true
}

func hasConnective(t *Term, memo map[int]bool) bool {
	if v, ok := memo[t.id]; ok {
		return v
	}
	r := isConnective(t) || t.kind == KConstArr
	for _, a := range t.args {
		r = r || hasConnective(a, memo)
	}
	memo[t.id] = r
	return r
}

func Forall(vars []*Term, pats [][]*Term, body *Term) *Term { return Quant(true, vars, pats, body) }
func Exists(vars []*Term, body *Term) *Term                 { return Quant(false, vars, nil, body) }

func collectVars(t *Term, out map[int]bool, seen map[int]bool) {
	if !t.bound || seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.kind == KVar {
		out[t.id] = true
		return
	}
	if t.kind == KQuant {
		inner := map[int]bool{}
		collectVars(t.args[0], inner, map[int]bool{})
		for _, v := range t.vars {
			delete(inner, v.id)
		}
		for id := range inner {
			out[id] = true
		}
		return
	}
	for _, a := range t.args {
		collectVars(a, out, seen)
	}
}

// Subst replaces terms (symbols or variables) throughout.
func Subst(t *Term, m map[*Term]*Term) *Term { return substWith(m)(t) }

func substWith(m map[*Term]*Term) func(t *Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *Term
		if t.kind == KQuant {
			var ps [][]*Term
			for _, p := range t.pats {
				var q []*Term
				for _, x := range p {
					q = append(q, rec(x))
				}
				ps = append(ps, q)
			}
			r = Quant(t.op == "forall", t.vars, ps, rec(t.args[0]))
		} else {
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = rec(a)
				if args[i] != a {
					ch = true
				}
			}
			if !ch {
				r = t
			} else {
				r = rebuild(t, args)
			}
		}
		memo[t.id] = r
		return r
	}
	return rec
}

func rebuild(t *Term, args []*Term) *Term {
	if t.kind == KConstArr {
		return ConstArr(t.sort, args[0])
	}
	switch t.op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Implies(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "+":
		return Add(args[0], args[1])
	case "-":
		if len(args) == 2 {
			return Sub(args[0], args[1])
		}
	case "*":
		return Mul(args[0], args[1])
	case "mod":
		return Mod(args[0], args[1])
	case "div":
		return DivE(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "atag":
		return ATag(args[0])
	case "ai":
		return AI(args[0])
	case "astr":
		return AS(args[0])
	case "af":
		return AF(args[0])
	case "asl":
		return ASl(args[0])
	case "sl_arr":
		return SlArr(args[0])
	case "sl_off":
		return SlOff(args[0])
	case "sl_len":
		return SlLen(args[0])
	case "sl_cap":
		return SlCap(args[0])
	}
	return rawApp(t.op, t.sort, args...)
}

// symsOf collects declared symbols and functions used by a term.
func symsOf(t *Term, seen map[int]bool, f func(*Term)) {
	stack := []*Term{t}
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[t.id] {
			continue
		}
		seen[t.id] = true
		f(t)
		stack = append(stack, t.args...)
		for _, p := range t.pats {
			stack = append(stack, p...)
		}
	}
}

// maxSerial gives the creation number of the latest symbol in the term.
func maxSerial(t *Term) int {
	m := -1
	symsOf(t, map[int]bool{}, func(x *Term) {
		if x.kind == KSym && x.serial > m {
			m = x.serial
		}
	})
	return m
}

// ---- printing ----

func quoteSym(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.!?@$~+-*/<>=%&^", c)) {
			return "|" + strings.ReplaceAll(s, "|", "!") + "|"
		}
	}
	return s
}

// Printer prints terms as SMT-LIB with sharing by define-fun.
type Printer struct {
	out   *strings.Builder
	names map[int]string
	n     int
	strID map[string]int
}

func newPrinter(out *strings.Builder) *Printer {
	return &Printer{out: out, names: map[int]string{}, strID: map[string]int{}}
}

func (p *Printer) strName(s string) string {
	id, ok := p.strID[s]
	if !ok {
		id = len(p.strID)
		p.strID[s] = id
	}
	return fmt.Sprintf("lit$%d", id)
}

// prepare introduces definitions for shared closed subterms of the roots.
func (p *Printer) prepare(roots []*Term) {
	cnt := map[int]int{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		cnt[t.id]++
		if cnt[t.id] > 1 {
			return
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, pt := range t.pats {
			for _, x := range pt {
				visit(x)
			}
		}
		order = append(order, t)
	}
	for _, r := range roots {
		visit(r)
	}
	// closed terms with connectives inside patterns become constants
	hoist := map[int]bool{}
	memo := map[int]bool{}
	var hv func(t *Term)
	hv = func(t *Term) {
		if !t.bound {
			if hasConnective(t, memo) {
				hoist[t.id] = true
			}
			return
		}
		for _, a := range t.args {
			hv(a)
		}
	}
	for _, t := range order {
		for _, pt := range t.pats {
			for _, x := range pt {
				hv(x)
			}
		}
	}
	for _, t := range order {
		if hoist[t.id] {
			s := p.str(t)
			p.n++
			name := fmt.Sprintf("d$%d", p.n)
			fmt.Fprintf(p.out, "(declare-const %s %s)\n(assert (= %s %s))\n", name, t.sort, name, s)
			p.names[t.id] = name
			continue
		}
		if cnt[t.id] > 1 && !t.bound && (t.kind == KApp || t.kind == KQuant) && len(t.args) > 0 {
			if _, ok := p.names[t.id]; ok {
				continue
			}
			s := p.str(t)
			p.n++
			name := fmt.Sprintf("d$%d", p.n)
			fmt.Fprintf(p.out, "(define-fun %s () %s %s)\n", name, t.sort, s)
			p.names[t.id] = name
		}
	}
}

func (p *Printer) str(t *Term) string {
	if n, ok := p.names[t.id]; ok {
		return n
	}
	var sb strings.Builder
	p.write(&sb, t)
	return sb.String()
}

func (p *Printer) write(sb *strings.Builder, t *Term) {
	if n, ok := p.names[t.id]; ok {
		sb.WriteString(n)
		return
	}
	switch t.kind {
	case KSym, KVar:
		sb.WriteString(quoteSym(t.op))
	case KInt:
		if t.num.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.num).String())
		} else {
			sb.WriteString(t.op)
		}
	case KStr:
		sb.WriteString(p.strName(t.op))
	case KBool:
		sb.WriteString(t.op)
	case KConstArr:
		fmt.Fprintf(sb, "((as const %s) ", t.sort)
		p.write(sb, t.args[0])
		sb.WriteString(")")
	case KQuant:
		fmt.Fprintf(sb, "(%s (", t.op)
		for _, v := range t.vars {
			fmt.Fprintf(sb, "(%s %s)", quoteSym(v.op), v.sort)
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		p.write(sb, t.args[0])
		if len(t.pats) > 0 {
			for _, pt := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range pt {
					if i > 0 {
						sb.WriteString(" ")
					}
					p.write(sb, x)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		if len(t.args) == 0 {
			sb.WriteString(t.op)
			return
		}
		sb.WriteString("(")
		sb.WriteString(quoteSym(t.op))
		for _, a := range t.args {
			sb.WriteString(" ")
			p.write(sb, a)
		}
		sb.WriteString(")")
	}
}

func (t *Term) String() string {
	var sb strings.Builder
	p := newPrinter(&strings.Builder{})
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if d > 14 {
			sb.WriteString("…")
			return
		}
		switch t.kind {
		case KStr:
			fmt.Fprintf(&sb, "%q", t.op)
		case KApp:
			if len(t.args) == 0 {
				sb.WriteString(t.op)
				return
			}
			sb.WriteString("(" + t.op)
			for _, a := range t.args {
				sb.WriteString(" ")
				rec(a, d+1)
			}
			sb.WriteString(")")
		case KQuant:
			sb.WriteString("(" + t.op + " ")
			for _, v := range t.vars {
				sb.WriteString(v.op + " ")
			}
			rec(t.args[0], d+1)
			sb.WriteString(")")
		default:
			p.write(&sb, t)
		}
	}
	rec(t, 0)
	return sb.String()
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var qheights = map[int]int{}

// qheight is how deep quantifiers are nested in a term.
func qheight(t *Term) int {
	if len(t.args) == 0 {
		return 0
	}
	if h, ok := qheights[t.id]; ok {
		return h
	}
	h := 0
	for _, a := range t.args {
		h = max(h, qheight(a))
	}
	if t.kind == KQuant {
		h++
	}
	qheights[t.id] = h
	return h
}
