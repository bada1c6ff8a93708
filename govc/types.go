package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

// StructInfo is the datatype of a struct type's values.
type StructInfo struct {
	key    string
	sort   Sort
	con    string
	fields []*types.Var
	sorts  []Sort
	sels   []string
	typ    types.Type
}

// Types maps Go types to SMT sorts, and numbers dynamic types.
type Types struct {
	structs map[string]*StructInfo
	stOrder []*StructInfo
	tags    map[string]int
	tagType []types.Type
	compS   map[string]Sort
}

func newTypes() *Types {
	return &Types{structs: map[string]*StructInfo{}, tags: map[string]int{}, tagType: []types.Type{nil}, compS: map[string]Sort{}}
}

var TY = newTypes()

// aliasNames: names the language has for one type (a type's text must be the same however the source spells it).
var aliasNames = regexp.MustCompile(`(^|[^\w./])(byte|rune|any)($|[^\w./])`)

func typeKey(t types.Type) string {
	s := typeText(t)
	for {
		n := aliasNames.ReplaceAllStringFunc(s, func(m string) string {
			return strings.NewReplacer("byte", "uint8", "rune", "int32", "any", "interface{}").Replace(m)
		})
		if n == s {
			return s
		}
		s = n
	}
}

func typeText(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string {
		s := p.Path()
		if i := strings.LastIndex(s, "wampproto-go"); i >= 0 {
			s = strings.TrimPrefix(s[i+len("wampproto-go"):], "/")
			if s == "" {
				s = "wamp"
			}
		}
		return s
	})
}

func isStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() > 0
}

func isArray(t types.Type) bool {
	_, ok := t.Underlying().(*types.Array)
	return ok
}

func isEmptyStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func sortOf(t types.Type) Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SFlt
		case u.Kind() == types.UntypedNil:
			return SInt
		}
		return SInt
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SAny
	case *types.Array:
		return SArr(SInt, sortOf(u.Elem()))
	case *types.Struct:
		if u.NumFields() == 0 {
			return SInt
		}
		return structInfo(t).sort
	}
	return SInt
}

func structInfo(t types.Type) *StructInfo {
	k := typeKey(t)
	if si, ok := TY.structs[k]; ok {
		return si
	}
	u := t.Underlying().(*types.Struct)
	n := sanitize(k)
	si := &StructInfo{key: k, sort: Sort("S_" + n), con: "mkS_" + n, typ: t}
	TY.structs[k] = si
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		si.fields = append(si.fields, f)
		si.sorts = append(si.sorts, sortOf(f.Type()))
		name := f.Name()
		if name == "_" {
			name = fmt.Sprint("_", i)
		}
		si.sels = append(si.sels, fmt.Sprintf("g_%s_%s", n, name))
	}
	TY.stOrder = append(TY.stOrder, si)
	return si
}

func tagOf(t types.Type) int {
	k := typeKey(t)
	if n, ok := TY.tags[k]; ok {
		return n
	}
	n := len(TY.tagType)
	TY.tags[k] = n
	TY.tagType = append(TY.tagType, t)
	return n
}

// namedTag numbers a dynamic type known by name only.
func namedTag(name string) int {
	if n, ok := TY.tags[name]; ok {
		return n
	}
	n := len(TY.tagType)
	TY.tags[name] = n
	TY.tagType = append(TY.tagType, nil)
	return n
}

func zeroOf(t types.Type) *Term {
	switch s := sortOf(t); s {
	case SBool:
		return False
	case SInt:
		return IntT(0)
	case SStr:
		return StrT("")
	case SFlt:
		return FltZero()
	case SAny:
		return NilAny()
	case SSlice:
		return NilSlice()
	default:
		if a, ok := t.Underlying().(*types.Array); ok {
			return ConstArr(s, zeroOf(a.Elem()))
		}
		si := structInfo(t)
		var args []*Term
		for _, f := range si.fields {
			args = append(args, zeroOf(f.Type()))
		}
		return Con(si.con, si.sort, args...)
	}
}

func structField(t types.Type, v *Term, i int) *Term {
	si := structInfo(t)
	return Sel(si.sels[i], si.con, i, si.sorts[i], v)
}

// intRange gives the range of an integer type.
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := intBits(b)
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
	} else {
		lo = big.NewInt(0)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	return lo, hi, true
}

func intBits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

// wrap reduces a mathematical integer that may leave the range of t by at most
// one period (after + or -).
func wrap1(x *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return x
	}
	if x.isInt() {
		return wrapMod(x, t)
	}
	period := IntBig(new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1)))
	return Ite(Gt(x, IntBig(hi)), Sub(x, period), Ite(Lt(x, IntBig(lo)), Add(x, period), x))
}

// wrapMod reduces any mathematical integer into the range of t.
func wrapMod(x *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return x
	}
	if x.isInt() && x.num.Cmp(lo) >= 0 && x.num.Cmp(hi) <= 0 {
		return x
	}
	period := IntBig(new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1)))
	if lo.Sign() == 0 {
		return Mod(x, period)
	}
	if x.isInt() {
		return Add(Mod(Sub(x, IntBig(lo)), period), IntBig(lo))
	}
	return Ite(And(Le(IntBig(lo), x), Le(x, IntBig(hi))), x,
		Add(Mod(Sub(x, IntBig(lo)), period), IntBig(lo)))
}

func boolInt(b *Term) *Term { return Ite(b, IntT(1), IntT(0)) }

// mkIface boxes a value of concrete type t.
func mkIface(t types.Type, v *Term) *Term {
	tag := IntT(int64(tagOf(t)))
	z, zs, zf, zl := IntT(0), StrT(""), FltZero(), NilSlice()
	switch v.sort {
	case SBool:
		return MkAny(tag, boolInt(v), zs, zf, zl)
	case SInt:
		if isEmptyStruct(t) {
			v = IntT(0)
		}
		return MkAny(tag, v, zs, zf, zl)
	case SStr:
		return MkAny(tag, z, v, zf, zl)
	case SFlt:
		return MkAny(tag, z, zs, v, zl)
	case SSlice:
		return MkAny(tag, z, zs, zf, v)
	default:
		return MkAny(tag, Fun("box_"+sanitize(string(v.sort)), SInt, v), zs, zf, zl)
	}
}

// unIface takes the payload of concrete type t out of an interface value.
func unIface(t types.Type, a *Term) *Term {
	switch s := sortOf(t); s {
	case SBool:
		return Eq(AI(a), IntT(1))
	case SInt:
		if isEmptyStruct(t) {
			return IntT(0)
		}
		return AI(a)
	case SStr:
		return AS(a)
	case SFlt:
		return AF(a)
	case SSlice:
		return ASl(a)
	default:
		x := AI(a)
		box := "box_" + sanitize(string(s))
		if x.is(box) {
			return x.args[0]
		}
		return Fun("un"+box, s, x)
	}
}

// ---- heap components ----

func compField(st types.Type, i int) (string, types.Type) {
	u := st.Underlying().(*types.Struct)
	f := u.Field(i)
	k := "F|" + typeKey(st) + "|" + f.Name()
	TY.compS[k] = SArr(SInt, sortOf(f.Type()))
	return k, f.Type()
}

func compElem(el types.Type) string {
	k := "M|" + typeKey(el)
	TY.compS[k] = SArr(SInt, SArr(SInt, sortOf(el)))
	return k
}

func compCell(t types.Type) string {
	k := "P|" + typeKey(t)
	TY.compS[k] = SArr(SInt, sortOf(t))
	return k
}

func compMap(t types.Type) (dom, val string, kt, vt types.Type) {
	m := t.Underlying().(*types.Map)
	b := typeKey(m.Key()) + "|" + typeKey(m.Elem())
	dom, val = "MD|"+b, "MV|"+b
	ks := sortOf(m.Key())
	TY.compS[dom] = SArr(SInt, SArr(ks, SBool))
	TY.compS[val] = SArr(SInt, SArr(ks, sortOf(m.Elem())))
	return dom, val, m.Key(), m.Elem()
}

func ghostComp(name string, s Sort) string {
	k := "G|" + name
	TY.compS[k] = s
	return k
}

// subRef is the reference of the struct embedded as field i in the struct at ref.
func subRef(st types.Type, i int, ref *Term) *Term {
	u := st.Underlying().(*types.Struct)
	return Fun("sub_"+sanitize(typeKey(st)+"_"+u.Field(i).Name()), SInt, ref)
}
