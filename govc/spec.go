package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The contract language: Go-like expressions over the function's parameters and
// results, quantifiers, old(), and macros (pred). See DESIGN.md.

type Contract struct {
	name      string
	params    []string
	results   []string
	modular   bool
	helper    bool // modular, if it can be proved; inlined otherwise
	trusted   bool
	lemma     bool
	ptypes    []string // of a lemma's parameters
	marshalOK bool
	guards    bool
	requires  []*Clause
	ensures   []*Clause
	modifies  []*Ex
	allocates []string
	loops     []*LoopSpec
	inline    []string
	file      string
	line      int
	props     map[string]bool
}

type Clause struct {
	name  string
	tags  []string
	e     *Ex
	src   string
	local bool
	by    []string // what an attempt at it with few premises uses
	step  bool     // proved at each return and then assumed by the clauses after it
}

// matters: a clause without tags supports every property.
func (c *Clause) matters(prop string) bool {
	if prop == "" || len(c.tags) == 0 {
		return true
	}
	for _, t := range c.tags {
		if t == prop {
			return true
		}
	}
	return false
}

type LoopSpec struct {
	kind   string
	typ    string
	n      int // ordinal among loops of that kind and type; 0 = any
	invs   []*Clause
	unroll int
	ghosts []*Ghost
}

// Ghost is a specification-only array over int that a loop carries: on entry and after every
// iteration its element idx becomes val (both read in the state reached).
type Ghost struct {
	name     string
	idx, val *Ex
}

type Pred struct {
	name   string
	params []string
	types  []string
	body   *Ex
}

type Ufun struct {
	name string
	args []string
	ret  string
}

type SpecSet struct {
	byFn   map[string]*Contract
	list   []*Contract
	preds  map[string]*Pred
	ufuns  map[string]*Ufun
	axioms []*Clause
}

// Ex is a parsed expression.
type Ex struct {
	op   string // int str ident sel index call un bin forall exists cond type
	name string
	args []*Ex
	bind []binder
	trig [][]*Ex
	src  string
}

type binder struct{ name, typ string }

// ---- lexer ----

type tok struct {
	k string // id int str op eof
	s string
}

func lex(s string) ([]tok, error) {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", "{", "}", ",", ".", "?", ":"}
outer:
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, tok{"int", s[i:j]})
			i = j
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("unterminated string in %q", s)
			}
			u, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				return nil, err
			}
			out = append(out, tok{"str", u})
			i = j + 1
		case c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i + 1
			for j < len(s) && (s[j] == '_' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		default:
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					out = append(out, tok{"op", o})
					i += len(o)
					continue outer
				}
			}
			return nil, fmt.Errorf("bad character %q in %q", c, s)
		}
	}
	return append(out, tok{"eof", ""}), nil
}

// ---- parser ----

type parser struct {
	t   []tok
	i   int
	src string
}

func parseExpr(src string) (e *Ex, err error) {
	ts, err := lex(src)
	if err != nil {
		return nil, err
	}
	p := &parser{t: ts, src: src}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				err = fmt.Errorf("%s in %q", s, src)
				return
			}
			panic(r)
		}
	}()
	e = p.expr()
	if p.peek().k != "eof" {
		panic("unexpected " + p.peek().s)
	}
	e.src = src
	return e, nil
}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *parser) isOp(s string) bool {
	t := p.peek()
	return t.k == "op" && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.isOp(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic("expected " + s + " but found " + p.peek().s)
	}
}

func (p *parser) expr() *Ex {
	c := p.iff()
	if p.accept("?") {
		a := p.expr()
		p.expect(":")
		b := p.expr()
		return &Ex{op: "cond", args: []*Ex{c, a, b}}
	}
	return c
}

func (p *parser) iff() *Ex {
	a := p.imp()
	for p.accept("<==>") {
		a = &Ex{op: "bin", name: "<==>", args: []*Ex{a, p.imp()}}
	}
	return a
}

func (p *parser) imp() *Ex {
	a := p.or()
	if p.accept("==>") {
		return &Ex{op: "bin", name: "==>", args: []*Ex{a, p.imp()}}
	}
	return a
}

func (p *parser) or() *Ex {
	a := p.and()
	for p.accept("||") {
		a = &Ex{op: "bin", name: "||", args: []*Ex{a, p.and()}}
	}
	return a
}

func (p *parser) and() *Ex {
	a := p.cmp()
	for p.accept("&&") {
		a = &Ex{op: "bin", name: "&&", args: []*Ex{a, p.cmp()}}
	}
	return a
}

func (p *parser) cmp() *Ex {
	a := p.add()
	var chain []*Ex
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") {
			p.i++
			b := p.add()
			chain = append(chain, &Ex{op: "bin", name: t.s, args: []*Ex{a, b}})
			a = b
			continue
		}
		if t.k == "id" && t.s == "in" {
			p.i++
			b := p.add()
			chain = append(chain, &Ex{op: "bin", name: "in", args: []*Ex{a, b}})
			a = b
			continue
		}
		break
	}
	if len(chain) == 0 {
		return a
	}
	r := chain[0]
	for _, c := range chain[1:] {
		r = &Ex{op: "bin", name: "&&", args: []*Ex{r, c}}
	}
	return r
}

func (p *parser) add() *Ex {
	a := p.mul()
	for p.isOp("+") || p.isOp("-") {
		o := p.next().s
		a = &Ex{op: "bin", name: o, args: []*Ex{a, p.mul()}}
	}
	return a
}

func (p *parser) mul() *Ex {
	a := p.unary()
	for p.isOp("*") || p.isOp("/") || p.isOp("%") {
		o := p.next().s
		a = &Ex{op: "bin", name: o, args: []*Ex{a, p.unary()}}
	}
	return a
}

func (p *parser) unary() *Ex {
	if p.accept("!") {
		return &Ex{op: "un", name: "!", args: []*Ex{p.unary()}}
	}
	if p.accept("-") {
		return &Ex{op: "un", name: "-", args: []*Ex{p.unary()}}
	}
	return p.postfix()
}

var typeArgCalls = map[string]int{"typeis": 1, "as": 1, "$acc": 0, "$vec": 0, "unchanged": 0, "box": 1, "mk": 0, "codetype": -1}

func (p *parser) postfix() *Ex {
	e := p.primary()
	for {
		switch {
		case p.accept("."):
			t := p.next()
			if t.k != "id" {
				panic("field name expected")
			}
			e = &Ex{op: "sel", name: t.s, args: []*Ex{e}}
		case p.isOp("["):
			p.i++
			i := p.expr()
			p.expect("]")
			e = &Ex{op: "index", args: []*Ex{e, i}}
		case p.isOp("("):
			p.i++
			c := &Ex{op: "call", args: []*Ex{e}}
			n := 0
			for !p.isOp(")") {
				if k, ok := typeArgCalls[e.name]; ok && e.op == "ident" && k == n {
					c.args = append(c.args, &Ex{op: "type", name: p.typ()})
				} else {
					c.args = append(c.args, p.expr())
				}
				n++
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
}

func (p *parser) primary() *Ex {
	t := p.next()
	switch {
	case t.k == "int":
		return &Ex{op: "int", name: t.s}
	case t.k == "str":
		return &Ex{op: "str", name: t.s}
	case t.k == "id" && (t.s == "forall" || t.s == "exists"):
		e := &Ex{op: t.s}
		for {
			n := p.next()
			if n.k != "id" {
				panic("variable expected")
			}
			e.bind = append(e.bind, binder{n.s, p.typ()})
			if !p.accept(",") {
				break
			}
		}
		p.expect("::")
		for p.accept("{") {
			var ts []*Ex
			for {
				ts = append(ts, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.trig = append(e.trig, ts)
		}
		e.args = []*Ex{p.expr()}
		return e
	case t.k == "id":
		return &Ex{op: "ident", name: t.s}
	case t.k == "op" && t.s == "(":
		e := p.expr()
		p.expect(")")
		return e
	}
	panic("unexpected " + t.s)
}

// typ parses a Go type and gives it back as text.
func (p *parser) typ() string {
	switch {
	case p.accept("*"):
		return "*" + p.typ()
	case p.accept("["):
		if p.peek().k == "int" {
			n := p.next().s
			p.expect("]")
			return "[" + n + "]" + p.typ()
		}
		p.expect("]")
		return "[]" + p.typ()
	}
	t := p.next()
	if t.k != "id" {
		panic("type expected, found " + t.s)
	}
	if t.s == "map" && p.accept("[") {
		k := p.typ()
		p.expect("]")
		return "map[" + k + "]" + p.typ()
	}
	if p.accept(".") {
		n := p.next()
		return t.s + "." + n.s
	}
	return t.s
}

// resolveType gives the Go type of a type written in a contract.
func (w *World) resolveType(s string, pkg *types.Package) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(w.resolveType(s[1:], pkg))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(w.resolveType(s[2:], pkg))
	case strings.HasPrefix(s, "map["):
		d := 0
		for i, c := range s {
			if c == '[' {
				d++
			} else if c == ']' {
				d--
				if d == 0 {
					return types.NewMap(w.resolveType(s[4:i], pkg), w.resolveType(s[i+1:], pkg))
				}
			}
		}
	case strings.HasPrefix(s, "["):
		i := strings.IndexByte(s, ']')
		n, _ := strconv.Atoi(s[1:i])
		return types.NewArray(w.resolveType(s[i+1:], pkg), int64(n))
	}
	if i := strings.IndexByte(s, '.'); i > 0 {
		if t := w.namedType(s[:i], s[i+1:]); t != nil {
			return t
		}
		panic(stopErr{"unknown type " + s})
	}
	if pkg != nil {
		if o, ok := pkg.Scope().Lookup(s).(*types.TypeName); ok {
			return o.Type()
		}
	}
	if o, ok := types.Universe.Lookup(s).(*types.TypeName); ok {
		return o.Type()
	}
	panic(stopErr{"unknown type " + s})
}

// ---- spec files ----

var keywords = map[string]bool{"fn": true, "lemma": true, "pred": true, "ufun": true, "requires": true, "ensures": true, "local": true, "step": true,
	"modular": true, "helper": true, "trusted": true, "modifies": true, "allocates": true, "loop": true, "invariant": true, "unroll": true,
	"marshal_ok": true, "inline": true, "axiom": true, "guards": true, "ghost": true}

func loadSpecs(dir string) (*SpecSet, error) {
	ss := &SpecSet{byFn: map[string]*Contract{}, preds: map[string]*Pred{}, ufuns: map[string]*Ufun{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := ss.load(f); err != nil {
			return nil, err
		}
	}
	return ss, nil
}

func (ss *SpecSet) load(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type item struct {
		kw, rest string
		line     int
	}
	var items []item
	for n, l := range strings.Split(string(data), "\n") {
		if i := strings.Index(l, "//"); i >= 0 && !strings.Contains(l[:i], "\"") {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t[("); i > 0 {
			w = t[:i]
		}
		if keywords[w] {
			items = append(items, item{w, strings.TrimSpace(t[len(w):]), n + 1})
		} else if len(items) > 0 {
			items[len(items)-1].rest += " " + t
		} else {
			return fmt.Errorf("%s:%d: unexpected %q", file, n+1, t)
		}
	}
	var c *Contract
	var lp *LoopSpec
	count := 0
	for _, it := range items {
		fail := func(f string, a ...any) error {
			return fmt.Errorf("%s:%d: %s", filepath.Base(file), it.line, fmt.Sprintf(f, a...))
		}
		clause := func() (*Clause, error) {
			cl := &Clause{}
			rest := it.rest
			if strings.HasPrefix(rest, "[") {
				i := strings.IndexByte(rest, ']')
				for _, t := range strings.Split(rest[1:i], ",") {
					cl.tags = append(cl.tags, strings.TrimSpace(t))
				}
				rest = strings.TrimSpace(rest[i+1:])
			}
			if i := strings.IndexByte(rest, ':'); i > 0 && i+1 < len(rest) && rest[i+1] != ':' && isName(rest[:i]) {
				ws := strings.Fields(rest[:i])
				cl.name = ws[0]
				if len(ws) > 2 {
					cl.by = ws[2:]
				}
				rest = strings.TrimSpace(rest[i+1:])
			} else {
				count++
				cl.name = fmt.Sprintf("c%d", count)
			}
			e, err := parseExpr(rest)
			if err != nil {
				return nil, fail("%v", err)
			}
			cl.e, cl.src = e, rest
			return cl, nil
		}
		switch it.kw {
		case "fn", "lemma":
			c = &Contract{file: filepath.Base(file), line: it.line, lemma: it.kw == "lemma", props: map[string]bool{}}
			lp = nil
			sig := it.rest
			// name(params) (results)
			depth := 0
			open := -1
			for i := 0; i < len(sig); i++ {
				if sig[i] == '(' {
					if depth == 0 && i > 0 && sig[i-1] != '.' {
						open = i
						break
					}
					depth++
				} else if sig[i] == ')' {
					depth--
				}
			}
			if open < 0 {
				return fail("function signature expected")
			}
			c.name = sig[:open]
			cl := open + strings.IndexByte(sig[open:], ')')
			c.params = splitNames(sig[open+1 : cl])
			if c.lemma {
				for _, p := range strings.Split(sig[open+1:cl], ",") {
					f := strings.Fields(p)
					if len(f) != 2 {
						return fail("lemma parameters are names with types")
					}
					c.ptypes = append(c.ptypes, f[1])
				}
			}
			rest := strings.TrimSpace(sig[cl+1:])
			rest = strings.TrimSuffix(strings.TrimPrefix(rest, "("), ")")
			c.results = splitNames(rest)
			if ss.byFn[c.name] != nil {
				return fail("second contract for %s", c.name)
			}
			ss.byFn[c.name] = c
			ss.list = append(ss.list, c)
		case "modular":
			c.modular = true
		case "helper":
			c.modular, c.helper = true, true
		case "trusted":
			c.trusted = true
		case "guards":
			c.guards = true
		case "marshal_ok":
			c.marshalOK = true
		case "inline":
			c.inline = append(c.inline, splitNames(it.rest)...)
		case "requires", "ensures", "local", "step", "invariant", "axiom":
			cl, err := clause()
			if err != nil {
				return err
			}
			switch it.kw {
			case "requires":
				c.requires = append(c.requires, cl)
			case "ensures", "local", "step":
				cl.local = it.kw != "ensures"
				cl.step = it.kw == "step"
				c.ensures = append(c.ensures, cl)
				for _, t := range cl.tags {
					c.props[t] = true
				}
			case "invariant":
				lp.invs = append(lp.invs, cl)
			case "axiom":
				ss.axioms = append(ss.axioms, cl)
			}
		case "modifies":
			for _, s := range strings.Split(it.rest, ",") {
				e, err := parseExpr(s)
				if err != nil {
					return fail("%v", err)
				}
				c.modifies = append(c.modifies, e)
			}
		case "allocates":
			for _, s := range strings.Split(it.rest, ",") {
				c.allocates = append(c.allocates, strings.TrimSpace(s))
			}
		case "loop":
			fl := strings.SplitN(it.rest, " ", 2)
			lp = &LoopSpec{kind: fl[0]}
			if len(fl) > 1 {
				lp.typ = strings.TrimSpace(fl[1])
				if i := strings.IndexByte(lp.typ, '#'); i >= 0 {
					lp.n, _ = strconv.Atoi(strings.TrimSpace(lp.typ[i+1:]))
					lp.typ = strings.TrimSpace(lp.typ[:i])
				}
			}
			c.loops = append(c.loops, lp)
		case "ghost": // ghost NAME at INDEX is VALUE
			f := strings.Fields(it.rest)
			i, j := strings.Index(it.rest, " at "), strings.Index(it.rest, " is ")
			if lp == nil || len(f) == 0 || i < 0 || j < i {
				return fail("ghost NAME at INDEX is VALUE, in a loop")
			}
			g := &Ghost{name: f[0]}
			var err error
			if g.idx, err = parseExpr(it.rest[i+4 : j]); err != nil {
				return fail("%v", err)
			}
			if g.val, err = parseExpr(it.rest[j+4:]); err != nil {
				return fail("%v", err)
			}
			lp.ghosts = append(lp.ghosts, g)
		case "unroll":
			lp.unroll, _ = strconv.Atoi(it.rest)
		case "pred":
			i := strings.IndexByte(it.rest, '(')
			j := strings.IndexByte(it.rest, ')')
			k := strings.IndexByte(it.rest, '=')
			if i < 0 || j < i || k < j {
				return fail("pred name(params) = body")
			}
			p := &Pred{name: strings.TrimSpace(it.rest[:i]), params: splitNames(it.rest[i+1 : j])}
			e, err := parseExpr(it.rest[k+1:])
			if err != nil {
				return fail("%v", err)
			}
			p.body = e
			if ss.preds[p.name] != nil {
				return fail("second definition of %s", p.name)
			}
			ss.preds[p.name] = p
		case "ufun":
			i := strings.IndexByte(it.rest, '(')
			j := strings.IndexByte(it.rest, ')')
			u := &Ufun{name: strings.TrimSpace(it.rest[:i]), args: splitNames(it.rest[i+1 : j]), ret: strings.TrimSpace(it.rest[j+1:])}
			ss.ufuns[u.name] = u
		}
	}
	return nil
}

func splitNames(s string) []string {
	var out []string
	for _, n := range strings.Split(s, ",") {
		if n = strings.TrimSpace(n); n != "" {
			out = append(out, strings.Fields(n)[0])
		}
	}
	return out
}

func isIdent(s string) bool {
	for i, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return s != ""
}

// ---- evaluation ----

// SV is a value of the contract language.
type SV struct {
	t   *Term
	typ types.Type // nil: mathematical
	loc bool       // t is the reference of a struct or array of type typ
}

type specEnv struct {
	x     *Exec
	vars  map[string]SV
	st    *State
	old   *State
	pre   *State
	li    *loopInfo
	liSt  *State
	pkg   *types.Package
	depth int
}

func (e *specEnv) child() *specEnv {
	n := *e
	n.vars = map[string]SV{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	n.depth++
	return &n
}

func (x *Exec) contractEnv(c *Contract, fn interface{ String() string }, st *State, args []*Val) *specEnv {
	f := x.w.funcs[c.name]
	env := &specEnv{x: x, vars: map[string]SV{}, st: st, old: st}
	if f.Pkg != nil {
		env.pkg = f.Pkg.Pkg
	}
	if len(c.params) != len(f.Params) {
		panic(stopErr{fmt.Sprintf("contract of %s names %d parameters, the function has %d", c.name, len(c.params), len(f.Params))})
	}
	for i, p := range c.params {
		t := args[i].t
		if t == nil {
			if a, ok := x.addrTerm(args[i]); ok {
				t = a
			} else {
				x.unsupported(st, "argument of "+c.name)
				t = Fresh("unsup", sortOf(f.Params[i].Type()))
			}
		}
		env.vars[p] = SV{t: t, typ: f.Params[i].Type()}
	}
	return env
}

func (e *specEnv) bindResults(c *Contract, sig *types.Signature, res []*Val) {
	if len(c.results) != sig.Results().Len() {
		panic(stopErr{fmt.Sprintf("contract of %s names %d results, the function has %d", c.name, len(c.results), sig.Results().Len())})
	}
	for i, n := range c.results {
		t := res[i].t
		if t == nil {
			if a, ok := e.x.addrTerm(res[i]); ok {
				t = a
			} else {
				e.x.unsupported(e.st, "result of "+c.name)
				t = Fresh("unsup", sortOf(sig.Results().At(i).Type()))
			}
		}
		e.vars[n] = SV{t: t, typ: sig.Results().At(i).Type()}
	}
}

func (e *specEnv) fail(f string, a ...any) {
	panic(stopErr{"contract: " + fmt.Sprintf(f, a...)})
}

func (e *specEnv) bool(c *Clause) *Term {
	e.x.quiet++
	defer func() { e.x.quiet-- }()
	return e.boolEx(c.e, c.src)
}

func (e *specEnv) boolEx(ex *Ex, src string) *Term {
	v := e.eval(ex)
	if v.t.sort != SBool {
		e.fail("not a condition: %s", src)
	}
	return v.t
}

type namedTerm struct {
	name string
	t    *Term
}

// split gives the conjuncts of a clause, seen through predicates.
func (e *specEnv) split(c *Clause) []namedTerm {
	e.x.quiet++
	defer func() { e.x.quiet-- }()
	var out []namedTerm
	var rec func(env *specEnv, ex *Ex, name string)
	rec = func(env *specEnv, ex *Ex, name string) {
		if ex.op == "bin" && ex.name == "&&" {
			rec(env, ex.args[0], name)
			rec(env, ex.args[1], name)
			return
		}
		if ex.op == "call" && ex.args[0].op == "ident" {
			if p := e.x.w.specs.preds[ex.args[0].name]; p != nil {
				rec(env.predEnv(p, ex.args[1:]), p.body, name+"/"+p.name)
				return
			}
		}
		out = append(out, namedTerm{name, env.boolEx(ex, c.src)})
	}
	rec(e, c.e, c.name)
	if len(out) > 1 {
		n := map[string]int{}
		for i := range out {
			n[out[i].name]++
			if k := n[out[i].name]; k > 1 || true {
				out[i].name = fmt.Sprintf("%s.%d", out[i].name, k)
			}
		}
	}
	return out
}

func (e *specEnv) predEnv(p *Pred, args []*Ex) *specEnv {
	if len(args) != len(p.params) {
		e.fail("%s takes %d arguments", p.name, len(p.params))
	}
	if e.depth > 30 {
		e.fail("recursive predicate %s", p.name)
	}
	n := *e
	n.depth++
	n.vars = map[string]SV{}
	for i, a := range args {
		n.vars[p.params[i]] = e.eval(a)
	}
	return &n
}

var intType = types.Typ[types.Int]

func mathInt(t *Term) SV { return SV{t: t} }
func mathBool(t *Term) SV {
	return SV{t: t, typ: types.Typ[types.Bool]}
}

func (e *specEnv) eval(ex *Ex) SV {
	switch ex.op {
	case "int":
		n, _ := new(big.Int).SetString(ex.name, 10)
		return mathInt(IntBig(n))
	case "str":
		return SV{t: StrT(ex.name), typ: types.Typ[types.String]}
	case "ident":
		return e.ident(ex.name)
	case "un":
		v := e.eval(ex.args[0])
		if ex.name == "!" {
			return mathBool(Not(v.t))
		}
		return mathInt(Neg(v.t))
	case "cond":
		c, a, b := e.eval(ex.args[0]), e.eval(ex.args[1]), e.eval(ex.args[2])
		e.coerce(&a, &b)
		r := a
		r.t = Ite(c.t, a.t, b.t)
		return r
	case "bin":
		return e.bin(ex)
	case "sel":
		return e.sel(ex)
	case "index":
		return e.index(e.eval(ex.args[0]), e.eval(ex.args[1]))
	case "call":
		return e.call(ex)
	case "forall", "exists":
		n := e.child()
		var vs []*Term
		for _, b := range ex.bind {
			var s Sort
			var t types.Type
			switch b.typ {
			case "ref", "Int":
				s = SInt
			default:
				t = e.x.w.resolveType(b.typ, e.pkg)
				s = sortOf(t)
			}
			v := BVar(b.name, s)
			vs = append(vs, v)
			n.vars[b.name] = SV{t: v, typ: t}
		}
		body := n.eval(ex.args[0]).t
		if ex.op == "exists" && len(ex.trig) == 0 {
			return mathBool(Exists(vs, body))
		}
		var pats [][]*Term
		for _, ts := range ex.trig {
			var p []*Term
			for _, t := range ts {
				p = append(p, plainTrigger(n.eval(t).t))
			}
			pats = append(pats, p)
		}
		if ex.op == "exists" {
			return mathBool(Not(indexForall(vs, pats, Not(body))))
		}
		return mathBool(indexForall(vs, pats, body))
	}
	e.fail("cannot evaluate %s", ex.op)
	return SV{}
}

// plainTrigger turns the look-up of a map entry (present ? entry : zero) into the entry itself.
func plainTrigger(t *Term) *Term {
	if !t.bound || t.kind == KQuant {
		return t
	}
	if t.is("ite") {
		return plainTrigger(t.args[1])
	}
	if len(t.args) == 0 {
		return t
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = plainTrigger(a)
		ch = ch || args[i] != a
	}
	if !ch {
		return t
	}
	return rebuild(t, args)
}

func hasSub(t, s *Term) bool {
	if t == s {
		return true
	}
	for _, a := range t.args {
		if hasSub(a, s) {
			return true
		}
	}
	return false
}

// indexForall is Forall where triggers on list elements s[i] range over the
// positions in the list's memory: solvers do not match inside sums.
func indexForall(vs []*Term, pats [][]*Term, body *Term) *Term {
	for k, v := range vs {
		if v.sort != SInt {
			continue
		}
		var hit, rest *Term
		var find func(t *Term)
		find = func(t *Term) {
			if hit != nil || !t.bound {
				return
			}
			if t.is("select") && t.args[1].is("+") {
				idx := t.args[1]
				var others []*Term
				n := 0
				for _, a := range idx.args {
					if a == v {
						n++
					} else {
						others = append(others, a)
					}
				}
				in := map[int]bool{}
				for _, o := range others {
					collectVars(o, in, map[int]bool{})
				}
				if n == 1 && !in[v.id] {
					hit, rest = t, others[0]
					for _, o := range others[1:] {
						rest = Add(rest, o)
					}
					return
				}
			}
			for _, a := range t.args {
				find(a)
			}
		}
		for _, p := range pats {
			for _, t := range p {
				find(t)
			}
		}
		if hit == nil {
			continue
		}
		j := BVar("j", SInt)
		m := map[*Term]*Term{v: Sub(j, rest), hit.args[1]: j}
		nv := append([]*Term{}, vs...)
		nv[k] = j
		var np, plain [][]*Term
		for _, p := range pats {
			var q []*Term
			with := false
			for _, t := range p {
				with = with || hasSub(t, hit.args[1])
				q = append(q, Subst(t, m))
			}
			if with {
				np = append(np, q)
			} else {
				plain = append(plain, p)
			}
		}
		f := indexForall(nv, np, Subst(body, m))
		if len(plain) > 0 {
			f = And(f, indexForall(vs, plain, body))
		}
		return f
	}
	return Forall(vs, pats, body)
}

func (e *specEnv) ident(n string) SV {
	if v, ok := e.vars[n]; ok {
		return v
	}
	switch n {
	case "true":
		return mathBool(True)
	case "false":
		return mathBool(False)
	case "nil":
		return SV{t: IntT(0), typ: types.Typ[types.UntypedNil]}
	case "$visited":
		return SV{t: e.st.heap[e.iter().comp]}
	case "$map":
		return SV{t: e.iter().m, typ: e.iter().mt}
	case "$dom0":
		return SV{t: e.iter().dom0}
	case "$idx":
		return mathInt(e.loopIdx())
	case "$seq":
		v := e.st.env[e.li.seq]
		if ld, ok := e.li.seq.(*ssa.UnOp); ok && v == nil {
			// a field of an object from outside the loop, read at each turn
			if fa, ok := ld.X.(*ssa.FieldAddr); ok {
				if o := e.st.env[fa.X]; o != nil && o.t != nil {
					return e.field(SV{t: o.t, typ: fa.X.Type()}, fa.Field)
				}
			}
		}
		if v == nil || v.t == nil {
			panic(noLoopVar{"$seq is not available"})
		}
		return SV{t: v.t, typ: e.li.typ}
	}
	if e.pkg != nil {
		if v, ok := e.object(e.pkg.Scope().Lookup(n)); ok {
			return v
		}
	}
	e.fail("unknown name %s", n)
	return SV{}
}

func (e *specEnv) iter() *Iter {
	if e.li == nil || e.li.iter == nil {
		e.fail("no map iteration here")
	}
	return e.li.iter
}

// loopIdx is the number of completed iterations.
func (e *specEnv) loopIdx() *Term {
	if e.li != nil && e.li.iter != nil && e.li.iter.cnt != "" {
		return e.st.heap[e.li.iter.cnt]
	}
	if e.li == nil || e.li.idxPhi == nil || e.li.init == nil {
		e.fail("no counted loop here")
	}
	return Sub(e.st.env[e.li.idxPhi].t, e.li.init)
}

func (e *specEnv) object(o types.Object) (SV, bool) {
	switch o := o.(type) {
	case *types.Const:
		c := constOf(o)
		return SV{t: c, typ: o.Type()}, true
	case *types.Var:
		p := e.x.w.prog.Package(o.Pkg())
		if p == nil {
			return SV{}, false
		}
		g := p.Var(o.Name())
		if g == nil {
			return SV{}, false
		}
		ref := IntT(e.x.w.globalRef(g))
		if isStruct(o.Type()) || isArray(o.Type()) {
			return SV{t: ref, typ: o.Type(), loc: true}, true
		}
		return SV{t: e.x.load(e.st, &Addr{comp: regContent(compCell(o.Type()), o.Type()), ref: ref, typ: o.Type()}), typ: o.Type()}, true
	}
	return SV{}, false
}

// coerce gives the literals nil and numbers the other side's type.
func (e *specEnv) coerce(a, b *SV) {
	isNil := func(v *SV) bool {
		bt, ok := v.typ.(*types.Basic)
		return ok && bt.Kind() == types.UntypedNil
	}
	if isNil(a) && !isNil(b) {
		a, b = b, a
	}
	if isNil(b) {
		switch a.t.sort {
		case SSlice:
			b.t, b.typ = NilSlice(), a.typ
		case SAny:
			b.t, b.typ = NilAny(), a.typ
		}
		return
	}
	// interface compared with a concrete value
	if a.t.sort == SAny && b.t.sort != SAny && b.typ != nil {
		b.t = mkIface(e.defType(b.typ), b.t)
		b.typ = a.typ
	} else if b.t.sort == SAny && a.t.sort != SAny && a.typ != nil {
		a.t = mkIface(e.defType(a.typ), a.t)
		a.typ = b.typ
	}
}

func (e *specEnv) defType(t types.Type) types.Type { return types.Default(t) }

func (e *specEnv) bin(ex *Ex) SV {
	a := e.eval(ex.args[0])
	switch ex.name {
	case "&&":
		if a.t == False {
			return a
		}
		return mathBool(And(a.t, e.eval(ex.args[1]).t))
	case "||":
		if a.t == True {
			return a
		}
		return mathBool(Or(a.t, e.eval(ex.args[1]).t))
	case "==>":
		if a.t == False {
			return mathBool(True)
		}
		return mathBool(Implies(a.t, e.eval(ex.args[1]).t))
	case "<==>":
		return mathBool(Iff(a.t, e.eval(ex.args[1]).t))
	}
	b := e.eval(ex.args[1])
	switch ex.name {
	case "==", "!=":
		e.coerce(&a, &b)
		var r *Term
		switch {
		case b.t == NilSlice():
			r = Eq(SlArr(a.t), IntT(0))
		case a.t == NilSlice():
			r = Eq(SlArr(b.t), IntT(0))
		case a.t.sort == SAny && b.t == NilAny():
			r = Eq(ATag(a.t), IntT(0))
		case b.t.sort == SAny && a.t == NilAny():
			r = Eq(ATag(b.t), IntT(0))
		case a.loc && b.loc && isStruct(a.typ):
			r = Eq(e.x.loadAt(e.st, a.typ, a.t), e.x.loadAt(e.st, b.typ, b.t))
		default:
			if a.t.sort != b.t.sort {
				e.fail("comparison of %s and %s", a.t.sort, b.t.sort)
			}
			r = Eq(a.t, b.t)
		}
		if ex.name == "!=" {
			r = Not(r)
		}
		return mathBool(r)
	case "<":
		return mathBool(Lt(a.t, b.t))
	case "<=":
		return mathBool(Le(a.t, b.t))
	case ">":
		return mathBool(Gt(a.t, b.t))
	case ">=":
		return mathBool(Ge(a.t, b.t))
	case "+":
		if a.t.sort == SStr {
			return SV{t: e.x.strcat(e.st, a.t, b.t), typ: a.typ}
		}
		return mathInt(Add(a.t, b.t))
	case "-":
		return mathInt(Sub(a.t, b.t))
	case "*":
		return mathInt(Mul(a.t, b.t))
	case "/":
		return mathInt(DivE(a.t, b.t))
	case "%":
		return mathInt(Mod(a.t, b.t))
	case "in":
		return mathBool(e.contains(a, b))
	}
	e.fail("operator %s", ex.name)
	return SV{}
}

// syncMapOf finds the sync.Map inside a struct location (internal.Map, sync.Map).
func (e *specEnv) syncMapOf(m SV) (ref *Term, kt, vt types.Type, ok bool) {
	t := m.typ
	if t == nil {
		return nil, nil, nil, false
	}
	ref = m.t
	if p, isP := t.Underlying().(*types.Pointer); isP {
		t = p.Elem()
	} else if !m.loc {
		return nil, nil, nil, false
	}
	if isSyncType(t) && syncName(t) == "Map" {
		return ref, anyT, anyT, true
	}
	n, isN := types.Unalias(t).(*types.Named)
	if !isN || n.TypeArgs().Len() != 2 {
		return nil, nil, nil, false
	}
	s, isS := n.Underlying().(*types.Struct)
	if !isS {
		return nil, nil, nil, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if ft := s.Field(i).Type(); isSyncType(ft) && syncName(ft) == "Map" {
			return subRef(t, i, ref), n.TypeArgs().At(0), n.TypeArgs().At(1), true
		}
	}
	return nil, nil, nil, false
}

func (e *specEnv) contains(k, m SV) *Term {
	if m.typ == nil {
		ks, _ := arrParts(m.t.sort)
		if ks == SAny && k.t.sort != SAny {
			k.t = mkIface(k.typ, k.t)
		}
		return Select(m.t, k.t)
	}
	if _, ok := m.typ.Underlying().(*types.Map); ok {
		return Select(e.x.mapDom(e.st, m.typ, m.t), k.t)
	}
	if ref, kt, _, ok := e.syncMapOf(m); ok {
		d, _ := smComps()
		if k.t.sort != SAny || isIface(kt) && kt != anyT {
			k.t = mkIface(kt, k.t)
		}
		return Select(Select(e.x.h(e.st, d), ref), k.t)
	}
	if n, ok := types.Unalias(deref(m.typ)).(*types.Named); ok && n.Obj().Name() == "Tree" {
		d, _ := treeComps()
		return Select(Select(e.x.h(e.st, d), m.t), k.t)
	}
	e.fail("in: not a map: %s", m.typ)
	return nil
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *specEnv) index(m, k SV) SV {
	if m.typ == nil {
		ks, vs := arrParts(m.t.sort)
		_ = vs
		if ks == SAny && k.t.sort != SAny {
			k.t = mkIface(k.typ, k.t)
		}
		return SV{t: Select(m.t, k.t)}
	}
	switch u := m.typ.Underlying().(type) {
	case *types.Map:
		if _, isI := u.Key().Underlying().(*types.Interface); isI && k.t.sort != SAny {
			k.t = mkIface(e.defType(k.typ), k.t)
		}
		return SV{t: Select(e.x.mapVals(e.st, m.typ, m.t), k.t), typ: u.Elem()}
	case *types.Slice:
		return SV{t: seqElem(e.x, e.st, m.t, m.typ, k.t), typ: u.Elem()}
	case *types.Array:
		if m.loc {
			return SV{t: Select(Select(e.x.h(e.st, regContent(compElem(u.Elem()), u.Elem())), m.t), k.t), typ: u.Elem()}
		}
		return SV{t: Select(m.t, k.t), typ: u.Elem()}
	}
	if ref, kt, vt, ok := e.syncMapOf(m); ok {
		_, v := smComps()
		if k.t.sort != SAny {
			k.t = mkIface(kt, k.t)
		}
		r := Select(Select(e.x.h(e.st, v), ref), k.t)
		if vt == anyT {
			return SV{t: r, typ: anyT}
		}
		return SV{t: unIface(vt, r), typ: vt}
	}
	if n, ok := types.Unalias(deref(m.typ)).(*types.Named); ok && n.Obj().Name() == "Tree" {
		_, v := treeComps()
		return SV{t: Select(Select(e.x.h(e.st, v), m.t), k.t), typ: n.TypeArgs().At(0)}
	}
	e.fail("cannot index %s", m.typ)
	return SV{}
}

// field selects one field.
func (e *specEnv) field(v SV, i int) SV {
	t := v.typ
	ref := v.t
	isRef := v.loc
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t, isRef = p.Elem(), true
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		e.fail("no struct: %s", t)
	}
	ft := s.Field(i).Type()
	if !isRef {
		return SV{t: structField(t, ref, i), typ: ft}
	}
	a := e.x.fieldAddr(t, i, ref)
	if a.a == nil {
		return SV{t: a.t, typ: ft, loc: true}
	}
	return SV{t: e.x.load(e.st, a.a), typ: ft}
}

func pkgOf(t types.Type) *types.Package {
	if n, ok := types.Unalias(deref(t)).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (e *specEnv) lookup(v SV, name string) (types.Object, []int) {
	t := v.typ
	if t == nil {
		e.fail("selector %s of a mathematical value", name)
	}
	p := pkgOf(t)
	if p == nil {
		p = e.pkg
	}
	o, idx, _ := types.LookupFieldOrMethod(t, true, p, name)
	if o == nil {
		if n, ok := types.Unalias(deref(t)).(*types.Named); ok && n.Obj().Pkg() != nil {
			if now := e.x.w.renamed[shortPkg(n.Obj().Pkg().Path())+"."+n.Obj().Name()+"."+name]; now != "" {
				o, idx, _ = types.LookupFieldOrMethod(t, true, p, now)
			}
		}
	}
	if o == nil {
		e.fail("%s has no field or method %s", t, name)
	}
	return o, idx
}

func (e *specEnv) pkgNamed(n string) *types.Package {
	if _, ok := e.vars[n]; ok {
		return nil
	}
	return e.x.w.tpkgs[n]
}

func (e *specEnv) sel(ex *Ex) SV {
	if b := ex.args[0]; b.op == "ident" {
		if p := e.pkgNamed(b.name); p != nil {
			if v, ok := e.object(p.Scope().Lookup(ex.name)); ok {
				return v
			}
			e.fail("unknown %s.%s", b.name, ex.name)
		}
	}
	v := e.eval(ex.args[0])
	o, idx := e.lookup(v, ex.name)
	if _, ok := o.(*types.Var); !ok {
		e.fail("%s is a method", ex.name)
	}
	for _, i := range idx {
		v = e.field(v, i)
	}
	return v
}

// addr gives the location an expression denotes.
// elems is the array of a slice named in a modifies clause as elems(s).
func (e *specEnv) elems(ex *Ex) (comp string, et types.Type, ref *Term) {
	if ex.op != "call" || ex.args[0].op != "ident" || ex.args[0].name != "elems" {
		return
	}
	v := e.eval(ex.args[1])
	s, ok := v.typ.Underlying().(*types.Slice)
	if !ok {
		return
	}
	return regContent(compElem(s.Elem()), s.Elem()), s.Elem(), SlArr(v.t)
}

func (e *specEnv) addr(ex *Ex) *Addr {
	if ex.op != "sel" {
		return nil
	}
	v := e.eval(ex.args[0])
	o, idx := e.lookup(v, ex.name)
	if _, ok := o.(*types.Var); !ok {
		return nil
	}
	for _, i := range idx[:len(idx)-1] {
		v = e.field(v, i)
	}
	t := deref(v.typ)
	a := e.x.fieldAddr(t, idx[len(idx)-1], v.t)
	return a.a
}

// pure runs a side-effect free Go call for its value.
func (e *specEnv) pure(f func(st *State) (*Val, *State)) []*Val {
	n := e.st.clone()
	n.g = True
	n.env = nil
	n.env = e.st.clone().env
	n.defers = nil
	sv := e.x.invLoops
	r, _ := f(n)
	e.x.invLoops = sv
	if r == nil {
		return nil
	}
	if r.tup != nil {
		return r.tup
	}
	return []*Val{r}
}

func (e *specEnv) call(ex *Ex) SV {
	f := ex.args[0]
	args := ex.args[1:]
	if f.op == "ident" {
		if p := e.x.w.specs.preds[f.name]; p != nil {
			return e.predEnv(p, args).eval(p.body)
		}
		if u := e.x.w.specs.ufuns[f.name]; u != nil {
			var ts []*Term
			for _, a := range args {
				ts = append(ts, e.eval(a).t)
			}
			if u.ret == "Int" {
				return SV{t: Fun("u_"+u.name, SInt, ts...)}
			}
			t := e.x.w.resolveType(u.ret, e.pkg)
			return SV{t: Fun("u_"+u.name, sortOf(t), ts...), typ: t}
		}
		if v, ok := e.builtin(f.name, args); ok {
			return v
		}
		if e.pkg != nil {
			if o, ok := e.pkg.Scope().Lookup(f.name).(*types.Func); ok {
				return e.callGo(o, nil, args)
			}
		}
		e.fail("unknown function %s", f.name)
	}
	if f.op != "sel" {
		e.fail("call of an expression")
	}
	if b := f.args[0]; b.op == "ident" {
		if p := e.pkgNamed(b.name); p != nil {
			if o, ok := p.Scope().Lookup(f.name).(*types.Func); ok {
				return e.callGo(o, nil, args)
			}
			e.fail("unknown function %s.%s", b.name, f.name)
		}
	}
	v := e.eval(f.args[0])
	o, idx := e.lookup(v, f.name)
	m, ok := o.(*types.Func)
	if !ok {
		e.fail("%s is no method", f.name)
	}
	for _, i := range idx[:len(idx)-1] {
		v = e.field(v, i)
	}
	return e.callGo(m, &v, args)
}

func (e *specEnv) callGo(m *types.Func, recv *SV, args []*Ex) SV {
	sig := m.Type().(*types.Signature)
	var av []*Val
	for i, a := range args {
		v := e.eval(a)
		if i < sig.Params().Len() && isIface(sig.Params().At(i).Type()) && v.t.sort != SAny {
			b := SV{t: NilAny(), typ: sig.Params().At(i).Type()}
			e.coerce(&v, &b)
		}
		av = append(av, T(v.t))
	}
	var res []*Val
	if recv != nil && isIface(recv.typ) {
		res = e.pure(func(st *State) (*Val, *State) { return e.x.invoke(st, recv.t, recv.typ, m, av) })
	} else {
		fn := e.x.w.prog.FuncValue(m)
		if fn == nil {
			e.fail("no code for %s", m.FullName())
		}
		if recv != nil {
			r := recv.t
			_, ptrRecv := sig.Recv().Type().Underlying().(*types.Pointer)
			_, isPtr := recv.typ.Underlying().(*types.Pointer)
			if !ptrRecv && (isPtr || recv.loc) {
				r = e.x.loadAt(e.st, deref(recv.typ), r)
			}
			av = append([]*Val{T(r)}, av...)
		}
		res = e.pure(func(st *State) (*Val, *State) { return e.x.callFunc(st, fn, av, nil) })
	}
	if len(res) == 0 {
		e.fail("no result of %s", m.FullName())
	}
	if res[0].t == nil {
		e.fail("result of %s", m.FullName())
	}
	return SV{t: res[0].t, typ: sig.Results().At(0).Type()}
}

func (e *specEnv) withState(st *State) *specEnv {
	n := *e
	n.st = st
	return &n
}

func (e *specEnv) strOf(v SV) *Term {
	if v.t.sort == SSlice {
		return e.x.bytesStr(e.st, v.t)
	}
	if v.loc && isArray(v.typ) {
		n := v.typ.Underlying().(*types.Array).Len()
		return e.x.bstr(e.st, Select(e.x.h(e.st, byteComp()), v.t), IntT(0), IntT(n))
	}
	return v.t
}

func (e *specEnv) builtin(name string, args []*Ex) (SV, bool) {
	x := e.x
	strT := types.Typ[types.String]
	ev := func(i int) SV { return e.eval(args[i]) }
	typ := func(i int) types.Type {
		if args[i].op != "type" {
			e.fail("%s: type expected", name)
		}
		return x.w.resolveType(args[i].name, e.pkg)
	}
	strOrBytes := func(i int) *Term { return e.strOf(ev(i)) }
	switch name {
	case "old":
		return e.withState(e.old).eval(args[0]), true
	case "pre":
		if e.pre == nil {
			e.fail("pre outside a loop")
		}
		return e.withState(e.pre).eval(args[0]), true
	case "len":
		v := ev(0)
		if v.typ == nil {
			x.cardFacts(e.st, v.t)
			return mathInt(cardFun(v.t)), true
		}
		switch v.typ.Underlying().(type) {
		case *types.Slice:
			return mathInt(SlLen(v.t)), true
		case *types.Map:
			return mathInt(x.mapLen(e.st, v.typ, v.t)), true
		}
		if v.t.sort == SStr {
			return mathInt(x.strlen(e.st, v.t)), true
		}
		if n, ok := types.Unalias(deref(v.typ)).(*types.Named); ok && n.Obj().Name() == "Tree" {
			d, _ := treeComps()
			dom := Select(x.h(e.st, d), v.t)
			x.cardFacts(e.st, dom)
			return mathInt(cardFun(dom)), true
		}
		e.fail("len of %s", v.typ)
	case "cap":
		return mathInt(SlCap(ev(0).t)), true
	case "arr": // identity of a slice's backing array
		return mathInt(SlArr(ev(0).t)), true
	case "off":
		return mathInt(SlOff(ev(0).t)), true
	case "dom":
		v := ev(0)
		if _, ok := v.typ.Underlying().(*types.Map); ok {
			return SV{t: x.mapDom(e.st, v.typ, v.t)}, true
		}
		if n, ok := types.Unalias(deref(v.typ)).(*types.Named); ok && n.Obj().Name() == "Tree" {
			d, _ := treeComps()
			return SV{t: Select(x.h(e.st, d), v.t)}, true
		}
		if ref, _, _, ok := e.syncMapOf(v); ok {
			d, _ := smComps()
			return SV{t: Select(x.h(e.st, d), ref)}, true
		}
		e.fail("dom of %s", v.typ)
	case "vals":
		v := ev(0)
		return SV{t: x.mapVals(e.st, v.typ, v.t)}, true
	case "typeis":
		v := ev(0)
		return mathBool(Eq(ATag(v.t), IntT(int64(tagOf(typ(1)))))), true
	case "as":
		v := ev(0)
		t := typ(1)
		return SV{t: unIface(t, v.t), typ: t}, true
	case "box":
		v := ev(0)
		return SV{t: mkIface(typ(1), v.t), typ: anyT}, true
	case "mk": // mk(T, fields...): a struct value
		t := typ(0)
		si := structInfo(t)
		var fs []*Term
		for i := 1; i < len(args); i++ {
			fs = append(fs, ev(i).t)
		}
		return SV{t: Con(si.con, si.sort, fs...), typ: t}, true
	case "boxed": // the interface value is exactly a boxed value of its concrete type
		v := ev(0)
		return mathBool(wfAny(v.t, e.st.next)), true
	case "fresh":
		v := ev(0)
		r := v.t
		if r.sort == SSlice {
			r = SlArr(r)
		}
		return mathBool(Ge(r, e.old.next)), true
	case "allocated":
		return mathBool(Lt(ev(0).t, e.st.next)), true
	case "existed":
		return mathBool(Lt(ev(0).t, x.next0())), true
	case "held":
		return mathBool(Select(x.h(e.st, heldComp()), ev(0).t)), true
	case "acquired":
		return mathInt(Select(x.h(e.st, acqComp()), ev(0).t)), true
	case "wfmsg":
		v := ev(0)
		if v.t.sort == SAny {
			return mathBool(x.wfMsg(e.st, v.t)), true
		}
		for _, mt := range x.w.msgTypes() {
			if types.Identical(types.NewPointer(mt.elem), v.typ) {
				return mathBool(x.wfMsgPtr(e.st, mt, v.t)), true
			}
		}
		for _, mt := range x.w.msgTypes() {
			if types.Identical(mt.elem, v.typ) {
				return mathBool(Not(Eq(ATag(e.field(v, 0).t), IntT(0)))), true
			}
		}
		e.fail("wfmsg of %s", v.typ)
	case "msgcode": // numeric code of a message
		v := ev(0)
		r := IntT(0)
		mts := x.w.msgTypes()
		for i := len(mts) - 1; i >= 0; i-- {
			r = Ite(Eq(ATag(v.t), IntT(int64(tagOf(mts[i].ptr)))), x.w.msgCode(mts[i]), r)
		}
		return mathInt(r), true
	case "cn":
		a, b := ev(0), ev(1)
		box := func(v SV) *Term {
			if v.t.sort == SAny {
				return v.t
			}
			return mkIface(e.defType(v.typ), v.t)
		}
		return mathBool(cnRel(box(a), box(b))), true
	case "str":
		return SV{t: strOrBytes(0), typ: strT}, true
	case "$acc":
		t := typ(0)
		var found *Term
		for _, p := range e.li.phis {
			if p != e.li.idxPhi && types.Identical(p.Type(), t) {
				if v := e.st.env[p]; v != nil && v.t != nil {
					if found != nil {
						panic(noLoopVar{fmt.Sprintf("two accumulators of type %s", t)})
					}
					found = v.t
				}
			}
		}
		if found == nil {
			// a field assigned in the loop
			var fa *ssa.FieldAddr
			for _, f := range e.li.fields {
				if types.Identical(deref(f.Type()), t) {
					if fa != nil && (fa.X != f.X || fa.Field != f.Field) {
						panic(noLoopVar{fmt.Sprintf("two accumulators of type %s", t)})
					}
					fa = f
				}
			}
			if fa != nil {
				if v := e.st.env[fa.X]; v != nil && v.t != nil {
					found = e.field(SV{t: v.t, typ: fa.X.Type()}, fa.Field).t
				}
			}
		}
		if found == nil {
			panic(noLoopVar{fmt.Sprintf("no accumulator of type %s", t)})
		}
		return SV{t: found, typ: t}, true
	case "$vec": // a slice from before the loop whose elements are assigned in it
		t := typ(0)
		var found *Term
		for _, b := range e.li.elems {
			if v := e.st.env[b]; v != nil && v.t != nil && types.Identical(b.Type(), t) {
				if found != nil && found != v.t {
					panic(noLoopVar{fmt.Sprintf("two slices of type %s are filled", t)})
				}
				found = v.t
			}
		}
		if found == nil {
			panic(noLoopVar{fmt.Sprintf("no slice of type %s is filled", t)})
		}
		return SV{t: found, typ: t}, true
	case "$phi":
		for _, p := range e.li.phis {
			if p.Comment == args[0].name {
				if v := e.st.env[p]; v != nil && v.t != nil {
					return SV{t: v.t, typ: p.Type()}, true
				}
			}
		}
		panic(noLoopVar{"no loop variable " + args[0].name})
	case "$ghost": // $ghost(name, i)
		g := e.li.ghosts[args[0].name]
		if g == nil {
			panic(noLoopVar{"no ghost " + args[0].name})
		}
		return mathInt(Select(g, ev(1).t)), true
	case "mpend", "mpend_at": // mpend(s, n, d): where in s's memory n complete MessagePack values, nested at most d deep, end; -1 if they do not
		v := ev(0).t
		b, hi := Select(x.h(e.st, byteComp()), SlArr(v)), Add(SlOff(v), SlLen(v))
		at, i := SlOff(v), 1
		if name == "mpend_at" {
			at, i = ev(1).t, 2
		}
		return mathInt(Fun("mp_end", SInt, b, hi, at, ev(i).t, ev(i+1).t)), true
	case "mpdef": // mpdef(s, n, d, ok, size, elements): the definition of mpend(s, n, d), given the header of the value that s starts with
		v, n, d := ev(0).t, ev(1).t, ev(2).t
		b, at := Select(x.h(e.st, byteComp()), SlArr(v)), SlOff(v)
		hi := Add(at, SlLen(v))
		end := func(p, n, d *Term) *Term { return Fun("mp_end", SInt, b, hi, p, n, d) }
		ok, size, elems := ev(3).t, ev(4).t, ev(5).t
		body := Add(at, size)
		mid := Ite(Eq(elems, IntT(0)), body, Ite(Gt(d, IntT(0)), end(body, elems, Sub(d, IntT(1))), IntT(-1)))
		fits := And(ok, Le(size, SlLen(v)), Le(elems, Sub(SlLen(v), size)))
		x.axiom(Implies(Le(n, IntT(0)), Eq(end(at, n, d), at)))
		x.axiom(Implies(And(Gt(n, IntT(0)), Not(fits)), Eq(end(at, n, d), IntT(-1))))
		x.axiom(Implies(And(Gt(n, IntT(0)), fits), Eq(end(at, n, d), Ite(Lt(mid, IntT(0)), IntT(-1), end(mid, Sub(n, IntT(1)), d)))))
		x.axiom(Implies(Lt(mid, IntT(0)), Eq(end(mid, Sub(n, IntT(1)), d), IntT(-1))))
		return mathBool(True), true
	case "$key": // $key(i): the i-th key of this map iteration
		it := e.iter()
		return SV{t: Select(it.enum, ev(0).t), typ: it.mt.Underlying().(*types.Map).Key()}, true
	case "$pos":
		return mathInt(Select(e.iter().pos, ev(0).t)), true
	case "pathmatch":
		return mathBool(And(Fun("path_ok", SBool, ev(0).t, ev(1).t), Fun("path_match", SBool, ev(0).t, ev(1).t))), true
	case "hasprefix":
		return mathBool(strPrefix(strOrBytes(0), strOrBytes(1))), true
	case "hassuffix":
		return mathBool(hasSuffixT(x, e.st, strOrBytes(0), strOrBytes(1))), true
	case "substr":
		return SV{t: x.substr(e.st, strOrBytes(0), ev(1).t, ev(2).t), typ: strT}, true
	case "is_random":
		return mathBool(Fun("is_random", SBool, strOrBytes(0))), true
	case "hex_ok", "hex_dec":
		h := e.strOf(ev(0))
		ok, d := hexDec(x, e.st, h)
		if name == "hex_ok" {
			return mathBool(ok), true
		}
		return SV{t: d, typ: strT}, true
	case "hmac_sha256", "hex_enc", "b64_enc", "b64_dec", "pbkdf2", "ed_key", "ed_pub", "ed_sign":
		var ts []*Term
		for i := range args {
			v := ev(i)
			ts = append(ts, e.strOf(v))
		}
		r := strFun(name, ts...)
		if n, ok := map[string]int64{"hmac_sha256": 32, "ed_key": 64, "ed_pub": 32, "ed_sign": 64}[name]; ok && !r.bound {
			x.axiom(Eq(x.strlen(e.st, r), IntT(n)))
		}
		return SV{t: r, typ: strT}, true
	case "str_cat":
		return SV{t: x.strcat(e.st, e.strOf(ev(0)), e.strOf(ev(1))), typ: strT}, true
	case "b64_ok", "nacl_open":
		var ts []*Term
		for i := range args {
			ts = append(ts, e.strOf(ev(i)))
		}
		if name == "nacl_open" {
			x.edFacts(e.st, ts[0], ts[1])
		}
		return mathBool(Fun(name, SBool, ts...)), true
	case "methods_of":
		r := Fun("auth_methods", SSlice, ev(0).t)
		x.axiom(wfSlice(r, x.next0()))
		return SV{t: r, typ: types.NewSlice(x.w.namedType("auth", "Method"))}, true
	case "approved":
		var ts []*Term
		for i := range args {
			ts = append(ts, e.strOf(ev(i)))
		}
		return mathBool(Fun("approved", SBool, ts...)), true
	case "fcls":
		return mathInt(FCls(ev(0).t)), true
	case "isint":
		f := ev(0).t
		return mathBool(And(Eq(FCls(f), IntT(0)), Eq(rawApp("to_real", "Real", rawApp("to_int", SInt, FVal(f))), FVal(f)))), true
	case "nonneg":
		return mathBool(rawApp("<=", SBool, realT("0.0"), FVal(ev(0).t))), true
	case "unchanged": // arrays of this element type that existed before the function are as they were
		t := typ(0)
		c := regContent(compElem(t.Underlying().(*types.Slice).Elem()), t.Underlying().(*types.Slice).Elem())
		r := BVar("r", SInt)
		h, h0 := x.h(e.st, c), x.h(e.old, c)
		if h == h0 {
			return mathBool(True), true
		}
		return mathBool(Forall([]*Term{r}, [][]*Term{{Select(h, r)}}, Implies(Lt(r, x.next0()), Eq(Select(h, r), Select(h0, r))))), true
	case "trunc":
		return mathInt(truncF(FVal(ev(0).t))), true
	case "float":
		return SV{t: MkFlt(IntT(0), rawApp("to_real", "Real", ev(0).t)), typ: types.Typ[types.Float64]}, true
	case "islpm": // islpm(tree, s, k): k is the longest key of the tree that is a prefix of s
		v := ev(0)
		d, _ := treeComps()
		dom := Select(x.h(e.st, d), v.t)
		s := ev(1)
		key, ok := x.lpm(e.st, dom, s.t)
		return mathBool(And(ok, Eq(key, ev(2).t))), true
	case "haslpm":
		v := ev(0)
		d, _ := treeComps()
		_, ok := x.lpm(e.st, Select(x.h(e.st, d), v.t), ev(1).t)
		return mathBool(ok), true
	case "lpm":
		v := ev(0)
		d, _ := treeComps()
		k, _ := x.lpm(e.st, Select(x.h(e.st, d), v.t), ev(1).t)
		return SV{t: k, typ: strT}, true
	case "sent": // the message most recently given to a serializer
		return SV{t: Select(x.h(e.st, sentComp()), IntT(0)), typ: e.x.w.namedType("messages", "Message")}, true
	case "encodes": // encodes("codec", bytes, m): the bytes are the codec's encoding of what m marshals to
		return mathBool(x.encodes(e.st, ev(0).t.op, e.strOf(ev(1)), e.msgArg(ev(2)))), true
	case "encoded": // encoded("codec", bytes): the value that the bytes encode
		return SV{t: Fun("encoded_"+ev(0).t.op, SAny, e.strOf(ev(1))), typ: anyT}, true
	case "isenc":
		return mathBool(Fun("isenc_"+ev(0).t.op, SBool, e.strOf(ev(1)))), true
	case "decodes": // decodes("codec", bytes), and the list then decoded
		return mathBool(Fun("decodes_"+ev(0).t.op, SBool, e.strOf(ev(1)))), true
	case "decoded":
		return SV{t: Fun("decoded_"+ev(0).t.op, SSlice, e.strOf(ev(1))), typ: anySlice}, true
	case "serialize_ok":
		return mathBool(Fun("serialize_ok", SBool, ev(0).t, e.msgArg(ev(1)))), true
	case "serialized":
		return SV{t: strFun("serialized", ev(0).t, e.msgArg(ev(1))), typ: strT}, true
	case "holds": // holds(m, k): a map that keeps its values as any has one of its own value type under k
		m, k := ev(0), ev(1)
		ref, kt, vt, ok := e.syncMapOf(m)
		if !ok || vt == anyT {
			return mathBool(True), true
		}
		_, v := smComps()
		if k.t.sort != SAny {
			k.t = mkIface(kt, k.t)
		}
		return mathBool(Eq(ATag(Select(Select(x.h(e.st, v), ref), k.t)), IntT(int64(tagOf(vt))))), true
	case "deserialize_ok":
		return mathBool(Fun("deserialize_ok", SBool, ev(0).t, e.strOf(ev(1)))), true
	case "deserialized":
		return SV{t: Fun("deserialized", SAny, ev(0).t, e.strOf(ev(1))), typ: e.x.w.namedType("messages", "Message")}, true
	case "pow2":
		return mathInt(x.pow2(e.st, ev(0).t)), true
	case "sub":
		return SV{t: ev(0).t}, true
	}
	return SV{}, false
}

func (e *specEnv) msgArg(v SV) *Term {
	if v.t.sort == SAny {
		return v.t
	}
	return mkIface(v.typ, v.t)
}

// ---- loops ----

func (x *Exec) findLoopSpec(li *loopInfo) *LoopSpec {
	if x.top == nil {
		return nil
	}
	key := ""
	if li.typ != nil {
		key = typeKey(li.typ)
	}
	var any *LoopSpec
	for _, l := range x.top.loops {
		if l.kind != li.kind {
			continue
		}
		want := l.typ
		if want != "" {
			want = typeKey(x.w.resolveType(want, x.topEnv.pkg))
		}
		if want != "" && want != key {
			continue
		}
		if any == nil {
			any = l
		}
	}
	return any
}

func (x *Exec) loopEnv(st, pre *State, li *loopInfo) *specEnv {
	env := x.topEnv.child()
	env.st, env.pre, env.li = st, pre, li
	return env
}

// noLoopVar: an invariant names a variable that this loop does not carry. The invariant is left out: it is neither
// assumed nor proved, so what depended on it fails by itself.
type noLoopVar struct{ msg string }

func applies(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(noLoopVar); !is {
				panic(r)
			}
			ok = false
		}
	}()
	f()
	return true
}

func (x *Exec) evalInv(st, pre *State, li *loopInfo, c *Clause) *Term {
	t := True
	q := x.quiet
	if !applies(func() { t = x.loopEnv(st, pre, li).bool(c) }) {
		x.quiet = q
		return True
	}
	return t
}

// isName: a clause name, possibly with the premises it follows from ("NAME by A B").
func isName(s string) bool {
	ws := strings.Fields(s)
	if len(ws) == 0 || len(ws) == 2 || len(ws) > 2 && ws[1] != "by" {
		return false
	}
	for _, w := range ws {
		if !isIdent(w) {
			return false
		}
	}
	return true
}
