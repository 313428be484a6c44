package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T is an interned SMT term.
type T struct {
	op   string // literal, symbol or operator
	args []*T
	sort string
	k    byte // 'c' constant symbol, 'i' int literal, 'b' bool literal, 's' string literal, 'f' application, 'q' quantifier, 'v' bound var
	id   int
	pats [][]*T // quantifier patterns
	nv   int    // number of bound variables (args[:nv]), args[nv] is the body
	lit  string // string literal content
	n    *big.Int
	free bool // contains bound variables
}

var (
	interned = map[string]*T{}
	nterms   int
)

func intern(t *T) *T {
	var sb strings.Builder
	sb.WriteByte(t.k)
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.sort)
	sb.WriteByte('|')
	if t.k == 's' {
		sb.WriteString(t.lit)
	}
	for _, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, p := range t.pats {
		sb.WriteByte(';')
		for _, a := range p {
			sb.WriteByte(',')
			sb.WriteString(strconv.Itoa(a.id))
		}
	}
	key := sb.String()
	if x, ok := interned[key]; ok {
		return x
	}
	nterms++
	t.id = nterms
	if t.k == 'v' {
		t.free = true
	}
	for _, a := range t.args {
		if a.free {
			t.free = true
		}
	}
	interned[key] = t
	return t
}

const (
	sInt   = "Int"
	sBool  = "Bool"
	sStr   = "Str"
	sF     = "F"
	sIface = "Iface"
	sSlice = "Slice"
)

func arrS(a, b string) string { return "(Array " + a + " " + b + ")" }

// arrElem splits "(Array A B)".
func arrParts(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[7 : len(s)-1]
	depth := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad sort " + s)
}

var (
	tTrue  = intern(&T{op: "true", sort: sBool, k: 'b'})
	tFalse = intern(&T{op: "false", sort: sBool, k: 'b'})
)

func Bool(b bool) *T {
	if b {
		return tTrue
	}
	return tFalse
}

func Big(n *big.Int) *T {
	return intern(&T{op: n.String(), sort: sInt, k: 'i', n: new(big.Int).Set(n)})
}
func Int(n int64) *T { return Big(big.NewInt(n)) }

func Const(name, sort string) *T { return intern(&T{op: name, sort: sort, k: 'c'}) }

func StrLit(s string) *T { return intern(&T{op: "strlit", lit: s, sort: sStr, k: 's'}) }

var freshN = map[string]int{}

// resetTerms drops every interned term, so that the obligations of a function do not depend on what was verified before it.
func resetTerms(p *Prog) {
	interned = map[string]*T{}
	nterms = 0
	freshN = map[string]int{}
	strNames = map[string]string{}
	tTrue = intern(&T{op: "true", sort: sBool, k: 'b'})
	tFalse = intern(&T{op: "false", sort: sBool, k: 'b'})
	inil = mk("inil", sIface)
	nilSlice = mk("mkslice", sSlice, Int(0), Int(0), Int(0), Int(0))
	maxLen = Big(new(big.Int).Lsh(big.NewInt(1), 60))
	p.globalConst = map[*ssa.Global]*T{}
	p.staticRef = map[string]*T{}
	p.tids = map[string]int{}
	p.tidType = nil
}

func Fresh(hint, sort string) *T {
	hint = sanitize(hint)
	freshN[hint]++
	return Const(fmt.Sprintf("%s!%d", hint, freshN[hint]), sort)
}

func BVar(hint, sort string) *T {
	hint = sanitize(hint)
	freshN["?"+hint]++
	return intern(&T{op: fmt.Sprintf("%s?%d", hint, freshN["?"+hint]), sort: sort, k: 'v'})
}

// QVarAt is a bound variable named by its nesting depth, so that equal formulas intern to one term.
func QVarAt(hint, sort string, depth int) *T {
	return intern(&T{op: fmt.Sprintf("%s?q%d", sanitize(hint), depth), sort: sort, k: 'v'})
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.', c == '$', c == '!':
			b.WriteRune(c)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

func mk(op, sort string, args ...*T) *T {
	for _, a := range args {
		if a == nil {
			panic("nil argument to " + op)
		}
	}
	return intern(&T{op: op, args: args, sort: sort, k: 'f'})
}

// uninterpreted function signatures seen so far (name -> decl)
var funDecl = map[string]string{}

// UF applies an uninterpreted function.
func UF(name, sort string, args ...*T) *T {
	if _, ok := funDecl[name]; !ok {
		var ss []string
		for _, a := range args {
			ss = append(ss, a.sort)
		}
		funDecl[name] = fmt.Sprintf("(declare-fun %s (%s) %s)", sym(name), strings.Join(ss, " "), sort)
	}
	return mk(name, sort, args...)
}

func Not(a *T) *T {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not" && a.k == 'f':
		return a.args[0]
	}
	return mk("not", sBool, a)
}

func And(xs ...*T) *T {
	var out []*T
	seen := map[*T]bool{}
	for _, x := range xs {
		if x == tFalse {
			return tFalse
		}
		if x == tTrue {
			continue
		}
		ys := []*T{x}
		if x.op == "and" && x.k == 'f' {
			ys = x.args
		}
		for _, y := range ys {
			if !seen[y] {
				seen[y] = true
				out = append(out, y)
			}
		}
	}
	for y := range seen {
		if seen[Not(y)] {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk("and", sBool, out...)
}

func Or(xs ...*T) *T {
	var out []*T
	seen := map[*T]bool{}
	for _, x := range xs {
		if x == tTrue {
			return tTrue
		}
		if x == tFalse {
			continue
		}
		ys := []*T{x}
		if x.op == "or" && x.k == 'f' {
			ys = x.args
		}
		for _, y := range ys {
			if !seen[y] {
				seen[y] = true
				out = append(out, y)
			}
		}
	}
	for y := range seen {
		if seen[Not(y)] {
			return tTrue
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mk("or", sBool, out...)
}

func Imp(a, b *T) *T {
	switch {
	case a == tTrue:
		return b
	case a == tFalse || b == tTrue:
		return tTrue
	case b == tFalse:
		return Not(a)
	case a == b:
		return tTrue
	}
	return mk("=>", sBool, a, b)
}

func Ite(c, a, b *T) *T {
	switch {
	case c == tTrue:
		return a
	case c == tFalse:
		return b
	case a == b:
		return a
	}
	if c.op == "not" && c.k == 'f' {
		return Ite(c.args[0], b, a)
	}
	if a.sort == sBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return Not(c)
		}
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s / %s: %s / %s", a.sort, b.sort, a, b))
	}
	return mk("ite", a.sort, c, a, b)
}

var ctors = map[string]bool{"inil": true, "istr": true, "iint": true, "iflt": true, "iref": true, "ibool": true, "islice": true, "mkslice": true}

func isCtor(t *T) bool { return (t.k == 'f' || t.k == 'c') && ctors[t.op] }

func Eq(a, b *T) *T {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("= sorts %s / %s: %s / %s", a.sort, b.sort, a, b))
	}
	if (a.k == 'i' && b.k == 'i') || (a.k == 's' && b.k == 's') || (a.k == 'b' && b.k == 'b') {
		return tFalse
	}
	if a.sort == sBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	}
	if isCtor(a) && isCtor(b) {
		if a.op != b.op {
			return tFalse
		}
		var cs []*T
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.sort == sInt {
		if a.op == "ix" && b.op == "ix" && a.args[0] == b.args[0] {
			return Eq(a.args[1], b.args[1])
		}
		la, lb := linOf(a), linOf(b)
		d := la.sub(lb)
		if len(d.co) == 0 {
			return Bool(d.k.Sign() == 0)
		}
	}
	if a.op == "ite" && b.k != 'f' && (isLit(a.args[1]) || isLit(a.args[2])) && isLit(b) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == "ite" && a.k != 'f' && (isLit(b.args[1]) || isLit(b.args[2])) && isLit(a) {
		return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", sBool, a, b)
}

func isLit(t *T) bool { return t.k == 'i' || t.k == 's' || t.k == 'b' }

func Neq(a, b *T) *T { return Not(Eq(a, b)) }

// --- linear integer terms ---

type lin struct {
	co map[*T]*big.Int
	k  *big.Int
}

func linOf(t *T) lin {
	l := lin{map[*T]*big.Int{}, new(big.Int)}
	l.add(t, big.NewInt(1))
	return l
}

func (l *lin) add(t *T, c *big.Int) {
	switch {
	case t.k == 'i':
		l.k.Add(l.k, new(big.Int).Mul(t.n, c))
	case t.k == 'f' && t.op == "+":
		for _, a := range t.args {
			l.add(a, c)
		}
	case t.k == 'f' && t.op == "-" && len(t.args) == 2:
		l.add(t.args[0], c)
		l.add(t.args[1], new(big.Int).Neg(c))
	case t.k == 'f' && t.op == "*" && len(t.args) == 2 && t.args[0].k == 'i':
		l.add(t.args[1], new(big.Int).Mul(c, t.args[0].n))
	default:
		x := l.co[t]
		if x == nil {
			x = new(big.Int)
		}
		x = new(big.Int).Add(x, c)
		if x.Sign() == 0 {
			delete(l.co, t)
		} else {
			l.co[t] = x
		}
	}
}

func (l lin) sub(m lin) lin {
	r := lin{map[*T]*big.Int{}, new(big.Int).Sub(l.k, m.k)}
	for t, c := range l.co {
		r.co[t] = new(big.Int).Set(c)
	}
	for t, c := range m.co {
		x := r.co[t]
		if x == nil {
			x = new(big.Int)
		}
		x = new(big.Int).Sub(x, c)
		if x.Sign() == 0 {
			delete(r.co, t)
		} else {
			r.co[t] = x
		}
	}
	return r
}

func (l lin) term() *T {
	var ts []*T
	for t := range l.co {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*T
	for _, t := range ts {
		c := l.co[t]
		if c.Cmp(big.NewInt(1)) == 0 {
			out = append(out, t)
		} else {
			out = append(out, mk("*", sInt, Big(c), t))
		}
	}
	if l.k.Sign() != 0 || len(out) == 0 {
		out = append(out, Big(l.k))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("+", sInt, out...)
}

func Add(xs ...*T) *T {
	l := lin{map[*T]*big.Int{}, new(big.Int)}
	for _, x := range xs {
		l.add(x, big.NewInt(1))
	}
	return l.term()
}

// Ix is the position off+i in a backing array. It is kept as one application, so that
// quantifiers over the elements of a slice can be instantiated without solving sums.
func Ix(off, i *T) *T {
	l := linOf(off)
	if len(l.co) == 0 {
		return Add(off, i)
	}
	i = Add(i, Big(l.k))
	l.k = new(big.Int)
	return UF("ix", sInt, l.term(), i)
}

func Sub(a, b *T) *T { return linOf(a).sub(linOf(b)).term() }
func Neg(a *T) *T    { return Sub(Int(0), a) }

func Mul(a, b *T) *T {
	if a.k == 'i' && b.k == 'i' {
		return Big(new(big.Int).Mul(a.n, b.n))
	}
	if b.k == 'i' {
		a, b = b, a
	}
	if a.k == 'i' {
		l := lin{map[*T]*big.Int{}, new(big.Int)}
		l.add(b, a.n)
		return l.term()
	}
	return mk("*", sInt, a, b)
}

func Le(a, b *T) *T {
	d := linOf(a).sub(linOf(b))
	if len(d.co) == 0 {
		return Bool(d.k.Sign() <= 0)
	}
	return mk("<=", sBool, a, b)
}
func Lt(a, b *T) *T {
	d := linOf(a).sub(linOf(b))
	if len(d.co) == 0 {
		return Bool(d.k.Sign() < 0)
	}
	return mk("<", sBool, a, b)
}
func Ge(a, b *T) *T { return Le(b, a) }
func Gt(a, b *T) *T { return Lt(b, a) }

// --- arrays ---

// distinctRefs reports whether two index terms are certainly different.
func distinctTerms(a, b *T) bool {
	if a == b {
		return false
	}
	if isLit(a) && isLit(b) {
		return true
	}
	if a.sort == sInt {
		d := linOf(a).sub(linOf(b))
		return len(d.co) == 0 && d.k.Sign() != 0
	}
	return false
}

func Select(a, i *T) *T {
	_, es := arrParts(a.sort)
	for {
		if a.op == "store" && a.k == 'f' {
			if a.args[1] == i {
				return a.args[2]
			}
			if distinctTerms(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" && a.k == 'f' {
			return a.args[0]
		}
		if a.op == "shift" && a.k == 'f' {
			a, i = a.args[0], Add(a.args[1], i)
			continue
		}
		if a.op == "sbytes" && a.k == 'f' && a.args[0].k == 's' && i.k == 'i' && i.n.IsInt64() {
			if n := i.n.Int64(); 0 <= n && n < int64(len(a.args[0].lit)) {
				return Int(int64(a.args[0].lit[n]))
			}
		}
		break
	}
	if ks, _ := arrParts(a.sort); ks != i.sort {
		panic(fmt.Sprintf("select %s at %s (%s)", a.sort, i.sort, i))
	}
	return mk("select", es, a, i)
}

func Store(a, i, v *T) *T {
	ks, es := arrParts(a.sort)
	if ks != i.sort || es != v.sort {
		panic(fmt.Sprintf("store %s [%s] := %s; %s", a.sort, i.sort, v.sort, v))
	}
	if v.op == "select" && v.k == 'f' && v.args[0] == a && v.args[1] == i {
		return a
	}
	if a.op == "store" && a.k == 'f' && a.args[1] == i {
		a = a.args[0]
	}
	return mk("store", a.sort, a, i, v)
}

func ConstArr(sort string, v *T) *T { return mk("constarr", sort, v) }

// --- quantifiers ---

func Forall(vars []*T, pats [][]*T, body *T) *T {
	if body == tTrue || len(vars) == 0 {
		return body
	}
	if body == tFalse {
		return tFalse
	}
	// drop unused variables
	used := map[*T]bool{}
	var walk func(t *T)
	seen := map[*T]bool{}
	walk = func(t *T) {
		if seen[t] || !t.free {
			return
		}
		seen[t] = true
		if t.k == 'v' {
			used[t] = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	for _, pt := range pats {
		for _, t := range pt {
			walk(t)
		}
	}
	var vs []*T
	for _, v := range vars {
		if used[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	return shifted(vs, pats, body)
}

// shifted states a quantified fact over array positions: where a trigger reads
// a[i+o], the fact is restated for p = i+o, so that the trigger is a[p] and matches
// every read of a. Distinct shifts for distinct triggers give equivalent copies.
func shifted(vs []*T, pats [][]*T, body *T) *T {
	type group struct {
		m    map[*T]*T
		pats [][]*T
	}
	var gs []*group
	bound := map[*T]bool{}
	for _, v := range vs {
		bound[v] = true
	}
	for _, p := range pats {
		m := map[*T]*T{}
		seen := map[*T]bool{}
		var walk func(t *T)
		walk = func(t *T) {
			if !t.free || seen[t] || t.k == 'q' {
				return
			}
			seen[t] = true
			if t.k == 'f' && t.op == "select" && t.args[1].k == 'f' && t.args[1].op == "+" {
				l := linOf(t.args[1])
				for v, c := range l.co {
					if bound[v] && m[v] == nil && c.IsInt64() && c.Int64() == 1 {
						o := Add(t.args[1], Neg(v))
						if !mentions(o, bound) {
							m[v] = Add(v, Neg(o))
						}
					}
				}
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		for _, t := range p {
			walk(t)
		}
		var g *group
		for _, h := range gs {
			if len(h.m) == len(m) {
				same := true
				for k, v := range m {
					if h.m[k] != v {
						same = false
					}
				}
				if same {
					g = h
				}
			}
		}
		if g == nil {
			g = &group{m: m}
			gs = append(gs, g)
		}
		g.pats = append(g.pats, p)
	}
	if len(gs) == 0 || len(gs) == 1 && len(gs[0].m) == 0 {
		return quant("forall", vs, pats, body)
	}
	var out []*T
	for _, g := range gs {
		var ps [][]*T
		for _, p := range g.pats {
			var q []*T
			for _, t := range p {
				q = append(q, subst(t, g.m))
			}
			ps = append(ps, q)
		}
		out = append(out, quant("forall", vs, ps, subst(body, g.m)))
	}
	return And(out...)
}

func Exists(vars []*T, body *T) *T {
	if body == tFalse || body == tTrue {
		return body
	}
	return quant("exists", vars, nil, body)
}

func quant(op string, vs []*T, pats [][]*T, body *T) *T {
	args := append(append([]*T{}, vs...), body)
	t := &T{op: op, args: args, sort: sBool, k: 'q', nv: len(vs), pats: pats}
	t = intern(t)
	// recompute freeness: bound variables are not free
	t.free = hasFree(t, map[*T]bool{})
	return t
}

func hasFree(t *T, bound map[*T]bool) bool {
	if t.k == 'v' {
		return !bound[t]
	}
	if t.k == 'q' {
		b := map[*T]bool{}
		for k := range bound {
			b[k] = true
		}
		for _, v := range t.args[:t.nv] {
			b[v] = true
		}
		return hasFree(t.args[t.nv], b)
	}
	if !t.free {
		return false
	}
	for _, a := range t.args {
		if hasFree(a, bound) {
			return true
		}
	}
	return false
}

// subst replaces terms (used to instantiate bound variables and constants).
func subst(t *T, m map[*T]*T) *T {
	memo := map[*T]*T{}
	var go_ func(t *T) *T
	go_ = func(t *T) *T {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		changed := false
		args := make([]*T, len(t.args))
		for i, a := range t.args {
			args[i] = go_(a)
			if args[i] != a {
				changed = true
			}
		}
		r := t
		if changed {
			if t.k == 'q' {
				var pats [][]*T
				for _, p := range t.pats {
					var q []*T
					for _, x := range p {
						q = append(q, go_(x))
					}
					pats = append(pats, q)
				}
				r = quant(t.op, args[:t.nv], pats, args[t.nv])
			} else {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return go_(t)
}

func rebuild(t *T, a []*T) *T {
	switch t.op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Imp(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	}
	return mk(t.op, t.sort, a...)
}

// mentions reports whether t contains any of the given terms.
func mentions(t *T, set map[*T]bool) bool {
	seen := map[*T]bool{}
	var walk func(t *T) bool
	walk = func(t *T) bool {
		if set[t] {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// --- printing ---

func sym(s string) string {
	if s != "" && s[0] >= '0' && s[0] <= '9' && !isNumeral(s) {
		return "|" + s + "|"
	}
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.$!~+-*/<>=%&@^", c)) {
			return "|" + s + "|"
		}
	}
	return s
}

func (t *T) String() string {
	var sb strings.Builder
	printTerm(&sb, t, nil)
	s := sb.String()
	return s
}

func printTerm(sb *strings.Builder, t *T, names map[*T]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch t.k {
	case 'i':
		if t.n.Sign() < 0 {
			sb.WriteString("(- " + new(big.Int).Neg(t.n).String() + ")")
		} else {
			sb.WriteString(t.op)
		}
	case 'b':
		sb.WriteString(t.op)
	case 's':
		sb.WriteString(strLitName(t.lit))
	case 'c', 'v':
		sb.WriteString(sym(t.op))
	case 'q':
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.args[:t.nv] {
			sb.WriteString("(" + sym(v.op) + " " + v.sort + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		printTerm(sb, t.args[t.nv], names)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					printTerm(sb, x, names)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		if len(t.args) == 0 {
			sb.WriteString(sym(t.op))
			return
		}
		if t.op == "constarr" {
			sb.WriteString("((as const " + t.sort + ") ")
			printTerm(sb, t.args[0], names)
			sb.WriteString(")")
			return
		}
		sb.WriteString("(" + symOp(t.op))
		for _, a := range t.args {
			sb.WriteByte(' ')
			printTerm(sb, a, names)
		}
		sb.WriteString(")")
	}
}

func symOp(op string) string {
	if strings.HasPrefix(op, "(_ ") {
		return op
	}
	return sym(op)
}

var strNames = map[string]string{}

func strLitName(s string) string {
	if n, ok := strNames[s]; ok {
		return n
	}
	clean := ""
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			clean += string(c)
		} else {
			clean += "_"
		}
		if len(clean) > 16 {
			break
		}
	}
	n := fmt.Sprintf("str.%d.%s", len(strNames), clean)
	strNames[s] = n
	return n
}

func isNumeral(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}
