package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

var inil = mk("inil", sIface)
var nilSlice = mk("mkslice", sSlice, Int(0), Int(0), Int(0), Int(0))
var maxLen = Big(new(big.Int).Lsh(big.NewInt(1), 60))

func mkSlice(ref, off, ln, cp *T) *T { return mk("mkslice", sSlice, ref, off, ln, cp) }

func sel(t *T, ctor, selname, sort string, i int) *T {
	if t.op == ctor && (t.k == 'f') {
		return t.args[i]
	}
	if t.op == "ite" && t.k == 'f' && (t.args[1].op == ctor || t.args[2].op == ctor) {
		return Ite(t.args[0], sel(t.args[1], ctor, selname, sort, i), sel(t.args[2], ctor, selname, sort, i))
	}
	return mk(selname, sort, t)
}

func sref(t *T) *T { return sel(t, "mkslice", "sref", sInt, 0) }
func soff(t *T) *T { return sel(t, "mkslice", "soff", sInt, 1) }
func slen(t *T) *T { return sel(t, "mkslice", "sllen", sInt, 2) }
func scap(t *T) *T { return sel(t, "mkslice", "scap", sInt, 3) }

// --- strings ---

func strLen(t *T) *T {
	switch {
	case t.k == 's':
		return Int(int64(len(t.lit)))
	case t.op == "scat" && t.k == 'f':
		return Add(strLen(t.args[0]), strLen(t.args[1]))
	case t.op == "ite" && t.k == 'f':
		return Ite(t.args[0], strLen(t.args[1]), strLen(t.args[2]))
	}
	return UF("slen", sInt, t)
}

func catParts(t *T, out []*T) []*T {
	if t.op == "scat" && t.k == 'f' {
		return catParts(t.args[1], catParts(t.args[0], out))
	}
	return append(out, t)
}

// concat keeps concatenations right-nested with adjacent literals merged.
func concat(xs ...*T) *T {
	var parts []*T
	for _, x := range xs {
		parts = catParts(x, parts)
	}
	var out []*T
	for _, p := range parts {
		if p.k == 's' {
			if p.lit == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].k == 's' {
				out[n-1] = StrLit(out[n-1].lit + p.lit)
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return StrLit("")
	}
	r := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		r = UF("scat", sStr, out[i], r)
	}
	return r
}

func sordT(t *T) *T { return UF("sord", "Real", t) }
func strLt(a, b *T) *T {
	if a.k == 's' && b.k == 's' {
		return Bool(a.lit < b.lit)
	}
	if a == b {
		return tFalse
	}
	return mk("<", sBool, sordT(a), sordT(b))
}

// --- floats ---

func fnan(t *T) *T {
	if t.k == 'f' && strings.HasPrefix(t.op, "flit:") {
		return tFalse
	}
	if t.op == "ite" {
		return Ite(t.args[0], fnan(t.args[1]), fnan(t.args[2]))
	}
	return UF("fnan", sBool, t)
}
func ford(t *T) *T { return UF("ford", "Real", t) }
func fltLt(a, b *T) *T {
	return And(Not(fnan(a)), Not(fnan(b)), mk("<", sBool, ford(a), ford(b)))
}
func fltLe(a, b *T) *T {
	return And(Not(fnan(a)), Not(fnan(b)), mk("<=", sBool, ford(a), ford(b)))
}
func fltEq(a, b *T) *T {
	if a == b {
		return Not(fnan(a))
	}
	return And(Not(fnan(a)), Not(fnan(b)), mk("=", sBool, ford(a), ford(b)))
}

// --- integers ---

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := uint(64)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	one := big.NewInt(1)
	if b.Info()&types.IsUnsigned != 0 {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one), true
	}
	h := new(big.Int).Lsh(one, bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
}

func inRange(t *T, ty types.Type) *T {
	lo, hi, ok := intRange(ty)
	if !ok {
		return tTrue
	}
	if t.k == 'i' {
		return Bool(t.n.Cmp(lo) >= 0 && t.n.Cmp(hi) <= 0)
	}
	return And(Le(Big(lo), t), Le(t, Big(hi)))
}

// wrapInt is two's complement reduction of a mathematical integer to a Go integer type.
func wrapInt(t *T, ty types.Type) *T {
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	mod := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	if t.k == 'i' {
		r := new(big.Int).Sub(t.n, lo)
		r.Mod(r, mod)
		return Big(r.Add(r, lo))
	}
	in := inRange(t, ty)
	return Ite(in, t, Add(mk("mod", sInt, Sub(t, Big(lo)), Big(mod)), Big(lo)))
}

// --- finite sets ---

// cardOf is the number of elements of a finite set; adding or removing one element is expanded.
func cardOf(s *T) *T {
	if s.op == "constarr" && s.args[0] == tFalse {
		return Int(0)
	}
	if s.op == "store" && s.k == 'f' {
		base, k, v := s.args[0], s.args[1], s.args[2]
		in := Select(base, k)
		switch v {
		case tTrue:
			return Add(cardOf(base), Ite(in, Int(0), Int(1)))
		case tFalse:
			return Sub(cardOf(base), Ite(in, Int(1), Int(0)))
		}
	}
	if s.op == "ite" && s.k == 'f' {
		return Ite(s.args[0], cardOf(s.args[1]), cardOf(s.args[2]))
	}
	if s.op == "select" && s.k == 'f' && s.args[0].op == "store" && s.args[0].k == 'f' {
		st := s.args[0]
		return Ite(Eq(s.args[1], st.args[1]), cardOf(st.args[2]), cardOf(Select(st.args[0], s.args[1])))
	}
	ks, _ := arrParts(s.sort)
	return UF("card_"+ks, sInt, s)
}

// --- prelude ---

const preludeSorts = `(set-logic ALL)
(declare-sort Str 0)
(declare-sort F 0)
(declare-datatypes ((Iface 0)) (((inil) (istr (istrv Str)) (iint (iintt Int) (iintv Int)) (iflt (ifltv F)) (ibool (iboolv Bool)) (iref (ireft Int) (irefr Int)) (islice (islicet Int) (islicev Slice))))
 ((Slice 0)) (((mkslice (sref Int) (soff Int) (sllen Int) (scap Int)))))
`

var preludeSortsOK = strings.Replace(`(set-option :produce-models true)
(set-logic ALL)
(declare-sort Str 0)
(declare-sort F 0)
(declare-datatypes ((Slice 0) (Iface 0)) (((mkslice (sref Int) (soff Int) (sllen Int) (scap Int))) ((inil) (istr (istrv Str)) (iint (iintt Int) (iintv Int)) (iflt (ifltv F)) (ibool (iboolv Bool)) (iref (ireft Int) (irefr Int)) (islice (islicet Int) (islicev Slice)))))
`, "\t", " ", -1)

// axiom is a background axiom that is only included when all its symbols occur.
type axiom struct {
	need []string
	text string
}

var axioms = []axiom{
	{[]string{"slen"}, "(assert (forall ((s Str)) (! (and (<= 0 (slen s)) (<= (slen s) 1152921504606846976)) :pattern ((slen s)))))"},
	{[]string{"ix"}, "(assert (forall ((o Int) (i Int)) (! (= (ix o i) (+ o i)) :pattern ((ix o i)))))"},
	{[]string{"sord"}, "(declare-fun sordinv (Real) Str)(assert (forall ((s Str)) (! (= (sordinv (sord s)) s) :pattern ((sord s)))))"},
	{[]string{"fmtI", "pi_ok", "pi_val"}, "(assert (forall ((i Int)) (! (=> (and (<= (- 9223372036854775808) i) (<= i 9223372036854775807)) (and (pi_ok (fmtI i)) (= (pi_val (fmtI i)) i))) :pattern ((fmtI i)))))"},
	{[]string{"pi_val"}, "(assert (forall ((s Str)) (! (and (<= (- 9223372036854775808) (pi_val s)) (<= (pi_val s) 9223372036854775807)) :pattern ((pi_val s)))))"},
	{[]string{"fmtF", "pf_ok", "pf_val"}, "(assert (forall ((f F)) (! (=> (not (fnan f)) (and (pf_ok (fmtF f)) (= (pf_val (fmtF f)) f))) :pattern ((fmtF f)))))"},
	{[]string{"fadd"}, "(assert (forall ((a F) (b F)) (! (= (fadd a b) (fadd b a)) :pattern ((fadd a b)))))"},
	{[]string{"scat", "slen"}, "(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))"},
	{[]string{"scat"}, "(assert (forall ((a Str) (b Str) (c Str)) (! (= (scat (scat a b) c) (scat a (scat b c))) :pattern ((scat (scat a b) c)))))"},
	{[]string{"shift"}, "(assert (forall ((d (Array Int Int)) (p Int) (i Int)) (! (= (select (shift d p) i) (select d (+ p i))) :pattern ((select (shift d p) i)))))"},
	{[]string{"nl"}, "(assert (forall ((d (Array Int Int)) (p Int) (s Int)) (! (=> (<= p s) (and (<= p (nl d p s)) (<= (nl d p s) s) (=> (< (nl d p s) s) (= (select d (nl d p s)) 10)))) :pattern ((nl d p s)))))(assert (forall ((d (Array Int Int)) (p Int) (s Int) (i Int)) (! (=> (and (<= p i) (< i (nl d p s))) (not (= (select d i) 10))) :pattern ((nl d p s) (select d i)))))"},
	{[]string{"bstr", "slen"}, "(assert (forall ((d (Array Int Int)) (q Int) (n Int)) (! (=> (<= 0 n) (= (slen (bstr d q n)) n)) :pattern ((bstr d q n)))))"},
	{[]string{"bstr", "ssub"}, "(assert (forall ((d (Array Int Int)) (q Int) (n Int) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b n)) (= (ssub (bstr d q n) a b) (bstr d (+ q a) (- b a)))) :pattern ((ssub (bstr d q n) a b)))))"},
	{[]string{"bstr", "sbytes"}, "(assert (forall ((d (Array Int Int)) (q Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (select (sbytes (bstr d q n)) i) (select d (+ q i)))) :pattern ((select (sbytes (bstr d q n)) i)))))"},
	{[]string{"bstr", "sbytes", "slen"}, "(assert (forall ((d (Array Int Int)) (q Int) (s Str)) (! (=> (forall ((i Int)) (! (=> (and (<= 0 i) (< i (slen s))) (= (select d (+ q i)) (select (sbytes s) i))) :pattern ((select (sbytes s) i)))) (= (bstr d q (slen s)) s)) :pattern ((bstr d q (slen s))))))"},
	{[]string{"scat", "sbytes", "slen"}, "(assert (forall ((a Str) (b Str) (i Int)) (! (=> (<= 0 i) (= (select (sbytes (scat a b)) i) (ite (< i (slen a)) (select (sbytes a) i) (select (sbytes b) (- i (slen a)))))) :pattern ((select (sbytes (scat a b)) i)))))"},
	{[]string{"card_Str"}, "(assert (forall ((s (Array Str Bool))) (! (<= 0 (card_Str s)) :pattern ((card_Str s)))))"},
	{[]string{"card_Str"}, "(declare-fun cardwit ((Array Str Bool)) Str)(assert (forall ((s (Array Str Bool))) (! (or (> (card_Str s) 0) (= s ((as const (Array Str Bool)) false))) :pattern ((card_Str s)))))(assert (forall ((s (Array Str Bool)) (k Str)) (! (=> (select s k) (> (card_Str s) 0)) :pattern ((card_Str s) (select s k)))))(assert (= (card_Str ((as const (Array Str Bool)) false)) 0))"},
}

// smtScript builds the script deciding hyps => goal (unsat means proved).
func smtScript(hyps []*T, goal *T, extra []*T, model bool) string {
	all := append(append([]*T{}, hyps...), extra...)
	if goal != nil {
		all = append(all, Not(goal))
	}
	var sb strings.Builder
	sb.WriteString(preludeSortsOK)
	// collect symbols
	seen := map[*T]bool{}
	consts := map[string]string{}
	funs := map[string]bool{}
	strs := map[string]bool{"": true}
	refc := map[*T]int{}
	var order []*T
	var walk func(t *T)
	walk = func(t *T) {
		refc[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		for _, p := range t.pats {
			for _, a := range p {
				walk(a)
			}
		}
		switch t.k {
		case 'c':
			consts[t.op] = t.sort
		case 's':
			strs[t.lit] = true
		case 'f':
			if _, ok := funDecl[t.op]; ok {
				funs[t.op] = true
			}
		}
		order = append(order, t)
	}
	for _, t := range all {
		walk(t)
	}
	var ax []string
	for _, a := range axioms {
		ok := true
		for _, n := range a.need {
			if !funs[n] {
				ok = false
			}
		}
		if ok {
			ax = append(ax, a.text)
			if strings.Contains(a.text, "fnan") && !funs["fnan"] {
				funs["fnan"] = true
				UF("fnan", sBool, Const("f?", sF))
			}
		}
	}
	var ns []string
	for n := range consts {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", sym(n), consts[n])
	}
	ns = ns[:0]
	for n := range funs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		sb.WriteString(funDecl[n] + "\n")
	}
	// string literals
	ns = ns[:0]
	for s := range strs {
		ns = append(ns, s)
	}
	sort.Strings(ns)
	for _, s := range ns {
		fmt.Fprintf(&sb, "(declare-fun %s () Str)\n", strLitName(s))
	}
	if len(ns) > 1 {
		sb.WriteString("(assert (distinct")
		for _, s := range ns {
			sb.WriteString(" " + strLitName(s))
		}
		sb.WriteString("))\n")
	}
	if funs["slen"] {
		for _, s := range ns {
			fmt.Fprintf(&sb, "(assert (= (slen %s) %d))\n", strLitName(s), len(s))
		}
		sb.WriteString("(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s " + strLitName("") + ")) :pattern ((slen s)))))\n")
	}
	if funs["scat"] {
		fmt.Fprintf(&sb, "(assert (forall ((a Str)) (! (and (= (scat %[1]s a) a) (= (scat a %[1]s) a)) :pattern ((scat %[1]s a)) :pattern ((scat a %[1]s)))))\n", strLitName(""))
	}
	if funs["bstr"] {
		for _, s := range ns {
			if len(s) == 0 || len(s) > 16 {
				continue
			}
			var cs strings.Builder
			for i := range []byte(s) {
				fmt.Fprintf(&cs, " (= (select d (+ q %d)) %d)", i, s[i])
			}
			fmt.Fprintf(&sb, "(assert (forall ((d (Array Int Int)) (q Int) (n Int)) (! (=> (<= 0 n) (= (= (bstr d q n) %s) (and (= n %d)%s))) :pattern ((bstr d q n)))))\n", strLitName(s), len(s), cs.String())
		}
	}
	if funs["sbytes"] {
		for _, s := range ns {
			for i := 0; i < len(s) && len(s) <= 16; i++ {
				fmt.Fprintf(&sb, "(assert (= (select (sbytes %s) %d) %d))\n", strLitName(s), i, s[i])
			}
		}
	}
	if funs["sord"] {
		for i := 0; i+1 < len(ns); i++ {
			fmt.Fprintf(&sb, "(assert (< (sord %s) (sord %s)))\n", strLitName(ns[i]), strLitName(ns[i+1]))
		}
	}
	for _, a := range ax {
		sb.WriteString(a + "\n")
	}
	// shared closed subterms
	names := map[*T]string{}
	for _, t := range order {
		if t.k == 'f' && len(t.args) > 0 && !t.free && refc[t] > 1 && !isLit(t) {
			n := fmt.Sprintf("$t%d", t.id)
			var b strings.Builder
			printTerm(&b, t, names)
			if b.Len() < 24 {
				continue
			}
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.sort, b.String())
			names[t] = n
		}
	}
	for _, t := range all {
		sb.WriteString("(assert ")
		printTerm(&sb, t, names)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	if model {
		sb.WriteString("(get-model)\n")
	}
	return sb.String()
}
