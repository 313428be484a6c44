package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SType is the type of a specification value.
type SType struct {
	sort string
	g    types.Type // Go type, if any
	k, v *SType     // spec arrays
}

var (
	stInt   = &SType{sort: sInt, g: types.Typ[types.Int]}
	stInts  = &SType{sort: arrS(sInt, sInt), k: stInt, v: stInt} // bytes of a stream or a string
	stBool  = &SType{sort: sBool, g: types.Typ[types.Bool]}
	stStr   = &SType{sort: sStr, g: types.Typ[types.String]}
	stFloat = &SType{sort: sF, g: types.Typ[types.Float64]}
	stAny   = &SType{sort: sIface, g: types.NewInterfaceType(nil, nil)}
	stReal  = &SType{sort: "Real"}
)

type SV struct {
	t  *T
	ty *SType
}

func goST(t types.Type) *SType { return &SType{sort: sortOfGo(t), g: t} }

// Env is an evaluation environment.
type Env struct {
	ex    *Exec
	st    *State
	old   *State
	pre   *State // state before the loop / call, for pre()
	bound map[string]SV
	names func(string, *State) (SV, bool)
	pkg   string
	alloc0 *T
	depth  int
}

func (e *Env) with(n string, v SV) *Env {
	f := *e
	f.bound = map[string]SV{}
	for k, x := range e.bound {
		f.bound[k] = x
	}
	f.bound[n] = v
	return &f
}

func (e *Env) fail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (e *Env) typ(t *TNode) *SType {
	switch t.op {
	case "ptr":
		a := e.typ(t.a)
		return goST(types.NewPointer(a.g))
	case "slice":
		a := e.typ(t.a)
		return goST(types.NewSlice(a.g))
	case "arr":
		k, v := e.typ(t.a), e.typ(t.b)
		return &SType{sort: arrS(k.sort, v.sort), k: k, v: v}
	}
	switch t.name {
	case "int":
		return stInt
	case "bool":
		return stBool
	case "string":
		return stStr
	case "float", "float64":
		return stFloat
	case "any", "error":
		return stAny
	case "real":
		return stReal
	case "int64", "uint", "uint32", "uint64", "int8", "byte", "uint8", "int32":
		return goST(types.Universe.Lookup(t.name).Type())
	}
	pk, n := e.pkg, t.name
	if i := strings.Index(n, "."); i >= 0 {
		pk, n = n[:i], n[i+1:]
	}
	p := e.ex.p.pkgs[pk]
	if p == nil {
		e.fail("unknown package %s", pk)
	}
	o := p.Pkg.Scope().Lookup(n)
	if o == nil {
		e.fail("unknown type %s.%s", pk, n)
	}
	return goST(o.Type())
}

func (e *Env) evalBool(n *Node) *T {
	v := e.eval(n)
	if v.ty.sort != sBool {
		e.fail("boolean expected: %s", v.t)
	}
	return v.t
}

func nodeInt(n *Node) bool { return n.op == "int" }

func (e *Env) eval(n *Node) SV {
	switch n.op {
	case "int":
		b, _ := new(big.Int).SetString(n.s, 10)
		return SV{Big(b), stInt}
	case "str":
		return SV{StrLit(n.s), stStr}
	case "id":
		return e.ident(n.s)
	case "old":
		if e.old == nil {
			e.fail("old() has no meaning here")
		}
		f := *e
		f.st = e.old
		return f.eval(n.kids[0])
	case "pre":
		if e.pre == nil {
			e.fail("pre() has no meaning here")
		}
		f := *e
		f.st = e.pre
		return f.eval(n.kids[0])
	case "!":
		return SV{Not(e.evalBool(n.kids[0])), stBool}
	case "neg":
		return SV{Neg(e.eval(n.kids[0]).t), stInt}
	case "&&":
		return SV{And(e.evalBool(n.kids[0]), e.evalBool(n.kids[1])), stBool}
	case "||":
		return SV{Or(e.evalBool(n.kids[0]), e.evalBool(n.kids[1])), stBool}
	case "==>":
		a := e.evalBool(n.kids[0])
		if a == tFalse {
			return SV{tTrue, stBool}
		}
		return SV{Imp(a, e.evalBool(n.kids[1])), stBool}
	case "<==>":
		return SV{Eq(e.evalBool(n.kids[0]), e.evalBool(n.kids[1])), stBool}
	case "if":
		c := e.evalBool(n.kids[0])
		if c == tTrue {
			return e.eval(n.kids[1])
		}
		if c == tFalse {
			return e.eval(n.kids[2])
		}
		a, b := e.eval(n.kids[1]), e.eval(n.kids[2])
		a, b = e.unify(a, b)
		return SV{Ite(c, a.t, b.t), a.ty}
	case "let":
		v := e.eval(n.kids[0])
		return e.with(n.s, v).eval(n.kids[1])
	case "==", "!=":
		a, b := e.eval(n.kids[0]), e.eval(n.kids[1])
		a, b = e.unify(a, b)
		r := Eq(a.t, b.t)
		if n.op == "!=" {
			r = Not(r)
		}
		return SV{r, stBool}
	case "<", "<=", ">", ">=":
		a, b := e.eval(n.kids[0]), e.eval(n.kids[1])
		return SV{cmpTerm(n.op, a, b), stBool}
	case "+":
		a, b := e.eval(n.kids[0]), e.eval(n.kids[1])
		switch a.ty.sort {
		case sStr:
			return SV{concat(a.t, b.t), stStr}
		case sF:
			return SV{UF("fadd", sF, a.t, b.t), stFloat}
		}
		return SV{Add(a.t, b.t), stInt}
	case "-":
		a, b := e.eval(n.kids[0]), e.eval(n.kids[1])
		return SV{Sub(a.t, b.t), stInt}
	case "*":
		return SV{Mul(e.eval(n.kids[0]).t, e.eval(n.kids[1]).t), stInt}
	case "/":
		return SV{mk("div", sInt, e.eval(n.kids[0]).t, e.eval(n.kids[1]).t), stInt}
	case "%":
		return SV{mk("mod", sInt, e.eval(n.kids[0]).t, e.eval(n.kids[1]).t), stInt}
	case "in":
		a, b := e.eval(n.kids[0]), e.eval(n.kids[1])
		return SV{Select(b.t, a.t), stBool}
	case "upd":
		a, i, v := e.eval(n.kids[0]), e.eval(n.kids[1]), e.eval(n.kids[2])
		if a.ty.k == nil {
			e.fail("update of a non-array")
		}
		if v.ty.sort != a.ty.v.sort && a.ty.v.sort == sIface {
			v = SV{e.ex.toIface(v.t, v.ty.g), stAny}
		}
		return SV{Store(a.t, i.t, v.t), a.ty}
	case "[]":
		a, i := e.eval(n.kids[0]), e.eval(n.kids[1])
		if a.ty.k != nil {
			return SV{Select(a.t, i.t), a.ty.v}
		}
		if a.ty.g != nil {
			switch u := a.ty.g.Underlying().(type) {
			case *types.Slice:
				return SV{e.ex.sliceElem(e.st, a.t, i.t, u.Elem()), goST(u.Elem())}
			case *types.Map:
				_, v := e.ex.mapHeaps(u)
				return SV{Select(Select(e.st.get(v), a.t), i.t), goST(u.Elem())}
			case *types.Basic:
				return SV{Select(sbytes(a.t), i.t), goST(types.Typ[types.Uint8])}
			}
		}
		e.fail("cannot index %s", a.t)
	case ".":
		// package-qualified constant or global
		if n.kids[0].op == "id" {
			if _, ok := e.lookup(n.kids[0].s); !ok {
				if p := e.ex.p.pkgs[n.kids[0].s]; p != nil {
					return e.member(p, n.s)
				}
			}
		}
		return e.field(e.eval(n.kids[0]), n.s)
	case "is":
		v := e.eval(n.kids[0])
		return SV{e.ex.isType(v.t, e.typ(n.ty).g), stBool}
	case "as":
		v := e.eval(n.kids[0])
		ty := e.typ(n.ty)
		return SV{e.ex.payload(v.t, ty.g), ty}
	case "lambda":
		q := n.vars[0]
		ty := e.typ(q.ty)
		b := QVarAt(q.name, ty.sort, e.depth+1)
		f := e.with(q.name, SV{b, ty})
		f.depth = e.depth + 1
		v := f.eval(n.kids[0])
		key := lamKey{b, v.t}
		a := e.ex.lams[key]
		if a == nil {
			a = lamTerm(b, v.t)
			if e.ex.lams == nil {
				e.ex.lams, e.ex.lamDef = map[lamKey]*T{}, map[*T]*T{}
			}
			e.ex.lams[key] = a
			e.ex.lamDef[a] = Forall([]*T{b}, [][]*T{{Select(a, b)}}, Eq(Select(a, b), v.t))
		}
		return SV{a, &SType{sort: a.sort, k: ty, v: v.ty}}
	case "forall", "exists":
		f := e
		var vs []*T
		d := e.depth
		for _, q := range n.vars {
			ty := e.typ(q.ty)
			d++
			b := QVarAt(q.name, ty.sort, d)
			vs = append(vs, b)
			f = f.with(q.name, SV{b, ty})
		}
		{
			g := *f
			g.depth = d
			f = &g
		}
		body := f.evalBool(n.kids[0])
		if n.op == "exists" {
			return SV{Exists(vs, body), stBool}
		}
		var pats [][]*T
		for _, tr := range n.trig {
			var p []*T
			for _, x := range tr {
				p = append(p, f.eval(x).t)
			}
			pats = append(pats, p)
		}
		return SV{Forall(vs, pats, body), stBool}
	case "call":
		return e.call(n)
	}
	e.fail("cannot evaluate %s", n.op)
	return SV{}
}

type lamKey struct{ b, body *T }

var lamNames = map[*T]string{}

// lamTerm is the array of a comprehension, as a function of the terms its body is built from, so that equal ones are seen to be equal.
func lamTerm(b, body *T) *T {
	var params []*T
	at := map[*T]*T{}
	only := true
	var shape func(t *T) *T
	shape = func(t *T) *T {
		if t == b || t.k == 'i' || t.k == 'b' || t.k == 's' {
			return t
		}
		if !t.free {
			if at[t] == nil {
				at[t] = Const(fmt.Sprintf("lam$%d.%s", len(params), t.sort), t.sort)
				params = append(params, t)
			}
			return at[t]
		}
		if t.k != 'f' {
			only = false
			return t
		}
		args := make([]*T, len(t.args))
		for i, a := range t.args {
			args[i] = shape(a)
		}
		return mk(t.op, t.sort, args...)
	}
	s := shape(body)
	srt := arrS(b.sort, body.sort)
	if !only {
		return Fresh("lam", srt)
	}
	k := mk("lam$", srt, b, s)
	if lamNames[k] == "" {
		lamNames[k] = fmt.Sprintf("lam.%d", len(lamNames))
	}
	return UF(lamNames[k], srt, params...)
}

// unify adapts nil literals and interface conversions of the two sides of a comparison.
func (e *Env) unify(a, b SV) (SV, SV) {
	if a.ty.sort == b.ty.sort {
		return a, b
	}
	if a.t.op == "nil?" {
		return SV{nilOf(b.ty.sort), b.ty}, b
	}
	if b.t.op == "nil?" {
		return a, SV{nilOf(a.ty.sort), a.ty}
	}
	if a.ty.sort == sIface && b.ty.g != nil {
		return a, SV{e.ex.toIface(b.t, b.ty.g), stAny}
	}
	if b.ty.sort == sIface && a.ty.g != nil {
		return SV{e.ex.toIface(a.t, a.ty.g), stAny}, b
	}
	e.fail("type mismatch: %s (%s) and %s (%s)", a.t, a.ty.sort, b.t, b.ty.sort)
	return a, b
}

func nilOf(sort string) *T {
	switch sort {
	case sInt:
		return Int(0)
	case sIface:
		return inil
	case sSlice:
		return nilSlice
	}
	panic(specErr{"nil of sort " + sort})
}

func cmpTerm(op string, a, b SV) *T {
	switch a.ty.sort {
	case sInt:
		switch op {
		case "<":
			return Lt(a.t, b.t)
		case "<=":
			return Le(a.t, b.t)
		case ">":
			return Gt(a.t, b.t)
		default:
			return Ge(a.t, b.t)
		}
	case sStr:
		switch op {
		case "<":
			return strLt(a.t, b.t)
		case "<=":
			return Not(strLt(b.t, a.t))
		case ">":
			return strLt(b.t, a.t)
		default:
			return Not(strLt(a.t, b.t))
		}
	case sF:
		switch op {
		case "<":
			return fltLt(a.t, b.t)
		case "<=":
			return fltLe(a.t, b.t)
		case ">":
			return fltLt(b.t, a.t)
		default:
			return fltLe(b.t, a.t)
		}
	}
	panic(specErr{"cannot compare " + a.t.String()})
}

func (e *Env) lookup(n string) (SV, bool) {
	if v, ok := e.bound[n]; ok {
		return v, true
	}
	if e.names != nil {
		if v, ok := e.names(n, e.st); ok {
			return v, true
		}
	}
	return SV{}, false
}

func (e *Env) ident(n string) SV {
	switch n {
	case "true":
		return SV{tTrue, stBool}
	case "false":
		return SV{tFalse, stBool}
	case "nil":
		return SV{mk("nil?", "nil?"), &SType{sort: "nil?"}}
	}
	if v, ok := e.lookup(n); ok {
		return v
	}
	if t, ok := e.ex.sp.ghostV[n]; ok {
		ty := e.typ(t)
		h := "GV:" + n
		e.ex.heapSort(h, ty.sort)
		return SV{e.st.get(h), ty}
	}
	if d, ok := e.ex.sp.defs[n]; ok && len(d.params) == 0 {
		return e.apply(d, nil)
	}
	if p := e.ex.p.pkgs[e.pkg]; p != nil {
		if v, ok := e.memberOK(p, n); ok {
			return v
		}
	}
	panic(specErr{"unknown name " + n})
}

func (e *Env) member(p *ssa.Package, n string) SV {
	v, ok := e.memberOK(p, n)
	if !ok {
		e.fail("unknown name %s.%s", p.Pkg.Name(), n)
	}
	return v
}

func (e *Env) memberOK(p *ssa.Package, n string) (SV, bool) {
	switch m := p.Members[n].(type) {
	case *ssa.NamedConst:
		t := e.ex.constTerm(m.Value)
		ty := goST(m.Value.Type())
		if m.Value.Value.Kind() == constant.Int {
			ty = stInt
		}
		return SV{t, ty}, true
	case *ssa.Global:
		return SV{e.ex.loadGlobal(e.st, m), goST(deref(m.Type()))}, true
	}
	return SV{}, false
}

func (e *Env) field(x SV, f string) SV {
	if x.ty.g == nil {
		e.fail("no field %s of %s", f, x.t)
	}
	base := deref(x.ty.g)
	key := typeKey(base)
	if gf, ok := e.ex.sp.ghostF[key+"."+f]; ok {
		ty := e.typ(gf.ty)
		h := "G:" + key + "." + f
		e.ex.heapSort(h, arrS(sInt, ty.sort))
		return SV{Select(e.st.get(h), refOf(x)), ty}
	}
	switch f {
	case "ref":
		if x.ty.sort == sSlice {
			return SV{sref(x.t), stInt}
		}
		if x.ty.sort == sInt {
			return SV{x.t, stInt}
		}
	case "off":
		return SV{soff(x.t), stInt}
	case "cap":
		return SV{scap(x.t), stInt}
	}
	st, ok := base.Underlying().(*types.Struct)
	if !ok {
		e.fail("%s is not a structure (field %s)", key, f)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			a := e.ex.fieldAddr(x.t, base, i)
			return SV{e.ex.loadRaw(e.st, a), goST(st.Field(i).Type())}
		}
	}
	e.fail("no field %s in %s", f, key)
	return SV{}
}

func (e *Env) call(n *Node) SV {
	switch n.s {
	case "len":
		v := e.eval(n.kids[0])
		switch v.ty.sort {
		case sSlice:
			return SV{slen(v.t), stInt}
		case sStr:
			return SV{strLen(v.t), stInt}
		}
		if v.ty.k != nil && v.ty.v.sort == sBool {
			return SV{cardOf(v.t), stInt}
		}
		if m, ok := v.ty.g.Underlying().(*types.Map); ok {
			d, _ := e.ex.mapHeaps(m)
			return SV{cardOf(Select(e.st.get(d), v.t)), stInt}
		}
	case "card":
		return SV{cardOf(e.eval(n.kids[0]).t), stInt}
	case "domof":
		v := e.eval(n.kids[0])
		m := v.ty.g.Underlying().(*types.Map)
		d, _ := e.ex.mapHeaps(m)
		k := goST(m.Key())
		return SV{Select(e.st.get(d), v.t), &SType{sort: arrS(k.sort, sBool), k: k, v: stBool}}
	case "valof":
		v := e.eval(n.kids[0])
		m := v.ty.g.Underlying().(*types.Map)
		_, h := e.ex.mapHeaps(m)
		k := goST(m.Key())
		el := goST(m.Elem())
		return SV{Select(e.st.get(h), v.t), &SType{sort: arrS(k.sort, el.sort), k: k, v: el}}
	case "arrayof": // backing array of a slice
		v := e.eval(n.kids[0])
		el := goST(v.ty.g.Underlying().(*types.Slice).Elem())
		return SV{Select(e.st.get(e.ex.elemHeap(el.g)), sref(v.t)), &SType{sort: arrS(sInt, el.sort), k: stInt, v: el}}
	case "emptyset":
		return SV{ConstArr(arrS(sStr, sBool), tFalse), &SType{sort: arrS(sStr, sBool), k: stStr, v: stBool}}
	case "constarr": // constarr(value-array-sample, v)
		a := e.eval(n.kids[0])
		v := e.eval(n.kids[1])
		return SV{ConstArr(a.ty.sort, v.t), a.ty}
	case "allocated":
		v := e.eval(n.kids[0])
		return SV{Lt(refOf(v), e.st.alloc), stBool}
	case "fresh":
		v := e.eval(n.kids[0])
		if e.alloc0 == nil {
			e.fail("fresh() has no meaning here")
		}
		return SV{And(Ge(refOf(v), e.alloc0), Lt(refOf(v), e.st.alloc)), stBool}
	case "ref":
		return SV{refOf(e.eval(n.kids[0])), stInt}
	case "gh": // gh("pkg.Type.ghost", ref): a ghost field of an untyped reference
		key := n.kids[0].s
		gf := e.ex.sp.ghostF[key]
		if gf == nil {
			e.fail("unknown ghost field %s", key)
		}
		ty := e.typ(gf.ty)
		h := "G:" + key
		e.ex.heapSort(h, arrS(sInt, ty.sort))
		return SV{Select(e.st.get(h), refOf(e.eval(n.kids[1]))), ty}
	case "elem": // elem("T", ref, i): element i of the backing array ref
		ty := e.typ(parseType(n.kids[0].s))
		return SV{Select(Select(e.st.get(e.ex.elemHeap(ty.g)), refOf(e.eval(n.kids[1]))), e.eval(n.kids[2]).t), ty}
	case "obj": // obj("*T", ref): a reference seen as a pointer
		return SV{refOf(e.eval(n.kids[1])), e.typ(parseType(n.kids[0].s))}
	case "mapat": // the domain of a map object given by reference and a sample type: not needed by clients
		e.fail("mapat")
	case "nan":
		return SV{fnan(e.eval(n.kids[0]).t), stBool}
	case "feq": // numeric equality of floats
		return SV{fltEq(e.eval(n.kids[0]).t, e.eval(n.kids[1]).t), stBool}
	case "ford":
		return SV{ford(e.eval(n.kids[0]).t), stReal}
	case "real_lt":
		return SV{mk("<", sBool, e.eval(n.kids[0]).t, e.eval(n.kids[1]).t), stBool}
	case "wrap64":
		return SV{wrapInt(e.eval(n.kids[0]).t, types.Typ[types.Int64]), stInt}
	case "deref": // value a pointer points to
		v := e.eval(n.kids[0])
		el := deref(v.ty.g)
		return SV{e.ex.loadRaw(e.st, e.ex.ptrAddr(v.t, el)), goST(el)}
	case "addr": // addr(x.f) of an address-taken field
		k := n.kids[0]
		x := e.eval(k.kids[0])
		base := deref(x.ty.g)
		st := base.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == k.s {
				a := e.ex.fieldAddr(x.t, base, i)
				return SV{e.ex.addrTerm(a), goST(types.NewPointer(st.Field(i).Type()))}
			}
		}
	case "iface":
		v := e.eval(n.kids[0])
		return SV{e.ex.toIface(v.t, v.ty.g), stAny}
	case "iface64": // an int64 in an interface
		return SV{e.ex.toIface(e.eval(n.kids[0]).t, types.Typ[types.Int64]), stAny}
	case "substr":
		return SV{UF("ssub", sStr, e.eval(n.kids[0]).t, e.eval(n.kids[1]).t, e.eval(n.kids[2]).t), stStr}
	}
	if d, ok := e.ex.sp.defs[n.s]; ok {
		var args []SV
		for _, k := range n.kids {
			args = append(args, e.eval(k))
		}
		return e.apply(d, args)
	}
	// pure Go function
	fn := e.ex.p.funcs[n.s]
	if fn == nil {
		fn = e.ex.p.funcs[e.pkg+"."+n.s]
	}
	if fn != nil && e.ex.p.isPure(fn) {
		var ts []*T
		for _, k := range n.kids {
			ts = append(ts, e.eval(k).t)
		}
		ty := goST(fn.Signature.Results().At(0).Type())
		return SV{UF("pure:"+funcName(fn), ty.sort, ts...), ty}
	}
	if u, ok := libUF[n.s]; ok {
		var ts []*T
		for _, k := range n.kids {
			ts = append(ts, e.eval(k).t)
		}
		return SV{u.f(ts), u.ty}
	}
	panic(specErr{"unknown function " + n.s})
}

func refOf(v SV) *T {
	switch v.ty.sort {
	case sSlice:
		return sref(v.t)
	case sIface:
		return sel(v.t, "iref", "irefr", sInt, 1)
	}
	return v.t
}

func (e *Env) apply(d *Def, args []SV) SV {
	if len(args) != len(d.params) {
		e.fail("%s takes %d arguments", d.name, len(d.params))
	}
	de := *e
	de.pkg = d.pkg
	ret := stBool
	if d.ret != nil {
		ret = de.typ(d.ret)
	}
	for i := range args {
		pt := de.typ(d.params[i].ty)
		if args[i].ty.sort != pt.sort {
			if args[i].t.op == "nil?" {
				args[i] = SV{nilOf(pt.sort), pt}
			} else if pt.sort == sIface {
				args[i] = SV{e.ex.toIface(args[i].t, args[i].ty.g), stAny}
			} else {
				e.fail("argument %d of %s has sort %s, not %s", i, d.name, args[i].ty.sort, pt.sort)
			}
		}
	}
	if d.body == nil || d.rec {
		var ts []*T
		for _, a := range args {
			ts = append(ts, a.t)
		}
		if d.rec {
			e.ex.recUsed[d.name] = true
		}
		return SV{UF(d.name, ret.sort, ts...), ret}
	}
	de.names = nil
	de.bound = map[string]SV{}
	for i, p := range d.params {
		ty := de.typ(p.ty)
		de.bound[p.name] = SV{args[i].t, ty}
	}
	v := de.eval(d.body)
	if d.ret != nil {
		if v.ty.sort != ret.sort {
			if v.t.op == "nil?" {
				v = SV{nilOf(ret.sort), ret}
			} else if ret.sort == sIface {
				v = SV{e.ex.toIface(v.t, v.ty.g), stAny}
			} else {
				e.fail("%s returns %s, not %s", d.name, v.ty.sort, ret.sort)
			}
		}
		v.ty = ret
	}
	return v
}
