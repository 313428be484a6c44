package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// instr executes a non-control instruction; false stops the path.
func (x *Exec) instr(fr *Frame, in ssa.Instruction, st *State) bool {
	switch c := in.(type) {
	case *ssa.DebugRef:
		if id := c.Object(); id != nil {
			v, ok := fr.env[c.X]
			if !ok {
				switch c.X.(type) {
				case *ssa.Const:
					v = x.val(fr, c.X)
				default:
					return true
				}
			}
			if vr, isVar := id.(*types.Var); isVar && !vr.IsField() {
				x.setName(fr, id.Name(), v, c.IsAddr, id.Type())
			}
		}
	case *ssa.Phi:
		panic(abort{"stray phi"})
	case *ssa.Alloc:
		el := deref(c.Type())
		if fr.env[c].t != nil && !c.Heap {
			// a local variable re-entered in a loop keeps a fresh object per execution
		}
		r := x.allocObj(st, el)
		if st2, ok := el.Underlying().(*types.Struct); ok {
			_ = st2
		}
		fr.env[c] = Val{t: r}
		x.setName(fr, c.Comment, Val{t: r}, true, el)
		x.afterAlloc(fr, st, r, el)
	case *ssa.FieldAddr:
		base := deref(c.X.Type())
		p := x.term(x.val(fr, c.X))
		x.nonNil(st, p, "field "+fieldNameOf(base, c.Field))
		fr.env[c] = Val{addr: x.fieldAddr(p, base, c.Field)}
	case *ssa.Field:
		v := x.val(fr, c.X)
		if v.flds == nil {
			panic(abort{"field of a structure value"})
		}
		fr.env[c] = v.flds[c.Field]
	case *ssa.IndexAddr:
		ix := x.val(fr, c.Index).t
		switch u := c.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.val(fr, c.X).t
			x.prove(st, "bounds", "slice index", []string{"C20"}, And(Le(Int(0), ix), Lt(ix, slen(s))), "")
			st.assume(And(Le(Int(0), ix), Lt(ix, slen(s))))
			if sortOfGo(u.Elem()) == "struct" {
				panic(abort{"slice of structures"})
			}
			fr.env[c] = Val{addr: &Addr{heap: x.elemHeap(u.Elem()), ref: sref(s), idx: Ix(soff(s), ix), ty: u.Elem()}}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			p := x.term(x.val(fr, c.X))
			x.prove(st, "bounds", "array index", []string{"C20"}, And(Le(Int(0), ix), Lt(ix, Int(at.Len()))), "")
			fr.env[c] = Val{addr: &Addr{heap: x.elemHeap(at.Elem()), ref: p, idx: ix, ty: at.Elem()}}
		default:
			panic(abort{"index of " + c.X.Type().String()})
		}
	case *ssa.Index:
		panic(abort{"array index"})
	case *ssa.Lookup:
		if m, ok := c.X.Type().Underlying().(*types.Map); ok {
			x.mapLookup(fr, c, m, st)
			return true
		}
		s := x.val(fr, c.X).t
		ix := x.val(fr, c.Index).t
		x.prove(st, "bounds", "string index", []string{"C20"}, And(Le(Int(0), ix), Lt(ix, strLen(s))), "")
		v := Select(sbytes(s), ix)
		st.assume(inRange(v, c.Type()))
		fr.env[c] = Val{t: v}
	case *ssa.UnOp:
		return x.unop(fr, c, st)
	case *ssa.BinOp:
		if p, ok := c.X.(*ssa.Phi); ok && p.Comment == "rangeindex" && c.Op == token.ADD {
			// the hidden index of a range loop never exceeds the length it is compared with
			fr.env[c] = Val{t: Add(x.term(x.val(fr, c.X)), x.term(x.val(fr, c.Y)))}
			return true
		}
		fr.env[c] = Val{t: x.binop(st, c.Op, x.term(x.val(fr, c.X)), x.term(x.val(fr, c.Y)), c.X.Type(), c.Type())}
	case *ssa.Store:
		a := x.addrOf(x.val(fr, c.Addr), c.Addr.Type())
		v := x.val(fr, c.Val)
		if a.st != nil {
			x.storeStruct(st, a, v)
			return true
		}
		if a.ref != nil {
			x.nonNilAddr(st, a)
		}
		if v.clo != nil && strings.HasPrefix(a.heap, "C:") {
			x.cloCells[a.ref] = v.clo
		}
		x.store(st, a, x.term(v))
	case *ssa.MakeInterface:
		v := x.val(fr, c.X)
		if v.flds != nil {
			panic(abort{"structure in an interface"})
		}
		if sortOfGo(c.X.Type()) == sStr {
			if b, ok := c.X.Type().(*types.Basic); !ok || b.Kind() != types.String {
				fr.env[c] = Val{t: mk("iref", sIface, x.p.tid(c.X.Type()), UF("box:"+typeKey(c.X.Type()), sInt, v.t))}
				return true
			}
		}
		fr.env[c] = Val{t: x.toIface(x.term(v), c.X.Type())}
	case *ssa.ChangeInterface:
		fr.env[c] = x.val(fr, c.X)
	case *ssa.ChangeType:
		fr.env[c] = x.val(fr, c.X)
	case *ssa.Convert:
		fr.env[c] = x.convert(fr, c, st)
	case *ssa.TypeAssert:
		v := x.val(fr, c.X).t
		ok := x.isType(v, c.AssertedType)
		pl := x.payload(v, c.AssertedType)
		if c.CommaOk {
			fr.env[c] = Val{tup: []Val{{t: Ite(ok, pl, zeroOf(c.AssertedType))}, {t: ok}}}
			st.assume(Imp(ok, x.typeFacts(st, pl, c.AssertedType)))
			return true
		}
		x.prove(st, "assertion", "type assertion to "+typeKey(c.AssertedType), []string{"C20"}, ok, "")
		st.assume(ok)
		st.assume(x.typeFacts(st, pl, c.AssertedType))
		fr.env[c] = Val{t: pl}
	case *ssa.Extract:
		v := x.val(fr, c.Tuple)
		fr.env[c] = v.tup[c.Index]
	case *ssa.MakeClosure:
		cl := &Closure{fn: c.Fn.(*ssa.Function)}
		for _, b := range c.Bindings {
			cl.binds = append(cl.binds, x.val(fr, b))
		}
		fr.env[c] = Val{clo: cl, t: x.p.static("func:" + funcName(cl.fn))}
	case *ssa.MakeSlice:
		n := x.val(fr, c.Len).t
		cp := x.val(fr, c.Cap).t
		x.prove(st, "bounds", "make slice length", []string{"C20"}, And(Le(Int(0), n), Le(n, cp)), "")
		el := c.Type().Underlying().(*types.Slice).Elem()
		x.allocBound(st, Mul(cp, Big(big.NewInt(types.SizesFor("gc", "amd64").Sizeof(el)))))
		r := x.newRef(st)
		h := x.elemHeap(el)
		x.write(st, h, r, Store(st.get(h), r, ConstArr(arrS(sInt, sortOfGo(el)), zeroOf(el))))
		st.assume(Le(cp, maxLen))
		fr.env[c] = Val{t: mkSlice(r, Int(0), n, cp)}
	case *ssa.MakeMap:
		m := c.Type().Underlying().(*types.Map)
		d, _ := x.mapHeaps(m)
		r := x.newRef(st)
		x.initing++
		x.write(st, d, r, Store(st.get(d), r, ConstArr(arrS(sortOfGo(m.Key()), sBool), tFalse)))
		x.initing--
		fr.env[c] = Val{t: r}
	case *ssa.MakeChan:
		ch := x.newRef(st)
		fr.env[c] = Val{t: ch}
		x.chMake(st, ch, c.Type())
	case *ssa.MapUpdate:
		m := c.Map.Type().Underlying().(*types.Map)
		d, v := x.mapHeaps(m)
		r := x.val(fr, c.Map).t
		k := x.val(fr, c.Key).t
		x.prove(st, "nil", "write to a nil map", []string{"C20"}, Neq(r, Int(0)), "")
		x.write(st, d, r, Store(st.get(d), r, Store(Select(st.get(d), r), k, tTrue)))
		x.write(st, v, r, Store(st.get(v), r, Store(Select(st.get(v), r), k, x.term(x.val(fr, c.Value)))))
	case *ssa.Slice:
		fr.env[c] = x.slice(fr, c, st)
	case *ssa.Range:
		switch u := c.X.Type().Underlying().(type) {
		case *types.Map:
			d, _ := x.mapHeaps(u)
			id := fmt.Sprintf("IT:%d.%s", fr.id, c.Name())
			m := x.val(fr, c.X).t
			ks := sortOfGo(u.Key())
			x.heapSort(id, arrS(ks, sBool))
			st.heaps[id] = ConstArr(arrS(ks, sBool), tFalse)
			fr.env[c] = Val{it: &MapIter{id: id, m: m, mt: u, dom0: Select(st.get(d), m)}}
		default:
			panic(abort{"range over a string"})
		}
	case *ssa.Next:
		return x.next(fr, c, st)
	case *ssa.Send:
		if x.concurrent() {
			before := st.clone()
			_ = before
			x.chSend(st, x.val(fr, c.Chan).t, c.Chan.Type(), x.val(fr, c.X))
			if x.c.kind == "process" {
				x.wait(st)
				break
			}
		}
		x.libUsed["channel send (recorded, sequential semantics)"] = true
		x.sendCh(fr, st, x.val(fr, c.Chan).t, x.val(fr, c.X))
	default:
		panic(abort{fmt.Sprintf("instruction %T", in)})
	}
	return true
}

func fieldNameOf(t types.Type, i int) string {
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i).Name()
	}
	return "?"
}

func (x *Exec) nonNil(st *State, p *T, what string) {
	if strings.HasPrefix(p.op, "fa:") {
		return
	}
	g := Neq(p, Int(0))
	x.prove(st, "nil", "nil dereference ("+what+")", []string{"C20"}, g, "")
	st.assume(g)
}

func (x *Exec) nonNilAddr(st *State, a *Addr) {
	if a.idx != nil || strings.HasPrefix(a.heap, "F:") {
		return
	}
	x.nonNil(st, a.ref, "pointer")
}

func (x *Exec) storeStruct(st *State, a *Addr, v Val) {
	u := a.st.Underlying().(*types.Struct)
	if v.flds == nil {
		panic(abort{"store of an opaque structure"})
	}
	for i := 0; i < u.NumFields(); i++ {
		fa := x.fieldAddr(a.ref, a.st, i)
		if fa.st != nil {
			x.storeStruct(st, fa, v.flds[i])
			continue
		}
		x.store(st, fa, x.term(v.flds[i]))
	}
}

func (x *Exec) loadStruct(st *State, ref *T, ty types.Type) Val {
	u := ty.Underlying().(*types.Struct)
	var v Val
	for i := 0; i < u.NumFields(); i++ {
		fa := x.fieldAddr(ref, ty, i)
		if fa.st != nil {
			v.flds = append(v.flds, x.loadStruct(st, fa.ref, fa.st))
			continue
		}
		v.flds = append(v.flds, Val{t: x.load(st, fa)})
	}
	return v
}

func (x *Exec) unop(fr *Frame, c *ssa.UnOp, st *State) bool {
	switch c.Op {
	case token.MUL:
		if g, ok := c.X.(*ssa.Global); ok {
			v := x.loadGlobal(st, g)
			fr.env[c] = Val{t: v}
			if x.p.globalMut[g] {
				st.assume(x.typeFacts(st, v, c.Type()))
			}
			return true
		}
		a := x.addrOf(x.val(fr, c.X), c.X.Type())
		if a.ref != nil {
			x.nonNilAddr(st, a)
		}
		if a.st != nil {
			x.nonNil(st, a.ref, "structure")
			fr.env[c] = x.loadStruct(st, a.ref, a.st)
			return true
		}
		v := Val{t: x.load(st, a)}
		if strings.HasPrefix(a.heap, "C:") {
			v.clo = x.cloCells[a.ref]
		}
		fr.env[c] = v
	case token.NOT:
		fr.env[c] = Val{t: Not(x.val(fr, c.X).t)}
	case token.SUB:
		v := x.val(fr, c.X).t
		if v.sort == sF {
			fr.env[c] = Val{t: UF("fneg", sF, v)}
			return true
		}
		fr.env[c] = Val{t: wrapInt(Neg(v), c.Type())}
	case token.XOR:
		v := x.val(fr, c.X).t
		fr.env[c] = Val{t: wrapInt(Sub(Int(-1), v), c.Type())}
	case token.ARROW:
		if x.c == nil || x.c.kind != "process" {
			panic(abort{"channel receive"})
		}
		ch := x.val(fr, c.X).t
		before := st.clone()
		x.wait(st)
		v, ok := x.chRecv(st, before, ch, c.X.Type())
		if c.CommaOk {
			v = Val{tup: []Val{v, {t: ok}}}
		}
		fr.env[c] = v
	default:
		panic(abort{"operator " + c.Op.String()})
	}
	return true
}

func (x *Exec) binop(st *State, op token.Token, a, b *T, opTy, resTy types.Type) *T {
	switch op {
	case token.EQL, token.NEQ:
		var r *T
		switch a.sort {
		case sF:
			r = fltEq(a, b)
		case sSlice:
			// only comparison with nil is legal
			if a == nilSlice {
				a = b
			}
			r = Eq(sref(a), Int(0))
		default:
			r = Eq(a, b)
		}
		if op == token.NEQ {
			r = Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return cmpTerm(op.String(), SV{a, &SType{sort: a.sort}}, SV{b, &SType{sort: b.sort}})
	case token.ADD:
		switch a.sort {
		case sStr:
			return concat(a, b)
		case sF:
			return UF("fadd", sF, a, b)
		}
		return wrapInt(Add(a, b), resTy)
	case token.SUB:
		if a.sort == sF {
			return UF("fsub", sF, a, b)
		}
		return wrapInt(Sub(a, b), resTy)
	case token.MUL:
		if a.sort == sF {
			return UF("fmul", sF, a, b)
		}
		return wrapInt(Mul(a, b), resTy)
	case token.QUO:
		if a.sort == sF {
			return UF("fdiv", sF, a, b)
		}
		x.prove(st, "division", "divisor is not zero", []string{"C20"}, Neq(b, Int(0)), "")
		if a.k == 'i' && b.k == 'i' {
			q := a.n
			if b.n.Sign() != 0 {
				return wrapInt(Big(newBig().Quo(q, b.n)), resTy)
			}
		}
		if b.k == 'i' && b.n.Sign() > 0 {
			q := mk("div", sInt, a, b)
			return Ite(Le(Int(0), a), q, Neg(mk("div", sInt, Neg(a), b)))
		}
		return wrapInt(UF("goquo", sInt, a, b), resTy)
	case token.REM:
		x.prove(st, "division", "divisor is not zero", []string{"C20"}, Neq(b, Int(0)), "")
		if a.k == 'i' && b.k == 'i' && b.n.Sign() != 0 {
			return Big(newBig().Rem(a.n, b.n))
		}
		if b.k == 'i' && b.n.Sign() > 0 {
			if lo, _, ok := intRange(opTy); ok && lo.Sign() == 0 {
				return mk("mod", sInt, a, b)
			}
			return Ite(Le(Int(0), a), mk("mod", sInt, a, b), Neg(mk("mod", sInt, Neg(a), b)))
		}
		return UF("gorem", sInt, a, b)
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
		return x.bitop(op, a, b, resTy)
	}
	panic(abort{"operator " + op.String()})
}

func (x *Exec) slice(fr *Frame, c *ssa.Slice, st *State) Val {
	xv := x.val(fr, c.X)
	lo, hi := Int(0), (*T)(nil)
	if c.Low != nil {
		lo = x.val(fr, c.Low).t
	}
	if c.High != nil {
		hi = x.val(fr, c.High).t
	}
	if c.Max != nil {
		panic(abort{"three-index slice"})
	}
	switch u := c.X.Type().Underlying().(type) {
	case *types.Slice:
		s := xv.t
		if hi == nil {
			hi = slen(s)
		}
		x.prove(st, "bounds", "slice bounds", []string{"C20"}, And(Le(Int(0), lo), Le(lo, hi), Le(hi, scap(s))), "")
		st.assume(And(Le(Int(0), lo), Le(lo, hi), Le(hi, scap(s))))
		return Val{t: mkSlice(sref(s), Add(soff(s), lo), Sub(hi, lo), Sub(scap(s), lo))}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		if hi == nil {
			hi = Int(at.Len())
		}
		x.prove(st, "bounds", "slice bounds", []string{"C20"}, And(Le(Int(0), lo), Le(lo, hi), Le(hi, Int(at.Len()))), "")
		return Val{t: mkSlice(x.term(xv), lo, Sub(hi, lo), Sub(Int(at.Len()), lo))}
	case *types.Basic:
		s := xv.t
		if hi == nil {
			hi = strLen(s)
		}
		x.prove(st, "bounds", "slice bounds", []string{"C20"}, And(Le(Int(0), lo), Le(lo, hi), Le(hi, strLen(s))), "")
		st.assume(And(Le(Int(0), lo), Le(lo, hi), Le(hi, strLen(s))))
		return Val{t: x.substr(st, s, lo, hi)}
	}
	panic(abort{"slice of " + c.X.Type().String()})
}

// allocBound: an allocation whose size the code computes stays within the contract's bound.
func (x *Exec) allocBound(st *State, bytes *T) {
	if x.c == nil || x.rootEnv == nil || len(x.dry) > 0 {
		return
	}
	for _, m := range x.c.makes {
		v := x.rootEnv(st).eval(m.e)
		x.prove(st, "alloc-bound", "size of an allocation", m.tags, Le(bytes, v.t), m.src)
	}
}

func (x *Exec) substr(st *State, s, lo, hi *T) *T {
	if s.k == 's' && lo.k == 'i' && hi.k == 'i' {
		return StrLit(s.lit[lo.n.Int64():hi.n.Int64()])
	}
	if lo == Int(0) && hi == strLen(s) {
		return s
	}
	r := UF("ssub", sStr, s, lo, hi)
	st.assume(Imp(And(Le(Int(0), lo), Le(lo, hi), Le(hi, strLen(s))), Eq(strLen(r), Sub(hi, lo))))
	st.assume(Imp(And(Eq(lo, Int(0)), Eq(hi, strLen(s))), Eq(r, s)))
	return r
}

func (x *Exec) mapLookup(fr *Frame, c *ssa.Lookup, m *types.Map, st *State) {
	d, v := x.mapHeaps(m)
	r := x.val(fr, c.X).t
	k := x.val(fr, c.Index).t
	in := And(Neq(r, Int(0)), Select(Select(st.get(d), r), k))
	raw := Select(Select(st.get(v), r), k)
	st.assume(Imp(in, x.typeFacts(st, raw, m.Elem())))
	val := Ite(in, raw, zeroOf(m.Elem()))
	if c.CommaOk {
		fr.env[c] = Val{tup: []Val{{t: val}, {t: in}}}
	} else {
		fr.env[c] = Val{t: val}
	}
}

// next advances a map iteration: an unvisited key of the current map, or the end.
func (x *Exec) next(fr *Frame, c *ssa.Next, st *State) bool {
	it := x.val(fr, c.Iter).it
	d, v := x.mapHeaps(it.mt)
	dom := Select(st.get(d), it.m)
	vis := st.get(it.id)
	k := Fresh("key", sortOfGo(it.mt.Key()))
	ok := Fresh("more", sBool)
	nonnil := Neq(it.m, Int(0))
	st.assume(Imp(ok, And(nonnil, Select(dom, k), Not(Select(vis, k)))))
	b := BVar("k", sortOfGo(it.mt.Key()))
	// at the end every key present from the start to now was visited
	st.assume(Imp(And(Not(ok), nonnil), Forall([]*T{b}, [][]*T{{Select(vis, b)}, {Select(dom, b)}}, Imp(And(Select(it.dom0, b), Select(dom, b)), Select(vis, b)))))
	if dom == it.dom0 {
		st.assume(Imp(And(Not(ok), nonnil), Eq(vis, dom)))
		// the visited keys are a proper subset as long as there are more
		st.assume(Imp(ok, Lt(cardOf(vis), cardOf(dom))))
	}
	nv := Store(vis, k, tTrue)
	st.heaps[it.id] = Ite(ok, nv, vis)
	x.noteWrite(st, it.id, nil)
	ev := Select(Select(st.get(v), it.m), k)
	st.assume(Imp(ok, x.typeFacts(st, ev, it.mt.Elem())))
	fr.env[c] = Val{tup: []Val{{t: ok}, {t: k}, {t: ev}}}
	x.lastKey = k
	return true
}

// iterFacts: visited keys of an unmodified map are keys of the map.
func (x *Exec) iterFacts(fr *Frame, l *loop, st, pre *State, ms *modset) {
	for _, in := range l.header.Instrs {
		nx, ok := in.(*ssa.Next)
		if !ok {
			continue
		}
		it := x.val(fr, nx.Iter).it
		if it == nil {
			continue
		}
		d, _ := x.mapHeaps(it.mt)
		if st.get(d) == pre.get(d) {
			b := BVar("k", sortOfGo(it.mt.Key()))
			vis := st.get(it.id)
			dom := Select(st.get(d), it.m)
			st.assume(Forall([]*T{b}, [][]*T{{Select(vis, b)}}, Imp(Select(vis, b), Select(dom, b))))
		} else if Select(st.get(d), it.m) == Select(pre.get(d), it.m) {
			b := BVar("k", sortOfGo(it.mt.Key()))
			vis := st.get(it.id)
			dom := Select(st.get(d), it.m)
			st.assume(Forall([]*T{b}, [][]*T{{Select(vis, b)}}, Imp(Select(vis, b), Select(dom, b))))
		}
	}
}

func (x *Exec) convert(fr *Frame, c *ssa.Convert, st *State) Val {
	v := x.val(fr, c.X)
	from, to := c.X.Type(), c.Type()
	fs, ts := sortOfGo(from), sortOfGo(to)
	switch {
	case fs == sInt && ts == sInt:
		lo, hi, ok := intRange(from)
		lo2, hi2, ok2 := intRange(to)
		if ok && ok2 && lo.Cmp(lo2) >= 0 && hi.Cmp(hi2) <= 0 {
			return v
		}
		return Val{t: wrapInt(v.t, to)}
	case fs == sStr && ts == sStr:
		return v
	case fs == sInt && ts == sF:
		return Val{t: UF("i2f", sF, v.t)}
	case fs == sF && ts == sF:
		return v
	case fs == sF && ts == sInt:
		r := UF("f2i", sInt, v.t)
		return Val{t: wrapInt(r, to)}
	case fs == sStr && ts == sSlice:
		return Val{t: x.bytesOf(st, v.t)}
	case fs == sSlice && ts == sStr:
		return Val{t: x.stringOf(st, v.t)}
	}
	panic(abort{"conversion " + from.String() + " to " + to.String()})
}

// --- calls ---

func (x *Exec) call(fr *Frame, site *ssa.Call, com *ssa.CallCommon, st *State, k func(*Frame, *State, Val)) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok && site != nil && !strings.Contains(a.msg, " @ ") {
				panic(abort{a.msg + " @ " + funcName(fr.fn)})
			}
			panic(r)
		}
	}()
	var args []Val
	for _, a := range com.Args {
		args = append(args, x.val(fr, a))
	}
	if com.IsInvoke() {
		recv := x.val(fr, com.Value)
		name := "invoke:" + typeKey(com.Value.Type()) + "." + com.Method.Name()
		x.nonNilIface(st, recv.t)
		if f, ok := libs[name]; ok {
			x.libUsed[name] = true
			f(&LibCall{x, fr, st, append([]Val{recv}, args...), com, k})
			return
		}
		panic(abort{"interface call " + name})
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		x.builtin(fr, b.Name(), com, args, st, k)
		return
	}
	fv := x.val(fr, com.Value)
	var clo *Closure
	if f := com.StaticCallee(); f != nil {
		clo = fv.clo
		if clo == nil || clo.fn != f {
			clo = &Closure{fn: f}
			if mc, ok := com.Value.(*ssa.MakeClosure); ok {
				clo = x.val(fr, mc).clo
			}
		}
	} else {
		clo = fv.clo
	}
	if clo == nil {
		if x.atCall != nil && fv.t != nil {
			if v, ok := x.atCall(st, fv.t.String(), args); ok {
				k(fr, st, v)
				return
			}
		}
		x.dynCall(fr, fv.t, com, args, st, k)
		return
	}
	x.curSite = site
	x.callClosure(fr, clo, args, com, st, k)
}

func (x *Exec) nonNilIface(st *State, v *T) {
	g := Not(Eq(v, inil))
	x.prove(st, "nil", "method call on a nil interface", []string{"C20"}, g, "")
	st.assume(g)
}

func (x *Exec) callClosure(fr *Frame, clo *Closure, args []Val, com *ssa.CallCommon, st *State, k func(*Frame, *State, Val)) {
	f := clo.fn
	name := funcName(f)
	full := f.String()
	if lf, ok := libs[full]; ok {
		x.libUsed[full] = true
		lf(&LibCall{x, fr, st, args, com, k})
		return
	}
	if c := x.sp.contracts[name]; c != nil && !c.isInline && len(clo.binds) == 0 {
		x.used[c.name] = true
		switch c.kind {
		case "", "process", "dispatcher":
			x.applyContract(fr, c, f, args, st, k)
		case "iterator", "iteratordel":
			x.applyIterator(fr, c, f, args, st, k)
		case "upsert":
			x.applyUpsert(fr, c, f, args, st, k)
		default:
			panic(abort{"contract kind " + c.kind})
		}
		return
	}
	if x.p.isPure(f) && len(x.p.loopsOf(f).list) > 0 {
		var ts []*T
		for _, a := range args {
			ts = append(ts, x.term(a))
		}
		rt := f.Signature.Results().At(0).Type()
		v := UF("pure:"+name, sortOfGo(rt), ts...)
		st.assume(x.typeFacts(st, v, rt))
		k(fr, st, Val{t: v})
		return
	}
	if f.Blocks == nil || !inRepo(f) {
		if wrap := f.Synthetic; f.Blocks != nil && wrap != "" {
			// method wrappers and bound methods
		} else {
			panic(abort{"call of " + full})
		}
	}
	if fr.depth > maxDepth {
		panic(abort{"call depth at " + name})
	}
	for c := fr; c != nil; c = c.caller {
		if c.fn == f {
			panic(abort{"recursion in " + name + " without a contract"})
		}
	}
	x.inlined[name] = true
	x.frameN++
	nf := &Frame{id: x.frameN, fn: f, env: map[ssa.Value]Val{}, names: map[string]nameVal{}, caller: fr, depth: fr.depth + 1, entry: st.clone(), params: args}
	for i, p := range f.Params {
		nf.env[p] = args[i]
		x.setName(nf, p.Name(), args[i], false, p.Type())
		if args[i].t != nil && x.isNew(f) {
			for n, v := range fr.names {
				if !v.addr && v.v.t == args[i].t && n != p.Name() {
					if nf.argNames == nil {
						nf.argNames = map[string]string{}
					}
					nf.argNames[n] = p.Name()
				}
			}
		}
	}
	for i, fv := range f.FreeVars {
		nf.env[fv] = clo.binds[i]
	}
	caller := fr
	nf.ret = func(st *State, res []Val) {
		c2 := caller.clone()
		var v Val
		if len(res) == 1 {
			v = res[0]
		} else {
			v = Val{tup: res}
		}
		k(c2, st, v)
	}
	x.block(nf, f.Blocks[0], 0, st)
}

// builtin functions
func (x *Exec) builtin(fr *Frame, name string, com *ssa.CallCommon, args []Val, st *State, k func(*Frame, *State, Val)) {
	switch name {
	case "len", "cap":
		t := args[0].t
		switch t.sort {
		case sSlice:
			if name == "cap" {
				k(fr, st, Val{t: scap(t)})
				return
			}
			k(fr, st, Val{t: slen(t)})
			return
		case sStr:
			l := strLen(t)
			st.assume(Le(Int(0), l))
			k(fr, st, Val{t: l})
			return
		}
		if m, ok := com.Args[0].Type().Underlying().(*types.Map); ok {
			d, _ := x.mapHeaps(m)
			c := cardOf(Select(st.get(d), t))
			st.assume(Le(Int(0), c))
			st.assume(Le(c, maxLen))
			k(fr, st, Val{t: Ite(Eq(t, Int(0)), Int(0), c)})
			return
		}
		if p, ok := com.Args[0].Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				k(fr, st, Val{t: Int(a.Len())})
				return
			}
		}
	case "append":
		k(fr, st, Val{t: x.appendSlice(st, args[0].t, args[1].t, com)})
		return
	case "copy":
		if v, ok := x.copySlice(fr, st, args[0].t, args[1].t, com); ok {
			k(fr, st, v)
			return
		}
	case "delete":
		m := com.Args[0].Type().Underlying().(*types.Map)
		d, _ := x.mapHeaps(m)
		r, key := args[0].t, args[1].t
		if st.decide(Eq(r, Int(0))) == 1 {
			k(fr, st, Val{})
			return
		}
		old := st.get(d)
		x.write(st, d, r, Store(old, r, Store(Select(old, r), key, tFalse)))
		k(fr, st, Val{})
		return
	case "close":
		if x.concurrent() {
			x.chClose(st, args[0].t, com.Args[0].Type())
		}
		x.libUsed["close of a channel (no effect on the verified state)"] = true
		if x.c != nil && x.c.kind == "dispatcher" {
			x.setGhost(st, "s_closed", args[0].t)
		}
		k(fr, st, Val{})
		return
	case "print", "println":
		k(fr, st, Val{})
		return
	}
	panic(abort{"builtin " + name})
}

func (x *Exec) appendSlice(st *State, s, vs *T, com *ssa.CallCommon) *T {
	st0, ok := com.Args[0].Type().Underlying().(*types.Slice)
	if !ok {
		panic(abort{"append"})
	}
	el := st0.Elem()
	if vs.sort == sStr {
		panic(abort{"append of a string to bytes"})
	}
	h := x.elemHeap(el)
	n := slen(vs)
	if n == Int(0) {
		return s
	}
	ln := slen(s)
	tot := Add(ln, n)
	fits := Le(tot, scap(s))
	fr := x.newRef(st)
	ref := Ite(fits, sref(s), fr)
	ncap := Fresh("cap", sInt)
	st.assume(And(Le(tot, ncap), Le(Add(soff(s), ncap), maxLen)))
	st.assume(Imp(fits, Eq(ncap, scap(s))))
	cur := Select(st.get(h), sref(s))
	src := Select(st.get(h), sref(vs))
	var arr *T
	if n.k == 'i' && n.n.Int64() <= 8 {
		arr = cur
		for i := int64(0); i < n.n.Int64(); i++ {
			arr = Store(arr, Ix(soff(s), Add(ln, Int(i))), Select(src, Ix(soff(vs), Int(i))))
		}
	} else {
		arr = Fresh("appended", cur.sort)
		b := BVar("i", sInt)
		st.assume(Forall([]*T{b}, [][]*T{{Select(arr, b)}}, And(
			Imp(And(Le(Add(soff(s), ln), b), Lt(b, Add(soff(s), tot))), Eq(Select(arr, b), Select(src, Ix(soff(vs), Sub(b, Add(soff(s), ln)))))),
			Imp(Or(Lt(b, Add(soff(s), ln)), Le(Add(soff(s), tot), b)), Eq(Select(arr, b), Select(cur, b))))))
	}
	x.write(st, h, ref, Store(st.get(h), ref, arr))
	return mkSlice(ref, soff(s), tot, ncap)
}

func (x *Exec) copySlice(fr *Frame, st *State, d, s *T, com *ssa.CallCommon) (Val, bool) {
	if s.sort == sStr {
		return Val{}, false
	}
	el := com.Args[0].Type().Underlying().(*types.Slice).Elem()
	h := x.elemHeap(el)
	n := Ite(Le(slen(s), slen(d)), slen(s), slen(d))
	cur, src := Select(st.get(h), sref(d)), Select(st.get(h), sref(s))
	arr := Fresh("copied", cur.sort)
	b := BVar("i", sInt)
	in := And(Le(soff(d), b), Lt(b, Add(soff(d), n)))
	st.assume(Forall([]*T{b}, [][]*T{{Select(arr, b)}}, And(
		Imp(in, Eq(Select(arr, b), Select(src, Ix(soff(s), Sub(b, soff(d)))))),
		Imp(Not(in), Eq(Select(arr, b), Select(cur, b))))))
	x.write(st, h, sref(d), Store(st.get(h), sref(d), arr))
	return Val{t: n}, true
}
