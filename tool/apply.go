package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func newBig() *big.Int { return new(big.Int) }

func (x *Exec) afterAlloc(fr *Frame, st *State, r *T, el types.Type) {}

// pkgOf is the package a function belongs to.
func pkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Name()
	}
	return ""
}

// contractEnv binds parameters and results for the clauses of a contract.
func (x *Exec) contractEnv(c *Contract, f *ssa.Function, args []Val, res *Val, st, old *State) *Env {
	e := &Env{ex: x, st: st, old: old, pkg: pkgOf(f)}
	if old != nil {
		e.alloc0 = old.alloc
	}
	e.names = func(n string, st *State) (SV, bool) {
		for i, p := range f.Params {
			pn := p.Name()
			if i < len(c.params) {
				pn = c.params[i]
			}
			if pn == n {
				if args[i].t == nil && args[i].addr == nil {
					return SV{}, false
				}
				return SV{x.term(args[i]), goST(p.Type())}, true
			}
		}
		if res != nil {
			if v, ok := resultName(x, f, *res, n); ok {
				return v, true
			}
		}
		return SV{}, false
	}
	e.names = x.aliased(x.p.alias(f), e.names)
	return e
}

func resultName(x *Exec, f *ssa.Function, res Val, n string) (SV, bool) {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if !(rs.Len() == 1 && n == "result") && n != fmt.Sprintf("result%d", i) && !(rs.At(i).Name() == n && n != "") {
			continue
		}
		v := res
		if rs.Len() > 1 {
			v = res.tup[i]
		}
		if v.t == nil && v.addr == nil {
			return SV{}, false
		}
		return SV{x.term(v), goST(rs.At(i).Type())}, true
	}
	return SV{}, false
}

func hasRefs(t types.Type) bool {
	switch sortOfGo(t) {
	case sStr, sBool, sF:
		return false
	case sInt:
		_, ok := t.Underlying().(*types.Basic)
		return !ok
	}
	return true
}

// applyContract replaces a call by the callee's contract.
func (x *Exec) applyContract(fr *Frame, c *Contract, f *ssa.Function, args []Val, st *State, k func(*Frame, *State, Val)) {
	if c.trusted != "" {
		x.trustedUsed[c.name+": "+c.trusted] = true
	}
	pre := st.clone()
	e := x.contractEnv(c, f, args, nil, st, pre)
	x.proveClauses(st, e, "requires", c.requires, c.name+" ")
	x.assumeClauses(st, e, c.requires)
	same := c.module == x.c.module && !c.noInv
	if same {
		x.proveInv(st, "invariant-at-call", c.name+" ")
	}
	pe := x.contractEnv(c, f, args, nil, pre, pre)
	x.initing++ // the callee answers for what it writes
	x.havocMods(st, pe, c.modifies)
	x.initing--
	alloc := len(c.modifies) > 0
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		alloc = alloc || hasRefs(rs.At(i).Type())
	}
	if alloc {
		x.bumpAlloc(st)
		for _, d := range x.dry {
			d.allocs = true
		}
	}
	var res Val
	switch rs.Len() {
	case 0:
	case 1:
		res = x.freshVal(st, "r."+f.Name(), rs.At(0).Type())
	default:
		for i := 0; i < rs.Len(); i++ {
			n := rs.At(i).Name()
			if n == "" {
				n = fmt.Sprint(i)
			}
			res.tup = append(res.tup, x.freshVal(st, "r."+f.Name()+"."+n, rs.At(i).Type()))
		}
	}
	re := x.contractEnv(c, f, args, &res, st, pre)
	if len(c.modifies) > 0 && c.module != "" {
		x.havocPrivate(st, c.module)
	}
	for _, q := range c.ensures { // freshness first: ghost updates of fresh objects need it
		if q.e.op == "call" && q.e.s == "fresh" {
			x.assumeClauses(st, re, []Clause{q})
		}
	}
	x.initing++
	x.doUpdates(st, re, c.updates)
	x.initing--
	x.assumeClauses(st, re, c.ensures)
	if same {
		x.assumeInv(st)
	}
	k(fr, st, res)
}

func (x *Exec) specFail(st *State, kind, label, msg string) {
	if len(x.dry) > 0 {
		return
	}
	x.record(&Ob{fn: x.root, kind: kind, label: label, failHard: msg, trace: st.trace})
}

// modHeap resolves the heap named by a modifies entry.
func (x *Exec) modHeap(e *Env, name string) string {
	if t, ok := x.sp.ghostV[name]; ok {
		h := "GV:" + name
		x.heapSort(h, e.typ(t).sort)
		return h
	}
	if strings.HasPrefix(name, "arr.") { // arr.T: backing arrays with elements of type T
		return x.elemHeap(e.typ(parseType(strings.TrimPrefix(name, "arr."))).g)
	}
	parts := strings.Split(name, ".")
	if len(parts) == 1 && x.p.pkgs[e.pkg] != nil {
		if g, ok := x.p.pkgs[e.pkg].Members[name].(*ssa.Global); ok {
			h := "GL:" + typeKeyGlobal(g)
			x.heapSort(h, sortOfGo(deref(g.Type())))
			return h
		}
	}
	if len(parts) == 2 {
		parts = append([]string{e.pkg}, parts...)
	}
	if len(parts) != 3 {
		e.fail("modifies entry %s", name)
	}
	key := parts[0] + "." + parts[1]
	if gf, ok := x.sp.ghostF[key+"."+parts[2]]; ok {
		h := "G:" + key + "." + parts[2]
		x.heapSort(h, arrS(sInt, e.typ(gf.ty).sort))
		return h
	}
	p := x.p.pkgs[parts[0]]
	if p == nil {
		e.fail("modifies: unknown package %s", parts[0])
	}
	o := p.Pkg.Scope().Lookup(parts[1])
	if o == nil {
		e.fail("modifies: unknown type %s", key)
	}
	if m, ok := o.Type().Underlying().(*types.Map); ok {
		d, v := x.mapHeaps(m)
		if parts[2] == "keys" {
			return d
		}
		return v
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		e.fail("modifies: %s is not a structure", key)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == parts[2] {
			a := x.fieldAddr(Int(0), o.Type(), i)
			if a.st != nil {
				e.fail("modifies: structure field %s", name)
			}
			return a.heap
		}
	}
	e.fail("modifies: unknown field %s", name)
	return ""
}

func parseType(s string) *TNode {
	p := newParser(s)
	return p.typ()
}

// fieldIsTaken tells whether a modifies heap is indexed by field address.
func (x *Exec) modRefTerm(e *Env, m Mod, v SV) *T {
	r := refOf(v)
	parts := strings.Split(m.heap, ".")
	if len(parts) == 2 {
		parts = append([]string{e.pkg}, parts...)
	}
	n := strings.Join(parts, ".")
	if x.p.fieldTaken[n] {
		return fieldRef(n, r)
	}
	return r
}

// modPred is the set of references a modifies entry allows.
func (x *Exec) modPred(e *Env, m Mod) func(*T) *T {
	if m.ref != nil {
		r := x.modRefTerm(e, m, e.eval(m.ref))
		return func(t *T) *T { return Eq(t, r) }
	}
	if m.where != nil {
		return func(t *T) *T {
			return e.with(m.whereVar, SV{t, stInt}).evalBool(m.where)
		}
	}
	return func(t *T) *T { return tTrue }
}

// havocMods forgets what a callee may modify.
func (x *Exec) havocMods(st *State, e *Env, mods []Mod) {
	for _, m := range mods {
		if m.heap == "*" {
			if x.c.kind != "process" {
				panic(abort{"call of a function that modifies everything"})
			}
			x.havocAll(st)
			continue
		}
		h := x.modHeap(e, m.heap)
		srt := x.hs[h]
		if strings.HasPrefix(h, "GV:") || strings.HasPrefix(h, "GL:") {
			st.heaps[h] = Fresh(shortHeap(h), srt)
			x.noteWrite(st, h, nil)
			continue
		}
		_, es := arrParts(srt)
		if m.ref != nil {
			r := x.modRefTerm(e, m, e.eval(m.ref))
			st.heaps[h] = Store(st.get(h), r, Fresh(shortHeap(h), es))
			x.noteWrite(st, h, r)
			continue
		}
		old := st.get(h)
		nh := Fresh(shortHeap(h), srt)
		pred := x.modPred(e, m)
		b := BVar("hv", sInt)
		st.assume(Forall([]*T{b}, [][]*T{{Select(nh, b)}}, Imp(And(Lt(b, st.alloc), Not(pred(b))), Eq(Select(nh, b), Select(old, b)))))
		st.heaps[h] = nh
		x.noteRegion(st, h, pred)
	}
}

// noteRegion checks a write to a whole region of a heap.
func (x *Exec) noteRegion(st *State, h string, pred func(*T) *T) {
	if len(x.dry) > 0 {
		for _, d := range x.dry {
			if d.writes[h] == nil {
				d.writes[h] = map[*T]bool{}
			}
			d.writes[h][tTrue] = true
		}
		return
	}
	r := Fresh("region", sInt)
	s2 := st.clone()
	s2.assume(pred(r))
	s2.assume(Lt(r, st.alloc))
	x.noteWrite(s2, h, r)
}

// doUpdates performs ghost assignments, all right-hand sides first.
func (x *Exec) doUpdates(st *State, e *Env, us []Clause) {
	type w struct {
		h string
		r *T
		v *T
	}
	var ws []w
	for _, u := range us {
		u := u
		func() {
			defer func() {
				if r := recover(); r != nil {
					m := ""
					switch q := r.(type) {
					case specErr:
						m = q.msg
					case abort:
						m = q.msg
					default:
						panic(r)
					}
					x.specFail(st, "ghost", u.src, m)
				}
			}()
			h, r, ty := x.ghostLHS(e, u.lhs)
			ws = append(ws, w{h, r, x.coerce(e.eval(u.e), ty)})
		}()
	}
	for _, a := range ws {
		if a.r == nil {
			st.heaps[a.h] = a.v
			x.noteWrite(st, a.h, nil)
			continue
		}
		st.heaps[a.h] = Store(st.get(a.h), a.r, a.v)
		x.noteWrite(st, a.h, a.r)
	}
}

func (x *Exec) ghostLHS(e *Env, n *Node) (string, *T, *SType) {
	switch n.op {
	case "id":
		if t, ok := x.sp.ghostV[n.s]; ok {
			ty := e.typ(t)
			h := "GV:" + n.s
			x.heapSort(h, ty.sort)
			return h, nil, ty
		}
	case ".":
		o := e.eval(n.kids[0])
		if o.ty.g == nil {
			break
		}
		key := typeKey(deref(o.ty.g)) + "." + n.s
		if gf, ok := x.sp.ghostF[key]; ok {
			ty := e.typ(gf.ty)
			h := "G:" + key
			x.heapSort(h, arrS(sInt, ty.sort))
			return h, refOf(o), ty
		}
	case "call":
		if n.s == "gh" {
			gf := x.sp.ghostF[n.kids[0].s]
			if gf != nil {
				ty := e.typ(gf.ty)
				h := "G:" + n.kids[0].s
				x.heapSort(h, arrS(sInt, ty.sort))
				return h, refOf(e.eval(n.kids[1])), ty
			}
		}
	}
	e.fail("not a ghost location")
	return "", nil, nil
}

// --- module invariants ---

func (x *Exec) invClauses() (string, []Clause, string) {
	m := x.sp.modules[x.c.module]
	if m == nil {
		return "", nil, ""
	}
	return m.name, m.invs, m.pkg
}

func (x *Exec) proveInv(st *State, kind, prefix string) {
	name, cs, pkg := x.invClauses()
	e := &Env{ex: x, st: st, pkg: pkg}
	x.proveClauses(st, e, kind, cs, prefix+name+" ")
}

func (x *Exec) assumeInv(st *State) {
	_, cs, pkg := x.invClauses()
	e := &Env{ex: x, st: st, pkg: pkg}
	x.assumeClauses(st, e, cs)
}

// proveStart: the invariants hold when the global has the value the function made for it.
func (x *Exec) proveStart(st *State, c *Contract, fn *ssa.Function, v Val) {
	m := x.sp.modules[c.module]
	g, _ := x.p.pkgs[m.pkg].Members[c.initially].(*ssa.Global)
	if g == nil {
		x.specFail(st, "initially", c.initially, "no such variable")
		return
	}
	call, _ := x.p.globalInit[g].(*ssa.Call)
	if x.p.globalMut[g] || call == nil || call.Call.StaticCallee() != fn {
		x.specFail(st, "initially", c.initially, "the variable is not initialised by one call of "+c.name)
		return
	}
	old := x.p.globalConst[g]
	x.p.globalConst[g] = v.t
	x.proveInv(st, "initially", "")
	if old == nil {
		delete(x.p.globalConst, g)
	} else {
		x.p.globalConst[g] = old
	}
}

// --- callbacks ---

// dynCall is a call of a function value that is not known: allowed only in functions whose contract describes the callback.
func (x *Exec) dynCall(fr *Frame, ft *T, com *ssa.CallCommon, args []Val, st *State, k func(*Frame, *State, Val)) {
	if ft != nil && x.noops[ft] {
		k(fr, st, Val{})
		return
	}
	if x.c == nil || x.c.kind == "" || x.c.kind == "command" || x.c.kind == "process" {
		panic(abort{"call of an unknown function value"})
	}
	set := func(n string, t *T) {
		h := "L:0." + n
		x.hs[h] = t.sort
		st.heaps[h] = t
		x.noteWrite(st, h, nil)
	}
	sig := com.Signature()
	for i, a := range args {
		x.ghostTy[fmt.Sprintf("L:0.f_arg%d", i)] = goST(sig.Params().At(i).Type())
		set(fmt.Sprintf("f_arg%d", i), x.term(a))
	}
	ce := x.frameEnv(fr, st)
	if x.c.kind == "dispatcher" {
		ce = x.contractEnv(x.c, x.fn, x.rootPar, nil, st, x.entry)
		cn := ce.names
		ce.names = func(n string, s *State) (SV, bool) {
			if h := "L:0." + n; st.heaps[h] != nil {
				return SV{st.get(h), x.ghostTy[h]}, true
			}
			return cn(n, s)
		}
	}
	x.proveClauses(st, ce, "callback", x.c.asserts, "")
	if args[0].t != nil && args[0].t.sort == sStr {
		set("f_visited", Store(st.get("L:0.f_visited"), args[0].t, tTrue))
	}
	set("f_n", Add(st.get("L:0.f_n"), Int(1)))
	x.bumpAlloc(st)
	if x.c.kind == "dispatcher" {
		x.libUsed["registered handler called through the table: may change all memory except the caller's local variables"] = true
		set("f_fn", ft)
		x.havocAll(st)
	}
	var res Val
	rs := sig.Results()
	for i := 0; i < rs.Len(); i++ {
		v := x.freshVal(st, fmt.Sprintf("f_res%d", i), rs.At(i).Type())
		x.ghostTy[fmt.Sprintf("L:0.f_res%d", i)] = goST(rs.At(i).Type())
		set(fmt.Sprintf("f_res%d", i), v.t)
		res.tup = append(res.tup, v)
	}
	x.assumeClauses(st, ce, x.c.givens)
	if rs.Len() == 1 {
		res = res.tup[0]
	}
	if x.c.kind == "iteratordel" && len(res.tup) == 2 {
		set("f_deleted", Store(st.get("L:0.f_deleted"), args[0].t, Or(Select(st.get("L:0.f_deleted"), args[0].t), res.tup[0].t)))
	}
	k(fr, st, res)
}

func (x *Exec) initCallback(st *State) {
	ss := arrS(sStr, sBool)
	set := func(n string, t *T, ty *SType) {
		h := "L:0." + n
		x.hs[h] = t.sort
		x.ghostTy[h] = ty
		st.heaps[h] = t
	}
	sty := &SType{sort: ss, k: stStr, v: stBool}
	set("f_visited", ConstArr(ss, tFalse), sty)
	set("f_deleted", ConstArr(ss, tFalse), sty)
	set("f_n", Int(0), stInt)
	if x.c.kind == "dispatcher" {
		for _, n := range []string{"f_fn", "s_n", "s_to", "s_what", "s_closed"} {
			set(n, Int(0), stInt)
		}
		for _, f := range x.p.commands() { // all have the signature of the table
			sg := f.Signature
			for j := 0; j < sg.Results().Len(); j++ {
				t := sg.Results().At(j).Type()
				set(fmt.Sprintf("f_res%d", j), Const(fmt.Sprintf("f_res%d.none", j), sortOfGo(t)), goST(t))
			}
			for j := 0; j < sg.Params().Len(); j++ {
				t := sg.Params().At(j).Type()
				set(fmt.Sprintf("f_arg%d", j), Const(fmt.Sprintf("f_arg%d.none", j), sortOfGo(t)), goST(t))
			}
			break
		}
	}
	for i, p := range x.fn.Params {
		sg, ok := p.Type().Underlying().(*types.Signature)
		if !ok {
			continue
		}
		_ = i
		for j := 0; j < sg.Results().Len(); j++ {
			t := sg.Results().At(j).Type()
			set(fmt.Sprintf("f_res%d", j), Const(fmt.Sprintf("f_res%d.none", j), sortOfGo(t)), goST(t))
		}
		for j := 0; j < sg.Params().Len(); j++ {
			t := sg.Params().At(j).Type()
			set(fmt.Sprintf("f_arg%d", j), Const(fmt.Sprintf("f_arg%d.none", j), sortOfGo(t)), goST(t))
		}
	}
}

// --- clients of callbacks ---

// inlineCall runs a closure and hands its results to k in the caller's frame.
func (x *Exec) inlineCall(fr *Frame, clo *Closure, args []Val, st *State, k func(*Frame, *State, Val)) {
	if clo == nil {
		panic(abort{"iteration with an unknown callback"})
	}
	f := clo.fn
	if clo.bound != nil {
		args = append([]Val{*clo.bound}, args...)
	}
	if f.Synthetic != "" && len(clo.binds) == 1 { // bound method wrapper
		x.callClosure(fr, clo, args, nil, st, k)
		return
	}
	x.callClosure(fr, clo, args, nil, st, k)
}

func (x *Exec) rangeIndex(fr *Frame, callee *ssa.Function, site *ssa.Call) int {
	n := 0
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if c == site {
				return n
			}
			if g := c.Call.StaticCallee(); g != nil {
				if ct := x.sp.contracts[funcName(g)]; ct != nil && strings.HasPrefix(ct.kind, "iterator") {
					n++
				}
			}
		}
	}
	return n
}

// applyIterator is a call m.Range(callback): a loop over the map's keys in any order whose body is the callback.
func (x *Exec) applyIterator(fr *Frame, c *Contract, f *ssa.Function, args []Val, st *State, k func(*Frame, *State, Val)) {
	e := x.contractEnv(c, f, args, nil, st, st)
	x.proveClauses(st, e, "requires", c.requires, c.name+" ")
	x.assumeClauses(st, e, c.requires)
	clo := args[len(args)-1].clo
	m := args[0]
	mv := SV{x.term(m), goST(f.Params[0].Type())}
	del := c.kind == "iteratordel"
	domOf := func(st *State) *T { return (&Env{ex: x, st: st, pkg: pkgOf(f)}).field(mv, "dom").t }
	valOf := func(st *State) *T { return (&Env{ex: x, st: st, pkg: pkgOf(f)}).field(mv, "val").t }
	idx := 0
	if x.curSite != nil {
		idx = x.rangeIndex(fr, f, x.curSite)
	}
	name := fmt.Sprintf("%s range %d", funcName(fr.fn), idx)
	spec := &LoopSpec{}
	if ct := x.specOf(x.lender(fr)); ct != nil && ct.ranges[idx] != nil {
		spec = ct.ranges[idx]
	}
	id := fmt.Sprintf("IT:%d.range%d", fr.id, idx)
	ss := arrS(sStr, sBool)
	x.heapSort(id, ss)
	st.heaps[id] = ConstArr(ss, tFalse)
	dom0 := domOf(st)
	for _, g := range spec.ghosts {
		ge := x.frameEnv(fr, st)
		h := fmt.Sprintf("L:%d.%s", fr.id, g.name)
		ty := ge.typ(g.ty)
		x.hs[h] = ty.sort
		x.ghostTy[h] = ty
		st.heaps[h] = x.coerce(ge.eval(g.init), ty)
	}
	setTy := &SType{sort: ss, k: stStr, v: stBool}
	lookup := func(st *State, more map[string]SV) func(string) (SV, bool) {
		prev := fr.lookup
		return func(n string) (SV, bool) {
			if v, ok := more[n]; ok {
				return v, true
			}
			switch n {
			case "visited":
				return SV{st.get(id), setTy}, true
			case "it":
				return SV{cardOf(st.get(id)), stInt}, true
			case "dom0":
				return SV{dom0, setTy}, true
			}
			if prev != nil {
				return prev(n)
			}
			return SV{}, false
		}
	}
	cands := x.virtCandidates(fr, clo, st, name)
	x.withLookup(fr, lookup(st, nil), func() {
		x.proveClauses(st, x.frameEnv(fr, st), "invariant-init", spec.inv, name+" ")
		for _, c := range cands {
			if !x.dropped[c.name] {
				x.proveCand(st, "candidate-init", c.name, nil, c.f(fr, st), "", c.name)
			}
		}
	})
	pre := st.clone()
	iter := func(fr *Frame, st *State, after func(fr *Frame, st *State, key *T, res Val)) {
		key := Fresh("key", sStr)
		st.assume(And(Select(domOf(st), key), Not(Select(st.get(id), key))))
		val := Select(valOf(st), key)
		d0, v0 := domOf(st), valOf(st)
		x.inlineCall(fr, clo, []Val{{t: key}, {t: val}}, st, func(fr *Frame, st *State, res Val) {
			// the callback must leave the map alone
			x.prove(st, "callback", name+" leaves the map alone", nil, And(Eq(domOf(st), d0), Eq(valOf(st), v0)), "")
			after(fr, st, key, res)
		})
	}
	delKey := func(st *State, key *T) {
		h := "G:smap.Map.dom"
		r := sref(mv.t)
		st.heaps[h] = Store(st.get(h), r, Store(Select(st.get(h), r), key, tFalse))
		x.noteWrite(st, h, r)
	}
	// what does one iteration write?
	l := &loop{blocks: map[*ssa.BasicBlock]bool{}}
	ms := &modset{writes: map[string]map[*T]bool{}}
	for round := 0; round < 6; round++ {
		s, f2 := st.clone(), fr.clone()
		mark := nterms
		d := &dryCtx{fr: -1, l: l, writes: map[string]map[*T]bool{}, mark: mark}
		for h := range ms.writes {
			s.heaps[h] = Fresh("dry."+h, x.hs[h])
		}
		s.heaps[id] = Fresh("dry.visited", ss)
		if ms.allocs {
			x.bumpAlloc(s)
		}
		d.alloc = s.alloc
		x.dry = append(x.dry, d)
		saved := x.curSite
		iter(f2, s, func(fr *Frame, st *State, key *T, res Val) {
			if del {
				delKey(st, key)
			}
			for _, sp := range spec.steps {
				x.noteWrite(st, x.stepHeap(fr, sp.lhs.s), nil)
			}
			d.allocs = d.allocs || st.alloc != d.alloc
		})
		x.curSite = saved
		x.dry = x.dry[:len(x.dry)-1]
		for _, up := range x.dry {
			for h, rs := range d.writes {
				if up.writes[h] == nil {
					up.writes[h] = map[*T]bool{}
				}
				for r := range rs {
					up.writes[h][r] = true
				}
			}
			up.allocs = up.allocs || d.allocs
		}
		grown := d.allocs && !ms.allocs
		ms.allocs = ms.allocs || d.allocs
		for h := range d.writes {
			if ms.writes[h] == nil {
				grown = true
			}
		}
		for h := range ms.writes {
			if d.writes[h] == nil {
				d.writes[h] = map[*T]bool{}
			}
		}
		ms.writes, ms.mark, ms.allocTerm = d.writes, mark, d.alloc
		if !grown {
			break
		}
	}
	ctx := &LoopCtx{fr: fr.id, l: l, spec: spec, regs: map[string][]*T{}, preds: map[string][]func(*T) *T{}, whole: map[string]bool{}, alloc: st.alloc, pre: pre, name: name, virt: true, slices: map[string][]*T{}}
	if clo != nil {
		for i, fv := range clo.fn.FreeVars {
			el := deref(fv.Type())
			if i >= len(clo.binds) || sortOfGo(el) != sSlice {
				continue
			}
			if a := x.addrOf(clo.binds[i], fv.Type()); a.st == nil && a.ref != nil {
				h := x.elemHeapName(el)
				ctx.slices[h] = append(ctx.slices[h], sref(x.loadRaw(pre, a)))
			}
		}
	}
	preFr := fr.clone()
	if ms.allocs {
		x.bumpAlloc(st)
	}
	x.havocHeaps(fr, st, pre, ctx, ms, spec, preFr)
	st.heaps[id] = Fresh("visited", ss)
	x.iterAllocFacts(st, ms)
	b := BVar("k", sStr)
	vis := st.get(id)
	if !del {
		st.assume(Forall([]*T{b}, [][]*T{{Select(vis, b)}}, Imp(Select(vis, b), Select(dom0, b))))
	} else {
		cur := domOf(st)
		// only visited keys were removed, nothing was added
		st.assume(Forall([]*T{b}, [][]*T{{Select(vis, b)}, {Select(cur, b)}}, And(Imp(Select(vis, b), Select(dom0, b)), Imp(Not(Select(vis, b)), Eq(Select(cur, b), Select(dom0, b))), Imp(Select(cur, b), Select(dom0, b)))))
	}
	x.withLookup(fr, lookup(st, nil), func() {
		e := x.frameEnv(fr, st)
		e.pre = pre
		x.assumeClauses(st, e, spec.inv)
		for _, c := range cands {
			if !x.dropped[c.name] {
				st.assume(c.f(fr, st))
			}
		}
	})
	if len(x.dry) == 0 {
		x.vacuity(st, name)
	}
	// normal end
	stEnd, frEnd := st.clone(), fr.clone()
	// one iteration
	lc := *ctx
	st.lctx = append(st.lctx[:len(st.lctx):len(st.lctx)], &lc)
	lc.virt = false
	iter(fr, st, func(fr *Frame, st *State, key *T, res Val) {
		for n := len(st.lctx); n > 0; n-- {
			if st.lctx[n-1] == &lc {
				st.lctx = st.lctx[: n-1 : n-1]
				break
			}
		}
		cont := res.t
		var dl *T
		if del {
			cont = res.tup[1].t
			dl = res.tup[0].t
		}
		finish := func(fr *Frame, st *State) {
			st.heaps[id] = Store(st.get(id), key, tTrue)
			x.branch(fr, st, cont, func(fr *Frame, st *State) {
				x.virtBack(fr, st, ctx, spec, cands, lookup(st, map[string]SV{"itkey": {key, stStr}, "itval": {Select(valOf(pre), key), stAny}}), name)
			}, func(fr *Frame, st *State) {
				// stopped early: the rest of the function follows from here
				x.noteEarly(st, name)
				k(fr, st, Val{})
			})
		}
		if del {
			x.branch(fr, st, dl, func(fr *Frame, st *State) { delKey(st, key); finish(fr, st) }, finish)
		} else {
			finish(fr, st)
		}
	})
	ve := stEnd.get(id)
	if !del {
		stEnd.assume(Eq(ve, dom0))
		stEnd.heaps[id] = dom0
		stEnd.assume(Forall([]*T{b}, [][]*T{{Select(ve, b)}}, Eq(Select(ve, b), Select(dom0, b))))
	} else {
		stEnd.assume(Eq(ve, dom0))
	}
	k(frEnd, stEnd, Val{})
}

func (x *Exec) noteEarly(st *State, name string) { st.trace += "/stop" }

func (x *Exec) iterAllocFacts(st *State, ms *modset) {}

func (x *Exec) virtBack(fr *Frame, st *State, ctx *LoopCtx, spec *LoopSpec, cands []cand, lookup func(string) (SV, bool), name string) {
	if len(x.dry) > 0 {
		return
	}
	x.withLookup(fr, lookup, func() {
		e := x.frameEnv(fr, st)
		e.pre = ctx.pre
		x.ghostSteps(fr, st, spec.steps, e)
		x.proveClauses(st, e, "invariant-kept", spec.inv, name+" ")
		for _, c := range cands {
			if !x.dropped[c.name] {
				x.proveCand(st, "candidate-kept", c.name, nil, c.f(fr, st), "", c.name)
			}
		}
	})
}

// virtCandidates: captured slice variables stay fresh or the same.
func (x *Exec) virtCandidates(fr *Frame, clo *Closure, st *State, name string) []cand {
	var out []cand
	if clo == nil {
		return nil
	}
	for i, fv := range clo.fn.FreeVars {
		if i >= len(clo.binds) {
			break
		}
		el := deref(fv.Type())
		if sortOfGo(el) != sSlice {
			continue
		}
		a := x.addrOf(clo.binds[i], fv.Type())
		if a.st != nil || a.ref == nil {
			continue
		}
		init := x.loadRaw(st, a)
		al := st.alloc
		out = append(out, cand{fmt.Sprintf("%s var %s fresh-or-same", name, fv.Name()), func(fr *Frame, st *State) *T {
			r := sref(x.loadRaw(st, a))
			return Or(Eq(r, sref(init)), And(Ge(r, al), Lt(r, st.alloc)))
		}})
		out = append(out, cand{fmt.Sprintf("%s var %s shape", name, fv.Name()), func(fr *Frame, st *State) *T {
			v := x.loadRaw(st, a)
			return And(Eq(soff(v), soff(init)), Le(Int(0), slen(v)), Le(slen(v), scap(v)))
		}})
	}
	return out
}

// applyUpsert is m.Upsert(key, value, f): f is called once with the current entry and its result stored unless it aborts.
func (x *Exec) applyUpsert(fr *Frame, c *Contract, f *ssa.Function, args []Val, st *State, k func(*Frame, *State, Val)) {
	e := x.contractEnv(c, f, args, nil, st, st)
	x.proveClauses(st, e, "requires", c.requires, c.name+" ")
	x.assumeClauses(st, e, c.requires)
	clo := args[3].clo
	mv := SV{x.term(args[0]), goST(f.Params[0].Type())}
	r := sref(mv.t)
	fld := func(st *State, n string) *T { return (&Env{ex: x, st: st, pkg: pkgOf(f)}).field(mv, n).t }
	key := args[1].t
	for _, b := range c.ensures {
		if b.label == "bounded" { // a fact about the state before the call
			x.assumeClauses(st, e, []Clause{b})
		}
	}
	d0, v0 := fld(st, "dom"), fld(st, "val")
	in := Select(d0, key)
	cur := Ite(in, Select(v0, key), inil)
	x.inlineCall(fr, clo, []Val{{t: in}, {t: cur}, args[2]}, st, func(fr *Frame, st *State, res Val) {
		x.prove(st, "callback", "upsert callback leaves the map alone", nil, And(Eq(fld(st, "dom"), d0), Eq(fld(st, "val"), v0)), "")
		x.branch(fr, st, res.tup[1].t, func(fr *Frame, st *State) { k(fr, st, res) }, func(fr *Frame, st *State) {
			hd, hv := "G:smap.Map.dom", "G:smap.Map.val"
			st.heaps[hd] = Store(st.get(hd), r, Store(Select(st.get(hd), r), key, tTrue))
			x.noteWrite(st, hd, r)
			st.heaps[hv] = Store(st.get(hv), r, Store(Select(st.get(hv), r), key, res.tup[0].t))
			x.noteWrite(st, hv, r)
			k(fr, st, res)
		})
	})
}

// --- verification of one function ---

func (x *Exec) vacuity(st *State, name string) {
	x.record(&Ob{fn: x.root, kind: "consistent", label: name, hyps: st.facts, goal: tFalse, vac: true, trace: st.trace})
}

type Result struct {
	name   string
	obs    []*Ob
	err    string
	used, inlined, libs, trusted []string
	paths  int
	rounds int
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// verifyRoot generates every obligation of one function under its contract.
func verifyRootX(p *Prog, sp *Specs, c *Contract, fn *ssa.Function, dropped map[string]bool) (*Result, *Exec) {
	x := newExec(p, sp)
	return x.verifyRoot(p, sp, c, fn, dropped), x
}

func (x *Exec) verifyRoot(p *Prog, sp *Specs, c *Contract, fn *ssa.Function, dropped map[string]bool) (res *Result) {
	x.dropped = dropped
	x.root, x.fn, x.c = c.name, fn, c
	res = &Result{name: c.name}
	defer func() {
		if r := recover(); r != nil {
			switch q := r.(type) {
			case abort:
				res.err = q.msg
			case specErr:
				res.err = q.msg
			default:
				panic(r)
			}
			x.dry = nil
			x.record(&Ob{fn: x.root, kind: "supported", label: "", failHard: res.err})
		}
		for m := range x.nameFail {
			x.record(&Ob{fn: x.root, kind: "specification", label: m, failHard: m})
		}
		res.obs = x.obs
		res.used, res.inlined, res.libs, res.trusted = keys(x.used), keys(x.inlined), keys(x.libUsed), keys(x.trustedUsed)
		res.paths = x.exits
	}()
	st := &State{heaps: map[string]*T{}, known: map[*T]bool{}, alloc: Const("alloc0", sInt), x: x}
	x.alloc0 = st.alloc
	if c.kind == "lemma" {
		x.proveLemma(c, st)
		return res
	}
	x.registerPrivate()
	st.assume(Le(Int(1), st.alloc))
	if c.kind == "alloc" {
		if h := c.allocT; strings.HasPrefix(h, "MD:") {
			srt, ok := x.hs[h]
			if !ok {
				srt = arrS(sInt, arrS(sStr, sBool))
				x.heapSort(h, srt)
			}
			_, es := arrParts(srt)
			x.assumeInv(st)
			x.entry = st.clone()
			x.modAll = true
			r := x.newRef(st)
			x.initing++
			x.write(st, h, r, Store(st.get(h), r, ConstArr(es, tFalse)))
			x.initing--
			x.proveInv(st, "invariant", "new map ")
			x.exits = 1
			return res
		}
		i := strings.LastIndex(c.allocT, ".")
		pk := x.p.pkgs[c.allocT[:i]]
		if pk == nil || pk.Pkg.Scope().Lookup(c.allocT[i+1:]) == nil {
			panic(specErr{"no type " + c.allocT})
		}
		x.assumeInv(st)
		x.entry = st.clone()
		x.modAll = true
		x.allocObj(st, pk.Pkg.Scope().Lookup(c.allocT[i+1:]).Type())
		x.proveInv(st, "invariant", "new "+c.allocT+" ")
		x.exits = 1
		return res
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, names: map[string]nameVal{}, spec: c}
	for i, q := range fn.Params {
		pn := q.Name()
		if i < len(c.params) {
			pn = c.params[i]
		}
		v := x.paramVal(st, pn, q.Type())
		fr.params = append(fr.params, v)
		fr.env[q] = v
		x.setName(fr, q.Name(), v, false, q.Type())
	}
	if c.kind != "" && c.kind != "command" && c.kind != "process" {
		x.initCallback(st)
	}
	base := func(n string) (SV, bool) {
		for i, q := range fn.Params {
			pn := q.Name()
			if i < len(c.params) {
				pn = c.params[i]
			}
			if pn == n && pn != q.Name() && fr.params[i].t != nil {
				return SV{fr.params[i].t, goST(q.Type())}, true
			}
		}
		return SV{}, false
	}
	fr.lookup = base
	x.rootPar = fr.params
	entry := st.clone()
	x.entry = entry
	e := x.contractEnv(c, fn, fr.params, nil, st, entry)
	if !c.noInv {
		x.assumeInv(st)
		if m := x.sp.modules[c.module]; m != nil {
			x.assumeClauses(st, &Env{ex: x, st: st, pkg: m.pkg}, m.assumes)
		}
	}
	x.assumeClauses(st, e, c.requires)
	entry.facts, entry.known = st.facts, st.known
	entry = st.clone()
	x.entry = entry
	fr.entry = entry
	for _, m := range c.modifies {
		if m.heap == "*" {
			x.modAll = true // of memory: what the thread itself has and owes is listed by name
			continue
		}
		m := m
		h := x.modHeap(e, m.heap)
		me := x.contractEnv(c, fn, fr.params, nil, entry, entry)
		pred := x.modPred(me, m)
		x.modOK[h] = append(x.modOK[h], func(st *State, r *T) *T {
			if r == nil {
				return tTrue
			}
			return pred(r)
		})
	}
	// a ghost field updated for a named location may be written there
	for _, u := range append(append([]Clause{}, c.updates...), c.witness...) {
		_ = u
	}
	x.vacuity(st, "entry")
	x.rootEnv = func(st *State) *Env { return x.contractEnv(c, fn, fr.params, nil, st, entry) }
	var exits []*State
	fr.ret = func(st *State, rs []Val) {
		x.exits++
		if x.exits > 4000 {
			panic(abort{"too many paths"})
		}
		rv := Val{tup: rs}
		if len(rs) == 1 {
			rv = rs[0]
		}
		re := x.contractEnv(c, fn, fr.params, &rv, st, entry)
		cn := re.names
		lf := x.frameEnv(fr, st)
		re.names = func(n string, s *State) (SV, bool) {
			if v, ok := cn(n, s); ok {
				return v, true
			}
			if _, ok := st.heaps[fmt.Sprintf("L:%d.%s", fr.id, n)]; ok || strings.HasPrefix(n, "f_") {
				return lf.names(n, s)
			}
			return SV{}, false
		}
		x.doUpdates(st, re, c.witness)
		x.doUpdates(st, re, c.updates)
		x.exitHints(st, re, c, x.exitFr)
		x.proveClauses(st, re, "ensures", c.own, "")
		x.proveClauses(st, re, "ensures", c.ensures, "")
		if !c.noInv {
			x.proveInv(st, "invariant", "")
		}
		x.altHyps, x.cases = nil, nil
		if c.initially != "" {
			x.proveStart(st, c, fn, rv)
		}
		if len(exits) < 8 {
			exits = append(exits, st)
		}
	}
	if fn.Blocks == nil {
		panic(abort{"no body"})
	}
	x.block(fr, fn.Blocks[0], 0, st)
	for i, s := range exits {
		x.record(&Ob{fn: x.root, kind: "exit-reachable", label: fmt.Sprintf("exit %d", i), hyps: s.facts, goal: tFalse, vac: true, trace: s.trace})
	}
	return res
}

// exitHints proves intermediate facts at an exit, each usable after it. A hint about
// variables that do not exist on this path is left out.
func (x *Exec) exitHints(st *State, re *Env, c *Contract, fr *Frame) {
	if len(c.hints) == 0 || len(x.dry) > 0 {
		return
	}
	e := *re
	rn, lf := re.names, x.frameEnv(fr, st)
	e.names = func(n string, s *State) (SV, bool) {
		if v, ok := rn(n, s); ok {
			return v, true
		}
		return lf.names(n, s)
	}
	var done []*T
	cut := func() []*T { // what held at entry, ground facts and the hints so far
		hyps := x.entry.facts[:len(x.entry.facts):len(x.entry.facts)]
		for _, f := range st.facts[min(len(hyps), len(st.facts)):] {
			if !quantified(f) {
				hyps = append(hyps, f)
			}
		}
		return append(hyps, done...)
	}
	for i, h := range c.hints {
		t, err := x.evalClause(&e, h)
		if err != "" {
			if os.Getenv("HINTS") != "" {
				fmt.Fprintln(os.Stderr, "hint left out:", err)
			}
			continue
		}
		if lb := fmt.Sprintf("#%d", i); h.label == "cut" {
			hyps := cut()
			x.split(hyps, "hint", lb, h.tags, t, h.src, st.trace, "", st.known)
		} else {
			x.prove(st, "hint", lb, h.tags, t, h.src)
		}
		done = append(done, conjuncts(t)...)
		st.assume(t)
	}
	x.altHyps, x.altBase = cut(), len(st.facts)
	x.cases = map[string]*T{}
	for _, u := range c.cases {
		x.cases[u.lhs.s] = refOf(e.eval(u.e))
	}
}

func quantified(t *T) bool {
	seen := map[*T]bool{}
	var walk func(t *T) bool
	walk = func(t *T) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.k == 'q' {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

func (x *Exec) paramVal(st *State, name string, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Struct); ok {
		return x.freshVal(st, name, t)
	}
	v := Const("p."+sanitize(name), sortOfGo(t))
	st.assume(x.typeFacts(st, v, t))
	return Val{t: v}
}
