package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 24

// block runs a basic block from instruction i.
func (x *Exec) block(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > 3000000 {
			panic(abort{"too many symbolic steps"})
		}
		in := b.Instrs[i]
		switch c := in.(type) {
		case *ssa.Jump:
			x.jump(fr, b, b.Succs[0], st)
			return
		case *ssa.If:
			cond := x.val(fr, c.Cond).t
			x.branch(fr, st, cond, func(fr *Frame, st *State) { x.jump(fr, b, b.Succs[0], st) },
				func(fr *Frame, st *State) { x.jump(fr, b, b.Succs[1], st) })
			return
		case *ssa.Return:
			var res []Val
			for _, r := range c.Results {
				res = append(res, x.val(fr, r))
			}
			x.doReturn(fr, st, res)
			return
		case *ssa.Panic:
			x.prove(st, "panic", "explicit panic", []string{"C20"}, tFalse, "")
			return
		case *ssa.Call:
			bi, ni := b, i+1
			x.call(fr, c, &c.Call, st, func(fr *Frame, st *State, v Val) {
				fr.env[c] = v
				x.block(fr, bi, ni, st)
			})
			return
		case *ssa.Go:
			if x.c != nil && x.c.kind == "process" {
				x.goStmt(fr, c, st)
				continue
			}
			if x.c == nil || x.c.kind != "dispatcher" {
				x.unsupported(st, "go statement")
				continue
			}
			x.libUsed["go statement (the goroutine is followed to its end where it is started)"] = true
			bi, ni := b, i+1
			x.call(fr, nil, &c.Call, st, func(fr *Frame, st *State, v Val) { x.block(fr, bi, ni, st) })
			return
		case *ssa.Select:
			x.selectStmt(fr, b, i, c, st)
			return
		case *ssa.Defer:
			com := c.Call
			fr.defers = append(fr.defers, func(fr *Frame, st *State, k func(*Frame, *State)) {
				x.call(fr, nil, &com, st, func(fr *Frame, st *State, v Val) { k(fr, st) })
			})
			continue
		case *ssa.RunDefers:
			ds := fr.defers
			bi, ni := b, i+1
			var step func(fr *Frame, st *State, j int)
			step = func(fr *Frame, st *State, j int) {
				if j < 0 {
					fr.defers = nil
					x.block(fr, bi, ni, st)
					return
				}
				ds[j](fr, st, func(fr *Frame, st *State) { step(fr, st, j-1) })
			}
			step(fr, st, len(ds)-1)
			return
		default:
			if !x.instr(fr, in, st) {
				return
			}
		}
	}
}

// branch explores the feasible sides of a condition.
func (x *Exec) branch(fr *Frame, st *State, cond *T, yes, no func(*Frame, *State)) {
	switch st.decide(cond) {
	case 1:
		yes(fr, st)
		return
	case 0:
		no(fr, st)
		return
	}
	st2, fr2 := st.clone(), fr.clone()
	st.assume(cond)
	st.trace += "T"
	if !st.known[tFalse] {
		yes(fr, st)
	}
	st2.assume(Not(cond))
	st2.trace += "F"
	if !st2.known[tFalse] {
		no(fr2, st2)
	}
}

func (x *Exec) setName(fr *Frame, n string, v Val, addr bool, ty types.Type) {
	if n == "" || n == "_" {
		return
	}
	fr.names[n] = nameVal{v, addr, ty}
}

func (x *Exec) phis(fr *Frame, from, to *ssa.BasicBlock) {
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	var vals []Val
	var ps []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, x.val(fr, p.Edges[k]))
	}
	for i, p := range ps {
		fr.env[p] = vals[i]
		x.setName(fr, p.Comment, vals[i], false, p.Type())
	}
}

func nphis(b *ssa.BasicBlock) int {
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func (x *Exec) jump(fr *Frame, from, to *ssa.BasicBlock, st *State) {
	if len(x.dry) > 0 {
		d := x.dry[len(x.dry)-1]
		if d.fr == fr.id && !d.l.blocks[to] {
			return
		}
	}
	// leave loops
	for n := len(st.lctx); n > 0; n = len(st.lctx) {
		c := st.lctx[n-1]
		if c.fr == fr.id && !c.virt && !c.l.blocks[to] {
			st.lctx = st.lctx[:n-1 : n-1]
			continue
		}
		break
	}
	l := x.p.loopsOf(fr.fn).byHeader[to]
	x.phis(fr, from, to)
	if l == nil {
		x.block(fr, to, nphis(to), st)
		return
	}
	if u := x.loopSpec(fr, l).unroll; u > 0 {
		if fr.unrolled == nil {
			fr.unrolled = map[*loop]int{}
		}
		if l.blocks[from] {
			fr.unrolled[l]++
		} else {
			fr.unrolled[l] = 0
		}
		if fr.unrolled[l] > u {
			x.prove(st, "unroll", x.loopName(fr, l), nil, tFalse, "the loop ends within its unrolling")
			return
		}
		x.block(fr, to, nphis(to), st)
		return
	}
	if n := len(st.lctx); n > 0 && st.lctx[n-1].fr == fr.id && st.lctx[n-1].l == l {
		x.backEdge(fr, st, st.lctx[n-1])
		return
	}
	x.enterLoop(fr, l, st)
}

func (x *Exec) loopSpec(fr *Frame, l *loop) *LoopSpec {
	g := x.lender(fr)
	idx, ok := x.p.loopMap(g.fn)[loopRef{fr.fn, l.idx}]
	if c := x.specOf(g); c != nil && (ok || g == fr) {
		if !ok {
			idx = l.idx
		}
		if s := c.loops[idx]; s != nil {
			return s
		}
	}
	return &LoopSpec{}
}

func (x *Exec) loopName(fr *Frame, l *loop) string {
	return fmt.Sprintf("%s loop %d", funcName(fr.fn), l.idx)
}

func (x *Exec) frameEnv(fr *Frame, st *State) *Env {
	g := x.lender(fr)
	e := &Env{ex: x, st: st, old: g.entry, alloc0: g.entry.alloc}
	f := fr.fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	e.pkg = f.Pkg.Pkg.Name()
	e.names = func(n string, st *State) (SV, bool) {
		if fr.lookup != nil {
			if v, ok := fr.lookup(n); ok {
				return v, true
			}
		}
		h := fmt.Sprintf("L:%d.%s", fr.id, n)
		if _, ok := st.heaps[h]; ok {
			return SV{st.get(h), x.ghostTy[h]}, true
		}
		if st == fr.entry { // old(p) is the argument the function was called with
			for i, p := range fr.fn.Params {
				if p.Name() == n && fr.params[i].t != nil {
					return SV{fr.params[i].t, goST(p.Type())}, true
				}
			}
		}
		if v, ok := fr.names[n]; ok {
			if v.addr {
				el := v.ty
				if v.v.addr != nil && v.v.addr.st == nil {
					return SV{x.loadRaw(st, v.v.addr), goST(el)}, true
				}
				if v.v.t != nil {
					if sortOfGo(el) == "struct" {
						return SV{v.v.t, goST(types.NewPointer(el))}, true
					}
					return SV{x.loadRaw(st, x.ptrAddr(v.v.t, el)), goST(el)}, true
				}
				return SV{}, false
			}
			if v.v.t == nil {
				if v.v.addr != nil {
					return SV{x.addrTerm(v.v.addr), goST(v.ty)}, true
				}
				return SV{}, false
			}
			return SV{v.v.t, goST(v.ty)}, true
		}
		for i, p := range fr.fn.Params {
			if p.Name() == n && fr.params[i].t != nil {
				return SV{fr.params[i].t, goST(p.Type())}, true
			}
		}
		for _, fv := range fr.fn.FreeVars {
			if fv.Name() == n {
				if b, ok := fr.env[fv]; ok {
					a := x.addrOf(b, fv.Type())
					if a.st == nil {
						return SV{x.loadRaw(st, a), goST(deref(fv.Type()))}, true
					}
				}
			}
		}
		return SV{}, false
	}
	if g == fr {
		e.names = x.aliased(x.p.alias(fr.fn), e.names)
		return e
	}
	al := map[string]string{}
	for k, v := range x.p.aliasIn(fr.fn, g.fn) {
		al[k] = v
	}
	for k, v := range fr.argNames {
		al[k] = v
	}
	own, outer := x.aliased(al, e.names), x.frameEnv(fr.caller, st).names
	e.names = func(n string, st *State) (SV, bool) {
		if v, ok := own(n, st); ok {
			return v, true
		}
		return outer(n, st)
	}
	return e
}

// itNames provides `it`, `visited`, `itkey` for range loops.
func (x *Exec) itNames(fr *Frame, l *loop, st *State) func(string) (SV, bool) {
	prev := fr.lookup
	return func(n string) (SV, bool) {
		switch n {
		case "it", "visited", "itkey":
			for _, in := range l.header.Instrs {
				if nx, ok := in.(*ssa.Next); ok {
					it := x.val(fr, nx.Iter).it
					if it == nil {
						continue
					}
					if n == "itkey" {
						if v, ok := fr.env[nx]; ok && len(v.tup) == 3 {
							return SV{v.tup[1].t, goST(it.mt.Key())}, true
						}
						continue
					}
					vis := st.get(it.id)
					if n == "it" {
						return SV{cardOf(vis), stInt}, true
					}
					k := goST(it.mt.Key())
					return SV{vis, &SType{sort: vis.sort, k: k, v: stBool}}, true
				}
				if p, ok := in.(*ssa.Phi); ok && n == "it" && p.Comment == "rangeindex" {
					return SV{Add(fr.env[p].t, Int(1)), stInt}, true
				}
			}
			if n == "it" {
				if p, from := counting(l); p != nil && fr.env[p].t != nil {
					if f := x.val(fr, from); f.t != nil {
						return SV{Sub(fr.env[p].t, f.t), stInt}, true
					}
				}
			}
		}
		for m := l; m != nil; m = m.parent {
			if v, ok := x.loopVar(fr, m, n); ok {
				return v, true
			}
			if c := x.counted(fr, m, n); c != nil {
				if v, ok := x.itNames(fr, m, st)("it"); ok {
					return SV{Add(v.t, Int(c.From)), stInt}, true
				}
			}
		}
		if prev != nil {
			return prev(n)
		}
		return SV{}, false
	}
}

func (x *Exec) withLookup(fr *Frame, f func(string) (SV, bool), g func()) {
	old := fr.lookup
	fr.lookup = f
	defer func() { fr.lookup = old }()
	g()
}

// evalClauses evaluates specification clauses; binding failures become failed obligations.
func (x *Exec) evalClause(e *Env, c Clause) (t *T, err string) {
	defer func() {
		if r := recover(); r != nil {
			switch q := r.(type) {
			case specErr:
				err = q.msg + " in `" + c.src + "`"
			case abort:
				err = q.msg + " in `" + c.src + "`"
			default:
				panic(r)
			}
		}
	}()
	return e.evalBool(c.e), ""
}

func (x *Exec) proveClauses(st *State, e *Env, kind string, cs []Clause, prefix string) {
	if len(x.dry) > 0 {
		return
	}
	for i, c := range cs {
		lb := prefix + c.label
		if c.label == "" {
			lb = fmt.Sprintf("%s#%d", prefix, i)
		}
		t, err := x.evalClause(e, c)
		if err != "" {
			x.record(&Ob{fn: x.root, kind: kind, label: lb, tags: c.tags, failHard: err, src: c.src, trace: st.trace})
			continue
		}
		x.prove(st, kind, lb, c.tags, t, c.src)
	}
}

func (x *Exec) assumeClauses(st *State, e *Env, cs []Clause) {
	for _, c := range cs {
		t, err := x.evalClause(e, c)
		if err != "" {
			x.nameFail[err] = true
			continue
		}
		st.assume(t)
	}
}

func (x *Exec) enterLoop(fr *Frame, l *loop, st *State) {
	spec := x.loopSpec(fr, l)
	name := x.loopName(fr, l)
	hdr := l.header
	// ghost variables
	for _, g := range spec.ghosts {
		e := x.frameEnv(fr, st)
		h := fmt.Sprintf("L:%d.%s", fr.id, g.name)
		ty := e.typ(g.ty)
		x.hs[h] = ty.sort
		x.ghostTy[h] = ty
		st.heaps[h] = x.coerce(e.eval(g.init), ty)
	}
	cands := x.candidates(fr, l, st, name)
	x.withLookup(fr, x.itNames(fr, l, st), func() {
		e := x.frameEnv(fr, st)
		e.pre = st
		x.proveClauses(st, e, "invariant-init", spec.inv, name+" ")
		for _, c := range cands {
			if !x.dropped[c.name] {
				x.proveCand(st, "candidate-init", c.name, nil, c.f(fr, st), "", c.name)
			}
		}
	})
	// which heaps does one arbitrary iteration write?
	mod := x.dryRun(fr, l, st)
	pre := st.clone()
	ctx := &LoopCtx{fr: fr.id, l: l, spec: spec, regs: map[string][]*T{}, preds: map[string][]func(*T) *T{}, whole: map[string]bool{}, alloc: st.alloc, pre: pre, name: name, cands: cands}
	if mod.allocs {
		x.bumpAlloc(st)
	}
	preFr := fr.clone()
	if ctx.all = mod.all; ctx.all {
		x.havocAll(st)
	}
	x.havocHeaps(fr, st, pre, ctx, mod, spec, preFr)
	for _, in := range hdr.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if fr.env[p].clo != nil {
			continue
		}
		hint := p.Comment
		if hint == "" {
			hint = p.Name()
		}
		v := x.freshVal(st, hint, p.Type())
		fr.env[p] = v
		x.setName(fr, p.Comment, v, false, p.Type())
	}
	x.iterFacts(fr, l, st, pre, mod)
	x.withLookup(fr, x.itNames(fr, l, st), func() {
		e := x.frameEnv(fr, st)
		e.pre = pre
		x.assumeClauses(st, e, spec.inv)
		for _, c := range cands {
			if !x.dropped[c.name] {
				st.assume(c.f(fr, st))
			}
		}
		if spec.dec != nil {
			ctx.dec = e.eval(spec.dec).t
		} else {
			ctx.dec = x.autoDecreases(fr, l, st)
		}
		x.proveClauses(st, e, "lemma", spec.lemmas, name+" ")
		x.assumeClauses(st, e, spec.lemmas)
		x.assumeClauses(st, e, spec.assumes)
		for _, c := range spec.assumes {
			x.trustedUsed["assumed in "+name+": "+c.src] = true
		}
	})
	if len(x.dry) == 0 {
		x.vacuity(st, name)
	}
	st.lctx = append(st.lctx[:len(st.lctx):len(st.lctx)], ctx)
	x.block(fr, hdr, nphis(hdr), st)
}

func (x *Exec) coerce(v SV, ty *SType) *T {
	if v.ty.sort != ty.sort {
		if v.t.op == "nil?" {
			return nilOf(ty.sort)
		}
		if ty.sort == sIface {
			return x.toIface(v.t, v.ty.g)
		}
		panic(specErr{fmt.Sprintf("value of sort %s where %s is needed", v.ty.sort, ty.sort)})
	}
	return v.t
}

func (x *Exec) backEdge(fr *Frame, st *State, ctx *LoopCtx) {
	if len(x.dry) > 0 {
		// ghost steps count as writes
		for _, s := range ctx.spec.steps {
			x.noteWrite(st, x.stepHeap(fr, s.lhs.s), nil)
		}
		if d := x.dry[len(x.dry)-1]; d.fr == fr.id && d.l == ctx.l {
			d.allocs = d.allocs || st.alloc != d.alloc
		}
		return
	}
	x.withLookup(fr, x.itNames(fr, ctx.l, st), func() {
		e := x.frameEnv(fr, st)
		e.pre = ctx.pre
		x.ghostSteps(fr, st, ctx.spec.steps, e)
		x.proveClauses(st, e, "invariant-kept", ctx.spec.inv, ctx.name+" ")
		for _, c := range ctx.cands {
			if !x.dropped[c.name] {
				x.proveCand(st, "candidate-kept", c.name, nil, c.f(fr, st), "", c.name)
			}
		}
		if ctx.dec != nil {
			var d *T
			if ctx.spec.dec != nil {
				d = e.eval(ctx.spec.dec).t
			} else {
				d = x.autoDecreases(fr, ctx.l, st)
			}
			x.prove(st, "terminates", ctx.name, []string{"C20"}, And(Lt(d, ctx.dec), Le(Int(0), ctx.dec)), "the loop measure decreases and is bounded below")
		} else if ctx.spec.forever {
		} else if ctx.spec.chance != "" {
			x.trustedUsed["assumed to end, "+ctx.name+": "+ctx.spec.chance] = true
		} else if !isRangeMap(ctx.l) {
			x.prove(st, "terminates", ctx.name, []string{"C20"}, tFalse, "no loop measure")
		}
	})
}

// stepHeap is where a ghost step writes: a ghost of the loop or a global one.
func (x *Exec) stepHeap(fr *Frame, n string) string {
	h := fmt.Sprintf("L:%d.%s", fr.id, n)
	if _, ok := x.hs[h]; ok {
		return h
	}
	if t, ok := x.sp.ghostV[n]; ok {
		x.heapSort("GV:"+n, (&Env{ex: x, pkg: pkgOf(fr.fn)}).typ(t).sort)
		return "GV:" + n
	}
	return h
}

func (x *Exec) ghostSteps(fr *Frame, st *State, steps []Clause, e *Env) {
	for _, s := range steps {
		h := fmt.Sprintf("L:%d.%s", fr.id, s.lhs.s)
		func() {
			defer func() {
				if r := recover(); r != nil {
					se, ok := r.(specErr)
					if !ok {
						panic(r)
					}
					x.record(&Ob{fn: x.root, kind: "ghost", label: s.lhs.s, failHard: se.msg, trace: st.trace})
				}
			}()
			if _, ok := x.hs[h]; ok {
				if _, ok := st.heaps[h]; ok {
					st.heaps[h] = x.coerce(e.eval(s.e), x.ghostTy[h])
					return
				}
			}
			// ghost of an enclosing loop or a global ghost
			if v, ok := e.lookup(s.lhs.s); ok {
				_ = v
			}
			if t, ok := x.sp.ghostV[s.lhs.s]; ok {
				x.heapSort("GV:"+s.lhs.s, e.typ(t).sort)
				st.heaps["GV:"+s.lhs.s] = x.coerce(e.eval(s.e), e.typ(t))
				return
			}
			panic(specErr{"unknown ghost variable " + s.lhs.s})
		}()
	}
}

func isRangeMap(l *loop) bool {
	for _, in := range l.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

// autoDecreases guesses a measure: the loop condition `a < b` gives b - a, range loops are bounded.
func (x *Exec) autoDecreases(fr *Frame, l *loop, st *State) *T {
	defer func() { recover() }()
	b := l.header
	// find the If that leaves the loop from the header
	last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := last.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	ev := func(v ssa.Value) *T { return x.pureTerm(fr, v, st, l, 0) }
	switch cmp.Op {
	case token.LSS, token.LEQ:
		if sortOfGo(cmp.X.Type()) != sInt {
			return nil
		}
		p, q := ev(cmp.X), ev(cmp.Y)
		if p == nil || q == nil {
			return nil
		}
		return Add(Sub(q, p), Int(1))
	case token.GTR, token.GEQ:
		if sortOfGo(cmp.X.Type()) != sInt {
			return nil
		}
		p, q := ev(cmp.X), ev(cmp.Y)
		if p == nil || q == nil {
			return nil
		}
		return Add(Sub(p, q), Int(1))
	}
	return nil
}

// pureTerm evaluates an SSA value of the header block from the phis, without executing it.
func (x *Exec) pureTerm(fr *Frame, v ssa.Value, st *State, l *loop, d int) *T {
	if d > 8 {
		return nil
	}
	if in, ok := v.(ssa.Instruction); ok && in.Block() == l.header {
		switch c := v.(type) {
		case *ssa.Phi:
			return fr.env[c].t
		case *ssa.BinOp:
			a, b := x.pureTerm(fr, c.X, st, l, d+1), x.pureTerm(fr, c.Y, st, l, d+1)
			if a == nil || b == nil {
				return nil
			}
			switch c.Op {
			case token.ADD:
				return Add(a, b)
			case token.SUB:
				return Sub(a, b)
			}
			return nil
		case *ssa.Call:
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				a := x.pureTerm(fr, c.Call.Args[0], st, l, d+1)
				if a == nil {
					return nil
				}
				if a.sort == sSlice {
					return slen(a)
				}
				if a.sort == sStr {
					return strLen(a)
				}
			}
			return nil
		case *ssa.UnOp:
			if c.Op == token.MUL {
				a := x.pureAddr(fr, c.X, st, l, d+1)
				if a != nil {
					return x.loadRaw(st, a)
				}
			}
			return nil
		}
		return nil
	}
	r, ok := fr.env[v]
	if ok {
		return r.t
	}
	if c, ok := v.(*ssa.Const); ok {
		return x.constTerm(c)
	}
	return nil
}

func (x *Exec) pureAddr(fr *Frame, v ssa.Value, st *State, l *loop, d int) *Addr {
	switch c := v.(type) {
	case *ssa.FieldAddr:
		a := x.pureTerm(fr, c.X, st, l, d+1)
		if a == nil {
			return nil
		}
		return x.fieldAddr(a, deref(c.X.Type()), c.Field)
	}
	if r, ok := fr.env[v]; ok {
		return x.addrOf(r, v.Type())
	}
	return nil
}

// candidates are loop invariants tried automatically and dropped when they do not hold.
func (x *Exec) candidates(fr *Frame, l *loop, st *State, name string) []cand {
	var out []cand
	k := 0
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		init := fr.env[p]
		if init.t == nil {
			continue
		}
		pn := fmt.Sprintf("%s phi%d", name, k)
		k++
		switch {
		case init.t.sort == sInt && isIntType(p.Type()):
			it := init.t
			lo, hi := false, false
			for i, e := range p.Edges {
				if !l.blocks[l.header.Preds[i]] {
					continue
				}
				if bo, ok := e.(*ssa.BinOp); ok && bo.X == ssa.Value(p) {
					if c, ok := bo.Y.(*ssa.Const); ok {
						pos := c.Int64() > 0
						if bo.Op == token.SUB {
							pos = !pos
						}
						if pos {
							lo = true
						} else {
							hi = true
						}
					}
				}
			}
			pp := p
			if lo {
				out = append(out, cand{pn + " low", func(fr *Frame, st *State) *T { return Le(it, fr.env[pp].t) }})
			}
			if hi {
				out = append(out, cand{pn + " high", func(fr *Frame, st *State) *T { return Le(fr.env[pp].t, it) }})
			}
			if lo || hi {
				// bound taken from the loop condition
				for _, b := range x.condBounds(l, p) {
					b := b
					f := func(fr *Frame, st *State) *T {
						q := x.pureTerm(fr, b.v, st, l, 0)
						if q == nil {
							return tTrue
						}
						cur := Add(fr.env[pp].t, Int(b.off))
						var g *T
						if b.up {
							g = Le(cur, q)
						} else {
							g = Le(q, cur)
						}
						// holds unless the loop never starts
						e := Add(it, Int(b.off))
						if b.up {
							return Or(g, And(Eq(cur, e), Lt(q, e)))
						}
						return Or(g, And(Eq(cur, e), Lt(e, q)))
					}
					out = append(out, cand{fmt.Sprintf("%s bound%d", pn, b.id), f})
				}
			}
		case init.t.sort == sSlice:
			pp, it, al := p, init.t, st.alloc
			out = append(out, cand{pn + " fresh-or-same", func(fr *Frame, st *State) *T {
				r := sref(fr.env[pp].t)
				return Or(Eq(r, sref(it)), Ge(r, al))
			}})
			out = append(out, cand{pn + " offset", func(fr *Frame, st *State) *T { return Eq(soff(fr.env[pp].t), soff(it)) }})
		}
	}
	return out
}

type bnd struct {
	v   ssa.Value
	up  bool
	off int64
	id  int
}

func (x *Exec) condBounds(l *loop, p *ssa.Phi) []bnd {
	var out []bnd
	for _, in := range l.header.Instrs {
		bo, ok := in.(*ssa.BinOp)
		if !ok {
			continue
		}
		off := int64(0)
		xv := bo.X
		if a, ok := xv.(*ssa.BinOp); ok && a.Op == token.ADD && a.X == ssa.Value(p) && a.Block() == l.header {
			// range loops compare index+1
			if c, ok := a.Y.(*ssa.Const); ok && c.Int64() == 1 {
				xv = p
				off = 1
			}
		}
		if xv != ssa.Value(p) {
			continue
		}
		switch bo.Op {
		case token.LSS:
			out = append(out, bnd{bo.Y, true, off, len(out)})
		case token.LEQ:
			out = append(out, bnd{bo.Y, true, off - 1, len(out)})
		case token.GTR:
			out = append(out, bnd{bo.Y, false, off, len(out)})
		case token.GEQ:
			out = append(out, bnd{bo.Y, false, off + 1, len(out)})
		}
	}
	return out
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

type modset struct {
	writes    map[string]map[*T]bool
	allocs    bool
	mark      int
	allocTerm *T
	all       bool
}

// dryRun explores one arbitrary iteration without recording obligations to find what it writes.
func (x *Exec) dryRun(fr *Frame, l *loop, st *State) *modset {
	ms := &modset{writes: map[string]map[*T]bool{}}
	for round := 0; round < 6; round++ {
		s, f := st.clone(), fr.clone()
		mark := nterms
		d := &dryCtx{fr: fr.id, l: l, writes: map[string]map[*T]bool{}, mark: mark}
		for h := range ms.writes {
			if srt, ok := x.hs[h]; ok {
				s.heaps[h] = Fresh("dry."+h, srt)
			}
		}
		if ms.all {
			ds := x.dry
			x.dry = nil
			x.havocAll(s)
			x.dry = ds
		}
		if ms.allocs {
			x.bumpAlloc(s)
		}
		for _, in := range l.header.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if f.env[p].clo != nil {
				continue
			}
			v := x.freshVal(s, "dry", p.Type())
			f.env[p] = v
			x.setName(f, p.Comment, v, false, p.Type())
		}
		d.alloc = s.alloc
		s.lctx = append(s.lctx[:len(s.lctx):len(s.lctx)], &LoopCtx{fr: fr.id, l: l, spec: x.loopSpec(fr, l), alloc: s.alloc, name: "dry"})
		x.dry = append(x.dry, d)
		x.block(f, l.header, nphis(l.header), s)
		x.dry = x.dry[:len(x.dry)-1]
		// propagate to an enclosing dry run
		for _, up := range x.dry {
			for h, rs := range d.writes {
				if up.writes[h] == nil {
					up.writes[h] = map[*T]bool{}
				}
				for r := range rs {
					up.writes[h][r] = true
				}
			}
			up.allocs = up.allocs || d.allocs
			up.all = up.all || d.all
		}
		grown := d.allocs && !ms.allocs || d.all && !ms.all
		ms.all = ms.all || d.all
		ms.allocs = ms.allocs || d.allocs
		for h := range d.writes {
			if ms.writes[h] == nil {
				grown = true
			}
		}
		nw := d.writes
		for h := range ms.writes {
			if nw[h] == nil {
				nw[h] = map[*T]bool{}
			}
		}
		ms.writes, ms.mark = nw, mark
		ms.allocTerm = d.alloc
		if !grown {
			return ms
		}
	}
	return ms
}

// variant reports whether a term depends on symbols created after the mark.
func variant(t *T, mark int) bool {
	seen := map[*T]bool{}
	var w func(t *T) bool
	w = func(t *T) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.k == 'c' && t.id > mark && !strings.HasPrefix(t.op, "H0:") && !strings.HasPrefix(t.op, "global.") {
			return true
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func (x *Exec) havocHeaps(fr *Frame, st, pre *State, ctx *LoopCtx, ms *modset, spec *LoopSpec, preFr *Frame) {
	e := x.frameEnv(preFr, pre)
	declared := map[string][]func(*T) *T{}
	for _, m := range spec.mods {
		h := x.modHeap(e, m.heap)
		m := m
		declared[h] = append(declared[h], x.modPred(e, m))
	}
	for _, h := range sortedHeapKeys(ms.writes) {
		if ms.all && !x.kept(h) {
			continue
		}
		srt := x.hs[h]
		nh := Fresh(shortHeap(h), srt)
		rs := ms.writes[h]
		if strings.HasPrefix(h, "L:") || strings.HasPrefix(h, "GL:") || strings.HasPrefix(h, "GV:") || strings.HasPrefix(h, "IT:") {
			st.heaps[h] = nh
			if strings.HasPrefix(h, "IT:") {
				// iterator of an enclosing loop is not advanced by inner iterations; its own loop is
				continue
			}
			continue
		}
		var regs []*T
		freshW, unknown := false, false
		for r := range rs {
			switch {
			case r == tTrue:
				unknown = true
			case !variant(r, ms.mark):
				regs = append(regs, r)
			case ms.allocTerm != nil && x.atLeast(baseRef(r), ms.allocTerm):
				freshW = true
			case r.op == "sref" && r.k == 'f':
				// a slice variable: its own backing array at loop entry, or one allocated since
				freshW = true
				if ctx.l.header == nil {
					if ss, ok := ctx.slices[h]; ok {
						regs = append(regs, ss...)
					} else {
						unknown = true
					}
					continue
				}
				for _, in := range ctx.l.header.Instrs {
					if p, ok := in.(*ssa.Phi); ok && sortOfGo(p.Type()) == sSlice && x.elemHeapName(p.Type()) == h {
						if iv := preFr.env[p].t; iv != nil {
							regs = append(regs, sref(iv))
						}
					}
				}
			default:
				unknown = true
			}
		}
		if ps, ok := declared[h]; ok {
			ctx.preds[h] = ps
			unknown = false
			freshW = true
		}
		uniq := map[*T]bool{}
		var rr []*T
		for _, r := range regs {
			if !uniq[r] && r != Int(0) {
				uniq[r] = true
				rr = append(rr, r)
			}
		}
		sortTerms(rr)
		ctx.regs[h] = rr
		if unknown {
			ctx.whole[h] = true
			st.heaps[h] = nh
			continue
		}
		if !freshW && len(ctx.preds[h]) == 0 {
			cur := pre.get(h)
			_, es := arrParts(srt)
			for i, r := range rr {
				cur = Store(cur, r, Fresh(fmt.Sprintf("%s.%d", shortHeap(h), i), es))
			}
			st.heaps[h] = cur
			continue
		}
		st.heaps[h] = nh
		b := BVar("fr", sInt)
		cond := []*T{Lt(b, ctx.alloc)}
		for _, r := range rr {
			cond = append(cond, Neq(b, r))
		}
		for _, p := range ctx.preds[h] {
			cond = append(cond, Not(p(b)))
		}
		st.assume(Forall([]*T{b}, [][]*T{{Select(nh, b)}}, Imp(And(cond...), Eq(Select(nh, b), Select(pre.get(h), b)))))
	}
}

func (x *Exec) elemHeapName(t types.Type) string {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return "M:" + typeKey(s.Elem())
	}
	return ""
}

func sortTerms(ts []*T) {
	for i := range ts {
		for j := i + 1; j < len(ts); j++ {
			if ts[j].id < ts[i].id {
				ts[i], ts[j] = ts[j], ts[i]
			}
		}
	}
}

func sortedHeapKeys(m map[string]map[*T]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

func (x *Exec) doReturn(fr *Frame, st *State, res []Val) {
	if len(x.dry) > 0 {
		if d := x.dry[len(x.dry)-1]; d.fr == fr.id {
			return
		}
	}
	for n := len(st.lctx); n > 0 && st.lctx[n-1].fr == fr.id && !st.lctx[n-1].virt; n = len(st.lctx) {
		st.lctx = st.lctx[: n-1 : n-1]
	}
	x.exitFr = fr
	fr.ret(st, res)
}
