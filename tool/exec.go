package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is the symbolic value of an SSA value.
type Val struct {
	t    *T
	tup  []Val
	clo  *Closure
	addr *Addr
	it   *MapIter
	flds []Val // struct values
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
	bound *Val // bound method receiver
}

// Addr is a symbolic address.
type Addr struct {
	heap string
	ref  *T // nil for scalar heaps (globals)
	idx  *T // element of a backing array
	ty   types.Type
	st   types.Type // struct type when the address is that of a struct (ref is the pointer)
}

type MapIter struct {
	id   string // heap holding the visited set
	m    *T
	mt   *types.Map
	dom0 *T
	str  bool
}

type Ob struct {
	fn, kind, label string
	tags            []string
	hyps            []*T
	base            int // how many of hyps the state gave; the others come from the goal
	goal            *T
	trace           string
	n               int
	pos             token.Pos
	src             string
	failHard        string // not provable by construction (unsupported construct)
	vac             bool   // vacuity check: hyps must not be contradictory
	cand            string // candidate invariant this obligation belongs to

	res    string // "proved", "failed", "unknown"
	solver string
	secs   float64
	model  string
	script string
	alt    []*T // a smaller set of hypotheses to try first
	altScr string
}

func (o *Ob) name() string {
	s := o.fn + "/" + o.kind
	if o.label != "" {
		s += ":" + o.label
	}
	return s
}

type State struct {
	heaps map[string]*T
	facts []*T
	known map[*T]bool
	alloc *T
	lctx  []*LoopCtx
	trace string
	epoch string // heaps not written since an unknown call
	late  *T     // the allocation mark when a task was handed over that may run from now on
	x     *Exec
}

type LoopCtx struct {
	fr     int
	l      *loop
	spec   *LoopSpec
	regs   map[string][]*T          // heap -> loop-invariant references that may be written
	preds  map[string][]func(*T) *T // heap -> declared regions
	whole  map[string]bool          // heap without frame
	alloc  *T                       // allocation counter at loop entry
	dec    *T
	pre    *State
	name   string
	cands  []cand
	virt   bool
	all    bool            // memory as a whole may change, but for what is kept
	slices map[string][]*T // backing arrays at entry of the slice variables a callback captures
}

type cand struct {
	name string
	f    func(fr *Frame, st *State) *T
}

type Frame struct {
	id       int
	fn       *ssa.Function
	env      map[ssa.Value]Val
	names    map[string]nameVal
	ret      func(st *State, res []Val)
	caller   *Frame
	depth    int
	spec     *Contract
	entry    *State
	defers   []func(fr *Frame, st *State, k func(*Frame, *State))
	params   []Val
	rangeN   int
	unrolled map[*loop]int
	lookup   func(string) (SV, bool) // extra names
	argNames map[string]string       // names of the caller's variables passed to this helper: its parameters
}

type nameVal struct {
	v    Val
	addr bool
	ty   types.Type
}

type Exec struct {
	p       *Prog
	sp      *Specs
	hs      map[string]string
	recUsed map[string]bool
	base    int

	// current root
	root        string
	fn          *ssa.Function
	c           *Contract
	obs         []*Ob
	obN         map[string]int
	entry       *State
	alloc0      *T
	dry         []*dryCtx
	frameN      int
	epochs      int
	rootPar     []Val
	exitFr      *Frame
	rootEnv     func(*State) *Env // the root contract's names, in a state on the way
	cases       map[string]*T
	altHyps     []*T // smaller context for the obligations at the current exit
	altBase     int
	paths       int
	steps       int
	modAll      bool
	modOK       map[string][]func(st *State, r *T) *T
	used        map[string]bool // contracts relied upon
	libUsed     map[string]bool
	inlined     map[string]bool
	dropped     map[string]bool // candidate invariants dropped (Houdini)
	candSeen    map[string]bool
	returns     int
	trustedUsed map[string]bool
	maxPaths    int
	rebind      map[string]string
	atCall      func(st *State, clo string, args []Val) (Val, bool)
	nameFail    map[string]bool
	ghostTy     map[string]*SType
	noops       map[*T]bool // function values whose call does nothing here
	allocLow    map[*T]*T
	cloCells    map[*T]*Closure
	lastKey     *T
	rootFr      *Frame
	curSite     *ssa.Call
	exits       int
	lams        map[lamKey]*T // comprehension -> its array
	lamDef      map[*T]*T     // what it holds
	initing     int           // depth of zero-initialisation of new objects
}

type dryCtx struct {
	fr     int
	l      *loop
	writes map[string]map[*T]bool
	mark   int
	alloc  *T
	allocs bool
	all    bool // memory as a whole may change
}

type abort struct{ msg string }

func newExec(p *Prog, sp *Specs) *Exec {
	return &Exec{p: p, sp: sp, hs: map[string]string{}, recUsed: map[string]bool{}, obN: map[string]int{}, modOK: map[string][]func(*State, *T) *T{},
		used: map[string]bool{}, libUsed: map[string]bool{}, inlined: map[string]bool{}, dropped: map[string]bool{}, candSeen: map[string]bool{},
		trustedUsed: map[string]bool{}, nameFail: map[string]bool{}, ghostTy: map[string]*SType{}, noops: map[*T]bool{}, allocLow: map[*T]*T{}, cloCells: map[*T]*Closure{}}
}

// --- state ---

func (s *State) clone() *State {
	n := &State{heaps: make(map[string]*T, len(s.heaps)+4), alloc: s.alloc, trace: s.trace, x: s.x, epoch: s.epoch, late: s.late}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.known = make(map[*T]bool, len(s.known)+8)
	for k := range s.known {
		n.known[k] = true
	}
	n.lctx = s.lctx[:len(s.lctx):len(s.lctx)]
	return n
}

func (s *State) get(h string) *T {
	if t, ok := s.heaps[h]; ok {
		return t
	}
	srt, ok := s.x.hs[h]
	if !ok {
		panic("heap without sort: " + h)
	}
	if s.epoch != "" && !s.x.kept(h) {
		return Const("H"+s.epoch+":"+h, srt)
	}
	return Const("H0:"+h, srt)
}

func (s *State) assume(t *T) {
	if t == tTrue || s.known[t] {
		return
	}
	if t.op == "and" && t.k == 'f' {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	s.known[t] = true
	s.facts = append(s.facts, t)
	s.antisymmetry(t)
}

// antisymmetry adds a == b when both a <= b and b <= a are known, so that the
// solver's congruence closure sees the equality without arithmetic reasoning.
func (s *State) antisymmetry(t *T) {
	a, b, ok := leParts(t)
	if !ok {
		return
	}
	for _, r := range []*T{mk("<=", sBool, b, a), Not(mk("<", sBool, a, b))} {
		if s.known[r] {
			s.assume(Eq(a, b))
			return
		}
	}
}

// leParts matches a fact that says a <= b.
func leParts(t *T) (a, b *T, ok bool) {
	if t.k != 'f' {
		return
	}
	switch {
	case t.op == "<=":
		return t.args[0], t.args[1], true
	case t.op == "not" && t.args[0].k == 'f' && t.args[0].op == "<":
		return t.args[0].args[1], t.args[0].args[0], true
	}
	return
}

// decide evaluates a condition under the known facts: 1 true, 0 false, -1 unknown.
func (s *State) decide(c *T) int {
	if c == tTrue || s.known[c] {
		return 1
	}
	n := Not(c)
	if c == tFalse || s.known[n] {
		return 0
	}
	switch {
	case c.op == "and" && c.k == 'f':
		all := true
		for _, a := range c.args {
			switch s.decide(a) {
			case 0:
				return 0
			case -1:
				all = false
			}
		}
		if all {
			return 1
		}
	case c.op == "or" && c.k == 'f':
		all := true
		for _, a := range c.args {
			switch s.decide(a) {
			case 1:
				return 1
			case -1:
				all = false
			}
		}
		if all {
			return 0
		}
	case c.op == "not" && c.k == 'f':
		switch s.decide(c.args[0]) {
		case 1:
			return 0
		case 0:
			return 1
		}
	}
	return -1
}

func (x *Exec) heapSort(h, s string) {
	if o, ok := x.hs[h]; ok && o != s {
		panic(fmt.Sprintf("heap %s has sorts %s and %s", h, o, s))
	}
	x.hs[h] = s
}

func (x *Exec) elemHeap(el types.Type) string {
	h := "M:" + typeKey(el)
	s := sortOfGo(el)
	if s == "struct" {
		panic(abort{"slice of structures: " + typeKey(el)})
	}
	x.heapSort(h, arrS(sInt, arrS(sInt, s)))
	return h
}

func (x *Exec) cellHeap(el types.Type) string {
	h := "C:" + typeKey(el)
	x.heapSort(h, arrS(sInt, sortOfGo(el)))
	return h
}

func (x *Exec) mapHeaps(m *types.Map) (dom, val string) {
	k := typeKey(m.Key()) + ":" + typeKey(m.Elem())
	ks, vs := sortOfGo(m.Key()), sortOfGo(m.Elem())
	x.heapSort("MD:"+k, arrS(sInt, arrS(ks, sBool)))
	x.heapSort("MV:"+k, arrS(sInt, arrS(ks, vs)))
	return "MD:" + k, "MV:" + k
}

func (x *Exec) fieldAddr(ref *T, st types.Type, i int) *Addr {
	n, ft, ok := structField(st, i)
	if !ok {
		panic(abort{"field of a non-structure " + typeKey(st)})
	}
	if sortOfGo(ft) == "struct" {
		return &Addr{ref: UF("fa:"+n, sInt, ref), st: ft, ty: ft}
	}
	if x.p.fieldTaken[n] {
		return &Addr{heap: x.cellHeap(ft), ref: fieldRef(n, ref), ty: ft}
	}
	h := "F:" + n
	x.heapSort(h, arrS(sInt, sortOfGo(ft)))
	return &Addr{heap: h, ref: ref, ty: ft}
}

// fieldRef is the address of an address-taken field: an injective function of the object.
func fieldRef(n string, ref *T) *T {
	return UF("fa:"+n, sInt, ref)
}

func (x *Exec) ptrAddr(ref *T, el types.Type) *Addr {
	if sortOfGo(el) == "struct" {
		return &Addr{ref: ref, st: el, ty: el}
	}
	if a, ok := el.Underlying().(*types.Array); ok {
		return &Addr{heap: x.elemHeap(a.Elem()), ref: ref, ty: el}
	}
	return &Addr{heap: x.cellHeap(el), ref: ref, ty: el}
}

func (x *Exec) addrTerm(a *Addr) *T {
	if a.idx != nil {
		panic(abort{"address of a slice element used as a value"})
	}
	if a.st != nil {
		return a.ref
	}
	if strings.HasPrefix(a.heap, "C:") || strings.HasPrefix(a.heap, "M:") {
		return a.ref
	}
	panic(abort{"address of " + a.heap + " used as a value"})
}

func (x *Exec) loadRaw(st *State, a *Addr) *T {
	if a.st != nil {
		panic(abort{"load of a structure value"})
	}
	h := st.get(a.heap)
	if a.ref == nil {
		return h
	}
	v := Select(h, a.ref)
	if a.idx != nil {
		v = Select(v, a.idx)
	}
	return v
}

func (x *Exec) load(st *State, a *Addr) *T {
	v := x.loadRaw(st, a)
	st.assume(x.typeFacts(st, v, a.ty))
	return v
}

// typeFacts are the facts every value of a Go type satisfies.
func (x *Exec) typeFacts(st *State, v *T, ty types.Type) *T {
	switch sortOfGo(ty) {
	case sInt:
		switch ty.Underlying().(type) {
		case *types.Basic:
			return inRange(v, ty)
		}
		return Lt(v, st.alloc)
	case sSlice:
		if v.op == "mkslice" {
			return tTrue
		}
		r, o, l, c := sref(v), soff(v), slen(v), scap(v)
		return And(Lt(r, st.alloc), Le(Int(0), r), Le(Int(0), o), Le(Int(0), l), Le(l, c), Le(Add(o, c), maxLen), Imp(Eq(r, Int(0)), Eq(c, Int(0))))
	}
	return tTrue
}

func (x *Exec) sliceElem(st *State, s, i *T, el types.Type) *T {
	return Select(Select(st.get(x.elemHeap(el)), sref(s)), Ix(soff(s), i))
}

// --- interfaces ---

func (x *Exec) toIface(v *T, ty types.Type) *T {
	switch sortOfGo(ty) {
	case sIface:
		return v
	case sStr:
		if b, ok := ty.(*types.Basic); ok && b.Kind() == types.String || ty == types.Typ[types.UntypedString] {
			return mk("istr", sIface, v)
		}
		panic(abort{"named string type in an interface"})
	case sInt:
		if _, ok := ty.Underlying().(*types.Basic); ok {
			return mk("iint", sIface, x.p.tid(ty), v)
		}
		return mk("iref", sIface, x.p.tid(ty), v)
	case sBool:
		return mk("ibool", sIface, v)
	case sF:
		return mk("iflt", sIface, v)
	case sSlice:
		return mk("islice", sIface, x.p.tid(ty), v)
	}
	panic(abort{"interface of " + typeKey(ty)})
}

func isCtorT(name string, v *T) *T {
	if isCtor(v) {
		return Bool(v.op == name)
	}
	if v.op == "ite" && v.k == 'f' {
		return Ite(v.args[0], isCtorT(name, v.args[1]), isCtorT(name, v.args[2]))
	}
	return mk("(_ is "+name+")", sBool, v)
}

func (x *Exec) isType(v *T, ty types.Type) *T {
	if types.IsInterface(ty) {
		return Not(Eq(v, inil)) // every dynamic type used here implements the asserted interface
	}
	switch sortOfGo(ty) {
	case sStr:
		return isCtorT("istr", v)
	case sInt:
		if _, ok := ty.Underlying().(*types.Basic); ok {
			return And(isCtorT("iint", v), Eq(sel(v, "iint", "iintt", sInt, 0), x.p.tid(ty)))
		}
		return And(isCtorT("iref", v), Eq(sel(v, "iref", "ireft", sInt, 0), x.p.tid(ty)))
	case sBool:
		return isCtorT("ibool", v)
	case sF:
		return isCtorT("iflt", v)
	case sSlice:
		return And(isCtorT("islice", v), Eq(sel(v, "islice", "islicet", sInt, 0), x.p.tid(ty)))
	}
	panic(abort{"type test for " + typeKey(ty)})
}

func (x *Exec) payload(v *T, ty types.Type) *T {
	if types.IsInterface(ty) {
		return v
	}
	switch sortOfGo(ty) {
	case sStr:
		return sel(v, "istr", "istrv", sStr, 0)
	case sInt:
		if _, ok := ty.Underlying().(*types.Basic); ok {
			return sel(v, "iint", "iintv", sInt, 1)
		}
		return sel(v, "iref", "irefr", sInt, 1)
	case sBool:
		return sel(v, "ibool", "iboolv", sBool, 0)
	case sF:
		return sel(v, "iflt", "ifltv", sF, 0)
	case sSlice:
		return sel(v, "islice", "islicev", sSlice, 1)
	}
	panic(abort{"type assertion to " + typeKey(ty)})
}

// --- obligations ---

func (x *Exec) prove(st *State, kind, label string, tags []string, goal *T, src string) {
	if len(x.dry) > 0 {
		return
	}
	x.proveCand(st, kind, label, tags, goal, src, "")
}

func (x *Exec) proveCand(st *State, kind, label string, tags []string, goal *T, src, cand string) {
	if len(x.dry) > 0 {
		return
	}
	if goal == tTrue {
		x.record(&Ob{fn: x.root, kind: kind, label: label, tags: tags, goal: goal, src: src, res: "proved", solver: "simplifier", cand: cand})
		return
	}
	x.base = len(st.facts)
	x.split(st.facts, kind, label, tags, goal, src, st.trace, cand, st.known)
	x.base = 0
}

func (x *Exec) split(hyps []*T, kind, label string, tags []string, g *T, src, trace, cand string, known map[*T]bool) {
	switch {
	case g.op == "and" && g.k == 'f':
		for _, a := range g.args {
			x.split(hyps, kind, label, tags, a, src, trace, cand, known)
		}
		return
	case g.op == "=>" && g.k == 'f':
		h := hyps[:len(hyps):len(hyps)]
		h = append(h, conjuncts(g.args[0])...)
		x.split(h, kind, label, tags, g.args[1], src, trace, cand, known)
		return
	case g.op == "forall" && g.k == 'q':
		m := map[*T]*T{}
		for i, v := range g.args[:g.nv] {
			n := v.op
			if i := strings.Index(n, "?"); i >= 0 {
				n = n[:i]
			}
			if i == 0 && x.cases[n] != nil && x.cases[n].sort == v.sort {
				m[v] = x.cases[n]
				for _, w := range g.args[1:g.nv] {
					m[w] = Fresh("sk."+w.op[:strings.Index(w.op, "?")], w.sort)
				}
				x.split(hyps, kind, label, tags, subst(g.args[g.nv], m), src, trace, cand, known)
				m = map[*T]*T{}
				m[v] = Fresh("sk."+n, v.sort)
				hyps = append(hyps[:len(hyps):len(hyps)], Not(Eq(m[v], x.cases[n])))
				continue
			}
			m[v] = Fresh("sk."+n, v.sort)
		}
		x.split(hyps, kind, label, tags, subst(g.args[g.nv], m), src, trace, cand, known)
		return
	case g.op == "ite" && g.k == 'f':
		h := append(hyps[:len(hyps):len(hyps)], g.args[0])
		x.split(h, kind, label, tags, g.args[1], src, trace, cand, known)
		h = append(hyps[:len(hyps):len(hyps)], Not(g.args[0]))
		x.split(h, kind, label, tags, g.args[2], src, trace, cand, known)
		return
	case g.op == "=" && g.k == 'f' && g.args[0].sort == sBool && !g.free:
		a, b := g.args[0], g.args[1]
		x.split(append(hyps[:len(hyps):len(hyps)], conjuncts(a)...), kind, label, tags, b, src, trace, cand, known)
		x.split(append(hyps[:len(hyps):len(hyps)], conjuncts(b)...), kind, label, tags, a, src, trace, cand, known)
		return
	}
	o := &Ob{fn: x.root, kind: kind, label: label, tags: tags, hyps: hyps, goal: g, src: src, trace: trace, cand: cand, base: x.base}
	if x.altHyps != nil && len(hyps) >= x.altBase {
		o.alt = append(x.altHyps[:len(x.altHyps):len(x.altHyps)], hyps[x.altBase:]...)
	}
	if g == tTrue || known[g] {
		o.res, o.solver = "proved", "simplifier"
	} else {
		ng := Not(g)
		for _, h := range hyps[max(0, len(hyps)-40):] {
			if h == g || h == tFalse {
				o.res, o.solver = "proved", "simplifier"
			}
			if h == ng && g != tFalse {
				_ = h
			}
		}
	}
	x.record(o)
}

func conjuncts(t *T) []*T {
	if t.op == "and" && t.k == 'f' {
		return t.args
	}
	return []*T{t}
}

func (x *Exec) record(o *Ob) {
	n := o.name()
	x.obN[n]++
	o.n = x.obN[n]
	x.obs = append(x.obs, o)
}

// unsupported records an obligation that cannot be discharged.
func (x *Exec) unsupported(st *State, msg string) {
	if len(x.dry) > 0 {
		return
	}
	x.record(&Ob{fn: x.root, kind: "unsupported", label: msg, failHard: msg, trace: st.trace})
}

// --- writes ---

func (x *Exec) write(st *State, heap string, ref *T, nh *T) {
	st.heaps[heap] = nh
	x.noteWrite(st, heap, ref)
	if st.late != nil && !strings.HasPrefix(heap, "G:") && !x.atLeast(ref, st.late) {
		x.prove(st, "race", "memory is left alone once a task that may read it was handed over", []string{"C24"}, tFalse, "")
	}
}

func flattenRef(r *T, out map[*T]bool) {
	if r.op == "ite" && r.k == 'f' {
		flattenRef(r.args[1], out)
		flattenRef(r.args[2], out)
		return
	}
	out[r] = true
}

// underFresh reports whether ref is syntactically at or above an allocation mark.
func (x *Exec) atLeast(ref, mark *T) bool {
	for i := 0; i < 200; i++ {
		d := linOf(ref).sub(linOf(mark))
		if len(d.co) == 0 {
			return d.k.Sign() >= 0
		}
		l := linOf(ref)
		if len(l.co) != 1 {
			return false
		}
		var low *T
		for t := range l.co {
			low = x.allocLow[t]
			if low != nil {
				low = Add(low, Big(l.k))
			}
		}
		if low == nil {
			return false
		}
		ref = low
	}
	return false
}

// bumpAlloc moves the allocation counter forward by an unknown amount.
func (x *Exec) bumpAlloc(st *State) {
	na := Fresh("alloc", sInt)
	x.allocLow[na] = st.alloc
	st.assume(Le(st.alloc, na))
	st.alloc = na
}

func baseRef(ref *T) *T {
	for ref.k == 'f' && strings.HasPrefix(ref.op, "fa:") {
		ref = ref.args[0]
	}
	return ref
}

func (x *Exec) noteWrite(st *State, heap string, ref *T) {
	if len(x.dry) > 0 {
		for _, d := range x.dry {
			if d.writes[heap] == nil {
				d.writes[heap] = map[*T]bool{}
			}
			if ref == nil {
				d.writes[heap][tTrue] = true
			} else {
				flattenRef(ref, d.writes[heap])
			}
		}
		return
	}
	if ref == nil {
		if strings.HasPrefix(heap, "GL:") || strings.HasPrefix(heap, "GV:") {
			x.checkMod(st, heap, nil)
		}
		return
	}
	if strings.HasPrefix(heap, "IT:") || strings.HasPrefix(heap, "L:") {
		return
	}
	fresh := baseRef(ref)
	for _, c := range st.lctx {
		if c.whole[heap] || c.virt || c.all && !x.kept(heap) {
			continue
		}
		ok := x.atLeast(fresh, c.alloc)
		var alts []*T
		for _, r := range c.regs[heap] {
			if r == ref {
				ok = true
			}
			alts = append(alts, Eq(r, ref))
		}
		if ok {
			continue
		}
		for _, p := range c.preds[heap] {
			alts = append(alts, p(ref))
		}
		alts = append(alts, Ge(fresh, c.alloc))
		x.prove(st, "loop-frame", c.name+" "+shortHeap(heap), nil, Or(alts...), "")
	}
	x.checkMod(st, heap, ref)
	x.checkPrivate(st, heap, ref)
}

func shortHeap(h string) string {
	if i := strings.Index(h, ":"); i >= 0 {
		return h[i+1:]
	}
	return h
}

func (x *Exec) checkMod(st *State, heap string, ref *T) {
	if x.modAll && !x.sp.threadV[heap] || x.rawPrivate(heap) {
		return
	}
	if ref != nil && x.atLeast(baseRef(ref), x.alloc0) {
		return
	}
	var alts []*T
	for _, f := range x.modOK[heap] {
		g := f(st, ref)
		if g == tTrue {
			return
		}
		alts = append(alts, g)
	}
	if ref != nil {
		alts = append(alts, Ge(baseRef(ref), x.alloc0))
	}
	x.prove(st, "frame", shortHeap(heap), nil, Or(alts...), "only the declared locations are written")
}

// isPrivate: entry p of a module's private list names the heap. Raw heaps are written =MD:...
func isPrivate(m *Module, p, heap string) bool {
	if q := strings.TrimPrefix(p, m.pkg+".="); q != p {
		return q == strings.ReplaceAll(heap, " ", "")
	}
	return "F:"+p == heap || "C:"+p == heap || "G:"+p == heap
}

func (x *Exec) rawPrivate(heap string) bool {
	m := x.sp.modules[x.c.module]
	if m == nil {
		return false
	}
	for _, p := range m.private {
		if strings.HasPrefix(p, m.pkg+".=") && isPrivate(m, p, heap) {
			return true
		}
	}
	return false
}

// havocPrivate forgets the private heaps of a module after one of its functions ran.
func (x *Exec) havocPrivate(st *State, mn string) {
	m := x.sp.modules[mn]
	if m == nil {
		return
	}
	for h := range x.hs {
		for _, p := range m.private {
			if strings.HasPrefix(p, m.pkg+".=") && isPrivate(m, p, h) {
				st.heaps[h] = Fresh(shortHeap(h), x.hs[h])
				if len(x.dry) > 0 {
					for _, d := range x.dry {
						if d.writes[h] == nil {
							d.writes[h] = map[*T]bool{}
						}
						d.writes[h][tTrue] = true
					}
				}
			}
		}
	}
}

// checkPrivate: a module's private heaps are only written by its own functions.
func (x *Exec) checkPrivate(st *State, heap string, ref *T) {
	for _, mn := range x.sp.modOrder {
		m := x.sp.modules[mn]
		if x.c != nil && (x.c.module == mn) {
			continue
		}
		for _, p := range m.private {
			if isPrivate(m, p, heap) {
				if x.initing > 0 {
					continue
				}
				x.prove(st, "private", shortHeap(heap), nil, tFalse, "written outside module "+mn)
			}
			if x.p.fieldTaken[p] && strings.HasPrefix(heap, "C:") && x.initing == 0 {
				// the field lives among the cells of its type, at its own address
				switch {
				case ref == nil || ref.op == "fa:"+p:
					x.prove(st, "private", p, nil, tFalse, "written outside module "+mn)
				case strings.HasPrefix(ref.op, "fa:") || x.atLeast(ref, x.alloc0):
				default:
					x.prove(st, "private", p, nil, Lt(Int(0), ref), "written outside module "+mn)
				}
			}
		}
	}
}

func (x *Exec) store(st *State, a *Addr, v *T) {
	if a.st != nil {
		panic(abort{"store of a structure value"})
	}
	if a.ref == nil {
		x.write(st, a.heap, nil, v)
		return
	}
	h := st.get(a.heap)
	if a.idx != nil {
		x.write(st, a.heap, a.ref, Store(h, a.ref, Store(Select(h, a.ref), a.idx, v)))
		return
	}
	x.write(st, a.heap, a.ref, Store(h, a.ref, v))
}

func (x *Exec) loadGlobal(st *State, g *ssa.Global) *T {
	if v := x.p.globalValue(g); v != nil && !x.p.globalMut[g] {
		return v
	}
	h := "GL:" + typeKeyGlobal(g)
	x.heapSort(h, sortOfGo(deref(g.Type())))
	return st.get(h)
}

// --- allocation ---

func zeroOf(ty types.Type) *T { return zeroSort(sortOfGo(ty)) }

func zeroSort(s string) *T {
	switch s {
	case sInt:
		return Int(0)
	case sBool:
		return tFalse
	case sStr:
		return StrLit("")
	case sF:
		return fltConst("0")
	case sIface:
		return inil
	case sSlice:
		return nilSlice
	}
	if strings.HasPrefix(s, "(Array") {
		_, v := arrParts(s)
		return ConstArr(s, zeroSort(v))
	}
	panic(abort{"zero value of " + s})
}

func fltConst(s string) *T {
	t := UF("flit:"+s, sF)
	return t
}

func (x *Exec) newRef(st *State) *T {
	r := st.alloc
	st.alloc = Add(st.alloc, Int(1))
	return r
}

func (x *Exec) allocObj(st *State, el types.Type) *T {
	r := x.newRef(st)
	x.initObj(st, r, el)
	return r
}

func (x *Exec) initObj(st *State, r *T, el types.Type) {
	x.initing++
	defer func() { x.initing-- }()
	switch u := el.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			a := x.fieldAddr(r, el, i)
			if a.st != nil {
				x.initObj(st, a.ref, a.st)
				continue
			}
			x.write(st, a.heap, a.ref, Store(st.get(a.heap), a.ref, zeroOf(a.ty)))
		}
		key := typeKey(el)
		for _, gf := range x.sp.ghostF {
			if gf.typ == key {
				x.initGhost(st, gf, r)
			}
		}
	case *types.Array:
		h := x.elemHeap(u.Elem())
		x.write(st, h, r, Store(st.get(h), r, ConstArr(arrS(sInt, sortOfGo(u.Elem())), zeroOf(u.Elem()))))
	default:
		h := x.cellHeap(el)
		x.write(st, h, r, Store(st.get(h), r, zeroOf(el)))
	}
}

func (x *Exec) initGhost(st *State, gf *GhostField, r *T) {
	e := &Env{ex: x, st: st, pkg: strings.Split(gf.typ, ".")[0]}
	ty := e.typ(gf.ty)
	h := "G:" + gf.typ + "." + gf.name
	x.heapSort(h, arrS(sInt, ty.sort))
	x.write(st, h, r, Store(st.get(h), r, zeroSort(ty.sort)))
}

// --- constants ---

func (x *Exec) constTerm(c *ssa.Const) *T {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return StrLit(constant.StringVal(c.Value))
	case constant.Int:
		if sortOfGo(c.Type()) == sF {
			return fltConst(c.Value.ExactString())
		}
		b, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			panic(abort{"integer constant"})
		}
		return Big(b)
	case constant.Float:
		return fltConst(c.Value.ExactString())
	}
	panic(abort{"constant " + c.String()})
}

func (x *Exec) val(fr *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		if _, ok := c.Type().Underlying().(*types.Struct); ok {
			return x.zeroVal(c.Type())
		}
		return Val{t: x.constTerm(c)}
	case *ssa.Function:
		return Val{clo: &Closure{fn: c}, t: x.p.static("func:" + funcName(c))}
	case *ssa.Global:
		h := "GL:" + typeKeyGlobal(c)
		el := deref(c.Type())
		if sortOfGo(el) == "struct" {
			return Val{addr: &Addr{ref: x.p.static("var:" + typeKeyGlobal(c)), st: el, ty: el}, t: x.p.static("var:" + typeKeyGlobal(c))}
		}
		x.heapSort(h, sortOfGo(el))
		return Val{addr: &Addr{heap: h, ty: el}}
	case *ssa.Builtin:
		return Val{}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(abort{fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn)})
	}
	return r
}

func (x *Exec) zeroVal(t types.Type) Val {
	if st, ok := t.Underlying().(*types.Struct); ok {
		v := Val{}
		for i := 0; i < st.NumFields(); i++ {
			v.flds = append(v.flds, x.zeroVal(st.Field(i).Type()))
		}
		return v
	}
	return Val{t: zeroOf(t)}
}

// term gives the SMT term of a value.
func (x *Exec) term(v Val) *T {
	if v.t != nil {
		return v.t
	}
	if v.addr != nil {
		return x.addrTerm(v.addr)
	}
	if v.clo != nil {
		return x.p.static("func:" + funcName(v.clo.fn))
	}
	panic(abort{"value without a term"})
}

func (x *Exec) addrOf(v Val, ptr types.Type) *Addr {
	if v.addr != nil {
		return v.addr
	}
	return x.ptrAddr(v.t, deref(ptr))
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = make(map[ssa.Value]Val, len(fr.env)+4)
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.names = make(map[string]nameVal, len(fr.names)+2)
	for k, v := range fr.names {
		n.names[k] = v
	}
	n.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	if fr.unrolled != nil {
		n.unrolled = map[*loop]int{}
		for k, v := range fr.unrolled {
			n.unrolled[k] = v
		}
	}
	return &n
}

// freshVal makes an unconstrained value of a Go type.
func (x *Exec) freshVal(st *State, hint string, ty types.Type) Val {
	switch u := ty.Underlying().(type) {
	case *types.Tuple:
		var v Val
		for i := 0; i < u.Len(); i++ {
			v.tup = append(v.tup, x.freshVal(st, fmt.Sprintf("%s.%d", hint, i), u.At(i).Type()))
		}
		return v
	case *types.Struct:
		var v Val
		for i := 0; i < u.NumFields(); i++ {
			v.flds = append(v.flds, x.freshVal(st, hint+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return v
	}
	if tt, ok := ty.(*types.Tuple); ok {
		var v Val
		for i := 0; i < tt.Len(); i++ {
			v.tup = append(v.tup, x.freshVal(st, fmt.Sprintf("%s.%d", hint, i), tt.At(i).Type()))
		}
		return v
	}
	t := Fresh(hint, sortOfGo(ty))
	st.assume(x.typeFacts(st, t, ty))
	return Val{t: t}
}

func sortedKeys(m map[string]*T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
