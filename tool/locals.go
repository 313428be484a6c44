package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The names contracts use are those of the tree they were written for, listed in contracts/locals.json (tool locals).
// Where the current source calls the same variable something else, a contract's name is read as the new one:
// parameters and results by position, local variables by type and order of declaration. A wrong guess can only make
// an obligation fail: parameters and results are matched by position and type alone, and what is said of locals is
// proved of whatever variable it is read as.
type Locals struct {
	Params  [][2]string `json:"params,omitempty"`
	Results [][2]string `json:"results,omitempty"`
	Locals  [][2]string `json:"locals,omitempty"`
	Loops   int         `json:"loops,omitempty"`
	Counts  []Count     `json:"counts,omitempty"`
}

// Count is a variable that counts the iterations of a loop, from a constant on.
type Count struct {
	Name string `json:"name"`
	Loop int    `json:"loop"`
	From int64  `json:"from"`
}

func (p *Prog) countsOf(fn *ssa.Function) (res []Count) {
	for _, l := range p.loopsOf(fn).list {
		var v ssa.Value
		from := int64(0)
		if phi, init := counting(l); phi != nil {
			c, ok := init.(*ssa.Const)
			if !ok || c.Value == nil {
				continue
			}
			v, from = phi, c.Int64()
			if phi.Comment == "rangeindex" {
				v = nil
				for _, r := range *phi.Referrers() {
					if o, ok := r.(*ssa.BinOp); ok && o.Op == token.ADD && o.X == phi {
						v, from = o, 0
					}
				}
			}
		}
		seen := map[string]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if d, ok := in.(*ssa.DebugRef); ok && v != nil && d.X == v && d.Object() != nil && !seen[d.Object().Name()] {
					seen[d.Object().Name()] = true
					res = append(res, Count{d.Object().Name(), l.idx, from})
				}
			}
		}
	}
	return
}

func (p *Prog) localsOf(fn *ssa.Function) Locals {
	l := Locals{Loops: len(p.loopsOf(fn).list)}
	ty := func(t types.Type) string { return types.TypeString(t, (*types.Package).Name) }
	seen := map[string]bool{}
	for _, q := range fn.Params {
		l.Params = append(l.Params, [2]string{q.Name(), ty(q.Type())})
		seen[q.Name()] = true
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		l.Results = append(l.Results, [2]string{rs.At(i).Name(), ty(rs.At(i).Type())})
		seen[rs.At(i).Name()] = true
	}
	if fn.Syntax() == nil || fn.Pkg == nil || p.infos[fn.Pkg.Pkg] == nil {
		return l
	}
	l.Counts = p.countsOf(fn)
	info := p.infos[fn.Pkg.Pkg]
	ast.Inspect(fn.Syntax(), func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if v, ok := info.Defs[id].(*types.Var); ok && !v.IsField() && !seen[id.Name] && id.Name != "_" {
				seen[id.Name] = true
				l.Locals = append(l.Locals, [2]string{id.Name, ty(v.Type())})
			}
		}
		return true
	})
	return l
}

// alias maps the names of the tree the contracts were written for to those the function uses now.
func (p *Prog) alias(fn *ssa.Function) map[string]string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if m, ok := p.aliases[fn]; ok {
		return m
	}
	if p.aliases == nil {
		p.aliases = map[*ssa.Function]map[string]string{}
	}
	m := map[string]string{}
	p.aliases[fn] = m
	p.match(m, p.baseNames[funcName(fn)], p.localsOf(fn))
	return m
}

// aliasIn is alias for a helper split off fn: its parameters and variables may stand for fn's.
func (p *Prog) aliasIn(helper, fn *ssa.Function) map[string]string {
	h, f := p.localsOf(helper), p.localsOf(fn)
	m := map[string]string{}
	l := append(append(append([][2]string{}, h.Results...), h.Params...), h.Locals...)
	p.match(m, p.baseNames[funcName(fn)], Locals{Params: f.Params, Results: f.Results, Locals: append(l, f.Locals...)})
	return m
}

func (p *Prog) match(m map[string]string, was, now Locals) {
	cur := map[string]bool{}
	for _, l := range [][][2]string{now.Params, now.Results, now.Locals} {
		for _, e := range l {
			cur[e[0]] = true
		}
	}
	pos := func(a, b [][2]string) {
		for i := range a {
			if i < len(b) && len(a) == len(b) && a[i][1] == b[i][1] && a[i][0] != b[i][0] && a[i][0] != "" && b[i][0] != "" && !cur[a[i][0]] {
				m[a[i][0]] = b[i][0]
			}
		}
	}
	pos(was.Params, now.Params)
	pos(was.Results, now.Results)
	old := map[string]bool{}
	for _, l := range [][][2]string{was.Params, was.Results, was.Locals} {
		for _, e := range l {
			old[e[0]] = true
		}
	}
	fresh := map[string][]string{}
	had := map[string]bool{}
	for _, e := range now.Locals {
		if !old[e[0]] && !had[e[0]] {
			had[e[0]] = true
			fresh[e[1]] = append(fresh[e[1]], e[0])
		}
	}
	for _, e := range append(append([][2]string{}, was.Results...), was.Locals...) {
		if e[0] == "" || cur[e[0]] || m[e[0]] != "" {
			continue
		}
		if f := fresh[e[1]]; len(f) > 0 {
			m[e[0]] = f[0]
			fresh[e[1]] = f[1:]
		}
	}
}

// aliased looks a name up, under the name it has now if it has none of its own.
func (x *Exec) aliased(m map[string]string, look func(string, *State) (SV, bool)) func(string, *State) (SV, bool) {
	return func(n string, st *State) (SV, bool) {
		if v, ok := look(n, st); ok {
			return v, true
		}
		if a := m[n]; a != "" {
			return look(a, st)
		}
		return SV{}, false
	}
}

// isNew: the function is not one of the tree the contracts were written for, and has no contract.
func (x *Exec) isNew(f *ssa.Function) bool {
	if x.p.baseNames == nil || f.Parent() != nil || x.sp.contracts[funcName(f)] != nil {
		return false
	}
	_, ok := x.p.baseNames[funcName(f)]
	return !ok
}

// lender is the frame whose contract speaks about a frame's loops: its own, or for a helper that was split off
// a function since, that function's.
func (x *Exec) lender(fr *Frame) *Frame {
	g := fr
	for g.caller != nil && g.spec == nil && x.isNew(g.fn) {
		g = g.caller
	}
	return g
}

func (x *Exec) specOf(fr *Frame) *Contract {
	if fr.spec != nil {
		return fr.spec
	}
	return x.sp.contracts[funcName(fr.fn)]
}

type loopRef struct {
	fn  *ssa.Function
	idx int
}

// loopMap numbers the loops of a function as they were in the tree the contracts were written for: those now in
// helpers split off it count where the helper is called.
func (p *Prog) loopMap(fn *ssa.Function) map[loopRef]int {
	if m, ok := p.loopMaps[fn]; ok {
		return m
	}
	if p.loopMaps == nil {
		p.loopMaps = map[*ssa.Function]map[loopRef]int{}
	}
	m := map[loopRef]int{}
	was, ok := p.baseNames[funcName(fn)]
	if ok && was.Loops != len(p.loopsOf(fn).list) {
		var seq []loopRef
		p.loopSeq(fn, map[*ssa.Function]bool{}, &seq)
		if len(seq) == was.Loops {
			for i, r := range seq {
				if _, dup := m[r]; !dup {
					m[r] = i
				}
			}
		}
	}
	p.loopMaps[fn] = m
	return m
}

func (p *Prog) loopSeq(fn *ssa.Function, seen map[*ssa.Function]bool, out *[]loopRef) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	defer delete(seen, fn)
	type item struct {
		pos token.Pos
		l   int
		f   *ssa.Function
	}
	var its []item
	for _, l := range p.loopsOf(fn).list {
		its = append(its, item{loopPos(l), l.idx, nil})
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g.Blocks != nil && inRepo(g) && g.Parent() == nil {
					if _, old := p.baseNames[funcName(g)]; !old {
						its = append(its, item{c.Pos(), 0, g})
					}
				}
			}
		}
	}
	sort.SliceStable(its, func(i, j int) bool { return its[i].pos < its[j].pos })
	for _, it := range its {
		if it.f != nil {
			p.loopSeq(it.f, seen, out)
		} else {
			*out = append(*out, loopRef{fn, it.l})
		}
	}
}

// loopVar finds, at the head of a loop over the elements of a slice, what the variable of this name will hold.
func (x *Exec) loopVar(fr *Frame, l *loop, n string) (SV, bool) {
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok || phi.Comment != "rangeindex" || fr.env[phi].t == nil {
			continue
		}
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				d, ok := in.(*ssa.DebugRef)
				if !ok || d.Object() == nil {
					continue
				}
				if d.Object().Name() != n && d.Object().Name() != x.p.aliasIn(fr.fn, x.lender(fr).fn)[n] {
					continue
				}
				if o, ok := d.X.(*ssa.BinOp); ok && o.Op == token.ADD && o.X == phi {
					return SV{Add(fr.env[phi].t, Int(1)), stInt}, true
				}
			}
		}
	}
	return SV{}, false
}

// counted: the name was that of the variable counting this loop's iterations, and there is none of that name now.
func (x *Exec) counted(fr *Frame, l *loop, n string) *Count {
	g := x.lender(fr)
	was, ok := x.p.baseNames[funcName(g.fn)]
	if !ok || x.p.aliasIn(fr.fn, g.fn)[n] != "" || fr.argNames[n] != "" {
		return nil
	}
	now := x.p.localsOf(fr.fn)
	for _, s := range [][][2]string{now.Params, now.Results, now.Locals} {
		for _, e := range s {
			if e[0] == n {
				return nil
			}
		}
	}
	idx := l.idx
	if i, ok := x.p.loopMap(g.fn)[loopRef{fr.fn, l.idx}]; ok {
		idx = i
	}
	for _, c := range was.Counts {
		if c.Name == n && c.Loop == idx {
			return &c
		}
	}
	return nil
}

// counting: the variable of a loop that counts up in steps of one, and what it starts from.
func counting(l *loop) (res *ssa.Phi, from ssa.Value) {
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var init ssa.Value
		step := len(phi.Edges) > 1
		for i, e := range phi.Edges {
			if l.blocks[l.header.Preds[i]] {
				o, ok := e.(*ssa.BinOp)
				if !ok || o.Op != token.ADD || o.X != phi {
					step = false
					continue
				}
				c, ok := o.Y.(*ssa.Const)
				step = step && ok && c.Value != nil && c.Value.ExactString() == "1"
			} else {
				step = step && init == nil
				init = e
			}
		}
		if init != nil && step {
			if res != nil {
				return nil, nil
			}
			res, from = phi, init
		}
	}
	return
}

func loadBaseNames(p *Prog, dir string) {
	b, err := os.ReadFile(filepath.Join(dir, "locals.json"))
	if err != nil {
		return
	}
	if err := json.Unmarshal(b, &p.baseNames); err != nil {
		fmt.Fprintln(os.Stderr, "locals.json:", err)
	}
	// a function that has another name now: the only new one of its package, receiver and signature
	sig := func(n string, l Locals) string {
		s := n[:strings.LastIndex(n, ".")] + "("
		for _, e := range l.Params {
			s += e[1] + ","
		}
		s += ")"
		for _, e := range l.Results {
			s += e[1] + ","
		}
		return s
	}
	gone, come := map[string][]string{}, map[string][]string{}
	for n, l := range p.baseNames {
		if p.funcs[n] == nil && !strings.Contains(n, "$") {
			gone[sig(n, l)] = append(gone[sig(n, l)], n)
		}
	}
	for n, f := range p.funcs {
		if _, ok := p.baseNames[n]; !ok && f.Parent() == nil && f.Pkg != nil && p.infos[f.Pkg.Pkg] != nil {
			k := sig(n, p.localsOf(f))
			come[k] = append(come[k], n)
		}
	}
	for k, g := range gone {
		if c := come[k]; len(g) == 1 && len(c) == 1 {
			f := p.funcs[c[0]]
			renamed[f] = g[0]
			for m, h := range p.funcs {
				if h == f || h.Parent() == f {
					delete(p.funcs, m)
					p.funcs[funcName(h)] = h
					p.names[h] = funcName(h)
				}
			}
		}
	}
}

var renamed = map[*ssa.Function]string{}

func cmdLocals(p *Prog) {
	m := map[string]Locals{}
	for n, f := range p.funcs {
		if f.Pkg != nil && p.infos[f.Pkg.Pkg] != nil {
			m[n] = p.localsOf(f)
		}
	}
	var ns []string
	for n := range m {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	fmt.Println("{")
	for i, n := range ns {
		b, _ := json.Marshal(m[n])
		sep := ","
		if i == len(ns)-1 {
			sep = ""
		}
		fmt.Printf("%q: %s%s\n", n, b, sep)
	}
	fmt.Println("}")
}
