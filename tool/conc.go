package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ChanSpec says what travels through the channels of one element type.
type ChanSpec struct {
	elem   string
	pkg    string
	sends  []Clause // proved where a value (msg) is sent to channel ch
	closes []Clause // proved where ch is closed
	gets   []Clause // assumed after a receive; old is the state before the wait
	onmake, onsend, onrecv, onclose []Clause
}

// concurrent: the function is one thread among others, which run at every wait.
func (x *Exec) concurrent() bool { return x.c != nil && (x.c.kind == "process" || x.c.kind == "dispatcher") }

// kept: the heap is not changed by other threads, or only at objects this thread does not know.
func (x *Exec) kept(h string) bool {
	return strings.HasPrefix(h, "L:") || strings.HasPrefix(h, "IT:") || strings.HasPrefix(h, "C:") || x.sp.stable[h]
}

func (x *Exec) chanSpec(t types.Type) (*ChanSpec, types.Type) {
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		panic(abort{"channel of type " + t.String()})
	}
	return x.sp.chans[typeKey(c.Elem())], c.Elem()
}

func (x *Exec) chanEnv(cs *ChanSpec, st, old *State, ch *T, ct types.Type, v *Val, el types.Type) *Env {
	e := &Env{ex: x, st: st, old: old, pkg: cs.pkg}
	if old != nil {
		e.alloc0 = old.alloc
	}
	e.names = func(n string, s *State) (SV, bool) {
		switch {
		case n == "ch":
			return SV{ch, goST(ct)}, true
		case n == "msg" && v != nil && (v.t != nil || v.addr != nil):
			return SV{x.term(*v), goST(el)}, true
		}
		return SV{}, false
	}
	return e
}

// chUpdates performs the ghost effects of a channel operation.
func (x *Exec) chUpdates(st *State, e *Env, us []Clause) {
	x.initing++
	x.doUpdates(st, e, us)
	x.initing--
}

func (x *Exec) chMake(st *State, ch *T, t types.Type) {
	if cs, _ := x.chanSpec(t); cs != nil {
		x.chUpdates(st, x.chanEnv(cs, st, st.clone(), ch, t, nil, nil), cs.onmake)
	}
}

func (x *Exec) chSend(st *State, ch *T, t types.Type, v Val) {
	x.libUsed["channels: what was sent or closed happened before what is received (Go memory model); a send on a closed channel is not considered"] = true
	cs, el := x.chanSpec(t)
	if cs != nil {
		if len(x.dry) == 0 {
			x.vacuity(st, "send to chan "+cs.elem)
		}
		e := x.chanEnv(cs, st, st.clone(), ch, t, &v, el)
		x.proveClauses(st, e, "send", cs.sends, "to chan "+cs.elem+" ")
		if x.c.kind == "process" && x.rootEnv != nil {
			re := x.rootEnv(st)
			rn := re.names
			re.names = func(n string, s *State) (SV, bool) {
				if v, ok := e.names(n, s); ok {
					return v, true
				}
				return rn(n, s)
			}
			x.proveClauses(st, re, "send", x.c.asserts, "")
		}
		x.chUpdates(st, e, cs.onsend)
	}
}

func (x *Exec) chClose(st *State, ch *T, t types.Type) {
	cs, _ := x.chanSpec(t)
	if cs != nil && len(x.dry) == 0 {
		x.vacuity(st, "close of chan "+cs.elem)
	}
	x.prove(st, "nil", "close of a nil channel", []string{"C20"}, Neq(ch, Int(0)), "")
	if cs != nil {
		e := x.chanEnv(cs, st, st.clone(), ch, t, nil, nil)
		x.proveClauses(st, e, "close", cs.closes, "of chan "+cs.elem+" ")
		x.chUpdates(st, e, cs.onclose)
	}
}

// wait: other threads run until this one may go on.
func (x *Exec) wait(st *State) {
	x.proveInv(st, "invariant-at-wait", "")
	x.havocAll(st)
	x.assumeInv(st)
}

// chRecv is the arrival of a value (or the zero value of a closed channel).
func (x *Exec) chRecv(st, before *State, ch *T, t types.Type) (Val, *T) {
	x.libUsed["channels: what was sent or closed happened before what is received (Go memory model); a send on a closed channel is not considered"] = true
	cs, el := x.chanSpec(t)
	v := x.freshVal(st, "msg", el)
	ok := Fresh("recvok", sBool) // false: the channel is closed and empty
	if v.t != nil {
		st.assume(Or(ok, Eq(v.t, zeroOf(el))))
	}
	if cs != nil {
		okName := func(e *Env) *Env {
			rn := e.names
			e.names = func(n string, s *State) (SV, bool) {
				if n == "ok" {
					return SV{ok, stBool}, true
				}
				return rn(n, s)
			}
			return e
		}
		e := okName(x.chanEnv(cs, st, before, ch, t, &v, el))
		x.assumeClauses(st, e, cs.gets)
		x.chUpdates(st, okName(x.chanEnv(cs, st, st.clone(), ch, t, &v, el)), cs.onrecv)
	}
	return v, ok
}

// selectStmt follows every case of a select.
func (x *Exec) selectStmt(fr *Frame, b *ssa.BasicBlock, i int, c *ssa.Select, st *State) {
	if x.c == nil || x.c.kind != "process" {
		panic(abort{"select"})
	}
	n := len(c.States)
	for j := -1; j < n; j++ {
		if j < 0 && c.Blocking {
			continue
		}
		f2, s2 := fr.clone(), st.clone()
		s2.trace += fmt.Sprintf("/case%d", j)
		before := s2.clone()
		if j >= 0 && c.States[j].Dir == types.SendOnly {
			cs := c.States[j]
			x.chSend(s2, x.val(f2, cs.Chan).t, cs.Chan.Type(), x.val(f2, cs.Send))
		}
		if j >= 0 {
			x.wait(s2)
		}
		res := Val{tup: []Val{{t: Int(int64(j))}, {t: tFalse}}}
		for q, cs := range c.States {
			if cs.Dir != types.RecvOnly {
				continue
			}
			if q == j {
				v, ok := x.chRecv(s2, before, x.val(f2, cs.Chan).t, cs.Chan.Type())
				res.tup[1].t = ok
				res.tup = append(res.tup, v)
				continue
			}
			res.tup = append(res.tup, x.zeroVal(cs.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
		f2.env[c] = res
		x.block(f2, b, i+1, s2)
	}
}

// goStmt starts another thread: the callee's precondition is proved and what it takes along is given up.
func (x *Exec) goStmt(fr *Frame, c *ssa.Go, st *State) {
	f := c.Call.StaticCallee()
	var ct *Contract
	if f != nil {
		ct = x.sp.contracts[funcName(f)]
	}
	if ct == nil || ct.kind != "process" {
		panic(abort{"go statement of a function without a contract"})
	}
	var args []Val
	for _, a := range c.Call.Args {
		args = append(args, x.val(fr, a))
	}
	x.used[ct.name] = true
	e := x.contractEnv(ct, f, args, nil, st, st.clone())
	x.proveClauses(st, e, "requires", ct.requires, ct.name+" ")
	x.chUpdates(st, e, ct.spawns)
	x.wait(st)
}

// --- who may touch the store ---

// accessObs: the store is reached only from command handlers, which start no threads and wait for nothing,
// and handlers are called only by the dispatcher.
func accessObs(p *Prog, sp *Specs, c *Contract) (out []ObRes) {
	n := 0
	add := func(kind, what, bad string) {
		n++
		o := ObRes{Fn: c.name, Name: c.name + "/" + kind + ":" + what, Kind: "store-access", Tags: c.props, N: n, Res: "proved", Src: what}
		if bad != "" {
			o.Res, o.Output = "failed", bad
		}
		out = append(out, o)
	}
	all := ssautil.AllFunctions(p.prog)
	var repo []*ssa.Function
	for f := range all {
		if inRepo(f) && f.Blocks != nil {
			repo = append(repo, f)
		}
	}
	sort.Slice(repo, func(i, j int) bool { return repo[i].String() < repo[j].String() })
	isTableInit := func(f *ssa.Function) bool {
		return f.Parent() == nil && f.Signature.Recv() == nil && strings.HasPrefix(f.Name(), "init") && f.Signature.Params().Len() == 0
	}
	tab, _ := p.commandTable()
	handlers := map[*ssa.Function]bool{}
	for _, f := range tab {
		handlers[f] = true
	}
	refs := func(f *ssa.Function) (gs []*ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g.Blocks != nil {
						gs = append(gs, g)
					}
				}
			}
		}
		return
	}
	// the functions that run as part of a command
	part := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if part[f] || !inRepo(f) && f.Synthetic == "" {
			return
		}
		part[f] = true
		for _, g := range refs(f) {
			walk(g)
		}
	}
	for f := range handlers {
		walk(f)
	}
	// the store: the state variables of the packages that hold it
	store := map[*ssa.Global]bool{}
	for _, f := range repo {
		if !part[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), "github.com/yusank/godis") && holdsState(deref(g.Type())) {
						store[g] = true
					}
				}
			}
		}
	}
	for _, f := range repo {
		if !part[f] {
			continue
		}
		bad := ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Go:
					bad = "starts a goroutine"
				case *ssa.Select, *ssa.Send:
					bad = "waits on a channel"
				case *ssa.UnOp:
					if i.Op.String() == "<-" {
						bad = "waits on a channel"
					}
				case ssa.CallInstruction:
					if g := i.Common().StaticCallee(); g != nil && g.Pkg != nil {
						switch g.Pkg.Pkg.Path() + "." + g.Name() {
						case "time.AfterFunc", "time.Sleep", "runtime.Gosched":
							bad = "calls " + g.String()
						}
					}
				}
			}
		}
		add("one-thread", funcName(f)+" runs on its caller's thread, without waiting", bad)
	}
	// callers of what needs permission
	needs := func(f *ssa.Function) bool {
		ct := sp.contracts[funcName(f)]
		return ct != nil && ct.needs
	}
	covered := map[*ssa.Function]bool{} // verified under a contract that deals with threads
	var cover func(f *ssa.Function)
	cover = func(f *ssa.Function) {
		if covered[f] || !inRepo(f) {
			return
		}
		covered[f] = true
		for _, g := range refs(f) {
			if sp.contracts[funcName(g)] == nil {
				cover(g)
			}
		}
	}
	for _, f := range repo {
		if ct := sp.contracts[funcName(f)]; ct != nil && (ct.kind == "process" || ct.kind == "dispatcher") {
			cover(f)
		}
	}
	roots := map[string][]string{}
	for _, f := range repo {
		if part[f] || f.Pkg == nil && f.Parent() == nil {
			continue
		}
		bad := ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, dbg := in.(*ssa.DebugRef); dbg {
					continue
				}
				counted := map[*ssa.Function]bool{}
				for _, op := range in.Operands(nil) {
					switch g := (*op).(type) {
					case *ssa.Function:
						if counted[g] {
							continue
						}
						counted[g] = true
						if g.Name() == "init" && g.Synthetic != "" {
							continue
						}
						if reachesStore(g, part, store, refs) && !isTableInit(f) {
							bad = "reaches the store through " + funcName(g)
						}
						if needs(g) && !covered[f] {
							k := funcName(g)
							if isTableInit(f) && !inLoop(b) {
								roots[k] = append(roots[k], funcName(f))
							} else {
								bad = "calls " + k + " without permission"
							}
						}
					case *ssa.Global:
						if store[g] && !isTableInit(f) {
							bad = "uses " + typeKeyGlobal(g)
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == nil && !ci.Common().IsInvoke() && !covered[f] {
					if sg := ci.Common().Signature(); sg.Params().Len() == 1 && typeKey(sg.Params().At(0).Type()) == "*redis.Command" {
						bad = "calls a handler"
					}
				}
				if !covered[f] {
					var ch ssa.Value
					switch i := in.(type) {
					case *ssa.Send:
						ch = i.Chan
					case *ssa.UnOp:
						if k := typeKey(i.X.Type()); i.Op.String() == "<-" && !strings.HasSuffix(k, "struct{}") {
							ch = i.X
						}
					case *ssa.Select:
						for _, s := range i.States {
							if sp.chans[typeKey(s.Chan.Type().Underlying().(*types.Chan).Elem())] != nil {
								ch = s.Chan
							}
						}
					case *ssa.Call:
						if bi, ok := i.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
							ch = i.Call.Args[0]
						}
					}
					if ch != nil {
						k := typeKey(ch.Type().Underlying().(*types.Chan).Elem())
						if sp.chans[k] != nil && k != "*event.Event" {
							bad = "uses a channel of " + k
						}
						if _, isSend := in.(*ssa.Send); isSend && k == "*event.Event" {
							bad = "sends an event"
						}
					}
				}
			}
		}
		add("apart", funcName(f)+" leaves the store and the replies alone", bad)
	}
	var rk []string
	for k := range roots {
		rk = append(rk, k)
	}
	sort.Strings(rk)
	bad := ""
	total := 0
	for _, k := range rk {
		total += len(roots[k])
	}
	if total > 1 {
		bad = fmt.Sprintf("permission is handed out more than once at start: %v", roots)
	}
	add("one-permission", "the permission to run commands is given out once, at start", bad)
	// stable locations are written only in objects just made
	var ss []string
	for h := range sp.stable {
		if strings.HasPrefix(h, "F:") {
			ss = append(ss, h)
		}
	}
	sort.Strings(ss)
	for _, h := range ss {
		bad := ""
		for _, f := range repo {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					n, _, _ := structField(deref(fa.X.Type()), fa.Field)
					if "F:"+n != h {
						continue
					}
					if _, fresh := fa.X.(*ssa.Alloc); fresh {
						continue
					}
					for _, r := range *fa.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							_ = r
							bad = "may be written in " + funcName(f)
						}
					}
				}
			}
		}
		add("set-once", strings.TrimPrefix(h, "F:")+" is set only when its object is made", bad)
	}
	return
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var w func(c *ssa.BasicBlock) bool
	w = func(c *ssa.BasicBlock) bool {
		for _, s := range c.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if w(s) {
					return true
				}
			}
		}
		return false
	}
	return w(b)
}

// holdsState: a variable of this type can hold something that changes.
func holdsState(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Interface:
		return typeKey(t) != "error"
	case *types.Signature:
		return false
	case *types.Pointer:
		_ = u
		return true
	}
	return true
}

// reachesStore: the function, run outside a command, would use the store.
func reachesStore(f *ssa.Function, part map[*ssa.Function]bool, store map[*ssa.Global]bool, refs func(*ssa.Function) []*ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var w func(f *ssa.Function) bool
	w = func(f *ssa.Function) bool {
		if seen[f] || !part[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && store[g] {
						return true
					}
				}
			}
		}
		for _, g := range refs(f) {
			if w(g) {
				return true
			}
		}
		return false
	}
	return w(f)
}
