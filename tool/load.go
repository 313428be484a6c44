package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded program under verification.
type Prog struct {
	dir   string
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by short package name
	funcs map[string]*ssa.Function
	names map[*ssa.Function]string

	fieldTaken map[string]bool // "pkg.Type.field" whose address is used as a value

	globalConst map[*ssa.Global]*T        // value of globals that are never stored outside init
	globalInit  map[*ssa.Global]ssa.Value // the SSA value stored by init
	globalMut   map[*ssa.Global]bool      // stored outside init or address taken
	staticRef   map[string]*T
	tids        map[string]int
	tidType     []types.Type

	cmdTab map[string]*ssa.Function
	cmdBad []string

	loops map[*ssa.Function]*loopInfo
	pure  map[*ssa.Function]bool

	infos     map[*types.Package]*types.Info
	baseNames map[string]Locals
	aliases   map[*ssa.Function]map[string]string
	loopMaps  map[*ssa.Function]map[loopRef]int
}

var repoPkgs = []string{"./datastruct", "./redis", "./lib/shard_map", "./protocol", "./util", "./event", "./server/v2", "./persistence", "./server", "./debug", "./cmd/server"}

func load(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedModule,
		Dir:  dir, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, repoPkgs...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %s", p.PkgPath, e)
		}
	}
	prog, sp := ssautil.Packages(pkgs, ssa.GlobalDebug)
	prog.Build()
	p := &Prog{dir: dir, prog: prog, pkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, names: map[*ssa.Function]string{},
		fieldTaken: map[string]bool{}, globalConst: map[*ssa.Global]*T{}, globalInit: map[*ssa.Global]ssa.Value{}, globalMut: map[*ssa.Global]bool{},
		staticRef: map[string]*T{}, tids: map[string]int{}, loops: map[*ssa.Function]*loopInfo{}, pure: map[*ssa.Function]bool{}}
	for _, q := range sp {
		if q != nil {
			p.pkgs[q.Pkg.Name()] = q
		}
	}
	p.infos = map[*types.Package]*types.Info{}
	for _, q := range pkgs {
		p.infos[q.Types] = q.TypesInfo
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil && f.Parent() == nil && f.Synthetic == "" {
			continue
		}
		if f.Blocks == nil {
			continue
		}
		if f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		n := funcName(f)
		p.funcs[n] = f
		p.names[f] = n
	}
	p.scan()
	return p, nil
}

// funcName gives pkg.Func, pkg.Type.Method and suffix $n for closures.
func funcName(f *ssa.Function) string {
	if n, ok := renamed[f]; ok {
		return n
	}
	if f.Parent() != nil {
		base := funcName(f.Parent())
		for i, a := range f.Parent().AnonFuncs {
			if a == f {
				return fmt.Sprintf("%s$%d", base, i+1)
			}
		}
		return base + "$?"
	}
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Name() + "."
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Name() + "."
	}
	if r := f.Signature.Recv(); r != nil {
		return pk + recvName(r.Type()) + "." + f.Name()
	}
	return pk + f.Name()
}

func recvName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/yusank/godis")
}

func typeKey(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if strings.Contains(s, "byte") || strings.Contains(s, "rune") || strings.Contains(s, "any") {
		s = aliasRE.ReplaceAllStringFunc(s, func(m string) string {
			pre, w := m[:strings.IndexAny(m, "bra")], m[strings.IndexAny(m, "bra"):]
			return pre + map[string]string{"byte": "uint8", "rune": "int32", "any": "interface{}"}[w]
		})
	}
	return s
}

// other names of the same type
var aliasRE = regexp.MustCompile(`(?:^|[\[\]* (])(?:byte|rune|any)\b`)

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// structField names the heap of a struct field.
func structField(t types.Type, i int) (string, types.Type, bool) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", nil, false
	}
	return typeKey(t) + "." + st.Field(i).Name(), st.Field(i).Type(), true
}

func (p *Prog) scan() {
	for f := range ssautil.AllFunctions(p.prog) {
		if f.Blocks == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					taken := false
					for _, r := range *fa.Referrers() {
						switch x := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
						case *ssa.Store:
							if x.Val == fa {
								taken = true
							}
						default:
							taken = true
						}
					}
					if taken {
						n, _, _ := structField(deref(fa.X.Type()), fa.Field)
						p.fieldTaken[n] = true
					}
				}
				isInit := f.Name() == "init" && f.Synthetic != ""
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if x.Op == token.MUL {
							continue
						}
					case *ssa.DebugRef:
						continue
					case *ssa.Store:
						if x.Addr == g && isInit {
							if _, dup := p.globalInit[g]; dup {
								p.globalMut[g] = true
							}
							p.globalInit[g] = x.Val
							continue
						}
					}
					p.globalMut[g] = true
				}
			}
		}
	}
}

// static returns the constant negative reference of a statically allocated object.
func (p *Prog) static(name string) *T {
	if r, ok := p.staticRef[name]; ok {
		return r
	}
	r := Int(-int64(len(p.staticRef) + 1))
	p.staticRef[name] = r
	return r
}

func (p *Prog) tid(t types.Type) *T {
	k := typeKey(t)
	n, ok := p.tids[k]
	if !ok {
		n = len(p.tids) + 1
		p.tids[k] = n
		p.tidType = append(p.tidType, t)
	}
	return Int(int64(n))
}

// globalValue gives the value of an immutable global, nil if it is not known.
func (p *Prog) globalValue(g *ssa.Global) *T {
	if p.globalMut[g] {
		return nil
	}
	if v, ok := p.globalConst[g]; ok {
		return v
	}
	var v *T
	name := typeKeyGlobal(g)
	init := p.globalInit[g]
	switch x := init.(type) {
	case nil:
		// an imported global (no SSA body): an immutable unknown of its own
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			v = StrLit(constant.StringVal(x.Value))
		}
	case *ssa.Call:
		if cf := x.Call.StaticCallee(); cf != nil {
			if n := cf.String(); n == "errors.New" || n == "fmt.Errorf" {
				v = mk("iref", sIface, p.tid(errorStringType), p.static("global:"+name))
			}
		}
		_ = x
	}
	if v == nil {
		el := deref(g.Type())
		switch sortOfGo(el) {
		case sInt:
			v = p.static("global:" + name)
			if _, ok := el.Underlying().(*types.Basic); ok {
				v = Const("global."+name, sInt)
			}
		default:
			v = Const("global."+name, sortOfGo(el))
			if sortOfGo(el) == sIface && init == nil {
				v = mk("iref", sIface, Const("gtid."+name, sInt), p.static("global:"+name))
			}
		}
	}
	p.globalConst[g] = v
	return v
}

func typeKeyGlobal(g *ssa.Global) string { return g.Pkg.Pkg.Name() + "." + g.Name() }

var errorStringType = types.NewPointer(types.NewNamed(types.NewTypeName(0, types.NewPackage("errors", "errors"), "errorString", nil), types.NewStruct(nil, nil), nil))

func sortOfGo(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsInteger != 0:
			return sInt
		case u.Info()&types.IsString != 0:
			return sStr
		case u.Info()&types.IsFloat != 0:
			return sF
		}
		return sInt
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return sInt
	case *types.Slice:
		return sSlice
	case *types.Interface:
		return sIface
	case *types.Struct:
		return "struct"
	}
	return sInt
}

// --- natural loops ---

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	idx    int
	parent *loop
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loop
	list     []*loop
}

func (p *Prog) loopsOf(f *ssa.Function) *loopInfo {
	if li, ok := p.loops[f]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
				}
				var stack = []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	for _, l := range li.byHeader {
		li.list = append(li.list, l)
	}
	// number loops in source order: by header position of the first positioned instruction
	sort.Slice(li.list, func(i, j int) bool {
		a, b := li.list[i], li.list[j]
		if p, q := loopPos(a), loopPos(b); p != q {
			return p < q
		}
		if len(a.blocks) != len(b.blocks) {
			return len(a.blocks) > len(b.blocks) // outer first
		}
		return a.header.Index < b.header.Index
	})
	for i, l := range li.list {
		l.idx = i
		for _, m := range li.list {
			if m != l && m.blocks[l.header] && (l.parent == nil || l.parent.blocks[m.header]) {
				l.parent = m
			}
		}
	}
	p.loops[f] = li
	return li
}

func loopPos(l *loop) token.Pos {
	best := token.NoPos
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue // placed at the variable's declaration
			}
			if q := in.Pos(); q.IsValid() && (best == token.NoPos || q < best) {
				best = q
			}
		}
	}
	return best
}

// isPure reports whether f only computes a value from its arguments: no heap access, no calls except
// to pure functions, no parameters that point to memory.
func (p *Prog) isPure(f *ssa.Function) bool {
	if v, ok := p.pure[f]; ok {
		return v
	}
	p.pure[f] = false
	if f.Blocks == nil || len(f.FreeVars) > 0 || f.Signature.Results().Len() != 1 {
		return false
	}
	for _, q := range f.Params {
		switch sortOfGo(q.Type()) {
		case sInt:
			if _, ok := q.Type().Underlying().(*types.Basic); !ok {
				return false
			}
		case sBool, sStr, sF:
		default:
			return false
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Convert, *ssa.ChangeType, *ssa.Lookup, *ssa.Index, *ssa.DebugRef, *ssa.Extract:
			case *ssa.UnOp:
				if x.Op == token.MUL || x.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
				c := x.Call.StaticCallee()
				if c == nil || !p.isPure(c) {
					return false
				}
			default:
				return false
			}
		}
	}
	p.pure[f] = true
	return true
}

// commands is the dispatch table filled by the init functions of package redis.
func (p *Prog) commands() map[string]*ssa.Function {
	t, _ := p.commandTable()
	return t
}

// commandTable also lists what is not a plain registration of a function under a constant name.
func (p *Prog) commandTable() (map[string]*ssa.Function, []string) {
	if p.cmdTab != nil {
		return p.cmdTab, p.cmdBad
	}
	p.cmdTab = map[string]*ssa.Function{}
	rp := p.pkgs["redis"]
	if rp == nil {
		return p.cmdTab, nil
	}
	table := rp.Var("implementedCommands")
	isTable := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		g, ok := u.X.(*ssa.Global)
		if !ok {
			return false
		}
		if table != nil {
			return g == table
		}
		m, ok := u.Type().Underlying().(*types.Map)
		return ok && typeKey(m.Elem()) == "redis.ExecuteFunc"
	}
	strip := func(v ssa.Value) ssa.Value {
		for {
			c, ok := v.(*ssa.ChangeType)
			if !ok {
				return v
			}
			v = c.X
		}
	}
	isInit := func(f *ssa.Function) bool { return strings.HasPrefix(f.Name(), "init") && f.Signature.Recv() == nil && f.Parent() == nil && f.Signature.Params().Len() == 0 }
	param := func(f *ssa.Function, v ssa.Value) int {
		for i, q := range f.Params {
			if strip(v) == q {
				return i
			}
		}
		return -1
	}
	all := ssautil.AllFunctions(p.prog)
	add := func(f *ssa.Function, key, v ssa.Value) {
		k, ok := strip(key).(*ssa.Const)
		fn, ok2 := strip(v).(*ssa.Function)
		if !ok || !ok2 {
			p.cmdBad = append(p.cmdBad, "not a constant registration in "+funcName(f))
			return
		}
		n := constant.StringVal(k.Value)
		if old := p.cmdTab[n]; old != nil && old != fn {
			p.cmdBad = append(p.cmdBad, "command "+n+" is registered twice")
		}
		p.cmdTab[n] = fn
	}
	// helper: a function that registers its parameters, called by the init functions
	helper := func(h *ssa.Function, ki, vi int) {
		for f := range all {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, isCall := in.(ssa.CallInstruction)
					for _, op := range in.Operands(nil) {
						if *op != ssa.Value(h) {
							continue
						}
						if !isCall || c.Common().StaticCallee() != h || !isInit(f) {
							p.cmdBad = append(p.cmdBad, "the command table may be written from "+funcName(f))
							continue
						}
						add(f, c.Common().Args[ki], c.Common().Args[vi])
					}
				}
			}
		}
	}
	for f := range all {
		if f.Pkg != rp {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				m, ok := mu.Map.Type().Underlying().(*types.Map)
				if !ok || typeKey(m.Elem()) != "redis.ExecuteFunc" {
					continue
				}
				if ki, vi := param(f, mu.Key), param(f, mu.Value); ki >= 0 && vi >= 0 && isTable(mu.Map) {
					helper(f, ki, vi)
					continue
				}
				if !isInit(f) || !isTable(mu.Map) && f.Synthetic == "" {
					p.cmdBad = append(p.cmdBad, "the command table is written in "+funcName(f))
					continue
				}
				add(f, mu.Key, mu.Value)
			}
		}
	}
	sort.Strings(p.cmdBad)
	return p.cmdTab, p.cmdBad
}
