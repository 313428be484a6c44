package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Node is a specification expression.
type Node struct {
	op   string // "id", "int", "str", "call", ".", "[]", "upd", "is", "as", "forall", "exists", "let", "if", "old", unary/binary operators
	s    string
	kids []*Node
	vars []QVar
	trig [][]*Node
	ty   *TNode
	src  string
}

type QVar struct {
	name string
	ty   *TNode
}

// TNode is a specification type.
type TNode struct {
	op   string // "name", "ptr", "slice", "arr"
	name string
	a, b *TNode
}

func (t *TNode) String() string {
	switch t.op {
	case "ptr":
		return "*" + t.a.String()
	case "slice":
		return "[]" + t.a.String()
	case "arr":
		return "[" + t.a.String() + "]" + t.b.String()
	}
	return t.name
}

type Clause struct {
	pkg string // of an axiom or lemma
	label string
	tags  []string
	lhs   *Node
	e     *Node
	src   string
}

type GhostVar struct {
	name string
	ty   *TNode
	init *Node
}

type LoopSpec struct {
	inv      []Clause
	ghosts   []GhostVar
	steps    []Clause // lhs is an identifier
	dec      *Node
	mods     []Mod
	lemmas   []Clause
	assumes  []Clause // facts taken on trust at every iteration
	chance   string   // why the loop ends although nothing decreases: taken on trust
	keeps    bool
	forever  bool
	keepOnly map[string]bool
	unroll   int // iterations executed one by one instead of being cut by an invariant
}

// Mod is one modifies entry: field heap at one reference, wholly, or where a predicate holds.
type Mod struct {
	heap     string // resolved lazily: Type.field
	ref      *Node  // nil: any
	where    *Node  // predicate over variable `r`
	whereVar string
}

type Contract struct {
	name      string
	module    string
	params    []string
	props     []string
	requires  []Clause
	ensures   []Clause
	modifies  []Mod
	updates   []Clause
	asserts   []Clause
	loops     map[int]*LoopSpec
	ranges    map[int]*LoopSpec
	trusted   string
	givens    []Clause // what every handler promises of its results
	own       []Clause // what holds at the function's own exit, for nobody else
	spawns    []Clause // what a new thread takes from the one that starts it
	needs     bool     // requires the permission to run commands
	isInline  bool
	kind      string // "", "iterator", "iteratordel", "upsert", "command"
	cmd       string
	noInv     bool
	initially string // the global whose initial value the function makes
	allocT    string // kind alloc: the type whose new objects keep the invariants
	public    bool
	dec       *Node
	used      bool
	file      string
	witness   []Clause
	cases     []Clause // quantified variable (lhs) treated separately where it equals an expression
	makes     []Clause // bounds on the size of any allocation
	hints     []Clause // facts proved and then used at every exit
	indVar    string
	indBase   *Node
}

type Def struct {
	name   string
	params []QVar
	ret    *TNode
	body   *Node // nil: uninterpreted
	rec    bool
	axioms []*Node
	pkg    string
}

type GhostField struct {
	typ, name string // typ is pkg.Type
	ty        *TNode
}

type Module struct {
	name    string
	pkg     string
	private []string // heap keys: pkg.Type.field
	invs    []Clause
	assumes []Clause
	uses    []string
	ghosts  []string
}

type Specs struct {
	contracts map[string]*Contract
	defs      map[string]*Def
	ghostF    map[string]*GhostField // "pkg.Type.name"
	ghostV    map[string]*TNode
	modules   map[string]*Module
	modOrder  []string
	axioms    []Clause
	order     []string
	commands  map[string]*Contract
	assume    []string
	bounded   []Bounded
	chans     map[string]*ChanSpec
	stable    map[string]bool
	threadV   map[string]bool
}

// Bounded names something a property depends on that is checked by bounded runs only.
type Bounded struct {
	tags []string
	text string
}

type tok struct {
	k    byte // i ident, n number, s string, o operator, 0 end
	s    string
	line int
}

func lex(src string) ([]tok, error) {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", ":="}
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$':
			j := i
			for j < len(src) && (src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9' || src[j] == '_' || src[j] == '$') {
				j++
			}
			out = append(out, tok{k: 'i', s: src[i:j]})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, tok{k: 'n', s: src[i:j]})
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				return nil, err
			}
			out = append(out, tok{k: 's', s: s})
			i = j + 1
		default:
			done := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{k: 'o', s: o})
					i += len(o)
					done = true
					break
				}
			}
			if !done {
				out = append(out, tok{k: 'o', s: string(c)})
				i++
			}
		}
	}
	return append(out, tok{}), nil
}

type parser struct {
	t   []tok
	p   int
	src string
}

type specErr struct{ msg string }

func (p *parser) fail(f string, a ...interface{}) {
	at := ""
	for i := p.p; i < p.p+4 && i < len(p.t); i++ {
		at += p.t[i].s + " "
	}
	panic(specErr{fmt.Sprintf(f, a...) + " near `" + at + "` in `" + p.src + "`"})
}

func (p *parser) peek() tok { return p.t[p.p] }
func (p *parser) next() tok { t := p.t[p.p]; p.p++; return t }
func (p *parser) is(s string) bool {
	return (p.t[p.p].k == 'o' || p.t[p.p].k == 'i') && p.t[p.p].s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}

func (p *parser) typ() *TNode {
	if p.accept("*") {
		return &TNode{op: "ptr", a: p.typ()}
	}
	if p.accept("[") {
		if p.accept("]") {
			return &TNode{op: "slice", a: p.typ()}
		}
		a := p.typ()
		p.expect("]")
		return &TNode{op: "arr", a: a, b: p.typ()}
	}
	t := p.next()
	if t.k != 'i' {
		p.fail("type expected")
	}
	n := t.s
	if p.is(".") && p.t[p.p+1].k == 'i' {
		p.next()
		n += "." + p.next().s
	}
	return &TNode{op: "name", name: n}
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "is": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *parser) expr() *Node { return p.bin(1) }

func (p *parser) bin(min int) *Node {
	l := p.unary()
	for {
		o := p.peek()
		pr, ok := binPrec[o.s]
		if !ok || pr < min || o.k == 's' || o.k == 'n' {
			return l
		}
		p.next()
		if o.s == "is" {
			l = &Node{op: "is", kids: []*Node{l}, ty: p.typ()}
			continue
		}
		nm := pr + 1
		if o.s == "==>" {
			nm = pr // right associative
		}
		r := p.bin(nm)
		// chained comparison a <= b < c
		if (o.s == "<" || o.s == "<=") && (p.is("<") || p.is("<=")) {
			l = &Node{op: o.s, kids: []*Node{l, r}}
			for p.is("<") || p.is("<=") {
				o2 := p.next().s
				r2 := p.bin(nm)
				l = &Node{op: "&&", kids: []*Node{l, {op: o2, kids: []*Node{r, r2}}}}
				r = r2
			}
			continue
		}
		l = &Node{op: o.s, kids: []*Node{l, r}}
	}
}

func (p *parser) unary() *Node {
	switch {
	case p.is("!"):
		p.next()
		return &Node{op: "!", kids: []*Node{p.unary()}}
	case p.is("-"):
		p.next()
		return &Node{op: "neg", kids: []*Node{p.unary()}}
	case p.is("forall") || p.is("exists"):
		op := p.next().s
		var vs []QVar
		for {
			n := p.next()
			if n.k != 'i' {
				p.fail("variable expected")
			}
			vs = append(vs, QVar{n.s, p.typ()})
			if !p.accept(",") {
				break
			}
		}
		var trig [][]*Node
		for p.accept("{") {
			var tr []*Node
			for {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			trig = append(trig, tr)
		}
		p.expect("::")
		return &Node{op: op, vars: vs, trig: trig, kids: []*Node{p.expr()}}
	case p.is("lambda"): // lambda i int :: e, an array
		p.next()
		n := p.next().s
		t := p.typ()
		p.expect("::")
		return &Node{op: "lambda", vars: []QVar{{n, t}}, kids: []*Node{p.expr()}}
	case p.is("let"):
		p.next()
		n := p.next().s
		p.expect("=")
		e := p.bin(6)
		p.expect("in")
		return &Node{op: "let", s: n, kids: []*Node{e, p.expr()}}
	case p.is("if"):
		p.next()
		c := p.expr()
		p.expect("then")
		a := p.expr()
		p.expect("else")
		return &Node{op: "if", kids: []*Node{c, a, p.expr()}}
	}
	return p.postfix()
}

func (p *parser) postfix() *Node {
	var n *Node
	t := p.next()
	switch {
	case t.k == 'n':
		n = &Node{op: "int", s: t.s}
	case t.k == 's':
		n = &Node{op: "str", s: t.s}
	case t.k == 'o' && t.s == "(":
		n = p.expr()
		p.expect(")")
	case t.k == 'i' && t.s == "old" && p.is("("):
		p.next()
		n = &Node{op: "old", kids: []*Node{p.expr()}}
		p.expect(")")
	case t.k == 'i' && t.s == "pre" && p.is("("):
		p.next()
		n = &Node{op: "pre", kids: []*Node{p.expr()}}
		p.expect(")")
	case t.k == 'i':
		n = &Node{op: "id", s: t.s}
	default:
		p.p--
		p.fail("expression expected")
	}
	for {
		switch {
		case p.is(".") && p.t[p.p+1].s == "(":
			p.next()
			p.next()
			n = &Node{op: "as", kids: []*Node{n}, ty: p.typ()}
			p.expect(")")
		case p.is("."):
			p.next()
			f := p.next()
			n = &Node{op: ".", s: f.s, kids: []*Node{n}}
		case p.is("["):
			p.next()
			i := p.expr()
			if p.accept(":=") {
				v := p.expr()
				p.expect("]")
				n = &Node{op: "upd", kids: []*Node{n, i, v}}
				continue
			}
			p.expect("]")
			n = &Node{op: "[]", kids: []*Node{n, i}}
		case p.is("("):
			p.next()
			c := &Node{op: "call", s: exprName(n), kids: nil}
			if c.s == "" {
				p.fail("call of a non-name")
			}
			for !p.is(")") {
				c.kids = append(c.kids, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			n = c
		default:
			return n
		}
	}
}

func exprName(n *Node) string {
	switch n.op {
	case "id":
		return n.s
	case ".":
		b := exprName(n.kids[0])
		if b == "" {
			return ""
		}
		return b + "." + n.s
	}
	return ""
}

func parseExpr(src string) *Node {
	ts, err := lex(src)
	if err != nil {
		panic(specErr{err.Error() + " in " + src})
	}
	p := &parser{t: ts, src: src}
	n := p.expr()
	if p.peek().k != 0 {
		p.fail("trailing input")
	}
	n.src = src
	return n
}

func newParser(src string) *parser {
	ts, err := lex(src)
	if err != nil {
		panic(specErr{err.Error() + " in " + src})
	}
	return &parser{t: ts, src: src}
}

var clauseWords = map[string]bool{"module": true, "private": true, "ghost": true, "ghostvar": true, "invariant": true, "assume": true, "func": true, "requires": true, "ensures": true, "modifies": true, "update": true, "loop": true, "range": true, "def": true, "rec": true, "fun": true, "axiom": true, "props": true, "trusted": true, "inline": true, "kind": true, "command": true, "decreases": true, "assert": true, "noinv": true, "uses": true, "assumption": true, "bounded": true, "public": true, "witness": true, "hint": true, "cases": true, "lemma": true, "initially": true, "makes": true, "channel": true, "sends": true, "closes": true, "gets": true, "onmake": true, "onsend": true, "onrecv": true, "onclose": true, "threadvar": true, "stable": true, "internally": true, "given": true, "spawns": true, "permission": true}

func loadSpecs(dir string) (sp *Specs, err error) {
	sp = &Specs{contracts: map[string]*Contract{}, defs: map[string]*Def{}, ghostF: map[string]*GhostField{}, ghostV: map[string]*TNode{}, modules: map[string]*Module{}, commands: map[string]*Contract{}, chans: map[string]*ChanSpec{}, stable: map[string]bool{}, threadV: map[string]bool{}}
	for _, b := range []string{"bytes.Buffer", "strings.Builder"} {
		sp.ghostF[b+".content"] = &GhostField{b, "content", &TNode{op: "name", name: "string"}}
	}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := sp.loadFile(f); err != nil {
			return nil, err
		}
	}
	for _, c := range sp.contracts {
		for _, m := range []map[int]*LoopSpec{c.loops, c.ranges} {
			for _, l := range m {
				if m := sp.modules[c.module]; l.keeps && m != nil {
					var ks []Clause
					for _, iv := range m.invs {
						if len(l.keepOnly) == 0 || l.keepOnly[iv.label] {
							ks = append(ks, iv)
						}
					}
					l.inv = append(ks, l.inv...)
				}
			}
		}
	}
	for _, mn := range sp.modOrder {
		m := sp.modules[mn]
		if len(m.invs) == 0 {
			continue
		}
		seen := map[string]bool{}
		for _, q := range m.private {
			if strings.HasPrefix(q, m.pkg+".=MD:") {
				c := &Contract{name: "alloc:" + mn + ".map", module: mn, kind: "alloc", allocT: strings.TrimPrefix(q, m.pkg+".="), loops: map[int]*LoopSpec{}, ranges: map[int]*LoopSpec{}}
				sp.contracts[c.name] = c
				sp.order = append(sp.order, c.name)
				continue
			}
			raw := strings.HasPrefix(q, m.pkg+".=F:")
			t := strings.TrimPrefix(q, m.pkg+".=F:")
			fs := strings.Split(t, ".")
			if strings.Contains(q, "=") && !raw || len(fs) != 3 || seen[fs[1]] {
				continue
			}
			seen[fs[1]] = true
			c := &Contract{name: "alloc:" + mn + "." + fs[1], module: mn, kind: "alloc", allocT: fs[0] + "." + fs[1], loops: map[int]*LoopSpec{}, ranges: map[int]*LoopSpec{}}
			sp.contracts[c.name] = c
			sp.order = append(sp.order, c.name)
		}
	}
	return sp, nil
}

// supports lists the contracts a module's invariants rest on: new objects keep them, and they hold at the start.
func (sp *Specs) supports(mn string) (out []string) {
	for _, n := range sp.order {
		c := sp.contracts[n]
		if c.module == mn && (c.kind == "alloc" || c.initially != "") {
			out = append(out, n)
		}
	}
	return out
}

func (sp *Specs) loadFile(f string) (err error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	// gather logical lines
	type ll struct {
		s    string
		line int
	}
	var lines []ll
	for i, l := range strings.Split(string(b), "\n") {
		if j := strings.Index(l, "//"); j >= 0 && !strings.Contains(l[:j], "\"") {
			l = l[:j]
		}
		s := strings.TrimSpace(l)
		if s == "" {
			continue
		}
		w := s
		if j := strings.IndexAny(s, " \t[@"); j >= 0 {
			w = s[:j]
		}
		if clauseWords[w] {
			lines = append(lines, ll{s, i + 1})
		} else if len(lines) > 0 {
			lines[len(lines)-1].s += " " + s
		} else {
			return fmt.Errorf("%s:%d: unknown clause %q", f, i+1, w)
		}
	}
	var mod *Module
	var c *Contract
	var cs *ChanSpec
	cur := 0
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s:%d: %s", filepath.Base(f), cur, se.msg)
				return
			}
			panic(r)
		}
	}()
	for _, l := range lines {
		cur = l.line
		s := l.s
		j := strings.IndexAny(s, " \t[@")
		w, rest := s, ""
		if j >= 0 {
			w, rest = s[:j], strings.TrimSpace(s[j:])
		}
		switch w {
		case "module":
			fs := strings.Fields(rest)
			mod = sp.modules[fs[0]]
			if mod == nil {
				mod = &Module{name: fs[0], pkg: fs[1]}
				sp.modules[fs[0]] = mod
				sp.modOrder = append(sp.modOrder, fs[0])
			}
			c = nil
		case "uses":
			mod.uses = strings.Fields(rest)
		case "private":
			for _, x := range strings.Fields(rest) {
				mod.private = append(mod.private, mod.pkg+"."+x)
			}
		case "ghost":
			p := newParser(rest)
			tn := p.next().s
			p.expect(".")
			n := p.next().s
			key := mod.pkg + "." + tn
			if i := strings.Index(rest, "."); strings.Count(strings.Fields(rest)[0], ".") == 2 { // pkg.Type.field
				p.expect(".")
				key = rest[:i] + "." + n
				n = p.next().s
			}
			sp.ghostF[key+"."+n] = &GhostField{key, n, p.typ()}
			mod.ghosts = append(mod.ghosts, "G:"+key+"."+n)
		case "channel":
			cs = &ChanSpec{elem: rest, pkg: mod.pkg}
			sp.chans[rest] = cs
		case "sends":
			cs.sends = append(cs.sends, parseClause(rest))
		case "closes":
			cs.closes = append(cs.closes, parseClause(rest))
		case "gets":
			cs.gets = append(cs.gets, parseClause(rest))
		case "onmake":
			cs.onmake = append(cs.onmake, parseUpdate(rest))
		case "onsend":
			cs.onsend = append(cs.onsend, parseUpdate(rest))
		case "onrecv":
			cs.onrecv = append(cs.onrecv, parseUpdate(rest))
		case "onclose":
			cs.onclose = append(cs.onclose, parseUpdate(rest))
		case "stable": // F:pkg.Type.field or GV:var
			for _, h := range strings.Fields(rest) {
				sp.stable[h] = true
			}
		case "internally":
			c.own = append(c.own, parseClause(rest))
		case "given":
			c.givens = append(c.givens, parseClause(rest))
		case "spawns":
			c.spawns = append(c.spawns, parseUpdate(rest))
		case "permission":
			c.needs = true
		case "ghostvar", "threadvar":
			p := newParser(rest)
			n := p.next().s
			sp.ghostV[n] = p.typ()
			if w == "threadvar" {
				sp.stable["GV:"+n] = true
				sp.threadV["GV:"+n] = true
			}
			mod.ghosts = append(mod.ghosts, "GV:"+n)
		case "bounded": // bounded C10 C11 what is only checked by bounded runs
			b := Bounded{}
			fs := strings.Fields(rest)
			for len(fs) > 0 && len(fs[0]) == 3 && fs[0][0] == 'C' {
				b.tags = append(b.tags, fs[0])
				fs = fs[1:]
			}
			b.text = strings.Join(fs, " ")
			sp.bounded = append(sp.bounded, b)
		case "assumption":
			sp.assume = append(sp.assume, rest)
		case "invariant":
			mod.invs = append(mod.invs, parseClause(rest))
		case "assume":
			mod.assumes = append(mod.assumes, parseClause(rest))
		case "lemma": // lemma NAME VAR BASE : forall ..., proved by induction on VAR
			j := strings.Index(rest, ":")
			fs := strings.Fields(rest[:j])
			c = &Contract{name: "lemma:" + fs[0], module: mod.name, kind: "lemma", loops: map[int]*LoopSpec{}, ranges: map[int]*LoopSpec{}, file: filepath.Base(f)}
			cl := parseClause(rest[j+1:])
			cl.label = c.name
			cl.pkg = mod.pkg
			if len(fs) > 1 {
				c.indVar = fs[1]
				c.indBase = parseExpr(fs[2])
			}
			c.ensures = []Clause{cl}
			sp.contracts[c.name] = c
			sp.order = append(sp.order, c.name)
			sp.axioms = append(sp.axioms, cl)
			c = nil
		case "axiom":
			cl := parseClause(rest)
			cl.pkg = mod.pkg
			sp.axioms = append(sp.axioms, cl)
		case "def", "rec", "fun":
			d := parseDef(rest, w)
			d.pkg = mod.pkg
			if sp.defs[d.name] != nil {
				panic(specErr{f + ": " + d.name + " is defined twice"})
			}
			sp.defs[d.name] = d
		case "func", "command":
			fs := strings.Fields(strings.ReplaceAll(rest, "(", " ("))
			c = &Contract{name: fs[0], module: mod.name, loops: map[int]*LoopSpec{}, ranges: map[int]*LoopSpec{}, file: filepath.Base(f)}
			if w == "command" {
				c.kind = "command"
				c.cmd = fs[0]
				sp.commands[c.cmd] = c
				c.params = []string{"c"}
				c.modifies = []Mod{{heap: "*"}}
				c.requires = []Clause{parseClause("0 < ref(c)")}
				c.name = "command:" + c.cmd
				cl := parseClause("[C21] c.Ctx == old(c.Ctx)")
				c.ensures = append(c.ensures, cl)
			}
			if k := strings.Index(rest, "("); k >= 0 {
				for _, x := range strings.Split(strings.Trim(rest[k:], "() "), ",") {
					if x = strings.TrimSpace(x); x != "" {
						c.params = append(c.params, x)
					}
				}
			}
			sp.contracts[c.name] = c
			sp.order = append(sp.order, c.name)
		case "initially":
			c.initially = strings.TrimSpace(rest)
			c.noInv = true
		case "requires":
			c.requires = append(c.requires, parseClause(rest))
		case "ensures":
			c.ensures = append(c.ensures, parseClause(rest))
		case "assert":
			c.asserts = append(c.asserts, parseClause(rest))
		case "update":
			c.updates = append(c.updates, parseUpdate(rest))
		case "cases":
			c.cases = append(c.cases, parseUpdate(rest))
		case "makes": // the largest number of bytes one allocation of given size may take
			c.makes = append(c.makes, parseClause(rest))
		case "hint":
			c.hints = append(c.hints, parseClause(rest))
		case "witness":
			c.witness = append(c.witness, parseUpdate(rest))
		case "modifies":
			c.modifies = append(c.modifies, parseMods(rest)...)
		case "decreases":
			c.dec = parseExpr(rest)
		case "props":
			c.props = append(c.props, strings.Fields(rest)...)
		case "trusted":
			c.trusted = rest
			if rest == "" {
				c.trusted = "trusted"
			}
		case "inline":
			c.isInline = true
		case "public":
			c.public = true
		case "noinv":
			c.noInv = true
		case "kind":
			c.kind = rest
		case "loop", "range":
			fs := strings.SplitN(rest, " ", 3)
			n, err := strconv.Atoi(fs[0])
			if err != nil {
				return fmt.Errorf("%s:%d: loop number", f, l.line)
			}
			m := c.loops
			if w == "range" {
				m = c.ranges
			}
			ls := m[n]
			if ls == nil {
				ls = &LoopSpec{}
				m[n] = ls
			}
			kw := fs[1]
			body := ""
			if len(fs) > 2 {
				body = fs[2]
			}
			if k := strings.IndexAny(kw, "[@"); k >= 0 {
				body = kw[k:] + " " + body
				kw = kw[:k]
			}
			switch kw {
			case "invariant":
				ls.inv = append(ls.inv, parseClause(body))
			case "decreases":
				ls.dec = parseExpr(body)
			case "ghost":
				p := newParser(body)
				n := p.next().s
				t := p.typ()
				p.expect("=")
				ls.ghosts = append(ls.ghosts, GhostVar{n, t, p.expr()})
			case "step":
				ls.steps = append(ls.steps, parseUpdate(body))
			case "keeps": // the module's invariants hold at every iteration
				ls.keeps = true
				for _, w := range strings.Fields(body) { // only these
					if ls.keepOnly == nil {
						ls.keepOnly = map[string]bool{}
					}
					ls.keepOnly[strings.TrimPrefix(w, "@")] = true
				}
			case "lemma":
				ls.lemmas = append(ls.lemmas, parseClause(body))
			case "assume":
				ls.assumes = append(ls.assumes, parseClause(body))
			case "chance":
				ls.chance = strings.TrimSpace(body)
			case "forever": // a server loop
				ls.forever = true
			case "unroll":
				ls.unroll, _ = strconv.Atoi(strings.TrimSpace(body))
			case "modifies":
				ls.mods = append(ls.mods, parseMods(body)...)
			default:
				return fmt.Errorf("%s:%d: unknown loop clause %s", f, l.line, kw)
			}
		default:
			return fmt.Errorf("%s:%d: unknown clause %s", f, l.line, w)
		}
	}
	return nil
}

// parseClause reads an optional [C01 C02] tag list, an optional @label and the expression.
func parseClause(s string) Clause {
	var c Clause
	for {
		s = strings.TrimSpace(s)
		if strings.HasPrefix(s, "[") && c.tags == nil {
			j := strings.Index(s, "]")
			c.tags = strings.Fields(s[1:j])
			s = s[j+1:]
			continue
		}
		if strings.HasPrefix(s, "@") {
			j := strings.IndexAny(s, " :")
			c.label = s[1:j]
			s = strings.TrimLeft(s[j:], ": ")
			continue
		}
		break
	}
	c.src = s
	c.e = parseExpr(s)
	return c
}

func parseUpdate(s string) Clause {
	p := newParser(s)
	lhs := p.postfix()
	if !p.accept("=") {
		p.expect(":=")
	}
	e := p.expr()
	if p.peek().k != 0 {
		p.fail("trailing input")
	}
	return Clause{lhs: lhs, e: e, src: s}
}

// parseMods: comma separated  Type.field[ref] | Type.field[*] | Type.field{r: pred} | var
func parseMods(s string) []Mod {
	p := newParser(s)
	var out []Mod
	for {
		n := p.next().s
		for p.accept(".") {
			n += "." + p.next().s
		}
		m := Mod{heap: n}
		if p.accept("[") {
			if p.is("*") && p.t[p.p+1].s == "]" {
				p.next()
			} else {
				m.ref = p.expr()
			}
			p.expect("]")
		} else if p.accept("{") {
			m.whereVar = p.next().s
			p.expect(":")
			m.where = p.expr()
			p.expect("}")
		}
		out = append(out, m)
		if !p.accept(",") {
			break
		}
	}
	if p.peek().k != 0 {
		p.fail("trailing input")
	}
	return out
}

func parseDef(s, kind string) *Def {
	p := newParser(s)
	d := &Def{name: p.next().s, rec: kind == "rec"}
	for p.accept(".") {
		d.name += "." + p.next().s
	}
	if p.accept("(") {
		for !p.is(")") {
			n := p.next().s
			d.params = append(d.params, QVar{n, p.typ()})
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
	}
	if !p.is("=") && p.peek().k != 0 {
		d.ret = p.typ()
	}
	if p.accept("=") {
		d.body = p.expr()
	}
	if p.peek().k != 0 {
		p.fail("trailing input")
	}
	return d
}

// refersTo reports whether a definition mentions the function named f.
func (d *Def) refersTo(f string) bool {
	var has func(n *Node) bool
	has = func(n *Node) bool {
		if n == nil {
			return false
		}
		if (n.op == "call" || n.op == "id") && n.s == f {
			return true
		}
		for _, k := range n.kids {
			if has(k) {
				return true
			}
		}
		return false
	}
	return has(d.body)
}
