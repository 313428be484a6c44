package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// --- script construction ---

// finish builds the SMT script of an obligation.
func (x *Exec) finish(o *Ob) {
	if o.res != "" || o.failHard != "" || o.script != "" {
		return
	}
	build := func(hyps []*T) string {
		terms := append([]*T{}, hyps...)
		if !o.vac {
			terms = append(terms, Not(o.goal))
		}
		terms = eliminate(terms)
		terms = append(terms, x.background(terms)...)
		return smtScript(terms, nil, nil, false)
	}
	if o.alt != nil {
		o.altScr = build(o.alt)
	}
	o.script = build(o.hyps)
	o.hyps, o.goal, o.alt = nil, nil, nil
}

// batch is a set of obligations under the same hypotheses, tried as one query first.
type batch struct {
	obs []*Ob
	all *Ob
}

// batches groups the obligations that share their hypotheses; the others are left alone.
func (x *Exec) batches(obs []*Ob) (out []*batch) {
	idx := map[string]*batch{}
	for _, o := range obs {
		if o.res != "" || o.failHard != "" || o.vac || o.alt != nil || o.cand != "" || o.base == 0 {
			continue
		}
		k := fmt.Sprintf("%d %p", o.base, o.hyps[o.base-1])
		b := idx[k]
		if b != nil && (len(b.obs) >= 24 || !sameTerms(b.obs[0].hyps[:o.base], o.hyps[:o.base])) {
			b = nil
		}
		if b == nil {
			b = &batch{}
			idx[k] = b
			out = append(out, b)
		}
		b.obs = append(b.obs, o)
	}
	n := 0
	for _, b := range out {
		if len(b.obs) < 2 {
			continue
		}
		g := []*T{}
		for _, o := range b.obs {
			g = append(g, Imp(And(o.hyps[o.base:]...), o.goal))
		}
		f := b.obs[0]
		b.all = &Ob{fn: f.fn, kind: "batch", hyps: f.hyps[:f.base:f.base], goal: And(g...), trace: f.trace}
		finish(x, b.all)
		if b.all.failHard != "" {
			continue
		}
		out[n] = b
		n++
	}
	return out[:n]
}

func sameTerms(a, b []*T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// solveBatches tries each batch as one query; what it does not settle stays open.
func (s *solver) solveBatches(bs []*batch, par int) {
	ch := make(chan *batch)
	var wg sync.WaitGroup
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for b := range ch {
				g := stages(s.budget)[0]
				g.secs = 3 * s.budget
				r, t := runSolver(g, b.all.script)
				b.all.script = ""
				for _, o := range b.obs {
					o.secs += t / float64(len(b.obs))
					if r == "unsat" {
						o.res, o.solver, o.model = "proved", g.name+", with the others of its state", ""
					}
				}
			}
		}()
	}
	for _, b := range bs {
		ch <- b
	}
	close(ch)
	wg.Wait()
}

// eliminate replaces a loop index whose final value is known by that value (the
// equation is kept), so that terms that differ only in it become identical.
func eliminate(terms []*T) []*T {
	for n := 0; n < 8; n++ {
		var v, def *T
		for _, t := range terms {
			if t.k != 'f' || t.op != "=" || t.args[0].sort != sInt {
				continue
			}
			d := linOf(t.args[0]).sub(linOf(t.args[1]))
			for a, c := range d.co {
				if a.k == 'c' && strings.HasPrefix(a.op, "rangeindex!") && c.IsInt64() && (c.Int64() == 1 || c.Int64() == -1) {
					v = a
					rest := Add(t.args[1], Neg(t.args[0])) // = 0, contains -c*a
					if c.Int64() == -1 {
						rest = Neg(rest)
					}
					def = Add(rest, a)
				}
			}
			if v != nil && !mentions(def, map[*T]bool{v: true}) {
				break
			}
			v = nil
		}
		if v == nil {
			return terms
		}
		m := map[*T]*T{v: def}
		out := []*T{}
		for _, t := range terms {
			r := subst(t, m)
			if r == tTrue {
				continue
			}
			out = append(out, r)
		}
		if len(out) == 0 {
			out = append(out, tTrue)
		}
		terms = out
	}
	return terms
}

// background gives the unfoldings and axioms needed by the terms of a query.
func (x *Exec) background(terms []*T) []*T {
	seen := map[*T]bool{}
	ufs := map[string]bool{}
	var cards, recs, lams []*T
	fas := map[string]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		for _, p := range t.pats {
			for _, a := range p {
				walk(a)
			}
		}
		if d := x.lamDef[t]; d != nil {
			lams = append(lams, d)
		}
		if t.k != 'f' {
			return
		}
		ufs[t.op] = true
		if strings.HasPrefix(t.op, "fa:") {
			fas[t.op] = true
		}
		if t.free {
			return
		}
		if strings.HasPrefix(t.op, "card_") {
			cards = append(cards, t)
		}
		if d := x.sp.defs[t.op]; d != nil && d.rec && d.body != nil {
			recs = append(recs, t)
		}
	}
	for _, t := range terms {
		walk(t)
	}
	var out []*T
	add := func(t *T) {
		if t != tTrue {
			out = append(out, t)
			walk(t)
		}
	}
	// recursive definitions, unfolded twice
	done := map[*T]bool{}
	// (those that do not refer to themselves also later)
	for round := 0; round < 4; round++ {
		cur := recs
		recs = nil
		for _, r := range cur {
			if done[r] || len(done) > 60 {
				continue
			}
			d := x.sp.defs[r.op]
			if round >= 2 && d.refersTo(d.name) {
				continue
			}
			done[r] = true
			e := &Env{ex: x, st: x.entry, pkg: d.pkg, bound: map[string]SV{}}
			if e.st == nil {
				e.st = &State{heaps: map[string]*T{}, known: map[*T]bool{}, alloc: Int(1), x: x}
			}
			for i, q := range d.params {
				e.bound[q.name] = SV{r.args[i], e.typ(q.ty)}
			}
			v := e.eval(d.body)
			add(Eq(r, v.t))
		}
	}
	flushLams := func() {
		for len(lams) > 0 {
			ds := lams
			lams = nil
			for _, d := range ds {
				add(d)
			}
		}
	}
	flushLams()
	// declared axioms over functions that occur
	for _, c := range x.sp.axioms {
		if c.label != "" && c.label == x.root {
			break // a lemma rests on earlier ones only
		}
		e := &Env{ex: x, pkg: c.pkg, st: &State{heaps: map[string]*T{}, known: map[*T]bool{}, alloc: Int(1), x: x}}
		t, err := x.evalClause(e, c)
		if err != "" {
			panic(specErr{err})
		}
		ok := true
		var chk func(t *T)
		s2 := map[*T]bool{}
		chk = func(t *T) {
			if s2[t] {
				return
			}
			s2[t] = true
			if t.k == 'f' {
				if d := x.sp.defs[t.op]; d != nil && !ufs[t.op] {
					ok = false
				}
			}
			for _, a := range t.args {
				chk(a)
			}
		}
		chk(t)
		if ok {
			add(t)
			if strings.HasPrefix(c.label, "lemma:") {
				x.used[c.label] = true
			}
		}
	}
	flushLams()
	n := 0
	for f := range fas {
		n++
		b := BVar("r", sInt)
		a := UF(f, sInt, b)
		out = append(out, Forall([]*T{b}, [][]*T{{a}}, And(Eq(UF("inv:"+f, sInt, a), b), Eq(UF("fakind", sInt, a), Int(faKind(f))), Lt(a, Int(-1000000)))))
	}
	if len(cards) > 1 && len(cards) <= 8 {
		for i := range cards {
			for j := i + 1; j < len(cards); j++ {
				a, b := cards[i].args[0], cards[j].args[0]
				if a.sort != b.sort {
					continue
				}
				ks, _ := arrParts(a.sort)
				w := UF("setdiff_"+ks, ks, a, b)
				out = append(out, Or(Eq(a, b), Not(Eq(Select(a, w), Select(b, w)))))
			}
		}
	}
	return out
}

func faKind(f string) int64 {
	h := sha256.Sum256([]byte(f))
	return int64(h[0])<<24 | int64(h[1])<<16 | int64(h[2])<<8 | int64(h[3])
}

// --- solvers ---

type stage struct {
	name string
	args []string
	secs float64
	pre  string
}

func stages(budget float64) []stage {
	em := []string{"z3-new", "-in", "smt.mbqi=false", "auto_config=false", "tactic.default_tactic=smt"}
	seed := func(n int, secs float64) stage {
		return stage{fmt.Sprintf("z3-5.3.2 (e-matching, seed %d)", n), append(em[:len(em):len(em)], fmt.Sprintf("smt.random_seed=%d", n)), secs * budget, ""}
	}
	return []stage{
		{"z3-5.3.2 (e-matching)", em, 3 * budget, ""},
		seed(11, 2), seed(2, 2),
		{"cvc5-1.1.2", []string{"cvc5", "--lang=smt2", "--incremental"}, 6 * budget, ""},
		{"z3-5.3.2", []string{"z3-new", "-in"}, 6 * budget, ""},
		{"z3-4.8.12", []string{"z3", "-in"}, 6 * budget, ""},
		seed(7, 8), seed(3, 8),
	}
}

func runSolver(s stage, script string) (string, float64) {
	t0 := time.Now()
	// the limit is processor time, so that a busy machine does not decide the answer
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration((4*s.secs+2)*float64(time.Second)))
	defer cancel()
	args := append([]string{fmt.Sprintf("--cpu=%d", int(s.secs+0.999)), s.args[0]}, s.args[1:]...)
	if strings.HasPrefix(s.args[0], "z3") {
		args = append(args, "-memory:3000")
	}
	cmd := exec.CommandContext(ctx, "prlimit", args...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Run()
	o := strings.TrimSpace(out.String())
	secs := time.Since(t0).Seconds()
	for _, l := range strings.Split(o, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			return "unsat", secs
		case "sat":
			return "sat", secs
		}
		if strings.HasPrefix(l, "(error") {
			return "error: " + l, secs
		}
	}
	return "unknown", secs
}

type solver struct {
	budget float64
	dump   string
	mu     sync.Mutex
	cache  map[[32]byte]*Ob
	n      int
	fails  int
}

func (s *solver) solve(o *Ob) {
	if o.res != "" {
		return
	}
	if o.failHard != "" {
		o.res = "failed"
		return
	}
	key := sha256.Sum256([]byte(o.script))
	s.mu.Lock()
	if c, ok := s.cache[key]; ok && c.res != "" && c.vac == o.vac {
		s.mu.Unlock()
		o.res, o.solver, o.model = c.res, c.solver+" (same query)", c.model
		o.script = ""
		return
	}
	s.mu.Unlock()
	b := s.budget
	s.mu.Lock()
	if s.fails >= 4 { // the function is failing anyway: decide the rest quickly
		b *= 0.15
	}
	s.mu.Unlock()
	st := stages(b)
	if o.vac {
		st = []stage{{"z3-5.3.2 (e-matching)", []string{"z3-new", "-in", "smt.mbqi=false", "auto_config=false"}, 2, ""}}
	}
	if o.altScr != "" {
		st = append([]stage{{st[0].name + ", hints only", st[0].args, 2, ""}}, st...)
	}
	for i, g := range st {
		scr := o.script
		if i == 0 && o.altScr != "" {
			scr = o.altScr
		}
		r, t := runSolver(g, scr)
		if i == 0 && o.altScr != "" && r == "sat" {
			r = "unknown"
		}
		o.secs += t
		if strings.HasPrefix(r, "error") {
			o.model += g.name + ": " + r + "\n"
			continue
		}
		o.model += fmt.Sprintf("%s: %s (%.2fs)\n", g.name, r, t)
		if r == "unsat" {
			o.solver = g.name
			if o.vac {
				o.res = "failed"
			} else {
				o.res = "proved"
			}
			break
		}
		if r == "sat" && !o.vac {
			o.res = "failed"
			break
		}
	}
	if o.res == "" {
		if o.vac {
			o.res = "proved"
			o.solver = "no contradiction found"
		} else {
			o.res = "unknown"
		}
	}
	if o.res != "proved" {
		s.mu.Lock()
		s.fails++
		s.mu.Unlock()
	}
	if s.dump != "" && o.res != "proved" {
		s.mu.Lock()
		s.n++
		n := s.n
		s.mu.Unlock()
		os.MkdirAll(s.dump, 0o755)
		os.WriteFile(filepath.Join(s.dump, fmt.Sprintf("%03d-%s.smt2", n, strings.ReplaceAll(sanitize(o.name()), "/", "_"))), []byte("; "+o.name()+" "+o.src+"\n; trace "+o.trace+"\n"+o.script), 0o644)
	}
	if o.res == "proved" {
		o.script = ""
		o.model = ""
	}
	if o.res != "unknown" {
		o.altScr = ""
	}
	s.mu.Lock()
	s.cache[key] = o
	s.mu.Unlock()
}

func (s *solver) solveAll(obs []*Ob, par int) {
	ch := make(chan *Ob)
	var wg sync.WaitGroup
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range ch {
				s.solve(o)
			}
		}()
	}
	for _, o := range obs {
		ch <- o
	}
	close(ch)
	wg.Wait()
}
