package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type ObRes struct {
	Fn     string   `json:"fn"`
	Name   string   `json:"name"`
	Kind   string   `json:"kind"`
	Tags   []string `json:"tags,omitempty"`
	N      int      `json:"n"`
	Res    string   `json:"res"`
	Solver string   `json:"solver,omitempty"`
	Secs   float64  `json:"secs,omitempty"`
	Src    string   `json:"src,omitempty"`
	Trace  string   `json:"trace,omitempty"`
	Output string   `json:"output,omitempty"`
	Script string   `json:"script,omitempty"`
	Vac    bool     `json:"vac,omitempty"`
}

type FnRes struct {
	Name    string   `json:"name"`
	Func    string   `json:"func"`
	Obs     []ObRes  `json:"obs"`
	Err     string   `json:"err,omitempty"`
	Missing bool     `json:"missing,omitempty"`
	Used    []string `json:"used"`
	Inlined []string `json:"inlined"`
	Libs    []string `json:"libs"`
	Trusted []string `json:"trusted"`
	Paths   int      `json:"paths"`
	Rounds  int      `json:"rounds"`
	GenS    float64  `json:"gen_s"`
	WallS   float64  `json:"wall_s"`
	Dropped []string `json:"dropped_candidates,omitempty"`
}

type Req struct {
	Name string `json:"name"`
	Prop string `json:"prop,omitempty"`
}

// knownKey: the clause is one of those listed under this key in known-findings.
func knownKey(tags []string) string {
	for _, t := range tags {
		if strings.HasPrefix(t, "known:") {
			return t[6:]
		}
	}
	return ""
}

func hasTag(tags []string, p string) bool {
	for _, t := range tags {
		if t == p {
			return true
		}
	}
	return false
}

// relevant: an obligation belongs to a property check when it is untagged support or carries the tag.
func relevant(o *Ob, prop string) bool {
	return prop == "" || len(o.tags) == 0 || hasTag(o.tags, prop)
}

// resolve finds the function a contract is about.
func resolve(p *Prog, c *Contract) *ssa.Function {
	if c.kind == "command" {
		return p.commands()[c.cmd]
	}
	return p.funcs[c.name]
}

// ownHandler: the handler is the one written for the command, by its name, and does not hand over to another command's.
func ownHandler(p *Prog, fn *ssa.Function, cmd string) bool {
	if !strings.EqualFold(fn.Name(), cmd) {
		return false
	}
	other := map[*ssa.Function]bool{}
	tab, _ := p.commandTable()
	for _, f := range tab {
		other[f] = f != fn
	}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] || f.Pkg != fn.Pkg {
			return true
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && (other[g] || !walk(g)) {
						return false
					}
				}
			}
		}
		return true
	}
	return walk(fn)
}

// finish builds an obligation's query; a specification error makes it fail.
func finish(x *Exec, o *Ob) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				o.failHard = se.msg
				return
			}
			panic(r)
		}
	}()
	x.finish(o)
}

func verifyOne(p *Prog, sp *Specs, c *Contract, req Req, sv *solver, par int) (out FnRes) {
	t0 := time.Now()
	out = FnRes{Name: c.name}
	if c.kind == "table" {
		tab, bad := p.commandTable()
		var names []string
		for n := range tab {
			names = append(names, n)
		}
		sort.Strings(names)
		for i, n := range names {
			o := ObRes{Fn: c.name, Name: c.name + "/under-contract:" + n, Kind: "table", Tags: c.props, N: i + 1, Res: "proved", Src: "the handler of " + n + " has a contract"}
			if sp.commands[n] == nil {
				o.Res, o.Output = "failed", "command "+n+" is registered but has no contract"
			}
			for _, d := range sp.contracts {
				for _, g := range d.givens {
					want, has := strings.ReplaceAll(g.src, "f_res", "result"), false
					for _, e := range append(append([]Clause{}, sp.commands[n].ensures...), sp.commands[n].own...) {
						has = has || e.src == want
					}
					if !has {
						o.Res, o.Output = "failed", d.name+" takes for granted what the contract of "+n+" does not promise: "+want
					}
				}
			}
			out.Obs = append(out.Obs, o)
		}
		for i, m := range bad {
			out.Obs = append(out.Obs, ObRes{Fn: c.name, Name: c.name + "/static", Kind: "table", Tags: c.props, N: i + 1, Res: "failed", Output: m, Src: "the command table is filled once, by the init functions, with named functions"})
		}
		return
	}
	if c.kind == "access" {
		out.Obs = accessObs(p, sp, c)
		return
	}
	fn := resolve(p, c)
	if fn == nil && c.kind != "lemma" && c.kind != "alloc" {
		out.Missing = true
		return
	}
	if fn != nil {
		out.Func = funcName(fn)
	}
	if c.kind == "command" && req.Prop == "C21" && !ownHandler(p, fn, c.cmd) {
		req.Prop = "" // by its name another command's handler: it must meet the whole contract of this one
	}
	dropped := map[string]bool{}
	var res *Result
	var x *Exec
	for round := 1; round <= 8; round++ {
		resetTerms(p)
		g0 := time.Now()
		res, x = verifyRootX(p, sp, c, fn, dropped)
		var cands []*Ob
		for _, o := range res.obs {
			if o.cand != "" {
				cands = append(cands, o)
			}
		}
		for _, o := range cands {
			finish(x, o)
		}
		out.GenS += time.Since(g0).Seconds()
		out.Rounds = round
		sv2 := &solver{budget: 0.5, cache: sv.cache}
		sv2.solveAll(cands, par)
		bad := false
		for _, o := range cands {
			if o.res != "proved" && !dropped[o.cand] {
				dropped[o.cand] = true
				bad = true
			}
		}
		if !bad {
			break
		}
	}
	var todo []*Ob
	for _, o := range res.obs {
		if o.cand == "" && relevant(o, req.Prop) {
			todo = append(todo, o)
		}
	}
	sv.fails = 0
	g0 := time.Now()
	bs := x.batches(todo)
	out.GenS += time.Since(g0).Seconds()
	sv.solveBatches(bs, par)
	g0 = time.Now()
	for _, o := range todo {
		finish(x, o)
	}
	res.used = keys(x.used)
	out.GenS += time.Since(g0).Seconds()
	// what is known to fail only has to be seen failing
	var doubt []*Ob
	rest := todo[:0:0]
	for _, o := range todo {
		if knownKey(o.tags) != "" && o.res != "proved" {
			doubt = append(doubt, o)
		} else {
			rest = append(rest, o)
		}
	}
	sv.solveAll(rest, par)
	(&solver{budget: 0.3, cache: sv.cache}).solveAll(doubt, par)
	// a few left open get a longer second try
	var open []*Ob
	for _, o := range todo {
		if o.res == "unknown" && knownKey(o.tags) == "" {
			open = append(open, o)
		}
	}
	if len(open) > 0 && len(open) <= 4 {
		sv3 := &solver{budget: 3 * sv.budget, cache: map[[32]byte]*Ob{}}
		for _, o := range open {
			o.res = ""
		}
		sv3.solveAll(open, par)
	}
	// some exit must be reachable; a dead branch is harmless
	reach := map[string]bool{}
	group := func(o *Ob) string {
		if o.kind == "exit-reachable" {
			return "exit"
		}
		return o.label
	}
	for _, o := range todo {
		if o.vac && o.res == "proved" {
			reach[group(o)] = true
		}
	}
	for _, o := range todo {
		if o.vac && o.res != "proved" && reach[group(o)] {
			o.res, o.solver = "proved", "reachable another way"
		}
	}
	for _, o := range res.obs {
		r := ObRes{Fn: o.fn, Name: o.name(), Kind: o.kind, Tags: o.tags, N: o.n, Res: o.res, Solver: o.solver, Secs: o.secs, Vac: o.vac}
		if o.cand == "" && !relevant(o, req.Prop) {
			r.Res = "other"
		}
		if r.Res != "proved" {
			r.Src, r.Trace, r.Output = o.src, o.trace, o.model
			if o.failHard != "" {
				r.Output = o.failHard
			}
		}
		out.Obs = append(out.Obs, r)
	}
	out.Err = res.err
	out.Used, out.Inlined, out.Libs, out.Trusted = res.used, res.inlined, res.libs, res.trusted
	out.Paths = res.paths
	out.Dropped = keys(dropped)
	out.WallS = time.Since(t0).Seconds()
	return
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: tool verify|worker|check|list ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	contracts := fs.String("contracts", "/verif/contracts", "")
	only := fs.String("func", "", "comma separated contract names (prefix match with trailing *)")
	prop := fs.String("prop", "", "")
	dump := fs.String("dump", "", "")
	verbose := fs.Bool("v", false, "")
	budget := fs.Float64("budget", 1, "solver time multiplier")
	par := fs.Int("par", 8, "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	replayBin := fs.String("replay", "", "")
	outDir := fs.String("out", "/verif/out", "")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "check":
		os.Exit(runCheck(*repo, *contracts, *replayBin, *outDir, *prop, *tier, *seed))
	}
	sp, err := loadSpecs(*contracts)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	switch cmd {
	case "list":
		for _, n := range sp.order {
			fmt.Println(n)
		}
		return
	case "dumpssa":
		p, err := load(*repo)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		loadBaseNames(p, *contracts)
		for _, n := range fs.Args() {
			for name, f := range p.funcs {
				if name == n {
					f.WriteTo(os.Stdout)
					for _, l := range p.loopsOf(f).list {
						fmt.Printf("loop %d header %s\n", l.idx, l.header)
					}
				}
			}
		}
		return
	case "worker":
		p, err := load(*repo)
		if err != nil {
			fmt.Println(`{"err":"load: ` + strings.ReplaceAll(err.Error(), `"`, `'`) + `"}`)
			os.Exit(3)
		}
		loadBaseNames(p, *contracts)
		sv := &solver{budget: *budget, cache: map[[32]byte]*Ob{}, dump: *dump}
		in := bufio.NewScanner(os.Stdin)
		in.Buffer(make([]byte, 1<<20), 1<<24)
		enc := json.NewEncoder(os.Stdout)
		for in.Scan() {
			var r Req
			json.Unmarshal(in.Bytes(), &r)
			c := sp.contracts[r.Name]
			if c == nil {
				enc.Encode(FnRes{Name: r.Name, Missing: true})
				continue
			}
			enc.Encode(verifyOne(p, sp, c, r, sv, *par))
		}
		return
	case "locals":
		p, err := load(*repo)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		cmdLocals(p)
	case "verify":
		p, err := load(*repo)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		loadBaseNames(p, *contracts)
		sv := &solver{budget: *budget, cache: map[[32]byte]*Ob{}, dump: *dump}
		bad := 0
		for _, n := range sp.order {
			c := sp.contracts[n]
			if c.isInline || c.trusted != "" || !match(*only, n) {
				continue
			}
			r := verifyOne(p, sp, c, Req{Name: n, Prop: *prop}, sv, *par)
			bad += report(r, *verbose)
		}
		if bad > 0 {
			os.Exit(1)
		}
	}
}

func match(pats, n string) bool {
	if pats == "" {
		return true
	}
	for _, p := range strings.Split(pats, ",") {
		if p == n || strings.HasSuffix(p, "*") && strings.HasPrefix(n, strings.TrimSuffix(p, "*")) {
			return true
		}
	}
	return false
}

func report(r FnRes, v bool) int {
	if r.Missing {
		fmt.Printf("%-34s no such function\n", r.Name)
		return 0
	}
	n, bad := 0, 0
	var secs, mx float64
	for _, o := range r.Obs {
		if o.Res == "other" || strings.HasPrefix(o.Kind, "candidate") {
			continue
		}
		n++
		secs += o.Secs
		if o.Secs > mx {
			mx = o.Secs
		}
		if o.Res != "proved" {
			bad++
		}
	}
	st := "ok"
	if bad > 0 {
		st = fmt.Sprintf("FAILED %d", bad)
	}
	fmt.Printf("%-34s %-10s obs %4d paths %3d gen %.1fs solver %.1fs (max %.1f) wall %.1fs rounds %d\n", r.Name, st, n, r.Paths, r.GenS, secs, mx, r.WallS, r.Rounds)
	for _, o := range r.Obs {
		if o.Res != "proved" && o.Res != "other" && !strings.HasPrefix(o.Kind, "candidate") {
			fmt.Printf("    %s %s #%d [%s] %s  trace=%s\n", o.Res, o.Name, o.N, strings.Join(o.Tags, " "), o.Src, o.Trace)
			if o.Output != "" {
				fmt.Printf("        %s\n", strings.ReplaceAll(strings.TrimSpace(o.Output), "\n", " | "))
			}
		} else if v && o.Secs > 1 {
			fmt.Printf("    slow %.1fs %s #%d by %s\n", o.Secs, o.Name, o.N, o.Solver)
		}
	}
	if v {
		fmt.Printf("    inlined %v\n    used %v\n    libs %v\n    dropped %v\n", r.Inlined, r.Used, r.Libs, r.Dropped)
	}
	return bad
}

// --- parallel verification through worker processes ---

func verifyMany(repo, contracts, prop string, names []string, workers int, budget float64, deadline time.Time, more func(FnRes) []string) (map[string]FnRes, error) {
	self, _ := os.Executable()
	res := map[string]FnRes{}
	queued := map[string]bool{}
	var q []string
	for _, n := range names {
		if !queued[n] {
			queued[n] = true
			q = append(q, n)
		}
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	busy := 0
	var firstErr error
	var wg sync.WaitGroup
	par := 2
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(self, "worker", "-repo", repo, "-contracts", contracts, "-par", fmt.Sprint(par), "-budget", fmt.Sprint(budget))
			stdin, _ := cmd.StdinPipe()
			stdout, _ := cmd.StdoutPipe()
			cmd.Stderr = os.Stderr
			if err := cmd.Start(); err != nil {
				mu.Lock()
				firstErr = err
				mu.Unlock()
				cond.Broadcast()
				return
			}
			defer cmd.Wait()
			defer stdin.Close()
			dec := json.NewDecoder(bufio.NewReaderSize(stdout, 1<<20))
			for {
				mu.Lock()
				for len(q) == 0 && busy > 0 && firstErr == nil {
					cond.Wait()
				}
				if len(q) == 0 || firstErr != nil {
					mu.Unlock()
					return
				}
				n := q[0]
				q = q[1:]
				busy++
				mu.Unlock()
				b, _ := json.Marshal(Req{Name: n, Prop: prop})
				stdin.Write(append(b, '\n'))
				var r FnRes
				late := time.AfterFunc(time.Until(deadline), func() { cmd.Process.Kill() })
				err := dec.Decode(&r)
				late.Stop()
				mu.Lock()
				busy--
				if err != nil && time.Now().After(deadline) {
					res[n] = FnRes{Name: n, Err: "out of time"}
					mu.Unlock()
					cond.Broadcast()
					return
				} else if err != nil {
					firstErr = fmt.Errorf("worker failed on %s: %v", n, err)
				} else if r.Name == "" && r.Err != "" {
					firstErr = fmt.Errorf("%s", r.Err)
				} else {
					res[n] = r
					if more != nil {
						for _, m := range more(r) {
							if !queued[m] {
								queued[m] = true
								q = append(q, m)
							}
						}
					}
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for _, n := range q {
		if _, ok := res[n]; !ok {
			res[n] = FnRes{Name: n, Err: "not verified: out of time"}
		}
	}
	return res, firstErr
}

func sortedNames(m map[string]FnRes) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
