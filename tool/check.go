package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	goparser "go/parser"
	"go/token"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// serves reports whether a contract is one of the property's own contracts.
func serves(c *Contract, prop string) bool {
	if hasTag(c.props, prop) {
		return true
	}
	for _, cs := range [][]Clause{c.ensures, c.asserts, c.updates} {
		for _, cl := range cs {
			if hasTag(cl.tags, prop) {
				return true
			}
		}
	}
	return false
}

// dictionary collects the constants of the code under check as inputs worth trying.
func dictionary(repo, file string) {
	ints, strs := map[string]bool{}, map[string]bool{}
	filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		fset := token.NewFileSet()
		f, err := goparser.ParseFile(fset, p, nil, goparser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch l := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				switch l.Kind {
				case token.INT:
					if v, ok := new(big.Int).SetString(strings.ReplaceAll(l.Value, "_", ""), 0); ok && v.IsInt64() {
						for d := int64(-1); d <= 1; d++ {
							w := new(big.Int).Add(v, big.NewInt(d))
							if w.IsInt64() {
								ints[w.String()] = true
								ints[new(big.Int).Neg(w).String()] = true
							}
						}
					}
				case token.STRING:
					if s, err := strconv.Unquote(l.Value); err == nil && len(s) <= 64 {
						strs[s] = true
					}
				case token.CHAR:
					if s, _, _, err := strconv.UnquoteChar(strings.Trim(l.Value, "'"), '\''); err == nil {
						strs[string(s)] = true
					}
				}
			}
			return true
		})
		return nil
	})
	var is []int64
	for s := range ints {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			is = append(is, v)
		}
	}
	sort.Slice(is, func(i, j int) bool { return is[i] < is[j] })
	ss := []string{}
	for s := range strs {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	b, _ := json.Marshal(map[string]interface{}{"ints": is, "strs": ss})
	os.WriteFile(file, b, 0o644)
}

type campRes struct {
	Histories int             `json:"histories"`
	Steps     int             `json:"steps"`
	Others    map[string]int  `json:"other_mismatches"`
	Fail      json.RawMessage `json:"fail"`
	err       string
	secs      float64
}

func (c *campRes) found() bool { return len(c.Fail) > 0 && string(c.Fail) != "null" }

func campaignRun(bin, prop string, seed int64, budget time.Duration, workers int, dict, work string) *campRes {
	t0 := time.Now()
	out := filepath.Join(work, fmt.Sprintf("campaign-%d.json", time.Now().UnixNano()))
	cmd := exec.Command(bin, "campaign", "-prop", prop, "-seed", fmt.Sprint(seed), "-budget", budget.String(), "-workers", fmt.Sprint(workers), "-dict", dict, "-out", out)
	b, err := cmd.CombinedOutput()
	r := &campRes{}
	if j, e := os.ReadFile(out); e == nil {
		json.Unmarshal(j, r)
	} else {
		r.err = fmt.Sprintf("%v: %s", err, b)
	}
	r.secs = time.Since(t0).Seconds()
	return r
}

// publicContract: the function a contract names must exist.
func publicContract(c *Contract) bool {
	if c.kind == "command" {
		return true
	}
	n := c.name[strings.LastIndex(c.name, ".")+1:]
	return n != "" && n[0] >= 'A' && n[0] <= 'Z'
}

// knownFindings reads the findings of a property that are open: key -> what fails.
func knownFindings(file, prop string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.SplitN(strings.TrimSpace(l), " ", 4); len(f) == 4 && f[0] == "open:" && f[1] == "property="+prop {
			m[f[2]] = f[3]
		}
	}
	return m
}

func runCheck(repo, contracts, replayBin, outDir, prop, tier string, seed int64) int {
	t0 := time.Now()
	say := func(f string, a ...interface{}) { fmt.Printf(f+"\n", a...) }
	sp, err := loadSpecs(contracts)
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		return 2
	}
	work, _ := os.MkdirTemp("", "vcheck-"+prop+"-")
	defer os.RemoveAll(work)
	dict := filepath.Join(work, "dict.json")
	dictionary(repo, dict)
	var seeds []string
	var boundedNote []string
	for _, n := range sp.order {
		c := sp.contracts[n]
		if serves(c, prop) {
			if c.trusted != "" || c.isInline {
				continue
			}
			seeds = append(seeds, n)
		}
	}
	for _, b := range sp.bounded {
		if hasTag(b.tags, prop) {
			boundedNote = append(boundedNote, b.text)
		}
	}
	budget := 1.0
	valid := 15 * time.Second
	hunt := 90 * time.Second
	if len(boundedNote) > 0 {
		valid = 60 * time.Second
	}
	if tier == "thorough" {
		budget, valid, hunt = 3, 10*time.Minute, 5*time.Minute
	}
	// the bounded validation runs beside the proofs
	var val *campRes
	var wg sync.WaitGroup
	if replayBin != "" {
		wg.Add(1)
		go func() {
			defer wg.Done()
			val = campaignRun(replayBin, prop, seed, valid, 2, dict, work)
		}()
	}
	followed := map[string]bool{}
	supported := map[string]bool{}
	support := func(n string) (out []string) {
		if c := sp.contracts[n]; c != nil && c.module != "" && !supported[c.module] {
			supported[c.module] = true
			out = sp.supports(c.module)
		}
		return out
	}
	var base []string
	for _, n := range seeds {
		base = append(base, support(n)...)
	}
	seeds = append(seeds, base...)
	deadline := time.Now().Add(420 * time.Second)
	if tier == "thorough" {
		deadline = time.Now().Add(3 * time.Hour)
	}
	res, verr := verifyMany(repo, contracts, prop, seeds, 6, budget, deadline, func(r FnRes) []string {
		var more []string
		for _, u := range r.Used {
			if c := sp.contracts[u]; c != nil && c.trusted == "" && !c.isInline && !followed[u] {
				followed[u] = true
				more = append(append(more, u), support(u)...)
			}
		}
		return more
	})
	wg.Wait()
	type failed struct {
		Fn, Name, Src, Trace, Res, Output string
		N                                 int
	}
	var fails []failed
	if verr != nil {
		fails = append(fails, failed{Fn: "?", Name: "verification-completes", Res: "undecided", Output: verr.Error()})
	}
	listed, seen := knownFindings(filepath.Join(filepath.Dir(contracts), "known-findings.txt"), prop), map[string]bool{}
	nob, ndis, vac := 0, 0, 0
	byKind, bySolver := map[string]int{}, map[string]int{}
	var solverS, genS, slowest float64
	var slowName string
	libs, trusted, inlined := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var fnList []map[string]interface{}
	var notes []string
	seedSet := map[string]bool{}
	for _, s := range seeds {
		seedSet[s] = true
	}
	for _, n := range sortedNames(res) {
		r := res[n]
		c := sp.contracts[n]
		if r.Missing {
			if seedSet[n] && publicContract(c) {
				fails = append(fails, failed{Fn: n, Name: n + "/anchor", Res: "undecided", Output: "the contract's function does not exist in the current tree"})
			} else {
				notes = append(notes, "contract "+n+" has no function in the current tree (its callers are verified without it)")
			}
			continue
		}
		if r.Err != "" {
			fails = append(fails, failed{Fn: n, Name: n + "/in-reach", Res: "undecided", Output: r.Err})
		}
		fo, fd := 0, 0
		for _, o := range r.Obs {
			if o.Res == "other" || strings.HasPrefix(o.Kind, "candidate") {
				continue
			}
			solverS += o.Secs
			if o.Secs > slowest {
				slowest, slowName = o.Secs, o.Name
			}
			if o.Vac {
				vac++
			}
			nob++
			fo++
			byKind[o.Kind]++
			if o.Res == "proved" {
				ndis++
				fd++
				s := o.Solver
				if i := strings.Index(s, " (same"); i > 0 {
					s = s[:i] + " (repeated query)"
				}
				if s == "" {
					s = "simplifier"
				}
				bySolver[s]++
			} else if k := knownKey(o.Tags); listed[k] != "" {
				nob--
				fo--
				byKind[o.Kind]--
				seen[k] = true
			} else {
				fails = append(fails, failed{o.Fn, o.Name, o.Src, o.Trace, o.Res, o.Output, o.N})
			}
		}
		genS += r.GenS
		for _, l := range r.Libs {
			libs[l] = true
		}
		for _, l := range r.Trusted {
			trusted[l] = true
		}
		for _, l := range r.Inlined {
			inlined[l] = true
		}
		fnList = append(fnList, map[string]interface{}{"contract": n, "function": r.Func, "obligations": fo, "discharged": fd, "paths": r.Paths, "executed_inline": r.Inlined, "uses_contracts": r.Used})
	}
	if nob == 0 && len(seeds) > 0 {
		fails = append(fails, failed{Fn: "?", Name: "no obligation generated", Res: "undecided"})
	}
	violation := ""
	nfi := false
	var replayFail json.RawMessage
	if val != nil && val.found() {
		replayFail = val.Fail
	}
	if len(fails) > 0 && replayFail == nil && replayBin != "" {
		for i := int64(0); i < 1; i++ {
			h := campaignRun(replayBin, prop, seed+1000+i, hunt, 8, dict, work)
			if val != nil {
				h.Histories += val.Histories
				h.Steps += val.Steps
			}
			val = h
			if h.found() {
				replayFail = h.Fail
				break
			}
		}
	}
	os.MkdirAll(outDir, 0o755)
	if len(fails) > 0 || replayFail != nil {
		file := map[string]interface{}{}
		if replayFail != nil {
			json.Unmarshal(replayFail, &file)
			violation = fmt.Sprintf("%s/%s-replay.json", outDir, prop)
			file["run"] = "replay run " + violation
		} else {
			nfi = true
			violation = fmt.Sprintf("%s/%s-obligation.json", outDir, prop)
			file["property"] = prop
			file["no_failing_input"] = "the obligations below were not discharged; no failing input was found on the real code"
		}
		file["failed_obligations"] = fails
		b, _ := json.MarshalIndent(file, "", " ")
		os.WriteFile(violation, b, 0o644)
	}
	// evidence
	assumptions := append([]string{}, sp.assume...)
	for _, l := range keys(trusted) {
		assumptions = append(assumptions, "trusted contract: "+l)
	}
	for _, l := range keys(libs) {
		assumptions = append(assumptions, "library model assumed: "+l)
	}
	for _, m := range sp.modOrder {
		for _, c := range sp.modules[m].assumes {
			assumptions = append(assumptions, "module "+m+" assumes: "+c.src)
		}
	}
	level := "proof"
	cov := map[string]interface{}{
		"obligations": nob, "discharged": ndis,
		"checker_cmd":            fmt.Sprintf("tool verify -prop %s (verification conditions by path-wise symbolic execution of go/ssa built from %s; z3 5.3.2, cvc5 1.1.2, z3 4.8.12)", prop, repo),
		"trusted_base":           []string{"go/types + go/ssa (x/tools v0.52.0) front end", "the condition generator in /verif/tool", "z3 5.3.2 / cvc5 1.1.2 / z3 4.8.12", "library models listed under assumptions"},
		"contracts":              fnList,
		"functions_under_contract": len(fnList),
		"executed_inline":        keys(inlined),
		"obligations_by_kind":    byKind,
		"discharged_by":          bySolver,
		"reachability_covers":    vac,
		"solver_s":               round2(solverS),
		"generator_s":            round2(genS),
		"slowest_obligation":     fmt.Sprintf("%s %.2fs", slowName, slowest),
		"notes":                  notes,
	}
	if val != nil {
		cov["bounded_validation"] = map[string]interface{}{"what": "random command histories (or byte streams / map operations) run on the real code and compared with a reference model; bounded, not counted as proved", "histories": val.Histories, "steps": val.Steps, "seconds": round2(val.secs), "mismatches_of_other_properties": val.Others, "error": val.err}
	}
	if len(boundedNote) > 0 {
		cov["bounded_stand_ins"] = boundedNote
		level = "other"
		cov["explanation"] = "Contracts verified deductively for the functions listed under contracts; the functions listed under bounded_stand_ins are outside that proof and only checked by bounded_validation."
	}
	if len(seen) > 0 {
		var ks []string
		for _, k := range keys(seen) {
			ks = append(ks, k+": "+listed[k])
		}
		level = "other"
		cov["known_findings"] = ks
		if replayBin != "" { // what the real code does on an input of each of them
			cx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
			if out, err := exec.CommandContext(cx, replayBin, "known").Output(); err == nil {
				out = bytes.TrimSpace(out)
				shown := map[string]string{}
				if json.Unmarshal(out[bytes.LastIndexByte(out, '\n')+1:], &shown) == nil {
					cov["known_findings_replayed"] = shown
				}
			}
			cancel()
		}
		cov["explanation"] = "Contracts verified deductively for the functions listed under contracts; the property as stated is broken by the known findings, whose obligations are not among those counted."
	}
	nviol := 0
	if violation != "" {
		nviol = 1
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round2(time.Since(t0).Seconds()), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	evDir := filepath.Join(filepath.Dir(contracts), "evidence")
	os.MkdirAll(evDir, 0o755)
	os.WriteFile(filepath.Join(evDir, prop+".json"), append(b, '\n'), 0o644)
	// report
	say("%s: %d contracts, %d obligations, %d discharged (%.1fs solver, %.1fs wall)", prop, len(fnList), nob, ndis, solverS, time.Since(t0).Seconds())
	if val != nil {
		say("%s: bounded validation: %d histories, %d steps, others %v %s", prop, val.Histories, val.Steps, val.Others, val.err)
	}
	for _, k := range keys(seen) {
		say("KNOWN-FINDING: property=%s %s: %s", prop, k, listed[k])
	}
	for i, f := range fails {
		if i == 12 {
			say("  ... %d more", len(fails)-i)
			break
		}
		say("  FAILED OBLIGATION %s #%d (%s): %s", f.Name, f.N, f.Res, f.Src)
		if i < 3 && f.Output != "" {
			say("      %s", strings.ReplaceAll(strings.TrimSpace(f.Output), "\n", " | "))
		}
	}
	if violation != "" {
		if nfi {
			say("VIOLATION property=%s replay=%s no-failing-input-found", prop, violation)
		} else {
			say("VIOLATION property=%s replay=%s", prop, violation)
		}
		return 1
	}
	if replayBin == "" {
		say("%s: no replay harness", prop)
	}
	return 0
}

func round2(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }
