package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var markFile *os.File

// mark records the step about to run, so that a crash can be located.
func mark(i int) {
	if markFile != nil {
		var b [8]byte
		s := strconv.AppendInt(b[:0], int64(i), 10)
		for len(s) < 8 {
			s = append(s, ' ')
		}
		markFile.WriteAt(s, 0)
	}
}

func limit() {
	lim := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	_ = syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
}

// Fail is a confirmed failing input.
type Fail struct {
	Property string   `json:"property"`
	Props    []string `json:"also_breaks"`
	History  *History `json:"history,omitempty"`
	Proto    *PCase   `json:"proto,omitempty"`
	Map      *MCase   `json:"map,omitempty"`
	Conc     *CCase   `json:"concurrent,omitempty"`
	Net      *NCase   `json:"connections,omitempty"`
	At       int      `json:"at"`
	Got      string   `json:"got"`
	Want     string   `json:"want"`
	Why      string   `json:"why"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: replay campaign|child|run ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "campaign":
		campaign(os.Args[2:])
	case "child":
		child(os.Args[2:])
	case "run":
		runFile(os.Args[2])
	case "known":
		limit()
		b, _ := json.Marshal(known())
		fmt.Println(string(b))
	default:
		os.Exit(2)
	}
}

// --- run one recorded failing input -------------------------------------

func runFile(path string) {
	limit()
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var f Fail
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	markFile, _ = os.OpenFile(path+".mark", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	go func() { time.Sleep(20 * time.Second); fmt.Println("HANG"); os.Exit(4) }()
	var v *Verdict
	switch {
	case f.History != nil:
		v = runHistory(f.History)
	case f.Proto != nil:
		v = f.Proto.run()
	case f.Map != nil:
		v = f.Map.run()
	case f.Conc != nil:
		for i := 0; i < 40 && v == nil; i++ { // schedules differ from run to run
			mark(i)
			v = f.Conc.run()
		}
	case f.Net != nil:
		for i := 0; i < 10 && v == nil; i++ {
			mark(i)
			v = f.Net.run()
		}
	}
	if v == nil {
		fmt.Println("OK: the recorded input behaves as specified")
		return
	}
	out, _ := json.Marshal(v)
	fmt.Println(string(out))
	os.Exit(3)
}

// confirm re-runs an input in a fresh process.
func confirm(dir string, f *Fail) *Verdict {
	p, err := os.CreateTemp(dir, "case*.json")
	if err != nil {
		return nil
	}
	b, _ := json.Marshal(f)
	p.Write(b)
	p.Close()
	defer os.Remove(p.Name())
	defer os.Remove(p.Name() + ".mark")
	cmd := exec.Command(os.Args[0], "run", p.Name())
	out, err := cmd.Output()
	if err == nil {
		return nil
	}
	if ee, ok := err.(*exec.ExitError); ok {
		switch ee.ExitCode() {
		case 3:
			var v Verdict
			if i := strings.LastIndex(strings.TrimSpace(string(out)), "\n"); i >= 0 {
				out = out[i+1:]
			}
			if json.Unmarshal(out, &v) == nil {
				return &v
			}
			return nil
		case 4:
			v := &Verdict{Why: "hang", Crashed: true, Got: "no reply within 20 s", Want: "a reply"}
			v.At = readMark(p.Name() + ".mark")
			return v
		default:
			v := &Verdict{Why: "crash", Crashed: true, Got: tail(string(ee.Stderr)), Want: "a reply"}
			v.At = readMark(p.Name() + ".mark")
			return v
		}
	}
	return nil
}

func tail(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime: goroutine stack") {
			return l
		}
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

func readMark(p string) int {
	b, _ := os.ReadFile(p)
	n, _ := strconv.Atoi(strings.TrimSpace(string(b)))
	return n
}

// --- attribution ---------------------------------------------------------

func inFam(p, cmd string) bool {
	for _, c := range families[p] {
		if c == cmd {
			return true
		}
	}
	return false
}

func targetsOf(st []B) (targets, sources []string) {
	cmd := strings.ToLower(string(st[0]))
	a := []string{}
	for _, x := range st[1:] {
		a = append(a, string(x))
	}
	if len(a) == 0 {
		return
	}
	switch cmd {
	case "mset":
		for i := 0; i < len(a); i += 2 {
			targets = append(targets, a[i])
		}
	case "mget", "sdiff", "sinter", "sunion":
		sources = a
	case "smove":
		targets = a[:min(2, len(a))]
		sources = targets
	case "sdiffstore", "sinterstore", "sunionstore":
		targets, sources = a[:1], a[1:]
	case "keys":
		sources = []string{"*"}
	default:
		targets = a[:1]
		sources = targets
	}
	return
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func attribute(h *History, v *Verdict) []string {
	set := map[string]bool{}
	for _, f := range v.Flags {
		set[f] = true
	}
	steps := h.Steps[:min(v.At+1, len(h.Steps))]
	if len(steps) == 0 {
		return nil
	}
	last := steps[len(steps)-1]
	lc := strings.ToLower(string(last[0]))
	for p := range families {
		if inFam(p, lc) {
			set[p] = true
		}
		for _, st := range steps {
			c := strings.ToLower(string(st[0]))
			if mutating[c] && !setupCmd[c] && inFam(p, c) {
				set[p] = true
			}
		}
	}
	if lc == "zrange" || lc == "zrevrange" {
		for _, o := range last[1:] {
			if strings.ToLower(string(o)) == "byscore" {
				set["C12"] = true
			}
		}
	}
	if v.Crashed {
		set["C20"] = true
	}
	// C15: a step that names nothing the observation depends on was needed.
	_, src := targetsOf(last)
	tg, _ := targetsOf(last)
	rel := map[string]bool{}
	for _, k := range append(src, tg...) {
		rel[k] = true
	}
	for i := len(steps) - 2; i >= 0; i-- {
		t, s := targetsOf(steps[i])
		hit := rel["*"]
		for _, k := range t {
			hit = hit || rel[k]
		}
		if hit {
			for _, k := range s {
				rel[k] = true
			}
			for _, k := range t {
				rel[k] = true
			}
		} else if mutating[strings.ToLower(string(steps[i][0]))] {
			set["C15"] = true
		}
	}
	var out []string
	for p := range set {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// shrink minimises a failing history, confirming each candidate in a fresh process.
func shrink(dir string, h *History, v *Verdict, deadline time.Time) (*History, *Verdict) {
	if v.At+1 < len(h.Steps) {
		h = &History{h.RSeed, h.Steps[:v.At+1], h.Probe, h.Event}
	}
	try := func(c *History) bool {
		if time.Now().After(deadline) {
			return false
		}
		n := confirm(dir, &Fail{History: c})
		if n == nil || n.Why != v.Why {
			return false
		}
		c.Steps = c.Steps[:min(n.At+1, len(c.Steps))]
		h, v = c, n
		return true
	}
	for size := len(h.Steps) / 2; size >= 1; {
		hit := false
		for i := len(h.Steps) - size; i >= 0; i -= size {
			if i+size > len(h.Steps) {
				continue
			}
			st := append(append([][]B{}, h.Steps[:i]...), h.Steps[i+size:]...)
			if len(st) > 0 && try(&History{h.RSeed, st, h.Probe, h.Event}) {
				hit = true
			}
		}
		if !hit || size > 1 {
			if size == 1 {
				break
			}
			size /= 2
		}
	}
	// drop arguments
	for i := len(h.Steps) - 1; i >= 0; i-- {
		if i >= len(h.Steps) {
			continue
		}
		for size := len(h.Steps[i]) / 2; size >= 1; size /= 2 {
			for j := len(h.Steps[i]) - size; j >= 2; j -= size {
				if i >= len(h.Steps) || j+size > len(h.Steps[i]) {
					continue
				}
				st := append([][]B{}, h.Steps...)
				st[i] = append(append([]B{}, st[i][:j]...), st[i][j+size:]...)
				// keep the shape that a client would send
				try(&History{h.RSeed, st, h.Probe, h.Event})
			}
		}
	}
	return h, v
}

// --- campaign --------------------------------------------------------------

func campaign(args []string) {
	fs := flag.NewFlagSet("campaign", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Int64("seed", 1, "")
	budget := fs.Duration("budget", 10*time.Second, "")
	workers := fs.Int("workers", 4, "")
	dict := fs.String("dict", "", "")
	out := fs.String("out", "", "")
	work := fs.String("work", "", "")
	_ = fs.Parse(args)
	if *work == "" {
		*work, _ = os.MkdirTemp("", "replay")
		defer os.RemoveAll(*work)
	}
	deadline := time.Now().Add(*budget)
	var mu sync.Mutex
	var found *Fail
	histories, steps := 0, 0
	var others = map[string]int{}
	var wg sync.WaitGroup
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			sd := *seed*1000003 + int64(w)*7919
			for round := 0; time.Now().Before(deadline); round++ {
				mu.Lock()
				done := found != nil
				mu.Unlock()
				if done {
					return
				}
				base := filepath.Join(*work, fmt.Sprintf("w%d", w))
				for _, s := range []string{".stat", ".fail", ".cur", ".mark"} {
					os.Remove(base + s)
				}
				c := exec.Command(os.Args[0], "child", *prop, strconv.FormatInt(sd+int64(round)*104729, 10),
					strconv.FormatInt(int64(time.Until(deadline)/time.Millisecond), 10), *dict, base)
				var errb strings.Builder
				c.Stderr = &errb
				_ = c.Start()
				ch := make(chan error, 1)
				go func() { ch <- c.Wait() }()
				hang := false
				var last string
				lastT := time.Now()
			wait:
				for {
					select {
					case <-ch:
						break wait
					case <-time.After(500 * time.Millisecond):
						b, _ := os.ReadFile(base + ".stat")
						m, _ := os.ReadFile(base + ".mark")
						if s := string(b) + string(m); s != last {
							last, lastT = s, time.Now()
						} else if time.Since(lastT) > 15*time.Second {
							hang = true
							_ = c.Process.Kill()
							<-ch
							break wait
						}
						mu.Lock()
						stop := found != nil
						mu.Unlock()
						if stop {
							_ = c.Process.Kill()
							<-ch
							return
						}
					}
				}
				var st struct{ Histories, Steps int }
				if b, err := os.ReadFile(base + ".stat"); err == nil {
					_ = json.Unmarshal(b, &st)
				}
				mu.Lock()
				histories += st.Histories
				steps += st.Steps
				mu.Unlock()
				code := c.ProcessState.ExitCode()
				if code == 0 && !hang {
					continue
				}
				var f Fail
				b, err := os.ReadFile(base + ".fail")
				if err != nil {
					if b, err = os.ReadFile(base + ".cur"); err != nil {
						continue
					}
				}
				if !loadCur(b, &f) {
					continue
				}
				f2 := settle(*work, &f, deadline.Add(20*time.Second))
				if f2 == nil {
					mu.Lock()
					others["unconfirmed"]++
					mu.Unlock()
					continue
				}
				mu.Lock()
				if has(f2.Props, *prop) {
					if found == nil {
						f2.Property = *prop
						found = f2
					}
				} else {
					others[strings.Join(f2.Props, "+")]++
				}
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	res := map[string]interface{}{"histories": histories, "steps": steps, "other_mismatches": others, "fail": found}
	b, _ := json.MarshalIndent(res, "", " ")
	if *out != "" {
		_ = os.WriteFile(*out, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
	if found != nil {
		os.Exit(1)
	}
}

func loadCur(b []byte, f *Fail) bool {
	if !strings.HasPrefix(string(b), "steps ") {
		return json.Unmarshal(b, f) == nil
	}
	lines := strings.Split(strings.TrimSpace(string(b)), "\n")
	h := &History{}
	hd := strings.TrimPrefix(lines[0], "steps ")
	h.Event = strings.HasSuffix(hd, " event")
	h.RSeed, _ = strconv.ParseInt(strings.TrimSuffix(hd, " event"), 10, 64)
	for _, l := range lines[1:] {
		var st []B
		if json.Unmarshal([]byte(l), &st) == nil {
			h.Steps = append(h.Steps, st)
		}
	}
	f.History = h
	return true
}

// settle confirms a failing input in a fresh process, shrinks it and says
// which properties it breaks.
func settle(dir string, f *Fail, deadline time.Time) *Fail {
	var v *Verdict
	for i := 0; i < 4 && v == nil; i++ {
		v = confirm(dir, f)
	}
	if v == nil {
		return nil
	}
	switch {
	case f.History != nil:
		h, v2 := shrink(dir, f.History, v, deadline)
		f.History, v = h, v2
		f.Props = attribute(h, v)
		if h.Event {
			d := *h
			d.Event = false
			if confirm(dir, &Fail{History: &d}) == nil { // the commands themselves are right
				f.Props = []string{"C21", "C23"}
			}
		}
	case f.Conc != nil:
		f.Props = []string{"C23"}
		if v.Crashed {
			f.Props = []string{"C23", "C20"}
		}
	case f.Net != nil:
		f.Props = []string{"C24"}
		if v.Crashed {
			f.Props = []string{"C24", "C20"}
		}
	default:
		f.Props = v.Flags
		if v.Crashed {
			if f.Map != nil {
				f.Props = []string{"C22"}
			} else if f.Proto.Kind == "encode" {
				f.Props = []string{"C19"}
			} else {
				f.Props = []string{"C17", "C18"}
			}
		}
	}
	f.At, f.Got, f.Want, f.Why = v.At, v.Got, v.Want, v.Why
	return f
}

// --- child -----------------------------------------------------------------

func child(args []string) {
	limit()
	prop := args[0]
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	ms, _ := strconv.ParseInt(args[2], 10, 64)
	base := args[4]
	deadline := time.Now().Add(time.Duration(ms) * time.Millisecond)
	d := &Dict{}
	if b, err := os.ReadFile(args[3]); err == nil {
		_ = json.Unmarshal(b, d)
	}
	nh, ns := 0, 0
	stat := func() {
		b, _ := json.Marshal(map[string]int{"Histories": nh, "Steps": ns})
		_ = os.WriteFile(base+".stat", b, 0o644)
	}
	lastStat := time.Now()
	tick := func() {
		if time.Since(lastStat) > 200*time.Millisecond {
			stat()
			lastStat = time.Now()
		}
	}
	defer stat()
	fail := func(f *Fail) {
		b, _ := json.Marshal(f)
		_ = os.WriteFile(base+".fail", b, 0o644)
		stat()
		os.Exit(3)
	}
	cur, _ := os.OpenFile(base+".cur", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	setCur := func(f *Fail) {
		b, _ := json.Marshal(f)
		b = append(b, '\n')
		cur.Truncate(int64(len(b)))
		cur.WriteAt(b, 0)
	}
	var curPos int64
	startCur := func(rseed int64, event bool) {
		cur.Truncate(0)
		b := []byte("steps " + strconv.FormatInt(rseed, 10) + "\n")
		if event {
			b = []byte("steps " + strconv.FormatInt(rseed, 10) + " event\n")
		}
		cur.WriteAt(b, 0)
		curPos = int64(len(b))
	}
	addCur := func(st []B) {
		b, _ := json.Marshal(st)
		b = append(b, '\n')
		cur.WriteAt(b, curPos)
		curPos += int64(len(b))
	}
	switch prop {
	case "C17", "C18", "C19":
		rng := rand.New(rand.NewSource(seed))
		for time.Now().Before(deadline) {
			pc := genProto(rng, prop, d)
			setCur(&Fail{Proto: pc})
			nh++
			tick()
			if v := pc.run(); v != nil {
				fail(&Fail{Proto: pc})
			}
		}
		if prop != "C19" {
			return
		}
		return
	case "C24":
		for i := int64(0); time.Now().Before(deadline); i++ {
			nc := genNet(rand.New(rand.NewSource(seed + i)))
			setCur(&Fail{Net: nc})
			nh++
			ns += nc.Conns * nc.Ops
			tick()
			if v := nc.run(); v != nil {
				fail(&Fail{Net: nc})
			}
		}
		return
	case "C22":
		rng := rand.New(rand.NewSource(seed))
		for time.Now().Before(deadline) {
			mc := genMap(rng, d)
			setCur(&Fail{Map: mc})
			nh++
			ns += len(mc.Ops)
			tick()
			if v := mc.run(); v != nil {
				fail(&Fail{Map: mc})
			}
		}
		return
	case "C21":
		for _, h := range probes(rand.New(rand.NewSource(seed))) {
			setCur(&Fail{History: h})
			nh++
			ns += len(h.Steps)
			r := newRunner(h.RSeed)
			h.Probe = true
			for _, st := range h.Steps {
				if v := r.step(st); v != nil {
					fail(&Fail{History: h})
				}
			}
			r.cleanup()
		}
	}
	for i := int64(0); time.Now().Before(deadline); i++ {
		g := newGen(prop, seed+i*15485863, d)
		if prop == "C23" && i%2 == 0 {
			cc := genConc(rand.New(rand.NewSource(seed + i)))
			setCur(&Fail{Conc: cc})
			nh++
			ns += cc.Clients * cc.Ops
			tick()
			if v := cc.run(); v != nil {
				fail(&Fail{Conc: cc})
			}
			continue
		}
		h := &History{RSeed: seed + i}
		r := newRunner(h.RSeed)
		h.Event = prop == "C23" || prop == "C21" && i%2 == 0
		r.event = h.Event
		startCur(h.RSeed, h.Event)
		n := 1 + g.rng.Intn(12)
		if g.rng.Intn(4) == 0 {
			n = 10 + g.rng.Intn(40)
		}
		do := func(st []B) {
			h.Steps = append(h.Steps, st)
			addCur(st)
			ns++
			tick()
			if v := r.step(st); v != nil {
				v.At = len(h.Steps) - 1
				fail(&Fail{History: h})
			}
		}
		for j := 0; j < n && time.Now().Before(deadline); j++ {
			do(g.next(r.m))
			if g.rng.Intn(6) == 0 && len(h.Steps[len(h.Steps)-1]) > 1 {
				for _, st := range g.dump(r.m, string(h.Steps[len(h.Steps)-1][1]), false) {
					do(st)
				}
			}
		}
		for _, k := range g.keys {
			for _, st := range g.dump(r.m, k, g.rng.Intn(3) == 0) {
				do(st)
			}
		}
		do(bs("keys", "*"))
		nh++
		r.cleanup()
	}
}
