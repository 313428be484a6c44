package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/yusank/godis/event"
	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/redis"
)

// B is a byte string that survives JSON (each byte becomes one code point).
type B string

func (b B) MarshalJSON() ([]byte, error) {
	rs := make([]rune, len(b))
	for i := 0; i < len(b); i++ {
		rs[i] = rune(b[i])
	}
	return json.Marshal(string(rs))
}

func (b *B) UnmarshalJSON(p []byte) error {
	var s string
	if err := json.Unmarshal(p, &s); err != nil {
		return err
	}
	var bs []byte
	for _, r := range s {
		bs = append(bs, byte(r))
	}
	*b = B(bs)
	return nil
}

// History is a sequence of commands run from an empty store.
type History struct {
	RSeed int64 `json:"rseed"`
	Steps [][]B `json:"steps"`
	Probe bool  `json:"probe,omitempty"`
	Event bool  `json:"event,omitempty"` // sent as a connection does, through the event queue
}

// Verdict is the outcome of running one history on the real code.
type Verdict struct {
	OK      bool     `json:"ok"`
	At      int      `json:"at"`
	Cmd     string   `json:"cmd"`
	Got     string   `json:"got"`
	Want    string   `json:"want"`
	Why     string   `json:"why"` // reply, malformed, replies, crash, hang
	Flags   []string `json:"flags"`
	Crashed bool     `json:"crashed"`
}

// parseRep decodes one RESP value strictly.
func parseRep(b []byte) (r Rep, rest []byte, ok bool) {
	i := strings.Index(string(b), "\r\n")
	if len(b) < 3 || i < 1 {
		return r, nil, false
	}
	line := string(b[1:i])
	rest = b[i+2:]
	switch b[0] {
	case '+', '-':
		if strings.ContainsAny(line, "\r\n") {
			return r, nil, false
		}
		return Rep{K: b[0], S: line}, rest, true
	case ':':
		if n, err := strconv.ParseInt(line, 10, 64); err != nil || strconv.FormatInt(n, 10) != line {
			return r, nil, false
		}
		return Rep{K: ':', S: line}, rest, true
	case '$':
		if line == "-1" {
			return Rep{K: 'n'}, rest, true
		}
		n, err := strconv.Atoi(line)
		if err != nil || n < 0 || strconv.Itoa(n) != line || len(rest) < n+2 || string(rest[n:n+2]) != "\r\n" {
			return r, nil, false
		}
		return Rep{K: '$', S: string(rest[:n])}, rest[n+2:], true
	case '*':
		n, err := strconv.Atoi(line)
		if err != nil || n < 0 || strconv.Itoa(n) != line {
			return r, nil, false
		}
		r = Rep{K: '*'}
		for j := 0; j < n; j++ {
			var it Rep
			it, rest, ok = parseRep(rest)
			if !ok {
				return r, nil, false
			}
			r.Arr = append(r.Arr, it)
		}
		return r, rest, true
	}
	return r, nil, false
}

func (r Rep) String() string {
	switch r.K {
	case 'n':
		return "nil"
	case '$':
		return strconv.Quote(r.S)
	case '*':
		var ss []string
		for _, x := range r.Arr {
			ss = append(ss, x.String())
		}
		pre := ""
		if r.Any == 'P' {
			return fmt.Sprintf("<any %d members>", r.N)
		}
		if r.Any != 0 {
			pre = "(any order)"
		}
		return pre + "[" + strings.Join(ss, " ") + "]"
	case '-':
		if r.S == "" {
			return "-<error>"
		}
	}
	return string(r.K) + r.S
}

func repKey(r Rep) string { return string(r.K) + "\x00" + r.S }

func sameRep(got, want Rep) bool {
	if got.K != want.K {
		return false
	}
	switch want.K {
	case '-', 'n':
		return true
	case '*':
		if want.Any == 'P' {
			if len(got.Arr) != want.N {
				return false
			}
			seen := map[string]bool{}
			for _, x := range got.Arr {
				if x.K != '$' || !want.From[x.S] || seen[x.S] {
					return false
				}
				seen[x.S] = true
			}
			return true
		}
		if len(got.Arr) != len(want.Arr) {
			return false
		}
		g, w := flat(got.Arr, want.Any), flat(want.Arr, want.Any)
		for i := range g {
			if g[i] != w[i] {
				return false
			}
		}
		return true
	}
	return got.S == want.S
}

func flat(rs []Rep, any byte) []string {
	var out []string
	if any == 'p' {
		for i := 0; i+1 < len(rs); i += 2 {
			out = append(out, repKey(rs[i])+"\x01"+repKey(rs[i+1]))
		}
	} else {
		for _, r := range rs {
			out = append(out, repKey(r))
		}
	}
	if any != 0 {
		sort.Strings(out)
	}
	return out
}

// execReq runs one request on the real code.
func execReq(step []B) (r Rep, why string, raw string) {
	el := make([]string, len(step))
	for i, s := range step {
		el[i] = string(s)
	}
	keep := append([]string{}, el...)
	c := redis.NewCommandFromReceive(context.Background(), &protocol.Receive{Elements: el})
	if c == nil {
		return r, "nocommand", ""
	}
	ch := c.ExecuteAsync()
	n := 0
	var rsp *protocol.Response
	for x := range ch {
		rsp = x
		n++
	}
	for i := range el {
		if el[i] != keep[i] {
			return r, "argument changed", el[i]
		}
	}
	if n != 1 || rsp == nil {
		return r, "replies", strconv.Itoa(n)
	}
	b := rsp.Encode()
	rep, rest, ok := parseRep(b)
	if !ok || len(rest) != 0 {
		return r, "malformed", string(b)
	}
	if string(rsp.Encode()) != string(b) {
		return r, "malformed", "second Encode of the same reply differs: " + string(b)
	}
	return rep, "", string(b)
}

// eventReq runs one request as a connection does.
func eventReq(step []B) (r Rep, why string, raw string) {
	el := make([]string, len(step))
	for i, s := range step {
		el[i] = string(s)
	}
	b := event.HandleRequest(&protocol.Receive{Elements: append([]string{}, el...)})
	rep, rest, ok := parseRep(b)
	if !ok || len(rest) != 0 {
		return r, "malformed", string(b)
	}
	return rep, "", string(b)
}

// run executes a history step by step against the model.
type runner struct {
	m        *model
	flags    map[string]bool
	executed [][]B
	event    bool
}

func newRunner(rseed int64) *runner {
	rand.Seed(rseed)
	return &runner{m: newModel(), flags: map[string]bool{}}
}

func (r *runner) step(st []B) *Verdict {
	if len(st) == 0 {
		return nil
	}
	args := make([]string, len(st)-1)
	for i := range args {
		args[i] = string(st[i+1])
	}
	before := map[string]bool{}
	for k := range r.m.db {
		before[k] = true
	}
	cmd := strings.ToLower(string(st[0]))
	w := r.m.step(cmd, args)
	if w.skip {
		return nil
	}
	if w.wrongKind {
		r.flags["C14"] = true
	}
	if w.fewArgs {
		r.flags["C20"] = true
	}
	if minArgsUnknown(cmd) {
		r.flags["C21"] = true
	}
	for k := range before {
		if r.m.db[k] == nil && cmd != "del" {
			r.flags["vanish\x00"+k] = true
		}
	}
	r.executed = append(r.executed, st)
	ex := execReq
	if r.event {
		ex = eventReq
	}
	got, why, raw := ex(st)
	v := &Verdict{At: len(r.executed) - 1, Cmd: cmd, Want: w.rep.String(), Why: why}
	if len(args) > 0 && r.flags["vanish\x00"+args[0]] {
		r.flags["C16"] = true
	}
	if why != "" {
		v.Got = strconv.Quote(raw)
		if why == "malformed" {
			r.flags["C19"] = true
		}
		if why == "replies" || why == "argument changed" || why == "nocommand" {
			r.flags["C21"] = true
		}
	} else if !sameRep(got, w.rep) {
		v.Got, v.Why = got.String(), "reply"
	} else {
		if w.rep.Any == 'P' {
			x := r.m.db[args[0]]
			for _, it := range got.Arr {
				delete(x.set, it.S)
			}
			r.m.dropEmpty(args[0])
			if r.m.db[args[0]] == nil {
				r.flags["vanish\x00"+args[0]] = true
			}
		}
		return nil
	}
	for f := range r.flags {
		if !strings.HasPrefix(f, "vanish") {
			v.Flags = append(v.Flags, f)
		}
	}
	sort.Strings(v.Flags)
	return v
}

func minArgsUnknown(cmd string) bool { _, ok := minArgs[cmd]; return !ok }

func (r *runner) cleanup() {
	ks := map[string]bool{}
	for _, st := range r.executed {
		for _, a := range st[1:] {
			ks[string(a)] = true
		}
	}
	for k := range ks {
		execReq([]B{"del", B(k)})
	}
}

func runHistory(h *History) *Verdict {
	r := newRunner(h.RSeed)
	r.event = h.Event
	if h.Probe {
		r.flags["C21"] = true
	}
	for i, st := range h.Steps {
		mark(i)
		if v := r.step(st); v != nil {
			v.At = i
			return v
		}
	}
	return nil
}
