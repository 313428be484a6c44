package main

import (
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

var families = map[string][]string{
	"C01": {"lpush", "rpush", "lpop", "rpop", "llen", "lrange"},
	"C02": {"lindex", "lset"},
	"C03": {"lrem", "linsert"},
	"C04": {"set", "get", "mset", "mget", "append"},
	"C05": {"incr", "decr", "incrby", "decrby"},
	"C06": {"hset", "hmset", "hsetnx", "hget", "hmget", "hdel", "hexists", "hlen", "hkeys", "hvals", "hgetall"},
	"C07": {"hset", "hmset", "hget", "hgetall", "hvals", "hmget", "hincrby", "hincrbyfloat"},
	"C08": {"sadd", "srem", "scard", "sismember", "smembers", "spop", "smove"},
	"C09": {"sdiff", "sinter", "sunion", "sdiffstore", "sinterstore", "sunionstore"},
	"C10": {"zadd", "zincr", "zscore", "zrem", "zcard", "zrange"},
	"C11": {"zrank", "zrange", "zrevrange"},
	"C12": {"zcount", "zrangebyscore"},
	"C13": {"zpopmin", "zpopmax"},
	"C16": {"exists", "type", "del", "keys"},
}

var kindOf = map[string][]string{
	"list": {"C01", "C02", "C03"}, "string": {"C04", "C05"}, "hash": {"C06", "C07"},
	"set": {"C08", "C09"}, "zset": {"C10", "C11", "C12", "C13"},
}

// setup commands only count for their own family when they are observed.
var setupCmd = map[string]bool{"set": true, "rpush": true, "lpush": true, "hset": true, "sadd": true, "zadd": true}

var mutating = map[string]bool{}

func init() {
	for _, c := range strings.Fields("set mset append incr decr incrby decrby del lpush rpush lpop rpop lset linsert lrem hset hmset hsetnx hdel hincrby hincrbyfloat sadd srem spop smove sdiffstore sinterstore sunionstore zadd zincr zrem zpopmin zpopmax") {
		mutating[c] = true
	}
}

// Dict holds constants mined from the source and from solver models.
type Dict struct {
	Ints []int64 `json:"ints"`
	Strs []B     `json:"strs"`
}

type gen struct {
	rng   *rand.Rand
	dict  *Dict
	prop  string
	focus []string // commands of the property
	same  []string // commands on the same kind of value
	kind  string
	keys  []string
	vals  []string
	big   bool
}

var allCmds []string

func init() {
	for c := range minArgs {
		allCmds = append(allCmds, c)
	}
	sort.Strings(allCmds)
}

func newGen(prop string, seed int64, d *Dict) *gen {
	g := &gen{rng: rand.New(rand.NewSource(seed)), dict: d, prop: prop}
	g.focus = families[prop]
	kind := ""
	for k, ps := range kindOf {
		for _, p := range ps {
			if p == prop {
				kind = k
			}
		}
	}
	if kind == "" { // cross-cutting property: a kind per history
		ks := []string{"list", "string", "hash", "set", "zset", ""}
		kind = ks[g.rng.Intn(len(ks))]
	}
	g.kind = kind
	for _, p := range kindOf[kind] {
		g.same = append(g.same, families[p]...)
	}
	if kind == "" {
		g.same = allCmds
	}
	if len(g.focus) == 0 {
		g.focus = g.same
	}
	g.keys = []string{"k1", "k2", "k3", "k4"}[:1+g.rng.Intn(4)]
	if g.rng.Intn(4) == 0 {
		g.keys = append(g.keys, g.anyStr())
	}
	if prop == "C15" {
		g.keys = append(g.keys, "k5", "5k", "")
	}
	n := 1 + g.rng.Intn(6)
	if g.rng.Intn(8) == 0 {
		n = 40
	}
	for i := 0; i < n; i++ {
		if i < 5 && g.rng.Intn(3) > 0 {
			g.vals = append(g.vals, string(rune('a'+i)))
		} else {
			g.vals = append(g.vals, g.anyStr())
		}
	}
	g.big = g.rng.Intn(12) == 0
	return g
}

var oddStrs = []string{"", "a", "b", "c", "aa", "ab", "b\r\nc", "\x00", "x\x00y", "10", "-1", "0", "1", "007", "1e3", "+5", "-0", "1.50", "1.5", "3.0", "0x10", "inf", "-inf", "+inf", "nan", "NaN", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "99999999999999999999", " 1", "1 ", "é", "\xff\xfe", "withscores", "XX", "before", "hello world", "(1", "1_000", "1e400", "0.1", "A", "*", "k*", "[", "[a", "k?", "a-very-long-string-with-many-bytes-in-it-so-that-lengths-have-several-digits-0123456789-0123456789-0123456789-0123456789"}

func (g *gen) anyStr() string {
	switch g.rng.Intn(6) {
	case 0:
		if len(g.dict.Strs) > 0 {
			return string(g.dict.Strs[g.rng.Intn(len(g.dict.Strs))])
		}
	case 1:
		return strconv.FormatInt(g.anyInt(), 10)
	case 2:
		b := make([]byte, g.rng.Intn(4))
		for i := range b {
			b[i] = byte(g.rng.Intn(256))
		}
		return string(b)
	case 3:
		return strconv.Itoa(g.rng.Intn(30))
	}
	return oddStrs[g.rng.Intn(len(oddStrs))]
}

func (g *gen) anyInt() int64 {
	switch g.rng.Intn(8) {
	case 0:
		x := []int64{math.MaxInt64, math.MinInt64, math.MinInt64 + 1, math.MaxInt64 - 1, 1 << 32, -1 << 32, 1<<31 - 1, -1 << 31, 1 << 62}
		return x[g.rng.Intn(len(x))]
	case 1:
		if len(g.dict.Ints) > 0 {
			return g.dict.Ints[g.rng.Intn(len(g.dict.Ints))] + int64(g.rng.Intn(3)) - 1
		}
	}
	return int64(g.rng.Intn(13)) - 6
}

func (g *gen) key() string { return g.keys[g.rng.Intn(len(g.keys))] }

func (g *gen) val() string {
	if g.rng.Intn(15) == 0 {
		return g.anyStr()
	}
	return g.vals[g.rng.Intn(len(g.vals))]
}

func (g *gen) vmany() []string {
	n := 1 + g.rng.Intn(3)
	if g.big && g.rng.Intn(3) == 0 {
		n = g.bigN()
		out := []string{}
		for i := 0; i < n; i++ {
			out = append(out, strconv.Itoa(g.rng.Intn(n)))
		}
		return out
	}
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, g.val())
	}
	return out
}

func (g *gen) bigN() int {
	if len(g.dict.Ints) > 0 && g.rng.Intn(3) == 0 {
		x := g.dict.Ints[g.rng.Intn(len(g.dict.Ints))]
		if x > 3 && x <= 5000 {
			return int(x) + g.rng.Intn(4) - 1
		}
	}
	return 10 + g.rng.Intn(120)
}

func (g *gen) intArg(n int) string {
	switch g.rng.Intn(14) {
	case 4, 5:
		return g.edge(n)
	case 0:
		return strconv.FormatInt(g.anyInt(), 10)
	case 1:
		if g.rng.Intn(3) == 0 {
			return g.anyStr()
		}
	case 2:
		return strconv.Itoa(n + g.rng.Intn(3) - 1)
	case 3:
		return strconv.Itoa(-n + g.rng.Intn(3) - 1)
	}
	if n > 0 && g.rng.Intn(2) == 0 {
		return strconv.Itoa(g.rng.Intn(2*n+1) - n)
	}
	return strconv.Itoa(g.rng.Intn(9) - 4)
}

// edge is a position at or next to an end of n elements.
func (g *gen) edge(n int) string {
	return strconv.Itoa([]int{n, n, n - 1, n + 1, -n, -n - 1, -n + 1, 0, -1, 2 * n}[g.rng.Intn(10)])
}

func (g *gen) score() string {
	switch g.rng.Intn(14) {
	case 0:
		x := []string{"inf", "-inf", "+inf", "1e308", "-1e308", "1e-300", "0.1", "0.2", "-0", "nan", "9007199254740993", "1e400", "0x1p4"}
		return x[g.rng.Intn(len(x))]
	case 1:
		return g.anyStr()
	case 2, 3:
		return strconv.FormatFloat(float64(g.rng.Intn(20)-10)/2, 'g', -1, 64)
	}
	return strconv.Itoa(g.rng.Intn(7) - 2)
}

func (g *gen) bound(m *model, key string) string {
	s := ""
	if g.rng.Intn(3) == 0 {
		s = "("
	}
	v := m.db[key]
	switch g.rng.Intn(10) {
	case 0:
		return s + "-inf"
	case 1:
		return s + "+inf"
	case 2:
		return s + g.score()
	case 3, 4, 5, 6:
		if v != nil && len(v.zset) > 0 {
			ms := v.sorted()
			f := ms[g.rng.Intn(len(ms))].f
			if g.rng.Intn(4) == 0 {
				f += float64(g.rng.Intn(3)-1) / 2
			}
			return s + ff(f)
		}
	case 7:
		return strings.ToUpper(s + "-Inf")
	}
	return s + strconv.FormatFloat(float64(g.rng.Intn(16)-5)/2, 'g', -1, 64)
}

// member picks an existing element of key with good probability.
func (g *gen) member(m *model, key string) string {
	v := m.db[key]
	if v == nil || g.rng.Intn(5) == 0 {
		return g.val()
	}
	var xs []string
	switch v.kind {
	case "list":
		xs = v.list
	case "set":
		xs = sortedKeys(v.set)
	case "hash":
		for k := range v.hash {
			xs = append(xs, k)
		}
		sort.Strings(xs)
	case "zset":
		for _, x := range v.sorted() {
			xs = append(xs, x.s)
		}
	}
	if len(xs) == 0 {
		return g.val()
	}
	return xs[g.rng.Intn(len(xs))]
}

func (g *gen) size(m *model, key string) int {
	v := m.db[key]
	if v == nil {
		return 0
	}
	return len(v.list) + len(v.set) + len(v.hash) + len(v.zset)
}

func (g *gen) pickKey(m *model, cmd string) string {
	// prefer keys of the right kind, but name wrong kinds too
	k := g.key()
	for i := 0; i < 3; i++ {
		kd := m.kind(k)
		if kd == "" || g.rng.Intn(8) == 0 {
			return k
		}
		if f := famKind(cmd); f == "" || f == kd {
			return k
		}
		if g.prop == "C14" {
			return k
		}
		k = g.key()
	}
	return k
}

func famKind(cmd string) string {
	for k, ps := range kindOf {
		for _, p := range ps {
			for _, c := range families[p] {
				if c == cmd {
					return k
				}
			}
		}
	}
	return ""
}

func (g *gen) next(m *model) []B {
	var cmd string
	switch x := g.rng.Intn(20); {
	case x < 10:
		cmd = g.focus[g.rng.Intn(len(g.focus))]
	case x < 15:
		cmd = g.same[g.rng.Intn(len(g.same))]
	case x < 17:
		// building commands
		b := map[string][]string{"list": {"rpush", "lpush"}, "set": {"sadd"}, "hash": {"hset"}, "zset": {"zadd"}, "string": {"set"}, "": {"set", "rpush", "sadd", "hset", "zadd"}}[g.kind]
		cmd = b[g.rng.Intn(len(b))]
	case x < 18:
		b := []string{"exists", "type", "del", "keys"}
		cmd = b[g.rng.Intn(len(b))]
	default:
		cmd = allCmds[g.rng.Intn(len(allCmds))]
	}
	if g.prop != "C16" && g.prop != "C15" && g.prop != "C20" && cmd == "del" && g.rng.Intn(2) == 0 {
		cmd = g.focus[g.rng.Intn(len(g.focus))]
	}
	return g.build(m, cmd)
}

func (g *gen) build(m *model, cmd string) []B {
	k := g.pickKey(m, cmd)
	n := g.size(m, k)
	a := []string{k}
	r := g.rng
	switch cmd {
	case "set":
		a = append(a, g.val())
	case "get", "incr", "decr", "llen", "scard", "smembers", "hlen", "hkeys", "hvals", "hgetall", "zcard", "exists", "del", "type":
	case "mset":
		a = nil
		for i := r.Intn(3); i >= 0; i-- {
			a = append(a, g.key(), g.val())
		}
		if r.Intn(10) == 0 {
			a = append(a, g.key())
		}
	case "mget":
		for i := r.Intn(4); i > 0; i-- {
			a = append(a, g.key())
		}
	case "append":
		a = append(a, g.val())
	case "incrby", "decrby":
		a = append(a, g.intArg(0))
		if r.Intn(4) == 0 {
			a[1] = strconv.FormatInt(g.anyInt(), 10)
		}
	case "lpush", "rpush", "sadd":
		a = append(a, g.vmany()...)
	case "lpop", "rpop":
		if r.Intn(2) == 0 {
			a = append(a, g.intArg(n))
		}
	case "lrange", "zrange", "zrevrange":
		a = append(a, g.intArg(n), g.intArg(n))
		if r.Intn(3) == 0 {
			a[1], a[2] = "0", "-1"
		}
		if cmd != "lrange" {
			if r.Intn(2) == 0 {
				a = append(a, []string{"withscores", "WITHSCORES", "WithScores"}[r.Intn(3)])
			}
			if cmd == "zrange" && (r.Intn(4) == 0 || (g.prop == "C12" && r.Intn(2) == 0)) {
				a[1], a[2] = g.bound(m, k), g.bound(m, k)
				a = append(a, []string{"byscore", "BYSCORE"}[r.Intn(2)])
			}
		}
	case "lindex":
		a = append(a, g.intArg(n))
	case "lset":
		a = append(a, g.intArg(n), g.val())
	case "linsert":
		a = append(a, []string{"before", "after", "BEFORE", "After", "x"}[r.Intn(20)*5/20], g.member(m, k), g.val())
	case "lrem":
		a = append(a, g.intArg(n), g.member(m, k))
	case "hset", "hmset":
		for i := r.Intn(3); i >= 0; i-- {
			a = append(a, g.val(), g.val())
		}
		if g.big && r.Intn(3) == 0 {
			for _, x := range g.vmany() {
				a = append(a, x, g.val())
			}
		}
		if r.Intn(12) == 0 {
			a = a[:len(a)-1]
		}
	case "hsetnx":
		a = append(a, g.member(m, k), g.val())
	case "hget", "hexists", "hdel", "sismember", "zscore", "zrank":
		a = append(a, g.member(m, k))
	case "hmget", "srem", "zrem":
		for i := r.Intn(3); i >= 0; i-- {
			a = append(a, g.member(m, k))
		}
	case "hincrby":
		a = append(a, g.member(m, k), g.intArg(0))
		if r.Intn(4) == 0 {
			a[2] = strconv.FormatInt(g.anyInt(), 10)
		}
	case "hincrbyfloat":
		a = append(a, g.member(m, k), g.score())
	case "spop":
		if r.Intn(2) == 0 {
			a = append(a, g.intArg(n))
		}
	case "smove":
		a = append(a, g.key(), g.member(m, k))
	case "sdiff", "sinter", "sunion", "sdiffstore", "sinterstore", "sunionstore":
		for i := r.Intn(3); i >= 0; i-- {
			a = append(a, g.pickKey(m, cmd))
		}
		if !strings.HasSuffix(cmd, "store") {
			a = a[1:]
		} else if r.Intn(3) == 0 {
			a[0] = a[1]
		}
	case "zadd":
		for r.Intn(5) == 0 {
			a = append(a, []string{"xx", "nx", "incr", "XX", "Nx"}[r.Intn(5)])
		}
		for i := r.Intn(3); i >= 0; i-- {
			x := g.val()
			if r.Intn(2) == 0 {
				x = g.member(m, k)
			}
			a = append(a, g.score(), x)
		}
		if g.big && r.Intn(2) == 0 {
			for _, x := range g.vmany() {
				a = append(a, g.score(), x)
			}
		}
		if r.Intn(20) == 0 {
			a = append(a, g.score())
		}
	case "zincr":
		a = append(a, g.score(), g.member(m, k))
	case "zcount", "zrangebyscore":
		a = append(a, g.bound(m, k), g.bound(m, k))
	case "zpopmin", "zpopmax":
		if r.Intn(2) == 0 {
			a = append(a, g.intArg(n))
		}
	case "keys":
		a = []string{[]string{"*", "k*", "k?", "k1", "*1", "[", "k[12]", "[^k]*", "?", "\\*", "{k1,k2}", "k[", "a{b"}[r.Intn(13)]}
		if r.Intn(3) > 0 {
			a[0] = "*"
		}
		if r.Intn(6) == 0 {
			a[0] = g.anyStr()
		}
	case "ping", "command":
		a = nil
	}
	drop := 60
	if g.prop == "C20" {
		drop = 8
	}
	if r.Intn(drop) == 0 && len(a) > 0 {
		a = a[:r.Intn(len(a))]
	}
	if r.Intn(drop) == 0 && cmd != "set" && cmd != "hsetnx" && cmd != "hdel" && cmd != "zadd" {
		a = append(a, g.anyStr())
	}
	if r.Intn(10) == 0 {
		cmd = mixCase(r, cmd)
	}
	if r.Intn(60) == 0 {
		cmd = []string{"foo", "", "get ", "hsetx", "zincrby", "\x00", "ſet", "GET\r\n"}[r.Intn(8)]
	}
	st := []B{B(cmd)}
	for _, x := range a {
		st = append(st, B(x))
	}
	return st
}

func mixCase(r *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if r.Intn(2) == 0 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

func bs(xs ...string) []B {
	var out []B
	for _, x := range xs {
		out = append(out, B(x))
	}
	return out
}

// dump lists commands that observe the whole content of a key.
func (g *gen) dump(m *model, k string, destructive bool) (out [][]B) {
	v := m.db[k]
	add := func(xs ...string) { out = append(out, bs(xs...)) }
	add("exists", k)
	add("type", k)
	if v == nil {
		switch g.rng.Intn(5) {
		case 0:
			add("get", k)
		case 1:
			add("lrange", k, "0", "-1")
		case 2:
			add("smembers", k)
		case 3:
			add("hlen", k)
		case 4:
			add("zcard", k)
		}
		return
	}
	switch v.kind {
	case "string":
		add("get", k)
	case "list":
		add("llen", k)
		add("lrange", k, "0", "-1")
		n := len(v.list)
		for i := 0; i < 3; i++ {
			add("lrange", k, g.edge(n), g.edge(n))
			add("lindex", k, g.edge(n))
		}
		for i := 0; i < n; i++ {
			if n <= 12 || g.rng.Intn(n) < 12 {
				add("lindex", k, strconv.Itoa(i))
				if i < 3 {
					add("lindex", k, strconv.Itoa(-i-1))
				}
			}
		}
		if destructive {
			if g.rng.Intn(2) == 0 {
				add("rpop", k, strconv.Itoa(n))
			} else {
				for i := 0; i < n && i < 10; i++ {
					add([]string{"lpop", "rpop"}[g.rng.Intn(2)], k)
				}
			}
		}
	case "set":
		add("scard", k)
		add("smembers", k)
		for i, x := range sortedKeys(v.set) {
			if i < 6 {
				add("sismember", k, x)
			}
		}
		add("sismember", k, g.val())
		if destructive {
			add("spop", k, strconv.Itoa(len(v.set)))
		}
	case "hash":
		add("hlen", k)
		add("hgetall", k)
		add("hkeys", k)
		add("hvals", k)
		i := 0
		for f := range v.hash {
			if i++; i < 6 {
				add("hget", k, f)
				add("hexists", k, f)
			}
		}
		add("hget", k, g.val())
		add("hexists", k, g.val())
	case "zset":
		add("zcard", k)
		add("zrange", k, "0", "-1", "withscores")
		add("zrevrange", k, "0", "-1", "withscores")
		for i, x := range v.sorted() {
			if i < 8 || g.rng.Intn(len(v.zset)) < 8 {
				add("zrank", k, x.s)
				add("zscore", k, x.s)
			}
			if i < 8 || g.rng.Intn(len(v.zset)) < 8 {
				add("zrange", k, strconv.Itoa(i), strconv.Itoa(i))
				add("zrevrange", k, strconv.Itoa(i), strconv.Itoa(i))
			}
		}
		for i := 0; i < 3; i++ {
			add("zrange", k, g.edge(len(v.zset)), g.edge(len(v.zset)))
			add("zrevrange", k, g.edge(len(v.zset)), g.edge(len(v.zset)))
		}
		for i := 0; i < 4; i++ {
			lo, hi := g.bound(m, k), g.bound(m, k)
			add("zcount", k, lo, hi)
			add("zrangebyscore", k, lo, hi)
		}
		add("zscore", k, g.val())
		if destructive {
			if g.rng.Intn(2) == 0 {
				add([]string{"zpopmin", "zpopmax"}[g.rng.Intn(2)], k, strconv.Itoa(len(v.zset)))
			} else {
				for i := 0; i < len(v.zset) && i < 10; i++ {
					add([]string{"zpopmin", "zpopmax"}[g.rng.Intn(2)], k)
				}
			}
		}
	}
	return
}

// probes: one history per command name that tells the commands apart.
func probes(r *rand.Rand) []*History {
	mk := func(steps ...[]B) *History { return &History{RSeed: 1, Steps: steps} }
	s := func(line string) []B {
		f := strings.Fields(line)
		f[0] = mixCase(r, f[0])
		for i := range f {
			if f[i] == "''" {
				f[i] = ""
			}
		}
		return bs(f...)
	}
	h := func(text string) *History {
		var st [][]B
		for _, l := range strings.Split(text, ";") {
			st = append(st, s(strings.TrimSpace(l)))
		}
		return mk(st...)
	}
	return []*History{
		h("ping; command; ping x; PING"),
		h("set a 1; get a; append a 2; get a; incr a; get a; decr a; incrby a 10; decrby a 3; get a; mset a x b y; mget a b c; get b"),
		h("set a 1; exists a; exists b; type a; type b; keys *; del a; del a; exists a; keys *"),
		h("rpush l a b c; lpush l z y; llen l; lrange l 0 -1; lindex l 1; lset l 1 q; linsert l before b n; linsert l after b m; lrange l 0 -1; lpop l; rpop l; lrem l 1 a; lrange l 0 -1; type l"),
		h("hset h f 1 g x; hmset h i 5; hsetnx h f 9; hsetnx h j 7; hget h f; hmget h f g zz; hexists h f; hexists h q; hlen h; hkeys h; hvals h; hgetall h; hincrby h f 5; hincrbyfloat h k 1.5; hincrbyfloat h k 1.25; hdel h f; hget h f; type h"),
		h("sadd s a b c; sadd t b c d; scard s; sismember s a; sismember s d; smembers s; sdiff s t; sinter s t; sunion s t; sdiffstore u s t; smembers u; sinterstore u s t; smembers u; sunionstore u s t; smembers u; smove s t a; smembers s; smembers t; srem t a b; smembers t; spop s 1; scard s; type s"),
		h("zadd z 1 a 2 b 3 c 4 d; zscore z b; zrank z c; zcard z; zcount z 2 3; zincr z 5 a; zrange z 0 -1 withscores; zrevrange z 0 1; zrangebyscore z 3 4; zrem z b; zpopmin z; zpopmax z; zrange z 0 -1; type z"),
		h("nosuch a b; get a; zincrby z 1 a; exists z; getx a; se a b; exists a"),
		h("foo; ''; get ''; set '' v; get ''"),
	}
}
