package main

// Reference semantics of the commands: the executable form of the contracts in
// /verif/contracts.  It is used only to turn a failed proof obligation into a
// concrete failing input on the real code (replay), and for the bounded
// stand-ins; it never decides that a property holds.

import (
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"github.com/yusank/glob"
)

// Rep is a RESP reply, decoded from real bytes or expected by the model.
type Rep struct {
	K    byte // '+', '-', ':', '$' (bulk), 'n' (nil bulk), '*' (array)
	S    string
	Arr  []Rep
	Any  byte // model only: 's' unordered array, 'p' unordered pairs, 'P' spop
	N    int  // model only: SPOP count
	From map[string]bool
}

func rInt(n int64) Rep      { return Rep{K: ':', S: strconv.FormatInt(n, 10)} }
func rBulk(s string) Rep    { return Rep{K: '$', S: s} }
func rNil() Rep             { return Rep{K: 'n'} }
func rErr() Rep             { return Rep{K: '-'} }
func rSimple(s string) Rep  { return Rep{K: '+', S: s} }
func rArr(items ...Rep) Rep { return Rep{K: '*', Arr: items} }
func rStrs(ss []string) Rep {
	r := Rep{K: '*'}
	for _, s := range ss {
		r.Arr = append(r.Arr, rBulk(s))
	}
	return r
}

type member struct {
	s string
	f float64
}

type value struct {
	kind string // string list set hash zset
	str  string
	list []string
	set  map[string]bool
	hash map[string]interface{} // string, int64, float64
	zset map[string]float64
}

func (v *value) sorted() []member {
	var ms []member
	for s, f := range v.zset {
		ms = append(ms, member{s, f})
	}
	sort.Slice(ms, func(i, j int) bool {
		if ms[i].f != ms[j].f {
			return ms[i].f < ms[j].f
		}
		return ms[i].s < ms[j].s
	})
	return ms
}

type model struct{ db map[string]*value }

func newModel() *model { return &model{db: map[string]*value{}} }

var typeName = map[string]string{"string": "string", "list": "list", "set": "set", "hash": "hashTable", "zset": "sortedSet"}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func hstr(v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case int64:
		return strconv.FormatInt(x, 10)
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	}
	return "?"
}

// hconv: an int64/float64 field is one whose text is the canonical rendering.
func hconv(s string) interface{} {
	if i, err := strconv.ParseInt(s, 10, 64); err == nil && strconv.FormatInt(i, 10) == s {
		return i
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil && strconv.FormatFloat(f, 'g', -1, 64) == s {
		return f
	}
	return s
}

func ff(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

func (m *model) kind(k string) string {
	if v, ok := m.db[k]; ok {
		return v.kind
	}
	return ""
}

func (m *model) dropEmpty(k string) {
	v := m.db[k]
	if v == nil {
		return
	}
	if (v.kind == "list" && len(v.list) == 0) || (v.kind == "set" && len(v.set) == 0) ||
		(v.kind == "hash" && len(v.hash) == 0) || (v.kind == "zset" && len(v.zset) == 0) {
		delete(m.db, k)
	}
}

func parseBound(s string) (f float64, open bool, ok bool) {
	s = strings.ToLower(s)
	if strings.HasPrefix(s, "(") {
		open = true
		s = s[1:]
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(f) {
		return 0, false, false
	}
	return f, open, true
}

func clampRange(start, stop, n int) (int, int, bool) {
	bs, be := big.NewInt(int64(start)), big.NewInt(int64(stop))
	bn := big.NewInt(int64(n))
	if start < 0 {
		bs.Add(bs, bn)
	}
	if stop < 0 {
		be.Add(be, bn)
	}
	if bs.Sign() < 0 {
		bs.SetInt64(0)
	}
	if be.Cmp(bn) >= 0 {
		be.SetInt64(int64(n - 1))
	}
	if bs.Cmp(be) > 0 || bs.Cmp(bn) >= 0 {
		return 0, 0, false
	}
	return int(bs.Int64()), int(be.Int64()), true
}

// want describes what the model expects of one step.
type want struct {
	rep       Rep
	wrongKind bool // a key of the wrong kind was named
	fewArgs   bool // too few arguments
	skip      bool // outside the specified behaviour: do not execute
	targets   []string
}

var minArgs = map[string]int{
	"set": 2, "get": 1, "mset": 2, "mget": 1, "append": 2, "incr": 1, "decr": 1, "incrby": 2, "decrby": 2,
	"lpush": 2, "rpush": 2, "lpop": 1, "rpop": 1, "llen": 1, "lrange": 3, "lindex": 2, "lset": 3, "linsert": 4, "lrem": 3,
	"hset": 3, "hmset": 3, "hsetnx": 3, "hget": 2, "hmget": 2, "hdel": 2, "hexists": 2, "hlen": 1, "hkeys": 1, "hvals": 1, "hgetall": 1, "hincrby": 3, "hincrbyfloat": 3,
	"sadd": 2, "srem": 2, "scard": 1, "sismember": 2, "smembers": 1, "spop": 1, "smove": 3, "sdiff": 1, "sinter": 1, "sunion": 1, "sdiffstore": 2, "sinterstore": 2, "sunionstore": 2,
	"zadd": 3, "zscore": 2, "zrank": 2, "zrem": 2, "zcard": 1, "zcount": 3, "zincr": 3, "zrange": 3, "zrangebyscore": 3, "zrevrange": 3, "zpopmin": 1, "zpopmax": 1,
	"exists": 1, "del": 1, "type": 1, "keys": 1, "ping": 0, "command": 0,
}

func isInt(s string) bool { _, err := strconv.Atoi(s); return err == nil }

// step executes one command on the model and returns the expected reply.
func (m *model) step(cmd string, a []string) (w want) {
	cmd = strings.ToLower(cmd)
	min, known := minArgs[cmd]
	if !known {
		w.rep = rErr()
		return
	}
	if len(a) < min {
		w.rep, w.fewArgs = rErr(), true
		return
	}
	wrong := func(k, kind string) bool {
		if x := m.kind(k); x != "" && x != kind {
			w.rep, w.wrongKind = rErr(), true
			return true
		}
		return false
	}
	get := func(k, kind string) *value {
		v := m.db[k]
		if v == nil {
			v = &value{kind: kind, set: map[string]bool{}, hash: map[string]interface{}{}, zset: map[string]float64{}}
		}
		return v
	}
	key := ""
	if len(a) > 0 {
		key = a[0]
	}
	w.targets = []string{key}
	v := m.db[key]
	switch cmd {
	case "ping":
		w.targets = nil
		w.rep = rSimple("PONG")
	case "command":
		w.targets = nil
		w.rep = rSimple("COMMAND")
	case "set":
		if len(a) != 2 {
			w.skip = true
			return
		}
		m.db[key] = &value{kind: "string", str: a[1]}
		w.rep = rSimple("OK")
	case "mset":
		if len(a)%2 != 0 {
			w.rep, w.fewArgs = rErr(), true
			return
		}
		w.targets = nil
		for i := 0; i+1 < len(a); i += 2 {
			w.targets = append(w.targets, a[i])
			m.db[a[i]] = &value{kind: "string", str: a[i+1]}
		}
		w.rep = rSimple("OK")
	case "get":
		w.targets = nil
		if wrong(key, "string") {
			return
		}
		if v == nil {
			w.rep = rNil()
		} else {
			w.rep = rBulk(v.str)
		}
	case "mget":
		w.targets = nil
		r := Rep{K: '*'}
		for _, k := range a {
			x := m.db[k]
			if x != nil && x.kind == "string" {
				r.Arr = append(r.Arr, rBulk(x.str))
			} else {
				if x != nil {
					w.wrongKind = true
				}
				r.Arr = append(r.Arr, rNil())
			}
		}
		w.rep = r
	case "append":
		if wrong(key, "string") {
			return
		}
		x := get(key, "string")
		x.str += a[1]
		m.db[key] = x
		w.rep = rInt(int64(len(x.str)))
	case "incr", "decr", "incrby", "decrby":
		d := big.NewInt(1)
		if cmd == "incrby" || cmd == "decrby" {
			i, err := strconv.ParseInt(a[1], 10, 64)
			if err != nil {
				w.rep = rErr()
				if x := m.kind(key); x != "" && x != "string" {
					w.wrongKind = true
				}
				return
			}
			if cmd == "decrby" && i == math.MinInt64 {
				w.rep = rErr()
				if x := m.kind(key); x != "" && x != "string" {
					w.wrongKind = true
				}
				return
			}
			d.SetInt64(i)
		}
		if cmd == "decr" || cmd == "decrby" {
			d.Neg(d)
		}
		if wrong(key, "string") {
			return
		}
		cur := big.NewInt(0)
		if v != nil {
			i, err := strconv.ParseInt(v.str, 10, 64)
			if err != nil {
				w.rep = rErr()
				return
			}
			cur.SetInt64(i)
		}
		cur.Add(cur, d)
		if !cur.IsInt64() {
			w.rep = rErr()
			return
		}
		m.db[key] = &value{kind: "string", str: cur.String()}
		w.rep = rInt(cur.Int64())
	case "exists":
		w.targets = nil
		w.rep = rInt(0)
		if v != nil {
			w.rep = rInt(1)
		}
	case "type":
		w.targets = nil
		w.rep = rSimple("none")
		if v != nil {
			w.rep = rSimple(typeName[v.kind])
		}
	case "del":
		w.rep = rInt(0)
		if v != nil {
			w.rep = rInt(1)
			delete(m.db, key)
		}
	case "keys":
		w.targets = nil
		g, err := glob.Compile(a[0])
		if err != nil {
			w.rep = rErr()
			return
		}
		var ks []string
		for k := range m.db {
			if g.Match(k) {
				ks = append(ks, k)
			}
		}
		w.rep = rStrs(ks)
		w.rep.Any = 's'

	case "lpush", "rpush":
		if wrong(key, "list") {
			return
		}
		x := get(key, "list")
		for _, s := range a[1:] {
			if cmd == "lpush" {
				x.list = append([]string{s}, x.list...)
			} else {
				x.list = append(x.list, s)
			}
		}
		m.db[key] = x
		w.rep = rInt(int64(len(x.list)))
	case "lpop", "rpop":
		cnt := 1
		if len(a) > 1 {
			c, err := strconv.Atoi(a[1])
			if err != nil || c <= 0 {
				w.rep = rErr()
				return
			}
			cnt = c
		}
		if wrong(key, "list") {
			return
		}
		if v == nil {
			w.rep = rNil()
			return
		}
		var out []string
		for ; cnt > 0 && len(v.list) > 0; cnt-- {
			if cmd == "lpop" {
				out = append(out, v.list[0])
				v.list = v.list[1:]
			} else {
				out = append(out, v.list[len(v.list)-1])
				v.list = v.list[:len(v.list)-1]
			}
		}
		m.dropEmpty(key)
		w.rep = rStrs(out)
	case "llen":
		w.targets = nil
		if wrong(key, "list") {
			return
		}
		w.rep = rInt(0)
		if v != nil {
			w.rep = rInt(int64(len(v.list)))
		}
	case "lrange":
		w.targets = nil
		s, e1 := strconv.Atoi(a[1])
		e, e2 := strconv.Atoi(a[2])
		if e1 != nil || e2 != nil {
			w.rep = rErr()
			return
		}
		if wrong(key, "list") {
			return
		}
		w.rep = rArr()
		if v != nil {
			if lo, hi, ok := clampRange(s, e, len(v.list)); ok {
				w.rep = rStrs(v.list[lo : hi+1])
			}
		}
	case "lindex", "lset":
		i, err := strconv.Atoi(a[1])
		if err != nil {
			w.rep = rErr()
			return
		}
		if cmd == "lindex" {
			w.targets = nil
		}
		if wrong(key, "list") {
			return
		}
		if v != nil && i < 0 {
			i += len(v.list)
		}
		ok := v != nil && i >= 0 && i < len(v.list)
		switch {
		case cmd == "lindex" && ok:
			w.rep = rBulk(v.list[i])
		case cmd == "lindex":
			w.rep = rNil()
		case ok:
			nl := append([]string{}, v.list...)
			nl[i] = a[2]
			v.list = nl
			w.rep = rSimple("OK")
		default:
			w.rep = rErr()
		}
	case "linsert":
		d := 0
		switch strings.ToLower(a[1]) {
		case "after":
			d = 1
		case "before":
		default:
			w.rep = rErr()
			return
		}
		if wrong(key, "list") {
			return
		}
		if v != nil {
			for i, s := range v.list {
				if s == a[2] {
					nl := append([]string{}, v.list[:i+d]...)
					nl = append(nl, a[3])
					v.list = append(nl, v.list[i+d:]...)
					w.rep = rInt(int64(len(v.list)))
					return
				}
			}
		}
		w.rep = rErr()
	case "lrem":
		c, err := strconv.Atoi(a[1])
		if err != nil {
			w.rep = rErr()
			return
		}
		if wrong(key, "list") {
			return
		}
		if v == nil {
			w.rep = rInt(0)
			return
		}
		lim := new(big.Int).Abs(big.NewInt(int64(c)))
		if c == 0 {
			lim.SetInt64(int64(len(v.list)))
		}
		drop := map[int]bool{}
		for j := range v.list {
			i := j
			if c < 0 {
				i = len(v.list) - 1 - j
			}
			if v.list[i] == a[2] && lim.Sign() > 0 {
				drop[i] = true
				lim.Sub(lim, big.NewInt(1))
			}
		}
		var nl []string
		for i, s := range v.list {
			if !drop[i] {
				nl = append(nl, s)
			}
		}
		v.list = nl
		m.dropEmpty(key)
		w.rep = rInt(int64(len(drop)))

	case "hset", "hmset", "hsetnx":
		if cmd != "hsetnx" && len(a)%2 != 1 {
			w.rep, w.fewArgs = rErr(), true
			return
		}
		if cmd == "hsetnx" && len(a) != 3 {
			w.skip = true
			return
		}
		if wrong(key, "hash") {
			return
		}
		x := get(key, "hash")
		n := 0
		for i := 1; i+1 < len(a); i += 2 {
			if _, ok := x.hash[a[i]]; cmd == "hsetnx" && ok {
				continue
			}
			x.hash[a[i]] = hconv(a[i+1])
			n++
		}
		m.db[key] = x
		w.rep = rInt(int64(n))
		if cmd == "hmset" {
			w.rep = rSimple("OK")
		}
	case "hget":
		w.targets = nil
		if wrong(key, "hash") {
			return
		}
		w.rep = rNil()
		if v != nil {
			if x, ok := v.hash[a[1]]; ok {
				w.rep = rBulk(hstr(x))
			}
		}
	case "hmget":
		w.targets = nil
		if wrong(key, "hash") {
			return
		}
		r := Rep{K: '*'}
		for _, f := range a[1:] {
			it := rNil()
			if v != nil {
				if x, ok := v.hash[f]; ok {
					it = rBulk(hstr(x))
				}
			}
			r.Arr = append(r.Arr, it)
		}
		w.rep = r
	case "hexists", "hdel":
		if cmd == "hexists" {
			w.targets = nil
		} else if len(a) != 2 {
			w.skip = true
			return
		}
		if wrong(key, "hash") {
			return
		}
		w.rep = rInt(0)
		if v != nil {
			if _, ok := v.hash[a[1]]; ok {
				w.rep = rInt(1)
				if cmd == "hdel" {
					delete(v.hash, a[1])
					m.dropEmpty(key)
				}
			}
		}
	case "hlen":
		w.targets = nil
		if wrong(key, "hash") {
			return
		}
		w.rep = rInt(0)
		if v != nil {
			w.rep = rInt(int64(len(v.hash)))
		}
	case "hkeys", "hvals":
		w.targets = nil
		if wrong(key, "hash") {
			return
		}
		w.rep = rArr()
		if v != nil {
			for f, x := range v.hash {
				if cmd == "hkeys" {
					w.rep.Arr = append(w.rep.Arr, rBulk(f))
				} else {
					w.rep.Arr = append(w.rep.Arr, rBulk(hstr(x)))
				}
			}
			w.rep.Any = 's'
		}
	case "hgetall":
		w.targets = nil
		if wrong(key, "hash") {
			return
		}
		if v == nil {
			w.rep = rNil()
			return
		}
		w.rep = rArr()
		for f, x := range v.hash {
			w.rep.Arr = append(w.rep.Arr, rBulk(f), rBulk(hstr(x)))
		}
		w.rep.Any = 'p'
	case "hincrby":
		d, err := strconv.ParseInt(a[2], 10, 64)
		if err != nil {
			w.rep = rErr()
			if x := m.kind(key); x != "" && x != "hash" {
				w.wrongKind = true
			}
			return
		}
		if wrong(key, "hash") {
			return
		}
		x := get(key, "hash")
		cur := big.NewInt(0)
		if f, ok := x.hash[a[1]]; ok {
			i, isI := f.(int64)
			if !isI {
				w.rep = rErr()
				return
			}
			cur.SetInt64(i)
		}
		cur.Add(cur, big.NewInt(d))
		if !cur.IsInt64() {
			w.rep = rErr()
			return
		}
		x.hash[a[1]] = cur.Int64()
		m.db[key] = x
		w.rep = rInt(cur.Int64())
	case "hincrbyfloat":
		d, err := strconv.ParseFloat(a[2], 64)
		if err != nil {
			w.rep = rErr()
			if x := m.kind(key); x != "" && x != "hash" {
				w.wrongKind = true
			}
			return
		}
		if wrong(key, "hash") {
			return
		}
		x := get(key, "hash")
		cur := d
		if f, ok := x.hash[a[1]]; ok {
			i, isF := f.(float64)
			if !isF {
				w.rep = rErr()
				return
			}
			cur = i + d
		}
		x.hash[a[1]] = cur
		m.db[key] = x
		w.rep = rBulk(ff(cur))

	case "sadd":
		if wrong(key, "set") {
			return
		}
		x := get(key, "set")
		n := 0
		for _, s := range a[1:] {
			if !x.set[s] {
				x.set[s] = true
				n++
			}
		}
		m.db[key] = x
		w.rep = rInt(int64(n))
	case "srem":
		if wrong(key, "set") {
			return
		}
		n := 0
		if v != nil {
			for _, s := range a[1:] {
				if v.set[s] {
					delete(v.set, s)
					n++
				}
			}
			m.dropEmpty(key)
		}
		w.rep = rInt(int64(n))
	case "scard":
		w.targets = nil
		if wrong(key, "set") {
			return
		}
		w.rep = rInt(0)
		if v != nil {
			w.rep = rInt(int64(len(v.set)))
		}
	case "sismember":
		w.targets = nil
		if wrong(key, "set") {
			return
		}
		w.rep = rInt(0)
		if v != nil && v.set[a[1]] {
			w.rep = rInt(1)
		}
	case "smembers":
		w.targets = nil
		if wrong(key, "set") {
			return
		}
		w.rep = rArr()
		if v != nil {
			w.rep = rStrs(sortedKeys(v.set))
			w.rep.Any = 's'
		}
	case "spop":
		cnt := 1
		if len(a) > 1 {
			c, err := strconv.Atoi(a[1])
			if err != nil {
				w.rep = rErr()
				if x := m.kind(key); x != "" && x != "set" {
					w.wrongKind = true
				}
				return
			}
			cnt = c
		}
		if wrong(key, "set") {
			return
		}
		if v == nil || cnt <= 0 {
			w.rep = rArr()
			return
		}
		if cnt > len(v.set) {
			cnt = len(v.set)
		}
		w.rep = Rep{K: '*', Any: 'P', N: cnt, From: v.set}
	case "smove":
		w.targets = []string{a[0], a[1]}
		if wrong(a[0], "set") || wrong(a[1], "set") {
			return
		}
		w.rep = rInt(0)
		if v != nil && v.set[a[2]] {
			w.rep = rInt(1)
			if a[0] != a[1] {
				delete(v.set, a[2])
				m.dropEmpty(a[0])
				x := get(a[1], "set")
				x.set[a[2]] = true
				m.db[a[1]] = x
			}
		}
	case "sdiff", "sinter", "sunion", "sdiffstore", "sinterstore", "sunionstore":
		ks := a
		store := strings.HasSuffix(cmd, "store")
		w.targets = nil
		if store {
			ks = a[1:]
			w.targets = []string{key}
		}
		for _, k := range ks {
			if wrong(k, "set") {
				return
			}
		}
		res := map[string]bool{}
		for i, k := range ks {
			s := get(k, "set").set
			switch {
			case i == 0 || strings.HasPrefix(cmd, "sunion"):
				for x := range s {
					res[x] = true
				}
			case strings.HasPrefix(cmd, "sdiff"):
				for x := range s {
					delete(res, x)
				}
			default:
				for x := range res {
					if !s[x] {
						delete(res, x)
					}
				}
			}
		}
		if store {
			delete(m.db, key)
			if len(res) > 0 {
				m.db[key] = &value{kind: "set", set: res}
			}
			w.rep = rInt(int64(len(res)))
			return
		}
		w.rep = rStrs(sortedKeys(res))
		w.rep.Any = 's'

	case "zadd":
		nx, xx, inc := false, false, false
		var ms []member
		i := 1
		for i < len(a)-1 {
			switch strings.ToLower(a[i]) {
			case "nx":
				nx = true
				i++
			case "xx":
				xx = true
				i++
			case "incr":
				inc = true
				i++
			default:
				f, err := strconv.ParseFloat(a[i], 64)
				if err != nil || math.IsNaN(f) {
					w.rep = rErr()
					if x := m.kind(key); x != "" && x != "zset" {
						w.wrongKind = true
					}
					return
				}
				ms = append(ms, member{a[i+1], f})
				i += 2
			}
		}
		if i != len(a) || len(ms) == 0 {
			w.rep, w.fewArgs = rErr(), true
			return
		}
		if wrong(key, "zset") {
			return
		}
		x := get(key, "zset")
		n := 0
		for _, mb := range ms {
			old, ok := x.zset[mb.s]
			if (ok && nx) || (!ok && xx) {
				continue
			}
			f := mb.f
			if ok && inc {
				f += old
			}
			if math.IsNaN(f) || (ok && f == old) {
				continue
			}
			x.zset[mb.s] = f
			n++
		}
		m.db[key] = x
		m.dropEmpty(key)
		w.rep = rInt(int64(n))
	case "zincr":
		d, err := strconv.ParseFloat(a[1], 64)
		if err != nil || math.IsNaN(d) {
			w.rep = rErr()
			if x := m.kind(key); x != "" && x != "zset" {
				w.wrongKind = true
			}
			return
		}
		if wrong(key, "zset") {
			return
		}
		x := get(key, "zset")
		old, ok := x.zset[a[2]]
		f := d
		if ok {
			f = old + d
		}
		if math.IsNaN(f) {
			w.rep = rErr()
			return
		}
		if !ok || f != old {
			x.zset[a[2]] = f
		}
		m.db[key] = x
		w.rep = rBulk(ff(x.zset[a[2]]))
	case "zscore":
		w.targets = nil
		if wrong(key, "zset") {
			return
		}
		w.rep = rNil()
		if v != nil {
			if f, ok := v.zset[a[1]]; ok {
				w.rep = rBulk(ff(f))
			}
		}
	case "zrank":
		w.targets = nil
		if wrong(key, "zset") {
			return
		}
		w.rep = rNil()
		if v != nil {
			for i, mb := range v.sorted() {
				if mb.s == a[1] {
					w.rep = rInt(int64(i))
				}
			}
		}
	case "zrem":
		if wrong(key, "zset") {
			return
		}
		n := 0
		if v != nil {
			for _, s := range a[1:] {
				if _, ok := v.zset[s]; ok {
					delete(v.zset, s)
					n++
				}
			}
			m.dropEmpty(key)
		}
		w.rep = rInt(int64(n))
	case "zcard":
		w.targets = nil
		if wrong(key, "zset") {
			return
		}
		w.rep = rInt(0)
		if v != nil {
			w.rep = rInt(int64(len(v.zset)))
		}
	case "zcount", "zrangebyscore":
		w.targets = nil
		if wrong(key, "zset") {
			return
		}
		if cmd == "zcount" {
			w.rep = rInt(0)
		} else {
			w.rep = rNil()
		}
		if v == nil {
			return
		}
		out, ok := v.byScore(a[1], a[2], false)
		if !ok {
			w.rep = rErr()
			return
		}
		w.rep = rStrs(out)
		if cmd == "zcount" {
			w.rep = rInt(int64(len(out)))
		}
	case "zrange", "zrevrange":
		w.targets = nil
		if wrong(key, "zset") {
			return
		}
		w.rep = rNil()
		if v == nil {
			return
		}
		ws, by := false, false
		for _, o := range a[2:] {
			switch strings.ToLower(o) {
			case "withscores":
				ws = true
			case "byscore":
				by = cmd == "zrange"
			}
		}
		if by {
			out, ok := v.byScore(a[1], a[2], ws)
			w.rep = rStrs(out)
			if !ok {
				w.rep = rErr()
			}
			return
		}
		s, e1 := strconv.Atoi(a[1])
		e, e2 := strconv.Atoi(a[2])
		if e1 != nil || e2 != nil {
			w.rep = rErr()
			return
		}
		ms := v.sorted()
		if cmd == "zrevrange" {
			for i, j := 0, len(ms)-1; i < j; i, j = i+1, j-1 {
				ms[i], ms[j] = ms[j], ms[i]
			}
		}
		w.rep = rArr()
		if lo, hi, ok := clampRange(s, e, len(ms)); ok {
			for _, mb := range ms[lo : hi+1] {
				w.rep.Arr = append(w.rep.Arr, rBulk(mb.s))
				if ws {
					w.rep.Arr = append(w.rep.Arr, rBulk(ff(mb.f)))
				}
			}
		}
	case "zpopmin", "zpopmax":
		cnt := 1
		if len(a) > 1 {
			c, err := strconv.Atoi(a[1])
			if err != nil {
				w.rep = rErr()
				if x := m.kind(key); x != "" && x != "zset" {
					w.wrongKind = true
				}
				return
			}
			cnt = c
		}
		if wrong(key, "zset") {
			return
		}
		w.rep = rArr()
		if v == nil {
			return
		}
		ms := v.sorted()
		for i := 0; i < cnt && i < len(ms); i++ {
			mb := ms[i]
			if cmd == "zpopmax" {
				mb = ms[len(ms)-1-i]
			}
			w.rep.Arr = append(w.rep.Arr, rBulk(mb.s), rBulk(ff(mb.f)))
			delete(v.zset, mb.s)
		}
		m.dropEmpty(key)
	}
	return
}

func (v *value) byScore(mins, maxs string, ws bool) ([]string, bool) {
	lo, lop, ok1 := parseBound(mins)
	hi, hop, ok2 := parseBound(maxs)
	if !ok1 || !ok2 {
		return nil, false
	}
	var out []string
	for _, mb := range v.sorted() {
		if (mb.f > lo || (mb.f == lo && !lop)) && (mb.f < hi || (mb.f == hi && !hop)) {
			out = append(out, mb.s)
			if ws {
				out = append(out, ff(mb.f))
			}
		}
	}
	return out, true
}
