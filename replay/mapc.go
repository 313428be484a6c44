package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	smap "github.com/yusank/godis/lib/shard_map"
)

// MCase is a history of operations on the sharded map.
type MCase struct {
	Ops []MOp `json:"ops"`
}

// MOp is one map operation.
type MOp struct {
	Op string `json:"op"`
	K  B      `json:"k,omitempty"`
	V  int    `json:"v,omitempty"`
	F  int    `json:"f,omitempty"`
}

func genMap(r *rand.Rand, d *Dict) *MCase {
	var keys []string
	n := 1 + r.Intn(12)
	if r.Intn(4) == 0 {
		n = 100
	}
	g := &gen{rng: r, dict: d}
	for i := 0; i < n; i++ {
		switch r.Intn(4) {
		case 0:
			keys = append(keys, g.anyStr())
		case 1:
			b := make([]byte, r.Intn(3))
			for j := range b {
				b[j] = byte('a' + r.Intn(4))
			}
			keys = append(keys, string(b))
		case 2:
			// equal except for one place
			b := []byte("0123456789abcdef0123456789abcdef0123456789")[:r.Intn(42)]
			if len(b) > 0 {
				b[r.Intn(len(b))] = byte('A' + r.Intn(3))
			}
			keys = append(keys, string(b))
		default:
			keys = append(keys, fmt.Sprint("key", r.Intn(200)))
		}
	}
	if r.Intn(5) == 0 {
		// keys whose 32-bit FNV-1 hashes are equal
		keys = append(keys, collisions(r)...)
	}
	ops := []string{"get", "has", "set", "set", "set", "setifabsent", "deleteifexists", "loadanddelete", "delete", "range", "rangeanddelete", "upsert", "keys", "items"}
	c := &MCase{}
	for i := r.Intn(60); i >= 0; i-- {
		c.Ops = append(c.Ops, MOp{ops[r.Intn(len(ops))], B(keys[r.Intn(len(keys))]), r.Intn(1000), r.Intn(8)})
	}
	c.Ops = append(c.Ops, MOp{Op: "keys"}, MOp{Op: "items"}, MOp{Op: "range"})
	for _, k := range keys {
		c.Ops = append(c.Ops, MOp{Op: "get", K: B(k)}, MOp{Op: "has", K: B(k)})
	}
	return c
}

var collide [][]string

func collisions(r *rand.Rand) []string {
	if collide == nil {
		m := map[uint32]string{}
		rr := rand.New(rand.NewSource(7))
		for i := 0; i < 400000; i++ {
			b := make([]byte, 6)
			for j := range b {
				b[j] = byte('a' + rr.Intn(26))
			}
			h := uint32(2166136261)
			for _, c := range b {
				h = h*16777619 ^ uint32(c)
			}
			s := string(b)
			if o, ok := m[h]; ok && o != s {
				collide = append(collide, []string{o, s})
			}
			m[h] = s
		}
	}
	if len(collide) == 0 {
		return nil
	}
	return collide[r.Intn(len(collide))]
}

func dumpMap(m map[string]int) string {
	var ss []string
	for k, v := range m {
		ss = append(ss, fmt.Sprintf("%q:%d", k, v))
	}
	sort.Strings(ss)
	return strings.Join(ss, " ")
}

// mval turns a number into a map value of some dynamic type: nil and uncomparable values included.
func mval(v int) interface{} {
	switch v % 8 {
	case 0:
		return nil
	case 1:
		return []int{v}
	case 2:
		return strconv.Itoa(v)
	}
	return v
}

func norm(v int) int {
	if v%8 == 0 {
		return 0
	}
	return v
}

// val is the inverse of mval up to norm.
func val(x interface{}) int {
	switch n := x.(type) {
	case nil:
		return 0
	case int:
		return n
	case []int:
		return n[0]
	case string:
		k, _ := strconv.Atoi(n)
		return k
	}
	return -1
}

func (c *MCase) run() (v *Verdict) {
	m := smap.New()
	other := smap.New()
	ref := map[string]int{}
	for i, op := range c.Ops {
		k := string(op.K)
		old, had := ref[k]
		bad := func(got, want interface{}) *Verdict {
			return &Verdict{At: i, Cmd: op.Op + " " + fmt.Sprintf("%q", k), Got: fmt.Sprint(got), Want: fmt.Sprint(want), Why: "map", Flags: []string{"C22"}}
		}
		switch op.Op {
		case "get":
			x, ok := m.Get(k)
			if ok != had || had && val(x) != old || !had && x != nil {
				return bad(fmt.Sprint(x, ok), fmt.Sprint(old, had))
			}
		case "has":
			if ok := m.Has(k); ok != had {
				return bad(ok, had)
			}
		case "set":
			m.Set(k, mval(op.V))
			ref[k] = norm(op.V)
		case "setifabsent":
			if ok := m.SetIfAbsent(k, mval(op.V)); ok != !had {
				return bad(ok, !had)
			}
			if !had {
				ref[k] = norm(op.V)
			}
		case "deleteifexists":
			if ok := m.DeleteIfExists(k); ok != had {
				return bad(ok, had)
			}
			delete(ref, k)
		case "loadanddelete":
			x, ok := m.LoadAndDelete(k)
			if ok != had || had && val(x) != old || !had && x != nil {
				return bad(fmt.Sprint(x, ok), fmt.Sprint(old, had))
			}
			delete(ref, k)
		case "delete":
			m.Delete(k)
			delete(ref, k)
		case "upsert":
			var se bool
			var so, sn interface{}
			calls := 0
			ab := op.F%3 == 0
			res, abort := m.Upsert(k, mval(op.V), func(e bool, o, n interface{}) (interface{}, bool) {
				calls++
				se, so, sn = e, o, n
				return mval(op.V + 7), ab
			})
			if calls != 1 || se != had || had && val(so) != old || !had && so != nil || val(sn) != norm(op.V) || val(res) != norm(op.V+7) || abort != ab {
				return bad(fmt.Sprint(calls, se, so, sn, res, abort), fmt.Sprint(1, had, old, op.V, op.V+7, ab))
			}
			if !ab {
				ref[k] = norm(op.V + 7)
			}
		case "keys":
			ks := m.Keys()
			seen := map[string]int{}
			for _, x := range ks {
				seen[x]++
			}
			okk := len(ks) == len(ref)
			for x := range ref {
				okk = okk && seen[x] == 1
			}
			if !okk {
				sort.Strings(ks)
				return bad(fmt.Sprintf("%q", ks), dumpMap(ref))
			}
		case "items":
			it := m.Items()
			okk := len(it) == len(ref)
			for x, y := range ref {
				z, in := it[x]
				okk = okk && in && val(z) == y
			}
			if !okk {
				return bad(it, dumpMap(ref))
			}
			it["zzz-not-there"] = 1
			delete(it, k)
		case "range":
			stop := op.F - 1
			if op.F > 5 || op.K == "" {
				stop = -1
			}
			seen := map[string]int{}
			n := 0
			okk := true
			m.Range(func(x string, y interface{}) bool {
				n++
				seen[x]++
				if o, in := ref[x]; !in || o != val(y) || seen[x] > 1 {
					okk = false
				}
				return n != stop
			})
			want := len(ref)
			if stop > 0 && stop < want {
				want = stop
			}
			if !okk || n != want {
				return bad(fmt.Sprint(n, " visits ", seen), fmt.Sprint(want, " visits of ", dumpMap(ref)))
			}
		case "rangeanddelete":
			seen := map[string]int{}
			n := 0
			okk := true
			gone := []string{}
			m.RangeAndDelete(func(x string, y interface{}) (bool, bool) {
				n++
				seen[x]++
				if o, in := ref[x]; !in || o != val(y) || seen[x] > 1 {
					okk = false
				}
				del := (len(x)+op.F)%2 == 0
				if del {
					gone = append(gone, x)
				}
				return del, n != op.F
			})
			want := len(ref)
			if op.F > 0 && op.F < want {
				want = op.F
			}
			for _, x := range gone {
				delete(ref, x)
			}
			if !okk || n != want {
				return bad(fmt.Sprint(n, " visits ", seen), fmt.Sprint(want, " visits"))
			}
		}
		if len(other.Keys()) != 0 {
			return bad("another map changed", "independent maps")
		}
	}
	return nil
}
