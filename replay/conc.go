package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/yusank/godis/event"
	"github.com/yusank/godis/protocol"
)

// CCase is a number of clients sending requests at the same time, each waiting for its replies.
type CCase struct {
	Kind    string `json:"kind"`
	Clients int    `json:"clients"`
	Ops     int    `json:"ops"`
	Seed    int64  `json:"seed"`
}

var cKinds = []string{"incr", "push", "pop", "append", "sadd", "hincr", "mset", "own", "big", "mixed"}

func genConc(r *rand.Rand) *CCase {
	return &CCase{cKinds[r.Intn(len(cKinds))], 2 + r.Intn(12), 20 + r.Intn(400), r.Int63()}
}

// set when a request was answered with the time limit's error: nothing more is asked then
var gaveUp atomic.Bool

// ask sends one request the way a connection does.
func ask(args ...string) (Rep, string) {
	if gaveUp.Load() {
		return Rep{}, "not asked"
	}
	b := event.HandleRequest(&protocol.Receive{Elements: append([]string{}, args...)})
	rep, rest, ok := parseRep(b)
	if rep.K == '-' && strings.Contains(rep.S, "deadline exceeded") {
		gaveUp.Store(true)
	}
	if !ok || len(rest) != 0 {
		return rep, strconv.Quote(string(b))
	}
	return rep, ""
}

// run runs the workload; a reply that did not come in time counts only when it happens twice.
func (c *CCase) run() *Verdict {
	v := c.once()
	if gaveUp.Swap(false) {
		if v = c.once(); gaveUp.Swap(false) {
			return &Verdict{Cmd: c.Kind, Got: "no reply within the time limit, twice", Want: "a reply", Why: "concurrent replies", Flags: []string{"C23"}}
		}
	}
	return v
}

type cop struct {
	client, i  int
	start, end int64
	val        int64
}

func (c *CCase) once() *Verdict {
	clean := func() {
		for _, k := range []string{"ck", "cl", "ch", "cs", "cz", "m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7"} {
			ask("del", k)
		}
	}
	clean()
	defer clean()
	var mu sync.Mutex
	var bad *Verdict
	say := func(cmd, got, want string) {
		mu.Lock()
		if bad == nil {
			bad = &Verdict{Cmd: cmd, Got: got, Want: want, Why: "concurrent replies", Flags: []string{"C23"}}
		}
		mu.Unlock()
	}
	var clock int64
	var all []cop
	num := func(cl, i int, args ...string) (int64, bool) {
		t0 := atomic.AddInt64(&clock, 1)
		r, why := ask(args...)
		t1 := atomic.AddInt64(&clock, 1)
		n, err := strconv.ParseInt(r.S, 10, 64)
		if why != "" || r.K != ':' || err != nil {
			say(args[0], r.String()+why, "an integer")
			return 0, false
		}
		mu.Lock()
		all = append(all, cop{cl, i, t0, t1, n})
		mu.Unlock()
		return n, true
	}
	per := func(f func(cl int)) {
		var wg sync.WaitGroup
		start := make(chan bool)
		for cl := 0; cl < c.Clients; cl++ {
			wg.Add(1)
			go func(cl int) {
				defer wg.Done()
				<-start
				f(cl)
			}(cl)
		}
		close(start)
		wg.Wait()
	}
	total := int64(c.Clients * c.Ops)
	// every step once, in an order that agrees with the times of sending and receiving
	ordered := func(cmd string) {
		seen := map[int64]bool{}
		for _, o := range all {
			if o.val < 1 || o.val > total || seen[o.val] {
				say(cmd, fmt.Sprintf("reply %d twice or out of range", o.val), fmt.Sprintf("each of 1..%d once", total))
				return
			}
			seen[o.val] = true
		}
		byVal := make([]cop, total+1)
		for _, o := range all {
			byVal[o.val] = o
		}
		var last int64
		for v := total; v >= 1; v-- { // a later value may not have been received before an earlier one was sent
			o := byVal[v]
			if v < total && o.start > last {
				say(cmd, fmt.Sprintf("the request answered %d was sent after a larger answer had come", v), "one order that agrees with the replies")
				return
			}
			if v == total || o.end < last {
				last = o.end
			}
		}
	}
	final := func(want string, args ...string) {
		if r, why := ask(args...); why != "" || r.S != want {
			say(args[0], r.String()+why, want)
		}
	}
	switch c.Kind {
	case "incr":
		per(func(cl int) {
			for i := 0; i < c.Ops; i++ {
				num(cl, i, "incr", "ck")
			}
		})
		ordered("incr")
		final(fmt.Sprint(total), "get", "ck")
	case "append":
		per(func(cl int) {
			for i := 0; i < c.Ops; i++ {
				num(cl, i, "append", "ck", "x")
			}
		})
		ordered("append")
		final(strings.Repeat("x", int(total)), "get", "ck")
	case "hincr":
		per(func(cl int) {
			for i := 0; i < c.Ops; i++ {
				num(cl, i, "hincrby", "ch", "f", "1")
			}
		})
		ordered("hincrby")
		final(fmt.Sprint(total), "hget", "ch", "f")
	case "push":
		per(func(cl int) {
			for i := 0; i < c.Ops; i++ {
				num(cl, i, "rpush", "cl", fmt.Sprintf("%d:%d", cl, i))
			}
		})
		ordered("rpush")
		r, _ := ask("lrange", "cl", "0", "-1")
		next := map[string]int{}
		for _, x := range r.Arr {
			p := strings.SplitN(x.S, ":", 2)
			if len(p) != 2 || p[1] != strconv.Itoa(next[p[0]]) {
				say("lrange", x.String(), "every client's elements in its order")
				break
			}
			next[p[0]]++
		}
		if int64(len(r.Arr)) != total {
			say("lrange", fmt.Sprint(len(r.Arr), " elements"), fmt.Sprint(total, " elements"))
		}
	case "pop":
		args := []string{"rpush", "cl"}
		for i := int64(0); i < total; i++ {
			args = append(args, fmt.Sprint("e", i))
		}
		ask(args...)
		seen := map[string]bool{}
		per(func(cl int) {
			for i := 0; i < c.Ops; i++ {
				r, why := ask([]string{"lpop", "rpop"}[cl%2], "cl")
				if r.K == '*' && len(r.Arr) == 1 {
					r = r.Arr[0]
				}
				mu.Lock()
				dup := seen[r.S]
				seen[r.S] = true
				mu.Unlock()
				if why != "" || r.K != '$' || dup {
					say("lpop", r.String()+why, "an element nobody else got")
				}
			}
		})
		final("0", "exists", "cl")
	case "sadd":
		won := make([]int64, c.Ops)
		per(func(cl int) {
			for i := 0; i < c.Ops; i++ {
				if n, ok := num(cl, i, "sadd", "cs", fmt.Sprint("m", i)); ok {
					atomic.AddInt64(&won[i], n)
				}
			}
		})
		for i, n := range won {
			if n != 1 {
				say("sadd", fmt.Sprintf("member %d added %d times", i, n), "once")
			}
		}
		final(fmt.Sprint(c.Ops), "scard", "cs")
	case "mset":
		ks := []string{"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7"}
		per(func(cl int) {
			for i := 0; i < c.Ops; i++ {
				if cl%2 == 0 {
					a := []string{"mset"}
					for _, k := range ks {
						a = append(a, k, fmt.Sprintf("%d:%d", cl, i))
					}
					ask(a...)
					continue
				}
				r, why := ask(append([]string{"mget"}, ks...)...)
				for _, x := range r.Arr {
					if why != "" || repKey(x) != repKey(r.Arr[0]) {
						say("mget", r.String()+why, "values of one MSET")
						break
					}
				}
			}
		})
	case "own":
		per(func(cl int) {
			for i := 0; i < c.Ops; i++ {
				k, v := fmt.Sprint("own", cl), fmt.Sprintf("%d:%d", cl, i)
				if r, why := ask("SET", k, v); why != "" || r.S != "OK" {
					say("set", r.String()+why, "OK")
				}
				if r, why := ask("get", k); why != "" || r.S != v {
					say("get", r.String()+why, v)
				}
				if r, why := ask("nosuch", k); why != "" || r.K != '-' {
					say("nosuch", r.String()+why, "an error")
				}
			}
			ask("del", fmt.Sprint("own", cl))
		})
	case "big":
		var one []string
		for i := 0; i < 3000; i++ {
			one = append(one, fmt.Sprint(i))
		}
		per(func(cl int) {
			for i := 0; i < 1+c.Ops/40; i++ {
				if cl%2 == 0 {
					ask(append([]string{"rpush", "cl"}, one...)...)
					continue
				}
				for j := 0; j < 20; j++ {
					r, why := ask("llen", "cl")
					n, _ := strconv.Atoi(r.S)
					if why != "" || n%3000 != 0 {
						say("llen", r.String()+why, "a multiple of 3000")
					}
				}
			}
		})
	case "mixed":
		r := rand.New(rand.NewSource(c.Seed))
		seeds := make([]int64, c.Clients)
		for i := range seeds {
			seeds[i] = r.Int63()
		}
		per(func(cl int) {
			r := rand.New(rand.NewSource(seeds[cl]))
			for i := 0; i < c.Ops; i++ {
				m := fmt.Sprint("m", r.Intn(9))
				reqs := [][]string{{"zadd", "cz", fmt.Sprint(r.Intn(5)), m}, {"zrem", "cz", m}, {"zrange", "cz", "0", "-1"}, {"zpopmin", "cz"},
					{"sadd", "cs", m}, {"srem", "cs", m}, {"smembers", "cs"}, {"hset", "ch", m, m}, {"hdel", "ch", m}, {"hgetall", "ch"},
					{"lpush", "cl", m}, {"rpop", "cl"}, {"lrem", "cl", "0", m}, {"lrange", "cl", "0", "-1"}, {"del", []string{"cl", "cs", "ch", "cz"}[r.Intn(4)]}, {"keys", "*"}}
				q := reqs[r.Intn(len(reqs))]
				if rep, why := ask(q...); why != "" {
					say(q[0], rep.String()+why, "one reply")
				}
			}
		})
	}
	return bad
}
