package main

import (
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/panjf2000/gnet"
	"github.com/panjf2000/gnet/pkg/pool/goroutine"

	v2 "github.com/yusank/godis/server/v2"
)

// NCase is a number of connections, each sending whole requests one by one, each in a frame of
// its own, and waiting for the reply; the frame's memory is used again as soon as React returned.
type NCase struct {
	Conns int   `json:"conns"`
	Ops   int   `json:"ops"`
	Seed  int64 `json:"seed"`
}

func genNet(r *rand.Rand) *NCase {
	return &NCase{1 + r.Intn(8), 1 + r.Intn(60), r.Int63()}
}

// fakeConn stands in for gnet's connection: what it is given is sent a little later.
type fakeConn struct {
	gnet.Conn
	mu    sync.Mutex
	ctx   interface{}
	sent  chan []byte
	delay time.Duration
	shut  bool
}

func (c *fakeConn) Context() interface{}          { return c.ctx }
func (c *fakeConn) SetContext(x interface{})      { c.ctx = x }
func (c *fakeConn) LocalAddr() net.Addr           { return &net.TCPAddr{} }
func (c *fakeConn) RemoteAddr() net.Addr          { return &net.TCPAddr{} }
func (c *fakeConn) Read() []byte                  { return nil }
func (c *fakeConn) ResetBuffer()                  {}
func (c *fakeConn) ReadN(n int) (int, []byte)     { return 0, nil }
func (c *fakeConn) ShiftN(n int) int              { return 0 }
func (c *fakeConn) BufferLength() int             { return 0 }
func (c *fakeConn) SendTo(b []byte) error         { return nil }
func (c *fakeConn) Wake() error                   { return nil }
func (c *fakeConn) Close() error                  { c.shut = true; return nil }
func (c *fakeConn) AsyncWritev(bs [][]byte) error { return c.AsyncWrite(cat(bs)) }
func (c *fakeConn) AsyncWrite(b []byte) error {
	go func() {
		time.Sleep(c.delay)
		c.sent <- append([]byte{}, b...)
	}()
	return nil
}

func cat(bs [][]byte) (out []byte) {
	for _, b := range bs {
		out = append(out, b...)
	}
	return
}

func frameOf(args []string) []byte {
	var b strings.Builder
	fmt.Fprintf(&b, "*%d\r\n", len(args))
	for _, a := range args {
		fmt.Fprintf(&b, "$%d\r\n%s\r\n", len(a), a)
	}
	return []byte(b.String())
}

var (
	netOnce sync.Once
	netSrv  *v2.Server
)

func (c *NCase) run() *Verdict {
	netOnce.Do(func() {
		log.SetOutput(io.Discard)
		netSrv = v2.NewServer(goroutine.Default())
	})
	v, late := c.once()
	if late { // a reply that did not come in time counts only when it happens twice
		if v, late = c.once(); late {
			return v
		}
	}
	return v
}

func (c *NCase) once() (bad *Verdict, late bool) {
	var mu sync.Mutex
	say := func(cmd, got, want string, timeout bool) {
		mu.Lock()
		defer mu.Unlock()
		if bad == nil {
			bad = &Verdict{Cmd: cmd, Got: got, Want: want, Why: "replies on a connection", Flags: []string{"C24"}}
			late = timeout
		}
	}
	stop := func() bool { mu.Lock(); defer mu.Unlock(); return bad != nil }
	top := rand.New(rand.NewSource(c.Seed))
	var wg sync.WaitGroup
	for i := 0; i < c.Conns; i++ {
		wg.Add(1)
		seed := top.Int63()
		go func(i int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			k := fmt.Sprint("net", i)
			fc := &fakeConn{sent: make(chan []byte, 64), delay: time.Duration(r.Intn(3)) * time.Millisecond}
			big := make([]byte, 1<<16)
			val, n := "", 0
			send := func(args []string, want string) {
				f := frameOf(args)
				off := r.Intn(100)
				if off+len(f) > len(big) {
					big = make([]byte, 2*(off+len(f)))
				}
				copy(big[off:], f)
				full := big[off : off+len(f)]
				if r.Intn(2) == 0 {
					full = big[off : off+len(f) : off+len(f)]
				}
				out, act := netSrv.React(full, fc)
				out = append([]byte{}, out...)
				for j := range big[:off+len(f)+1] { // the memory is used again
					big[j] = "$*:+-\r\n0123456789getsxq"[(j+n)%23]
				}
				if act != gnet.None {
					say(args[0], fmt.Sprint("action ", act), "the connection stays open", false)
				}
				if len(out) == 0 {
					select {
					case out = <-fc.sent:
					case <-time.After(5 * time.Second):
						say(args[0], "no reply", want, true)
						return
					}
				}
				if string(out) != want {
					say(short(args), clip(string(out)), clip(want), strings.Contains(string(out), "deadline exceeded"))
				}
				if fc.shut {
					say(args[0], "closed", "the connection stays open", false)
				}
			}
			send([]string{"del", k}, ":0\r\n")
			for n = 0; n < c.Ops && !stop(); n++ {
				switch r.Intn(8) {
				case 0, 1, 2:
					val = fmt.Sprint(i, ":", n, ":") + strings.Repeat([]string{"x", "\r\n", "\x00", "*3\r\n$3\r\n"}[r.Intn(4)], r.Intn(20))
					if r.Intn(12) == 0 {
						val += strings.Repeat("y", r.Intn(100000))
					}
					send([]string{"SET", k, val}, "+OK\r\n")
				case 3:
					if val != "" {
						send([]string{"append", k, "z"}, fmt.Sprintf(":%d\r\n", len(val)+1))
						val += "z"
					}
				case 4:
					send([]string{"exists", k}, fmt.Sprintf(":%d\r\n", b2i(val != "")))
				case 5:
					if r.Intn(4) == 0 { // not a request at all, on a connection of its own
						x := &fakeConn{sent: make(chan []byte, 64)}
						m := []string{"", "\r\n", "*", "*2\r\n$3\r\nget", "hello", "$5\r\nab", "*-1\r\n", "*1\r\n:5\r\n", "*2\r\n$-1\r\n"}
						netSrv.React([]byte(m[r.Intn(len(m))]), x)
					}
				default:
					want := "$-1\r\n"
					if val != "" {
						want = fmt.Sprintf("$%d\r\n%s\r\n", len(val), val)
					}
					send([]string{"get", k}, want)
				}
			}
			if !stop() {
				send([]string{"del", k}, fmt.Sprintf(":%d\r\n", b2i(val != "")))
				time.Sleep(5 * time.Millisecond)
				select {
				case b := <-fc.sent:
					if len(b) > 0 {
						say("del", "one reply more: "+clip(string(b)), "one reply to each request", false)
					}
				default:
				}
			}
		}(i)
	}
	wg.Wait()
	if bad != nil {
		for i := 0; i < c.Conns; i++ {
			ask("del", fmt.Sprint("net", i))
		}
	}
	return
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func clip(s string) string {
	if len(s) > 80 {
		s = s[:80] + "..."
	}
	return fmt.Sprintf("%q", s)
}

func short(args []string) string { return clip(strings.Join(args, " ")) }

// known shows the open findings of C24 on the real code.
func known() map[string]string {
	log.SetOutput(io.Discard)
	srv := v2.NewServer(goroutine.Default())
	got := func(fc *fakeConn, n int) (out []string) {
		for i := 0; i < n; i++ {
			select {
			case b := <-fc.sent:
				out = append(out, string(b))
			case <-time.After(2 * time.Second):
				return
			}
		}
		return
	}
	conn := func() *fakeConn { return &fakeConn{sent: make(chan []byte, 64)} }
	send := func(fc *fakeConn, f []byte) {
		if out, _ := srv.React(f, fc); len(out) > 0 {
			fc.sent <- append([]byte{}, out...)
		}
	}
	res := map[string]string{}
	fc := conn()
	a, b := frameOf([]string{"exists", "net:a"}), frameOf([]string{"append", "net:b", "x"})
	send(fc, append(append([]byte{}, a...), b...))
	res["coalesced"] = fmt.Sprintf("one frame with EXISTS net:a and APPEND net:b x: replies %q", got(fc, 2))
	fc = conn()
	send(fc, b[:9])
	send(fc, b[9:])
	res["split"] = fmt.Sprintf("frames %q and %q: replies %q", b[:9], b[9:], got(fc, 1))
	v := strings.Repeat("y", 1<<21)
	for i := 0; i < 40; i++ {
		fc = conn()
		ask("del", "net:c")
		send(fc, frameOf([]string{"set", "net:c", v}))
		send(fc, frameOf([]string{"exists", "net:c"}))
		out := got(fc, 2)
		res["order"] = fmt.Sprintf("frames SET net:c (2 MiB) and EXISTS net:c: replies %q (try %d)", out, i+1)
		if len(out) == 2 && out[0] == ":0\r\n" {
			break
		}
	}
	return res
}
