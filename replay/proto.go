package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"runtime"
	"strconv"
	"strings"

	"github.com/yusank/godis/protocol"
)

func init() { log.SetOutput(io.Discard) }

// PCase is one protocol-level input.
type PCase struct {
	Kind   string `json:"kind"` // decode or encode
	Data   B      `json:"data,omitempty"`
	Chunks []int  `json:"chunks,omitempty"` // sizes of the reads the transport delivers, repeated
	Reader string `json:"reader,omitempty"` // bufio or buffer
	// encode
	Ctor  string  `json:"ctor,omitempty"`
	Items []PItem `json:"items,omitempty"`
	Array bool    `json:"array,omitempty"`
}

// PItem is one reply item.
type PItem struct {
	T string `json:"t"` // + - : $ n
	S B      `json:"s,omitempty"`
	I int64  `json:"i,omitempty"`
}

type chunkReader struct {
	data   []byte
	chunks []int
	i      int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := len(c.data)
	if len(c.chunks) > 0 {
		n = c.chunks[c.i%len(c.chunks)]
		c.i++
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.data) {
		n = len(c.data)
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	return n, nil
}

// oracle parses strictly. ambiguous inputs may be refused or accepted with els.
func oracle(data string) (els []string, used int, ok, ambiguous bool) {
	pos := 0
	items := 1
	ok = true
	first := true
	for items > 0 {
		items--
		i := strings.IndexByte(data[pos:], '\n')
		if i < 0 {
			return nil, 0, false, false
		}
		line := data[pos : pos+i+1]
		pos += i + 1
		if len(line) < 3 || line[len(line)-2] != '\r' {
			return nil, 0, false, false
		}
		body := line[1 : len(line)-2]
		switch line[0] {
		case '+', '-', ':':
			if strings.ContainsRune(body, '\r') {
				ambiguous = true
			}
			if line[0] == ':' {
				if _, err := strconv.ParseInt(body, 10, 64); err != nil {
					ambiguous = true
				}
			}
			els = append(els, body)
		case '$', '*':
			if body == "" {
				return nil, 0, false, false
			}
			for _, c := range []byte(body) {
				if c < '0' || c > '9' {
					return nil, 0, false, false
				}
			}
			if len(body) > 1 && body[0] == '0' {
				ambiguous = true
			}
			n, err := strconv.Atoi(body)
			if err != nil {
				return nil, 0, false, false
			}
			if line[0] == '*' {
				if n > 1<<20 {
					return nil, 0, false, false
				}
				if !first {
					ambiguous = true // nested arrays: flattened or refused
				}
				items += n
				break
			}
			if n > len(data) || pos+n+2 > len(data) || data[pos+n:pos+n+2] != "\r\n" {
				return nil, 0, false, false
			}
			els = append(els, data[pos:pos+n])
			pos += n + 2
		default:
			if line != "PING\r\n" {
				return nil, 0, false, false
			}
			if !first {
				ambiguous = true
			}
			els = append(els, "PING")
		}
		first = false
	}
	return els, pos, true, ambiguous
}

func (c *PCase) run() *Verdict {
	if c.Kind == "encode" {
		return c.runEncode()
	}
	data := string(c.Data)
	var rd protocol.Reader
	var left func() string
	if c.Reader == "buffer" {
		b := bytes.NewBuffer([]byte(data))
		rd = b
		left = func() string { return b.String() }
	} else {
		cr := &chunkReader{data: []byte(data), chunks: c.Chunks}
		br := bufio.NewReaderSize(cr, 16)
		rd = br
		left = func() string { x, _ := io.ReadAll(br); return string(x) }
	}
	v := func(got, want, why string, flags ...string) *Verdict {
		return &Verdict{Cmd: "decode", Got: got, Want: want, Why: why, Flags: flags}
	}
	rest := data
	for n := 0; ; n++ {
		els, used, ok, amb := oracle(rest)
		var m0, m1 runtime.MemStats
		measure := strings.Contains(rest, "000000") || strings.Contains(rest, "999999") || len(rest) > 0 && n == 0 && len(rest) < 40
		if measure {
			runtime.ReadMemStats(&m0)
		}
		rec, err := protocol.DecodeFromReader(rd)
		if measure {
			runtime.ReadMemStats(&m1)
			if d := m1.TotalAlloc - m0.TotalAlloc; d > uint64(1<<22+len(data)*(64+len(data))) {
				return v(fmt.Sprintf("%d bytes allocated", d), "memory in proportion to the bytes received", "memory", "C18")
			}
		}
		if !ok {
			if err == nil {
				return v(fmt.Sprintf("%q", rec.Elements), "an error", "accepted malformed input", "C18")
			}
			return nil
		}
		if err != nil {
			if amb {
				return nil
			}
			return v("error "+err.Error(), fmt.Sprintf("%q", els), "well-formed request refused", "C17")
		}
		same := len(els) == len(rec.Elements)
		for i := 0; same && i < len(els); i++ {
			same = els[i] == rec.Elements[i]
		}
		if !same {
			return v(fmt.Sprintf("%q", rec.Elements), fmt.Sprintf("%q", els), "wrong arguments", "C17")
		}
		rest = rest[used:]
		if len(rest) == 0 {
			if l := left(); l != "" {
				return v(fmt.Sprintf("%q left", l), "nothing left", "bytes consumed", "C17")
			}
			_, err := protocol.DecodeFromReader(rd)
			if err == nil || !errors.Is(err, io.EOF) && false {
				return v("no error", "EOF", "decode at end of input", "C18")
			}
			return nil
		}
		if n == 3 {
			if l := left(); l != rest {
				return v(fmt.Sprintf("%q left", l), fmt.Sprintf("%q left", rest), "bytes consumed", "C17")
			}
			return nil
		}
	}
}

func (c *PCase) runEncode() *Verdict {
	var rsp *protocol.Response
	want := ""
	one := func(it PItem) string {
		switch it.T {
		case "+", "-":
			return it.T + string(it.S) + "\r\n"
		case ":":
			return ":" + strconv.FormatInt(it.I, 10) + "\r\n"
		case "n":
			return "$-1\r\n"
		}
		return "$" + strconv.Itoa(len(it.S)) + "\r\n" + string(it.S) + "\r\n"
	}
	it := PItem{T: "$"}
	if len(c.Items) > 0 {
		it = c.Items[0]
	}
	array := c.Array
	switch c.Ctor {
	case "simple":
		it.T = "+"
		rsp = protocol.NewResponseWithSimpleString(string(it.S))
		want = one(it)
	case "bulk":
		it.T = "$"
		rsp = protocol.NewResponseWithBulkString(string(it.S))
		want = one(it)
	case "error":
		it.T = "-"
		rsp = protocol.NewResponseWithError(errors.New(string(it.S)))
		want = one(it)
	case "int":
		it.T = ":"
		rsp = protocol.NewResponseWithInteger(it.I)
		want = one(it)
	case "nil":
		rsp = protocol.NewResponseWithNilBulk()
		want = "$-1\r\n"
	case "empty":
		rsp = protocol.NewResponseWithEmptyArray()
		want = "*0\r\n"
	case "strings", "ifaces", "items":
		if array {
			rsp = protocol.NewResponse(true)
		} else {
			rsp = protocol.NewResponse()
		}
		switch c.Ctor {
		case "strings":
			var ss []string
			for _, x := range c.Items {
				ss = append(ss, string(x.S))
			}
			rsp = rsp.AppendBulkStrings(ss...)
		case "ifaces":
			var ss []interface{}
			for _, x := range c.Items {
				if x.T == "n" {
					ss = append(ss, nil)
				} else {
					ss = append(ss, string(x.S))
				}
			}
			rsp = rsp.AppendBulkInterfaces(ss...)
		default:
			for _, x := range c.Items {
				ri := &protocol.ResponseItem{}
				switch x.T {
				case "+":
					ri.Type, ri.Value = protocol.TypeSimpleStrings, string(x.S)
				case "-":
					ri.Type, ri.Value = protocol.TypeErrors, errors.New(string(x.S))
				case ":":
					ri.Type, ri.Value = protocol.TypeIntegers, x.I
				case "n":
					ri.Type = protocol.TypeBulkStrings
				default:
					ri.Type, ri.Value = protocol.TypeBulkStrings, string(x.S)
				}
				rsp.Items = append(rsp.Items, ri)
			}
		}
		switch {
		case len(c.Items) == 0 && array:
			want = "*0\r\n"
		case len(c.Items) == 0:
			want = "$-1\r\n"
		case !array:
			want = one(c.Items[0])
		default:
			want = "*" + strconv.Itoa(len(c.Items)) + "\r\n"
			for _, x := range c.Items {
				want += one(x)
			}
		}
	}
	got := string(rsp.Encode())
	if got != want {
		return &Verdict{Cmd: "encode", Got: strconv.Quote(got), Want: strconv.Quote(want), Why: "encoding", Flags: []string{"C19"}}
	}
	if got2 := string(rsp.Encode()); got2 != want {
		return &Verdict{Cmd: "encode", Got: strconv.Quote(got2), Want: strconv.Quote(want), Why: "second encoding", Flags: []string{"C19"}}
	}
	if c.Ctor == "strings" && array && len(c.Items) > 0 {
		rec, err := protocol.DecodeFromReader(bytes.NewBufferString(got))
		if err != nil {
			return &Verdict{Cmd: "decode", Got: err.Error(), Want: "the list back", Why: "round trip", Flags: []string{"C17"}}
		}
		for i, x := range c.Items {
			if i >= len(rec.Elements) || rec.Elements[i] != string(x.S) || len(rec.Elements) != len(c.Items) {
				return &Verdict{Cmd: "decode", Got: fmt.Sprintf("%q", rec.Elements), Want: "the list back", Why: "round trip", Flags: []string{"C17"}}
			}
		}
	}
	return nil
}

func genBytes(r *rand.Rand, d *Dict) string {
	switch r.Intn(7) {
	case 0:
		return oddStrs[r.Intn(len(oddStrs))]
	case 1:
		if len(d.Strs) > 0 {
			return string(d.Strs[r.Intn(len(d.Strs))])
		}
	case 2:
		n := r.Intn(300)
		if r.Intn(20) == 0 {
			n = r.Intn(20000)
		}
		if len(d.Ints) > 0 && r.Intn(2) == 0 {
			if x := d.Ints[r.Intn(len(d.Ints))]; x >= 0 && x < 200000 {
				n = int(x) + r.Intn(3)
			}
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = "ab\r\n$*\x00"[r.Intn(7)]
		}
		return string(b)
	}
	b := make([]byte, r.Intn(12))
	for i := range b {
		if r.Intn(2) == 0 {
			b[i] = "\r\n$*+-:0123456789"[r.Intn(17)]
		} else {
			b[i] = byte(r.Intn(256))
		}
	}
	return string(b)
}

func genReq(r *rand.Rand, d *Dict) string {
	n := r.Intn(5)
	if r.Intn(30) == 0 {
		n = r.Intn(150)
	}
	if r.Intn(10) == 0 {
		switch r.Intn(4) {
		case 0:
			return "PING\r\n"
		case 1:
			return "+" + strings.NewReplacer("\r", "", "\n", "").Replace(genBytes(r, d)) + "\r\n"
		case 2:
			return ":" + strconv.Itoa(r.Intn(1000)-500) + "\r\n"
		case 3:
			s := genBytes(r, d)
			return "$" + strconv.Itoa(len(s)) + "\r\n" + s + "\r\n"
		}
	}
	sb := "*" + strconv.Itoa(n) + "\r\n"
	for i := 0; i < n; i++ {
		s := genBytes(r, d)
		if r.Intn(25) == 0 {
			sb += []string{"+ok\r\n", ":12\r\n", "-ERR x\r\n"}[r.Intn(3)]
			continue
		}
		sb += "$" + strconv.Itoa(len(s)) + "\r\n" + s + "\r\n"
	}
	return sb
}

func genProto(r *rand.Rand, prop string, d *Dict) *PCase {
	if prop == "C19" || prop == "C17" && r.Intn(6) == 0 {
		c := &PCase{Kind: "encode"}
		c.Ctor = []string{"simple", "bulk", "error", "int", "nil", "empty", "strings", "strings", "ifaces", "ifaces", "items"}[r.Intn(11)]
		c.Array = r.Intn(3) > 0
		n := r.Intn(5)
		if r.Intn(20) == 0 {
			n = r.Intn(200)
		}
		clean := strings.NewReplacer("\r", "", "\n", "")
		for i := 0; i < n || (i == 0 && (c.Ctor == "simple" || c.Ctor == "bulk" || c.Ctor == "error" || c.Ctor == "int")); i++ {
			it := PItem{T: []string{"$", "$", "n", "+", "-", ":"}[r.Intn(6)], S: B(genBytes(r, d)), I: (&gen{rng: r, dict: d}).anyInt()}
			if r.Intn(3) == 0 {
				it.I = int64(r.Uint64())
			}
			if it.T == "+" || it.T == "-" || c.Ctor == "simple" || c.Ctor == "error" {
				it.S = B(clean.Replace(string(it.S)))
			}
			c.Items = append(c.Items, it)
		}
		if c.Ctor == "strings" {
			for i := range c.Items {
				c.Items[i].T = "$"
			}
		}
		if c.Ctor == "ifaces" {
			for i := range c.Items {
				if c.Items[i].T != "n" {
					c.Items[i].T = "$"
				}
			}
		}
		return c
	}
	c := &PCase{Kind: "decode", Reader: "bufio"}
	s := genReq(r, d)
	if r.Intn(3) == 0 {
		s += genReq(r, d)
	}
	if prop == "C18" || r.Intn(8) == 0 {
		s = mutate(r, s, d)
	}
	c.Data = B(s)
	switch r.Intn(4) {
	case 0:
		c.Reader = "buffer"
	case 1:
		c.Chunks = []int{1}
	case 2:
		c.Chunks = []int{1 + r.Intn(5), 1 + r.Intn(40), 1 + r.Intn(9)}
	}
	return c
}

func mutate(r *rand.Rand, s string, d *Dict) string {
	for k := r.Intn(3); k >= 0; k-- {
		if len(s) == 0 {
			return s
		}
		p := r.Intn(len(s))
		switch r.Intn(9) {
		case 0, 1:
			s = s[:p]
		case 2:
			s = s[:p] + s[p+1:]
		case 3:
			s = s[:p] + string("\r\n$*+-:019 aP"[r.Intn(13)]) + s[p:]
		case 4:
			b := []byte(s)
			b[p] = "\r\n$*+-:019 aP\x00\xff"[r.Intn(15)]
			s = string(b)
		case 5:
			// corrupt a length
			i := strings.LastIndexAny(s[:p+1], "$*")
			if i >= 0 {
				j := i + 1
				for j < len(s) && s[j] >= '0' && s[j] <= '9' {
					j++
				}
				x := []string{"-1", "-5", "", "9999999", "100000000000", "2147483648", "4294967296", "9223372036854775807", "9223372036854775805", "9223372036854775808", "18446744073709551616", "18446744073709551617", "1000000000", "1x", " 1", "+1", "0", "1", "2", "10", "99", "-0", "0x1", "1.0"}[r.Intn(24)]
				s = s[:i+1] + x + s[j:]
			}
		case 6:
			s = []string{"*1\r\n", "$", "*", "\r\n", "\n", "$-1\r\n", "*-1\r\n", "PING\r\n", "PING\n", "ping\r\n", "*1\r\n$1\r\nx", "*", "$1", "$\r\n", "*\r\n", "+\r\n", "+a\n", ":\n\n", "$1\n", "*1\n$1\r\na\r\n", "$5\nhello\r\n", "\r\r\n", "*2\r\n\n"}[r.Intn(23)]
			if r.Intn(2) == 0 {
				s += genReq(r, d)
			}
		case 7:
			if i := strings.Index(s, "\r\n"); i >= 0 && r.Intn(2) == 0 {
				s = s[:i] + s[i+1:]
			} else if i := strings.LastIndex(s, "\r\n"); i >= 0 {
				s = s[:i] + s[i+1:]
			}
		case 8:
			s = s[:p] + genReq(r, d) + s[p:]
		}
	}
	return s
}
