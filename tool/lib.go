package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

// LibCall is a call of a function outside the repository, replaced by a model (an assumption of every proof that uses it).
type LibCall struct {
	x    *Exec
	fr   *Frame
	st   *State
	args []Val
	com  interface{}
	k    func(*Frame, *State, Val)
}

func (l *LibCall) ret(vs ...Val) {
	if len(vs) == 1 {
		l.k(l.fr, l.st, vs[0])
		return
	}
	l.k(l.fr, l.st, Val{tup: vs})
}

func (l *LibCall) t(i int) *T { return l.x.term(l.args[i]) }

// newError is a newly allocated error value.
func (x *Exec) newError(st *State) *T {
	r := x.newRef(st)
	return mk("iref", sIface, x.p.tid(errorStringType), r)
}

type libTerm struct {
	f  func([]*T) *T
	ty *SType
}

// libUF are the specification functions for values computed by library functions.
var libUF = map[string]libTerm{}

func ufOf(name, sort string) func([]*T) *T {
	return func(a []*T) *T { return UF(name, sort, a...) }
}

func fmtInt(i *T) *T {
	return UF("fmtI", sStr, i)
}

func parseIntOK(s *T) *T {
	if s.k == 's' {
		_, err := strconv.ParseInt(s.lit, 10, 64)
		return Bool(err == nil)
	}
	return UF("pi_ok", sBool, s)
}

func parseIntVal(s *T) *T {
	if s.k == 's' {
		if v, err := strconv.ParseInt(s.lit, 10, 64); err == nil {
			return Int(v)
		}
	}
	return UF("pi_val", sInt, s)
}

func lowerOf(s *T) *T {
	if s.k == 's' {
		return StrLit(strings.ToLower(s.lit))
	}
	if s.k == 'f' && s.op == "tolower" {
		return s
	}
	return UF("tolower", sStr, s)
}

func trimPrefix(st *State, s, p *T) *T {
	if s.k == 's' && p.k == 's' {
		return StrLit(strings.TrimPrefix(s.lit, p.lit))
	}
	if p.k == 's' {
		n := Int(int64(len(p.lit)))
		r := UF("ssub", sStr, s, n, strLen(s))
		if st != nil {
			st.assume(Imp(Le(n, strLen(s)), Eq(strLen(r), Sub(strLen(s), n))))
		}
		return Ite(hasPrefix(s, p), r, s)
	}
	r := UF("trimprefix", sStr, s, p)
	if st != nil {
		st.assume(Or(Eq(strLen(r), strLen(s)), Eq(strLen(r), Sub(strLen(s), strLen(p)))))
	}
	return r
}

// hasPrefix: the bytes of a literal prefix, one by one.
func hasPrefix(s, p *T) *T {
	if s.k == 's' && p.k == 's' {
		if strings.HasPrefix(s.lit, p.lit) {
			return tTrue
		}
		return tFalse
	}
	if p.k == 's' {
		cs := []*T{Le(Int(int64(len(p.lit))), strLen(s))}
		for i := range p.lit {
			cs = append(cs, Eq(Select(sbytes(s), Int(int64(i))), Int(int64(p.lit[i]))))
		}
		return And(cs...)
	}
	return UF("hasprefix", sBool, s, p)
}

func init() {
	libUF["parse_ok"] = libTerm{func(a []*T) *T { return parseIntOK(a[0]) }, stBool}
	libUF["parse_val"] = libTerm{func(a []*T) *T { return parseIntVal(a[0]) }, stInt}
	libUF["fmtint"] = libTerm{func(a []*T) *T { return fmtInt(a[0]) }, stStr}
	libUF["pfloat_ok"] = libTerm{ufOf("pf_ok", sBool), stBool}
	libUF["pfloat_val"] = libTerm{ufOf("pf_val", sF), stFloat}
	libUF["fmtfloat"] = libTerm{ufOf("fmtF", sStr), stStr}
	libUF["tolower"] = libTerm{func(a []*T) *T { return lowerOf(a[0]) }, stStr}
	libUF["hasprefix"] = libTerm{func(a []*T) *T { return hasPrefix(a[0], a[1]) }, stBool}
	libUF["trimprefix"] = libTerm{func(a []*T) *T { return trimPrefix(nil, a[0], a[1]) }, stStr}
	libUF["replaceall"] = libTerm{func(a []*T) *T { return replaceAll(nil, a[0], a[1], a[2]) }, stStr}
	libUF["contains"] = libTerm{func(a []*T) *T { return contains(a[0], a[1]) }, stBool}
	libUF["errmsg"] = libTerm{ufOf("errmsg", sStr), stStr}
	libUF["globok"] = libTerm{ufOf("globok", sBool), stBool}
	libUF["globmatch"] = libTerm{ufOf("globmatch", sBool), stBool}
	libUF["i2f"] = libTerm{ufOf("i2f", sF), stFloat}
	libUF["fadd"] = libTerm{ufOf("fadd", sF), stFloat}
	libUF["bstr"] = libTerm{func(a []*T) *T { return bstr(a[0], a[1], a[2]) }, stStr}
	libUF["sbytes"] = libTerm{func(a []*T) *T { return sbytes(a[0]) }, stInts}
	libUF["shift"] = libTerm{func(a []*T) *T { return shiftOf(a[0], a[1]) }, stInts}
	libUF["nl"] = libTerm{ufOf("nl", sInt), stInt}
	libUF["inf"] = libTerm{func(a []*T) *T {
		if a[0].k == 'i' && a[0].n.Sign() >= 0 {
			return fltConst("+Inf")
		}
		return fltConst("-Inf")
	}, stFloat}
	libUF["tidof"] = libTerm{func(a []*T) *T { return sel(a[0], "iref", "ireft", sInt, 0) }, stInt}
}

// shiftOf: the bytes of a stream from position p on.
func shiftOf(d, p *T) *T {
	if p == Int(0) {
		return d
	}
	if d.op == "shift" && d.k == 'f' {
		return shiftOf(d.args[0], Add(d.args[1], p))
	}
	return UF("shift", arrS(sInt, sInt), d, p)
}

// --- streams of bytes: what a reader will ever deliver (data, size) and how far it has been read (pos) ---

type stream struct {
	x    *Exec
	st   *State
	r    *T
	d, n *T // bytes and their number
	p    *T // position
}

func (l *LibCall) stream(i int) *stream {
	x := l.x
	v := l.t(i)
	r := sel(v, "iref", "irefr", sInt, 1)
	get := func(f, sort string) *T {
		h := "G:protocol.Reader." + f
		x.heapSort(h, arrS(sInt, sort))
		return Select(l.st.get(h), r)
	}
	return &stream{x, l.st, r, get("data", arrS(sInt, sInt)), get("size", sInt), get("pos", sInt)}
}

func (s *stream) advance(to *T) {
	h := "G:protocol.Reader.pos"
	s.x.write(s.st, h, s.r, Store(s.st.get(h), s.r, to))
}

// fill models reading n bytes into the slice b.
func (s *stream) fill(b, n *T) {
	h := s.x.elemHeap(types.Typ[types.Uint8])
	old := Select(s.st.get(h), sref(b))
	arr := Fresh("filled", arrS(sInt, sInt))
	i := BVar("i", sInt)
	in := And(Le(soff(b), i), Lt(i, Add(soff(b), n)))
	s.st.assume(Forall([]*T{i}, [][]*T{{Select(arr, i)}}, Eq(Select(arr, i), Ite(in, Select(s.d, Add(s.p, Sub(i, soff(b)))), Select(old, i)))))
	s.x.write(s.st, h, sref(b), Store(s.st.get(h), sref(b), arr))
}

func readBytes(l *LibCall) {
	s := l.stream(0)
	if l.t(1) != Int(10) {
		panic(abort{"ReadBytes with another delimiter"})
	}
	e := UF("nl", sInt, s.d, s.p, s.n)
	s.st.assume(And(Le(s.p, e), Le(e, s.n)))
	found := Lt(e, s.n)
	end := Ite(found, Add(e, Int(1)), s.n)
	h := l.x.elemHeap(types.Typ[types.Uint8])
	r := l.x.newRef(s.st)
	l.x.write(s.st, h, r, Store(s.st.get(h), r, shiftOf(s.d, s.p)))
	n := Sub(end, s.p)
	err := l.x.newError(s.st)
	s.advance(end)
	l.ret(Val{t: mkSlice(r, Int(0), n, n)}, Val{t: Ite(found, inil, err)})
}

func readSome(l *LibCall) {
	s := l.stream(0)
	b := l.t(1)
	n := Fresh("nread", sInt)
	ok := Fresh("readok", sBool)
	s.st.assume(And(Le(Int(0), n), Le(n, slen(b)), Le(n, Sub(s.n, s.p))))
	s.fill(b, n)
	err := l.x.newError(s.st)
	s.advance(Add(s.p, n))
	l.ret(Val{t: n}, Val{t: Ite(ok, inil, err)})
}

func readFull(l *LibCall) {
	s := l.stream(0)
	b := l.t(1)
	ok := Le(slen(b), Sub(s.n, s.p))
	n := Ite(ok, slen(b), Sub(s.n, s.p))
	s.fill(b, n)
	err := l.x.newError(s.st)
	s.advance(Add(s.p, n))
	l.ret(Val{t: n}, Val{t: Ite(ok, inil, err)})
}

// copyN is io.CopyN into a bytes.Buffer.
func copyN(l *LibCall) {
	x := l.x
	dst := l.t(0)
	if dst.op != "iref" || dst.k != 'f' || dst.args[0].k != 'i' || x.p.tids["*bytes.Buffer"] == 0 || dst.args[0] != Int(int64(x.p.tids["*bytes.Buffer"])) {
		panic(abort{"io.CopyN to something else than a bytes.Buffer"})
	}
	s := l.stream(1)
	want := Ite(Le(Int(0), l.t(2)), l.t(2), Int(0))
	ok := Le(want, Sub(s.n, s.p))
	n := Ite(ok, want, Sub(s.n, s.p))
	h := x.bufHeap("bytes.Buffer")
	r := dst.args[1]
	got := bstr(s.d, s.p, n)
	s.st.assume(Eq(strLen(got), n))
	x.write(s.st, h, r, Store(s.st.get(h), r, concat(Select(s.st.get(h), r), got)))
	err := x.newError(s.st)
	s.advance(Add(s.p, n))
	l.ret(Val{t: n}, Val{t: Ite(ok, inil, err)})
}

// bytes of a string and the string made from bytes

func sbytes(s *T) *T { return UF("sbytes", arrS(sInt, sInt), s) }

func bstr(arr, off, ln *T) *T {
	if ln == Int(0) {
		return StrLit("")
	}
	if arr.op == "shift" && arr.k == 'f' {
		return bstr(arr.args[0], Add(arr.args[1], off), ln)
	}
	if arr.op == "sbytes" && arr.k == 'f' && off == Int(0) && ln == strLen(arr.args[0]) {
		return arr.args[0]
	}
	if arr.op == "sbytes" && arr.k == 'f' {
		return UF("ssub", sStr, arr.args[0], off, Add(off, ln))
	}
	return UF("bstr", sStr, arr, off, ln)
}

func (x *Exec) bytesOf(st *State, s *T) *T {
	h := x.elemHeap(types.Typ[types.Uint8])
	r := x.newRef(st)
	x.write(st, h, r, Store(st.get(h), r, sbytes(s)))
	n := strLen(s)
	st.assume(Le(Int(0), n))
	return mkSlice(r, Int(0), n, n)
}

func (x *Exec) stringOf(st *State, b *T) *T {
	h := x.elemHeap(types.Typ[types.Uint8])
	s := bstr(Select(st.get(h), sref(b)), soff(b), slen(b))
	st.assume(Eq(strLen(s), slen(b)))
	return s
}

func (x *Exec) sendCh(fr *Frame, st *State, ch *T, v Val) {
	if x.c == nil || x.c.kind != "dispatcher" {
		panic(abort{"channel send"})
	}
	x.setGhost(st, "s_n", Add(st.get("L:0.s_n"), Int(1)))
	x.setGhost(st, "s_to", ch)
	x.setGhost(st, "s_what", x.term(v))
}

// setGhost assigns a ghost variable of the contract's own kind.
func (x *Exec) setGhost(st *State, n string, t *T) {
	h := "L:0." + n
	x.hs[h] = t.sort
	st.heaps[h] = t
	x.noteWrite(st, h, nil)
}

// havocAll forgets everything an unknown function may have changed: all memory but the local variables of the caller.
func (x *Exec) havocAll(st *State) {
	for h := range st.heaps {
		if x.kept(h) {
			continue
		}
		delete(st.heaps, h)
	}
	for _, d := range x.dry {
		d.all = true
		d.allocs = true
	}
	x.epochs++
	st.epoch = strconv.Itoa(x.epochs)
	x.bumpAlloc(st)
}

func (x *Exec) bitop(op token.Token, a, b *T, ty types.Type) *T {
	if a.k == 'i' && b.k == 'i' {
		r := newBig()
		switch op {
		case token.AND:
			r.And(a.n, b.n)
		case token.OR:
			r.Or(a.n, b.n)
		case token.XOR:
			r.Xor(a.n, b.n)
		case token.AND_NOT:
			r.AndNot(a.n, b.n)
		case token.SHL:
			r.Lsh(a.n, uint(b.n.Uint64()))
		case token.SHR:
			r.Rsh(a.n, uint(b.n.Uint64()))
		}
		return wrapInt(Big(r), ty)
	}
	if op == token.AND {
		for _, p := range [][2]*T{{a, b}, {b, a}} {
			if m := p[1]; m.k == 'i' && m.n.Sign() >= 0 {
				q := newBig().Add(m.n, big.NewInt(1))
				if newBig().And(q, m.n).Sign() == 0 { // 2^k - 1
					return mk("mod", sInt, p[0], Big(q))
				}
				if newBig().And(m.n, newBig().Sub(m.n, big.NewInt(1))).Sign() == 0 { // one bit
					bit := mk("mod", sInt, mk("div", sInt, p[0], Big(m.n)), Int(2))
					return Ite(Eq(bit, Int(1)), Big(m.n), Int(0))
				}
			}
		}
	}
	if op == token.OR {
		// x | 2^k for a single bit
		for _, p := range [][2]*T{{a, b}, {b, a}} {
			if m := p[1]; m.k == 'i' && m.n.Sign() > 0 && newBig().And(m.n, newBig().Sub(m.n, big.NewInt(1))).Sign() == 0 {
				bit := mk("mod", sInt, mk("div", sInt, p[0], Big(m.n)), Int(2))
				return Ite(Eq(bit, Int(1)), p[0], Add(p[0], Big(m.n)))
			}
		}
	}
	if op == token.SHL && b.k == 'i' && b.n.IsInt64() && b.n.Int64() < 63 {
		return wrapInt(Mul(a, Big(newBig().Lsh(big.NewInt(1), uint(b.n.Int64())))), ty)
	}
	if op == token.SHR && b.k == 'i' && b.n.IsInt64() && b.n.Int64() < 63 {
		return mk("div", sInt, a, Big(newBig().Lsh(big.NewInt(1), uint(b.n.Int64()))))
	}
	zero := func(t *T) bool { return t.k == 'i' && t.n.Sign() == 0 }
	switch {
	case zero(b) && op == token.AND, zero(a) && op == token.AND:
		return Int(0)
	case zero(b): // x|0, x^0, x&^0, x<<0, x>>0
		return a
	case zero(a) && (op == token.OR || op == token.XOR):
		return b
	case zero(a):
		return Int(0)
	}
	r := UF("bit"+map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot", token.SHL: "shl", token.SHR: "shr"}[op], sInt, a, b)
	return wrapInt(r, ty)
}

// --- content of buffers ---

func (x *Exec) bufHeap(typ string) string {
	h := "G:" + typ + ".content"
	x.heapSort(h, arrS(sInt, sStr))
	return h
}

func bufWrite(typ string) func(*LibCall) {
	return func(l *LibCall) {
		x := l.x
		h := x.bufHeap(typ)
		r := l.t(0)
		x.nonNil(l.st, r, typ)
		s := l.t(1)
		x.write(l.st, h, r, Store(l.st.get(h), r, concat(Select(l.st.get(h), r), s)))
		n := strLen(s)
		l.ret(Val{t: n}, Val{t: inil})
	}
}

func contains(s, sub *T) *T {
	if s.k == 's' && sub.k == 's' {
		return Bool(strings.Contains(s.lit, sub.lit))
	}
	return UF("scontains", sBool, s, sub)
}

// replaceAll is strings.ReplaceAll; for one-byte patterns it also says what the result does not contain.
func replaceAll(st *State, s, old, new *T) *T {
	if s.k == 's' && old.k == 's' && new.k == 's' {
		return StrLit(strings.ReplaceAll(s.lit, old.lit, new.lit))
	}
	r := UF("sreplall", sStr, s, old, new)
	if st != nil && old.k == 's' && new.k == 's' && old.lit != "" {
		st.assume(Imp(Not(contains(s, old)), Eq(r, s)))
		if len(old.lit) == 1 && !strings.Contains(new.lit, old.lit) {
			st.assume(Not(contains(r, old)))
			for _, c := range []string{"\r", "\n"} {
				if c != old.lit && !strings.Contains(new.lit, c) {
					st.assume(Imp(Not(contains(s, StrLit(c))), Not(contains(r, StrLit(c)))))
				}
			}
		}
	}
	return r
}

var libs map[string]func(*LibCall)

func init() {
	libs = map[string]func(*LibCall){
		"strconv.ParseInt": func(l *LibCall) {
			if l.t(1) != Int(10) || (l.t(2) != Int(64) && l.t(2) != Int(0)) {
				// another base or width: a different, unknown function
				ok := UF("pi_ok_other", sBool, l.t(0), l.t(1), l.t(2))
				v := UF("pi_val_other", sInt, l.t(0), l.t(1), l.t(2))
				l.st.assume(inRange(v, types.Typ[types.Int64]))
				l.ret(Val{t: v}, Val{t: Ite(ok, inil, l.x.newError(l.st))})
				return
			}
			parseIntCall(l)
		},
		"strconv.Atoi": parseIntCall,
		"strconv.FormatInt": func(l *LibCall) {
			if l.t(1) != Int(10) {
				l.ret(Val{t: UF("fmtI_other", sStr, l.t(0), l.t(1))})
				return
			}
			l.ret(Val{t: fmtInt(l.t(0))})
		},
		"strconv.Itoa": func(l *LibCall) { l.ret(Val{t: fmtInt(l.t(0))}) },
		"strconv.ParseFloat": func(l *LibCall) {
			s := l.t(0)
			ok, v := UF("pf_ok", sBool, s), UF("pf_val", sF, s)
			if l.t(1) != Int(64) {
				ok, v = UF("pf_ok_other", sBool, s, l.t(1)), UF("pf_val_other", sF, s, l.t(1))
			}
			l.ret(Val{t: Ite(ok, v, UF("pf_bad", sF, s))}, Val{t: Ite(ok, inil, l.x.newError(l.st))})
		},
		"strconv.FormatFloat": func(l *LibCall) {
			if l.t(1) == Int('g') && l.t(2) == Int(-1) && l.t(3) == Int(64) {
				l.ret(Val{t: UF("fmtF", sStr, l.t(0))})
				return
			}
			l.ret(Val{t: UF("fmtF_other", sStr, l.t(0), l.t(1), l.t(2), l.t(3))})
		},
		"strings.ReplaceAll": func(l *LibCall) { l.ret(Val{t: replaceAll(l.st, l.t(0), l.t(1), l.t(2))}) },
		"strings.Contains":   func(l *LibCall) { l.ret(Val{t: contains(l.t(0), l.t(1))}) },
		"strings.ToLower": func(l *LibCall) { l.ret(Val{t: lowerOf(l.t(0))}) },
		"strings.TrimPrefix": func(l *LibCall) {
			l.ret(Val{t: trimPrefix(l.st, l.t(0), l.t(1))})
		},
		"strings.HasPrefix": func(l *LibCall) {
			r := hasPrefix(l.t(0), l.t(1))
			l.st.assume(Imp(r, Ge(strLen(l.t(0)), strLen(l.t(1)))))
			l.ret(Val{t: r})
		},
		"strings.EqualFold": func(l *LibCall) {
			l.ret(Val{t: Eq(lowerOf(l.t(0)), lowerOf(l.t(1)))})
		},
		"math.Inf": func(l *LibCall) {
			s := l.t(0)
			l.ret(Val{t: Ite(Le(Int(0), s), fltConst("+Inf"), fltConst("-Inf"))})
		},
		"math.IsNaN": func(l *LibCall) { l.ret(Val{t: fnan(l.t(0))}) },
		"math/rand.Int": func(l *LibCall) {
			v := Fresh("rand", sInt)
			l.st.assume(And(Le(Int(0), v), inRange(v, types.Typ[types.Int])))
			l.ret(Val{t: v})
		},
		"errors.New": func(l *LibCall) { l.ret(Val{t: l.x.newError(l.st)}) },
		"fmt.Errorf": func(l *LibCall) { l.ret(Val{t: l.x.newError(l.st)}) },
		"errors.Is": func(l *LibCall) {
			r := Fresh("is", sBool)
			l.st.assume(Imp(Eq(l.t(0), l.t(1)), r))
			l.st.assume(Imp(And(Eq(l.t(0), inil), Neq(l.t(1), inil)), Not(r)))
			l.ret(Val{t: r})
		},
		"fmt.Sprintf": func(l *LibCall) { l.ret(Val{t: Fresh("sprintf", sStr)}) },
		"fmt.Printf":  ignoreCall, "fmt.Println": ignoreCall,
		"log.Println": func(l *LibCall) { l.ret(Val{}) },
		"log.Printf":  func(l *LibCall) { l.ret(Val{}) },

		"(*bytes.Buffer).WriteString":    bufWrite("bytes.Buffer"),
		"(*strings.Builder).WriteString": bufWrite("strings.Builder"),
		"(*strings.Builder).Grow": func(l *LibCall) {
			l.x.prove(l.st, "bounds", "strings.Builder.Grow of a negative count", []string{"C20"}, Le(Int(0), l.t(1)), "")
			l.ret(Val{})
		},
		"(*strings.Builder).String": func(l *LibCall) {
			l.ret(Val{t: Select(l.st.get(l.x.bufHeap("strings.Builder")), l.t(0))})
		},
		"(*bytes.Buffer).String": func(l *LibCall) {
			l.ret(Val{t: Select(l.st.get(l.x.bufHeap("bytes.Buffer")), l.t(0))})
		},
		"(*bytes.Buffer).Bytes": func(l *LibCall) {
			s := Select(l.st.get(l.x.bufHeap("bytes.Buffer")), l.t(0))
			l.ret(Val{t: l.x.bytesOf(l.st, s)})
		},
		"github.com/yusank/glob.Compile": func(l *LibCall) {
			p := l.t(0)
			ok := UF("globok", sBool, p)
			g := mk("iref", sIface, Const("gtid.glob", sInt), UF("globref", sInt, p))
			l.st.assume(Imp(ok, Lt(UF("globref", sInt, p), l.st.alloc)))
			l.st.assume(Eq(UF("globpat", sStr, UF("globref", sInt, p)), p))
			l.ret(Val{t: Ite(ok, g, inil)}, Val{t: Ite(ok, inil, l.x.newError(l.st))})
		},
		"invoke:glob.Glob.Match": func(l *LibCall) {
			pat := UF("globpat", sStr, sel(l.t(0), "iref", "irefr", sInt, 1))
			l.ret(Val{t: UF("globmatch", sBool, pat, l.t(1))})
		},
		"invoke:protocol.Reader.ReadBytes": readBytes,
		"invoke:protocol.Reader.Read":      readSome,
		"invoke:io.Reader.Read":            readSome,
		"io.ReadFull":                      readFull,
		"io.CopyN":                         copyN,
		"(*bytes.Buffer).Grow": func(l *LibCall) {
			l.x.prove(l.st, "bounds", "bytes.Buffer.Grow of a negative count", []string{"C20"}, Le(Int(0), l.t(1)), "")
			l.x.allocBound(l.st, l.t(1))
			l.ret(Val{})
		},
		"(*bytes.Buffer).Len": func(l *LibCall) {
			l.ret(Val{t: strLen(Select(l.st.get(l.x.bufHeap("bytes.Buffer")), l.t(0)))})
		},
		"context.Background": func(l *LibCall) {
			l.ret(Val{t: mk("iref", sIface, Const("gtid.ctx", sInt), Const("ctx.background", sInt))})
		},
		"context.WithTimeout": func(l *LibCall) {
			r := l.x.newRef(l.st)
			f := l.x.newRef(l.st)
			l.x.noops[f] = true
			l.st.assume(Eq(UF("ctxdone", sInt, r), l.x.newRef(l.st))) // its own channel
			l.ret(Val{t: mk("iref", sIface, Const("gtid.ctx", sInt), r)}, Val{t: f})
		},
		"invoke:context.Context.Done": func(l *LibCall) {
			l.ret(Val{t: UF("ctxdone", sInt, sel(l.t(0), "iref", "irefr", sInt, 1))})
		},
		"(*sync.WaitGroup).Add":  func(l *LibCall) { l.ret(Val{}) },
		"(*sync.WaitGroup).Done": func(l *LibCall) { l.ret(Val{}) },
		"invoke:context.Context.Err": func(l *LibCall) {
			v := Fresh("ctxerr", sIface)
			if _, ok := l.x.sp.ghostV["waited"]; ok { // a context whose Done channel was seen closed has an error
				l.x.heapSort("GV:waited", sInt)
				done := UF("ctxdone", sInt, sel(l.t(0), "iref", "irefr", sInt, 1))
				l.st.assume(Imp(Eq(l.st.get("GV:waited"), done), Not(Eq(v, inil))))
			}
			l.ret(Val{t: v})
		},
		"invoke:error.Error": func(l *LibCall) {
			l.ret(Val{t: UF("errmsg", sStr, l.t(0))})
		},
	}
}

func ignoreCall(l *LibCall) {
	l.ret(Val{t: Fresh("n", sInt)}, Val{t: inil})
}

func parseIntCall(l *LibCall) {
	s := l.t(0)
	ok := parseIntOK(s)
	bad := UF("pi_bad", sInt, s)
	l.st.assume(inRange(bad, types.Typ[types.Int64]))
	v := parseIntVal(s)
	l.st.assume(inRange(v, types.Typ[types.Int64]))
	l.ret(Val{t: Ite(ok, v, bad)}, Val{t: Ite(ok, inil, l.x.newError(l.st))})
}
