package main

import "go/types"

// The library around connections: buffers to read requests from, tasks that run later, replies given to gnet.

// threadVar is a ghost variable of the specification, when it has one of this name.
func (x *Exec) threadVar(st *State, n string) (string, *T) {
	ty, ok := x.sp.ghostV[n]
	if !ok {
		return "", nil
	}
	h := "GV:" + n
	x.heapSort(h, (&Env{ex: x, st: st}).typ(ty).sort)
	return h, st.get(h)
}

func (x *Exec) count(st *State, n string) {
	if h, v := x.threadVar(st, n); h != "" {
		st.heaps[h] = Add(v, Int(1))
		x.noteWrite(st, h, nil)
	}
}

func (x *Exec) setVar(st *State, n string, v *T) {
	if h, _ := x.threadVar(st, n); h != "" {
		st.heaps[h] = v
		x.noteWrite(st, h, nil)
	}
}

const overHeap = "G:bytes.Buffer.over"

// newBuffer is a bytes.Buffer over bytes: a reader that delivers them.
func newBuffer(l *LibCall) {
	x, st := l.x, l.st
	b := l.t(0)
	r := x.newRef(st)
	set := func(h, sort string, v *T) {
		x.heapSort(h, arrS(sInt, sort))
		x.write(st, h, r, Store(st.get(h), r, v))
	}
	set("G:protocol.Reader.data", arrS(sInt, sInt), shiftOf(Select(st.get(x.elemHeap(types.Typ[types.Uint8])), sref(b)), soff(b)))
	set("G:protocol.Reader.size", sInt, slen(b))
	set("G:protocol.Reader.pos", sInt, Int(0))
	set(overHeap, sInt, sref(b))
	set(x.bufHeap("bytes.Buffer"), sStr, x.stringOf(st, b))
	l.ret(Val{t: r})
}

// sameReader is a reader over another one.
func sameReader(l *LibCall) {
	x, st := l.x, l.st
	v := l.t(0)
	r, o := x.newRef(st), sel(v, "iref", "irefr", sInt, 1)
	for f, sort := range map[string]string{"data": arrS(sInt, sInt), "size": sInt, "pos": sInt} {
		h := "G:protocol.Reader." + f
		x.heapSort(h, arrS(sInt, sort))
		x.write(st, h, r, Store(st.get(h), r, Select(st.get(h), o)))
	}
	x.heapSort(overHeap, arrS(sInt, sInt))
	x.write(st, overHeap, r, Store(st.get(overHeap), r, Select(st.get(overHeap), o)))
	l.ret(Val{t: r})
}

// submit hands a task to a pool: it runs once, at any later time. Bytes that are not the caller's own may be others
// by then; what the caller writes after it, the task might see.
func submit(l *LibCall) {
	x, st := l.x, l.st
	clo := l.args[len(l.args)-1].clo
	if clo == nil {
		panic(abort{"an unknown task"})
	}
	mark := x.entry.alloc
	for _, h := range []string{x.elemHeap(types.Typ[types.Uint8]), "G:protocol.Reader.data"} {
		own := func(r *T) *T { return Le(mark, r) }
		if h == "G:protocol.Reader.data" {
			x.heapSort(h, arrS(sInt, arrS(sInt, sInt)))
			x.heapSort(overHeap, arrS(sInt, sInt))
			over := st.get(overHeap)
			own = func(r *T) *T { return And(Le(mark, r), Le(mark, Select(over, r))) }
		}
		was := st.get(h)
		now := Fresh("later", was.sort)
		r := BVar("r", sInt)
		st.assume(Forall([]*T{r}, [][]*T{{Select(now, r)}}, Imp(own(r), Eq(Select(now, r), Select(was, r)))))
		st.heaps[h] = now
		x.noteWrite(st, h, nil)
	}
	x.count(st, "late")
	x.inlineCall(l.fr, clo, nil, st, func(fr *Frame, st *State, _ Val) {
		st.late = st.alloc
		l.k(fr, st, Val{t: inil})
	})
}

func init() {
	for n, f := range map[string]func(*LibCall){
		"bytes.NewBuffer": newBuffer,
		"bytes.NewReader": newBuffer,
		"bufio.NewReader": sameReader,
		"(*github.com/panjf2000/ants/v2.Pool).Submit": submit,
		"invoke:gnet.Conn.AsyncWrite": func(l *LibCall) {
			x, st := l.x, l.st
			x.count(st, "wrote")
			x.setVar(st, "wroteTo", sel(l.t(0), "iref", "irefr", sInt, 1))
			x.setVar(st, "wroteText", x.stringOf(st, l.t(1)))
			l.ret(Val{t: Fresh("werr", sIface)})
		},
		"invoke:gnet.Conn.SetContext": func(l *LibCall) {
			l.x.count(l.st, "keptFor")
			l.ret(Val{})
		},
	} {
		libs[n] = f
	}
}
