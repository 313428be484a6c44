package main

import "strings"

// proveLemma proves a statement about specification functions by induction on one variable.
func (x *Exec) proveLemma(c *Contract, st *State) {
	n := c.ensures[0].e
	if n.op != "forall" {
		panic(specErr{"a lemma is a forall"})
	}
	x.exits = 1
	e := &Env{ex: x, st: st, pkg: x.sp.modules[c.module].pkg}
	prev := e
	var k *T
	for _, q := range n.vars {
		ty := e.typ(q.ty)
		s := Fresh("lv."+q.name, ty.sort)
		e = e.with(q.name, SV{s, ty})
		if q.name == c.indVar {
			k = s
			prev = prev.with(q.name, SV{Sub(s, Int(1)), ty})
		} else {
			prev = prev.with(q.name, SV{s, ty})
		}
	}
	if k == nil && c.indVar == "" {
		x.prove(st, "lemma", c.name, nil, e.evalBool(n.kids[0]), c.ensures[0].src)
		return
	}
	if k == nil {
		panic(specErr{"no induction variable " + c.indVar})
	}
	base := e.eval(c.indBase).t
	s1, s2 := st.clone(), st.clone()
	s1.assume(Le(k, base))
	x.prove(s1, "induction-base", c.name, nil, e.evalBool(n.kids[0]), c.ensures[0].src)
	s2.assume(Lt(base, k))
	s2.assume(prev.evalBool(n.kids[0]))
	x.prove(s2, "induction-step", c.name, nil, e.evalBool(n.kids[0]), c.ensures[0].src)
}

// registerPrivate makes the sorts of every module's private locations known before anything runs.
func (x *Exec) registerPrivate() {
	for _, mn := range x.sp.modOrder {
		m := x.sp.modules[mn]
		for _, p := range m.private {
			raw := strings.HasPrefix(p, m.pkg+".=")
			h := strings.TrimPrefix(p, m.pkg+".=")
			name := h
			if raw {
				i := strings.Index(h, ":")
				name = h[i+1:]
				if strings.HasPrefix(h, "M") {
					continue
				}
			}
			func() {
				defer func() {
					recover() // a name that is gone fails in the module's own contracts
				}()
				x.modHeap(&Env{ex: x, pkg: m.pkg}, name)
			}()
		}
	}
}
