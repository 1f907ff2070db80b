package main

import "strings"

// visit follows the complete traversal of a map: directly with range, or through copies of it (another map, or a
// slice of its keys, its values, or pairs of both) that are traversed completely later on.
//
// Monitor facts: src(S)=kind: every entry of S has still to be visited; it(range)=S; nx(next)=S: the entry at hand;
// open(next): it was neither visited nor copied so far; cp(C)=kind: copy made by the range in progress.
type visit struct {
	m    *Mon
	miss func() // an entry was skipped
}

func (m *Mon) kind(s string) *Term { return m.e.n.mk(Term{op: "const", aux: s}) }

// need starts the obligation to visit every entry of map s.
func (v *visit) need(s *Term) { v.m.set("src", s, v.m.kind("map")) }

// reset forgets all obligations.
func (v *visit) reset() {
	for _, k := range []string{"src", "cp", "open", "it", "nx", "started", "cnt", "el", "later", "ji"} {
		v.m.clear(k)
	}
}

// pending tells whether a traversal is still due.
func (v *visit) pending() bool { return len(v.m.all("src")) > 0 }

// step must see every event before the property's own step.
func (v *visit) step(ev *Event) {
	m := v.m
	m.loopStep(ev)
	if ev.Kind == "iter" {
		m.loopIter(ev)
		m.followKey(ev, "cp")
		m.followKey(ev, "src")
	}
	// slices traversed to their end
	if ev.Kind != "iter" && !m.has(m.ns+"ji", nil) {
		for _, f := range m.all("src") {
			if f.b.aux != "map" && m.has("started", nil) && m.countReaches(m.e.length(m.state(), f.a)) {
				m.del("src", f.a)
			}
		}
	}
	switch ev.Kind {
	case "range":
		m.del("it", ev.Res)
		if k := m.get("src", ev.Args[0]); k != nil && k.aux == "map" {
			m.set("it", ev.Res, ev.Args[0])
			m.clear("cp")
		}
	case "next":
		v.leave()
		if s := m.get("it", ev.Args[0]); s != nil {
			m.set("nx", ev.Res, s)
		}
	case "branch":
		cond, tr := ev.Cond, ev.Truth
		for cond.op == "not" {
			cond, tr = cond.args[0], !tr
		}
		if cond.op == "ext" && cond.aux == "0" && m.has("nx", cond.args[0]) {
			s := m.get("nx", cond.args[0])
			if tr {
				m.set("open", cond.args[0], nil)
				return
			}
			m.del("nx", cond.args[0])
			m.del("src", s)
			for _, f := range m.all("cp") {
				m.set("src", f.a, f.b)
				m.set("started", nil, nil)
			}
			m.clear("cp")
		}
	case "mapset":
		nx, w := v.part(ev.Args[1])
		nv, wv := v.part(ev.Args[2])
		if w == "key" && wv == "val" && nx == nv && leafOf(ev.Args[0]).op == "alloc" {
			m.set("cp", ev.Args[0], m.kind("map"))
			v.done(nx)
		}
	case "append":
		v.appended(ev)
	}
}

// leave ends the work on the entry at hand.
func (v *visit) leave() {
	if len(v.m.all("open")) > 0 {
		if v.miss != nil {
			v.miss()
		}
		v.m.clear("open")
	}
	v.m.clear("nx")
}

func (v *visit) appended(ev *Event) {
	m := v.m
	r := ev.Res
	if r == nil || r.op != "append" || r.aux != "" || len(r.args) < 2 {
		return
	}
	base, el := r.args[0], r.args[len(r.args)-1]
	if len(r.args) > 2 {
		for _, f := range m.all("cp") {
			if f.a.op == "append" && sameTerms(f.a.args, r.args[:len(r.args)-1]) {
				base = f.a
			}
		}
	}
	if !m.has("cp", base) && base.op != "nil" && !m.emptySlice(base) {
		return
	}
	kind, nx := "", (*Term)(nil)
	if x, w := v.part(el); x != nil {
		kind, nx = w+"s", x
	} else if el.op == "struct" {
		names := strings.Split(el.aux, ",")
		var fs []string
		for i, a := range el.args {
			if x, w := v.part(a); x != nil {
				nx = x
				fs = append(fs, w+"="+names[i])
			}
		}
		kind = "pairs " + strings.Join(fs, ",")
	}
	if nx == nil || !m.has("open", nx) {
		return
	}
	if k := m.get("cp", base); k != nil && k.aux != kind {
		return
	}
	m.del("cp", base)
	m.set("cp", r, m.kind(kind))
	v.done(nx)
}

// part tells which part of which entry t is: "key" or "val".
func (v *visit) part(t *Term) (item *Term, what string) {
	m := v.m
	t = unface(t)
	if t.op == "ext" && m.has("nx", t.args[0]) {
		switch t.aux {
		case "1":
			return t.args[0], "key"
		case "2":
			return t.args[0], "val"
		}
	}
	a, field := partField(t)
	if a == nil {
		return nil, ""
	}
	k := m.get("src", a.args[0])
	if k == nil || k.aux == "map" || !m.countIs(a.args[1]) {
		return nil, ""
	}
	switch {
	case k.aux == "keys" && field == "":
		return a, "key"
	case k.aux == "vals" && field == "":
		return a, "val"
	case strings.HasPrefix(k.aux, "pairs "):
		for _, p := range strings.Split(k.aux[6:], ",") {
			if w, f, _ := strings.Cut(p, "="); f == field {
				return a, w
			}
		}
	}
	return nil, ""
}

// partField: t is a field ("": the whole) of the element at the address.
func partField(t *Term) (addr *Term, field string) {
	if t.op == "load" && t.args[0].op == "faddr" && t.args[0].args[0].op == "iaddr" {
		return t.args[0].args[0], t.args[0].aux
	}
	if t.op == "field" && t.args[0].op == "load" {
		field = t.aux
		t = t.args[0]
	}
	if t.op != "load" || t.args[0].op != "iaddr" {
		return nil, ""
	}
	return t.args[0], field
}

// done records that the entry was dealt with.
func (v *visit) done(item *Term) {
	if item.op == "iaddr" {
		v.m.elementDone()
		return
	}
	v.m.del("open", item)
}
