package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Counting of the elements a loop has processed. The monitor fact cnt(lv)=c0 says that the loop variable lv always
// equals its initial value c0 plus (or minus) the number of elements completed when the iteration began; "el" says
// that the present iteration completed one more.

// loopIter handles an iter event of a numeric loop variable.
func (m *Mon) loopIter(ev *Event) {
	if _, ok := ev.Site.in.(*ssa.Phi); !ok && ev.Res.aux != "n" && ev.Res.aux != "mem" {
		return
	}
	lv, to, from := ev.Res, ev.Val, ev.Addr
	old := m.oldOf(lv)
	if !isNumTerm(lv) {
		// a slice that is appended to: its length
		if _, ok := lv.typ.Underlying().(*types.Slice); !ok || !extends(from, to) {
			return
		}
		lv, old, to, from = m.e.length(ev.St, lv), m.e.length(ev.St, old), m.e.length(ev.St, to), m.e.length(ev.St, from)
	}
	m.set(m.ns+"ji", nil, nil)
	p := m.prover()
	d := p.lin(to).add(p.lin(from), -1)
	if len(d.c) != 0 {
		d = p.lin(m.e.n.subst(to, lv, old)).add(p.lin(m.e.n.subst(from, lv, old)), -1)
	}
	c0 := m.get(m.ns+"cnt", old)
	m.del(m.ns+"cnt", old)
	m.del(m.ns+"cnt", lv)
	if len(d.c) != 0 || d.k == 0 || d.k > 64 || d.k < -64 || !m.has(m.ns+"el", nil) {
		return
	}
	if c0 == nil {
		if ev.Addr.op == "loopvar" || m.has(m.ns+"later", nil) {
			return
		}
		c0 = m.e.n.mk(Term{op: "count", aux: itoa(int(d.k)), args: []*Term{from}})
	} else if c0.aux != itoa(int(d.k)) {
		return
	}
	m.set(m.ns+"cnt", lv, c0)
	// the bounds of the variable stay known after the loop
	for f, v := range ev.St.facts {
		if f.op == "lt" && v && f.args[0] == to && !f.args[1].hasLeaf(lv) {
			m.set("?t", m.e.n.lt(lv, f.args[1]), nil)
		}
	}
	if d.k == 1 {
		for f, v := range ev.St.facts {
			if f.op == "lt" && v && (f.args[0] == from || f.args[0] == m.e.n.subst(from, lv, old)) && !f.args[1].hasLeaf(lv) {
				m.set("?f", m.e.n.lt(f.args[1], lv), nil)
			}
		}
	}
	if d.k > 0 {
		m.set("?f", m.e.n.lt(lv, c0.args[0]), nil)
	} else {
		m.set("?f", m.e.n.lt(c0.args[0], lv), nil)
	}
}

// prover knows the facts of the path, and that what counts the completed elements agrees.
func (m *Mon) prover() *prover {
	p := m.e.newProver(m.state())
	if len(m.all(m.ns+"cnt")) == 0 {
		return p
	}
	cs := m.counts(p)
	for i := 1; i < len(cs); i++ {
		d := linear{c: map[*Term]int64{}, ok: true}.add(cs[0].l, cs[i].by).add(cs[i].l, -cs[0].by)
		p.extra = append(p.extra, d, linear{c: map[*Term]int64{}, ok: true}.add(d, -1))
	}
	return p
}

// loopStep must see every event before the property's own step.
func (m *Mon) loopStep(ev *Event) {
	if ev.Kind != "iter" && m.has(m.ns+"ji", nil) {
		m.del(m.ns+"ji", nil)
		if m.has(m.ns+"el", nil) {
			m.set(m.ns+"later", nil, nil)
		}
		m.del(m.ns+"el", nil)
	}
}

// elementDone records that the present iteration completed an element.
func (m *Mon) elementDone() { m.set(m.ns+"el", nil, nil) }

// count is an expression that equals by times the number of completed elements.
type count struct {
	l  linear
	by int64
}

// counts lists expressions that equal a multiple of the number of completed elements.
func (m *Mon) counts(p *prover) []count {
	var r []count
	x := int64(0)
	if m.has(m.ns+"el", nil) {
		x = 1
	}
	if !m.has(m.ns+"later", nil) {
		r = append(r, count{linear{c: map[*Term]int64{}, k: x, ok: true}, 1})
	}
	for _, f := range m.all(m.ns + "cnt") {
		k, _ := strconv.ParseInt(f.b.aux, 10, 64)
		d := int64(1)
		if k < 0 {
			k, d = -k, -1
		}
		l := p.lin(f.a).add(p.lin(f.b.args[0]), -1)
		r = append(r, count{linear{c: map[*Term]int64{}, ok: true}.add(l, d).add(linear{c: map[*Term]int64{}, k: x * k, ok: true}, 1), k})
	}
	return r
}

// countIs: t equals the number of completed elements.
func (m *Mon) countIs(t *Term) bool {
	p := m.prover()
	return m.countsTo(p, p.lin(t))
}

// countFromEnd: i is the index of the next element, of n, when they are taken from the last to the first.
func (m *Mon) countFromEnd(i, n *Term) bool {
	p := m.prover()
	l := p.lin(n).add(p.lin(i), -1)
	l.k--
	return m.countsTo(p, l)
}

func (m *Mon) countsTo(p *prover, l linear) bool {
	for _, k := range m.counts(p) {
		d := linear{c: map[*Term]int64{}, ok: true}.add(l, k.by).add(k.l, -1)
		if len(d.c) == 0 && d.k == 0 || p.prove(d) && p.prove(linear{c: map[*Term]int64{}, ok: true}.add(d, -1)) {
			return true
		}
	}
	return false
}

// countBelow: fewer than n elements are completed.
func (m *Mon) countBelow(n *Term) bool {
	p := m.prover()
	l := p.lin(n)
	for _, k := range m.counts(p) {
		if p.prove(linear{c: map[*Term]int64{}, k: -1, ok: true}.add(l, k.by).add(k.l, -1)) {
			return true
		}
	}
	return false
}

// countReaches: at least n elements are completed.
func (m *Mon) countReaches(n *Term) bool {
	p := m.prover()
	l := p.lin(n)
	for _, k := range m.counts(p) {
		if p.prove(linear{c: map[*Term]int64{}, ok: true}.add(k.l, 1).add(l, -k.by)) {
			return true
		}
	}
	return false
}

// follow renames a tracked value that a loop has widened.
func (m *Mon) follow(ev *Event, k string) {
	if ev.Kind != "iter" {
		return
	}
	val := m.e.n.subst(ev.Val, ev.Res, m.oldOf(ev.Res))
	for _, f := range m.all(k) {
		if f.b == val || f.b == ev.Val {
			m.set(k, f.a, ev.Res)
		}
	}
}

// followKey is follow for facts keyed by the value.
func (m *Mon) followKey(ev *Event, k string) {
	if ev.Kind != "iter" {
		return
	}
	val := m.e.n.subst(ev.Val, ev.Res, m.oldOf(ev.Res))
	for _, f := range m.all(k) {
		if f.a == val || f.a == ev.Val {
			m.del(k, f.a)
			m.set(k, ev.Res, f.b)
		}
	}
}

func (m *Mon) oldOf(lv *Term) *Term {
	return m.e.n.mk(Term{op: "loopvar", aux: lv.aux + "'", typ: lv.typ, site: lv.site, obj: lv.obj})
}

// before renames a value taken from the state before the event the way the automaton's own terms have been renamed.
func (m *Mon) before(ev *Event, t *Term) *Term {
	r := ev.Res
	if r == nil || !t.hasLeaf(r) || r.site != ev.Site || r.op != "sym" && r.op != "alloc" {
		return t
	}
	return m.e.n.subst(t, r, m.e.n.mk(Term{op: r.op, aux: r.aux + "'", typ: r.typ, site: r.site}))
}

// sameInt: the two integer terms are equal on this path.
func (m *Mon) sameInt(a, b *Term) bool {
	if a == b {
		return true
	}
	if !isNumTerm(a) || !isNumTerm(b) {
		return false
	}
	p := m.prover()
	d := p.lin(a).add(p.lin(b), -1)
	if len(d.c) == 0 {
		return d.k == 0
	}
	return p.prove(d) && p.prove(linear{c: map[*Term]int64{}, ok: true}.add(d, -1))
}

// bits strips conversions that keep all bits of an integer.
func bitsOf(t *Term) *Term {
	for t != nil && t.op == "conv" && len(t.args) == 1 && typeBits(t.typ) != 0 && typeBits(t.typ) == typeBits(t.args[0].typ) {
		t = t.args[0]
	}
	return t
}

// sliceParts decomposes x[lo:hi]; hi is nil for the end.
func (e *Exec) sliceParts(t *Term) (base, lo, hi *Term) {
	if t.op == "slice" {
		lo, hi = t.args[1], t.args[2]
		if lo.op == "nil" {
			lo = e.n.int(0)
		}
		if hi.op == "nil" {
			hi = nil
		}
		return t.args[0], lo, hi
	}
	return t, e.n.int(0), nil
}

// emptySlice: t is known to have no elements.
func (m *Mon) emptySlice(t *Term) bool {
	if t == nil || t.op == "nil" || t.op == "const" && t.val == nil {
		return true
	}
	l := m.e.length(m.ev.St, t)
	if v, ok := l.intVal(); ok {
		return v == 0
	}
	return false
}

func namedOf(t types.Type) string {
	if t == nil {
		return ""
	}
	if d := derefType(t); d != nil {
		t = d
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

var byteType = types.Typ[types.Uint8]

// isOld: t was computed in an earlier iteration.
func (m *Mon) isOld(t *Term) bool {
	for _, l := range t.leafs() {
		if strings.HasSuffix(l.aux, "'") && (l.op == "sym" || l.op == "alloc" || l.op == "loopvar") {
			return true
		}
	}
	return false
}

// dropOld forgets facts about values computed in an earlier iteration.
func (m *Mon) dropOld(kinds ...string) {
	for _, f := range m.fs {
		if f.a == nil || !m.isOld(f.a) && (f.b == nil || !m.isOld(f.b)) {
			continue
		}
		for _, k := range kinds {
			if f.k == k {
				m.del(k, f.a)
			}
		}
	}
}
