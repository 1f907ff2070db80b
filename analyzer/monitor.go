package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"
)

// MFact is one element of a monitor state: a named relation over provenance terms.
type MFact struct {
	k    string
	a, b *Term
}

// Mon is the property automaton running along the paths of an exploration.
type Mon struct {
	c    *Check
	e    *Exec
	ns   string // prefix of the facts of the loop counters
	ev   *Event
	fs   []MFact
	dead bool
	pn   *pnode
	evi  int
	at   *Node
}

func (m *Mon) find(k string, a *Term) int {
	for i, f := range m.fs {
		if f.k == k && f.a == a {
			return i
		}
	}
	return -1
}

// has tells whether k(a) holds; a nil matches facts without operand.
func (m *Mon) has(k string, a *Term) bool { return m.find(k, a) >= 0 }

func (m *Mon) get(k string, a *Term) *Term {
	if i := m.find(k, a); i >= 0 {
		return m.fs[i].b
	}
	return nil
}

func (m *Mon) set(k string, a, b *Term) {
	nf := append([]MFact(nil), m.fs...)
	for i, f := range nf {
		if f.k == k && f.a == a {
			nf[i].b = b
			m.fs = nf
			return
		}
	}
	m.fs = append(nf, MFact{k, a, b})
	if k[0] == '?' || m.ev == nil || m.ev.St == nil {
		return
	}
	// what the path has already found out about the term stays known
	for _, t := range []*Term{a, b} {
		if t == nil || t.op != "sym" && t.op != "ext" {
			continue
		}
		for _, q := range []*Term{m.e.n.eq(t, m.e.n.nilT()), t} {
			if v, ok := m.ev.St.facts[q]; ok && !m.has("?t", q) && !m.has("?f", q) {
				m.fs = append(m.fs, MFact{map[bool]string{true: "?t", false: "?f"}[v], q, nil})
			}
		}
	}
}

func (m *Mon) del(k string, a *Term) {
	var nf []MFact
	for _, f := range m.fs {
		if !(f.k == k && f.a == a) {
			nf = append(nf, f)
		}
	}
	m.fs = nf
}

func (m *Mon) clear(k string) {
	var nf []MFact
	for _, f := range m.fs {
		if f.k != k {
			nf = append(nf, f)
		}
	}
	m.fs = nf
}

func (m *Mon) all(k string) []MFact {
	var r []MFact
	for _, f := range m.fs {
		if f.k == k {
			r = append(r, f)
		}
	}
	return r
}

// truth evaluates a condition before the current event. The path conditions about terms that the automaton tracks
// stay available even when the program itself does not use these terms any more.
func (m *Mon) truth(c *Term) (bool, bool) { return m.e.decide(m.state(), c) }

func (m *Mon) state() *State {
	s := m.ev.St
	n := 0
	for _, f := range m.fs {
		if f.k == "?t" || f.k == "?f" || strings.HasSuffix(f.k, "cnt") {
			n++
		}
	}
	if n == 0 {
		return s
	}
	c := &State{mem: s.mem, epoch: s.epoch, facts: make(map[*Term]bool, len(s.facts)+n)}
	for _, f := range m.fs {
		switch {
		case f.k == "?t" || f.k == "?f":
			c.facts[f.a] = f.k == "?t"
		case strings.HasSuffix(f.k, "cnt") && typeBits(f.a.typ) == 64:
			// a variable that moves by one per element stays far away from the limits of 64 bits
			if f.b.aux[0] != '-' {
				c.facts[m.e.n.lt(f.a, m.e.n.int(1<<61))] = true
			} else {
				c.facts[m.e.n.lt(f.a, m.e.n.int(-1<<61))] = false
			}
		}
	}
	for k, v := range s.facts {
		c.facts[k] = v
	}
	return c
}

// condition remembers the outcome of a branch about tracked terms.
func (m *Mon) condition(ev *Event) {
	cond, tr := ev.Cond, ev.Truth
	for cond.op == "not" {
		cond, tr = cond.args[0], !tr
	}
	if cond.op == "const" || len(cond.leaf) == 0 {
		return
	}
	for _, f := range m.fs {
		if f.k == "?t" || f.k == "?f" {
			continue
		}
		for _, t := range []*Term{f.a, f.b} {
			if t == nil {
				continue
			}
			for _, l := range t.leaf {
				if (l.op == "sym" || l.op == "alloc" || l.op == "loopvar") && cond.hasLeaf(l) {
					k := "?f"
					if tr {
						k = "?t"
					}
					m.del("?t", cond)
					m.del("?f", cond)
					m.set(k, cond, nil)
					return
				}
			}
		}
	}
}

// prune drops conditions about terms that are no longer tracked.
func (m *Mon) prune() {
	live := map[*Term]bool{}
	any := false
	for _, f := range m.fs {
		if f.k == "?t" || f.k == "?f" {
			any = true
			continue
		}
		for _, t := range []*Term{f.a, f.b} {
			if t != nil {
				for _, l := range t.leaf {
					live[l] = true
				}
			}
		}
	}
	if !any {
		return
	}
	var nf []MFact
	for _, f := range m.fs {
		keep, stale := f.k != "?t" && f.k != "?f", false
		for _, l := range f.a.leafs() {
			if live[l] && (l.op == "sym" || l.op == "alloc" || l.op == "loopvar") {
				keep = true
			}
			if !live[l] && strings.HasSuffix(l.aux, "'") && f.k[0] == '?' {
				stale = true
			}
		}
		if keep && !stale {
			nf = append(nf, f)
		}
	}
	m.fs = nf
}

func (m *Mon) isNil(t *Term) (bool, bool) {
	if t.op == "nil" {
		return true, true
	}
	return m.truth(m.e.n.eq(t, m.e.n.nilT()))
}

func (m *Mon) fail(rule, construct, format string, a ...interface{}) {
	m.c.violate(rule, construct, m.ev.Pos(), fmt.Sprintf(format, a...), m.trace())
}

// kill ends the exploration of this path.
func (m *Mon) kill() { m.dead = true }

func monKey(fs []MFact) string {
	ks := make([]string, len(fs))
	for i, f := range fs {
		a, b := -1, -1
		if f.a != nil {
			a = f.a.id
		}
		if f.b != nil {
			b = f.b.id
		}
		ks[i] = fmt.Sprintf("%s/%d/%d", f.k, a, b)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

type pnode struct {
	nd   *Node
	fs   []MFact
	from *pnode
	via  *Edge
}

// path reconstructs the events that lead to the current point.
func (m *Mon) path() []*Event {
	var edges []*Edge
	for p := m.pn; p != nil && p.via != nil; p = p.from {
		edges = append(edges, p.via)
	}
	var evs []*Event
	for i := len(edges) - 1; i >= 0; i-- {
		evs = append(evs, edges[i].evs...)
	}
	return evs
}

func (m *Mon) trace() []string {
	var out []string
	add := func(ev *Event) {
		switch ev.Kind {
		case "closure", "exit", "iter", "alloc", "append", "makeslice":
			return
		case "branch":
			if ev.OK {
				return
			}
		case "oblig":
			if ev.OK {
				return
			}
		}
		d := m.e.describe(ev)
		if len(d) > 220 {
			d = d[:220] + "..."
		}
		out = append(out, d)
	}
	for _, ev := range m.path() {
		add(ev)
	}
	if m.at != nil {
		for _, ed := range m.at.out {
			hit := false
			for i, ev := range ed.evs {
				if ev == m.ev && i == m.evi {
					hit = true
				}
			}
			if hit {
				for i := 0; i <= m.evi; i++ {
					add(ed.evs[i])
				}
				break
			}
		}
	}
	if len(out) > 120 {
		out = append(out[:20], append([]string{"..."}, out[len(out)-100:]...)...)
	}
	return out
}

// age renames the terms of the monitor state when their site is executed again.
func (m *Mon) age(ev *Event) {
	r := ev.Res
	if r == nil {
		return
	}
	var old *Term
	switch {
	case ev.Kind == "iter":
		old = m.oldOf(r)
	case (r.op == "sym" || r.op == "alloc") && r.site == ev.Site:
		old = m.e.n.mk(Term{op: r.op, aux: r.aux + "'", typ: r.typ, site: r.site})
	default:
		return
	}
	if m.e.o.Gen && ev.Kind == "iter" && r.obj == nil && r.aux == "" {
		older := m.e.n.mk(Term{op: "loopvar", aux: "''", typ: r.typ, site: r.site})
		nf := make([]MFact, len(m.fs))
		for i, f := range m.fs {
			nf[i] = MFact{f.k, m.e.n.subst(f.a, old, older), m.e.n.subst(f.b, old, older)}
		}
		m.fs = nf
	}
	hit := false
	for _, f := range m.fs {
		if f.a != nil && f.a.hasLeaf(r) || f.b != nil && f.b.hasLeaf(r) {
			hit = true
		}
	}
	if !hit {
		return
	}
	nf := make([]MFact, 0, len(m.fs))
	seen := map[string]bool{}
	for _, f := range m.fs {
		if (f.k == "?t" || f.k == "?f") && f.a.hasLeaf(old) {
			continue
		}
		g := MFact{f.k, m.e.n.subst(f.a, r, old), m.e.n.subst(f.b, r, old)}
		k := monKey([]MFact{g})
		if !seen[k] {
			seen[k] = true
			nf = append(nf, g)
		}
	}
	m.fs = nf
}

// product explores every path of e together with the monitor.
// step is called for each event; end (may be nil) for each path end with the last event.
func (c *Check) product(e *Exec, init []MFact, step func(m *Mon, ev *Event)) {
	c.noteExec(e)
	seen := map[string]bool{}
	var work []*pnode
	push := func(nd *Node, fs []MFact, from *pnode, via *Edge) {
		k := fmt.Sprintf("%d|%s", nd.id, monKey(fs))
		if seen[k] {
			return
		}
		seen[k] = true
		work = append(work, &pnode{nd, fs, from, via})
	}
	for _, nd := range e.Init {
		push(nd, init, nil, nil)
	}
	limit := 400000
	defer func() {
		if os.Getenv("GEV_STATS") == "" || len(seen) < 3000 {
			return
		}
		kinds := map[string]map[string]bool{}
		for k := range seen {
			_, fs, _ := strings.Cut(k, "|")
			by := map[string][]string{}
			for _, f := range strings.Split(fs, ";") {
				n, _, _ := strings.Cut(f, "/")
				by[n] = append(by[n], f)
			}
			for n, l := range by {
				if kinds[n] == nil {
					kinds[n] = map[string]bool{}
				}
				kinds[n][strings.Join(l, ";")] = true
			}
		}
		for n, l := range kinds {
			fmt.Fprintln(os.Stderr, "  ", n, len(l))
			if n == "?t" {
				cnt := map[string]int{}
				for x := range l {
					for _, y := range strings.Split(x, ";") {
						cnt[y]++
					}
				}
				for y, k := range cnt {
					var id int
					fmt.Sscanf(y, "?t/%d/", &id)
					for _, t := range c.n.byID {
						if t.id == id {
							fmt.Fprintln(os.Stderr, "      ", k, t)
						}
					}
				}
			}
		}
	}()
	for len(work) > 0 {
		// breadth first: short traces
		p := work[0]
		work = work[1:]
		if len(seen) > limit {
			c.undecided("state limit", "the product of %s with the property automaton is too large", e.Root)
			return
		}
		for _, ed := range p.nd.out {
			m := &Mon{c: c, e: e, fs: p.fs, pn: p, at: p.nd}
			for i, ev := range ed.evs {
				m.ev, m.evi = ev, i
				m.age(ev)
				step(m, ev)
				if ev.Kind == "branch" {
					m.condition(ev)
				}
				c.events++
				if m.dead {
					break
				}
			}
			c.prodEdges++
			if m.dead || ed.to == nil {
				continue
			}
			m.prune()
			push(ed.to, m.fs, p, ed)
		}
	}
	c.prodStates += len(seen)
}

func (c *Check) posOf(ev *Event) token.Pos { return ev.Pos() }
