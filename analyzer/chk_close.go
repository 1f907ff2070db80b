package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkFns["S06"] = checkS06 }

// chanSite is a statement that closes a channel or sends on one.
type chanSite struct {
	close   bool
	fn      *ssa.Function
	in      ssa.Instruction
	ch      ssa.Value
	covered bool
	done    bool // by the rules of its class
}

type closeCheck struct {
	c      *Check
	sites  map[ssa.Instruction]*chanSite
	order  []*chanSite
	elems  map[string]bool // element types of channels that are closed while others may know them
	subbed map[string]bool // those of channels that are closed without having been unsubscribed right there
}

func chanElemName(t types.Type) string {
	if el := chanElem(t); el != nil {
		return el.String()
	}
	return "?"
}

// collect lists all sites of the program that close or send.
func (k *closeCheck) collect() {
	add := func(fn *ssa.Function, in ssa.Instruction, ch ssa.Value, cl bool) {
		s := &chanSite{close: cl, fn: fn, in: in, ch: ch}
		k.sites[in] = s
		k.order = append(k.order, s)
	}
	for _, fn := range k.c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					add(fn, in, x.Chan, false)
				case *ssa.Select:
					for _, st := range x.States {
						if st.Dir == types.SendOnly {
							add(fn, in, st.Chan, false)
							break
						}
					}
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						add(fn, in, x.Common().Args[0], true)
					}
				}
			}
		}
	}
}

func (k *closeCheck) cover(ev *Event) {
	if ev.Site != nil {
		if s := k.sites[ev.Site.in]; s != nil {
			s.covered, s.done = true, true
		}
	}
}

// sendsOf lists the channels an event sends on (whether or not that case of a select is taken).
func sendsOf(ev *Event) []*Term {
	switch ev.Kind {
	case "send":
		return []*Term{ev.Args[0]}
	case "select":
		var r []*Term
		for _, cs := range ev.Cases {
			if cs.Send {
				r = append(r, cs.Ch)
			}
		}
		return r
	}
	return nil
}

func (s *chanSite) what() string {
	if s.close {
		return "close"
	}
	return "send"
}

// eventField: the channel is a field of server.Event.
func eventField(ch ssa.Value) bool {
	for {
		switch x := ch.(type) {
		case *ssa.ChangeType:
			ch = x.X
			continue
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				n, ok := derefType(fa.X.Type()).(*types.Named)
				return ok && n.Obj().Name() == "Event" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == srvPath
			}
		}
		return false
	}
}

func checkS06(c *Check) {
	k := &closeCheck{c: c, sites: map[ssa.Instruction]*chanSite{}, elems: map[string]bool{}, subbed: map[string]bool{}}
	// the done channel of events
	checkE01(c)
	c.expl = "Every statement of the program that closes a channel or sends on one is assigned a discipline that excludes sends and closes after a close, and the discipline is verified on all abstract paths: one-shot events (rules of E01); " +
		"session queues (closed at most once, by the only goroutine that sends on them, started once per session, each session started once); channels subscribed to the distributor (closed only after Unsubscribe or a refused Subscribe, and the " +
		"distributor's typestate rules make an unsubscribed channel quiet); everything else must close in a position that is reached once per object and not be sent on. A site no discipline covers is reported."
	c.assume = []string{"sync.Once, sync.Mutex and sync/atomic behave as documented", "V01: nothing is registered after the closed event fired"}
	k.collect()
	for _, s := range k.order {
		if eventField(s.ch) {
			s.covered, s.done = true, true
			c.instance("close sites", s.what()+" in "+fnName(s.fn))
		}
	}
	// subscribers
	d := c.distributor()
	if d == nil {
		return
	}
	d.subscriptionRules()
	for _, r := range d.roots {
		for _, t := range r.ts {
			t.Exec.eachEvent(func(ev *Event) {
				if len(deliveries(ev)) > 0 && len(deliveries(ev)) == len(sendsOf(ev)) {
					k.cover(ev)
				}
			})
		}
	}
	// sessions
	s := c.session()
	if s == nil {
		return
	}
	k.session(s)
	sv := c.closable("Server")
	if sv == nil {
		return
	}
	// channels created by an operation of the server, and everything else
	type group struct {
		fn *ssa.Function
		ts []*Thread
	}
	var gs []group
	done := map[*ssa.Function]bool{}
	explore := func(fn *ssa.Function, prim func(*ssa.Function) bool) {
		if done[fn] {
			return
		}
		done[fn] = true
		gs = append(gs, group{fn, c.threads(fn, Opts{Prim: prim, Access: true})})
	}
	fns, _ := sv.roots()
	for _, fn := range append(fns, sv.close) {
		explore(fn, sv.prim)
		k.startedOnce(gs[len(gs)-1].ts)
	}
	k.startSites(sv, done)
	seen := func() {
		for _, g := range gs {
			for _, t := range g.ts {
				t.Exec.eachEvent(func(ev *Event) {
					if len(sendsOf(ev)) > 0 || ev.Kind == "close" {
						if x := k.sites[ev.Site.in]; x != nil && !x.covered {
							x.covered = true
						}
					}
				})
			}
		}
	}
	seen()
	callers := c.p.callers()
	for _, x := range k.order {
		if x.covered {
			continue
		}
		used := false
		for _, fn := range rootsOf(callers, x.fn, nil) {
			if !dead(fn) {
				used = true
				explore(fn, c.p.sessPrim)
			}
		}
		if !used {
			x.covered, x.done = true, true
		}
		seen()
	}
	// first the closes: they tell on which types of channels a send is safe anyway
	for _, g := range gs {
		for _, t := range g.ts {
			k.closes(g.ts, t)
		}
	}
	for _, g := range gs {
		for _, t := range g.ts {
			k.sends(g.ts, t)
		}
	}
	for _, x := range k.order {
		c.instance("close sites", x.what()+" in "+fnName(x.fn))
		if !x.covered {
			c.violate("close sites", x.what()+" in "+fnName(x.fn), instrPos(x.in), "no discipline was found for this statement: it is not reached from any operation that was analysed", nil)
		}
	}
	c.floor("close sites", 5, "statements that close channels or send on them")
	c.floor("one closer", 1, "queues closed by their sender")
}

// session: a queue is closed at most once, by the only goroutine that ever sends on it.
func (k *closeCheck) session(s *sessModel) {
	c := k.c
	closers, senders := map[string]map[*Thread]bool{}, map[string]map[*Thread]bool{}
	put := func(m map[string]map[*Thread]bool, f string, t *Thread) {
		if m[f] == nil {
			m[f] = map[*Thread]bool{}
		}
		m[f][t] = true
	}
	pos := map[string]token.Pos{}
	all := append([]*Thread{s.root}, s.threads...)
	for _, t := range all {
		t.Exec.eachEvent(func(ev *Event) {
			for _, ch := range sendsOf(ev) {
				if b, f, ok := fieldOf(ch); ok && b == s.self {
					put(senders, f, t)
					k.cover(ev)
				}
			}
			if ev.Kind == "close" {
				if b, f, ok := fieldOf(ev.Args[0]); ok && b == s.self {
					put(closers, f, t)
					pos[f] = ev.Pos()
					k.cover(ev)
				}
			}
		})
	}
	for _, f := range sortStrings(closers) {
		c.instance("one closer", f)
		var who []string
		for t := range closers[f] {
			who = append(who, fnName(t.Fn))
		}
		sort.Strings(who)
		if len(closers[f]) > 1 {
			c.violate("one closer", f, pos[f], "the queue is closed by several goroutines: "+strings.Join(who, ", "), nil)
			continue
		}
		for t := range closers[f] {
			for u := range senders[f] {
				if u != t {
					c.violate("one closer", f, pos[f], "the queue is closed by "+fnName(t.Fn)+" while "+fnName(u.Fn)+" may be sending on it", nil)
				}
			}
			if t == s.root {
				continue
			}
			if t.From != s.root {
				c.undecided("one closer "+f, "the goroutine that closes the queue is not started by Start itself")
				continue
			}
			c.product(s.root.Exec, nil, func(m *Mon, ev *Event) {
				if ev.Kind == "go" && child(all, s.root, ev) == t {
					if m.has("go", nil) {
						m.fail("one closer", f, "the goroutine that closes the queue is started more than once")
					}
					m.set("go", nil, nil)
				}
			})
		}
	}
	for _, t := range all {
		c.product(t.Exec, nil, func(m *Mon, ev *Event) {
			for _, ch := range sendsOf(ev) {
				if b, f, ok := fieldOf(ch); ok && b == s.self && m.has("closed "+f, nil) {
					m.fail("after close", f+" in "+fnName(t.Fn), "sends on the queue after closing it")
				}
			}
			if ev.Kind == "close" {
				if b, f, ok := fieldOf(ev.Args[0]); ok && b == s.self {
					if m.has("closed "+f, nil) {
						m.fail("after close", f+" in "+fnName(t.Fn), "closes the queue again")
					}
					m.set("closed "+f, nil, nil)
				}
			}
		})
	}
	s.checkQueues()
}

// startedOnce: a session is only started by whoever created it, and once.
func (k *closeCheck) startedOnce(ts []*Thread) {
	c := k.c
	news := map[*Term]bool{}
	starts := map[*Thread]map[*Term]bool{}
	for _, t := range ts {
		starts[t] = map[*Term]bool{}
		t.Exec.eachEvent(func(ev *Event) {
			if ev.Kind == "call" && ev.Name == sessNew {
				news[ev.Res] = true
			}
		})
	}
	own := func(t *Thread, r *Term) bool {
		mine := false
		t.Exec.eachEvent(func(ev *Event) { mine = mine || ev.Kind == "call" && ev.Name == sessNew && ev.Res == r })
		return mine
	}
	for i := len(ts) - 1; i >= 0; i-- { // children come after the goroutine that starts them
		t := ts[i]
		t.Exec.eachEvent(func(ev *Event) {
			if ev.Kind == "call" && ev.Name == sessStart {
				starts[t][ev.Args[0]] = true
			}
		})
		for x := t; x.From != nil; x = x.From {
			for r := range starts[x] {
				if !own(x, r) {
					starts[x.From][r] = true
				}
			}
		}
	}
	for _, t := range ts {
		if len(starts[t]) == 0 {
			continue
		}
		started := func(m *Mon, ev *Event, r *Term) {
			c.instance("started once", evFn(ev))
			if !news[r] && !m.has("new", r) {
				m.fail("started once", evFn(ev), "a session is started that was not created for this connection")
				return
			}
			if m.has("st", r) {
				m.fail("started once", evFn(ev), "a session is started twice: its goroutines close the queues again")
			}
			m.set("st", r, nil)
		}
		c.product(t.Exec, nil, func(m *Mon, ev *Event) {
			switch {
			case ev.Kind == "call" && ev.Name == sessNew:
				m.set("new", ev.Res, nil)
				m.del("st", ev.Res)
			case ev.Kind == "call" && ev.Name == sessStart:
				started(m, ev, ev.Args[0])
			case ev.Kind == "go" && ev.Fn != nil && objName(ev.Fn) == sessStart:
				started(m, ev, ev.Args[0])
			case ev.Kind == "go":
				if x := child(ts, t, ev); x != nil {
					for r := range starts[x] {
						if !own(x, r) {
							started(m, ev, r)
						}
					}
				}
			}
		})
	}
}

// startSites: nobody but the operations of the server starts sessions.
func (k *closeCheck) startSites(sv *closable, done map[*ssa.Function]bool) {
	c := k.c
	start := c.p.fn("pkg/server", "Session", "Start")
	for from := range c.p.callers()[start] {
		ok := false
		for _, r := range rootsOf(c.p.callers(), from, nil) {
			ok = done[r]
			if !ok {
				break
			}
		}
		if !ok {
			c.violate("started once", fnName(from), from.Pos(), "a session is started outside the operations of the server", nil)
		}
	}
}

// isChan: the term is a channel created on the path.
func isNewChan(t *Term) bool {
	if t.op != "alloc" || t.typ == nil {
		return false
	}
	_, ok := t.typ.Underlying().(*types.Chan)
	return ok
}

func subscribes(ev *Event) (ch *Term, un, ok bool) {
	if ev.Kind != "call" || len(ev.Args) < 2 {
		return nil, false, false
	}
	switch {
	case strings.HasPrefix(ev.Name, "("+srvPath+".ConfigStore).") || strings.HasPrefix(ev.Name, "(*"+srvPath+".ConfigDistributor)."):
		n := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
		if n == "Subscribe" || n == "Unsubscribe" {
			return ev.Args[1], n == "Unsubscribe", true
		}
	}
	return nil, false, false
}

// closes decides the closes outside the session's queues.
func (k *closeCheck) closes(ts []*Thread, t *Thread) {
	c := k.c
	locals := map[*Term]bool{}
	t.Exec.eachEvent(func(ev *Event) {
		if ev.Kind == "close" && isNewChan(ev.Args[0]) {
			locals[ev.Args[0]] = true
		}
	})
	escapes := func(x *Term) bool {
		for l := range locals {
			if x == l || x != nil && x.op != "alloc" && x.hasLeaf(l) {
				return true
			}
		}
		return false
	}
	if len(locals) > 0 {
		// nobody else gets to know the channel
		for _, u := range ts {
			u.Exec.eachEvent(func(ev *Event) {
				bad := ""
				switch ev.Kind {
				case "store":
					if escapes(ev.Val) && ev.Addr.op != "alloc" {
						bad = "is stored"
					}
				case "mapset", "append":
					for _, a := range ev.Args {
						if escapes(a) {
							bad = "is stored"
						}
					}
				case "send":
					if escapes(ev.Args[1]) {
						bad = "is sent"
					}
				case "select":
					for _, cs := range ev.Cases {
						if cs.Send && escapes(cs.Val) {
							bad = "is sent"
						}
					}
				case "call":
					if strings.HasPrefix(ev.Name, "builtin.") {
						return
					}
					ch, _, isSub := subscribes(ev)
					for i, a := range ev.Args {
						if escapes(a) && !(isSub && i == 1 && a == ch) {
							bad = "is passed to " + shortName(ev.Name)
						}
					}
				case "close":
					if u != t && escapes(ev.Args[0]) {
						bad = "is closed by another goroutine"
					}
				}
				if u != t && bad == "" {
					for _, ch := range sendsOf(ev) {
						if escapes(ch) {
							bad = "is sent on by another goroutine"
						}
					}
					if ch, un, ok := subscribes(ev); ok && !un && escapes(ch) {
						bad = "is subscribed by another goroutine"
					}
				}
				if bad != "" {
					c.violate("private", "channel of "+fnName(t.Fn), ev.Pos(), "the channel that is closed "+bad, nil)
				}
			})
		}
	}
	any := false
	t.Exec.eachEvent(func(ev *Event) { any = any || ev.Kind == "close" })
	if !any {
		return
	}
	c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		who := evFn(ev)
		if ch, un, ok := subscribes(ev); ok {
			ch = unface(ch)
			if m.has("closed", ch) && !un {
				m.fail("after close", who, "a closed channel is subscribed")
			}
			_, field, isField := fieldOf(ch)
			if un {
				m.del("sub", ch)
			} else {
				m.set("sub", ch, ev.Res)
			}
			if isField && un {
				m.set("quiet:"+field, nil, nil)
			} else if isField {
				m.clear("quiet:" + field)
			}
		}
		for _, ch := range sendsOf(ev) {
			if m.has("closed", ch) {
				m.fail("after close", who, "sends on the channel after closing it")
			}
		}
		k.guards(m, ev)
		if ev.Kind != "close" {
			return
		}
		ch := ev.Args[0]
		if b, field, ok := fieldOf(ch); ok {
			if k.static(ev) {
				return // an event, or a queue of the session
			}
			if !m.has("quiet:"+field, nil) {
				k.subbed[chanElemName(ch.typ)] = true
			}
			c.instance("once per object", who)
			if !k.guarded(m, ev, b, ch) {
				m.fail("once per object", who, "nothing prevents the channel from being closed a second time")
			}
			k.elems[chanElemName(ch.typ)] = true
			return
		}
		if !isNewChan(ch) {
			k.elems[chanElemName(ch.typ)] = true
			k.subbed[chanElemName(ch.typ)] = true
			m.fail("private", who, "a channel is closed that was not created here")
			return
		}
		if m.has("closed", ch) {
			m.fail("after close", who, "the channel is closed twice")
		}
		if r := m.get("sub", ch); m.has("sub", ch) {
			c.instance("unsubscribed first", who)
			ok := false
			if r != nil {
				n, known := m.isNil(r)
				ok = known && !n
			}
			if !ok {
				m.fail("unsubscribed first", who, "the channel is closed while it is still subscribed")
			}
		} else {
			c.instance("unsubscribed first", who)
		}
		m.set("closed", ch, nil)
	})
}

// static: the site belongs to a class that was decided by its own rules.
func (k *closeCheck) static(ev *Event) bool {
	s := k.sites[ev.Site.in]
	return s != nil && s.done
}

// baseObject is the object a field or cell belongs to.
func baseObject(t *Term) *Term {
	for t != nil && t.op == "faddr" {
		t = t.args[0]
	}
	return t
}

// guards follows positions that are reached at most once per object.
func (k *closeCheck) guards(m *Mon, ev *Event) {
	switch ev.Kind {
	case "once":
		if ev.Truth {
			m.set("once?", baseObject(ev.Args[0]), nil)
		}
	case "enter":
		for _, f := range m.all("in") {
			d, _ := f.b.intVal()
			m.set("in", f.a, m.e.n.int(d+1))
		}
		for _, f := range m.all("once?") {
			m.set("in", f.a, m.e.n.int(1))
			m.del("once?", f.a)
		}
	case "exit":
		for _, f := range m.all("in") {
			d, _ := f.b.intVal()
			if d == 1 {
				m.del("in", f.a)
			} else {
				m.set("in", f.a, m.e.n.int(d-1))
			}
		}
	case "call":
		if ev.Name == evFire {
			if b, _, ok := fieldOf(ev.Args[0]); ok {
				m.set("fire", ev.Res, b)
			}
		}
		if kd, ok := atomicOp(ev.Name); ok && (kd == "CompareAndSwap" || kd == "Swap") && ev.Args[0].op == "faddr" {
			nw := ev.Args[len(ev.Args)-1]
			if kd == "CompareAndSwap" {
				if old := ev.Args[1]; old.isConst() && nw.isConst() && old != nw {
					m.set("fire", ev.Res, baseObject(ev.Args[0]))
				}
			} else if v, ok := nw.boolVal(); ok && v {
				m.set("fire", m.e.n.not(ev.Res), baseObject(ev.Args[0]))
			}
		}
		if l, x := isLock(ev); l && x && ev.Args[0].op == "faddr" {
			m.set("lock", ev.Args[0], baseObject(ev.Args[0]))
		}
		if u, _ := isUnlock(ev); u {
			m.del("lock", ev.Args[0])
			m.clear("open")
			for _, f := range m.all("due") {
				m.fail("once per object", evFn(ev), "the channel is closed under a lock, but nothing records that (%v)", f.a)
			}
			m.clear("due")
		}
	case "select":
		if !ev.Block && len(ev.Cases) == 1 && !ev.Cases[0].Send && ev.Chosen < 0 && len(m.all("lock")) > 0 {
			m.set("open", ev.Cases[0].Ch, nil)
		}
	case "store":
		m.del("due", ev.Addr)
	}
}

// guarded: the position is reached at most once for the object the channel belongs to.
func (k *closeCheck) guarded(m *Mon, ev *Event, b, ch *Term) bool {
	b = baseObject(b)
	if m.has("in", b) {
		return true
	}
	for _, f := range m.all("fire") {
		if v, known := m.truth(f.a); known && v && f.b == b {
			return true
		}
	}
	for _, l := range m.all("lock") {
		if l.b != b {
			continue
		}
		if m.has("open", ch) {
			return true
		}
		// a flag of the object that is still unset, or the channel that is still set
		st := m.state()
		for cond, v := range st.facts {
			x, a := (*Term)(nil), cond
			for a.op == "not" {
				a, v = a.args[0], !v
			}
			if fb, _, ok := fieldOf(a); ok && baseObject(fb) == b && !v {
				x = a.args[0]
			}
			if a.op == "eq" && !v {
				for i := 0; i < 2; i++ {
					if a.args[i].op == "nil" && a.args[1-i] == ch {
						x = ch.args[0]
					}
				}
			}
			if x != nil {
				if w, done := ev.St.mem[x]; !done || w == nil {
					m.set("due", x, nil)
				}
				return true
			}
		}
	}
	return false
}

// sends decides the sends outside the distributor and the session's queues.
func (k *closeCheck) sends(ts []*Thread, t *Thread) {
	c := k.c
	stored := map[*Term]bool{}
	for _, u := range ts {
		u.Exec.eachEvent(func(ev *Event) {
			if ev.Kind == "store" && ev.Addr.op != "alloc" && isNewChan(ev.Val) {
				stored[ev.Val] = true
			}
		})
	}
	t.Exec.eachEvent(func(ev *Event) {
		if ch, un, ok := subscribes(ev); ok && !un {
			ch = unface(ch)
			if !(isNewChan(ch) && !stored[ch]) && k.subbed[chanElemName(ch.typ)] {
				c.violate("unsubscribed first", evFn(ev), ev.Pos(), "nothing excludes that the channel is closed by somebody else while it is subscribed", nil)
			}
		}
		for _, ch := range sendsOf(ev) {
			if k.static(ev) {
				continue
			}
			c.instance("open channel", evFn(ev))
			if isNewChan(ch) && !stored[ch] {
				continue // closes of such channels are followed together with the sends
			}
			if k.elems[chanElemName(ch.typ)] {
				c.violate("open channel", evFn(ev), ev.Pos(), "nothing excludes that the channel is closed before this send", nil)
			}
		}
	})
}

// dead: nothing can call the function.
func dead(root *ssa.Function) bool {
	return root.Parent() == nil && (root.Object() == nil || !root.Object().Exported()) && root.Name() != "main" && !strings.HasPrefix(root.Name(), "init")
}
