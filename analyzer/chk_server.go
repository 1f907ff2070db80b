package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checkFns["V01"] = checkV01
	checkFns["V02"] = checkV02
	checkFns["V03"] = checkV03
	checkFns["V04"] = checkV04
}

// closable is a type of the package server whose Close fires an event that ends its life.
type closable struct {
	c     *Check
	name  string
	event string // field holding the event that Close fires first
	close *ssa.Function
	exec  *Exec // exploration of Close
	self  *Term // its receiver
	prim  func(*ssa.Function) bool
}

func (c *Check) closable(name string) *closable {
	k := &closable{c: c, name: name}
	switch name {
	case "Server":
		k.prim = c.p.sessPrim
	default:
		k.prim = c.p.connPrim
	}
	k.close = c.mustFn("pkg/server", name, "Close")
	if k.close == nil {
		return nil
	}
	k.exec = c.explore(k.close, Opts{Prim: k.prim, Access: true})
	k.self = c.n.param(k.close, 0, k.close.Params[0])
	fields := map[string]int{}
	c.product(k.exec, nil, func(m *Mon, ev *Event) {
		if ev.Kind != "call" || ev.Name != evFire {
			return
		}
		if b, f, ok := fieldOf(ev.Args[0]); ok && b == k.self {
			if len(m.all("first")) == 0 {
				fields[f]++
			}
			m.set("first", nil, nil)
		}
	})
	for f := range fields {
		if k.event == "" || f < k.event {
			k.event = f
		}
	}
	if len(fields) != 1 {
		c.violate("closed event", fnName(k.close), k.close.Pos(), "Close does not begin by firing one event of its own", nil)
		return nil
	}
	return k
}

// isEvent: t is the closed event of self.
func (k *closable) isEvent(t, self *Term) bool {
	b, f, ok := fieldOf(t)
	return ok && b == self && f == k.event
}

// isEnd: ch is the channel of the closed event.
func (k *closable) isEnd(ch, self *Term) bool {
	return ch != nil && ch.op == "done" && k.isEvent(ch.args[0], self)
}

// roots lists the exported operations apart from Close, with their receivers.
func (k *closable) roots() (fns []*ssa.Function, selves []*Term) {
	for _, fn := range k.c.p.Funcs {
		if fn.Object() == nil || !fn.Object().Exported() || fn.Name() == "Close" || fn.Blocks == nil || fn.Synthetic != "" {
			continue
		}
		if pk, n := recvNamed(fn); pk == srvPath && n == k.name {
			fns = append(fns, fn)
			selves = append(selves, k.c.n.param(fn, 0, fn.Params[0]))
		}
	}
	return
}

// locks keeps track of the locks held and of what was learnt about the closed event while holding them.
func (k *closable) locks(m *Mon, ev *Event, self *Term) {
	if l, ex := isLock(ev); l {
		x := m.e.n.boolean(ex)
		m.set("lk", ev.Args[0], x)
	}
	if u, _ := isUnlock(ev); u {
		l := ev.Args[0]
		m.del("lk", l)
		for _, f := range m.all("op") {
			if f.b == l {
				m.del("op", f.a)
			}
		}
	}
	if ev.Kind == "call" && ev.Name == evHas && k.isEvent(ev.Args[0], self) {
		for _, l := range m.all("lk") {
			m.set("op", m.e.n.mk(Term{op: "tuple", args: []*Term{ev.Res, l.a}}), l.a)
		}
	}
}

// open lists the exclusive locks under which the closed event is known not to have fired.
func (m *Mon) open() []*Term {
	var r []*Term
	for _, f := range m.all("op") {
		if v, known := m.truth(f.a.args[0]); known && !v {
			if x := m.get("lk", f.b); x != nil {
				if ex, ok := x.boolVal(); ok && ex {
					r = append(r, f.b)
				}
			}
		}
	}
	return r
}

// lockField is the field of self that holds the lock.
func lockField(l, self *Term) string {
	if l.op == "faddr" && l.args[0] == self {
		return l.aux
	}
	return ""
}

// registers tells whether an event adds something to the object that its Close has to know about.
func (k *closable) registers(m *Mon, ev *Event, self *Term) (field, what string) {
	own := func(a *Term) (string, bool) {
		if a != nil && a.op == "faddr" && a.args[0] == self {
			return a.aux, true
		}
		return "", false
	}
	switch ev.Kind {
	case "store":
		f, ok := own(ev.Addr)
		if !ok {
			return "", ""
		}
		if n, known := m.isNil(ev.Val); known && n {
			return "", ""
		}
		ft := fieldType(ev)
		if ft == nil {
			return "", ""
		}
		if mt, isMap := ft.Underlying().(*types.Map); isMap {
			if !isResource(mt.Key()) && !isResource(mt.Elem()) {
				return "", ""
			}
			m.set("fm", ev.Val, m.e.n.mk(Term{op: "const", aux: f}))
			if m.has("empty", ev.Val) {
				return "", "" // there is nothing in it yet
			}
			return f, "a " + ft.String()
		}
		if isConnType(ft) || typeIs(ft, "net", "Listener") || typeIs(ft, "net", "Conn") {
			return f, "a " + types.TypeString(ft, func(p *types.Package) string { return p.Name() })
		}
	case "makemap":
		m.set("empty", ev.Res, nil)
	case "mapset":
		m.del("empty", ev.Args[0])
		if b, f, ok := fieldOf(ev.Args[0]); ok && b == self {
			return f, "an entry of " + f
		}
		if x := m.get("fm", ev.Args[0]); x != nil {
			return x.aux, "an entry of " + x.aux
		}
	case "call":
		if ev.Name == "(*sync.WaitGroup).Add" || ev.Name == "(*sync.WaitGroup).Go" {
			if f, ok := own(ev.Args[0]); ok {
				return f, "a tracked goroutine"
			}
		}
	}
	return "", ""
}

// isResource: values of this type refer to something that can be in use.
func isResource(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func fieldType(ev *Event) types.Type {
	switch in := ev.Site.in.(type) {
	case *ssa.Store:
		return derefType(in.Addr.Type())
	case *ssa.UnOp:
		return in.Type()
	}
	return nil
}

func typeIs(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// isGlobalErr: t is the value of the package variable name.
func isGlobalErr(t *Term, name string) bool {
	if t.op == "load" && t.args[0].op == "global" {
		if g, ok := t.args[0].obj.(*ssa.Global); ok {
			return g.Name() == name
		}
	}
	return false
}

func checkV01(c *Check) {
	c.expl = "For Server, Session and ConfigDistributor: every registration (listener, session, subscription, connection, tracked goroutine) happens with a lock held exclusively under which the closed event was checked; Close fires that event first and reads " +
		"each registered field under the same lock afterwards; with the event fired every operation ends with the 'closed' error without any effect."
	c.assume = []string{"E01: a fired event stays fired, and HasFired called after Fire returned reports it", "sync.Mutex provides mutual exclusion"}
	for _, name := range []string{"Server", "Session", "ConfigDistributor"} {
		k := c.closable(name)
		if k == nil {
			continue
		}
		k.registrations()
		fns, selves := k.roots()
		for i, fn := range fns {
			k.refused(fn, selves[i])
		}
	}
	c.floor("registration", 4, "registrations")
	c.floor("refusal", 5, "operations refused after Close")
}

// registrations: nothing is registered once the closed event fired, and Close sees everything that was.
func (k *closable) registrations() {
	c := k.c
	fns, selves := k.roots()
	regs := map[string]map[string]bool{} // field -> lock fields used at every registration
	for i, fn := range fns {
		self := selves[i]
		for _, t := range c.threads(fn, Opts{Prim: k.prim}) {
			who := fnName(t.Fn)
			c.product(t.Exec, nil, func(m *Mon, ev *Event) {
				k.locks(m, ev, self)
				f, what := k.registers(m, ev, self)
				if f == "" {
					return
				}
				c.instance("registration", evFn(ev)+": "+f)
				ls := map[string]bool{}
				for _, l := range m.open() {
					if lf := lockField(l, self); lf != "" {
						ls[lf] = true
					}
				}
				if len(ls) == 0 {
					m.fail("registered only while open", evFn(ev)+": "+f, "%s registers %s without knowing, under a lock, that %s is not closed", who, what, k.event)
					return
				}
				if regs[f] == nil {
					regs[f] = ls
					return
				}
				for l := range regs[f] {
					if !ls[l] {
						delete(regs[f], l)
					}
				}
			})
		}
	}
	k.closeSees(regs)
}

// closeSees: Close reads every registered field under the lock of the registrations, after the event is fired.
func (k *closable) closeSees(regs map[string]map[string]bool) {
	c := k.c
	who := fnName(k.close)
	for f, ls := range regs {
		f, ls := f, ls
		if len(ls) == 0 {
			c.violate("registered only while open", k.name+"."+f, k.close.Pos(), "registrations use different locks", nil)
			continue
		}
		c.instance("close sees", k.name+"."+f)
		seen := c.n.mk(Term{op: "const", aux: "seen " + f})
		c.product(k.exec, nil, func(m *Mon, ev *Event) {
			switch {
			case ev.Kind == "call" && ev.Name == evFire && k.isEvent(ev.Args[0], k.self):
				m.set("fire", ev.Res, nil)
				return
			}
			if l, _ := isLock(ev); l {
				// only what is acquired after the event is fired counts
				if len(m.all("fire")) > 0 {
					m.set("lk", ev.Args[0], nil)
				}
			}
			if u, _ := isUnlock(ev); u {
				m.del("lk", ev.Args[0])
			}
			read := ev.Kind == "load" && ev.Addr.op == "faddr" && ev.Addr.args[0] == k.self && ev.Addr.aux == f ||
				ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Wait" && ev.Args[0].op == "faddr" && ev.Args[0].args[0] == k.self && ev.Args[0].aux == f
			if read && ev.Kind == "load" {
				ok := false
				for _, l := range m.all("lk") {
					ok = ok || ls[lockField(l.a, k.self)]
				}
				if ok {
					m.set("seen", seen, nil)
				}
			}
			if read && ev.Kind == "call" && m.has("was", nil) {
				m.set("seen", seen, nil)
			}
			for _, l := range m.all("lk") {
				if ls[lockField(l.a, k.self)] {
					m.set("was", nil, nil) // whoever registers from now on sees the event
				}
			}
			if ev.Kind == "return" && !m.has("seen", seen) {
				for _, x := range m.all("fire") {
					if v, known := m.truth(x.a); known && !v {
						return
					}
				}
				m.fail("close sees", k.name+"."+f, "%s returns without having looked at %s under the lock of its registrations after firing %s", who, f, k.event)
			}
		})
	}
}

// refused: with the closed event fired before the call, the operation fails without any effect.
func (k *closable) refused(fn *ssa.Function, self *Term) {
	c := k.c
	if lastError(fn.Signature) < 0 {
		return
	}
	who := fnName(fn)
	want := "Err" + k.name + "Closed"
	c.instance("refusal", who)
	e := c.explore(fn, Opts{Prim: k.prim})
	c.product(e, nil, func(m *Mon, ev *Event) {
		switch ev.Kind {
		case "call":
			if ev.Name == evHas && k.isEvent(ev.Args[0], self) {
				m.set("isfired", ev.Res, nil)
			}
			if ev.Name == evFire && k.isEvent(ev.Args[0], self) {
				m.set("notfired", ev.Res, nil)
			}
			if isDial(ev.Name) || ev.Name == "net.Listen" || strings.HasSuffix(ev.Name, ".Subscribe") || strings.HasSuffix(ev.Name, "Session).Start") ||
				strings.HasPrefix(connOp(ev), "Recv") || strings.HasPrefix(connOp(ev), "Send") || ev.Method != nil && ev.Method.Name() == "Accept" {
				m.fail("refusal", who, "%s is called although %s was fired before", shortName(ev.Name), k.event)
			}
		case "branch":
			cond, tr := ev.Cond, ev.Truth
			for cond.op == "not" {
				cond, tr = cond.args[0], !tr
			}
			if m.has("isfired", cond) && !tr || m.has("notfired", cond) && tr {
				m.kill()
				return
			}
		case "go":
			m.fail("refusal", who, "a goroutine is started although %s was fired before", k.event)
		case "return":
			if r := ev.Args[len(ev.Args)-1]; !isGlobalErr(r, want) {
				m.fail("refusal", who, "returns %v instead of %s although %s was fired before", r, want, k.event)
			}
		}
		if f, what := k.registers(m, ev, self); f != "" {
			m.fail("refusal", who, "%s is registered although %s was fired before", what, k.event)
		}
	})
}
