package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkFns["K03"] = checkK03 }

// lockRoot is an entry point of the program from which locks are acquired.
type lockRoot struct {
	fn *ssa.Function
	ts []*Thread
}

// lockRoots explores every entry point from which a lock of the program is acquired, sessions and all goroutines included.
func (c *Check) lockRoots() []*lockRoot {
	callers := c.p.callers()
	sites := map[ssa.Instruction]*ssa.Function{}
	fns := map[*ssa.Function]bool{}
	var order []ssa.Instruction
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := ""
				if cal := ci.Common().StaticCallee(); cal != nil {
					name = objName(cal)
				} else if ci.Common().IsInvoke() {
					name = ci.Common().Method.FullName()
				}
				if l, _ := isLock(&Event{Kind: "call", Name: name}); !l {
					continue
				}
				if pk, n := recvNamed(topFn(fn)); pk == srvPath && n == "Event" {
					continue // E01
				}
				for _, r := range rootsOf(callers, fn, nil) {
					if !dead(r) {
						fns[r] = true
						sites[in] = fn
					}
				}
				order = append(order, in)
			}
		}
	}
	var fl []*ssa.Function
	for fn := range fns {
		fl = append(fl, fn)
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].String() < fl[j].String() })
	var out []*lockRoot
	for _, fn := range fl {
		out = append(out, &lockRoot{fn, c.threads(fn, Opts{Prim: c.p.connPrim, Access: true})})
	}
	for _, r := range out {
		for _, t := range r.ts {
			t.Exec.eachEvent(func(ev *Event) {
				if l, _ := isLock(ev); l {
					delete(sites, ev.Site.in)
				}
			})
		}
	}
	for _, in := range order {
		if fn := sites[in]; fn != nil {
			c.undecided("lock in "+fnName(fn), "the acquisition of a lock at %s is not reached from any entry point that was analysed", c.p.pos(in.Pos()))
		}
	}
	return out
}

func topFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// lockClass names a lock by the type and field it is kept in.
func lockClass(l *Term) string {
	if l.op == "faddr" {
		if n := namedOf(l.typ); n != "" {
			return n + "." + l.aux
		}
		if n := namedOf(l.args[0].typ); n != "" {
			return n + "." + l.aux
		}
		return "?." + l.aux
	}
	if l.op == "global" {
		return l.aux
	}
	return "local"
}

// lockStep keeps the locks held (lk), the objects created here that nobody else knows (pub: those that are known), and the
// events fired (fd).
func (m *Mon) heldStep(ev *Event) {
	publish := func(t *Term) {
		if t == nil {
			return
		}
		for _, l := range append([]*Term{t}, t.leaf...) {
			if l.op == "alloc" || l.op == "sym" || l.op == "call" {
				for _, f := range m.all("lk") {
					if baseObject(f.a) == l {
						m.set("pub", l, nil)
					}
				}
			}
		}
	}
	switch ev.Kind {
	case "store":
		if ev.Addr.op != "alloc" {
			publish(ev.Val)
		}
	case "mapset":
		publish(ev.Args[1])
		publish(ev.Args[2])
	case "append":
		for _, a := range ev.Args {
			publish(a)
		}
	case "send":
		publish(ev.Args[1])
	case "select":
		for _, cs := range ev.Cases {
			publish(cs.Val)
		}
	case "go":
		for _, a := range append(append([]*Term{}, ev.Bind...), ev.Args...) {
			publish(a)
		}
	case "call":
		if l, ex := isLock(ev); l {
			m.set("lk", ev.Args[0], m.e.n.boolean(ex))
			return
		}
		if u, _ := isUnlock(ev); u {
			m.del("lk", ev.Args[0])
			m.del("pub", baseObject(ev.Args[0]))
			return
		}
		if ev.Name == evFire {
			if b, _, ok := fieldOf(ev.Args[0]); ok {
				m.set("fd", ev.Args[0], b)
			}
		}
		if strings.HasPrefix(ev.Name, "(*sync.") || strings.HasPrefix(ev.Name, "sync/atomic.") || ev.Name == evFire || ev.Name == evHas || ev.Name == evDone {
			return
		}
		for _, a := range ev.Args {
			publish(a)
		}
	}
}

// private: the object was created on this path and nobody else can know it.
func (m *Mon) private(lock *Term) bool {
	b := baseObject(lock)
	return b != nil && b.op == "alloc" && !m.has("pub", b)
}

// waitsFor names what an event may wait for ("" if it cannot wait) and the events whose firing ends the wait.
func waitsFor(ev *Event) (what string, ends []*Term) {
	switch ev.Kind {
	case "send", "recv":
		if ev.Args[0].op == "done" {
			return "event", []*Term{ev.Args[0].args[0]}
		}
		return map[string]string{"send": "sending on ", "recv": "receiving from "}[ev.Kind] + ev.Args[0].String(), nil
	case "select":
		if !ev.Block {
			return "", nil
		}
		for _, cs := range ev.Cases {
			if !cs.Send && cs.Ch.op == "done" {
				ends = append(ends, cs.Ch.args[0])
			}
		}
		return "a select", ends
	case "call":
		if op := connOp(ev); strings.HasPrefix(op, "Recv") || strings.HasPrefix(op, "Send") {
			return op, nil
		}
		if w := blockingCall(ev); w != "" {
			return shortName(w), nil
		}
		if _, un, ok := subscribes(ev); ok && !un {
			return "Subscribe", nil
		}
	}
	return "", nil
}

// eventOf is the field of the object that holds the event ("" if none does).
func eventOf(s *State, e, obj *Term) string {
	if b, f, ok := fieldOf(e); ok && b == obj {
		return f
	}
	best := ""
	for a, v := range s.mem {
		if v == e && a.op == "faddr" && a.args[0] == obj && (best == "" || a.aux < best) {
			best = a.aux
		}
	}
	return best
}

func checkK03(c *Check) {
	c.expl = "Lock analysis over every entry point from which a lock is acquired (goroutines and sessions included): with a lock held, an operation that can wait must be a select that the event of the object owning the lock ends, and everybody else acquires " +
		"such a lock only after firing that event; no lock is acquired again by its holder; the acquisition order of the lock classes has no cycle; no unknown function is called and no configuration awaited under a lock."
	c.assume = []string{"predicates given to Subscribe do not wait", "Close of a network connection or listener does not wait", "sync.Mutex and sync.RWMutex as documented"}
	roots := c.lockRoots()
	waits := map[string]string{} // class of locks held while waiting -> field of the event that ends the wait
	edges := map[string]map[string]token.Pos{}
	for _, r := range roots {
		for _, t := range r.ts {
			c.product(t.Exec, nil, func(m *Mon, ev *Event) {
				who := evFn(ev)
				if what, ends := waitsFor(ev); what != "" {
					for _, f := range m.all("lk") {
						cl := lockClass(f.a)
						c.instance("wait", cl+" "+who)
						fld := ""
						for _, e := range ends {
							if ef := eventOf(ev.St, e, baseObject(f.a)); ef != "" {
								fld = ef
							}
						}
						if fld == "" {
							m.fail("wait", cl+" in "+who, "%s may wait while %s is held", what, cl)
							continue
						}
						if o := waits[cl]; o != "" && o != fld {
							m.fail("wait", cl+" in "+who, "waits under the lock are ended by different events")
						}
						waits[cl] = fld
					}
				}
				if ev.Kind == "call" && ev.Name == "dynamic" && !predicate(ev) && len(m.all("lk")) > 0 {
					m.fail("callback", who, "an unknown function is called while %s is held", lockClass(m.all("lk")[0].a))
				}
				if l, _ := isLock(ev); l {
					c.instance("order", lockClass(ev.Args[0])+" in "+who)
					cl := lockClass(ev.Args[0])
					for _, f := range m.all("lk") {
						if f.a == ev.Args[0] {
							m.fail("again", cl+" in "+who, "%s is acquired again by its holder", cl)
							continue
						}
						if m.private(f.a) || m.private(ev.Args[0]) {
							continue
						}
						h := lockClass(f.a)
						if h == cl {
							m.fail("order", cl+" in "+who, "%s of one object is acquired while that of another one is held", cl)
							continue
						}
						if edges[h] == nil {
							edges[h] = map[string]token.Pos{}
						}
						edges[h][cl] = ev.Pos()
					}
				}
				m.heldStep(ev)
			})
		}
	}
	// locks that are held while waiting
	for _, r := range roots {
		for _, t := range r.ts {
			c.product(t.Exec, nil, func(m *Mon, ev *Event) {
				if l, _ := isLock(ev); l {
					cl := lockClass(ev.Args[0])
					if fld := waits[cl]; fld != "" && !m.private(ev.Args[0]) {
						fired := false
						for _, f := range m.all("fd") {
							if b, ef, ok := fieldOf(f.a); ok && b == baseObject(ev.Args[0]) && ef == fld {
								fired = true
							}
						}
						c.instance("interrupt", cl+" in "+evFn(ev))
						held := ""
						for _, f := range m.all("lk") {
							if !m.private(f.a) {
								held = lockClass(f.a)
							}
						}
						switch {
						case fired:
						case held != "":
							m.fail("interrupt", cl+" in "+evFn(ev), "waits for %s, whose holder may be waiting, while %s is held", cl, held)
						case t.Kind == "root":
							m.fail("interrupt", cl+" in "+evFn(ev), "waits for %s, whose holder may be waiting for a subscriber, without firing %s first", cl, fld)
						}
					}
				}
				m.heldStep(ev)
			})
		}
	}
	// predicates run while the lock of their subscription is held
	for _, fn := range c.p.Funcs {
		if !isPredicate(fn.Signature) {
			continue
		}
		c.product(c.explore(fn, Opts{Prim: c.p.connPrim}), nil, func(m *Mon, ev *Event) {
			c.instance("predicate", fnName(fn))
			if what, _ := waitsFor(ev); what != "" {
				m.fail("predicate", fnName(fn), "a predicate waits: %s", what)
			}
			if l, _ := isLock(ev); l {
				m.fail("predicate", fnName(fn), "a predicate acquires %s", lockClass(ev.Args[0]))
			}
			if _, un, ok := subscribes(ev); ok && un {
				m.fail("predicate", fnName(fn), "a predicate cancels a subscription")
			}
		})
	}
	// cycles
	var names []string
	for h := range edges {
		names = append(names, h)
	}
	sort.Strings(names)
	for _, h := range names {
		for _, to := range sortStrings(edges[h]) {
			if path := reach(edges, to, h, map[string]bool{}); path != nil {
				c.violate("order", h+" -> "+to, edges[h][to], "the locks are acquired in conflicting orders: "+strings.Join(append([]string{h}, path...), " -> "), nil)
			}
			c.instance("order", h+" before "+to)
		}
	}
	c.floor("order", 4, "acquisitions of locks")
}

// reach finds a way through the acquisition order.
func reach(edges map[string]map[string]token.Pos, from, to string, seen map[string]bool) []string {
	if from == to {
		return []string{to}
	}
	if seen[from] {
		return nil
	}
	seen[from] = true
	for _, x := range sortStrings(edges[from]) {
		if p := reach(edges, x, to, seen); p != nil {
			return append([]string{from}, p...)
		}
	}
	return nil
}

// predicate: a dynamic call of a function that compares configurations.
func predicate(ev *Event) bool {
	if ev.Val == nil || ev.Val.typ == nil {
		return false
	}
	sg, ok := ev.Val.typ.Underlying().(*types.Signature)
	return ok && isPredicate(sg)
}

func isPredicate(sg *types.Signature) bool {
	return sg.Params().Len() == 2 && sg.Results().Len() == 1 && namedOf(sg.Params().At(0).Type()) == "Config" && namedOf(sg.Params().At(1).Type()) == "Config" &&
		types.Identical(sg.Results().At(0).Type(), types.Typ[types.Bool])
}
