package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkFns["E01"] = checkE01 }

// atomic operations: name -> kind, index of the address and the new value
func atomicOp(name string) (kind string, ok bool) {
	if strings.HasPrefix(name, "sync/atomic.") {
		n := strings.TrimPrefix(name, "sync/atomic.")
		for _, k := range []string{"CompareAndSwap", "Load", "Store", "Swap", "Add"} {
			if strings.HasPrefix(n, k) {
				return k, true
			}
		}
	}
	if strings.HasPrefix(name, "(*sync/atomic.") {
		i := strings.LastIndex(name, ").")
		n := name[i+2:]
		for _, k := range []string{"CompareAndSwap", "Load", "Store", "Swap", "Add"} {
			if n == k {
				return k, true
			}
		}
	}
	return "", false
}

// checkE01: the one-shot event. Its done channel is closed and its flag set only inside a position that at most one
// caller ever reaches (once body, successful compare-and-swap from zero, or exclusive lock with the flag still unset);
// Fire returns true exactly on the paths through that position; HasFired reports the flag; nothing resets anything.
func checkE01(c *Check) {
	c.expl = "Typestate of server.Event: every path of Fire, HasFired, Done and NewEvent is enumerated by abstract interpretation; " +
		"rules: done channel closed only in a position guarded against a second entry; flag set before the channel is closed; " +
		"Fire returns true exactly on guarded paths; HasFired derives from that flag or channel; neither is written elsewhere in the program."
	c.assume = []string{"sync.Once, sync.Mutex and sync/atomic behave as documented"}
	fire, has, done, ctor := c.mustFn("pkg/server", "Event", "Fire"), c.mustFn("pkg/server", "Event", "HasFired"),
		c.mustFn("pkg/server", "Event", "Done"), c.mustFn("pkg/server", "", "NewEvent")
	if fire == nil || has == nil || done == nil || ctor == nil {
		return
	}

	// Done: which field is the channel
	chanField := ""
	de := c.explore(done, Opts{})
	c.product(de, nil, func(m *Mon, ev *Event) {
		if ev.Kind == "return" {
			b, f, ok := fieldOf(ev.Args[0])
			if !ok || b.op != "param" {
				m.fail("done channel", fnName(done), "Done does not return a channel field of the event but %v", ev.Args[0])
				return
			}
			if chanField != "" && chanField != f {
				m.fail("done channel", fnName(done), "Done returns different channels")
			}
			chanField = f
			c.instance("done channel", f)
		}
	})
	if chanField == "" {
		c.undecided("done channel", "cannot tell which channel Done returns")
		return
	}
	isDone := func(t *Term) bool { b, f, ok := fieldOf(t); return ok && f == chanField && b.op == "param" }

	// HasFired: flag field or channel
	flagField, flagVal := "", (*Term)(nil)
	viaChan := false
	he := c.explore(has, Opts{})
	c.product(he, nil, func(m *Mon, ev *Event) {
		switch {
		case ev.Kind == "call":
			if k, ok := atomicOp(ev.Name); ok && k == "Load" && ev.Args[0].op == "faddr" && ev.Args[0].args[0].op == "param" {
				m.set("ld", ev.Res, ev.Args[0])
			} else if l, _ := isLock(ev); l {
				m.set("locked", nil, ev.Args[0])
			} else if u, _ := isUnlock(ev); u {
				m.clear("locked")
			}
		case ev.Kind == "select" && !ev.Block && len(ev.Cases) == 1 && !ev.Cases[0].Send && isDone(ev.Cases[0].Ch):
			viaChan = true
			m.clear("chan")
			m.set("chan", m.e.n.boolean(ev.Chosen == 0), nil)
		case ev.Kind == "return":
			r := ev.Args[0]
			if m.has("chan", nil) || len(m.all("chan")) > 0 {
				w := m.all("chan")[0].a
				if v, known := m.truth(r); !known || m.e.n.boolean(v) != w {
					m.fail("has fired", fnName(has), "HasFired does not report whether the done channel is closed")
				}
				c.instance("has fired", "done channel closed = "+w.String())
				return
			}
			neg := false
			cond := r
			if v, ok := r.boolVal(); ok {
				// derived from a branch on the flag
				for f, fv := range ev.St.facts {
					for _, l := range m.all("ld") {
						if f.hasLeaf(l.a) {
							cond = f
							neg = fv != v
						}
					}
				}
			}
			for cond.op == "not" {
				cond, neg = cond.args[0], !neg
			}
			var sym, val *Term
			if cond.op == "eq" {
				for i := 0; i < 2; i++ {
					if m.has("ld", cond.args[i]) {
						sym, val = cond.args[i], cond.args[1-i]
					}
				}
			} else if m.has("ld", cond) {
				sym, val = cond, m.e.n.boolean(true)
			}
			if sym == nil || !val.isConst() {
				m.fail("has fired", fnName(has), "HasFired returns %v, which is not a comparison of an atomically read flag of the event", r)
				return
			}
			flagField = m.get("ld", sym).aux
			if neg {
				// flag != 0
				if i, ok := val.intVal(); ok && i == 0 {
					flagVal = nil
				} else {
					m.fail("has fired", fnName(has), "HasFired is true unless the flag equals %v", val)
					return
				}
			} else {
				flagVal = val
				if i, ok := val.intVal(); ok && i == 0 {
					m.fail("has fired", fnName(has), "HasFired is true while the flag has its initial value")
				}
			}
			c.instance("has fired", "flag "+flagField)
		}
	})
	if flagField == "" && !viaChan {
		c.undecided("has fired", "cannot tell what HasFired reports")
		return
	}
	isFlag := func(a *Term) bool {
		return a != nil && a.op == "faddr" && a.aux == flagField && a.args[0].op == "param"
	}
	okFlagVal := func(v *Term) bool {
		if flagVal != nil {
			return v == flagVal
		}
		i, ok := v.intVal()
		b, okb := v.boolVal()
		return ok && i != 0 || okb && b
	}

	// Fire
	fe := c.explore(fire, Opts{})
	guards := map[string]bool{}
	c.product(fe, nil, func(m *Mon, ev *Event) {
		own := func(a *Term) bool { return a != nil && rootOf(a).op == "param" }
		switch ev.Kind {
		case "once":
			if !own(ev.Args[0]) {
				break
			}
			if ev.Truth {
				m.set("guard", nil, nil)
				m.set("onceguard", nil, nil)
				guards["once "+ev.Args[0].String()] = true
			}
		case "call":
			if k, ok := atomicOp(ev.Name); ok {
				switch {
				case k == "CompareAndSwap" && own(ev.Args[0]):
					m.set("cas", ev.Res, ev.Args[0])
					// remember operands by setting facts
					m.set("casold", ev.Res, ev.Args[1])
					m.set("casnew", ev.Res, ev.Args[2])
				case k == "Swap" && own(ev.Args[0]):
					m.set("swap", ev.Res, ev.Args[0])
					m.set("casnew", ev.Res, ev.Args[1])
				case k == "Store" && isFlag(ev.Args[0]):
					if !okFlagVal(ev.Args[1]) {
						m.fail("latched", fnName(fire), "the flag is set to %v, which HasFired does not report as fired", ev.Args[1])
						return
					}
					if !m.has("guard", nil) {
						m.fail("one caller", fnName(fire), "the flag is set outside the position that only one caller reaches")
						return
					}
					m.set("flag", nil, nil)
				case k == "Add":
					m.fail("latched", fnName(fire), "the flag is changed by addition")
				}
			}
			if l, x := isLock(ev); l && x && own(ev.Args[0]) {
				m.set("locked", nil, ev.Args[0])
			}
			if u, _ := isUnlock(ev); u {
				m.clear("locked")
			}
		case "branch":
			cond, tr := ev.Cond, ev.Truth
			for cond.op == "not" {
				cond, tr = cond.args[0], !tr
			}
			if a := m.get("cas", cond); a != nil && tr {
				old, nw := m.get("casold", cond), m.get("casnew", cond)
				z := false
				if i, ok := old.intVal(); ok && i == 0 {
					z = true
				}
				if b, ok := old.boolVal(); ok && !b {
					z = true
				}
				if z && nw != old {
					m.set("guard", nil, nil)
					guards["compare-and-swap "+a.String()] = true
					if isFlag(a) && okFlagVal(nw) {
						m.set("flag", nil, nil)
					}
				}
			}
			// swap(flag, v) == 0
			if cond.op == "eq" || m.has("swap", cond) {
				for _, f := range m.all("swap") {
					hit := false
					if cond == f.a && !tr {
						hit = true
					}
					if cond.op == "eq" && tr {
						for i := 0; i < 2; i++ {
							if v, ok := cond.args[1-i].intVal(); ok && v == 0 && cond.args[i] == f.a {
								hit = true
							}
						}
					}
					if hit {
						m.set("guard", nil, nil)
						guards["swap "+f.b.String()] = true
						if isFlag(f.b) && okFlagVal(m.get("casnew", f.a)) {
							m.set("flag", nil, nil)
						}
					}
				}
			}
			if m.has("locked", nil) && !ev.OK {
				// the flag is known to be unset under the exclusive lock
				for _, l := range cond.leaf {
					_ = l
				}
				if a := flagLoad(cond, isFlag); a != nil && !tr {
					m.set("guard", nil, nil)
					guards["lock"] = true
				}
			}
		case "select":
			if !ev.Block && len(ev.Cases) == 1 && !ev.Cases[0].Send && isDone(ev.Cases[0].Ch) && ev.Chosen < 0 && m.has("locked", nil) {
				m.set("guard", nil, nil)
				guards["lock + open channel"] = true
			}
		case "store":
			if isFlag(ev.Addr) {
				if !okFlagVal(ev.Val) {
					m.fail("latched", fnName(fire), "the flag is set to %v, which HasFired does not report as fired", ev.Val)
				} else if !m.has("guard", nil) {
					m.fail("one caller", fnName(fire), "the flag is set outside the position that only one caller reaches")
				}
				m.set("flag", nil, nil)
			}
		case "close":
			if !isDone(ev.Args[0]) {
				break
			}
			if !m.has("guard", nil) {
				m.fail("one caller", fnName(fire), "the done channel is closed outside the position that only one caller reaches")
				return
			}
			if m.has("closed", nil) {
				m.fail("one caller", fnName(fire), "the done channel is closed twice")
				return
			}
			if flagField != "" && !m.has("flag", nil) {
				m.fail("latched", fnName(fire), "the done channel is closed before the event reports having fired")
				return
			}
			m.set("closed", nil, nil)
			c.instance("closes done", evFn(ev))
		case "panic":
			m.fail("total", fnName(fire), "Fire panics")
		case "return":
			v, known := m.truth(ev.Args[0])
			if !known {
				// CAS result returned directly
				if m.has("guard", nil) {
					v, known = m.truth(ev.Args[0])
				}
			}
			if !known {
				m.fail("returns", fnName(fire), "cannot tell whether Fire returns true (%v)", ev.Args[0])
				return
			}
			if v != m.has("guard", nil) {
				m.fail("returns", fnName(fire), "Fire returns %v on a path that is %sthe one firing the event", v, map[bool]string{true: "", false: "not "}[m.has("guard", nil)])
				return
			}
			if v && !m.has("closed", nil) {
				m.fail("returns", fnName(fire), "Fire returns true without having closed the done channel")
			}
			if v && flagField != "" && !m.has("flag", nil) {
				m.fail("returns", fnName(fire), "Fire returns true without the event reporting it")
			}
			c.instance("fire outcome", map[bool]string{true: "true", false: "false"}[v])
		}
	})
	if len(guards) != 1 {
		c.violate("one caller", fnName(fire), fire.Pos(), "the firing position must be protected by exactly one guard, found "+strings.Join(sortStrings(guards), ", "), nil)
	}
	c.floor("fire outcome", 2, "Fire must be able to return true and false")
	c.floor("closes done", 1, "close of the done channel")

	// constructor: fresh open channel, flag untouched
	ce := c.explore(ctor, Opts{})
	c.product(ce, nil, func(m *Mon, ev *Event) {
		switch ev.Kind {
		case "return":
			ch := ce.load(ev.St, ce.faddr(ev.Args[0], chanField, derefType(fire.Params[0].Type())), nil0)
			if ch.op != "alloc" {
				m.fail("constructor", fnName(ctor), "the done channel of a new event is %v, not a fresh channel", ch)
			}
			if flagField != "" {
				if v, ok := ev.St.mem[ce.faddr(ev.Args[0], flagField, derefType(fire.Params[0].Type()))]; ok {
					if i, isC := v.intVal(); !isC || i != 0 {
						m.fail("constructor", fnName(ctor), "a new event has its flag set to %v", v)
					}
				}
			}
			c.instance("constructor", ev.Args[0].String())
		case "close":
			m.fail("constructor", fnName(ctor), "a new event is already closed")
		case "call":
			if k, ok := atomicOp(ev.Name); ok && (k == "Store" || k == "Swap" || k == "Add") {
				m.fail("constructor", fnName(ctor), "a new event has its flag set")
			}
		}
	})

	// nobody else writes the event
	et := derefType(fire.Params[0].Type())
	for _, fn := range c.p.Funcs {
		inFire := fn == fire || ancestor(fn, fire)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !types.Identical(derefType(fa.X.Type()), et) {
					continue
				}
				name := et.Underlying().(*types.Struct).Field(fa.Field).Name()
				c.instance("field access", fnName(fn)+" "+name)
				if inFire || fn == ctor || fe.inl[fn] || ce.inl[fn] {
					continue
				}
				for _, rf := range *fa.Referrers() {
					switch x := rf.(type) {
					case *ssa.Store:
						if x.Addr == fa {
							c.violate("never reset", fnName(fn)+" "+name, x.Pos(), "a field of the event is written outside Fire", nil)
						}
					case *ssa.Call:
						if cal := x.Call.StaticCallee(); cal != nil {
							if k, ok := atomicOp(objName(cal)); ok && k != "Load" {
								c.violate("never reset", fnName(fn)+" "+name, x.Pos(), "the flag of the event is written outside Fire", nil)
							}
						}
					case *ssa.UnOp:
						if name != chanField {
							if name == flagField && flagField != "" {
								c.violate("race-free", fnName(fn)+" "+name, x.Pos(), "the flag is read without atomic operation", nil)
							}
							break
						}
						for _, r2 := range *x.Referrers() {
							switch y := r2.(type) {
							case *ssa.Send:
								if y.Chan == x {
									c.violate("never reset", fnName(fn)+" "+name, y.Pos(), "something is sent on the done channel", nil)
								}
							case *ssa.Call:
								if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
									c.violate("one caller", fnName(fn)+" "+name, y.Pos(), "the done channel is closed outside Fire", nil)
								}
							}
						}
					}
				}
			}
		}
	}
	// race freedom of the flag inside Fire: plain stores need a plain-read-free protocol
	if flagField != "" {
		fe.eachEvent(func(ev *Event) {
			if ev.Kind == "store" && isFlag(ev.Addr) {
				c.violate("race-free", fnName(fire), ev.Pos(), "the flag is written without atomic operation while HasFired reads it concurrently", nil)
			}
		})
	}
}

var nil0 = types.Universe.Lookup("error").Type()

func flagLoad(t *Term, isFlag func(*Term) bool) *Term {
	if t.op == "load" && isFlag(t.args[0]) {
		return t
	}
	return nil
}

// objName is the full name of a function as used in events.
func objName(fn *ssa.Function) string {
	if o := fn.Object(); o != nil {
		if f, ok := o.(*types.Func); ok {
			return f.FullName()
		}
	}
	return fn.String()
}

func ancestor(fn, of *ssa.Function) bool {
	for f := fn.Parent(); f != nil; f = f.Parent() {
		if f == of {
			return true
		}
	}
	return false
}
