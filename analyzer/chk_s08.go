package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkFns["S08"] = checkS08 }

const rOpen = "closed or handed over"

// closeMethod: values of this type have to be closed.
func closeMethod(t types.Type) bool {
	if t == nil {
		return false
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		sg := f.Type().(*types.Signature)
		if f.Name() == "Close" && sg.Params().Len() == 0 && sg.Results().Len() <= 1 {
			return true
		}
	}
	return false
}

// acquires tells whether a call obtains something that has to be closed (the result with this index).
func acquires(name string, sg *types.Signature) (int, bool) {
	base := name[strings.LastIndexByte(name, '.')+1:]
	hit := false
	for _, p := range []string{"Accept", "Dial", "Listen", "Open", "Create", "NewWatcher", "NewBufferedWatcher", "FileListener", "FileConn"} {
		hit = hit || strings.HasPrefix(base, p)
	}
	if !hit {
		return 0, false
	}
	for i := 0; i < sg.Results().Len(); i++ {
		if closeMethod(sg.Results().At(i).Type()) {
			return i, true
		}
	}
	return 0, false
}

func (p *Program) external(ci *ssa.CallCommon) (string, *types.Signature) {
	if ci.IsInvoke() {
		if pk := ci.Method.Pkg(); pk != nil && relPkg(pk.Path()) != pk.Path() {
			return "", nil
		}
		return ci.Method.FullName(), ci.Method.Type().(*types.Signature)
	}
	cal := ci.StaticCallee()
	if cal == nil || p.inRepo(cal) {
		return "", nil
	}
	return objName(cal), cal.Signature
}

type ownCheck struct {
	c     *Check
	s     *sessModel
	sv    *closable
	sess  *closable
	lf    string
	sites map[ssa.Instruction]*ssa.Function
	own   map[string]bool // owners whose Close was examined
}

func checkS08(c *Check) {
	c.expl = "Resource typestate on every path of every operation that accepts, dials, listens, opens a database handle or a file watcher (helpers inlined, goroutines followed): the resource is closed, or handed over to a goroutine that closes it on all its ends, to a session that is started or closed, " +
		"to a field that Close reads under the same lock after firing the closed event, or to the caller inside an object whose Close closes it. A listener that is replaced is itself followed until it is closed; Start leaves its session closed; whoever fires the session's closed event closes both connections."
	c.assume = []string{"Close of a connection, listener, handle or watcher releases it", "V01, V02: what is registered with the server or session is seen by its Close"}
	k := &ownCheck{c: c, s: c.session(), sv: c.closable("Server"), sess: c.closable("Session"), sites: map[ssa.Instruction]*ssa.Function{}, own: map[string]bool{}}
	if k.s == nil || k.sv == nil || k.sess == nil {
		return
	}
	k.lf = k.sv.listenerField()
	callers := c.p.callers()
	roots := map[*ssa.Function]bool{}
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name, sg := c.p.external(ci.Common())
				if sg == nil {
					continue
				}
				if _, ok := acquires(name, sg); !ok {
					continue
				}
				for _, r := range rootsOf(callers, fn, k.s.start) {
					if !dead(r) && r != k.s.start {
						roots[r] = true
					}
				}
				k.sites[in] = fn
			}
		}
	}
	for _, n := range []string{"Serve", "ServeConn"} {
		if fn := c.p.fn("pkg/server", "Server", n); fn != nil {
			roots[fn] = true
		}
	}
	delete(roots, k.s.start)
	var fns []*ssa.Function
	for fn := range roots {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		ts := c.threads(fn, Opts{Prim: c.p.sessPrim, Access: true})
		var self *Term
		if pk, n := recvNamed(fn); pk == srvPath && n == "Server" {
			self = c.n.param(fn, 0, fn.Params[0])
		}
		k.thread(ts, ts[0], k.sv, self, k.params(fn, self))
	}
	// the session
	ts := append([]*Thread{k.s.root}, k.s.threads...)
	k.thread(ts, k.s.root, k.sess, k.s.self, nil)
	k.s.checkCloseBoth(ts)
	k.startCloses()
	var left []ssa.Instruction
	for in := range k.sites {
		left = append(left, in)
	}
	sort.Slice(left, func(i, j int) bool { return left[i].Pos() < left[j].Pos() })
	for _, in := range left {
		c.undecided("acquisition in "+fnName(k.sites[in]), "what is obtained at %s is not reached from any entry point that was analysed", c.p.pos(in.Pos()))
	}
	c.floor(rOpen, 6, "connections, listeners, handles and watchers obtained")
}

// params: what the caller of Serve and ServeConn hands over.
func (k *ownCheck) params(fn *ssa.Function, self *Term) []MFact {
	if self == nil || fn.Name() != "Serve" && fn.Name() != "ServeConn" {
		return nil
	}
	var r []MFact
	for i, p := range fn.Params {
		if i > 0 && closeMethod(p.Type()) {
			r = append(r, MFact{"own", k.c.n.param(fn, i, p), nil})
		}
	}
	return r
}

// thread follows what t owns.
func (k *ownCheck) thread(ts []*Thread, t *Thread, cl *closable, self *Term, init []MFact) {
	c := k.c
	c.product(t.Exec, init, func(m *Mon, ev *Event) {
		who := evFn(ev)
		if l, _ := isLock(ev); l {
			m.clear("old")
			m.clear("oldclosed")
		}
		if self != nil {
			cl.locks(m, ev, self)
		}
		for _, f := range m.all("own") {
			if f.b != nil {
				if v, known := m.isNil(f.b); known && !v {
					m.del("own", f.a) // it was not obtained
					continue
				}
			}
			if v, known := m.isNil(f.a); known && v {
				m.del("own", f.a)
			}
		}
		inner := func(v *Term) *Term {
			v = unface(v)
			if isConnType(v.typ) && v.op == "alloc" {
				if in := connInner(m.e, ev.St, v); in != nil {
					return unface(in)
				}
			}
			if w := m.get("wrap", v); w != nil {
				return w
			}
			return v
		}
		release := func(v *Term) {
			m.del("own", inner(v))
			m.del("own", unface(v))
			for _, f := range m.all("in") {
				if f.b == inner(v) {
					m.del("in", f.a)
				}
			}
		}
		switch ev.Kind {
		case "call":
			if _, _, ok := k.acquired(ev); ok {
				k.acquire(m, ev, who)
				return
			}
			switch {
			case ev.Name == srvPath+".NewSession" && len(ev.Args) > 0:
				for _, f := range m.all("own") {
					if f.a == inner(ev.Args[0]) {
						m.del("own", f.a)
						m.set("own", ev.Res, nil)
					}
				}
			case ev.Name == sessStart || ev.Name == sessClose:
				release(ev.Args[0])
			case connOp(ev) == "Close", ev.Method != nil && ev.Method.Name() == "Close", strings.HasSuffix(ev.Name, ").Close"):
				if len(ev.Args) > 0 {
					release(ev.Args[0])
					if x := unface(ev.Args[0]); m.has("old", x) {
						m.set("oldclosed", x, nil)
					}
				}
			case isConnType(typOf(ev.Res)) && ev.Res.op != "alloc":
				// an unknown constructor of a wrapper
				for _, a := range ev.Args {
					if m.has("own", inner(a)) {
						m.set("wrap", ev.Res, inner(a))
					}
				}
			case ev.Res != nil && closeMethod(ev.Res.typ) && k.outside(ev):
				for _, a := range ev.Args {
					if x := inner(a); m.has("own", x) {
						m.del("own", x)
						m.set("own", ev.Res, nil)
					}
				}
			}
		case "load":
			if self != nil && isFieldAddr(ev.Addr, self, k.lf) && cl == k.sv {
				m.set("old", ev.Res, nil)
			}
		case "store":
			k.store(m, ev, cl, self, inner)
		case "go":
			x := child(ts, t, ev)
			if x == nil {
				return
			}
			for _, f := range m.all("own") {
				if k.handles(ts, x, f.a) {
					m.del("own", f.a)
					c.instance(rOpen, "hand-over in "+who)
					k.thread(ts, x, cl, self, []MFact{{"own", f.a, nil}})
				}
			}
		case "return":
			for _, f := range m.all("own") {
				if t.Kind == "root" && k.given(m, ev, f.a) {
					continue
				}
				m.fail(rOpen, fnName(t.Fn), "%s is neither closed nor handed over to something that closes it", k.what(f.a))
			}
			for _, f := range m.all("replaced") {
				if v, known := m.isNil(f.a); known && v {
					continue
				}
				m.fail(rOpen, fnName(t.Fn), "the listener that was replaced is not closed")
			}
		}
		for _, f := range m.all("replaced") {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "Close") && len(ev.Args) > 0 && unface(ev.Args[0]) == f.a {
				m.del("replaced", f.a)
			}
			if v, known := m.isNil(f.a); known && v {
				m.del("replaced", f.a)
			}
		}
	})
}

func typOf(t *Term) types.Type {
	if t == nil {
		return nil
	}
	return t.typ
}

func (k *ownCheck) what(t *Term) string {
	if t.typ == nil {
		return "what was obtained"
	}
	return "the " + types.TypeString(t.typ, func(p *types.Package) string { return p.Name() })
}

func (k *ownCheck) outside(ev *Event) bool {
	ci, ok := ev.Site.in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	_, sg := k.c.p.external(ci.Common())
	return sg != nil
}

func (k *ownCheck) acquired(ev *Event) (int, ssa.Instruction, bool) {
	if ev.Site == nil {
		return 0, nil, false
	}
	ci, ok := ev.Site.in.(ssa.CallInstruction)
	if !ok {
		return 0, nil, false
	}
	name, sg := k.c.p.external(ci.Common())
	if sg == nil || name != ev.Name {
		return 0, nil, false
	}
	i, ok := acquires(name, sg)
	return i, ev.Site.in, ok
}

func (k *ownCheck) acquire(m *Mon, ev *Event, who string) {
	c := k.c
	i, in, _ := k.acquired(ev)
	delete(k.sites, in)
	c.instance(rOpen, calleeName(ev)+" in "+who)
	ci := in.(ssa.CallInstruction)
	_, sg := c.p.external(ci.Common())
	res, err := ev.Res, (*Term)(nil)
	if sg.Results().Len() > 1 {
		res = m.e.result(ev, i)
		if last := sg.Results().Len() - 1; last != i && types.Identical(sg.Results().At(last).Type(), types.Universe.Lookup("error").Type()) {
			err = m.e.result(ev, last)
		}
	}
	for _, f := range m.all("own") {
		if strings.HasSuffix(leafAux(f.a), "'") && leafSite(f.a) == ev.Site {
			m.fail(rOpen, who, "%s is neither closed nor handed over when the next one is obtained", k.what(f.a))
			m.del("own", f.a)
		}
	}
	m.set("own", res, err)
}

func leafAux(t *Term) string {
	for _, l := range t.leaf {
		if l.op == "sym" || l.op == "alloc" {
			return l.aux
		}
	}
	return ""
}

func leafSite(t *Term) *Site {
	for _, l := range t.leaf {
		if l.op == "sym" || l.op == "alloc" {
			return l.site
		}
	}
	return nil
}

// store: handing over to the owner of a field.
func (k *ownCheck) store(m *Mon, ev *Event, cl *closable, self *Term, inner func(*Term) *Term) {
	if ev.Addr.op != "faddr" {
		return
	}
	v := inner(ev.Val)
	if self != nil && ev.Addr.args[0] == self {
		f := m.e.n.mk(Term{op: "const", aux: ev.Addr.aux})
		if cl == k.sv && ev.Addr.aux == k.lf {
			if n, known := m.isNil(ev.Val); !known || !n || ev.Val.op != "nil" {
				prev := k.previous(m)
				switch {
				case prev == nil:
					m.fail(rOpen, evFn(ev), "the listener is replaced without looking at the one before, which stays open")
				default:
					if n, known := m.isNil(prev); !(known && n) && !m.has("oldclosed", prev) {
						m.set("replaced", prev, nil)
					}
				}
			}
			m.clear("old")
			m.clear("oldclosed")
		}
		if m.has("own", v) && len(m.open()) > 0 {
			if x := m.get("in", f); x != nil && ev.Addr.aux != k.lf {
				m.fail(rOpen, evFn(ev), "%s replaces another one that is still open", k.what(v))
			}
			m.set("in", f, v)
			m.del("own", v)
		}
		return
	}
	// another object of the program that is known to close it
	if m.has("own", v) && ev.Addr.args[0].op != "alloc" && k.closes(derefType(ev.Addr.args[0].typ), ev.Addr.aux) {
		m.del("own", v)
	}
}

// previous: what the server's listener was, as read on this path.
func (k *ownCheck) previous(m *Mon) *Term {
	for _, f := range m.all("old") {
		return f.a
	}
	return nil
}

// handles: does the goroutine do anything with r that ends its use?
func (k *ownCheck) handles(ts []*Thread, x *Thread, r *Term) bool {
	hit := false
	x.Exec.eachEvent(func(ev *Event) {
		if ev.Kind != "call" || len(ev.Args) == 0 {
			return
		}
		if ev.Name == srvPath+".NewSession" || strings.HasSuffix(ev.Name, "Close") {
			for _, a := range ev.Args {
				a = unface(a)
				if a == r {
					hit = true
				}
				if isConnType(a.typ) && a.op == "alloc" {
					if in := connInner(x.Exec, ev.St, a); in != nil && unface(in) == r {
						hit = true
					}
				}
			}
		}
		if (ev.Name == sessStart || ev.Name == sessClose) && ev.Args[0] == r {
			hit = true
		}
	})
	for _, y := range ts {
		if y.From == x && !hit {
			hit = k.handles(ts, y, r)
		}
	}
	return hit
}

// given: r goes to the caller, who can close it.
func (k *ownCheck) given(m *Mon, ev *Event, r *Term) bool {
	if len(ev.Args) == 0 {
		return false
	}
	last := ev.Args[len(ev.Args)-1]
	if last.typ != nil && types.Identical(last.typ, types.Universe.Lookup("error").Type()) || last.op == "nil" {
		if v, known := m.isNil(last); !known || !v {
			return false
		}
	}
	for _, a := range ev.Args {
		a = unface(a)
		if a == r {
			return true
		}
		if a.op == "alloc" {
			st := derefType(a.typ)
			for ad, v := range ev.St.mem {
				if ad.op == "faddr" && ad.args[0] == a && unface(v) == r && k.closes(st, ad.aux) {
					k.c.instance(rOpen, "given to the caller of "+evFn(ev))
					return true
				}
			}
		}
	}
	return false
}

// closes: the Close method of the type closes what its field holds, on every path on which it holds something.
func (k *ownCheck) closes(t types.Type, field string) bool {
	if t == nil {
		return false
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	key := n.String() + "." + field
	if r, ok := k.own[key]; ok {
		return r
	}
	k.own[key] = false
	var fn *ssa.Function
	for _, f := range k.c.p.Funcs {
		if pk, nm := recvNamed(f); f.Name() == "Close" && pk == n.Obj().Pkg().Path() && nm == n.Obj().Name() && f.Blocks != nil {
			fn = f
		}
	}
	if fn == nil {
		return false
	}
	e := k.c.explore(fn, Opts{Access: true})
	self := k.c.n.param(fn, 0, fn.Params[0])
	good := true
	k.c.product(e, nil, func(m *Mon, ev *Event) {
		if ev.Kind == "load" && isFieldAddr(ev.Addr, self, field) {
			m.set("held", ev.Res, nil)
		}
		if ev.Kind == "call" && len(ev.Args) > 0 && strings.HasSuffix(ev.Name, "Close") {
			if b, f, ok := fieldOf(unface(ev.Args[0])); ok && b == self && f == field || m.has("held", unface(ev.Args[0])) {
				m.set("closed", nil, nil)
			}
		}
		if ev.Kind == "return" && !m.has("closed", nil) {
			for _, f := range m.all("held") {
				if v, known := m.isNil(f.a); known && v {
					return
				}
			}
			good = false
			m.fail(rOpen, fnName(fn), "Close may return without closing %s", field)
		}
	})
	k.own[key] = good
	return good
}

// startCloses: when Start returns its session is closed.
func (k *ownCheck) startCloses() {
	c, s := k.c, k.s
	c.product(s.root.Exec, nil, func(m *Mon, ev *Event) {
		if ev.Kind == "call" && (ev.Name == evFire || ev.Name == evHas) && s.isClosedEvent(ev.Args[0]) {
			if ev.Name == evFire {
				m.set("fired", nil, nil)
			} else {
				m.set("has", ev.Res, nil)
			}
		}
		if ev.Kind == "return" {
			c.instance(rOpen, "session at the end of "+fnName(s.start))
			if m.has("fired", nil) {
				return
			}
			for _, f := range m.all("has") {
				if v, known := m.truth(f.a); known && v {
					return
				}
			}
			m.fail(rOpen, fnName(s.start), "the session may be left open")
		}
	})
}
