package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkFns["L01"] = checkL01 }

const (
	rRace = "one lock for every access"
	rHeld = "locks released"
	rGlob = "package variables"
	rSent = "messages after sending"
)

// access is one way in which a goroutine touches a shared location.
type access struct {
	g      *raceGroup
	t      *Thread
	write  bool
	atomic bool
	locks  map[string]bool // lock -> exclusively
	after  map[*Thread]bool
	rcvd   map[*Thread]*Term // awaited by receiving from this channel, or with this wait group
	late   map[*Term]bool    // after the goroutine has signalled this one
	once   bool              // at most once per object
	owner  *Thread           // the goroutine that created the object (nil: unknown)
	recv   bool              // the object is the receiver of the entry point
	base   *Term
	fn     string
	pos    token.Pos
	trace  []string
	key    string
}

type raceGroup struct {
	root   *ssa.Function
	ts     []*Thread
	self   *Term
	single bool
	multi  map[*Thread]bool           // started more than once
	again  map[*Thread]map[*Term]bool // cells shared by several instances of the goroutine
	kids   map[*Site][]*Thread        // predicates handed over
	once   map[*Thread]bool           // started at most once per receiver
}

type raceCheck struct {
	c   *Check
	acc map[string][]*access
	dup map[string]bool
	sig map[string]string

	sends map[string]bool
}

func checkL01(c *Check) {
	c.expl = "Lockset analysis over every entry point of the server and the command line with all goroutines they start: for each field, map or slice content, captured variable and package variable that is written after it became visible to another goroutine, every pair of a write and another access " +
		"that can run concurrently has a common lock (exclusive for the write), is atomic, or is ordered by the start of the goroutine or by waiting for it. Locks are released on every return and only by their holder. In the protocol package no package variable is written after initialisation, sending and receiving on a connection share no written field, and a message is not written after it was sent."
	c.assume = []string{"E01: events", "a configuration source, a file watcher callback and a session's Start have one goroutine each", "objects of one type are told apart only by the object a lock belongs to", "net.Conn, net.Listener, sql.DB, fsnotify and logrus are safe for concurrent use"}
	k := &raceCheck{c: c, acc: map[string][]*access{}, dup: map[string]bool{}, sig: map[string]string{}, sends: map[string]bool{}}
	start := c.mustFn("pkg/server", "Session", "Start")
	callers := c.p.callers()
	srvPrim := func(fn *ssa.Function) bool {
		return c.p.connPrim(fn) || relPkg(fnPkg(fn)) == "pkg/server" && fn.Object() != nil && fn.Object().Exported()
	}
	for _, fn := range c.p.Funcs {
		rel := relPkg(fnPkg(fn))
		if fn.Blocks == nil || fn.Synthetic != "" || fn.Parent() != nil || rel == "pkg/pg" {
			continue
		}
		pk, recv := recvNamed(fn)
		inServer := rel == "pkg/server"
		if dead(fn) && len(callers[fn]) > 0 || dead(fn) && inServer {
			continue
		}
		if !inServer && len(callers[fn]) > 0 && fn.Object() != nil {
			continue
		}
		if inServer && recv != "" && !token.IsExported(recv) {
			continue
		}
		if pk == srvPath && recv == "Event" {
			continue // E01
		}
		prim := c.p.connPrim
		switch {
		case recv == "Server":
			prim = c.p.sessPrim
		case !inServer || recv == "":
			prim = srvPrim
		}
		g := &raceGroup{root: fn, single: fn == start || !inServer && (fn.Name() == "main" || fn.Name() == "Run" || strings.HasPrefix(fn.Name(), "init")), multi: map[*Thread]bool{}, again: map[*Thread]map[*Term]bool{}, kids: map[*Site][]*Thread{}, once: map[*Thread]bool{}}
		o := Opts{Prim: prim, Access: true}
		g.ts = c.threads(fn, o)
		if recv != "" {
			g.self = c.n.param(fn, 0, fn.Params[0])
		}
		for i := 0; i < len(g.ts); i++ {
			k.predicates(g, g.ts[i], o)
		}
		for _, t := range g.ts {
			k.thread(g, t)
		}
	}
	k.pairs()
	c.protocolState()
	c.floor(rRace, 3, "locations written after publication")
	c.floor(rHeld, 8, "returns of functions that use locks")
}

// predicates: functions handed over to the configuration store run in its goroutine.
func (k *raceCheck) predicates(g *raceGroup, t *Thread, o Opts) {
	seen := map[string]bool{}
	t.Exec.eachEvent(func(ev *Event) {
		if _, un, ok := subscribes(ev); !ok || un || len(ev.Args) < 3 {
			return
		}
		for _, el := range t.Exec.sliceElems(ev.St, ev.Args[2]) {
			el = unface(el)
			fn, bind := el.fn, el.args
			if el.op != "closure" && el.op != "func" || fn == nil || fn.Blocks == nil {
				continue
			}
			var args []*Term
			for i, p := range fn.Params {
				args = append(args, k.c.n.param(fn, i, p))
			}
			key := ev.Site.in.String() + el.String()
			if seen[key] {
				continue
			}
			seen[key] = true
			e := newExec(k.c.p, k.c.n, o)
			e.RunWith(fn, bind, args, ev.St)
			k.c.noteExec(e)
			x := &Thread{Name: t.Name + "/" + fn.Name(), Kind: "predicate", Fn: fn, Exec: e, From: t, Spawn: &Spawn{Kind: "predicate", Ev: ev, Fn: fn, Bind: bind, St: ev.St}}
			g.ts = append(g.ts, x)
			g.kids[ev.Site] = append(g.kids[ev.Site], x)
			g.multi[x] = true
			g.again[x] = nil
		}
	})
}

func rootCtx(t *Term) *Ctx {
	if t.site == nil {
		return nil
	}
	x := t.site.ctx
	for x.parent != nil {
		x = x.parent
	}
	return x
}

// cellOwner: the goroutine that created the object.
func (g *raceGroup) cellOwner(t *Thread, b *Term) *Thread {
	rc := rootCtx(b)
	for x := t; x != nil; x = x.From {
		if rc != nil && rc.fn == x.Fn {
			return x
		}
	}
	return g.ts[0]
}

// container is the object an address belongs to, elements of slices and arrays included.
func container(t *Term) *Term {
	for t != nil && (t.op == "faddr" || t.op == "iaddr" || t.op == "slice") {
		t = t.args[0]
	}
	return t
}

func ownPackage(t types.Type) bool {
	if t == nil {
		return false
	}
	if d := derefType(t); d != nil {
		t = d
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && n.Obj().Pkg().Path() != pgPath
}

// location names what an address refers to: a field of a type of the program, the contents of such a field, a variable.
func (k *raceCheck) location(m *Mon, a *Term) string {
	switch a.op {
	case "faddr":
		if a.args[0].op == "faddr" && !ownPackage(a.typ) {
			return k.location(m, a.args[0])
		}
		if ownPackage(a.typ) {
			if _, n := pkgAndName(a.typ); n == "Event" {
				return ""
			}
			return namedOf(a.typ) + "." + a.aux
		}
		if b := baseObject(a); b.op == "alloc" || b.op == "global" {
			return k.location(m, b)
		}
	case "iaddr":
		return k.contents(m, a.args[0])
	case "alloc":
		return "variable " + itoa(a.id)
	case "global":
		if g, ok := a.obj.(*ssa.Global); ok && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			return "variable " + relPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
		}
	}
	return ""
}

func pkgAndName(t types.Type) (string, string) {
	if d := derefType(t); d != nil {
		t = d
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path(), n.Obj().Name()
	}
	return "", ""
}

// contents names the contents of a map or slice.
func (k *raceCheck) contents(m *Mon, v *Term) string {
	for v.op == "slice" {
		v = v.args[0]
	}
	if x := m.get("mapof", v); x != nil {
		return x.aux
	}
	if v.op == "load" {
		if l := k.location(m, v.args[0]); l != "" {
			return "contents of " + l
		}
	}
	if v.op == "alloc" {
		return "contents of " + itoa(v.id)
	}
	if v.op == "faddr" || v.op == "global" {
		return k.location(m, v)
	}
	return ""
}

func (k *raceCheck) thread(g *raceGroup, t *Thread) {
	c := k.c
	tix := map[*Thread]int{}
	for i, x := range g.ts {
		tix[x] = i
	}
	var root *Ctx
	started := map[*Thread]bool{}
	c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		n := m.e.n
		mine := func(b *Term) bool {
			if b == nil {
				return false
			}
			if b.op == "zero" || b.op == "nil" || b.op == "const" {
				return true
			}
			if b.op != "alloc" {
				return false
			}
			rc := rootCtx(b)
			if root == nil && ev.Site != nil {
				root = ev.Site.ctx
				for root.parent != nil {
					root = root.parent
				}
			}
			return rc == root
		}
		private := func(a *Term) bool {
			b := container(a)
			return mine(b) && !m.has("pub", b)
		}
		var publish func(v *Term, seen map[*Term]bool)
		publish = func(v *Term, seen map[*Term]bool) {
			if v == nil || seen[v] {
				return
			}
			seen[v] = true
			for _, l := range v.leafs() {
				if l.op != "alloc" || !mine(l) {
					continue
				}
				m.set("pub", l, nil)
				if seen[l] && l != v {
					continue
				}
				seen[l] = true
				for a, w := range ev.St.mem {
					if container(a) == l && w != nil {
						publish(w, seen)
					}
				}
			}
		}
		pub := func(v *Term) { publish(v, map[*Term]bool{}) }
		note := func(loc string, a *Term, write, atomic bool) {
			if a == nil || private(a) {
				return
			}
			if m.has("det", a) {
				return // taken out of its field under the lock
			}
			if d := derefType(typOf(a)); (a.op == "alloc" || a.op == "global") && d != nil && ownPackage(d) {
				if st, ok := d.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						k.note(g, t, m, ev, namedOf(d)+"."+st.Field(i).Name(), a, write, atomic)
					}
				}
			}
			if loc == "" {
				return
			}
			k.note(g, t, m, ev, loc, a, write, atomic)
		}
		// the goroutines that belong to the group, or that use the channel, are awaited
		join := func(ch *Term) {
			// as many values received as goroutines started that send one
			enough := true
			if ev.Kind != "call" {
				got := int64(1)
				if x := m.get("got", ch); x != nil {
					d, _ := x.intVal()
					got += d
				}
				if got < 40 {
					m.set("got", ch, n.int(got))
				}
				senders := int64(0)
				for _, f := range m.all("ever") {
					i, _ := f.a.intVal()
					if x := g.ts[i]; x.Kind != "predicate" && k.signals(x, ch) == "send" {
						senders++
						enough = enough && !g.multi[x] && (k.sendsOnce(x, ch) || senders == 1)
					}
				}
				enough = enough && got >= senders || senders == 1
			}
			for _, f := range m.all("sp") {
				i, _ := f.a.intVal()
				x := g.ts[i]
				if x.Kind == "predicate" {
					continue
				}
				switch how := k.signals(x, ch); {
				case f.b == ch && ev.Kind == "call":
				case how == "done" || how == "close":
					m.set("rcv", f.a, ch)
				case how == "send" && enough:
					m.set("rcv", f.a, ch)
				default:
					continue
				}
				m.del("sp", f.a)
			}
		}
		switch ev.Kind {
		case "load":
			note(k.location(m, ev.Addr), ev.Addr, false, false)
			if !private(ev.Addr) && len(m.all("lk")) > 0 && ev.Res != nil && ev.Res.typ != nil {
				switch ev.Res.typ.Underlying().(type) {
				case *types.Map, *types.Slice:
					m.set("held", ev.Res, ev.Addr)
				}
			}
		case "store":
			note(k.location(m, ev.Addr), ev.Addr, true, false)
			if !private(ev.Addr) {
				pub(ev.Val)
			}
			for _, f := range m.all("held") {
				if f.b == ev.Addr && f.a != ev.Val {
					m.set("det", f.a, nil)
				}
			}
			if v := ev.Val; v != nil && v.typ != nil && v.op == "alloc" {
				if _, ok := v.typ.Underlying().(*types.Map); ok {
					if l := k.location(m, ev.Addr); l != "" && ev.Addr.op == "faddr" {
						m.set("mapof", v, n.mk(Term{op: "const", aux: "contents of " + l}))
					}
				}
			}
		case "mapset", "mapdel":
			note(k.contents(m, ev.Args[0]), ev.Args[0], true, false)
			if !private(ev.Args[0]) {
				for _, a := range ev.Args[1:] {
					pub(a)
				}
			}
		case "mapget", "range":
			note(k.contents(m, ev.Args[0]), ev.Args[0], false, false)
		case "next":
			if len(ev.Args) > 1 {
				note(k.contents(m, ev.Args[1]), ev.Args[1], false, false)
			}
		case "send":
			m.set("rel", ev.Args[0], nil)
			pub(ev.Args[1])
			k.sent(m, ev.Args[1])
		case "select":
			for _, cs := range ev.Cases {
				if cs.Send {
					pub(cs.Val)
				}
			}
			if ev.Chosen >= 0 && ev.Chosen < len(ev.Cases) {
				if cs := ev.Cases[ev.Chosen]; cs.Send {
					m.set("rel", cs.Ch, nil)
					k.sent(m, cs.Val)
				} else if mine(container(cs.Ch)) && cs.Ch.op != "done" {
					join(cs.Ch)
				}
			}
		case "recv":
			if mine(container(ev.Args[0])) && ev.Args[0].op != "done" {
				join(ev.Args[0])
			}
		case "close":
			m.set("rel", ev.Args[0], nil)
		case "once":
			m.set("lk", ev.Args[0], n.boolean(ev.Truth))
			if ev.Truth {
				m.set("once?", ev.Args[0], nil)
			}
		case "enter":
			for _, f := range m.all("in") {
				d, _ := f.b.intVal()
				m.set("in", f.a, n.int(d+1))
			}
			for _, f := range m.all("once?") {
				m.set("in", f.a, n.int(1))
				m.del("once?", f.a)
			}
		case "exit":
			for _, f := range m.all("in") {
				d, _ := f.b.intVal()
				if d == 1 {
					m.del("in", f.a)
					m.set("lk", f.a, n.boolean(false))
				} else {
					m.set("in", f.a, n.int(d-1))
				}
			}
		case "go":
			x := child(g.ts, t, ev)
			for _, a := range append(append([]*Term{}, ev.Bind...), ev.Args...) {
				if x != nil {
					for _, l := range a.leafs() {
						if m.has("pub", l) {
							if g.again[x] == nil {
								g.again[x] = map[*Term]bool{}
							}
							g.again[x][l] = true
						}
					}
				}
				pub(a)
			}
			if x != nil {
				f := n.int(int64(tix[x]))
				if m.has("sp", f) || m.has("ever", f) {
					g.multi[x] = true
				}
				m.set("sp", f, ev.Addr)
				m.set("ever", f, nil)
				once := g.once[t]
				for _, w := range m.all("won") {
					if v, known := m.truth(w.a); known && v {
						once = true
					}
				}
				if was, seen := started[x]; seen {
					once = once && was
				}
				started[x], g.once[x] = once, once
			}
		case "call":
			for _, x := range g.kids[ev.Site] {
				m.set("sp", n.int(int64(tix[x])), nil)
			}
			k.locksHeld(m, ev, t)
			if u, _ := isUnlock(ev); u {
				m.clear("held")
			}
			switch {
			case ev.Name == "(*sync.WaitGroup).Done":
				m.set("rel", ev.Args[0], nil)
			case isWait(ev):
				join(ev.Args[0])
			case ev.Name == evFire:
				if b, _, ok := fieldOf(ev.Args[0]); ok && b == g.self {
					m.set("won", ev.Res, nil)
				}
			case strings.HasPrefix(ev.Name, "sync/atomic.") && len(ev.Args) > 0:
				note(k.location(m, ev.Args[0]), ev.Args[0], !strings.HasPrefix(ev.Name, "sync/atomic.Load"), true)
			case fills(ev.Name):
				for _, a := range ev.Args {
					a = unface(a)
					if a.op == "alloc" || a.op == "faddr" || a.op == "global" {
						note(k.location(m, a), a, true, false)
					}
				}
			}
			if opensThread(ev) {
				for _, a := range ev.Args {
					pub(a)
				}
			}
		case "return":
			for _, f := range m.all("lk") {
				if isOnceAddr(f.a) {
					continue
				}
				m.fail(rHeld, fnName(t.Fn), "%s is still held at the return", lockClass(f.a))
			}
			if t.Kind != "" {
				k.c.instance(rHeld, t.Name)
			}
		}
		if ev.Kind == "store" {
			if b := container(ev.Addr); m.has("sent", b) {
				m.fail(rSent, evFn(ev), "a message is changed after it was sent to another goroutine")
			}
		}
	})
}

// opensThread: functions that keep what they are given for another goroutine.
func opensThread(ev *Event) bool {
	return ev.Name == "dynamic" || strings.HasPrefix(ev.Name, "("+srvPath+".") || strings.HasPrefix(ev.Name, "(*"+srvPath+".")
}

func isOnceAddr(t *Term) bool {
	d := derefType(typOf(t))
	if t.op == "faddr" {
		if st, ok := t.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == t.aux {
					d = st.Field(i).Type()
				}
			}
		}
	}
	return d != nil && typeIs(d, "sync", "Once")
}

// fills: library functions that write what their pointer arguments refer to.
func fills(name string) bool {
	base := name[strings.LastIndexByte(name, '.')+1:]
	for _, p := range []string{"Unmarshal", "Scan", "Sscan", "Fscan", "Decode", "Read"} {
		if strings.HasPrefix(base, p) {
			return true
		}
	}
	return false
}

func (k *raceCheck) sent(m *Mon, v *Term) {
	v = unface(v)
	if v != nil && v.typ != nil && derefType(v.typ) != nil && !ownPackage(v.typ) || v != nil && v.op == "sym" {
		m.set("sent", v, nil)
	}
}

// locksHeld keeps the locks held and reports releases of locks that are not held.
func (k *raceCheck) locksHeld(m *Mon, ev *Event, t *Thread) {
	if l, ex := isLock(ev); l {
		k.c.instance(rHeld, lockClass(ev.Args[0])+" in "+evFn(ev))
		m.set("lk", ev.Args[0], m.e.n.boolean(ex))
		return
	}
	if u, ex := isUnlock(ev); u {
		x := m.get("lk", ev.Args[0])
		if x == nil {
			m.fail(rHeld, evFn(ev), "%s is released but not held", lockClass(ev.Args[0]))
			return
		}
		if b, ok := x.boolVal(); ok && b != ex {
			m.fail(rHeld, evFn(ev), "%s is acquired and released in different modes", lockClass(ev.Args[0]))
		}
		m.del("lk", ev.Args[0])
	}
}

func (k *raceCheck) note(g *raceGroup, t *Thread, m *Mon, ev *Event, loc string, addr *Term, write, atomic bool) {
	if strings.HasPrefix(loc, "variable") && addr != nil && syncType(derefType(typOf(addr))) {
		return
	}
	base := container(addr)
	for base != nil && base.op == "load" {
		base = container(base.args[0])
	}
	a := &access{g: g, t: t, write: write, atomic: atomic, locks: map[string]bool{}, after: map[*Thread]bool{}, rcvd: map[*Thread]*Term{}, late: map[*Term]bool{}, owner: g.ts[0], fn: evFn(ev), pos: ev.Pos()}
	for _, f := range m.all("lk") {
		ex, _ := f.b.boolVal()
		l := f.a
		lb := container(l)
		for lb != nil && lb.op == "load" {
			lb = container(lb.args[0])
		}
		name := lockClass(l)
		switch {
		case l.op == "alloc":
			name = "local " + itoa(l.id)
		case lb != base && addr != nil && addr.op == "faddr" && l.op == "faddr" && namedOf(l.typ) == namedOf(addr.typ):
			continue // the lock of another object
		}
		a.locks[name] = ex
	}
	for _, f := range m.all("sp") {
		i, _ := f.a.intVal()
		a.after[g.ts[i]] = true
	}
	for _, f := range m.all("rcv") {
		i, _ := f.a.intVal()
		a.rcvd[g.ts[i]] = f.b
	}
	for _, f := range m.all("rel") {
		a.late[f.a] = true
	}
	for _, f := range m.all("won") {
		if v, known := m.truth(f.a); known && v {
			a.once = true
		}
	}
	a.base = base
	a.once = a.once || g.once[t]
	uniq := loc
	switch {
	case base != nil && base.op == "alloc":
		a.owner = g.cellOwner(t, base)
		if i := strings.LastIndexByte(loc, ' '); loc[i+1:] == itoa(base.id) {
			uniq = loc + "\x00" + a.owner.Name + "\x00" + g.root.String()
		}
	case base != nil && base == g.self:
		a.recv = true
	default:
		a.owner = nil // shared with everybody
	}
	var ks []string
	for l, ex := range a.locks {
		ks = append(ks, l+map[bool]string{true: "!"}[ex])
	}
	for x := range a.after {
		ks = append(ks, "after "+x.Name)
	}
	for x, ch := range a.rcvd {
		ks = append(ks, "received from "+x.Name+" by "+itoa(ch.id))
	}
	for ch := range a.late {
		ks = append(ks, "late "+itoa(ch.id))
	}
	sort.Strings(ks)
	own := "*"
	if a.owner != nil {
		own = a.owner.Name
	}
	a.key = uniq + "|" + t.Name + "|" + g.root.String() + "|" + own + "|" + strings.Join(ks, ",") + map[bool]string{true: "|w"}[write] + map[bool]string{true: "|a"}[atomic] + map[bool]string{true: "|1"}[a.once]
	if k.dup[a.key] {
		return
	}
	k.dup[a.key] = true
	a.trace = m.trace()
	k.acc[uniq] = append(k.acc[uniq], a)
}

func syncType(t types.Type) bool {
	pk, _ := pkgAndName(t)
	return pk == "sync" || pk == "sync/atomic" || strings.HasSuffix(pk, "/errgroup")
}

// repeated: several instances of a goroutine above both accesses share the object.
func repeated(a, b *access) bool {
	for x := a.t; x != nil && x != a.owner; x = x.From {
		if !a.g.multi[x] || !b.t.within(x) {
			continue
		}
		if a.owner == nil || a.recv || x.Kind == "predicate" || a.g.again[x][a.base] {
			return true
		}
	}
	return false
}

// instances: two calls of the entry point can share the object.
func instances(a, b *access) bool {
	return (a.owner == nil || a.recv) && (b.owner == nil || b.recv) && !a.g.single && !(a.once && b.once)
}

func concurrent(a, b *access) bool {
	if a.atomic && b.atomic {
		return false
	}
	if a.g != b.g {
		return true
	}
	if instances(a, b) || repeated(a, b) {
		return true
	}
	if a.t == b.t {
		return false
	}
	// the start of the goroutines orders what came before it
	if b.t.within(a.t) {
		return !before(a, b)
	}
	if a.t.within(b.t) {
		return !before(b, a)
	}
	return true
}

// before: a happened before the goroutine x, a descendant of a's, was started (or after it was awaited).
func before(a, b *access) bool {
	x := b.t
	for x.From != nil && x.From != a.t {
		x = x.From
	}
	if a.after[x] {
		return false
	}
	ch := a.rcvd[x]
	return ch == nil || !b.late[ch] && x == b.t
}

// signals: how the goroutine tells who waits on the channel or wait group: it closes the channel or sends to it, or
// it is done with the wait group ("": not at all).
func (k *raceCheck) signals(x *Thread, ch *Term) string {
	key := x.Name + "\x00" + ch.String()
	if v, ok := k.sig[key]; ok {
		return v
	}
	v := ""
	x.Exec.eachEvent(func(ev *Event) {
		switch ev.Kind {
		case "send":
			if ev.Args[0] == ch {
				v = "send"
			}
		case "close":
			if ev.Args[0] == ch && v == "" {
				v = "close"
			}
		case "call":
			if ev.Name == "(*sync.WaitGroup).Done" && ev.Args[0] == ch {
				v = "done"
			}
		case "select":
			for _, cs := range ev.Cases {
				if cs.Send && cs.Ch == ch {
					v = "send"
				}
			}
		}
	})
	k.sig[key] = v
	return v
}

// sendsOnce: on no path the goroutine sends to the channel twice.
func (k *raceCheck) sendsOnce(x *Thread, ch *Term) bool {
	key := x.Name + "\x00" + ch.String()
	if v, ok := k.sends[key]; ok {
		return v
	}
	v := true
	k.c.product(x.Exec, nil, func(m *Mon, ev *Event) {
		hit := ev.Kind == "send" && ev.Args[0] == ch
		if ev.Kind == "select" && ev.Chosen >= 0 && ev.Cases[ev.Chosen].Send && ev.Cases[ev.Chosen].Ch == ch {
			hit = true
		}
		if hit {
			v = v && !m.has("sent once", nil)
			m.set("sent once", nil, nil)
		}
	})
	k.sends[key] = v
	return v
}

func (k *raceCheck) pairs() {
	for _, loc := range sortStrings(k.acc) {
		l := k.acc[loc]
		written := false
		for _, a := range l {
			written = written || a.write
		}
		if !written {
			continue
		}
		k.c.instance(rRace, k.shown(loc))
		done := map[string]bool{}
		for i, a := range l {
			for j, b := range l {
				if !a.write || b.write && j < i || i == j && !(instances(a, a) || repeated(a, a)) {
					continue
				}
				if !concurrent(a, b) || common(a, b) {
					continue
				}
				key := a.fn + "/" + b.fn
				if done[key] {
					continue
				}
				done[key] = true
				verb := "read"
				if b.write {
					verb = "written"
				}
				tr := append(append([]string{"-- one goroutine:"}, a.trace...), append([]string{"-- another one:"}, b.trace...)...)
				k.c.violate(rRace, k.shown(loc)+" in "+a.fn+" and "+b.fn, a.pos, k.shown(loc)+" is written in "+a.fn+" while it may be "+verb+" in "+b.fn+" ("+k.c.p.pos(b.pos)+"): no common lock and no order", tr)
			}
		}
	}
}

func common(a, b *access) bool {
	for l, ex := range a.locks {
		bx, ok := b.locks[l]
		if ok && (ex || !a.write) && (bx || !b.write) {
			return true
		}
	}
	return false
}

func (k *raceCheck) shown(loc string) string {
	loc, _, _ = strings.Cut(loc, "\x00")
	i := strings.LastIndexByte(loc, ' ')
	for _, t := range k.c.n.byID {
		if itoa(t.id) == loc[i+1:] {
			name := t.aux
			if t.site != nil {
				if al, ok := t.site.in.(*ssa.Alloc); ok {
					name = al.Comment
				}
				name += " of " + fnName(t.site.ctx.fn)
			}
			return loc[:i+1] + name
		}
	}
	return loc
}
