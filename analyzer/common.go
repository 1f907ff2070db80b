package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pgPath  = modPath + "/pkg/pg"
	srvPath = modPath + "/pkg/server"
	evFire  = "(*" + srvPath + ".Event).Fire"
	evHas   = "(*" + srvPath + ".Event).HasFired"
	evDone  = "(*" + srvPath + ".Event).Done"

	connPfx = "(*" + pgPath + ".Conn)."
)

// recvNamed is the named type a method belongs to ("" for functions).
func recvNamed(fn *ssa.Function) (pkg, name string) {
	if fn == nil || fn.Signature.Recv() == nil {
		return "", ""
	}
	t := fn.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return "", ""
	}
	return n.Obj().Pkg().Path(), n.Obj().Name()
}

// connPrim: the exported methods of pg.Conn are taken as primitives (their own behaviour is decided by W03, W04, S08),
// so is the translation of the URI (D01).
func (p *Program) connPrim(fn *ssa.Function) bool {
	if fn.Object() == nil || !fn.Object().Exported() {
		return false
	}
	if pk, n := recvNamed(fn); pk == pgPath && n == "Conn" {
		return true
	}
	if pk, n := recvNamed(fn); pk == pgPath && n == "StartupMessage" {
		return true
	}
	return fn.String() == pgPath+".ParseDatabaseURI"
}

// sessPrim: sessions are opaque to the server.
func (p *Program) sessPrim(fn *ssa.Function) bool {
	if fn.Object() == nil || !fn.Object().Exported() {
		return false
	}
	if pk, n := recvNamed(fn); pk == srvPath && n == "Session" {
		return true
	}
	return fn.String() == srvPath+".NewSession" || p.connPrim(fn)
}

func init() {
	models[evFire] = modelEvent("fire")
	models[evHas] = modelEvent("fired")
	models[evDone] = func(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
		var typ types.Type
		if result != nil {
			typ = result.Type()
		}
		res := r.e.n.mk(Term{op: "done", typ: typ, args: []*Term{ci.args[0]}})
		return r.plain(s, ci, result, res, evs, isDefer), false
	}
}

// modelEvent: Fire and HasFired of server.Event give an unknown boolean (their meaning is decided by E01).
func modelEvent(what string) model {
	return func(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
		res := r.e.fresh(s, "sym", ci.site, what, types.Typ[types.Bool])
		return r.plain(s, ci, result, res, evs, isDefer), false
	}
}

// method name of a pg.Conn primitive, "" for anything else.
func connOp(ev *Event) string {
	if ev.Kind == "call" && strings.HasPrefix(ev.Name, connPfx) {
		return strings.TrimPrefix(ev.Name, connPfx)
	}
	return ""
}

// base of a name without package path: "net.Listen", "(*sync.Mutex).Lock".
func isLock(ev *Event) (lock, exclusive bool) {
	if ev.Kind != "call" {
		return false, false
	}
	switch ev.Name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		return true, true
	case "(*sync.RWMutex).RLock":
		return true, false
	}
	return false, false
}

func isUnlock(ev *Event) (unlock, exclusive bool) {
	if ev.Kind != "call" {
		return false, false
	}
	switch ev.Name {
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
		return true, true
	case "(*sync.RWMutex).RUnlock":
		return true, false
	}
	return false, false
}

// fieldOf decomposes load(faddr(base, field)).
func fieldOf(t *Term) (base *Term, field string, ok bool) {
	if t != nil && t.op == "load" && t.args[0].op == "faddr" {
		base, field = t.args[0].args[0], t.args[0].aux
		// a structure inside the object
		for base.op == "faddr" {
			base, field = base.args[0], base.aux+"."+field
		}
		return base, field, true
	}
	return nil, "", false
}

// calleeName is the short name of the called function without its package path.
func calleeName(ev *Event) string { return shortName(ev.Name) }

// threads explores an entry point and, transitively, every goroutine started from it.
type Thread struct {
	Name  string
	Kind  string // root, go, errgroup, timer
	Fn    *ssa.Function
	Exec  *Exec
	Spawn *Spawn // nil for the root
	From  *Thread
}

func (c *Check) threads(root *ssa.Function, o Opts) []*Thread {
	e := newExec(c.p, c.n, o)
	e.Run(root)
	return c.expand(&Thread{Name: root.Name(), Kind: "root", Fn: root, Exec: e}, o, map[*ssa.Function]int{})
}

func (c *Check) expand(t *Thread, o Opts, seen map[*ssa.Function]int) []*Thread {
	c.noteExec(t.Exec)
	out := []*Thread{t}
	byID := map[string]*Thread{}
	var started []*Thread
	taken := map[string]bool{}
	for _, sp := range t.Exec.Spawns {
		if sp.Fn == nil {
			// an unknown function value: a parameter or a test hook
			c.undecidedSpawn(t, sp)
			continue
		}
		if sp.Fn.Blocks == nil || !c.p.inRepo(sp.Fn) {
			continue
		}
		// one goroutine, started in different circumstances
		id := sp.Kind + "/" + sp.Ev.spawnID()
		if x := byID[id]; x != nil {
			x.Exec.RunWith(sp.Fn, sp.Bind, sp.Args, sp.St)
			continue
		}
		if seen[sp.Fn] > 12 {
			continue
		}
		seen[sp.Fn]++
		e := newExec(c.p, c.n, o)
		e.RunWith(sp.Fn, sp.Bind, sp.Args, sp.St)
		name := t.Name + "/" + sp.Fn.Name()
		for i := 2; taken[name]; i++ {
			name = t.Name + "/" + sp.Fn.Name() + "#" + itoa(i)
		}
		taken[name] = true
		x := &Thread{Name: name, Kind: sp.Kind, Fn: sp.Fn, Exec: e, Spawn: sp, From: t}
		byID[id] = x
		started = append(started, x)
	}
	for _, x := range started {
		out = append(out, c.expand(x, o, seen)...)
	}
	return out
}

func (c *Check) undecidedSpawn(t *Thread, sp *Spawn) {
	if sp.Dyn != nil {
		c.undecided("goroutine "+t.Name, "a goroutine runs an unknown function %v at %s", sp.Dyn, c.p.pos(sp.Ev.Pos()))
	}
}

// fnName is the stable name of a function for constructs.
func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return shortName(fn.String())
}

// evFn is the source function an event belongs to.
func evFn(ev *Event) string {
	if ev == nil || ev.Site == nil {
		return "?"
	}
	return fnName(ev.Site.ctx.fn)
}

// mustFn looks up an anchor; a missing one makes the property undecided.
func (c *Check) mustFn(rel, recv, name string) *ssa.Function {
	f := c.p.fn(rel, recv, name)
	if f == nil {
		c.undecided("anchor "+rel+"."+recv+"."+name, "the anchor %s.%s.%s no longer exists", rel, recv, name)
	}
	return f
}

// explore runs one function on its own.
func (c *Check) explore(fn *ssa.Function, o Opts) *Exec {
	e := newExec(c.p, c.n, o)
	e.Run(fn)
	c.noteExec(e)
	return e
}

// edgesOf lists all edges of an exploration.
func (e *Exec) edgesOf() []*Edge {
	var r []*Edge
	for _, nd := range e.Nodes {
		r = append(r, nd.out...)
	}
	return r
}

func (e *Exec) eachEvent(f func(ev *Event)) {
	for _, nd := range e.Nodes {
		for _, ed := range nd.out {
			for _, ev := range ed.evs {
				f(ev)
			}
		}
	}
}
