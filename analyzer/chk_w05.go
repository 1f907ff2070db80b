package main

import (
	"golang.org/x/tools/go/ssa"
	"strings"
)

func init() {
	checkFns["W05"] = checkW05
	checkFns["W06"] = checkW06
}

// panicky lists library functions that panic for some integer argument below zero.
var panicky = map[string]int{
	"(*bytes.Buffer).Grow":    1,
	"(*strings.Builder).Grow": 1,
	"strings.Repeat":          1,
	"bytes.Repeat":            1,
}

// peerRoots explores everything that handles bytes of a peer: the receiving and sending half of the protocol, the
// goroutines of a session, and those of the server that serve a connection.
func (c *Check) peerRoots(o Opts) []*Thread {
	var r []*Thread
	add := func(e *Exec, name string) {
		r = append(r, &Thread{Name: name, Kind: "root", Fn: e.Root, Exec: e})
	}
	n := 0
	for _, fn := range c.p.Funcs {
		if fnPkg(fn) != pgPath || fn.Blocks == nil || fn.Synthetic != "" || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		_, recv := recvNamed(fn)
		switch {
		case recv == "Conn" && strings.HasPrefix(fn.Name(), "Recv"), fn.Name() == "Frame",
			recv == "Conn" && strings.HasPrefix(fn.Name(), "Send"),
			recv == "StartupMessage" && fn.Name() == "GetParameter",
			fn.Name() == "ParseDatabaseURI": // the session parses the configured address of its database
			add(c.explore(fn, o), fnName(fn))
			n++
		}
	}
	c.floor2(n, 28, "protocol entry points")
	so := o
	so.Prim = c.p.connPrim
	if s := c.session(); s != nil {
		for _, t := range c.threads(s.start, so) {
			t.Name = s.threadName(t)
			r = append(r, t)
		}
	}
	so.Prim = c.p.sessPrim
	for _, name := range []string{"Serve", "ServeConn", "Start"} {
		if fn := c.mustFn("pkg/server", "Server", name); fn != nil {
			for _, t := range c.threads(fn, so) {
				t.Name = fnName(t.Fn)
				r = append(r, t)
			}
		}
	}
	return r
}

func (c *Check) floor2(n, min int, what string) {
	if n < min {
		c.undecided("floor "+what, "only %d %s found, at least %d were expected", n, what, min)
	}
}

func checkW05(c *Check) {
	// elements of decoded lists exist: later dereferences rely on it
	c.eachDecoder(func(w *wmsg, fn *ssa.Function) {
		if w.elem != "" || w.list != "" {
			c.decoder(w, fn, "elements")
			c.instance("elements", fnName(fn))
		}
	})
	for _, t := range c.peerRoots(Opts{Oblig: true}) {
		who := t.Name
		for _, nd := range t.Exec.Nodes {
			for _, ed := range nd.out {
				for _, ev := range ed.evs {
					switch ev.Kind {
					case "oblig":
						c.instance(strings.ReplaceAll(ev.What, " ", "-"), c.p.pos(ev.Pos()))
						if !ev.OK {
							c.violate("no panic", evFn(ev)+" "+ev.What, ev.Pos(), "reached from "+who+": "+t.Exec.describe(ev)+" is not known to hold", nil)
						}
					case "recurse":
						c.violate("no recursion", evFn(ev), ev.Pos(), "recursion without a bound: "+t.Exec.describe(ev), nil)
					case "panic":
						if !c.watchdogPanic(t, ev) {
							c.violate("no panic", evFn(ev)+" panic", ev.Pos(), "reached from "+who+": "+t.Exec.describe(ev), nil)
						}
					case "call":
						if ev.Name == "(*bytes.Buffer).Truncate" {
							c.instance("argument", c.p.pos(ev.Pos()))
							if k, ok := ev.Args[1].intVal(); ok && k != 0 {
								c.violate("no panic", evFn(ev)+" "+shortName(ev.Name), ev.Pos(), "the buffer may be shorter than "+ev.Args[1].String(), nil)
							}
						}
						if i, ok := panicky[ev.Name]; ok && i < len(ev.Args) {
							c.instance("argument", c.p.pos(ev.Pos()))
							if !t.Exec.newProver(ev.St).proveLE(t.Exec.n.int(0), ev.Args[i]) {
								c.violate("no panic", evFn(ev)+" "+shortName(ev.Name), ev.Pos(), "argument "+ev.Args[i].String()+" may be negative", nil)
							}
						}
					}
				}
			}
		}
	}
	c.floor("field-of-nil-pointer", 20, "dereferences")
	c.floor("slice-bound-out-of-range", 3, "slice expressions")
}

// watchdogPanic: the panic of the timer that guards Close is not reached on behalf of a peer.
func (c *Check) watchdogPanic(t *Thread, ev *Event) bool { return t.Kind == "timer" }

// sizeArg is the number of elements that an event reserves memory for.
func sizeArg(ev *Event) *Term {
	switch ev.Kind {
	case "makeslice":
		return ev.Args[1]
	case "makemap", "makechan":
		if len(ev.Args) == 1 {
			return ev.Args[0]
		}
	case "call":
		switch ev.Name {
		case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow", "strings.Repeat", "bytes.Repeat", "bufio.NewReaderSize", "bufio.NewWriterSize", "slices.Grow":
			return ev.Args[len(ev.Args)-1]
		}
	}
	return nil
}

// W06: what memory is reserved for.
func checkW06(c *Check) {
	var roots []*Thread
	for _, fn := range c.p.Funcs {
		if fnPkg(fn) != pgPath || fn.Blocks == nil || fn.Synthetic != "" || fn.Object() == nil || !fn.Object().Exported() || fn.Parent() != nil {
			continue
		}
		o := Opts{}
		_, recv := recvNamed(fn)
		if recv == "Conn" {
			o.Prim = c.p.wirePrim
		}
		if fn.Name() == "ParseDatabaseURI" || fn.Name() == "Inspect" {
			continue
		}
		roots = append(roots, &Thread{Name: fnName(fn), Fn: fn, Exec: c.explore(fn, o)})
	}
	c.floor2(len(roots), 60, "protocol functions")
	if s := c.session(); s != nil {
		roots = append(roots, s.root)
		roots = append(roots, s.threads...)
	}
	for _, name := range []string{"Serve", "ServeConn"} {
		if fn := c.mustFn("pkg/server", "Server", name); fn != nil {
			roots = append(roots, c.threads(fn, Opts{Prim: c.p.sessPrim})...)
		}
	}
	n := 0
	for _, t := range roots {
		e := t.Exec
		e.eachEvent(func(ev *Event) {
			if ev.Kind == "recurse" {
				c.violate("bounded", evFn(ev), ev.Pos(), "recursion: "+e.describe(ev), nil)
			}
			sz := sizeArg(ev)
			if sz == nil {
				return
			}
			n++
			c.instance("bounded", c.p.pos(ev.Pos()))
			if !e.boundedSize(ev.St, sz) {
				c.violate("bounded", evFn(ev), ev.Pos(), "memory is reserved for "+sz.String()+" elements, which neither a fixed limit nor the data received bounds: "+e.describe(ev), nil)
			}
		})
	}
	c.floor("bounded", 5, "allocations of variable size")
}

// boundedSize: at most 65536 plus a multiple of the data that already exists.
func (e *Exec) boundedSize(s *State, sz *Term) bool {
	p := e.newProver(s)
	if _, hi := p.rng(sz); hi <= 1<<16 {
		return true
	}
	goal := linear{c: map[*Term]int64{}, k: 1 << 16, ok: true}.add(p.lin(sz), -1)
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if !seen[t] {
			seen[t] = true
			goal = goal.add(p.lin(t), 4)
		}
	}
	var visit func(t *Term)
	memo := map[*Term]bool{}
	visit = func(t *Term) {
		if memo[t] {
			return
		}
		memo[t] = true
		if t.op == "len" {
			add(t)
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(sz)
	for f := range s.facts {
		visit(f)
	}
	return p.prove(goal)
}
