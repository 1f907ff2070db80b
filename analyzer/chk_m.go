package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checkFns["M01"] = checkM01
	checkFns["M02"] = checkM02
}

// exits: functions outside the repository that end the process (or panic on purpose).
func exits(name string) bool {
	switch name {
	case "os.Exit", "syscall.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln",
		"(*os.Process).Kill", "(*os.Process).Signal", "syscall.Kill", "syscall.Abort", "syscall.Exec", "runtime.Breakpoint":
		return true
	}
	for _, pk := range []string{"log", "github.com/sirupsen/logrus", "gopkg.in/alecthomas/kingpin.v2"} {
		var m string
		switch {
		case strings.HasPrefix(name, pk+"."):
			m = name[len(pk)+1:]
		case strings.HasPrefix(name, "(*"+pk+".") && strings.Contains(name, ")."):
			m = name[strings.Index(name, ").")+2:]
		case strings.HasPrefix(name, "("+pk+".") && strings.Contains(name, ")."):
			m = name[strings.Index(name, ").")+2:]
		default:
			continue
		}
		if strings.HasPrefix(m, "Fatal") || strings.HasPrefix(m, "Panic") && m != "PanicLevel" || m == "Exit" || strings.HasPrefix(m, "Must") && pk != "log" {
			return true
		}
		if pk == "gopkg.in/alecthomas/kingpin.v2" && (name == pk+".Parse" || name == pk+".Usage") {
			return true
		}
	}
	return false
}

func isMainPkg(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Name() == "main"
		}
	}
	return false
}

func checkM02(c *Check) {
	c.expl = "Who-may-call rule over every function of the repository (SSA, all references, not only calls): nothing outside package main refers to a function that ends the process; " +
		"every explicit panic is either the timer callback started by Server.Close, unreachable, or on a path where a type test failed; command line parsing cannot exit; " +
		"the PostgreSQL driver is imported by the metadata package only."
	c.assume = []string{"the list of process-ending functions of the standard library, logrus and kingpin in the checker"}

	// watchdog: panic functions started as a timer from Server.Close
	watchdog := map[*ssa.Function]bool{}
	if cl := c.mustFn("pkg/server", "Server", "Close"); cl != nil {
		e := c.explore(cl, Opts{Prim: c.p.connPrim})
		for _, sp := range e.Spawns {
			if sp.Kind == "timer" && sp.Fn != nil {
				watchdog[sp.Fn] = true
			}
		}
	}

	for _, fn := range c.p.Funcs {
		c.funcs[fn.String()] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok || c.p.inRepo(f) {
						continue
					}
					c.instance("references", fnName(fn)+" -> "+objName(f))
					if exits(objName(f)) && !isMainPkg(fn) {
						c.violate("only main exits", fnName(fn)+" -> "+objName(f), in.Pos(), "ends the process outside the program's entry point", nil)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if cc.IsInvoke() && exits(cc.Method.FullName()) && !isMainPkg(fn) {
						c.violate("only main exits", fnName(fn)+" -> "+cc.Method.FullName(), in.Pos(), "ends the process outside the program's entry point", nil)
					}
					if f := cc.StaticCallee(); f != nil && strings.Contains(objName(f), "sirupsen/logrus") && strings.HasPrefix(f.Name(), "Log") {
						for _, a := range cc.Args {
							if k, ok := a.(*ssa.Const); ok && strings.HasSuffix(k.Type().String(), "logrus.Level") && k.Value != nil && k.Uint64() <= 1 {
								c.violate("only main exits", fnName(fn)+" -> "+objName(f), in.Pos(), "logs at a level that ends the process", nil)
							}
						}
					}
				}
				if pn, ok := in.(*ssa.Panic); ok {
					c.checkPanic(fn, pn, watchdog)
				}
				// assignment to a library's exit hook
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						o := derefType(fa.X.Type())
						if s, ok := o.Underlying().(*types.Struct); ok && s.Field(fa.Field).Name() == "ExitFunc" {
							c.violate("only main exits", fnName(fn)+" ExitFunc", st.Pos(), "installs an exit function", nil)
						}
					}
				}
			}
		}
	}
	c.floor("references", 60, "references to library functions")

	// kingpin applications: Terminate(nil) before Parse on every path
	for _, fn := range c.p.Funcs {
		uses := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil && objName(f) == "(*gopkg.in/alecthomas/kingpin.v2.Application).Parse" {
						uses = true
					}
				}
			}
		}
		if !uses {
			continue
		}
		// explore from the outermost callers that are not called with the application
		root := fn
		if r := c.p.fn("pkg/cli", "cli", "Run"); r != nil {
			root = r
		}
		e := c.explore(root, Opts{})
		hit := false
		c.product(e, nil, func(m *Mon, ev *Event) {
			if ev.Kind != "call" || len(ev.Args) == 0 {
				return
			}
			switch ev.Name {
			case "(*gopkg.in/alecthomas/kingpin.v2.Application).Terminate":
				if ev.Args[1].op == "nil" || (ev.Args[1].op == "func" || ev.Args[1].op == "closure") && c.p.inRepo(ev.Args[1].fn) {
					m.set("safe", ev.Args[0], nil)
				}
			case "(*gopkg.in/alecthomas/kingpin.v2.Application).Parse":
				if ev.Site.ctx.fn == fn {
					hit = true
				}
				c.instance("command line parsing", evFn(ev))
				if !m.has("safe", ev.Args[0]) {
					m.fail("command line parsing", evFn(ev), "kingpin ends the process by itself on --help, --version or an error: Terminate was not disarmed before Parse")
				}
			}
		})
		if !hit {
			c.undecided("command line parsing "+fnName(fn), "Parse in %s is not reached from cli.Run", fnName(fn))
		}
	}
	c.floor("command line parsing", 1, "kingpin Parse")

	// driver
	for _, pk := range c.p.Pkgs {
		for path := range pk.Imports {
			if path == "github.com/lib/pq" || strings.HasPrefix(path, "github.com/jackc/pg") || path == "github.com/go-pg/pg" {
				c.instance("driver import", pk.PkgPath+" -> "+path)
				if relPkg(pk.PkgPath) != "pkg/pgmeta" {
					c.violate("driver import", pk.PkgPath+" -> "+path, 0, "the PostgreSQL driver is loaded outside the metadata package", nil)
				}
			}
		}
	}
	c.floor("driver import", 1, "imports of the driver")
}

func (c *Check) checkPanic(fn *ssa.Function, pn *ssa.Panic, watchdog map[*ssa.Function]bool) {
	name := fnName(fn)
	if !pn.Pos().IsValid() {
		return // the unreachable end of a select, added by the compiler
	}
	c.instance("panics", name)
	if watchdog[fn] {
		c.instance("panics", name+" (watchdog)")
		return
	}
	root := fn
	for root.Parent() != nil && calledInPlace(root) {
		root = root.Parent()
	}
	if root.Parent() != nil || root.Blocks == nil {
		c.violate("deliberate panic", name, pn.Pos(), "panics on purpose", nil)
		return
	}
	// a function that only exists to panic is judged by the functions that call it
	within := []*ssa.Function{root}
	seen := map[*ssa.Function]bool{root: true}
	for len(within) > 0 {
		at := within[0]
		within = within[1:]
		if c.panicsOnlyUntyped(at, pn) {
			continue
		}
		up, ok := c.p.onlyCalledBy(at)
		if !ok {
			c.violate("deliberate panic", name, pn.Pos(), "panics on purpose on a path without a failed type test", nil)
			return
		}
		for _, g := range up {
			if !seen[g] {
				seen[g] = true
				within = append(within, g)
			}
		}
	}
}

// panicsOnlyUntyped: the panic happens in the function, or in one that it calls, only after a type test failed.
func (c *Check) panicsOnlyUntyped(fn *ssa.Function, pn *ssa.Panic) bool {
	ok := true
	c.product(c.explore(fn, Opts{}), nil, func(m *Mon, ev *Event) {
		if ev.Kind != "panic" || ev.Site.in != ssa.Instruction(pn) {
			return
		}
		for f, v := range ev.St.facts {
			if f.op == "typeis" && !v {
				return
			}
		}
		ok = false
	})
	return ok
}

// onlyCalledBy lists the functions that call an unexported one; false if it is used in another way or is recursive.
func (p *Program) onlyCalledBy(fn *ssa.Function) ([]*ssa.Function, bool) {
	if fn.Object() == nil || fn.Object().Exported() || fn.Name() == "main" || fn.Name() == "init" {
		return nil, false
	}
	if fn.Signature.Recv() != nil {
		return nil, false
	}
	var r []*ssa.Function
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for i, op := range in.Operands(nil) {
					if *op != ssa.Value(fn) {
						continue
					}
					call, ok := in.(*ssa.Call)
					if !ok || i != 0 || call.Call.StaticCallee() != fn || g == fn {
						return nil, false
					}
					root := g
					for root.Parent() != nil && calledInPlace(root) {
						root = root.Parent()
					}
					if root.Parent() != nil {
						return nil, false
					}
					r = append(r, root)
				}
			}
		}
	}
	return r, true
}

// calledInPlace: the function literal is only called by the function it appears in.
func calledInPlace(fn *ssa.Function) bool {
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				v := *op
				if mc, ok := v.(*ssa.MakeClosure); ok {
					v = mc.Fn
				}
				if v != ssa.Value(fn) {
					continue
				}
				if _, ok := in.(*ssa.MakeClosure); ok {
					continue
				}
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() != fn {
					return false
				}
				for _, a := range call.Call.Args {
					if a == *op {
						return false
					}
				}
			}
		}
	}
	return true
}

// checkM01: exit codes.
func checkM01(c *Check) {
	const kp = "gopkg.in/alecthomas/kingpin.v2"
	c.expl = "Path enumeration of cli.Run, cli's package entry, server.Run and main by abstract interpretation: 0 is returned only where help/version was requested or the server function returned nil, " +
		"every other return is 1 after the error was written to the error stream; the server function is called at most once and only when parsing and loading succeeded and neither flag is set."
	c.assume = []string{"kingpin sets the variables bound to its help and version flags when they are given and reports errors through Parse"}
	run := c.mustFn("pkg/cli", "cli", "Run")
	if run == nil {
		return
	}
	e := c.explore(run, Opts{})
	self := run.Params[0]
	_ = self
	field := func(t *Term, name string) bool {
		b, f, ok := fieldOf(t)
		return ok && f == name && b.op == "param"
	}
	isErr := func(t *Term) bool { return t != nil && t.typ != nil && types.Identical(t.typ, nil0) }
	helpCells, versionCells := map[*Term]bool{}, map[*Term]bool{}
	c.product(e, nil, func(m *Mon, ev *Event) {
		flagAsked := func() (asked, clear bool) {
			clear = true
			for _, f := range m.all("asked") {
				b, known := m.truth(f.a)
				if known && b {
					asked = true
				}
				if !known || b {
					clear = false
				}
			}
			return
		}
		written := func(err *Term) {
			if err == nil {
				return
			}
			if b, known := m.isNil(err); known && !b {
				m.set("reported", nil, nil)
			}
			m.set("written", err, nil)
		}
		switch ev.Kind {
		case "call":
			switch {
			case strings.HasSuffix(ev.Name, ").BoolVar") && strings.Contains(ev.Name, kp):
				r := ev.Args[0]
				for r.op == "faddr" {
					r = r.args[0]
				}
				if r.op != "load" || r.args[0].op != "faddr" {
					m.set("other", ev.Args[1], nil)
				}
				if r.op == "load" && r.args[0].op == "faddr" {
					switch r.args[0].aux {
					case "HelpFlag":
						m.set("help", ev.Args[1], nil)
						helpCells[ev.Args[1]] = true
					case "VersionFlag":
						m.set("version", ev.Args[1], nil)
						versionCells[ev.Args[1]] = true
					}
				}
			case strings.HasPrefix(ev.Name, "(*"+kp+".Application).Parse"):
				m.set("parsed", m.e.n.mk(Term{op: "ext", aux: "1", typ: nil0, args: []*Term{ev.Res}}), nil)
				for _, f := range append(m.all("help"), m.all("version")...) {
					m.set("asked", m.e.load(ev.St, f.a, types.Typ[types.Bool]), nil)
				}
				for _, f := range append(m.all("help"), m.all("version")...) {
					if m.has("other", f.a) {
						m.fail("flags", evFn(ev), "another flag counts as a request for help or version")
					}
				}
				if len(m.all("help")) == 0 || len(m.all("version")) == 0 {
					m.fail("flags", evFn(ev), "the help or version flag is not bound before the arguments are parsed")
				}
				if b := ev.Args[1]; b.op != "param" {
					m.fail("flags", evFn(ev), "something else than the given arguments is parsed: %v", b)
				}
			case strings.HasPrefix(ev.Name, "fmt.Fprint") && len(ev.Args) > 0 && field(ev.Args[0], "stderr"):
				for _, a := range ev.Args[1:] {
					for _, l := range m.e.elems(ev.St, a) {
						if isErr(l) {
							written(l)
						}
						if l.op == "sym" && l.aux == "(error).Error" {
							written(m.get("errstr", l))
						}
					}
				}
			case ev.Name == "(error).Error":
				m.set("errstr", ev.Res, ev.Args[0])
			case strings.HasPrefix(ev.Name, "io.WriteString") && field(ev.Args[0], "stderr"):
				for _, f := range m.all("errstr") {
					if ev.Args[1].contains(f.a) {
						written(f.b)
					}
				}
			}
			if ev.Val != nil && field(ev.Val, "runServer") {
				c.instance("server start", evFn(ev))
				if m.has("ran", nil) {
					m.fail("started once", fnName(run), "the server is started twice")
				}
				_, clear := flagAsked()
				if !clear {
					m.fail("start condition", fnName(run), "the server is started although help or version may have been asked for")
				}
				if len(m.all("parsed")) == 0 {
					m.fail("start condition", fnName(run), "the server is started without parsing the arguments")
				}
				// every error seen so far is nil
				for f, v := range ev.St.facts {
					if f.op == "eq" && !v && (isErr(f.args[0]) || isErr(f.args[1])) {
						m.fail("start condition", fnName(run), "the server is started although an error was reported: %v", f)
					}
				}
				for _, pf := range m.all("parsed") {
					if b, known := m.isNil(pf.a); !known || !b {
						m.fail("start condition", fnName(run), "the server is started without checking whether the arguments were valid")
					}
				}
				if len(m.all("decoded")) == 0 {
					m.fail("start condition", fnName(run), "the server is started without a loaded configuration")
				}
				for _, pf := range m.all("decoded") {
					if b, known := m.isNil(pf.a); !known || !b {
						m.fail("start condition", fnName(run), "the server is started without checking whether the configuration could be loaded")
					}
				}
				m.set("ran", nil, ev.Res)
			}
			if strings.Contains(ev.Name, "BurntSushi/toml") {
				r := ev.Res
				if tup, ok := r.typ.(*types.Tuple); ok {
					r = m.e.n.mk(Term{op: "ext", aux: itoa(tup.Len() - 1), typ: nil0, args: []*Term{ev.Res}})
				}
				m.set("decoded", r, nil)
			}
		case "panic":
			m.fail("exit code", fnName(run), "the command line panics")
		case "return":
			code, ok := ev.Args[0].intVal()
			if !ok {
				m.fail("exit code", fnName(run), "the exit code %v is not determined by the path", ev.Args[0])
				return
			}
			asked, _ := flagAsked()
			ran := m.get("ran", nil)
			c.instance("returns", evFn(ev)+" code "+itoa(int(code))+" "+m.pathKind(asked, ran))
			switch code {
			case 0:
				if asked && ran == nil {
					for _, pf := range m.all("parsed") {
						if b, known := m.isNil(pf.a); !known || !b {
							m.fail("exit code", fnName(run), "0 is returned for invalid arguments")
						}
					}
					return
				}
				if ran != nil {
					if b, known := m.isNil(ran); known && b {
						return
					}
					m.fail("exit code", fnName(run), "0 is returned although the server may have failed")
					return
				}
				m.fail("exit code", fnName(run), "0 is returned without help, version or a successful server run")
			case 1:
				if ran != nil {
					if b, known := m.isNil(ran); !known || b {
						m.fail("exit code", fnName(run), "1 is returned although the server may have ended without error")
					}
				}
				ok := m.has("reported", nil)
				for _, w := range m.all("written") {
					if b, known := m.isNil(w.a); known && !b {
						ok = true
					}
					if knownNonNil[strings.TrimRight(w.a.aux, "'")] {
						ok = true
					}
				}
				if !ok {
					m.fail("error output", fnName(run), "1 is returned without writing the reason to the error stream")
				}
			default:
				m.fail("exit code", fnName(run), "the exit code is %d", code)
			}
		}
	})
	c.floor("server start", 1, "call of runServer")
	c.floor("returns", 4, "returns of Run")

	// package entry: the real streams and the real server
	if ent := c.mustFn("pkg/cli", "", "Run"); ent != nil {
		ee := c.explore(ent, Opts{Prim: func(f *ssa.Function) bool { return f == run }})
		c.product(ee, nil, func(m *Mon, ev *Event) {
			switch ev.Kind {
			case "call":
				if ev.Fn != run {
					return
				}
				if m.has("res", nil) {
					m.fail("entry", fnName(ent), "the command line runs twice")
				}
				m.set("res", nil, ev.Res)
				c.instance("entry", fnName(ent))
				t := derefType(run.Params[0].Type())
				get := func(f string) *Term { return ee.load(ev.St, ee.faddr(ev.Args[0], f, t), nil0) }
				std := func(v *Term, name string) bool {
					if v.op == "iface" {
						v = v.args[0]
					}
					return v.op == "load" && v.args[0].op == "global" && v.args[0].aux == name
				}
				if !std(get("stdout"), "Stdout") {
					m.fail("entry", "stdout", "standard output is %v", get("stdout"))
				}
				if !std(get("stderr"), "Stderr") {
					m.fail("entry", "stderr", "the error stream is %v", get("stderr"))
				}
				rs := get("runServer")
				if rs.fn == nil || objName(rs.fn) != srvPath+".Run" {
					m.fail("entry", "runServer", "the server function is %v", rs)
				}
				if ev.Args[1].op != "param" {
					m.fail("entry", "args", "the arguments are %v", ev.Args[1])
				}
			case "return":
				if r := m.get("res", nil); r == nil || r != ev.Args[0] {
					m.fail("entry", fnName(ent), "the exit code is replaced by %v", ev.Args[0])
				}
			}
		})
	}
	// server.Run reports the error of Start
	if sr := c.mustFn("pkg/server", "", "Run"); sr != nil {
		start := c.mustFn("pkg/server", "Server", "Start")
		se := c.explore(sr, Opts{Prim: func(f *ssa.Function) bool {
			pk, n := recvNamed(f)
			return pk == srvPath && (n == "Server" || n == "ConfigDistributor")
		}})
		c.product(se, nil, func(m *Mon, ev *Event) {
			switch ev.Kind {
			case "call":
				if ev.Fn == start && start != nil {
					m.set("res", nil, ev.Res)
					c.instance("server result", fnName(sr))
				}
			case "return":
				if r := m.get("res", nil); r == nil || r != ev.Args[0] {
					if r != nil && m.has("res", nil) {
						// wrapped errors keep nil-ness only if tested
						a, k1 := m.isNil(r)
						b, k2 := m.isNil(ev.Args[0])
						if k1 && k2 && a == b {
							return
						}
					}
					m.fail("server result", fnName(sr), "the server's error is replaced by %v", ev.Args[0])
				}
			}
		})
	}
	// main
	if mn := c.mustFn("", "", "main"); mn != nil {
		ent := c.p.fn("pkg/cli", "", "Run")
		me := c.explore(mn, Opts{Prim: func(f *ssa.Function) bool { return f == ent }})
		c.product(me, nil, func(m *Mon, ev *Event) {
			switch ev.Kind {
			case "call":
				if ev.Fn == ent && ent != nil {
					a := ev.Args[0]
					lo, _ := int64(0), 0
					if a.op == "slice" && a.args[0].op == "load" && a.args[0].args[0].op == "global" && a.args[0].args[0].aux == "Args" && a.args[2].op == "nil" {
						lo, _ = a.args[1].intVal()
					}
					if lo != 1 {
						m.fail("main", "arguments", "the command line gets %v instead of the program's arguments", a)
					}
					m.set("res", nil, ev.Res)
				}
				if ev.Name == "os.Exit" {
					c.instance("main", "os.Exit")
					if r := m.get("res", nil); r == nil || r != ev.Args[0] {
						m.fail("main", "exit code", "the process exits with %v", ev.Args[0])
					}
					m.kill()
				}
			case "return":
				m.fail("main", "exit code", "main returns without passing on the exit code")
			}
		})
		c.floor("main", 1, "os.Exit in main")
	}
}

func (m *Mon) pathKind(asked bool, ran *Term) string {
	s := ""
	if asked {
		s += "help/version "
	}
	if ran != nil {
		s += "server ran "
		if b, known := m.isNil(ran); known {
			if b {
				s += "ok"
			} else {
				s += "failed"
			}
		}
	}
	return s
}

// elems lists the values a variadic (or plain) argument hands over, unwrapping interfaces.
func (e *Exec) elems(s *State, a *Term) []*Term {
	var out []*Term
	add := func(t *Term) {
		if t.op == "iface" {
			out = append(out, t.args[0])
		}
		out = append(out, t)
	}
	if es := e.sliceElems(s, a); es != nil {
		for _, x := range es {
			add(x)
		}
		return out
	}
	add(a)
	return out
}
