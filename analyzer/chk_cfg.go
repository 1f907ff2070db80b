package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checkFns["G01"] = checkG01
	checkFns["G02"] = checkG02
}

const (
	tomlPkg   = "github.com/BurntSushi/toml"
	fsnWatch  = "github.com/fsnotify/fsnotify.NewWatcher"
	fsnAdd    = "(*github.com/fsnotify/fsnotify.Watcher).Add"
	fsnClose  = "(*github.com/fsnotify/fsnotify.Watcher).Close"
	kpPkg     = "gopkg.in/alecthomas/kingpin.v2"
	opCreate  = 1
	opWrite   = 2
	opRemove  = 4
	logrusPkg = "github.com/sirupsen/logrus"
)

// cfgModel is the command line with everything it calls and starts (except the server itself, which is a function value).
type cfgModel struct {
	c       *Check
	run     *ssa.Function
	ts      []*Thread
	paths   map[*Term]bool // variables that receive the path of the configuration file
	chans   map[*Term]bool // channels handed to the server
	drained bool           // the errors of the watcher are received in a goroutine of their own
}

// cfgMon follows the loading of a configuration. Monitor facts: path(t): the configured path, or a form of it;
// src(t)=err: something opened or read from there; dec(config)=err: decoded from there; dirty(config): also written otherwise.
type cfgMon struct {
	x    *cfgModel
	m    *Mon
	ev   *Event
	who  string
	rule string
}

func (c *Check) config() *cfgModel {
	run := c.mustFn("pkg/cli", "cli", "Run")
	if run == nil {
		return nil
	}
	x := &cfgModel{c: c, run: run, paths: map[*Term]bool{}, chans: map[*Term]bool{}}
	x.ts = c.threads(run, Opts{})
	root := x.ts[0].Exec
	// the variables bound to the flag
	c.product(root, nil, func(m *Mon, ev *Event) {
		if ev.Kind != "call" || !strings.Contains(ev.Name, kpPkg) || len(ev.Args) == 0 {
			return
		}
		if strings.HasSuffix(ev.Name, ").Flag") && len(ev.Args) > 1 {
			if s, ok := ev.Args[1].strVal(); ok && s == "config" {
				m.set("flag", ev.Res, nil)
			}
			return
		}
		b := ev.Args[0]
		for b.op == "faddr" {
			b = b.args[0]
		}
		if !m.has("flag", b) {
			return
		}
		switch nm := calleeName(ev); {
		case strings.HasSuffix(nm, "StringVar") && len(ev.Args) > 1:
			x.paths[ev.Args[1]] = true
		case strings.HasSuffix(nm, ").String"):
			x.paths[ev.Res] = true
		default:
			m.set("flag", ev.Res, nil)
		}
	})
	if len(x.paths) == 0 {
		c.undecided("configuration path", "cannot tell where the path of the configuration file is kept")
		return nil
	}
	root.eachEvent(func(ev *Event) {
		if x.isStart(ev) {
			x.chans[bare(ev.Args[len(ev.Args)-1])] = true
		}
	})
	if len(x.chans) == 0 {
		c.undecided("server start", "cannot tell where the command line starts the server")
		return nil
	}
	return x
}

// isStart: the server is started (through the field of the command line that holds the function).
func (x *cfgModel) isStart(ev *Event) bool {
	if ev.Kind != "call" || ev.Val == nil || len(ev.Args) == 0 {
		return false
	}
	b, f, ok := fieldOf(ev.Val)
	return ok && f == "runServer" && b.op == "param"
}

// bare strips conversions.
func bare(t *Term) *Term {
	for t.op == "conv" || t.op == "iface" || t.op == "chtype" {
		t = t.args[0]
	}
	return t
}

// isPath: t is the path the user gave, or a form of it that names the same file.
func (g *cfgMon) isPath(t *Term) bool {
	t = bare(t)
	if g.m.has("path", t) {
		return true
	}
	for cell := range g.x.paths {
		if t.op == "out" && len(t.args) > 1 && t.args[1] == cell || t.op == "load" && t.args[0] == cell || g.m.e.load(g.ev.St, cell, types.Typ[types.String]) == t {
			return true
		}
	}
	return false
}

// derived: t was read from the configured file.
func (g *cfgMon) derived(t *Term) bool {
	t = bare(t)
	return g.m.has("src", t)
}

// load follows one event and reports what it did: "decode" of a configuration, or a "failed" attempt so far.
func (g *cfgMon) load() (decoded *Term) {
	m, ev := g.m, g.ev
	for _, f := range m.all("dec") {
		// what the decoder left in the address
		if !m.has("addr", f.a) {
			if l := g.listen(f.a); l != nil {
				m.set("addr", f.a, l)
			}
		}
	}
	switch ev.Kind {
	case "store":
		if ev.Addr.op == "faddr" && ev.Addr.typ != nil && namedOf(ev.Addr.typ) == "Config" || ev.Addr.op == "faddr" && namedOf(derefOr(ev.Addr.args[0].typ)) == "Config" {
			if ev.Val.op == "nil" || ev.Val.op == "zero" {
				return
			}
			if s, ok := ev.Val.strVal(); ok && s == "" {
				return
			}
			m.set("dirty", ev.Addr.args[0], ev.Val)
		}
	case "call":
		if ev.Res == nil || len(ev.Args) == 0 {
			return
		}
		last := func() *Term {
			if tup, ok := ev.Res.typ.(*types.Tuple); ok && tup.Len() > 0 {
				return m.e.result(ev, -1)
			}
			return nil
		}
		switch {
		case strings.HasPrefix(ev.Name, tomlPkg+".Decode") || ev.Name == tomlPkg+".Unmarshal" || ev.Name == "(*"+tomlPkg+".Decoder).Decode":
			cfg := bare(ev.Args[len(ev.Args)-1])
			err := last()
			if err == nil {
				err = ev.Res
			}
			from := ev.Args[0]
			if ev.Name == tomlPkg+".DecodeFile" {
				if !g.isPath(from) {
					m.fail(g.rule, evFn(ev), "a configuration is decoded from %s, which is not the configured file", from)
				}
			} else if !g.derived(from) {
				m.fail(g.rule, evFn(ev), "a configuration is decoded from %s, which was not read from the configured file", from)
			}
			m.set("dec", cfg, err)
			m.del("addr", cfg)
			return cfg
		case ev.Name == "path/filepath.Abs" || ev.Name == "path/filepath.EvalSymlinks":
			if g.isPath(ev.Args[0]) {
				m.set("path", m.e.result(ev, 0), last())
				m.set("try", last(), nil)
			}
		case ev.Name == "path/filepath.Clean":
			if g.isPath(ev.Args[0]) {
				m.set("path", ev.Res, nil)
			}
		case ev.Name == "os.Open" || ev.Name == "os.ReadFile" || ev.Name == "io/ioutil.ReadFile":
			if g.isPath(ev.Args[0]) {
				m.set("src", m.e.result(ev, 0), last())
				m.set("try", last(), nil)
			}
		case ev.Name == "io.ReadAll" || ev.Name == "io/ioutil.ReadAll":
			if g.derived(ev.Args[0]) {
				m.set("src", m.e.result(ev, 0), last())
				m.set("try", last(), nil)
			}
		case ev.Name == "bufio.NewReader" || ev.Name == "bytes.NewReader" || ev.Name == "strings.NewReader" || ev.Name == "bytes.NewBuffer" || ev.Name == tomlPkg+".NewDecoder":
			if g.derived(ev.Args[0]) {
				m.set("src", ev.Res, nil)
			}
		}
	}
	return nil
}

func derefOr(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// listen is the address in a configuration.
func (g *cfgMon) listen(cfg *Term) *Term {
	t := derefOr(cfg.typ)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Listen" {
			return g.m.e.load(g.ev.St, g.m.e.faddr(cfg, "Listen", t), st.Field(i).Type())
		}
	}
	return nil
}

// hasAddress: the configuration is known (not) to name its address.
func (g *cfgMon) hasAddress(cfg *Term) (yes, known bool) {
	l := g.m.get("addr", cfg)
	if l == nil {
		return false, false
	}
	if e, ok := g.m.empty(l); ok {
		return !e, true
	}
	trim := g.m.e.n.mk(Term{op: "app", aux: "strings.TrimSpace", typ: types.Typ[types.String], args: []*Term{l}})
	if e, ok := g.m.empty(trim); ok && !e {
		return true, true
	} else if ok {
		return false, true
	}
	return false, false
}

// loaded: the configuration was loaded successfully.
func (g *cfgMon) loaded(cfg *Term) (why string) {
	m := g.m
	if cfg.op == "nil" {
		return "no configuration at all is handed over"
	}
	err := m.get("dec", cfg)
	if err == nil {
		return "what is handed over, " + cfg.String() + ", was not read from the configured file by this path"
	}
	if n, ok := m.isNil(err); !ok || !n {
		return "a configuration is handed over although reading or parsing it may have failed"
	}
	for _, f := range m.all("try") {
		if n, ok := m.isNil(f.a); ok && !n {
			return "a configuration is handed over although the file could not be read"
		}
	}
	if v := m.get("dirty", cfg); v != nil {
		return "what is handed over is not what the file says: " + v.String() + " is written into it"
	}
	if y, ok := g.hasAddress(cfg); !ok || !y {
		return "a configuration is handed over that may lack the listen address"
	}
	return ""
}

// failing: the configuration being loaded is known to be unusable.
func (g *cfgMon) failing() bool {
	m := g.m
	for _, f := range m.all("try") {
		if n, ok := m.isNil(f.a); ok && !n {
			return true
		}
	}
	for _, f := range m.all("dec") {
		if n, ok := m.isNil(f.b); ok && !n {
			return true
		}
		if y, ok := g.hasAddress(f.a); ok && !y {
			return true
		}
	}
	return false
}

// cfgSend: the channel and the configuration sent by the event.
func cfgSends(ev *Event) (ch, val *Term) {
	switch ev.Kind {
	case "send":
		ch, val = ev.Args[0], ev.Args[1]
	case "select":
		if ev.Chosen >= 0 && ev.Cases[ev.Chosen].Send {
			ch, val = ev.Cases[ev.Chosen].Ch, ev.Cases[ev.Chosen].Val
		}
	}
	if ch == nil {
		return nil, nil
	}
	if ch.typ != nil && !isMsgChanOf(ch.typ, "Config") {
		return nil, nil
	}
	return bare(ch), bare(val)
}

func isLog(ev *Event) bool {
	if ev.Kind != "call" {
		return false
	}
	if strings.Contains(ev.Name, logrusPkg) {
		n := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
		return strings.HasPrefix(n, "Err") || strings.HasPrefix(n, "Warn") || strings.HasPrefix(n, "Info") || strings.HasPrefix(n, "Print")
	}
	if strings.HasPrefix(ev.Name, "fmt.Fprint") && len(ev.Args) > 0 {
		_, f, ok := fieldOf(ev.Args[0])
		return ok && f == "stderr"
	}
	return false
}

// watchRecv: the event receives from the named channel of the file notification library.
func watchRecv(ev *Event) (field string, ch *Term) {
	switch ev.Kind {
	case "recv":
		ch = ev.Args[0]
	case "select":
		if ev.Chosen < 0 || ev.Cases[ev.Chosen].Send {
			return "", nil
		}
		ch = ev.Cases[ev.Chosen].Ch
	default:
		return "", nil
	}
	if b, f, ok := fieldOf(ch); ok && b != nil && (f == "Events" || f == "Errors") {
		return f, ch
	}
	return "", ch
}

// waiting: the event waits for anything (a file event is over).
func (x *cfgModel) waiting(ev *Event) bool {
	if ev.Kind == "recv" {
		f, _ := watchRecv(ev)
		return f != ""
	}
	if ev.Kind == "select" {
		for _, cs := range ev.Cases {
			if _, f, ok := fieldOf(cs.Ch); ok && f == "Events" && !cs.Send {
				return true
			}
		}
	}
	return false
}

func checkG01(c *Check) {
	c.expl = "Path automaton over cli.Run with loading, watching and the reload callback inlined, and over the goroutines it starts: every configuration sent to a channel was decoded by that path from the configured file, without any error, " +
		"has a listen address and was not changed; the server is started only with a channel that holds such a configuration; failing reloads are logged."
	c.assume = []string{"the toml decoder reports every failure as an error and writes only to the value it is given", "filepath.Abs names the same file"}
	x := c.config()
	if x == nil {
		return
	}
	for i, t := range x.ts {
		root := i == 0
		who := fnName(t.Fn)
		c.product(t.Exec, nil, func(m *Mon, ev *Event) {
			g := &cfgMon{x, m, ev, who, "configured file"}
			judge := func() {
				if m.has("reload", nil) && !root {
					if g.failing() && !m.has("logged", nil) && !m.has("sent", nil) {
						m.fail("failing reload", who, "a configuration that fails to load is ignored without a word")
					}
					c.instance("reload", who)
				}
			}
			if !root && x.waiting(ev) {
				judge()
				for _, k := range []string{"path", "src", "dec", "addr", "dirty", "try", "reload", "logged", "sent"} {
					m.clear(k)
				}
			}
			if cfg := g.load(); cfg != nil {
				c.instance("decode", evFn(ev)+" in "+who)
				m.set("reload", nil, nil)
				m.clear("logged")
			}
			if len(m.all("try")) > 0 {
				m.set("reload", nil, nil)
			}
			if isLog(ev) && g.failing() {
				m.set("logged", nil, nil)
			}
			if ev.Kind == "makechan" && ev.Res != nil {
				m.set("size", ev.Res, ev.Args[0])
			}
			if ch, cfg := cfgSends(ev); ch != nil {
				c.instance("handing over", evFn(ev)+" in "+who)
				if why := g.loaded(cfg); why != "" {
					m.fail("handing over", evFn(ev), "%s", why)
				}
				if sz := m.get("size", ch); root && ev.Kind == "send" {
					if n, ok := szVal(sz); !ok || n < 1 || m.has("sent", ch) {
						m.fail("handing over", evFn(ev), "the first configuration is sent to a channel that nobody receives from yet and that cannot hold it")
					}
				}
				m.set("sent", ch, nil)
				m.set("sent", nil, nil)
			}
			switch {
			case root && x.isStart(ev):
				ch := bare(ev.Args[len(ev.Args)-1])
				c.instance("server start", evFn(ev))
				if !m.has("sent", ch) {
					m.fail("server start", evFn(ev), "the server is started without the loaded configuration in its channel")
				}
				m.set("ran", nil, nil)
			case ev.Kind == "return":
				if !root {
					judge()
					return
				}
				if g.failing() && !m.has("ran", nil) {
					c.instance("failing start", who)
					if n, ok := ev.Args[0].intVal(); !ok || n == 0 {
						m.fail("failing start", who, "the program does not report failure although the configuration is unusable")
					}
				}
			}
		})
	}
	c.floor("decode", 2, "decoding at start-up and on reload")
	c.floor("handing over", 2, "initial and later publication")
	c.floor("server start", 1, "start of the server")
	c.floor("failing start", 1, "returns after a failed load")
	c.floor("reload", 1, "reloads")
	// nothing else produces configurations
	for _, fn := range c.p.Funcs {
		if x.reached(fn) || relPkg(fnPkg(fn)) == "pkg/server" || dead(fn) && len(c.p.callers()[fn]) == 0 {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Send); ok && isMsgChanOf(s.Chan.Type(), "Config") {
					c.violate("handing over", fnName(fn), s.Pos(), "configurations are sent by code that the command line does not reach", nil)
				}
			}
		}
	}
}

func szVal(t *Term) (int64, bool) {
	if t == nil {
		return 0, false
	}
	return t.intVal()
}

func (x *cfgModel) reached(fn *ssa.Function) bool {
	for _, t := range x.ts {
		if t.Exec.inl[fn] {
			return true
		}
	}
	return false
}

func checkG02(c *Check) {
	c.expl = "Path automaton over cli.Run and the watching goroutine with the callback inlined: before the server starts, the configured file is watched successfully and the goroutine runs; between two waits for file events, an event with the " +
		"write bit (and neither create nor remove) leads to one load of the configured file and, if it loads, one send to the server's channel; the goroutine ends only when the library's channels end, report an error, or the watch is stopped; " +
		"a failed watch is closed and keeps the server from starting."
	c.assume = []string{"the notification library delivers its events in order on the Events channel", "on Linux a notification with the write bit carries neither the create nor the remove bit"}
	x := c.config()
	if x == nil {
		return
	}
	var watch []*Thread
	fns := map[*ssa.Function]bool{}
	// errors received where no events are awaited
	for _, t := range x.ts {
		errs, events := false, false
		t.Exec.eachEvent(func(ev *Event) {
			f, _ := watchRecv(ev)
			errs, events = errs || f == "Errors", events || f == "Events"
		})
		x.drained = x.drained || errs && !events
	}
	for _, t := range x.ts {
		is := false
		t.Exec.eachEvent(func(ev *Event) { is = is || x.waiting(ev) })
		if is {
			watch = append(watch, t)
			fns[t.Fn] = true
		}
	}
	for _, t := range watch {
		if t == x.ts[0] {
			c.violate("watching goroutine", fnName(t.Fn), t.Fn.Pos(), "file events are awaited by the goroutine that starts the server", nil)
			return
		}
		x.watcher(t)
	}
	c.floor("watching goroutine", 1, "goroutines that receive file events")
	c.floor("file event", 1, "paths from one file event to the next wait")
	c.floor("write", 1, "paths of a write event")
	x.start(fns)
	c.floor("server start", 1, "start of the server")
	c.floor("failed watch", 2, "ways in which watching fails")
}

// watcher: the goroutine that receives file events.
func (x *cfgModel) watcher(t *Thread) {
	c := x.c
	who := fnName(t.Fn)
	c.instance("watching goroutine", who)
	c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		g := &cfgMon{x, m, ev, who, "reload"}
		// the event is over
		if x.waiting(ev) || ev.Kind == "return" {
			if e := m.get("event", nil); e != nil {
				x.eventDone(m, g, e, who)
			}
		}
		if ev.Kind == "return" {
			if !m.has("end", nil) {
				ok := false
				for _, f := range m.all("okay") {
					if v, known := m.truth(f.a); known && !v {
						ok = true
					}
				}
				if !ok {
					m.fail("keeps watching", who, "watching ends although neither the watcher ended or failed nor was it stopped")
				}
			}
			return
		}
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "fsnotify.Watcher).Close") {
			m.set("gone", nil, nil)
		}
		if x.waiting(ev) {
			if m.has("gone", nil) {
				m.fail("keeps watching", who, "file events are awaited from a watcher that was closed")
			}
			if !x.drained && !listensTo(ev, "Errors") {
				m.fail("keeps watching", who, "nobody takes the errors of the watcher, which delivers no more events then")
			}
			for _, k := range []string{"event", "okay", "end", "path", "src", "dec", "addr", "dirty", "try", "sent", "twice", "ldone"} {
				m.clear(k)
			}
		}
		f, ch := watchRecv(ev)
		switch {
		case f == "Events":
			v := ext(m.e.n, ev.Res, 0, chanElem(ch.typ))
			if ev.Kind == "recv" && !ev.OK {
				v = ev.Res
			} else {
				m.set("okay", ext(m.e.n, ev.Res, 1, types.Typ[types.Bool]), nil)
			}
			m.set("event", nil, v)
			return
		case f == "Errors":
			m.set("end", nil, nil)
			return
		case ch != nil:
			if x.stops(ch) {
				m.set("end", nil, nil)
			}
			return
		}
		if ev.Kind == "close" {
			m.fail("keeps watching", evFn(ev), "a channel is closed while file events are handled")
		}
		if cfg := g.load(); cfg != nil {
			c.instance("reload", evFn(ev))
			if m.has("ldone", nil) && !g.failing() {
				m.set("twice", nil, nil)
			}
			m.set("ldone", nil, nil)
		}
		if ch, _ := cfgSends(ev); ch != nil {
			c.instance("publication", evFn(ev))
			if !x.chans[ch] {
				m.fail("publication", evFn(ev), "the configuration is sent to %s, not to the server's channel", ch)
			}
			if m.has("sent", nil) {
				m.set("twice", nil, nil)
			}
			m.set("sent", nil, nil)
		}
	})
}

// listensTo: the wait may receive from that channel of the watcher.
func listensTo(ev *Event, name string) bool {
	for _, cs := range ev.Cases {
		if _, f, ok := fieldOf(cs.Ch); ok && f == name {
			return true
		}
	}
	return false
}

// stops: receiving from this channel means that the watch was stopped (as opposed to a timer).
func (x *cfgModel) stops(ch *Term) bool {
	if _, _, ok := fieldOf(ch); ok {
		return true
	}
	return ch.op == "alloc" || ch.op == "done" || ch.op == "param"
}

// eventDone: everything the event e demands has happened.
func (x *cfgModel) eventDone(m *Mon, g *cfgMon, e *Term, who string) {
	c := x.c
	for _, f := range m.all("okay") {
		if v, known := m.truth(f.a); known && !v {
			return // no event: the channel is closed
		}
	}
	c.instance("file event", who)
	loads := m.has("ldone", nil)
	broken := g.failing()
	if m.has("twice", nil) {
		m.fail("reload", who, "one file event leads to more than one reload or publication")
	}
	if loads || broken {
		c.instance("write", who)
		if !broken && !m.has("sent", nil) && !m.has("end", nil) {
			m.fail("publication", who, "a reloaded configuration is not published")
		}
		return
	}
	for _, f := range m.all("try") {
		_ = f
		m.fail("reload", who, "the reload is given up although the file could be read")
		return
	}
	if x.noWrite(m, e) {
		return
	}
	m.fail("reload", who, "a write to the file may not lead to a reload")
}

// noWrite: the event is known not to be a write, or to be a creation or removal.
func (x *cfgModel) noWrite(m *Mon, e *Term) bool {
	is := func(t *Term) bool {
		switch t.op {
		case "field":
			return t.aux == "Op" && t.args[0] == e
		case "load":
			return t.args[0].op == "faddr" && t.args[0].aux == "Op"
		case "conv":
			return t.args[0].op == "field" && t.args[0].aux == "Op" && t.args[0].args[0] == e
		}
		return false
	}
	judge := func(f *Term, v bool) bool {
		for f.op == "not" {
			f, v = f.args[0], !v
		}
		if f.op != "eq" {
			return false
		}
		for _, p := range [][2]*Term{{f.args[0], f.args[1]}, {f.args[1], f.args[0]}} {
			k, ok := p[0].intVal()
			if !ok {
				continue
			}
			if is(p[1]) && v {
				return k&opWrite == 0 || k&(opCreate|opRemove) != 0
			}
			if p[1].op == "bin" && p[1].aux == "&" {
				for _, q := range [][2]*Term{{p[1].args[0], p[1].args[1]}, {p[1].args[1], p[1].args[0]}} {
					mask, ok := q[1].intVal()
					if !ok || !is(q[0]) {
						continue
					}
					zero := k == 0 && v
					set := k == 0 && !v || k == mask && v && mask != 0
					if zero && mask&opWrite != 0 || set && mask&^(opCreate|opRemove) == 0 {
						return true
					}
					if k == mask && !v && mask == opWrite {
						return true
					}
				}
			}
		}
		return false
	}
	for _, f := range m.all("?t") {
		if judge(f.a, true) {
			return true
		}
	}
	for _, f := range m.all("?f") {
		if judge(f.a, false) {
			return true
		}
	}
	return false
}

// start: what has happened when the server starts.
func (x *cfgModel) start(watch map[*ssa.Function]bool) {
	c := x.c
	who := fnName(x.run)
	c.product(x.ts[0].Exec, nil, func(m *Mon, ev *Event) {
		g := &cfgMon{x, m, ev, who, "configured file"}
		g.load()
		switch ev.Kind {
		case "call":
			switch ev.Name {
			case fsnWatch:
				m.set("w", m.e.result(ev, 0), m.e.result(ev, 1))
			case fsnAdd:
				c.instance("watch", evFn(ev))
				if !g.isPath(ev.Args[1]) {
					m.fail("watched file", evFn(ev), "%s is watched, which is not the configured file", ev.Args[1])
				}
				m.set("added", ev.Args[0], ev.Res)
			case fsnClose:
				m.set("closed", ev.Args[0], nil)
			}
		case "go":
			if watch[ev.Fn] {
				m.set("going", nil, nil)
			}
		}
		if ch, _ := cfgSends(ev); ch != nil && len(m.all("added")) > 0 {
			m.fail("order", evFn(ev), "the configuration read at start-up is published after the watch began: it may replace a newer one")
		}
		if x.isStart(ev) {
			c.instance("server start", evFn(ev))
			switch {
			case len(m.all("w")) == 0 || len(m.all("added")) == 0:
				m.fail("watched file", who, "the server is started without a watch on the configuration file")
			case !m.has("going", nil):
				m.fail("watched file", who, "the server is started although nobody receives the file events")
			}
			for _, f := range append(m.all("w"), m.all("added")...) {
				if n, ok := m.isNil(f.b); !ok || !n {
					m.fail("failed watch", who, "the server is started although watching the file may have failed")
				}
				if m.has("closed", f.a) {
					m.fail("watched file", who, "the watch is closed before the server starts")
				}
			}
			m.set("ran", nil, nil)
		}
		if ev.Kind == "return" && !m.has("ran", nil) {
			for _, f := range m.all("w") {
				if n, ok := m.isNil(f.b); ok && !n {
					c.instance("failed watch", who+" no watcher")
					return
				}
			}
			for _, f := range m.all("added") {
				if n, ok := m.isNil(f.b); ok && !n {
					c.instance("failed watch", who+" not added")
				}
			}
			for _, f := range m.all("w") {
				if !m.has("closed", f.a) {
					m.fail("failed watch", who, "the watcher is left running although the file cannot be watched")
				}
			}
		}
	})
}
