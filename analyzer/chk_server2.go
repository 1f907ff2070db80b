package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	sessStart = "(*" + srvPath + ".Session).Start"
	sessClose = "(*" + srvPath + ".Session).Close"
	sessNew   = srvPath + ".NewSession"
)

func isLogCall(ev *Event) bool {
	return ev.Kind == "call" && strings.Contains(ev.Name, "github.com/sirupsen/logrus.")
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// child finds the goroutine that a go event of thread t starts.
func child(ts []*Thread, t *Thread, ev *Event) *Thread {
	for _, x := range ts {
		if x.From == t && x.Spawn.Ev.Site == ev.Site && x.Fn == ev.Fn && x.Spawn.Ev.spawnID() == ev.spawnID() {
			return x
		}
	}
	return nil
}

// within tells whether t is x or was started by it.
func (t *Thread) within(x *Thread) bool {
	for ; t != nil; t = t.From {
		if t == x {
			return true
		}
	}
	return false
}

// noteNil records, in fact kind k, that term t is known to be nil at some point of the path.
func (m *Mon) noteNil(watch, k string) {
	for _, f := range m.all(watch) {
		if v, known := m.isNil(f.a); known && v {
			m.set(k, f.a, nil)
		}
	}
}

func (k *closable) listenerField() string {
	st := derefType(k.self.typ)
	if st == nil {
		return ""
	}
	s, ok := st.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if typeIs(s.Field(i).Type(), "net", "Listener") {
			return s.Field(i).Name()
		}
	}
	return ""
}

func (k *closable) mapField(elem string) string {
	s, ok := derefType(k.self.typ).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if mt, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
			if p := derefType(mt.Key()); p != nil && typeIs(p, srvPath, elem) {
				return s.Field(i).Name()
			}
		}
	}
	return ""
}

func isFieldAddr(a, self *Term, f string) bool {
	return a != nil && a.op == "faddr" && a.args[0] == self && a.aux == f
}

// ---- V02 ---------------------------------------------------------------------------------------

func checkV02(c *Check) {
	c.expl = "Must-happen automaton over all paths of Server.Close (first call: listener closed, every registered session closed, then the goroutines awaited with no lock held, result = close error of the listener; other calls: no effect), " +
		"and a counting automaton over every goroutine reachable from Start, Serve and ServeConn (added to the wait group before it starts, done exactly once at its end; session registered before its start, forgotten after its end)."
	c.assume = []string{"V01: nothing is registered after the closed event fired", "sync.WaitGroup waits for every goroutine added", "S05: Session.Close makes Start return"}
	k := c.closable("Server")
	if k == nil {
		return
	}
	lf, sf := k.listenerField(), k.mapField("Session")
	if lf == "" || sf == "" {
		c.undecided("server fields", "cannot tell which fields hold the listener and the sessions")
		return
	}
	wgs := map[string]bool{}
	fns, selves := k.roots()
	for i, fn := range fns {
		ts := c.threads(fn, Opts{Prim: k.prim, Access: true})
		for _, t := range ts {
			k.tracked(ts, t, selves[i], sf, wgs)
		}
	}
	k.teardown(lf, sf, wgs)
	c.harmless(k.close)
	c.floor("tracked goroutine", 1, "goroutines of the server")
	c.floor("session tracked", 1, "sessions started")
	c.floor("first close", 1, "returns of the first Close")
}

// tracked: the goroutines started by t are counted, t itself (if counted) is done once, sessions are registered while they run.
func (k *closable) tracked(ts []*Thread, t *Thread, self *Term, sf string, wgs map[string]bool) {
	c := k.c
	who := fnName(t.Fn)
	c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		n := m.e.n
		one := n.int(1)
		if m.has("done", nil) && ev.Kind != "exit" && ev.Kind != "return" && ev.Kind != "enter" && ev.Kind != "branch" && !isLogCall(ev) && ev.Kind != "alloc" && ev.Kind != "load" &&
			!(ev.Kind == "store" && ev.Addr.op == "alloc") && !(ev.Kind == "store" && ev.Addr.op == "iaddr") {
			if u, _ := isUnlock(ev); !u {
				m.fail("tracked goroutine", who, "the goroutine goes on after it was reported as finished: %s", m.e.describe(ev))
			}
		}
		switch ev.Kind {
		case "call":
			switch ev.Name {
			case "(*sync.WaitGroup).Add":
				if ev.Args[0].op == "faddr" && ev.Args[0].args[0] == self {
					if ev.Args[1] != one || m.has("added", nil) {
						m.fail("tracked goroutine", evFn(ev), "the wait group is increased without a goroutine started for it")
						return
					}
					m.set("added", nil, ev.Args[0])
				}
			case "(*sync.WaitGroup).Done":
				if ev.Args[0].op != "faddr" || ev.Args[0].args[0] != self {
					return
				}
				if m.has("added", nil) {
					m.del("added", nil)
					return
				}
				if t.Kind != "go" {
					m.fail("tracked goroutine", evFn(ev), "Done is called by %s, which was not added", who)
					return
				}
				if m.has("done", nil) {
					m.fail("tracked goroutine", who, "Done is called twice")
				}
				m.set("done", nil, ev.Args[0])
			case sessStart:
				c.instance("session tracked", evFn(ev))
				if !m.has("reg", ev.Args[0]) {
					m.fail("session tracked", evFn(ev), "the session is started without being registered in %s", sf)
				}
				m.set("ended", ev.Args[0], nil)
			}
		case "mapset", "mapdel":
			if b, f, ok := fieldOf(ev.Args[0]); !(ok && b == self && f == sf) && !m.has("fm", ev.Args[0]) {
				if ev.Kind == "mapset" && leafOf(ev.Args[0]).op == "alloc" {
					m.set("fresh", ev.Args[1], ev.Args[0])
				}
				return
			}
			if ev.Kind == "mapset" {
				m.set("reg", ev.Args[1], nil)
				return
			}
			if m.has("reg", ev.Args[1]) && !m.has("ended", ev.Args[1]) {
				m.fail("session tracked", evFn(ev), "the session is forgotten before it has ended")
			}
			m.del("reg", ev.Args[1])
		case "load":
			if isFieldAddr(ev.Addr, self, sf) {
				m.set("sm", ev.Res, nil)
			}
		case "range":
			if len(ev.Args) > 0 && m.has("sm", ev.Args[0]) {
				m.set("walked", nil, nil)
			}
		case "store":
			if isFieldAddr(ev.Addr, self, sf) {
				empty := m.has("walked", nil) || m.has("smnil", nil) || m.has("sm", ev.Val)
				for _, f := range m.all("sm") {
					if v, known := m.isNil(f.a); known && v {
						empty = true
					}
				}
				if !empty && t.Fn != k.close {
					m.fail("session tracked", evFn(ev), "the list of sessions is replaced while it may hold sessions, which Close then never sees")
				}
				m.set("fm", ev.Val, nil)
				for _, f := range m.all("fresh") {
					if f.b == ev.Val {
						m.set("reg", f.a, nil)
					}
				}
			}
		case "go":
			if ev.What == "timer" {
				return
			}
			c.instance("tracked goroutine", evFn(ev))
			switch {
			case ev.What == "wg":
				if ev.Addr.op == "faddr" && ev.Addr.args[0] == self {
					wgs[ev.Addr.aux] = true
					return
				}
			case ev.What == "go":
				if w := m.get("added", nil); w != nil {
					wgs[w.aux] = true
					m.del("added", nil)
					return
				}
			}
			m.fail("tracked goroutine", evFn(ev), "%s starts a goroutine (%s) that Close does not wait for", who, shortName(ev.Name))
		case "return":
			for _, f := range m.all("reg") {
				if m.has("ended", f.a) {
					m.fail("session tracked", who, "the session stays registered after it has ended")
				}
			}
			if m.has("added", nil) {
				m.fail("tracked goroutine", who, "the wait group is increased without a goroutine started for it")
			}
			if t.Kind == "go" && !m.has("done", nil) {
				m.fail("tracked goroutine", who, "the goroutine ends without being reported as finished")
			}
		}
	})
}

// teardown: the behaviour of Close itself.
func (k *closable) teardown(lf, sf string, wgs map[string]bool) {
	c := k.c
	who := fnName(k.close)
	c.product(k.exec, nil, func(m *Mon, ev *Event) {
		v := &visit{m: m, miss: func() { m.fail("first close", who, "a registered session is not closed") }}
		v.step(ev)
		all := func() bool { return m.has("needed", nil) && !v.pending() }
		first, decided := false, false
		for _, x := range m.all("fire") {
			first, decided = m.truth(x.a)
		}
		if l, _ := isLock(ev); l {
			m.set("lk", ev.Args[0], nil)
		}
		if u, _ := isUnlock(ev); u {
			m.del("lk", ev.Args[0])
		}
		m.noteNil("ln", "lnnil")
		if decided && !first && ev.Kind != "return" {
			switch {
			case ev.Kind == "call" && !isLogCall(ev) && !strings.HasSuffix(ev.Name, ".Lock") && !strings.HasSuffix(ev.Name, ".Unlock"), ev.Kind == "go", ev.Kind == "send", ev.Kind == "close", ev.Kind == "panic":
				m.fail("later close", who, "a later Close has an effect: %s", m.e.describe(ev))
			case ev.Kind == "store" && ev.Addr.op == "faddr":
				m.fail("later close", who, "a later Close changes %v", ev.Addr)
			}
			return
		}
		closed := func() bool {
			for _, f := range m.all("ln") {
				if m.has("lnclosed", f.a) || m.has("lnnil", f.a) {
					return true
				}
			}
			return false
		}
		switch ev.Kind {
		case "panic":
			m.fail("first close", who, "Close panics")
		case "load":
			if isFieldAddr(ev.Addr, k.self, lf) && len(m.all("ln")) == 0 {
				m.set("ln", ev.Res, nil)
			}
			if isFieldAddr(ev.Addr, k.self, sf) && len(m.all("lk")) > 0 && !m.has("needed", nil) {
				m.set("needed", nil, nil)
				v.need(ev.Res)
			}
		case "mapdel":
			// removing the entry just visited keeps the others
		case "store":
			if isFieldAddr(ev.Addr, k.self, sf) && !m.has("needed", nil) {
				m.fail("first close", who, "the list of sessions is replaced before all of them are closed")
			}
		case "call":
			switch {
			case ev.Name == evFire && k.isEvent(ev.Args[0], k.self):
				m.set("fire", ev.Res, nil)
			case ev.Method != nil && ev.Method.Name() == "Close" && m.has("ln", unface(ev.Args[0])):
				m.set("lnclosed", ev.Args[0], ev.Res)
			case ev.Name == sessClose:
				if it, what := v.part(ev.Args[0]); what == "key" {
					v.done(it)
				}
			case ev.Name == "(*sync.WaitGroup).Wait" && ev.Args[0].op == "faddr" && ev.Args[0].args[0] == k.self:
				if len(m.all("lk")) > 0 {
					m.fail("first close", who, "Close waits for goroutines while it holds a lock they need")
				}
				if !closed() {
					m.fail("first close", who, "Close waits for goroutines before it has closed the listener")
				}
				if !all() {
					m.fail("first close", who, "Close waits for goroutines before it has closed every session")
				}
				m.set("waited", m.e.n.mk(Term{op: "const", aux: ev.Args[0].aux}), nil)
			}
		case "return":
			if decided && !first {
				c.instance("later close", who)
				if r := ev.Args[0]; r.op != "nil" {
					m.fail("later close", who, "a later Close returns %v instead of nil", r)
				}
				return
			}
			c.instance("first close", who)
			switch {
			case !decided:
				m.fail("first close", who, "Close does not tell the first call from later ones")
			case !closed():
				m.fail("first close", who, "the first Close returns without closing the listener")
			case !all():
				m.fail("first close", who, "the first Close returns without closing every session")
			}
			for w := range wgs {
				if !m.has("waited", m.e.n.mk(Term{op: "const", aux: w})) {
					m.fail("first close", who, "the first Close returns without waiting for the goroutines tracked by %s", w)
				}
			}
			res := ev.Args[0]
			want := false
			for _, f := range m.all("lnclosed") {
				want = true
				if res == f.b {
					return
				}
				if v, known := m.isNil(f.b); known && v && res.op == "nil" {
					return
				}
			}
			if want || res.op != "nil" {
				m.fail("first close", who, "the first Close returns %v instead of the result of closing the listener", res)
			}
		}
	})
}

// ---- V03 ---------------------------------------------------------------------------------------

func isAccept(ev *Event) bool {
	if ev.Kind != "call" {
		return false
	}
	if ev.Method != nil {
		return ev.Method.Name() == "Accept"
	}
	return strings.HasPrefix(ev.Name, "(*net.") && strings.Contains(ev.Name, ").Accept")
}

// serves: the connections for which t or a goroutine it starts creates a session.
func serves(ts []*Thread, t *Thread) map[*Term]bool {
	r := map[*Term]bool{}
	for _, x := range ts {
		if !x.within(t) {
			continue
		}
		x.Exec.eachEvent(func(ev *Event) {
			if ev.Kind == "call" && ev.Name == sessNew {
				r[unface(ev.Args[0])] = true
			}
		})
	}
	return r
}

// accepts: the listeners on which t accepts connections.
func accepts(t *Thread) map[*Term]bool {
	r := map[*Term]bool{}
	t.Exec.eachEvent(func(ev *Event) {
		if isAccept(ev) {
			r[unface(ev.Args[0])] = true
		}
	})
	return r
}

// mayEnd: functions that end the process or the goroutine abruptly.
func mayEnd(name string) bool {
	switch name {
	case "os.Exit", "runtime.Goexit", "syscall.Exit", "syscall.Kill":
		return true
	}
	i := strings.LastIndex(name, ".")
	return strings.Contains(name, "logrus") && i >= 0 && (strings.HasPrefix(name[i+1:], "Fatal") || strings.HasPrefix(name[i+1:], "Panic") || name[i+1:] == "Exit") ||
		strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic") || strings.HasPrefix(name, "(*log.Logger).Fatal") || strings.HasPrefix(name, "(*log.Logger).Panic")
}

func checkV03(c *Check) {
	c.expl = "Automaton over every accept loop reachable from the exported methods of Server (helpers inlined): each connection goes to a goroutine of its own which serves that connection only (or is closed because the server is shutting down), nothing else is done with it, " +
		"a temporary error leads to the next accept, and the loop ends only after a permanent error or shutdown. No goroutine that serves a connection can close the listener, shut the server down or end the process."
	c.assume = []string{"logging does not block", "W05: messages cannot make the process panic", "net.Listener.Accept returns a connection when its error is nil"}
	k := c.closable("Server")
	if k == nil {
		return
	}
	fns, selves := k.roots()
	for i, fn := range fns {
		self := selves[i]
		ts := c.threads(fn, Opts{Prim: k.prim, Access: true})
		for _, t := range ts {
			if len(accepts(t)) > 0 {
				k.acceptLoop(ts, t, self)
			}
			if len(serves([]*Thread{t}, t)) > 0 && len(accepts(t)) == 0 {
				k.isolated(t, self)
			}
		}
	}
	c.abruptEnds()
	for _, a := range [][2]string{{"Server", "ServeConn"}} {
		c.harmless(c.mustFn("pkg/server", a[0], a[1]))
	}
	c.floor("accept", 2, "accept loops")
	c.floor("isolated", 1, "serving goroutines")
	c.floor("no abrupt end", 5, "functions run for sessions")
}

func (k *closable) acceptLoop(ts []*Thread, t *Thread, self *Term) {
	c := k.c
	who := fnName(t.Fn)
	// resolved checks that the outcome of the last Accept was dealt with
	resolved := func(m *Mon, at *Event, end bool) {
		for _, f := range m.all("conn") {
			conn, err := f.a, f.b
			bad, known := m.isNil(err)
			failed := known && !bad
			ok := known && bad
			down := false
			for _, x := range m.all("hf") {
				if v, known := m.truth(x.a); known && v {
					down = true
				}
			}
			temp, perm := false, false
			for _, x := range m.all("tmp") {
				if v, known := m.truth(x.a); known {
					temp, perm = temp || v, perm || !v
				}
			}
			for _, x := range m.all("as") {
				if v, known := m.truth(x.a); known && !v {
					perm = true
				}
			}
			for _, x := range m.all("perm") {
				if v, known := m.truth(x.a); known && v {
					perm = true
				}
			}
			switch {
			case ok && !m.has("handed", conn):
				m.fail("accept", who, "an accepted connection is neither served in a goroutine of its own nor closed because of the shutdown")
			case end && ok && !down:
				m.fail("accept", who, "the accept loop ends after a connection was accepted successfully")
			case end && !ok && !(failed && perm) && !down:
				m.fail("accept", who, "the accept loop ends although the accept error may be temporary")
			case !end && !ok && !(failed && temp):
				m.fail("accept", who, "the accept loop goes on after an error that is not known to be temporary")
			}
		}
	}
	reset := func(m *Mon) {
		for _, kk := range []string{"conn", "handed", "tmp", "as", "perm", "ne"} {
			m.clear(kk)
		}
	}
	c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		n := m.e.n
		if isAccept(ev) {
			c.instance("accept", who+" "+evFn(ev))
			resolved(m, ev, false)
			reset(m)
			m.set("conn", m.e.result(ev, 0), m.e.result(ev, 1))
			return
		}
		cur := m.all("conn")
		if ev.Kind == "store" {
			for _, f := range m.all("cell") {
				if ev.Addr == f.a {
					m.fail("accept", who, "the variable holding the connection is assigned again while the goroutine that serves it uses the variable")
				}
			}
		}
		if ev.Kind == "call" && ev.Name == evHas && k.isEvent(ev.Args[0], self) {
			m.set("hf", ev.Res, nil)
		}
		if len(cur) == 0 {
			return
		}
		conn, err := cur[0].a, cur[0].b
		switch ev.Kind {
		case "return":
			resolved(m, ev, true)
		case "panic":
			m.fail("accept", who, "the accept loop panics")
		case "go":
			ch := child(ts, t, ev)
			if ch == nil {
				return
			}
			sv := serves(ts, ch)
			if !sv[conn] {
				return
			}
			if len(sv) != 1 {
				m.fail("accept", who, "one goroutine serves several connections")
			}
			if m.has("handed", conn) {
				m.fail("accept", who, "the connection is served twice")
			}
			m.set("handed", conn, nil)
			// the variables through which the goroutine finds the connection
			seen := map[*Term]bool{}
			var cells func(t *Term)
			cells = func(t *Term) {
				if t == nil || seen[t] {
					return
				}
				seen[t] = true
				if t.op == "alloc" {
					v := ev.St.mem[t]
					if v == conn || v != nil && unface(v) == conn {
						m.set("cell", t, nil)
					}
					cells(v)
				}
				if t.op == "closure" {
					for _, b := range t.args {
						cells(b)
					}
				}
			}
			for _, b := range append(append([]*Term(nil), ev.Bind...), ev.Args...) {
				cells(b)
			}
		case "select":
			if ev.Block {
				m.fail("accept", who, "the accept loop waits in a select between two accepts")
			}
		case "send", "recv":
			m.fail("accept", who, "the accept loop waits on a channel between two accepts")
		case "call":
			switch {
			case ev.Name == sessNew || ev.Name == sessStart || ev.Name == sessClose:
				m.fail("accept", who, "the accept loop itself runs %s", shortName(ev.Name))
			case ev.Name == "errors.As" && ev.Args[0] == err:
				m.set("as", ev.Res, nil)
				m.set("ne", unface(ev.Args[1]), nil)
			case ev.Method != nil && ev.Method.Name() == "Temporary":
				if ev.Args[0].hasLeaf(leafOf(err)) || m.fromCells(ev.Args[0]) {
					m.set("tmp", ev.Res, nil)
				}
			case ev.Name == "errors.Is" && ev.Args[0] == err && isGlobalErr(ev.Args[1], "ErrClosed"):
				m.set("perm", ev.Res, nil)
			case ev.Name == "strings.Contains":
				if s, ok := ev.Args[1].strVal(); ok && s == "use of closed network connection" {
					m.set("perm", ev.Res, nil)
				}
			case ev.Method != nil && ev.Method.Name() == "Close" && unface(ev.Args[0]) == conn:
				down := false
				for _, x := range m.all("hf") {
					if v, known := m.truth(x.a); known && v {
						down = true
					}
				}
				if !down {
					m.fail("accept", who, "an accepted connection is closed although the server is not shutting down")
				}
				m.set("handed", conn, nil)
			case len(ev.Args) > 0 && unface(ev.Args[0]) == conn && !isLogCall(ev):
				if ev.Method != nil && (ev.Method.Name() == "RemoteAddr" || ev.Method.Name() == "LocalAddr") {
					return
				}
				m.fail("accept", who, "the accept loop itself uses the connection: %s", shortName(ev.Name))
			case blockingCall(ev) != "":
				if nilErr, known := m.isNil(err); known && nilErr || ev.Name != "time.Sleep" {
					m.fail("accept", who, "the accept loop waits in %s between two accepts", shortName(ev.Name))
				}
			case connOp(ev) != "":
				m.fail("accept", who, "the accept loop itself exchanges messages: %s", shortName(ev.Name))
			case strings.HasPrefix(ev.Name, "dynamic"):
				m.fail("accept", who, "an unknown function is called between two accepts")
			case ev.Method != nil && ev.Method.Name() == "Close" && accepts(t)[unface(ev.Args[0])]:
				if nilErr, known := m.isNil(err); !known || nilErr {
					m.fail("accept", who, "the accept loop closes its own listener")
				}
			}
		case "branch":
			// type assertion to an interface with Temporary
			cond, tr := ev.Cond, ev.Truth
			for cond.op == "not" {
				cond, tr = cond.args[0], !tr
			}
			if cond.op == "typeis" && cond.args[0] == err && !tr {
				if _, isI := cond.typ.Underlying().(*types.Interface); isI {
					m.set("perm", n.boolean(true), nil)
				}
			}
		}
	})
}

func leafOf(t *Term) *Term {
	for t.op == "ext" || t.op == "iface" || t.op == "assert" || t.op == "load" || t.op == "faddr" {
		t = t.args[0]
	}
	return t
}

// fromCells: t was produced by filling in one of the variables noted by errors.As.
func (m *Mon) fromCells(t *Term) bool {
	if t.op == "out" {
		for _, a := range t.args {
			if m.has("ne", a) {
				return true
			}
		}
	}
	return t.op == "load" && m.has("ne", t.args[0])
}

// isolated: a goroutine serving a connection affects neither the listener nor the server.
func (k *closable) isolated(t *Thread, self *Term) {
	c := k.c
	who := fnName(t.Fn)
	lf := k.listenerField()
	c.instance("isolated", who)
	c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		for _, f := range m.all("hf") {
			if v, known := m.truth(f.a); known && v {
				m.set("down", nil, nil)
			}
		}
		if ev.Kind == "call" && ev.Name == evHas && k.isEvent(ev.Args[0], self) {
			m.set("hf", ev.Res, nil)
		}
		if ev.Kind == "call" && ev.Name == sessStart {
			m.set("served", nil, nil)
		}
		if ev.Kind == "return" && !m.has("served", nil) && !m.has("down", nil) {
			m.fail("served", who, "a connection is turned away although the server is not closed")
		}
		switch ev.Kind {
		case "load":
			if isFieldAddr(ev.Addr, self, lf) {
				m.set("ln", ev.Res, nil)
			}
		case "store":
			if isFieldAddr(ev.Addr, self, lf) || isFieldAddr(ev.Addr, self, k.event) {
				m.fail("isolated", who, "serving one connection changes %v", ev.Addr)
			}
		case "panic":
			m.fail("isolated", who, "serving one connection can panic")
		case "call":
			switch {
			case ev.Method != nil && ev.Method.Name() == "Close" && m.has("ln", unface(ev.Args[0])):
				m.fail("isolated", who, "serving one connection closes the listener")
			case ev.Name == evFire && k.isEvent(ev.Args[0], self):
				m.fail("isolated", who, "serving one connection shuts the server down")
			}
		case "next":
			m.set("other", m.e.n.mk(Term{op: "ext", aux: "1", typ: types.Typ[types.Invalid], args: []*Term{ev.Res}}), nil)
		}
		if ev.Kind == "call" && ev.Name == sessClose && ev.Args[0].op == "ext" {
			m.fail("isolated", who, "serving one connection closes other sessions")
		}
	})
}

// abruptEnds: nothing that runs for a session ends the process.
func (c *Check) abruptEnds() {
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Blocks == nil || !c.p.inRepo(fn) {
			return
		}
		seen[fn] = true
		c.instance("no abrupt end", fnName(fn))
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						if f, ok := (*op).(*ssa.Function); ok {
							visit(f)
						}
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if f := ci.Common().StaticCallee(); f != nil && mayEnd(f.String()) {
					c.violate("no abrupt end", fnName(fn), in.Pos(), "a session can end the process through "+shortName(f.String()), nil)
				}
				if m := ci.Common().Method; m != nil {
					for _, f := range c.p.implementations(m) {
						visit(f)
					}
				}
			}
		}
	}
	for _, a := range [][2]string{{"Server", "ServeConn"}, {"Session", "Start"}} {
		visit(c.mustFn("pkg/server", a[0], a[1]))
	}
}

// ---- V04 ---------------------------------------------------------------------------------------

func checkV04(c *Check) {
	c.expl = "Automaton over Server.Start (helpers inlined): every configuration received is followed, in the same goroutine and before the next one is received, by opening its listen address and, only if that succeeded and the server is open, by replacing the listener field, " +
		"closing the previous listener and starting to serve the new one; after a failure nothing is changed, the failure is logged and the loop goes on. The filter given to Subscribe only drops changes that keep the address."
	c.assume = []string{"K01: the channel delivers the configurations in order, filtered by the predicate", "a listener that was closed accepts nothing"}
	k := c.closable("Server")
	fn := c.mustFn("pkg/server", "Server", "Start")
	if k == nil || fn == nil {
		return
	}
	self := c.n.param(fn, 0, fn.Params[0])
	lf := k.listenerField()
	if lf == "" {
		c.undecided("server fields", "cannot tell which field holds the listener")
		return
	}
	ts := c.threads(fn, Opts{Prim: k.prim, Access: true})
	root := ts[0]
	who := fnName(fn)
	for _, t := range ts[1:] {
		t := t
		c.product(t.Exec, nil, func(m *Mon, ev *Event) {
			if ev.Kind == "call" && ev.Name == "net.Listen" || ev.Kind == "store" && isFieldAddr(ev.Addr, self, lf) {
				m.fail("in order", fnName(t.Fn), "the listener is changed in a goroutine of its own, so that a later change can be overtaken by an earlier one")
			}
		})
	}

	settled := func(m *Mon) {
		for _, f := range m.all("tocl") {
			if !m.has("oldnil", f.a) && !m.has("oldclosed", f.a) {
				m.fail("replace", who, "the previous listener stays open after it was replaced")
			}
		}
		if len(m.all("cfg")) == 0 {
			return
		}
		down := false
		for _, x := range m.all("hf") {
			if v, known := m.truth(x.a); known && v {
				down = true
			}
		}
		ls := m.all("ln")
		if len(ls) == 0 {
			m.fail("listen", who, "a configuration received is ignored: its address is never opened")
			return
		}
		l := ls[0]
		nilErr, known := m.isNil(l.b)
		switch {
		case !known:
			m.fail("listen", who, "the error of net.Listen is ignored")
		case !nilErr:
			if !m.has("logged", nil) {
				m.fail("failure logged", who, "a failure to open the new address is not logged")
			}
		case m.has("installed", l.a):
			if !m.has("served", l.a) && !down {
				m.fail("replace", who, "the new listener is not served")
			}
		case !m.has("oldclosed", l.a):
			m.fail("replace", who, "the new listener is neither put in service nor closed")
		case !down:
			m.fail("replace", who, "the new listener is closed although the server is not closed")
		}
	}
	c.product(root.Exec, nil, func(m *Mon, ev *Event) {
		m.noteNil("tocl", "oldnil")
		m.noteNil("old", "oldnil")
		k.firstCall(m, ev, self)
		if l, _ := isLock(ev); l {
			m.set("lk", ev.Args[0], nil)
		}
		if u, _ := isUnlock(ev); u {
			m.del("lk", ev.Args[0])
			if len(m.all("lk")) == 0 {
				m.clear("old")
			}
		}
		received := func(ch, val *Term) {
			if !m.has("sub", ch) {
				return
			}
			if m.has("unsub", ch) {
				m.fail("subscribe", who, "waits for configurations on a channel whose subscription was cancelled")
				return
			}
			if n, known := m.isNil(m.get("sub", ch)); !known || !n {
				m.fail("subscribe", who, "waits for configurations although subscribing may have failed")
				return
			}
			c.instance("listen", who)
			for _, kk := range []string{"cfg", "ln", "logged", "installed", "served", "oldclosed", "oldnil", "tocl", "hf", "end"} {
				m.clear(kk)
			}
			m.set("cfg", val, nil)
		}
		switch ev.Kind {
		case "select":
			settled(m)
			if ev.Chosen >= 0 && !ev.Cases[ev.Chosen].Send {
				cs := ev.Cases[ev.Chosen]
				if k.isEnd(cs.Ch, self) {
					m.clear("cfg")
					m.set("end", nil, nil)
				}
				received(cs.Ch, ext(m.e.n, ev.Res, 0, chanElem(cs.Ch.typ)))
			}
		case "recv":
			settled(m)
			v := ev.Res
			if _, isT := v.typ.(*types.Tuple); isT {
				v = m.e.result(ev, 0)
			}
			received(ev.Args[0], v)
		case "load":
			if isFieldAddr(ev.Addr, self, lf) && len(m.all("lk")) > 0 {
				m.set("old", ev.Res, nil)
			}
		case "store":
			if !isFieldAddr(ev.Addr, self, lf) {
				return
			}
			ls := m.all("ln")
			if len(ls) == 0 || ls[0].a != ev.Val {
				m.fail("replace", who, "the listener field is set to %v, which is not the listener opened for the configuration received", ev.Val)
				return
			}
			if nilErr, known := m.isNil(ls[0].b); !known || !nilErr {
				m.fail("replace", who, "the listener is replaced although opening the new address may have failed")
			}
			if len(m.all("old")) == 0 {
				m.fail("replace", who, "the listener is replaced without looking at the previous one in the same critical section")
			}
			for _, f := range m.all("old") {
				if f.a != ev.Val {
					m.set("tocl", f.a, nil)
				}
			}
			m.set("installed", ev.Val, nil)
		case "go":
			if ch := child(ts, root, ev); ch != nil {
				ac := accepts(ch)
				for _, f := range m.all("ln") {
					if ac[f.a] {
						if !m.has("installed", f.a) {
							m.fail("replace", who, "a listener is served that was not put in service")
						}
						m.set("served", f.a, nil)
					}
				}
			}
		case "call":
			switch {
			case ev.Name == "("+srvPath+".ConfigStore).Subscribe":
				c.instance("subscribe", who)
				if !m.has("firstcall", nil) {
					m.fail("once", who, "the server follows the configuration without having made sure that this is the first call of Start")
				}
				m.set("sub", ev.Args[1], ev.Res)
				k.filter(m, ev)
			case ev.Name == "("+srvPath+".ConfigStore).Unsubscribe":
				m.set("unsub", ev.Args[1], nil)
			case ev.Name == evHas && k.isEvent(ev.Args[0], self):
				m.set("hf", ev.Res, nil)
			case ev.Name == "net.Listen" || ev.Name == "(*net.ListenConfig).Listen":
				a := ev.Args
				if len(a) > 2 {
					a = a[len(a)-2:]
				}
				nw, ok := a[0].strVal()
				b, f, okf := fieldOf(a[1])
				if !ok || nw != "tcp" || !okf || f != "Listen" || !m.has("cfg", b) {
					m.fail("listen", who, "listens on (%v, %v) instead of the address of the configuration received", a[0], a[1])
				}
				if len(m.all("ln")) > 0 {
					m.fail("listen", who, "a second listener is opened for the same configuration")
				}
				m.clear("ln")
				m.set("ln", m.e.result(ev, 0), m.e.result(ev, 1))
			case isAccept(ev):
				m.fail("in order", who, "the loop that applies configuration changes is kept busy by accepting connections")
			case ev.Method != nil && ev.Method.Name() == "Close":
				x := unface(ev.Args[0])
				isOld := m.has("old", x) || m.has("tocl", x)
				for _, f := range m.all("ln") {
					if x == f.a && m.has("installed", x) {
						m.fail("replace", who, "the new listener is closed right after it was put in service")
					}
				}
				if isOld {
					open := false
					for _, f := range m.all("ln") {
						if nilErr, known := m.isNil(f.b); known && nilErr {
							open = true
						}
					}
					if !open {
						m.fail("replace", who, "the listener in service is closed before the new address was opened successfully")
					}
					refused := false
					for _, f := range m.all("hf") {
						if v, known := m.truth(f.a); known && !v {
							refused = true
						}
					}
					if !refused && !m.has("tocl", x) {
						m.fail("replace", who, "the listener in service is closed without knowing that it will be replaced")
					}
					m.set("closing", x, nil)
				}
				m.set("oldclosed", x, nil)
			case isLogCall(ev):
				nm := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
				if strings.HasPrefix(nm, "Error") || strings.HasPrefix(nm, "Warn") {
					for _, f := range m.all("ln") {
						if nilErr, known := m.isNil(f.b); known && !nilErr {
							m.set("logged", nil, nil)
						}
					}
				}
			}
		case "return":
			settled(m)
			if n, known := m.isNil(ev.Args[len(ev.Args)-1]); known && n {
				m.fail("once", who, "Start returns without an error although the server runs no longer, or runs already")
			}
			for _, f := range m.all("sub") {
				r := ev.Args[len(ev.Args)-1]
				if n, known := m.isNil(f.b); known && !n && r != f.b {
					if n, known := m.isNil(r); !known || n {
						m.fail("subscribe", who, "a failure to subscribe is not reported")
					}
				}
			}
			if m.has("end", nil) {
				return
			}
			for _, f := range m.all("hf") {
				if v, known := m.truth(f.a); known && v {
					return
				}
			}
			if len(m.all("cfg")) > 0 {
				m.fail("failure survived", who, "the server stops following the configuration because of one change")
				return
			}
		}
	})
	c.runs()
	c.floor("listen", 1, "configurations received")
	c.floor("subscribe", 1, "subscriptions")
}

// firstCall notes in m ("firstcall") that self has been told from every other call of the same function: an event of its own (not the closed one) was fired by this call,
// a sync.Once ran this one, an atomic flag was changed by this one, or a flag was found unset and set under a lock.
func (k *closable) firstCall(m *Mon, ev *Event, self *Term) {
	yes := m.e.n.boolean(true)
	for _, f := range m.all("won") {
		if v, known := m.truth(f.a); known && v == (f.b == yes) {
			m.set("firstcall", nil, nil)
		}
	}
	for _, f := range m.all("flag") {
		if v, known := m.truth(f.a); known && !v {
			m.set("unset", f.b, nil)
		}
	}
	of := func(a *Term) bool {
		b, f, ok := fieldOf(a)
		if a.op == "faddr" {
			b, f, ok = a.args[0], a.aux, true
		}
		return ok && b == self && f != k.event
	}
	l, _ := isLock(ev)
	if u, _ := isUnlock(ev); l || u {
		m.clear("unset")
		m.clear("flag")
	}
	switch ev.Kind {
	case "once":
		if ev.Truth && of(ev.Args[0]) {
			m.set("firstcall", nil, nil)
		}
	case "load":
		if ev.Res == nil || ev.Res.typ == nil {
			return
		}
		if b, ok := ev.Res.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool && of(ev.Addr) {
			m.set("flag", ev.Res, ev.Addr)
		}
	case "store":
		if v, known := m.truth(ev.Val); !known || !v {
			return
		}
		if m.has("unset", ev.Addr) {
			m.set("firstcall", nil, nil)
		}
		for _, f := range m.all("flag") {
			if f.b == ev.Addr {
				m.set("won", f.a, m.e.n.boolean(false))
			}
		}
	case "call":
		if len(ev.Args) == 0 || !of(ev.Args[0]) {
			return
		}
		i := strings.LastIndexAny(ev.Name, ".")
		switch nm := ev.Name[i+1:]; {
		case ev.Name == evFire:
			m.set("won", ev.Res, yes)
		case strings.Contains(ev.Name, "sync/atomic") && strings.HasPrefix(nm, "CompareAndSwap"):
			m.set("won", ev.Res, yes)
		case strings.Contains(ev.Name, "sync/atomic") && strings.HasPrefix(nm, "Swap"):
			m.set("won", ev.Res, m.e.n.boolean(false))
		}
	}
}

// runs: the function that runs a server on a channel of configurations hands the channel to the distributor, the distributor to the server, starts the server while
// neither is closed, returns its result, and leaves neither of them open.
func (c *Check) runs() {
	fn := c.mustFn("pkg/server", "", "Run")
	if fn == nil {
		return
	}
	who := fnName(fn)
	newDist, newSrv := srvPath+".NewConfigDistributor", srvPath+".NewServer"
	start, closeSrv, closeDist := "(*"+srvPath+".Server).Start", "(*"+srvPath+".Server).Close", "(*"+srvPath+".ConfigDistributor).Close"
	prim := func(f *ssa.Function) bool {
		switch f.String() {
		case newDist, newSrv, start, closeSrv, closeDist:
			return true
		}
		return false
	}
	in := c.n.param(fn, 0, fn.Params[0])
	c.product(c.explore(fn, Opts{Prim: prim}), nil, func(m *Mon, ev *Event) {
		switch ev.Kind {
		case "call":
			switch ev.Name {
			case newDist:
				if ev.Args[0] != in {
					m.fail("run", who, "the distributor is not given the channel of configurations")
				}
				m.set("dist", ev.Res, nil)
			case newSrv:
				if !m.has("dist", unface(ev.Args[0])) {
					m.fail("run", who, "the server is not given the distributor of the configurations")
				}
				m.set("srv", ev.Res, nil)
			case start:
				c.instance("run", who)
				if !m.has("srv", ev.Args[0]) || len(m.all("closed")) > 0 {
					m.fail("run", who, "the server is started after it or its configurations were closed")
				}
				m.set("started", ev.Res, nil)
			case closeSrv, closeDist:
				m.set("closed", ev.Args[0], nil)
			}
		case "return":
			if !m.has("started", ev.Args[0]) {
				m.fail("run", who, "does not return the result of starting the server")
			}
			for _, kk := range []string{"dist", "srv"} {
				for _, f := range m.all(kk) {
					if !m.has("closed", f.a) {
						m.fail("run", who, "returns without closing what it made")
					}
				}
			}
		}
	})
	c.floor("run", 1, "servers run")
}

// filter: the predicates given to Subscribe accept the first configuration and every change of the listen address.
func (k *closable) filter(m *Mon, ev *Event) {
	c := k.c
	checks := m.e.sliceElems(ev.St, ev.Args[2])
	if checks == nil {
		c.undecided("filter", "the predicates given to Subscribe are unknown")
	}
	if len(checks) == 0 {
		return // without predicates everything is delivered
	}
	for _, t := range checks {
		t := unface(t)
		if t.op != "func" && t.op != "closure" {
			c.undecided("filter", "the predicate %v given to Subscribe is unknown", t)
			return
		}
		fn := t.fn
		if len(fn.Params) != 2 {
			c.undecided("filter", "the predicate %v given to Subscribe has an unexpected shape", t)
			return
		}
		c.instance("filter", fnName(fn))
		e := newExec(c.p, c.n, Opts{Prim: k.prim, Access: true})
		old, cur := c.n.param(fn, 0, fn.Params[0]), c.n.param(fn, 1, fn.Params[1])
		e.RunWith(fn, t.args, []*Term{old, cur}, ev.St)
		// one of several predicates is enough
		bad := false
		c.product(e, nil, func(m *Mon, ev *Event) {
			if ev.Kind == "load" && ev.Addr.op == "faddr" && ev.Addr.args[0] == old {
				if n, known := m.isNil(old); !known || n {
					m.fail("filter", fnName(fn), "the first configuration is compared with a previous one that does not exist")
				}
				return
			}
			if ev.Kind != "return" {
				return
			}
			load := func(x *Term) *Term { return startupField(m.e, x, "Listen") }
			same := m.e.n.eq(load(old), load(cur))
			v := ev.Args[0]
			if b, ok := v.boolVal(); ok && b || v == m.e.n.not(same) {
				return
			}
			if b, known := m.truth(v); known && b {
				return
			}
			if n, known := m.isNil(old); known && !n {
				if s, known := m.truth(same); known && s {
					return
				}
			}
			bad = true
			if len(checks) == 1 {
				m.fail("filter", fnName(fn), "a configuration with a new listen address, or the first one, may be dropped")
			}
		})
		if !bad {
			return
		}
	}
	if len(checks) > 1 {
		m.fail("filter", fnName(k.close), "no predicate accepts every change of the listen address")
	}
}
