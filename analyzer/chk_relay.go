package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// baseOf strips projections: the object that a memory location or a loaded value belongs to.
func baseOf(t *Term) *Term {
	for t != nil {
		switch t.op {
		case "load", "faddr", "iaddr", "slice", "iface", "assert", "field":
			t = t.args[0]
		case "ext":
			if t.args[0].op == "assert" {
				t = t.args[0]
				continue
			}
			return t
		default:
			return t
		}
	}
	return nil
}

// writesInto tells whether the event modifies memory reachable from the value v.
func writesInto(ev *Event, v *Term) bool {
	has := func(t *Term) bool {
		if t == nil || v == nil {
			return false
		}
		for _, l := range v.leaf {
			if (l.op == "sym" || l.op == "alloc" || l.op == "loopvar") && t.hasLeaf(l) {
				return true
			}
		}
		return false
	}
	switch ev.Kind {
	case "store":
		return has(ev.Addr)
	case "mapset", "mapdel", "mapclear", "copy":
		return len(ev.Args) > 0 && has(ev.Args[0])
	}
	return false
}

// checkSendPrims: sending over a pg.Conn is one complete write of exactly the bytes of the message, and its error is
// what the method returns.
func (c *Check) checkSendPrims() {
	const rule = "send primitive"
	for _, name := range []string{"SendByte", "SendMessage"} {
		fn := c.mustFn("pkg/pg", "Conn", name)
		if fn == nil {
			continue
		}
		e := c.explore(fn, Opts{})
		arg := c.n.param(fn, 1, fn.Params[1])
		who := fnName(fn)
		c.product(e, nil, func(m *Mon, ev *Event) {
			switch ev.Kind {
			case "call":
				if ev.Method == nil {
					return
				}
				switch ev.Method.Name() {
				case "Frame":
					if ev.Args[0] == arg {
						m.set("frame", ev.Res, nil)
					}
				case "Bytes":
					if m.has("frame", ev.Args[0]) {
						m.set("bytes", ev.Res, nil)
					}
				case "Write":
					c.instance(rule, who+" write")
					if m.has("written", nil) {
						m.fail(rule, who, "the data is written more than once")
					}
					m.set("written", nil, m.e.result(ev, 1))
					if b, f, ok := fieldOf(ev.Args[0]); !ok || b != c.n.param(fn, 0, fn.Params[0]) || f == "" {
						m.fail(rule, who, "writes to %v instead of the wrapped connection", ev.Args[0])
					}
					if name == "SendByte" {
						if es := m.e.sliceElems(ev.St, ev.Args[1]); len(es) != 1 || es[0] != arg {
							m.fail(rule, who, "%v is written instead of the given byte", ev.Args[1])
						}
					} else if !m.has("bytes", ev.Args[1]) {
						m.fail(rule, who, "%v is written instead of the bytes of the message's frame", ev.Args[1])
					}
				}
			case "return":
				werr := m.get("written", nil)
				if werr == nil {
					if b, known := m.isNil(ev.Args[0]); !known || b {
						m.fail(rule, who, "success is reported although nothing was written")
					}
					return
				}
				if ev.Args[0] == werr {
					return
				}
				if b, known := m.isNil(ev.Args[0]); known && !b {
					return
				}
				if b, known := m.isNil(werr); !known || !b {
					m.fail(rule, who, "the error of the write is dropped")
				}
			}
		})
	}
	c.floor(rule, 2, "writes of SendByte and SendMessage")
}

func checkS02(c *Check) {
	c.expl = "Path automaton over Session.Start (helpers inlined, pg.Conn methods as primitives): 'N' is sent exactly once per startup packet whose version is known to be the SSL request and the next packet is read " +
		"only after that succeeded; nothing else goes to the client; the first and only message sent to the database is the last startup packet, not written to in between; relay goroutines start only where its send is " +
		"known to have succeeded. SendByte and SendMessage are one complete write each."
	c.assume = []string{"net.Conn.Write writes everything or returns an error (io.Writer contract)", "reading and encoding of startup packets are decided by W01 and W03"}
	s := c.session()
	if s == nil {
		return
	}
	who := fnName(s.start)
	n := c.n
	c.product(s.root.Exec, nil, func(m *Mon, ev *Event) {
		isSSL := func(msg *Term) (bool, bool) {
			v := startupField(m.e, msg, "ProtocolVersion")
			if v == nil {
				return false, false
			}
			return m.truth(n.eq(v, n.int(sslMagic)))
		}
		isOK := func(err *Term) bool {
			b, known := m.isNil(err)
			return known && b
		}
		failed := func(err *Term) bool {
			b, known := m.isNil(err)
			return known && !b
		}
		last := func() *MFact {
			for _, f := range m.all("last") {
				return &f
			}
			return nil
		}
		answered := func() *Term {
			for _, f := range m.all("answered") {
				return f.a
			}
			return nil
		}
		switch ev.Kind {
		case "call":
			op := connOp(ev)
			switch {
			case op == "RecvStartupMessage":
				c.instance("startup packet", evFn(ev))
				if l := last(); l != nil {
					if yes, known := isSSL(l.a); !known || !yes {
						m.fail("one startup packet", who, "another startup packet is read although the previous one may not be an SSL request")
					}
					if a := answered(); a == nil || !isOK(a) {
						m.fail("SSL answer", who, "the next startup packet is read although the SSL request was not answered successfully")
					}
				}
				if s.role(ev.Args[0]) != "client" {
					m.fail("startup packet", who, "the startup packet is read from %v", ev.Args[0])
				}
				m.clear("last")
				m.clear("answered")
				m.set("last", m.e.result(ev, 0), m.e.result(ev, 1))
			case op == "SendByte":
				c.instance("SSL answer", evFn(ev))
				l := last()
				if s.role(ev.Args[0]) != "client" {
					m.fail("SSL answer", who, "the answer is sent to %v", ev.Args[0])
					return
				}
				if v, ok := ev.Args[1].intVal(); !ok || v != 'N' {
					m.fail("SSL answer", who, "the answer is %v instead of 'N'", ev.Args[1])
				}
				if l == nil || !isOK(l.b) {
					m.fail("SSL answer", who, "an answer is sent although no startup packet was received")
					return
				}
				if yes, known := isSSL(l.a); !known || !yes {
					m.fail("SSL answer", who, "'N' is sent in response to a packet that may not be an SSL request")
				}
				if answered() != nil {
					m.fail("SSL answer", who, "an SSL request is answered more than once")
				}
				m.set("answered", ev.Res, nil)
			case op == "SendMessage":
				c.instance("startup forwarded", evFn(ev))
				switch s.role(ev.Args[0]) {
				case "db":
					l := last()
					if l == nil || unface(ev.Args[1]) != l.a {
						m.fail("startup forwarded", who, "%v is sent to the database instead of the client's startup packet", ev.Args[1])
						return
					}
					if m.has("modified", nil) {
						m.fail("startup forwarded", who, "the startup packet was modified before it is forwarded")
					}
					if !isOK(l.b) {
						m.fail("startup forwarded", who, "a startup packet is forwarded although reading it may have failed")
					}
					if m.has("sent", nil) {
						m.fail("startup forwarded", who, "the startup packet is forwarded more than once")
					}
					if m.has("spawned", nil) {
						m.fail("startup forwarded", who, "relaying has started before the startup packet is forwarded")
					}
					m.set("sent", nil, ev.Res)
				default:
					if !m.has("sent", nil) {
						m.fail("nothing else", who, "a message is sent to the client before the database got its startup packet")
					} else {
						m.fail("nothing else", who, "a message that no peer sent goes to the client")
					}
				}
			case op == "Unwrap" || op != "" && strings.HasPrefix(op, "Send") || op != "" && strings.HasPrefix(op, "Recv"):
				m.fail("nothing else", who, "uses %s in the middle of the handshake", calleeName(ev))
			case ev.Method != nil && ev.Method.Name() == "Write" && ev.Method.Pkg() != nil && ev.Method.Pkg().Path() == "net":
				m.fail("nothing else", who, "writes directly to a connection during the handshake")
			}
		case "store", "mapset", "mapdel", "copy", "mapclear":
			if l := last(); l != nil && writesInto(ev, l.a) {
				m.set("modified", nil, nil)
			}
		case "go":
			if !s.relays(ev) {
				return
			}
			c.instance("relay start", evFn(ev))
			sent := m.get("sent", nil)
			if sent == nil || !isOK(sent) {
				m.fail("relay start", who, "relaying starts although the startup packet may not have reached the database")
			}
			m.set("spawned", nil, nil)
		case "return":
			l := last()
			if l == nil || failed(l.b) || m.has("spawned", nil) {
				return
			}
			if yes, known := isSSL(l.a); (!known || yes) && answered() == nil {
				if m.closedSeen() {
					return
				}
				m.fail("SSL answer", who, "the session ends without an answer to a packet that may be an SSL request")
			}
			if b, known := m.isNil(ev.Args[0]); known && b {
				m.fail("relay start", who, "the session ends successfully without relaying anything")
			}
		}
		m.noteFired(ev, s)
	})
	c.floor("startup packet", 1, "reads of startup packets")
	c.floor("SSL answer", 1, "answers to SSL requests")
	c.floor("startup forwarded", 1, "forwarding of the startup packet")
	c.floor("relay start", 1, "goroutines of the session")
	c.checkSendPrims()
}

// noteFired remembers checks of the session's closed event.
func (m *Mon) noteFired(ev *Event, s *sessModel) {
	if ev.Kind == "call" && (ev.Name == evHas || ev.Name == evFire) && s.isClosedEvent(ev.Args[0]) {
		if ev.Name == evHas {
			m.set("fired?", ev.Res, nil)
		}
	}
	if ev.Kind == "select" && ev.Chosen >= 0 && s.isClosedCh(ev.Cases[ev.Chosen].Ch) {
		m.set("closed!", nil, nil)
	}
	if ev.Kind == "recv" && s.isClosedCh(ev.Args[0]) {
		m.set("closed!", nil, nil)
	}
}

// closedSeen: on this path the session is known to be closed already.
func (m *Mon) closedSeen() bool {
	if m.has("closed!", nil) {
		return true
	}
	for _, f := range m.all("fired?") {
		if b, known := m.truth(f.a); known && b {
			return true
		}
	}
	return false
}

// relays tells whether the goroutine started by the event touches a connection or a queue of messages.
func (s *sessModel) relays(ev *Event) bool {
	for _, t := range s.threads {
		if t.Spawn.Ev.Site == ev.Site && t.Spawn.Fn == ev.Fn && t.Spawn.Ev.spawnID() == ev.spawnID() {
			if len(s.flow(t).src) > 0 || len(s.flow(t).sink) > 0 {
				return true
			}
			for _, sub := range s.threads {
				if sub.From == t && (len(s.flow(sub).src) > 0 || len(s.flow(sub).sink) > 0) {
					return true
				}
			}
		}
	}
	return false
}

// ---- relaying -----------------------------------------------------------------------------------

// flow of a goroutine: where it takes messages from and where it puts them.
type flow struct {
	t         *Thread
	src, sink map[string]bool
	pairs     map[string]map[string]bool
}

var flowMemo = map[*Thread]*flow{}

func isMsgChan(t *Term) bool {
	return t != nil && t.typ != nil && strings.Contains(t.typ.String(), pgPath+".Message")
}

// endpoint names a connection or queue.
func (s *sessModel) endpoint(t *Term) string {
	if r := s.role(t); r != "" {
		return r
	}
	if b, f, ok := fieldOf(t); ok && b == s.self {
		return "queue " + f
	}
	return fmt.Sprintf("queue %v", t)
}

// source: the event takes a message; valid is the condition under which it is one (nil: always), neg when its truth
// means failure.
func (s *sessModel) source(e *Exec, ev *Event) (ep string, msg, cond *Term, ok bool) {
	switch ev.Kind {
	case "call":
		if op := connOp(ev); strings.HasPrefix(op, "Recv") && op != "RecvStartupMessage" {
			return s.endpoint(ev.Args[0]), e.result(ev, 0), e.n.eq(e.result(ev, 1), e.n.nilT()), true
		}
	case "recv":
		if !isMsgChan(ev.Args[0]) {
			return
		}
		if ev.OK {
			return s.endpoint(ev.Args[0]), e.result(ev, 0), e.result(ev, 1), true
		}
		return s.endpoint(ev.Args[0]), ev.Res, nil, true
	case "select":
		if ev.Chosen >= 0 && !ev.Cases[ev.Chosen].Send && isMsgChan(ev.Cases[ev.Chosen].Ch) {
			typ := chanElem(ev.Cases[ev.Chosen].Ch.typ)
			return s.endpoint(ev.Cases[ev.Chosen].Ch), ext(e.n, ev.Res, 0, typ), ext(e.n, ev.Res, 1, types.Typ[types.Bool]), true
		}
	}
	return
}

// sinkOf: the event puts a message somewhere; err is its error, if it can fail.
func (s *sessModel) sinkOf(ev *Event) (ep string, val, err *Term, ok bool) {
	switch ev.Kind {
	case "call":
		if connOp(ev) == "SendMessage" {
			return s.endpoint(ev.Args[0]), ev.Args[1], ev.Res, true
		}
	case "send":
		if isMsgChan(ev.Args[0]) {
			return s.endpoint(ev.Args[0]), ev.Args[1], nil, true
		}
	case "select":
		if ev.Chosen >= 0 && ev.Cases[ev.Chosen].Send && isMsgChan(ev.Cases[ev.Chosen].Ch) {
			return s.endpoint(ev.Cases[ev.Chosen].Ch), ev.Cases[ev.Chosen].Val, nil, true
		}
	}
	return
}

func (s *sessModel) flow(t *Thread) *flow {
	if f, ok := flowMemo[t]; ok {
		return f
	}
	f := &flow{t: t, src: map[string]bool{}, sink: map[string]bool{}, pairs: map[string]map[string]bool{}}
	flowMemo[t] = f
	t.Exec.eachEvent(func(ev *Event) {
		if ep, _, _, ok := s.source(t.Exec, ev); ok {
			f.src[ep] = true
		}
		if ep, _, _, ok := s.sinkOf(ev); ok {
			f.sink[ep] = true
		}
		if ev.Kind == "select" {
			for _, cs := range ev.Cases {
				if isMsgChan(cs.Ch) {
					if cs.Send {
						f.sink[s.endpoint(cs.Ch)] = true
					} else {
						f.src[s.endpoint(cs.Ch)] = true
					}
				}
			}
		}
	})
	return f
}

func one(m map[string]bool) string {
	for k := range m {
		return k
	}
	return ""
}

func names(m map[string]bool) string {
	return strings.Join(sortStrings(m), ", ")
}

// chain is the sequence of goroutines that relay one direction.
func (s *sessModel) chain(from, to string) ([]*Thread, string) {
	var out []*Thread
	at := from
	for at != to {
		var next *Thread
		for _, t := range s.threads {
			if s.flow(t).src[at] {
				if next != nil && next != t {
					return out, fmt.Sprintf("more than one goroutine takes messages from %s (%s and %s)", at, fnName(next.Fn), fnName(t.Fn))
				}
				next = t
			}
		}
		if next == nil {
			return out, fmt.Sprintf("no goroutine takes messages from %s", at)
		}
		f := s.flow(next)
		if len(f.pairs[at]) != 1 {
			return out, fmt.Sprintf("messages from %s go to %d places (%s)", at, len(f.pairs[at]), names(f.pairs[at]))
		}
		out = append(out, next)
		if len(out) > 20 {
			return out, "the relay goes in circles"
		}
		at = one(f.pairs[at])
	}
	return out, ""
}

func (s *sessModel) threadName(t *Thread) string { return fnName(t.Fn) }

// relayFlow runs the exactly-once automaton over one goroutine and fills its source-to-sink pairs.
func (s *sessModel) relayFlow(t *Thread) {
	c := s.c
	f := s.flow(t)
	if len(f.src) == 0 && len(f.sink) == 0 {
		return
	}
	who := s.threadName(t)
	n := c.n
	c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		s.noteConds(m, ev)
		isTrue := func(x *Term) (bool, bool) {
			if x == nil {
				return true, true
			}
			return m.truth(x)
		}
		pending := func() []MFact { return m.all("pending") }
		sinkFailed := func() bool {
			for _, x := range m.all("senderr") {
				if b, known := m.isNil(x.a); known && !b {
					return true
				}
			}
			return false
		}
		drop := func(why string) {
			if m.closedSeen() || sinkFailed() {
				m.clear("pending")
				m.clear("cond")
				return
			}
			for _, p := range pending() {
				cond := m.get("cond", p.a)
				if v, known := isTrue(cond); known && !v {
					continue
				}
				m.fail("skipped", who, "a message received from %s is not passed on: %s", p.b.aux, why)
			}
			m.clear("pending")
			m.clear("cond")
		}
		if ep, msg, cond, ok := s.source(m.e, ev); ok {
			c.instance("source", who+" "+ep)
			for _, p := range pending() {
				if p.b.aux == ep {
					drop("the next one is received")
				}
			}
			for _, x := range m.all("ended") {
				if x.b.aux == ep {
					if v, known := isTrue(x.a); !known || !v {
						m.fail("goes on after failure", who, "receives from %s again although the previous attempt may have failed", ep)
					}
				}
			}
			m.clear("ended")
			tag := n.mk(Term{op: "const", aux: ep})
			m.set("pending", msg, tag)
			if cond != nil {
				m.set("cond", msg, cond)
				m.set("ended", cond, tag)
			}
			// a receive from a channel that may be closed without looking at the second result
			if cond == nil && ev.Kind == "recv" {
				m.fail("invented", who, "receives from %s without checking whether it was closed", ep)
			}
		}
		if ep, val, err, ok := s.sinkOf(ev); ok {
			c.instance("sink", who+" "+ep)
			if sinkFailed() {
				m.fail("after failed send", who, "sends to %s although a send has failed", ep)
			}
			for _, x := range m.all("senderr") {
				if b, known := m.isNil(x.a); !known || !b {
					m.fail("after failed send", who, "sends to %s without checking the error of the previous send", ep)
				}
			}
			hit := false
			for _, p := range pending() {
				if p.a == val || p.a == unface(val) {
					hit = true
					if v, known := isTrue(m.get("cond", p.a)); !known || !v {
						m.fail("invented", who, "passes on a message to %s although none may have been received", ep)
					}
					if m.has("modified", p.a) {
						m.fail("modified", who, "the message passed on to %s was modified", ep)
					}
					if f.pairs[p.b.aux] == nil {
						f.pairs[p.b.aux] = map[string]bool{}
					}
					f.pairs[p.b.aux][ep] = true
					m.del("pending", p.a)
					m.del("cond", p.a)
					m.del("modified", p.a)
				}
			}
			if !hit {
				m.fail("invented", who, "%v is sent to %s, which is not the message just received", val, ep)
			}
			m.clear("senderr")
			if err != nil {
				m.set("senderr", err, nil)
			}
		}
		switch ev.Kind {
		case "store", "mapset", "mapdel", "mapclear", "copy":
			for _, p := range pending() {
				if writesInto(ev, p.a) {
					m.set("modified", p.a, nil)
				}
			}
		case "return":
			drop("the goroutine ends")
			if m.closedSeen() || sinkFailed() {
				return
			}
			for _, x := range m.all("ended") {
				if v, known := isTrue(x.a); known && !v {
					return
				}
			}
			m.fail("stops early", who, "the goroutine ends although its source has not ended")
		}
		m.noteFired(ev, s)
	})
}

// noteConds keeps conditions about results of the events tracked (hook for conditions on session state).
func (s *sessModel) noteConds(m *Mon, ev *Event) {}

func checkS03(c *Check) {
	c.expl = "Exactly-once dataflow automaton per relay goroutine (a received message must be sent, unmodified and once, before the next receive; dropping only when the session is closed or the sink failed), composed over the queues " +
		"into one chain per direction: each queue has one sending and one receiving goroutine, each goroutine runs once; the session is closed only by the last goroutine of a chain after its queue ended, or by Start after waiting for all of them."
	c.assume = []string{"Go channels deliver in order and exactly once", "content of decoded messages is decided by W01 and W04"}
	s := c.session()
	if s == nil {
		return
	}
	s.relay()
	const rule = "chain"
	var chains [][]*Thread
	for _, d := range [][2]string{{"client", "db"}, {"db", "client"}} {
		ch, why := s.chain(d[0], d[1])
		c.instance(rule, d[0]+" to "+d[1])
		if why != "" {
			c.violate(rule, d[0]+" to "+d[1], s.start.Pos(), why, nil)
		}
		chains = append(chains, ch)
	}
	used := map[*Thread]bool{}
	for _, ch := range chains {
		for _, t := range ch {
			if used[t] && len(s.flow(t).src) < 2 {
				c.violate(rule, fnName(t.Fn), t.Fn.Pos(), "one goroutine is part of the relay twice", nil)
			}
			used[t] = true
		}
	}
	for _, t := range s.threads {
		f := s.flow(t)
		if len(f.sink) > 0 && !used[t] {
			c.violate(rule, fnName(t.Fn), t.Fn.Pos(), fmt.Sprintf("another goroutine sends to %s", names(f.sink)), nil)
		}
		if len(f.src) > 0 && !used[t] {
			c.violate(rule, fnName(t.Fn), t.Fn.Pos(), fmt.Sprintf("another goroutine takes messages from %s", names(f.src)), nil)
		}
	}
	s.checkSpawnsOnce("chain")
	s.checkQueues()
	s.checkTeardown(chains)
	c.checkSendPrims()
	c.floor("source", 2, "sources of messages")
	c.floor("sink", 2, "sinks of messages")
}

func (s *sessModel) relay() {
	for _, t := range s.threads {
		s.relayFlow(t)
	}
}

// checkSpawnsOnce: each relay goroutine is started exactly once on every path that starts any.
func (s *sessModel) checkSpawnsOnce(rule string) {
	c := s.c
	who := fnName(s.start)
	want := map[string]string{} // site -> name
	for _, t := range s.threads {
		if f := s.flow(t); len(f.src)+len(f.sink) > 0 {
			if t.From != s.root {
				// started by another goroutine: that one is started once and must do so once
				c.undecided(rule+" "+fnName(t.Fn), "a relay goroutine is not started by Start itself")
				continue
			}
			want[t.Spawn.Ev.spawnID()] = fnName(t.Fn)
		}
	}
	c.product(s.root.Exec, nil, func(m *Mon, ev *Event) {
		switch ev.Kind {
		case "go":
			k := c.n.mk(Term{op: "const", aux: ev.spawnID()})
			if want[k.aux] == "" {
				return
			}
			if m.has("spawned", k) {
				m.fail(rule, who, "%s is started more than once", want[k.aux])
			}
			m.set("spawned", k, nil)
		case "return":
			sp := m.all("spawned")
			if len(sp) > 0 && len(sp) < len(want) {
				m.fail(rule, who, "only %d of %d relay goroutines are started", len(sp), len(want))
			}
		}
	})
}

// checkQueues: the queues between the goroutines are distinct channels that never change.
func (s *sessModel) checkQueues() {
	c := s.c
	const rule = "queues"
	ctor := c.mustFn("pkg/server", "", "NewSession")
	if ctor == nil {
		return
	}
	ce := c.explore(ctor, Opts{})
	chans := map[*Term]string{}
	ce.eachEvent(func(ev *Event) {
		if ev.Kind == "store" && ev.Addr.op == "faddr" && isMsgChan(ev.Val) {
			if o := chans[ev.Val]; o != "" && o != ev.Addr.aux {
				c.violate(rule, ev.Addr.aux, ev.Pos(), "is the same channel as "+o, nil)
			}
			chans[ev.Val] = ev.Addr.aux
			c.instance(rule, ev.Addr.aux)
			if ev.Val.op == "nil" {
				c.violate(rule, ev.Addr.aux, ev.Pos(), "the queue is nil", nil)
			}
		}
	})
	inCtor := map[*ssa.Function]bool{}
	for f := range ce.inl {
		inCtor[f] = true
	}
	for _, fn := range c.p.Funcs {
		if inCtor[fn] {
			continue
		}
		eachStoreTo(fn, nil, func(st *ssa.Store, field string) {
			// a queue, or a structure of the session with queues in it
			if strings.Contains(st.Val.Type().Underlying().String(), "chan "+pgPath+".Message") {
				c.violate(rule, field+" in "+fnName(fn), st.Pos(), "a queue of the session is replaced", nil)
			}
		})
	}
}

// checkTeardown: while the session is open only the last goroutine of a direction may close it, after its source ended.
func (s *sessModel) checkTeardown(chains [][]*Thread) {
	c := s.c
	const rule = "teardown"
	for _, ch := range chains {
		for i, t := range ch {
			final := i == len(ch)-1
			s.teardownOf(t, final)
		}
	}
	// helpers that are no relay goroutines must not close anything either
	for _, t := range s.threads {
		if f := s.flow(t); len(f.src)+len(f.sink) == 0 {
			t.Exec.eachEvent(func(ev *Event) {
				if ev.Kind == "call" && (ev.Name == evFire && s.isClosedEvent(ev.Args[0]) || connOp(ev) == "Close") {
					s.helperClose(t, ev)
				}
			})
		}
	}
	// Start
	who := fnName(s.start)
	c.product(s.root.Exec, nil, func(m *Mon, ev *Event) {
		if s.awaits(m, ev) {
			m.del("running", nil)
		}
		switch ev.Kind {
		case "go":
			if s.relays(ev) {
				m.set("running", nil, nil)
			}
		case "call":
			closing := ev.Name == evFire && s.isClosedEvent(ev.Args[0]) || connOp(ev) == "Close" && s.role(ev.Args[0]) != ""
			if closing {
				c.instance(rule, who+" "+calleeName(ev))
				if m.has("running", nil) && !m.closedSeen() {
					m.fail(rule, who, "the session is closed without waiting for the relay goroutines")
				}
			}
		case "return":
			if m.has("running", nil) {
				m.fail(rule, who, "Start returns without waiting for the relay goroutines")
			}
		}
		m.noteFired(ev, s)
	})
}

func isWait(ev *Event) bool {
	return ev.Kind == "call" && (ev.Name == "(*golang.org/x/sync/errgroup.Group).Wait" || ev.Name == "(*sync.WaitGroup).Wait")
}

// helperClose: a helper goroutine may close the session only after it was seen closed.
func (s *sessModel) helperClose(t *Thread, ev *Event) {
	c := s.c
	c.product(t.Exec, nil, func(m *Mon, e2 *Event) {
		if e2 == ev && !m.closedSeen() {
			m.fail("teardown", s.threadName(t), "closes the session while it is in use")
		}
		m.noteFired(e2, s)
	})
}

func (s *sessModel) teardownOf(t *Thread, final bool) {
	c := s.c
	who := s.threadName(t)
	f := s.flow(t)
	c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		if _, _, cond, ok := s.source(m.e, ev); ok {
			m.clear("srcok")
			if cond != nil {
				m.set("srcok", cond, nil)
			}
		}
		if _, _, err, ok := s.sinkOf(ev); ok {
			m.clear("senderr")
			if err != nil {
				m.set("senderr", err, nil)
			}
		}
		srcEnded := false
		for _, x := range m.all("srcok") {
			if v, known := m.truth(x.a); known && !v {
				srcEnded = true
			}
		}
		sinkFailed := false
		for _, x := range m.all("senderr") {
			if b, known := m.isNil(x.a); known && !b {
				sinkFailed = true
			}
		}
		if ev.Kind == "call" && ev.Name == evFire && s.isClosedEvent(ev.Args[0]) {
			c.instance("teardown", who+" closes the session")
			if m.closedSeen() {
				return
			}
			switch {
			case !final:
				m.fail("teardown", who, "closes the session while messages may still be queued for the other side")
			case !srcEnded:
				m.fail("teardown", who, "closes the session although the messages for its side may not be delivered yet")
			}
			m.set("closed!", nil, nil)
		}
		if op := connOp(ev); op == "Close" {
			c.instance("teardown", who+" closes "+s.endpoint(ev.Args[0]))
			if m.closedSeen() {
				return
			}
			r := s.role(ev.Args[0])
			switch {
			case f.src[r] && srcEnded:
			case f.sink[r] && (sinkFailed || srcEnded):
			case final && srcEnded:
			default:
				m.fail("teardown", who, "closes the connection to the %s while it is in use", r)
			}
		}
		m.noteFired(ev, s)
	})
}

// ---- S04 -----------------------------------------------------------------------------------------

// blocking tells what an event may wait for: endpoints of the relay or something else; "" when it does not block.
func (s *sessModel) blocking(e *Exec, ev *Event) []string {
	if s.reporting(ev) {
		return nil
	}
	switch ev.Kind {
	case "call":
		if op := connOp(ev); strings.HasPrefix(op, "Recv") || strings.HasPrefix(op, "Send") {
			return []string{s.endpoint(ev.Args[0])}
		}
		if w := blockingCall(ev); w != "" {
			return []string{w}
		}
	case "send", "recv":
		if ev.Kind == "recv" && s.isClosedCh(ev.Args[0]) {
			return []string{"session end"}
		}
		return []string{s.endpoint(ev.Args[0])}
	case "select":
		if !ev.Block {
			return nil
		}
		var out []string
		for _, cs := range ev.Cases {
			if !s.isClosedCh(cs.Ch) {
				out = append(out, s.endpoint(cs.Ch))
			}
		}
		return out
	}
	return nil
}

// blockingCall names library calls that wait for something.
func blockingCall(ev *Event) string {
	if ev.Kind != "call" {
		return ""
	}
	switch ev.Name {
	case "time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "(*golang.org/x/sync/errgroup.Group).Wait", "io.ReadFull", "io.ReadAll", "io.Copy", "io.CopyN",
		"(*net.Dialer).Dial", "(*net.Dialer).DialContext", "net.Dial", "net.DialTimeout", "net.Listen":
		return ev.Name
	}
	if ev.Method != nil {
		switch ev.Method.Name() {
		case "Read", "Write", "Accept":
			if ev.Method.Pkg() != nil && (ev.Method.Pkg().Path() == "net" || ev.Method.Pkg().Path() == "io") {
				return ev.Name
			}
		case "Get":
			if strings.HasSuffix(ev.Name, "ConfigStore).Get") {
				return ev.Name
			}
		}
	}
	if ev.Fn != nil && objName(ev.Fn) == "(*"+srvPath+".ConfigDistributor).Get" {
		return ev.Name
	}
	return ""
}

func checkS04(c *Check) {
	c.expl = "Blocking-effect analysis of every goroutine of a session: each belongs to exactly one direction (one source, one sink), every operation that can wait concerns only that source or that sink or the end of the session, " +
		"and no lock is held while waiting."
	c.assume = []string{"logging does not block", "network operations in one direction do not block the other direction of the same socket"}
	s := c.session()
	if s == nil {
		return
	}
	s.relay()
	const rule = "one direction"
	for _, t := range s.threads {
		f := s.flow(t)
		who := s.threadName(t)
		c.instance(rule, who+" "+names(f.src)+" to "+names(f.sink))
		if len(f.src) > 1 {
			c.violate(rule, who, t.Fn.Pos(), "serves more than one source: "+names(f.src), nil)
		}
		if len(f.sink) > 1 {
			c.violate(rule, who, t.Fn.Pos(), "serves more than one sink: "+names(f.sink), nil)
		}
		c.product(t.Exec, nil, func(m *Mon, ev *Event) {
			for _, w := range s.blocking(m.e, ev) {
				c.instance("blocking operation", who+" waits for "+w)
				if !f.src[w] && !f.sink[w] && w != "session end" && len(f.src)+len(f.sink) > 0 {
					m.fail(rule, who, "waits for %s, which is not part of the direction %s to %s", w, names(f.src), names(f.sink))
				}
			}
			s.lockStep(m, ev, who)
		})
	}
	// direction of the chains
	dir := map[*Thread]string{}
	for _, d := range [][2]string{{"client", "db"}, {"db", "client"}} {
		ch, why := s.chain(d[0], d[1])
		if why != "" {
			c.violate("chain", d[0]+" to "+d[1], s.start.Pos(), why, nil)
		}
		for _, t := range ch {
			if o := dir[t]; o != "" && o != d[0] {
				c.violate(rule, s.threadName(t), t.Fn.Pos(), "is part of both directions", nil)
			}
			dir[t] = d[0]
		}
	}
	// waiting while holding a lock in Start or Close would stall whoever needs it
	for _, nm := range []string{"Start", "Close"} {
		fn := c.mustFn("pkg/server", "Session", nm)
		if fn == nil {
			continue
		}
		e := c.explore(fn, Opts{Prim: c.p.connPrim})
		c.product(e, nil, func(m *Mon, ev *Event) { s.lockStep(m, ev, fnName(fn)) })
	}
	c.floor(rule, 2, "goroutines of the session")
	c.floor("blocking operation", 4, "operations that can wait")
}

// lockStep: no lock is held while waiting.
func (s *sessModel) lockStep(m *Mon, ev *Event, who string) {
	if l, _ := isLock(ev); l {
		s.c.instance("lock", evFn(ev)+" "+ev.Args[0].String())
		m.set("lock", ev.Args[0], nil)
	}
	if u, _ := isUnlock(ev); u {
		m.del("lock", ev.Args[0])
	}
	if ls := m.all("lock"); len(ls) > 0 {
		for _, w := range s.blocking(m.e, ev) {
			m.fail("lock held while waiting", who, "waits for %s while holding %v", w, ls[0].a)
		}
		if ev.Kind == "return" {
			m.fail("lock held while waiting", who, "returns while holding %v", ls[0].a)
		}
	}
}

// ---- S05 -----------------------------------------------------------------------------------------

func checkS05(c *Check) {
	c.expl = "Termination argument over the relay chains: receive failures end the goroutine, every goroutine that is not last in its direction closes its queue on every return, queue goroutines return when their queue is closed, " +
		"the last one closes the session when its queue ended and at least its own connection when a send failed, sends into queues give up when the session is closed; Start waits for all goroutines and fires the closed event on every return; " +
		"whoever fires it closes both connections."
	c.assume = []string{"operations on a closed connection return an error", "a peer that is gone makes reads fail or end"}
	s := c.session()
	if s == nil {
		return
	}
	s.relay()
	var chains [][]*Thread
	for _, d := range [][2]string{{"client", "db"}, {"db", "client"}} {
		ch, why := s.chain(d[0], d[1])
		if why != "" {
			c.violate("chain", d[0]+" to "+d[1], s.start.Pos(), why, nil)
		}
		chains = append(chains, ch)
	}
	for _, ch := range chains {
		for i, t := range ch {
			s.endsOf(t, i == len(ch)-1)
		}
	}
	for _, t := range s.threads {
		in := false
		for _, ch := range chains {
			for _, x := range ch {
				in = in || x == t
			}
		}
		if !in {
			s.helperEnds(t)
		}
	}
	// Start closes the session on every return
	who := fnName(s.start)
	c.product(s.root.Exec, nil, func(m *Mon, ev *Event) {
		if ev.Kind == "call" && ev.Name == evFire && s.isClosedEvent(ev.Args[0]) {
			m.set("closed!", nil, nil)
		}
		if op := connOp(ev); m.has("closed!", nil) && (ev.Kind == "go" && s.relays(ev) || op != "" && op != "Close") {
			m.fail("Start closes", who, "the session goes on after it has closed itself: %s", m.e.describe(ev))
		}
		if ev.Kind == "go" && s.relays(ev) {
			m.set("running", nil, nil)
		}
		if s.awaits(m, ev) {
			m.del("running", nil)
		}
		if ev.Kind == "return" {
			c.instance("Start closes", evFn(ev))
			if !m.closedSeen() {
				m.fail("Start closes", who, "returns without closing the session")
			}
			if m.has("running", nil) {
				m.fail("Start waits", who, "returns without waiting for the goroutines of the session")
			}
		}
		m.noteFired(ev, s)
	})
	c.floor("Start closes", 1, "returns of Start")
	if fn := c.mustFn("pkg/server", "Session", "Close"); fn != nil {
		c.harmless(fn)
	}
	s.checkCloseBoth(append([]*Thread{s.root}, s.threads...))
}

// checkCloseBoth: after Fire returned true both connections are closed before the function that fired returns.
func (s *sessModel) checkCloseBoth(ts []*Thread) {
	c := s.c
	const rule = "both connections closed"
	run := func(e *Exec, who string) {
		c.product(e, nil, func(m *Mon, ev *Event) {
			if ev.Kind == "call" && ev.Name == evFire && s.isClosedEvent(ev.Args[0]) {
				c.instance(rule, who)
				if !m.has("fire", ev.Res) {
					m.clear("fire")
					m.clear("shut")
					m.set("fire", ev.Res, nil)
				}
			}
			if connOp(ev) == "Close" {
				if r := s.role(ev.Args[0]); r != "" {
					m.set("shut", c.n.mk(Term{op: "const", aux: r}), nil)
				}
			}
			if ev.Kind == "call" && connOp(ev) == "" && ev.Method != nil && ev.Method.Name() == "Close" {
				return
			}
			if ev.Kind == "branch" {
				cond, tr := ev.Cond, ev.Truth
				for cond.op == "not" {
					cond, tr = cond.args[0], !tr
				}
				// a connection that is nil needs no closing; reads of s.dbConn count when they happen after Fire
				if cond.op == "eq" && tr {
					for i := 0; i < 2; i++ {
						if cond.args[i].op == "nil" {
							if r := s.role(cond.args[1-i]); r != "" {
								m.set("shut", c.n.mk(Term{op: "const", aux: r}), nil)
							}
						}
					}
				}
			}
			if ev.Kind == "return" {
				for _, f := range m.all("fire") {
					if v, known := m.truth(f.a); known && !v {
						continue
					}
					for _, r := range []string{"client", "db"} {
						if !m.has("shut", c.n.mk(Term{op: "const", aux: r})) {
							if r == "db" && s.noDB(m) {
								continue
							}
							m.fail(rule, who, "the closed event is fired but the connection to the %s may stay open", r)
						}
					}
				}
			}
		})
	}
	for _, t := range ts {
		run(t.Exec, s.threadName(t))
	}
	if fn := c.mustFn("pkg/server", "Session", "Close"); fn != nil {
		run(c.explore(fn, Opts{Prim: c.p.connPrim}), fnName(fn))
	}
	c.floor(rule, 1, "firing of the closed event")
}

// noDB: the session has no connection to the database on this path (its field is known nil).
func (s *sessModel) noDB(m *Mon) bool {
	st := s.stype.Underlying()
	_ = st
	return false
}

// endsOf: how a relay goroutine reacts to the end of its source and to failures of its sink.
func (s *sessModel) endsOf(t *Thread, final bool) {
	c := s.c
	f := s.flow(t)
	who := s.threadName(t)
	src, sink := one(f.src), one(f.sink)
	c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		if ep, _, cond, ok := s.source(m.e, ev); ok {
			for _, x := range m.all("srcok") {
				if v, known := m.truth(x.a); !known || !v {
					m.fail("ends with its source", who, "takes from %s again although it may have ended or failed", ep)
				}
			}
			m.clear("srcok")
			if cond != nil {
				m.set("srcok", cond, nil)
			}
		}
		if _, _, err, ok := s.sinkOf(ev); ok {
			m.clear("senderr")
			if err != nil {
				m.set("senderr", err, nil)
			}
		}
		if m.closedSeen() {
			if bs := s.blocking(m.e, ev); len(bs) > 0 {
				m.fail("ends when closed", who, "waits for %s although the session is known to be closed", bs[0])
			}
		}
		switch ev.Kind {
		case "send":
			if isMsgChan(ev.Args[0]) {
				c.instance("gives up when closed", who)
				m.fail("gives up when closed", who, "the send to %s does not give up when the session is closed", s.endpoint(ev.Args[0]))
			}
		case "select":
			sends, closed := false, false
			for _, cs := range ev.Cases {
				sends = sends || cs.Send && isMsgChan(cs.Ch)
				closed = closed || s.isClosedCh(cs.Ch)
			}
			if sends {
				c.instance("gives up when closed", who)
				if ev.Block && !closed {
					m.fail("gives up when closed", who, "the send to a queue does not give up when the session is closed")
				}
			}
		case "close":
			m.set("qclosed", c.n.mk(Term{op: "const", aux: s.endpoint(ev.Args[0])}), nil)
		case "call":
			if ev.Name == evFire && s.isClosedEvent(ev.Args[0]) {
				m.set("fire", nil, nil)
			}
			if connOp(ev) == "Close" {
				m.set("shut", c.n.mk(Term{op: "const", aux: s.role(ev.Args[0])}), nil)
			}
		case "return":
			c.instance("return", who)
			if m.has("fire", nil) {
				return
			}
			if !final {
				if !m.has("qclosed", c.n.mk(Term{op: "const", aux: sink})) {
					m.fail("closes its queue", who, "returns without closing %s", sink)
				}
				return
			}
			if m.closedSeen() {
				return
			}
			for _, x := range m.all("senderr") {
				if b, known := m.isNil(x.a); known && !b {
					if !m.has("shut", c.n.mk(Term{op: "const", aux: sink})) {
						m.fail("closes after failed send", who, "returns after a failed send without closing the connection to the %s", sink)
					}
					return
				}
			}
			m.fail("closes the session", who, "the last goroutine towards the %s returns without closing the session (source %s)", sink, src)
		}
		m.noteFired(ev, s)
	})
}

// helperEnds: a goroutine that relays nothing must end with the session: the only thing it may wait for is the end.
func (s *sessModel) helperEnds(t *Thread) {
	c := s.c
	who := s.threadName(t)
	c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		bs := s.blocking(m.e, ev)
		if len(bs) == 0 {
			return
		}
		if ev.Kind == "select" {
			for _, cs := range ev.Cases {
				if s.isClosedCh(cs.Ch) {
					return
				}
			}
		}
		for _, b := range bs {
			if b != "session end" {
				m.fail("helper goroutine ends", who, "waits for %s, which does not end with the session", b)
			}
		}
	})
}

func eachStoreTo(fn *ssa.Function, styp interface{ String() string }, f func(st *ssa.Store, field string)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			d := derefType(fa.X.Type())
			if d == nil || styp != nil && d.String() != styp.String() {
				continue
			}
			if styp == nil && isLocal(fa) {
				continue
			}
			f(st, fieldName(fa))
		}
	}
}

// isLocal: the field belongs to a local variable or a literal.
func isLocal(fa *ssa.FieldAddr) bool {
	for {
		switch x := fa.X.(type) {
		case *ssa.FieldAddr:
			fa = x
			continue
		case *ssa.Alloc:
			return true
		}
		return false
	}
}

func sortedThreads(ts []*Thread) []*Thread {
	r := append([]*Thread(nil), ts...)
	sort.SliceStable(r, func(i, j int) bool { return r[i].Name < r[j].Name })
	return r
}

func fieldName(fa *ssa.FieldAddr) string {
	return derefType(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
}

func chanElem(t types.Type) types.Type {
	if t != nil {
		if c, ok := t.Underlying().(*types.Chan); ok {
			return c.Elem()
		}
	}
	return nil
}
