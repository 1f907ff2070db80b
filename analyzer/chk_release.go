package main

import (
	"strings"
)

func init() { checkFns["S07"] = checkS07 }

func checkS07(c *Check) {
	c.expl = "Every operation of a session's and of the server's goroutines that can wait is matched with what ends the wait when the session or server is closed: I/O on a connection that Close is known to close, dialling with a cancel channel or context tied to the closed event, " +
		"a select with the closed event, a queue that a goroutine closes on every return (goroutines depend on each other without a cycle), Accept on the installed listener. Close itself is shown to close all of these, and registration after Close to be impossible."
	c.assume = []string{"closing a connection or listener ends the operations blocked on it", "E01: events", "K02: Close of the distributor ends Get and deliveries", "calls of net.Listen and of predicates do not wait"}
	s := c.session()
	sess, sv, ds := c.closable("Session"), c.closable("Server"), c.closable("ConfigDistributor")
	if s == nil || sess == nil || sv == nil || ds == nil {
		return
	}
	// what Close ends
	s.checkCloseBoth(append([]*Thread{s.root}, s.threads...))
	sess.registrations()
	sv.registrations()
	lf, sf := sv.listenerField(), sv.mapField("Session")
	if lf == "" || sf == "" {
		c.undecided("server fields", "cannot tell which fields hold the listener and the sessions")
		return
	}
	wgs := map[string]bool{}
	fns, selves := sv.roots()
	for i, fn := range fns {
		ts := c.threads(fn, Opts{Prim: sv.prim, Access: true})
		for _, t := range ts {
			sv.tracked(ts, t, selves[i], sf, wgs)
			sv.released(ts, t, selves[i], lf)
		}
	}
	sv.teardown(lf, sf, wgs)
	// sessions
	closes := s.closers()
	for _, t := range append([]*Thread{s.root}, s.threads...) {
		s.released(t, closes)
	}
	// the distributor
	if d := c.distributor(); d != nil {
		for _, r := range d.roots {
			for _, t := range r.ts {
				r, t := r, t
				c.product(t.Exec, nil, func(m *Mon, ev *Event) {
					what, ends := waitsFor(ev)
					if what == "" || isWait(ev) {
						return
					}
					c.instance("distributor", evFn(ev))
					for _, e := range ends {
						if ds.isEvent(e, r.self) {
							return
						}
						// the event of a subscription: Close fires all of them
						if b, f, ok := fieldOf(e); ok && f == d.cancel && d.isSub(b) {
							return
						}
						if e.op == "alloc" {
							for a, v := range ev.St.mem {
								if v == e && a.op == "faddr" && a.aux == d.cancel {
									return
								}
							}
						}
					}
					m.fail("distributor", evFn(ev), "%s does not end when the distributor is closed", what)
				})
			}
		}
		c.floor("distributor", 2, "waits of the distributor")
	}
	c.floor("session", 8, "waits of a session")
	c.floor("server", 2, "waits of the server")
}

// closers: which goroutine closes each queue of the session on every return.
func (s *sessModel) closers() map[string]*Thread {
	c := s.c
	r := map[string]*Thread{}
	for _, t := range s.threads {
		qs := map[string]bool{}
		t.Exec.eachEvent(func(ev *Event) {
			if ev.Kind == "close" && isMsgChan(ev.Args[0]) {
				qs[s.endpoint(ev.Args[0])] = true
			}
		})
		for _, q := range sortStrings(qs) {
			if r[q] != nil {
				continue // S06
			}
			r[q] = t
			c.product(t.Exec, nil, func(m *Mon, ev *Event) {
				if ev.Kind == "close" && s.endpoint(ev.Args[0]) == q {
					m.set("closed", nil, nil)
				}
				if ev.Kind == "return" || ev.Kind == "panic" {
					c.instance("closes its queue", s.threadName(t)+" "+q)
					if !m.has("closed", nil) {
						m.fail("closes its queue", s.threadName(t), "returns without closing %s: whoever receives from it waits forever", q)
					}
				}
			})
		}
	}
	return r
}

// released: everything a goroutine of the session waits for ends with the session.
func (s *sessModel) released(t *Thread, closes map[string]*Thread) {
	c := s.c
	who := s.threadName(t)
	uses := func(q string) bool { // does the wait for q depend on t itself?
		seen := map[*Thread]bool{}
		var dep func(x *Thread) bool
		dep = func(x *Thread) bool {
			if x == t || x == nil {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for src := range s.flow(x).src {
				if strings.HasPrefix(src, "queue ") && dep(closes[src]) {
					return true
				}
			}
			return false
		}
		return dep(closes[q])
	}
	c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		if ev.Kind == "store" && ev.Addr.op == "faddr" && ev.Addr.args[0] == s.self && isConnType(ev.Val.typ) {
			m.set("known", ev.Val, nil)
		}
		if ev.Kind == "call" && isDial(ev.Name) {
			c.instance("session", ev.Name+" in "+evFn(ev))
			if !s.cancellable(t, ev) {
				m.fail("session", "dial in "+who, "dialling does not end when the session is closed")
			}
			return
		}
		if op := connOp(ev); strings.HasPrefix(op, "Recv") || strings.HasPrefix(op, "Send") {
			x := ev.Args[0]
			c.instance("session", op+" in "+evFn(ev))
			if b, _, ok := fieldOf(x); ok && b == s.self || m.has("known", x) {
				return
			}
			for a, v := range ev.St.mem {
				if v == x && a.op == "faddr" && a.args[0] == s.self {
					return
				}
			}
			m.fail("session", op+" in "+who, "%s waits on a connection that Close does not know", op)
			return
		}
		if s.reporting(ev) || ev.Kind == "recv" && t == s.root && s.doneChans()[ev.Args[0]] > 0 {
			return
		}
		if isWait(ev) {
			if t.Kind != "root" {
				m.fail("session", "wait in "+who, "waits for other goroutines")
			}
			return
		}
		what, ends := waitsFor(ev)
		if what == "" {
			return
		}
		c.instance("session", shortName(what)+" in "+evFn(ev))
		for _, e := range ends {
			if s.isClosedEvent(e) {
				return
			}
		}
		if blockingCall(ev) != "" && strings.HasSuffix(ev.Name, "ConfigStore).Get") {
			c.violate("session", "ConfigStore.Get", ev.Pos(), "waiting for the first configuration does not end when the session is closed", nil)
			return
		}
		// a queue that somebody closes
		var from []*Term
		switch ev.Kind {
		case "recv":
			from = append(from, ev.Args[0])
		case "select":
			for _, cs := range ev.Cases {
				if !cs.Send {
					from = append(from, cs.Ch)
				}
			}
		}
		for _, ch := range from {
			if q := s.endpoint(ch); isMsgChan(ch) && closes[q] != nil && !uses(q) {
				return
			}
		}
		switch ev.Kind {
		case "send":
			what = "sending to " + s.endpoint(ev.Args[0])
		case "recv":
			what = "receiving from " + s.endpoint(ev.Args[0])
		}
		m.fail("session", what+" in "+who, "%s does not end when the session is closed", what)
	})
}

// cancellable: the dial is interrupted by the closed event: a cancel channel, or a context that a goroutine cancels.
func (s *sessModel) cancellable(t *Thread, ev *Event) bool {
	if strings.HasSuffix(ev.Name, ").Dial") && len(ev.Args) > 0 {
		d := ev.Args[0]
		for a, v := range ev.St.mem {
			if a.op == "faddr" && a.aux == "Cancel" && a.args[0] == d && v.op == "done" && s.isClosedEvent(v.args[0]) {
				return true
			}
		}
	}
	if strings.HasSuffix(ev.Name, ").DialContext") && len(ev.Args) > 1 {
		ctx := unface(ev.Args[1])
		if ctx.op != "ext" {
			return false
		}
		for _, x := range s.threads {
			if x.From != t {
				continue
			}
			ok := false
			s.c.product(x.Exec, nil, func(m *Mon, e2 *Event) {
				if e2.Kind == "recv" && s.isClosedCh(e2.Args[0]) || e2.Kind == "select" && e2.Chosen >= 0 && s.isClosedCh(e2.Cases[e2.Chosen].Ch) {
					m.set("end", nil, nil)
				}
				if e2.Kind == "call" && e2.Name == "dynamic" && e2.Val != nil && e2.Val.op == "ext" && e2.Val.args[0] == ctx.args[0] {
					m.set("cancelled", nil, nil)
					ok = ok || m.has("end", nil)
				}
			})
			if ok {
				return true
			}
		}
	}
	return false
}

// released: everything a goroutine of the server waits for ends with the server.
func (k *closable) released(ts []*Thread, t *Thread, self *Term, lf string) {
	c := k.c
	c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		who := evFn(ev)
		k.locks(m, ev, self)
		if ev.Kind == "store" && isFieldAddr(ev.Addr, self, lf) && len(m.open()) > 0 {
			m.set("inst", unface(ev.Val), nil)
		}
		if ev.Kind == "makechan" {
			if n, ok := ev.Args[0].intVal(); ok && n > 0 {
				m.set("room", ev.Res, nil)
			}
		}
		if ev.Kind == "go" {
			if x := child(ts, t, ev); x != nil {
				for ln := range accepts(x) {
					if !m.has("inst", ln) {
						m.fail("server", "Accept in "+fnName(x.Fn), "accepts on a listener that Close does not know")
					}
				}
			}
			return
		}
		if isAccept(ev) {
			c.instance("server", "Accept in "+who)
			if t.Kind == "root" && !m.has("inst", unface(ev.Args[0])) {
				m.fail("server", "Accept in "+who, "accepts on a listener that Close does not know")
			}
			return
		}
		if ev.Kind == "call" && ev.Name == "net.Listen" || isWait(ev) {
			return
		}
		if ch, un, ok := subscribes(ev); ok && !un {
			c.instance("server", "Subscribe in "+who)
			if !m.has("room", unface(ch)) {
				m.fail("server", "Subscribe in "+who, "the channel has no room for the current configuration: Subscribe waits for somebody to receive it")
			}
			return
		}
		what, ends := waitsFor(ev)
		if what == "" {
			return
		}
		c.instance("server", what+" in "+who)
		for _, e := range ends {
			if k.isEvent(e, self) {
				return
			}
		}
		m.fail("server", what+" in "+who, "%s does not end when the server is closed", what)
	})
}
