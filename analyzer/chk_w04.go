package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkFns["W04"] = checkW04 }

// Message types by sender.
var dbMsgs = map[int64]string{
	'R': "AuthenticationRequestMessage", 'v': "NegotiateProtocolVersionMessage", 'K': "BackendKeyDataMessage", 'S': "ParameterStatusMessage",
	'Z': "ReadyForQueryMessage", 'T': "RowDescriptionMessage", 'D': "DataRowMessage", 'C': "CommandCompleteMessage",
	'I': "EmptyQueryResponseMessage", 'E': "ErrorResponseMessage", 'N': "NoticeResponseMessage",
}

var clientMsgs = map[int64]string{'p': "PasswordMessage", 'Q': "QueryMessage", 'X': "TerminateMessage"}

func msgCodes(t map[int64]string) []int64 {
	var r []int64
	for k := range t {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// W04: which decoder is used for what, and what a decoder refuses.
func checkW04(c *Check) {
	c.eachDecoder(func(w *wmsg, fn *ssa.Function) {
		c.decoder(w, fn, "accept")
		c.instance("own type only", fnName(fn))
		c.instance("accepts well-formed", fnName(fn))
	})
	s := c.session()
	if s == nil {
		return
	}
	// which method receives from which peer
	type use struct {
		fn   *ssa.Function
		role string
	}
	seen := map[use]bool{}
	for _, t := range append([]*Thread{s.root}, s.threads...) {
		th := t
		th.Exec.eachEvent(func(ev *Event) {
			op := connOp(ev)
			if ev.Fn == nil || ev.Fn.Signature.Results().Len() != 2 || !strings.HasPrefix(op, "Recv") {
				return
			}
			role := s.role(ev.Args[0])
			if role == "" {
				c.violate("direction", s.threadName(th), ev.Pos(), "cannot tell which peer "+op+" receives from", nil)
				return
			}
			if op == "RecvStartupMessage" {
				c.instance("direction", s.threadName(th)+" "+op)
				if role != "client" {
					c.violate("direction", s.threadName(th), ev.Pos(), "a startup packet is expected from the database", nil)
				}
				return
			}
			c.instance("direction", s.threadName(th)+" "+op)
			u := use{ev.Fn, role}
			if !seen[u] {
				seen[u] = true
				if role == "client" {
					c.dispatch(ev.Fn, clientMsgs, "client")
				} else {
					c.dispatch(ev.Fn, dbMsgs, "database")
				}
			}
		})
	}
	c.floor("direction", 3, "receiving calls")
	c.floor("dispatch", 2, "dispatchers")
	c.floor("own type only", 15, "decoders")
	c.startupRecv()
}

func (p *Program) wirePrim(fn *ssa.Function) bool {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != pgPath || fn.Signature.Recv() != nil {
		return false
	}
	n := fn.Name()
	return strings.HasPrefix(n, "Parse") && strings.HasSuffix(n, "Message") || n == "ReadStandardFrame" || n == "ReadStartupFrame"
}

// dispatch compares a receiving method with the table of its sender's message types.
func (c *Check) dispatch(fn *ssa.Function, table map[int64]string, sender string) {
	const rule = "dispatch"
	who := fnName(fn)
	e := c.explore(fn, Opts{Prim: c.p.wirePrim})
	ownConn := c.ownConn(fn)
	codes := msgCodes(table)
	c.instance(rule, who+" from "+sender)
	used := map[string]bool{}
	c.product(e, nil, func(m *Mon, ev *Event) {
		switch ev.Kind {
		case "branch":
			// what a condition settles about the frame stays known where the paths meet again
			if fr := m.get("frame", nil); fr != nil && !m.has("no string", nil) && !m.has("one string", nil) {
				then := m.assuming(ev.Cond, ev.Truth)
				if then.noString(e, ev, fr) {
					m.set("no string", nil, nil)
				} else if then.oneString(e, ev, fr) {
					m.set("one string", nil, nil)
				}
			}
		case "call":
			name := strings.TrimPrefix(ev.Name, pgPath+".")
			switch {
			case name == "ReadStandardFrame":
				if m.has("frame", nil) {
					m.fail(rule, who, "reads more than one frame for a message")
				}
				if !ownConn(ev.Args[0]) {
					m.fail(rule, who, "reads the frame from %v, not directly from the connection", ev.Args[0])
				}
				m.set("frame", nil, e.result(ev, 0))
				m.set("ferr", nil, e.result(ev, 1))
			case name == "ReadStartupFrame":
				m.fail(rule, who, "expects a startup frame")
			case strings.HasPrefix(name, "Parse") && strings.HasSuffix(name, "Message"):
				c.dispatchParse(m, ev, who, table, codes, strings.TrimPrefix(name, "Parse"))
				used[strings.TrimPrefix(name, "Parse")] = true
				m.set("parsed", nil, e.result(ev, 0))
				m.set("perr", nil, e.result(ev, 1))
				if name == "ParseAuthenticationRequestMessage" {
					m.set("auth", nil, nil)
				} else {
					m.del("auth", nil)
				}
			}
		case "return":
			err := ev.Args[1]
			n, known := m.isNil(err)
			perr, ferr := m.get("perr", nil), m.get("ferr", nil)
			auth := func() bool { // the failure may be the one for an unknown authentication method
				if !m.has("auth", nil) {
					return false
				}
				t, ok := m.truth(c.unsupported(e, perr))
				return !(ok && !t)
			}
			if !known || !n {
				// failure: the frame or its decoder failed
				ok := false
				if ferr != nil {
					if err == ferr {
						ok = true
					}
					if x, k := m.isNil(ferr); k && !x {
						ok = true
					}
				}
				if perr != nil {
					if err == perr {
						ok = !known || !n
					}
					if x, k := m.isNil(perr); k && !x {
						ok = true
					}
				}
				if !ok {
					m.fail(rule, who, "a message from the %s is refused although it could be read and decoded", sender)
				} else if auth() && (perr == err || known) {
					if x, k := m.isNil(perr); !(k && x) {
						m.fail(rule, who, "an authentication request of an unknown method is refused instead of being carried through")
					}
				}
			}
			if known && !n {
				return
			}
			p := m.get("parsed", nil)
			if p == nil || unface(ev.Args[0]) != p {
				m.fail(rule, who, "returns %v, not the decoded message", ev.Args[0])
			}
		}
	})
	for _, k := range codes {
		if !used[table[k]] {
			c.violate(rule, who+" "+table[k], fn.Pos(), "messages of type "+string(rune(k))+" from the "+sender+" are never decoded", nil)
		}
	}
	if !used["GenericMessage"] {
		c.violate(rule, who+" GenericMessage", fn.Pos(), "messages of unknown type from the "+sender+" are not carried through", nil)
	}
}

// ownConn recognises the network connection of the receiver of a pg.Conn method.
func (c *Check) ownConn(fn *ssa.Function) func(t *Term) bool {
	self := c.n.param(fn, 0, fn.Params[0])
	return func(t *Term) bool {
		b, f, ok := fieldOf(unface(t))
		return ok && b == self && f == c.p.connField()
	}
}

// unsupported is the condition that an error stands for an authentication method nobody knows.
func (c *Check) unsupported(e *Exec, err *Term) *Term {
	for _, x := range e.Nodes {
		for _, ed := range x.out {
			for _, ev := range ed.evs {
				if ev.Kind == "branch" {
					t := ev.Cond
					for t.op == "not" {
						t = t.args[0]
					}
					if t.op == "erris" && t.args[0] == err || t.op == "eq" && (t.args[0] == err && isUnsupported(t.args[1]) || t.args[1] == err && isUnsupported(t.args[0])) {
						return t
					}
				}
			}
		}
	}
	return e.n.mk(Term{op: "erris", typ: types.Typ[types.Bool], args: []*Term{err, e.n.nilT()}})
}

func isUnsupported(t *Term) bool {
	return strings.Contains(t.String(), "ErrunsupportedAuthenticationRequest")
}

func (c *Check) dispatchParse(m *Mon, ev *Event, who string, table map[int64]string, codes []int64, what string) {
	const rule = "dispatch"
	e := m.e
	fr := m.get("frame", nil)
	arg := unface(ev.Args[0])
	if fr == nil || arg != fr {
		m.fail(rule, who, "decodes %v, not the frame that was read", ev.Args[0])
		return
	}
	if n, k := m.isNil(m.get("ferr", nil)); !k || !n {
		m.fail(rule, who, "decodes a frame although reading it may have failed")
		return
	}
	typ := e.load(ev.St, e.iaddr(fr, e.n.int(0)), byteType)
	is := func(k int64) (bool, bool) { return m.truth(e.n.eq(typ, e.n.int(k))) }
	if what == "GenericMessage" {
		for _, k := range codes {
			v, ok := is(k)
			if ok && !v {
				continue
			}
			if ok && v && k == 'p' && (m.has("no string", nil) || m.noString(e, ev, fr)) {
				continue // responses of other authentication methods share the type byte
			}
			if ok && v && k == 'R' {
				if perr := m.get("perr", nil); perr != nil && m.has("auth", nil) {
					cond := c.unsupported(e, perr)
					if t, k := m.truth(cond); k && t && isUnsupported(cond) {
						continue
					}
				}
			}
			m.fail(rule, who, "a message that may be of type %q is not decoded as %s", rune(k), table[k])
			return
		}
		return
	}
	for _, k := range codes {
		if table[k] != what {
			continue
		}
		if v, ok := is(k); !ok || !v {
			m.fail(rule, who, "decodes messages of other types than %q as %s", rune(k), what)
			return
		}
		if what == "PasswordMessage" && !m.has("one string", nil) && !m.oneString(e, ev, fr) {
			m.fail(rule, who, "decodes a response of another authentication method, which is not one string, as a password")
		}
		return
	}
	m.fail(rule, who, "%s is no message of this sender", what)
}

// oneString: the body of the frame is known to be a single terminated string.
func (m *Mon) oneString(e *Exec, ev *Event, fr *Term) bool {
	last := e.n.bin("-", e.length(ev.St, fr), e.n.int(6), types.Typ[types.Int])
	if m.prover().proveLT(last, e.n.int(0)) {
		return false
	}
	for _, z := range m.firstZero(e, fr) {
		if m.sameInt(z, last) && (m.prover().proveLE(e.n.int(0), z) || m.prover().proveLE(e.n.int(0), last) || m.differ(last, e.n.int(-1)) || m.differ(z, e.n.int(-1))) {
			return true
		}
	}
	return false
}

// differ: a condition on the way to the current event excluded that the numbers are equal.
func (m *Mon) differ(a, b *Term) bool {
	p := m.prover()
	d := p.lin(a).add(p.lin(b), -1)
	for f, v := range m.state().facts {
		if f.op != "eq" || v || !isNumTerm(f.args[0]) || !isNumTerm(f.args[1]) {
			continue
		}
		q := p.lin(f.args[0]).add(p.lin(f.args[1]), -1)
		if s := q.add(d, -1); len(s.c) == 0 && s.k == 0 {
			return true
		}
		if s := q.add(d, 1); len(s.c) == 0 && s.k == 0 {
			return true
		}
	}
	return false
}

// noString: the body of the frame is known not to be a single terminated string.
func (m *Mon) noString(e *Exec, ev *Event, fr *Term) bool {
	p := m.prover()
	last := e.n.bin("-", e.length(ev.St, fr), e.n.int(6), types.Typ[types.Int])
	if p.proveLT(last, e.n.int(0)) {
		return true // empty
	}
	for _, z := range m.firstZero(e, fr) {
		if p.proveLT(z, e.n.int(0)) || p.proveLT(z, last) || p.proveLT(last, z) || m.differ(z, last) {
			return true
		}
	}
	return false
}

// firstZero lists the terms that are the index of the first zero byte of the body of the frame (or -1).
func (m *Mon) firstZero(e *Exec, fr *Term) []*Term {
	var r []*Term
	for _, x := range m.pathCalls("bytes.IndexByte") {
		if v, ok := x.Args[1].intVal(); !ok || v != 0 {
			continue
		}
		b, lo, hi := e.sliceParts(x.Args[0])
		if l, ok := lo.intVal(); b == fr && ok && l == 5 && hi == nil {
			r = append(r, x.Res)
		}
	}
	return r
}

// assuming is the monitor with the outcome of a condition added to what it knows.
func (m *Mon) assuming(t *Term, v bool) *Mon {
	for t.op == "not" {
		t, v = t.args[0], !v
	}
	r := *m
	k := "?f"
	if v {
		k = "?t"
	}
	r.fs = append(append([]MFact(nil), m.fs...), MFact{k, t, nil})
	return &r
}

// pathCalls lists the calls of a function on the way to the current event.
func (m *Mon) pathCalls(name string) []*Event {
	var r []*Event
	for _, ev := range m.path() {
		if ev.Kind == "call" && ev.Name == name {
			r = append(r, ev)
		}
	}
	if m.at != nil {
		for _, ed := range m.at.out {
			for i, ev := range ed.evs {
				if ev == m.ev && i == m.evi {
					for _, x := range ed.evs[:i] {
						if x.Kind == "call" && x.Name == name {
							r = append(r, x)
						}
					}
				}
			}
		}
	}
	return r
}

// connField is the field of pg.Conn with the network connection.
func (p *Program) connField() string {
	if f := p.fn("pkg/pg", "Conn", "Unwrap"); f != nil {
		if st, ok := derefType(f.Params[0].Type()).Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if types.Identical(st.Field(i).Type(), f.Signature.Results().At(0).Type()) {
					return st.Field(i).Name()
				}
			}
		}
	}
	return "conn"
}

// startupRecv: the startup packet is read as a startup frame and decoded as such.
func (c *Check) startupRecv() {
	const rule = "dispatch"
	fn := c.mustFn("pkg/pg", "Conn", "RecvStartupMessage")
	if fn == nil {
		return
	}
	who := fnName(fn)
	c.instance(rule, who)
	e := c.explore(fn, Opts{Prim: c.p.wirePrim})
	ownConn := c.ownConn(fn)
	c.product(e, nil, func(m *Mon, ev *Event) {
		switch {
		case ev.Kind == "call" && ev.Name == pgPath+".ReadStartupFrame":
			if !ownConn(ev.Args[0]) {
				m.fail(rule, who, "reads the packet from %v", ev.Args[0])
			}
			m.set("frame", nil, e.result(ev, 0))
			m.set("ferr", nil, e.result(ev, 1))
		case ev.Kind == "call" && c.p.wirePrim(ev.Fn0()) && ev.Name != pgPath+".ParseStartupMessage":
			m.fail(rule, who, "a startup packet is handled by %s", shortName(ev.Name))
		case ev.Kind == "call" && ev.Name == pgPath+".ParseStartupMessage":
			if n, k := m.isNil(m.get("ferr", nil)); m.get("frame", nil) != unface(ev.Args[0]) || !k || !n {
				m.fail(rule, who, "decodes a packet that may not have been read")
			}
			m.set("parsed", nil, e.result(ev, 0))
			m.set("perr", nil, e.result(ev, 1))
		case ev.Kind == "return":
			n, known := m.isNil(ev.Args[1])
			ok := false
			for _, k := range []string{"ferr", "perr"} {
				if x := m.get(k, nil); x != nil {
					if v, k := m.isNil(x); x == ev.Args[1] || k && !v {
						ok = true
					}
				}
			}
			if (!known || !n) && !ok {
				m.fail(rule, who, "a startup packet is refused although it could be read and decoded")
			}
			if (!known || n) && (m.get("parsed", nil) == nil || unface(ev.Args[0]) != m.get("parsed", nil)) {
				m.fail(rule, who, "returns %v, not the decoded packet", ev.Args[0])
			}
		}
	})
}

// Fn0 is the callee, or a function without a package.
func (ev *Event) Fn0() *ssa.Function {
	if ev.Fn != nil {
		return ev.Fn
	}
	return &ssa.Function{}
}

// checkType: a frame is only decoded after its type byte was found to be the right one.
func (d *decoder) checkType(ev *Event, w *wmsg) {
	if w.start {
		return
	}
	for _, t := range d.m.all("type") {
		if v, ok := d.m.truth(d.e.n.eq(t.a, d.e.n.int(int64(w.typ)))); ok && v {
			return
		}
	}
	d.m.fail("own type only", d.who, "accepts frames without knowing that their type is %q", rune(w.typ))
}

// refusal: an error is returned, which must have a reason that no well-formed message gives.
func (d *decoder) refusal(ev *Event, w *wmsg, errT *Term) {
	m, e := d.m, d.e
	for _, r := range append(append(m.all("rd"), m.all("bust")...), m.all("pend")...) {
		err := r.a
		if err == errT {
			return
		}
		if n, known := m.isNil(err); known && !n {
			return
		}
	}
	if !w.start {
		for _, t := range m.all("type") {
			if v, ok := m.truth(e.n.eq(t.a, e.n.int(int64(w.typ)))); ok && !v {
				return
			}
		}
	}
	p := m.prover()
	zero := linear{c: map[*Term]int64{}, ok: true}
	left := func() *Term { // bytes not read yet
		if b := m.get("buf", nil); b != nil {
			return e.length(ev.St, e.load(ev.St, b, types.NewSlice(byteType)))
		}
		return nil
	}()
	h := len(w.head)
	pos := d.pos()
	if w.loop == "count" && pos >= h {
		n := m.get("v"+itoa(h-1), nil)
		if n != nil && p.proveLT(n, e.n.int(0)) {
			return
		}
		if n != nil && left != nil && pos == h {
			// more elements announced than can follow
			need := zero.add(p.lin(n), minSize(w.body)).add(p.lin(left), -1)
			need.k--
			if p.prove(need) {
				return
			}
		}
		if w.body[0].kind == "size" && pos == h+1 {
			sz := m.get("v"+itoa(h), nil)
			if sz != nil && (p.proveLT(sz, e.n.int(-1)) || left != nil && p.proveLT(left, sz)) {
				return
			}
			if v, ok := m.truth(e.n.eq(sz, e.n.int(-1))); ok && !v && p.proveLT(sz, e.n.int(0)) {
				return
			}
		}
	}
	done := w.loop == "" && pos == h && h > 0 || d.closed(w)
	if left != nil && done && p.proveLT(e.n.int(0), left) {
		return // trailing bytes
	}
	if w.loop == "" && h == 0 {
		for _, b := range m.all("body") {
			if p.proveLT(e.n.int(0), e.length(ev.St, b.a)) {
				return
			}
		}
	}
	not := func(v *Term, codes ...int64) bool {
		for _, k := range codes {
			if t, ok := m.truth(e.n.eq(v, e.n.int(k))); !ok || t {
				return false
			}
		}
		return true
	}
	if v := m.get("v0", nil); v != nil {
		if d.w.typ == 'R' && not(v, sortedCodes()...) {
			if isUnsupported(errT) {
				return
			}
			m.fail("accepts well-formed", d.who, "an unknown authentication method is reported as %v, which makes the message unusable", errT)
			return
		}
		if w.typ == 'Z' && not(v, 'I', 'T', 'E') {
			return
		}
	}
	m.fail("accepts well-formed", d.who, "refuses a message that may be well-formed")
}

func minSize(fs []wfield) int64 {
	n := int64(0)
	for _, x := range fs {
		switch x.kind {
		case "i32", "size":
			n += 4
		case "i16":
			n += 2
		case "byte", "str":
			n++
		}
	}
	return n
}
