package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checkFns["S01"] = checkS01
	checkFns["S02"] = checkS02
	checkFns["S03"] = checkS03
	checkFns["S04"] = checkS04
	checkFns["S05"] = checkS05
}

const (
	protoV3  = 196608
	sslMagic = 80877103
)

// sessModel is the session as a set of goroutines over connections and queues.
type sessModel struct {
	c       *Check
	start   *ssa.Function
	root    *Thread
	threads []*Thread // goroutines started by Start
	client  string    // field holding the client connection
	stype   types.Type
	self    *Term
	done    map[*Term]int // see doneChans
}

func (c *Check) session() *sessModel {
	s := &sessModel{c: c}
	s.start = c.mustFn("pkg/server", "Session", "Start")
	ctor := c.mustFn("pkg/server", "", "NewSession")
	if s.start == nil || ctor == nil {
		return nil
	}
	s.stype = derefType(s.start.Params[0].Type())
	// the field that NewSession fills with the client's connection
	ce := c.explore(ctor, Opts{})
	ce.eachEvent(func(ev *Event) {
		if ev.Kind != "store" || ev.Addr.op != "faddr" || !types.Identical(ev.Addr.typ, s.stype) {
			return
		}
		if v := ev.Val; v.op == "alloc" && isConnType(v.typ) {
			in := connInner(ce, ev.St, v)
			if in != nil && in.op == "param" {
				s.client = ev.Addr.aux
			}
		}
	})
	if s.client == "" {
		c.undecided("client connection", "cannot tell which field of Session holds the client's connection")
		return nil
	}
	ts := c.threads(s.start, Opts{Prim: c.p.connPrim})
	s.root = ts[0]
	s.threads = ts[1:]
	s.self = c.n.param(s.start, 0, s.start.Params[0])
	return s
}

func isConnType(t types.Type) bool {
	e := derefType(t)
	if e == nil {
		return false
	}
	n, ok := e.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pgPath && n.Obj().Name() == "Conn"
}

// connInner is the network connection wrapped by a pg.Conn created here.
func connInner(e *Exec, s *State, v *Term) *Term {
	st := derefType(v.typ).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if in, ok := s.mem[e.faddr(v, f.Name(), derefType(v.typ))]; ok {
			if in.op == "iface" {
				in = in.args[0]
			}
			return in
		}
	}
	return nil
}

// role tells which peer a pg.Conn belongs to.
func (s *sessModel) role(t *Term) string {
	if b, f, ok := fieldOf(t); ok && b == s.self {
		if f == s.client {
			return "client"
		}
		if isConnType(t.typ) {
			return "db"
		}
	}
	if t.op == "alloc" && isConnType(t.typ) {
		return "db" // created within Start; NewSession created the client's
	}
	return ""
}

// isClosed tells whether t is the channel of the session's closed event.
func (s *sessModel) isClosedCh(t *Term) bool {
	return t != nil && t.op == "done" && rootOfLoad(t.args[0]) == s.self
}

func rootOfLoad(t *Term) *Term {
	for t != nil {
		switch t.op {
		case "load", "faddr":
			t = t.args[0]
		default:
			return t
		}
	}
	return nil
}

func (s *sessModel) isClosedEvent(t *Term) bool { return rootOfLoad(t) == s.self }

func isDial(name string) bool {
	switch name {
	case "net.Dial", "net.DialTimeout", "net.DialTCP", "net.DialUDP", "net.DialUnix", "net.DialIP", "(*net.Dialer).Dial", "(*net.Dialer).DialContext",
		"crypto/tls.Dial", "crypto/tls.DialWithDialer", "(*crypto/tls.Dialer).Dial", "(*crypto/tls.Dialer).DialContext", "database/sql.Open":
		return true
	}
	return strings.HasPrefix(name, "(*net.Dialer).Dial")
}

func ext(n *interner, t *Term, i int, typ types.Type) *Term {
	return n.mk(Term{op: "ext", aux: itoa(i), typ: typ, args: []*Term{t}})
}

// part i of the result tuple of an opaque call
func (e *Exec) result(ev *Event, i int) *Term {
	tup, ok := ev.Res.typ.(*types.Tuple)
	if !ok {
		return ev.Res
	}
	if i < 0 {
		i += tup.Len()
	}
	return ext(e.n, ev.Res, i, tup.At(i).Type())
}

// ---- S01, S02: the handshake ------------------------------------------------------------------

// protocolVersion is the field of a startup message.
func startupField(e *Exec, msg *Term, name string) *Term {
	t := derefType(msg.typ)
	if t == nil {
		return nil
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return e.n.mk(Term{op: "load", typ: st.Field(i).Type(), args: []*Term{e.faddr(msg, name, t)}})
		}
	}
	return nil
}

// configValue tells which key of the configured database URI a term is, if any.
// The monitor facts used: uri(res) = result of ParseDatabaseURI applied to the current configuration's URL;
// val(lookup) = key.
func (s *sessModel) noteConfig(m *Mon, ev *Event) {
	n := m.e.n
	switch ev.Kind {
	case "call":
		switch {
		case ev.Method != nil && ev.Method.Name() == "Get" && strings.HasSuffix(ev.Name, "ConfigStore).Get"):
			m.set("cfg", m.e.result(ev, 0), nil)
		case ev.Fn != nil && objName(ev.Fn) == "(*"+srvPath+".ConfigDistributor).Get":
			m.set("cfg", m.e.result(ev, 0), nil)
		case ev.Fn != nil && ev.Fn.String() == pgPath+".ParseDatabaseURI":
			a := ev.Args[0]
			if b, f, ok := fieldOf(a); ok && f == "DatabaseURL" && m.has("cfg", b) {
				m.set("uri", m.e.result(ev, 0), m.e.result(ev, 1))
			}
		}
	case "mapget":
		if k, ok := ev.Args[1].strVal(); ok && (m.has("uri", ev.Args[0]) || s.cachedParams(ev.Args[0])) {
			// nothing is known about the configured database if its address could not be understood or was never looked at
			if none, known := m.isNil(ev.Args[0]); known && none {
				return
			}
			if err := m.get("uri", ev.Args[0]); err != nil {
				if none, known := m.isNil(err); !known || !none {
					return
				}
			}
			m.set("val", ev.Res, n.mk(Term{op: "const", aux: k}))
		}
	}
}

func (s *sessModel) cachedParams(t *Term) bool {
	b, f, ok := fieldOf(t)
	if !ok || b != s.self {
		return false
	}
	return s.c.paramFields(s)[f]
}

var paramFieldsMemo = map[*Check]map[string]bool{}

// paramFields: fields of the session that only ever hold the translated URI of the current configuration.
func (c *Check) paramFields(s *sessModel) map[string]bool {
	if r, ok := paramFieldsMemo[c]; ok {
		return r
	}
	good, bad := map[string]bool{}, map[string]bool{}
	paramFieldsMemo[c] = good
	explored := map[*ssa.Function]bool{}
	for _, t := range append([]*Thread{s.root}, s.threads...) {
		for f := range t.Exec.inl {
			explored[f] = true
		}
		c.product(t.Exec, nil, func(m *Mon, ev *Event) {
			s.noteConfig(m, ev)
			if ev.Kind == "store" && ev.Addr.op == "faddr" && ev.Addr.args[0] == s.self {
				if m.has("uri", ev.Val) {
					good[ev.Addr.aux] = true
				} else if ev.Val != nil && !s.sameField(ev.Val, ev.Addr) {
					bad[ev.Addr.aux] = true
				}
			}
		})
	}
	// stores in functions that Start does not reach
	for _, fn := range c.p.Funcs {
		if explored[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(derefType(fa.X.Type()), s.stype) {
						if k, isC := st.Val.(*ssa.Const); isC && k.Value == nil {
							continue
						}
						bad[s.stype.Underlying().(*types.Struct).Field(fa.Field).Name()] = true
					}
				}
			}
		}
	}
	for f := range bad {
		delete(good, f)
	}
	return good
}

func (s *sessModel) sameField(v, addr *Term) bool { return v.op == "load" && v.args[0] == addr }

// configKey: the name of the connection parameter that t holds.
func configKey(m *Mon, t *Term) string {
	if k := m.get("val", t); k != nil {
		return k.aux
	}
	if t.op == "ext" && t.aux == "0" {
		if k := m.get("val", t.args[0]); k != nil {
			return k.aux
		}
	}
	return ""
}

// configIs: t is what the configuration holds under the name; nothing if a lookup has just shown that it holds nothing.
func configIs(m *Mon, t *Term, key string) bool {
	if configKey(m, t) == key {
		return true
	}
	if s, ok := t.strVal(); !ok || s != "" {
		return false
	}
	for _, f := range m.all("val") {
		if f.b.aux == key && f.a.op != "ext" {
			if found, known := m.truth(ext(m.e.n, f.a, 1, types.Typ[types.Bool])); known && !found {
				return true
			}
		}
	}
	return false
}

func checkS01(c *Check) {
	c.expl = "Must-precede automaton over all paths of Session.Start (helpers inlined, pg.Conn methods as primitives): a dial requires the path conditions 'protocol version of the last startup packet = 3.0' and " +
		"'its database parameter = database of the configured URI', dials host and port of that URI over tcp; paths without dial end with a non-nil error; no dial is reachable from another entry point; " +
		"GetParameter is shown to return the value of the last parameter of that name."
	c.assume = []string{"ParseDatabaseURI is decided by D01, reading of startup packets by W01 and W03"}
	s := c.session()
	if s == nil {
		return
	}
	c.paramFields(s)
	dialFns := map[*ssa.Function]bool{}
	for _, t := range append([]*Thread{s.root}, s.threads...) {
		t := t
		isRoot := t == s.root
		c.product(t.Exec, nil, func(m *Mon, ev *Event) {
			s.noteConfig(m, ev)
			n := m.e.n
			switch ev.Kind {
			case "call":
				switch connOp(ev) {
				case "RecvStartupMessage":
					m.clear("last")
					m.set("last", m.e.result(ev, 0), m.e.result(ev, 1))
					if s.role(ev.Args[0]) != "client" {
						m.fail("startup source", evFn(ev), "the startup packet is read from %v", ev.Args[0])
					}
				}
				if strings.HasSuffix(ev.Name, "pg.StartupMessage).GetParameter") {
					if k, ok := ev.Args[1].strVal(); ok && k == "database" {
						m.set("dbname", ev.Res, ev.Args[0])
					}
				}
				if strings.HasPrefix(ev.Name, "net.JoinHostPort") {
					m.set("hp", ev.Res, n.mk(Term{op: "tuple", args: []*Term{ev.Args[0], ev.Args[1]}}))
				}
				if strings.HasPrefix(ev.Name, "fmt.Sprintf") {
					if f, ok := ev.Args[0].strVal(); ok && (f == "%s:%s" || f == "%v:%v") {
						if es := m.e.sliceElems(ev.St, ev.Args[1]); len(es) == 2 {
							m.set("hp", ev.Res, n.mk(Term{op: "tuple", args: []*Term{unface(es[0]), unface(es[1])}}))
						}
					}
				}
				if isDial(ev.Name) {
					dialFns[ev.Site.ctx.fn] = true
					c.instance("dial", evFn(ev)+" "+ev.Name)
					s.checkDial(m, ev)
					m.set("dialled", nil, nil)
				}
			case "return":
				if !isRoot || m.has("dialled", nil) {
					return
				}
				c.instance("refusal", "return at "+evFn(ev))
				if b, known := m.isNil(ev.Args[0]); !known || b {
					m.fail("refusal is an error", fnName(s.start), "the session ends without contacting the database and without an error")
				}
			}
		})
	}
	c.floor("dial", 1, "dial sites")
	c.floor("refusal", 1, "refusing returns")

	// no other way to a dial
	callers := c.p.callers()
	for _, fn := range c.p.Funcs {
		if strings.HasPrefix(fnPkg(fn), modPath+"/pkg/pgmeta") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok || !isDial(objName(f)) {
						continue
					}
					c.instance("dial site", fnName(fn))
					if !dialFns[fn] {
						c.violate("only through Start", fnName(fn), in.Pos(), "contacts a network peer outside of Session.Start", nil)
						continue
					}
					for _, r := range rootsOf(callers, fn, s.start) {
						c.violate("only through Start", fnName(r), r.Pos(), "reaches a dial without going through Session.Start", nil)
					}
				}
			}
		}
	}
	c.checkGetParameter()
}

func unface(t *Term) *Term {
	if t.op == "iface" {
		return t.args[0]
	}
	return t
}

func fnPkg(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
	}
	return ""
}

func (s *sessModel) checkDial(m *Mon, ev *Event) {
	c, n := s.c, m.e.n
	name := fnName(s.start)
	last := m.all("last")
	if len(last) != 1 {
		m.fail("dial condition", name, "the database is contacted before a startup packet was received")
		return
	}
	if b, known := m.isNil(last[0].b); !known || !b {
		m.fail("dial condition", name, "the database is contacted although reading the startup packet may have failed")
	}
	v := startupField(m.e, last[0].a, "ProtocolVersion")
	if v == nil {
		c.undecided("protocol version", "the startup message has no ProtocolVersion")
		return
	}
	if b, known := m.truth(n.eq(v, n.int(protoV3))); !known || !b {
		m.fail("dial condition", name, "the database is contacted although the protocol version of the startup packet may not be 3.0")
	}
	okDB := false
	st := m.state()
	for f, tr := range st.facts {
		if f.op != "eq" || !tr {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := f.args[i], f.args[1-i]
			if m.get("dbname", a) == last[0].a && configIs(m, b, "database") {
				okDB = true
			}
		}
	}
	if !okDB {
		m.fail("dial condition", name, "the database is contacted although the requested database may differ from the configured one")
	}
	// address
	args := ev.Args
	for len(args) > 0 {
		if _, ok := args[0].strVal(); ok {
			break
		}
		args = args[1:]
	}
	if len(args) < 2 {
		m.fail("dial address", name, "cannot tell what is dialled")
		return
	}
	if nw, _ := args[0].strVal(); nw != "tcp" && nw != "tcp4" && nw != "tcp6" {
		m.fail("dial address", name, "the network is %q", nw)
	}
	addr := args[1]
	var host, port *Term
	if hp := m.get("hp", addr); hp != nil {
		host, port = hp.args[0], hp.args[1]
	} else if addr.op == "bin" && addr.aux == "+" && addr.args[0].op == "bin" {
		if sep, ok := addr.args[0].args[1].strVal(); ok && sep == ":" {
			host, port = addr.args[0].args[0], addr.args[1]
		}
	}
	if host == nil || !configIs(m, host, "host") || !configIs(m, port, "port") {
		m.fail("dial address", name, "the address %v is not host and port of the configured database", addr)
	}
}

// callers maps each function to the repository functions that call or reference it.
func (p *Program) callers() map[*ssa.Function]map[*ssa.Function]bool {
	r := map[*ssa.Function]map[*ssa.Function]bool{}
	add := func(to, from *ssa.Function) {
		if r[to] == nil {
			r[to] = map[*ssa.Function]bool{}
		}
		r[to][from] = true
	}
	for _, fn := range p.Funcs {
		if fn.Parent() != nil {
			add(fn, fn.Parent())
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					add(p.real(f), fn)
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					// interface call: every implementation in the repository
					for _, impl := range p.implementations(ci.Common().Method) {
						add(impl, fn)
					}
				}
			}
		}
	}
	return r
}

// real sees through bound method wrappers.
func (p *Program) real(f *ssa.Function) *ssa.Function {
	if f.Synthetic != "" {
		if o, ok := f.Object().(*types.Func); ok {
			if g := p.SSA.FuncValue(o); g != nil {
				return g
			}
		}
	}
	return f
}

func (p *Program) implementations(m *types.Func) []*ssa.Function {
	var r []*ssa.Function
	recv := m.Type().(*types.Signature).Recv()
	if recv == nil {
		return nil
	}
	it, ok := recv.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for _, sp := range p.ByRel {
		for _, mem := range sp.Members {
			t, ok := mem.(*ssa.Type)
			if !ok {
				continue
			}
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if _, isI := t.Type().Underlying().(*types.Interface); isI {
					continue
				}
				if types.Implements(tt, it) {
					if f := p.SSA.LookupMethod(tt, m.Pkg(), m.Name()); f != nil {
						r = append(r, p.real(f))
					}
				}
			}
		}
	}
	return r
}

// rootsOf lists the functions without callers from which fn is reachable without passing through stop.
func rootsOf(callers map[*ssa.Function]map[*ssa.Function]bool, fn, stop *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == stop || seen[f] {
			return
		}
		seen[f] = true
		exported := f.Object() != nil && f.Object().Exported()
		if len(callers[f]) == 0 || exported {
			out = append(out, f)
			return
		}
		var cs []*ssa.Function
		for x := range callers[f] {
			cs = append(cs, x)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].Pos() < cs[j].Pos() })
		for _, x := range cs {
			visit(x)
		}
	}
	visit(fn)
	return out
}

// checkGetParameter: the value returned is that of the last parameter with the name asked for. The walk over the
// parameters must compare every element; forward it must be exhausted before the value of the most recent match is
// returned, backward the first match may be returned at once and no match may be replaced by an earlier one.
func (c *Check) checkGetParameter() {
	fn := c.mustFn("pkg/pg", "StartupMessage", "GetParameter")
	if fn == nil {
		return
	}
	const rule = "last parameter"
	e := c.explore(fn, Opts{Access: true, Gen: true})
	self := c.n.param(fn, 0, fn.Params[0])
	name := c.n.param(fn, 1, fn.Params[1])
	// a match is the path condition  Parameters[i].Name == name
	isName := func(cond *Term) (elem *Term) {
		if cond.op != "eq" {
			return nil
		}
		for i := 0; i < 2; i++ {
			if cond.args[i] == name {
				if el, f := elemField(cond.args[1-i]); f == "Name" && rootOfLoad(el.args[0]) == self {
					return el
				}
			}
		}
		return nil
	}
	isLen := func(t *Term) bool { return t.op == "len" && rootOfLoad(t.args[0]) == self }
	dir := 0
	e.eachEvent(func(ev *Event) {
		if ev.Kind != "iter" || !isNumTerm(ev.Res) {
			return
		}
		ph, ok := ev.Site.in.(*ssa.Phi)
		if !ok {
			return
		}
		for i, ed := range ph.Edges {
			if ph.Block().Dominates(ph.Block().Preds[i]) {
				if d, ok := e.step(ed, ph, 0); ok && (d == 1 || d == -1) {
					dir = int(d)
				}
			}
		}
	})
	if dir == 0 {
		c.undecided(rule, "GetParameter does not walk the parameters one by one")
		return
	}
	who := fnName(fn)
	c.product(e, nil, func(m *Mon, ev *Event) {
		switch ev.Kind {
		case "iter":
			if !isNumTerm(ev.Res) {
				return
			}
			if !m.has("compared", nil) {
				m.fail(rule, who, "a parameter is passed over without comparing its name")
			}
			m.del("compared", nil)
			m.del("end", nil)
			if ev.Addr.op != "loopvar" {
				if v, isC := ev.Addr.intVal(); dir > 0 && (!isC || v != 0 && v != -1) {
					m.fail(rule, who, "the walk does not start at the first parameter")
				}
				if dir < 0 && !m.startsAtLen(ev.Addr, isLen) {
					m.fail(rule, who, "the walk does not start at the last parameter")
				}
			}
		case "branch":
			cond, tr := ev.Cond, ev.Truth
			for cond.op == "not" {
				cond, tr = cond.args[0], !tr
			}
			if el := isName(cond); el != nil {
				c.instance(rule, evFn(ev))
				m.set("compared", nil, nil)
				if tr {
					if dir < 0 && m.has("match", nil) {
						m.fail(rule, who, "an earlier parameter is looked at after the last one matched")
					}
					m.set("match", nil, el)
				}
			}
			if cond.op == "lt" {
				if dir > 0 && !tr && isLen(cond.args[1]) {
					m.set("end", nil, nil)
				}
				if z, ok := cond.args[1].intVal(); dir < 0 && ok && z == 0 && tr {
					m.set("end", nil, nil)
				}
				if z, ok := cond.args[0].intVal(); dir < 0 && ok && (z == 0 || z == -1) && !tr {
					m.set("end", nil, nil)
				}
			}
		case "return":
			mt := m.get("match", nil)
			r := ev.Args[0]
			if mt == nil {
				if s, ok := r.strVal(); !ok || s != "" {
					m.fail(rule, who, "%v is returned although no parameter matched", r)
				}
			} else if el, f := elemField(r); f != "Value" || el != mt {
				m.fail(rule, who, "the value returned, %v, is not that of the last match", r)
			}
			if (dir > 0 || mt == nil) && !m.has("end", nil) {
				m.fail(rule, who, "the walk ends before all parameters were compared")
			}
		}
	})
	c.floor(rule, 1, "comparison of parameter names")
}

// startsAtLen: t is len(parameters) or len(parameters)-1.
func (m *Mon) startsAtLen(t *Term, isLen func(*Term) bool) bool {
	l := m.e.newProver(m.ev.St).lin(t)
	if !l.ok || len(l.c) != 1 || l.k != 0 && l.k != -1 {
		return false
	}
	for a, k := range l.c {
		return k == 1 && isLen(a)
	}
	return false
}

// elemField recognises Parameters[i].F (through a pointer or a value); el identifies the element.
func elemField(t *Term) (el *Term, field string) {
	switch t.op {
	case "load":
		a := t.args[0]
		if a.op == "faddr" {
			b := a.args[0]
			switch b.op {
			case "load": // pointer element: *(&params[i])
				if b.args[0].op == "iaddr" {
					return b.args[0], a.aux
				}
			case "iaddr":
				return b, a.aux
			}
		}
	case "field":
		return t.args[0], t.aux
	}
	return nil, ""
}
