package main

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkFns["W01"] = checkW01 }

// wfield is one item of a message body.
type wfield struct {
	kind  string // i32 i16 byte str bytes4 rest count16 count32 const; size sized (a nullable value)
	field string
	val   int64 // const
}

// wmsg is the layout of a message according to the PostgreSQL v3 protocol.
type wmsg struct {
	name  string // type of the message
	typ   byte
	head  []wfield
	loop  string // count: as often as the count says; zero, empty: up to a zero byte, an empty string
	body  []wfield
	elem  string // struct type of the elements
	list  string // field with the elements
	start bool   // startup packet: no type byte, the list may be missing
}

func f(kind, field string) wfield { return wfield{kind: kind, field: field} }

var wireMsgs = []wmsg{
	{name: "BackendKeyDataMessage", typ: 'K', head: []wfield{f("i32", "ProcessID"), f("i32", "Key")}},
	{name: "CommandCompleteMessage", typ: 'C', head: []wfield{f("str", "Tag")}},
	{name: "DataRowMessage", typ: 'D', head: []wfield{f("count16", "")}, loop: "count", body: []wfield{f("size", ""), f("sized", "")}, list: "Values"},
	{name: "EmptyQueryResponseMessage", typ: 'I'},
	{name: "ErrorResponseMessage", typ: 'E', loop: "zero", body: []wfield{f("byte", "Type"), f("str", "Value")}, elem: "MessageField", list: "Fields"},
	{name: "NoticeResponseMessage", typ: 'N', loop: "zero", body: []wfield{f("byte", "Type"), f("str", "Value")}, elem: "MessageField", list: "Fields"},
	{name: "NegotiateProtocolVersionMessage", typ: 'v', head: []wfield{f("i32", "SupportedProtocolVersion"), f("count32", "")}, loop: "count", body: []wfield{f("str", "")}, list: "UnrecognizedOptions"},
	{name: "ParameterStatusMessage", typ: 'S', head: []wfield{f("str", "Name"), f("str", "Value")}},
	{name: "PasswordMessage", typ: 'p', head: []wfield{f("str", "Password")}},
	{name: "QueryMessage", typ: 'Q', head: []wfield{f("str", "Query")}},
	{name: "ReadyForQueryMessage", typ: 'Z', head: []wfield{f("byte", "TxStatus")}},
	{name: "RowDescriptionMessage", typ: 'T', head: []wfield{f("count16", "")}, loop: "count", elem: "FieldDescriptor", list: "Fields",
		body: []wfield{f("str", "Name"), f("i32", "TableOID"), f("i16", "ColumnIndex"), f("i32", "DataTypeOID"), f("i16", "DataTypeSize"), f("i32", "DataTypeModifier"), f("i16", "Format")}},
	{name: "TerminateMessage", typ: 'X'},
	{name: "StartupMessage", start: true, head: []wfield{f("i32", "ProtocolVersion")}, loop: "empty", body: []wfield{f("str", "Name"), f("str", "Value")}, elem: "StartupMessageParameter", list: "Parameters"},
}

// authMsgs are the authentication requests by status code.
var authMsgs = map[int64]*wmsg{
	0: authMsg(0, "AuthenticationOkMessage"),
	2: authMsg(2, "AuthenticationKerberosV5Message"),
	3: authMsg(3, "AuthenticationCleartextPasswordMessage"),
	5: authMsg(5, "AuthenticationMD5PasswordMessage", f("bytes4", "Salt")),
	6: authMsg(6, "AuthenticationSCMCredentialMessage"),
	7: authMsg(7, "AuthenticationGSSMessage"),
	8: authMsg(8, "AuthenticationGSSContinueMessage", f("rest", "Data")),
	9: authMsg(9, "AuthenticationSSPIMessage"),
}

func authMsg(code int64, name string, fs ...wfield) *wmsg {
	return &wmsg{name: name, typ: 'R', head: append([]wfield{{kind: "const", val: code}}, fs...)}
}

const (
	rbPfx = "(*" + pgPath + ".ReadBuffer)."
	wbPfx = "(*" + pgPath + ".WriteBuffer)."
)

// bufPrims are the methods of the two buffers, whose own behaviour W02 decides.
var bufPrims = map[string]bool{
	"ReadBytes": true, "ReadByte": true, "ReadInt32": true, "ReadInt16": true, "ReadString": true, "ReadInt32Array": true, "ReadInt16Array": true,
	"WriteBytes": true, "WriteByte": true, "WriteInt32": true, "WriteInt16": true, "WriteString": true, "WriteInt32Array": true, "WriteInt16Array": true,
}

func (p *Program) bufPrim(fn *ssa.Function) bool {
	if pk, n := recvNamed(fn); pk == pgPath && (n == "ReadBuffer" || n == "WriteBuffer") {
		return bufPrims[fn.Name()]
	}
	return fn.String() == pgPath+".NewStandardFrame" || fn.String() == pgPath+".NewStartupFrame"
}

func checkW01(c *Check) {
	c.eachDecoder(func(w *wmsg, fn *ssa.Function) {
		c.decoder(w, fn, "layout")
	})
	for i := range wireMsgs {
		if fn := c.mustFn("pkg/pg", wireMsgs[i].name, "Frame"); fn != nil {
			c.encoder(&wireMsgs[i], fn)
		}
	}
	for _, code := range sortedCodes() {
		if fn := c.mustFn("pkg/pg", authMsgs[code].name, "Frame"); fn != nil {
			c.encoder(authMsgs[code], fn)
		}
	}
	if fn := c.mustFn("pkg/pg", "", "ParseGenericMessage"); fn != nil {
		c.genericDecoder(fn)
	}
	if fn := c.mustFn("pkg/pg", "GenericMessage", "Frame"); fn != nil {
		c.genericEncoder(fn)
	}
	c.codes()
	c.floor("decode", 15, "decoders")
	c.floor("encode", 22, "encoders")
}

// protocolCodes are the values that the names of fields of errors and notices, of states of a transaction and of data
// formats stand for.
var protocolCodes = map[string]int64{
	"MessageFieldSeverityLocalized": 'S', "MessageFieldSeverity": 'V', "MessageFieldCode": 'C', "MessageFieldMessage": 'M',
	"MessageFieldDetail": 'D', "MessageFieldHint": 'H', "MessageFieldPosition": 'P', "MessageFieldInternalPosition": 'p',
	"MessageFieldInternalQuery": 'q', "MessageFieldWhere": 'W', "MessageFieldSchema": 's', "MessageFieldTable": 't',
	"MessageFieldColumn": 'c', "MessageFieldDataType": 'd', "MessageFieldConstraint": 'n', "MessageFieldFile": 'F',
	"MessageFieldLine": 'L', "MessageFieldRoutine": 'R',
	"TxStatusIdle": 'I', "TxStatusActive": 'T', "TxStatusFailed": 'E',
	"DataFormatText": 0, "DataFormatBinary": 1,
}

// codes: the names of codes stand for those of the protocol.
func (c *Check) codes() {
	pk := c.p.ByRel["pkg/pg"]
	if pk == nil {
		return
	}
	for n, want := range protocolCodes {
		x, ok := pk.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			continue
		}
		c.instance("code", n)
		if v, ok := constant.Int64Val(constant.ToInt(x.Val())); !ok || v != want {
			c.violate("code", x.Name(), x.Pos(), "stands for "+x.Val().String()+", not for "+strconv.FormatInt(want, 10)+" like in the protocol", nil)
		}
	}
}

func sortedCodes() []int64 { return []int64{0, 2, 3, 5, 6, 7, 8, 9} }

func (c *Check) eachDecoder(do func(w *wmsg, fn *ssa.Function)) {
	for i := range wireMsgs {
		if fn := c.mustFn("pkg/pg", "", "Parse"+wireMsgs[i].name); fn != nil {
			do(&wireMsgs[i], fn)
		}
	}
	if fn := c.mustFn("pkg/pg", "", "ParseAuthenticationRequestMessage"); fn != nil {
		do(&wmsg{name: "AuthenticationRequestMessage", typ: 'R', head: []wfield{f("i32", "")}}, fn)
	}
}

// decoder compares every path of a decoder with the layout of its message.
//
// State of the automaton: pos is the number of the next item (items of the loop follow those of the head); rd(r) a read
// that was done; v<i> the value of item i; slot(list)=element the place where the present element was put;
// fld:<name>(p) a field of the element p.
type decoder struct {
	c    *Check
	e    *Exec
	w    *wmsg
	who  string
	mode string // layout or accept
	m    *Mon

	maybe *Term // the error returned, on a path that stands for success and failure
}

func (c *Check) decoder(w *wmsg, fn *ssa.Function, mode string) {
	e := c.explore(fn, Opts{Prim: c.p.bufPrim, Havoc: true, Gen: true})
	d := &decoder{c: c, e: e, w: w, who: fnName(fn), mode: mode}
	frame := c.n.param(fn, 0, fn.Params[0])
	c.product(e, nil, func(m *Mon, ev *Event) {
		d.m = m
		if ev.Kind == "iter" && !d.keyOnly() {
			d.finish(ev)
		}
		m.loopStep(ev)
		switch ev.Kind {
		case "branch":
			for _, b := range m.all("bust") {
				if n, known := m.isNil(b.a); known && n {
					m.kill() // the error of a read that failed is not nil
					return
				}
			}
			for _, b := range m.all("pend") {
				if n, known := m.isNil(b.a); known {
					m.del("pend", b.a)
					if !n {
						m.set("bust", b.a, nil)
					}
				}
			}
		case "iter":
			m.loopIter(ev)
			m.followKey(ev, "bust")
			m.followKey(ev, "pend")
			for _, k := range []string{"list", "cur"} {
				m.follow(ev, k)
			}
			if w := d.layout(); d.keyOnly() {
				m.followKey(ev, "rd")
				m.follow(ev, "v"+itoa(len(w.head)))
			}
		case "call":
			switch {
			case ev.Method != nil && ev.Args[0] == frame && ev.Method.Name() == "MessageBody":
				m.set("body", ev.Res, nil)
			case ev.Method != nil && ev.Args[0] == frame && ev.Method.Name() == "MessageType":
				m.set("type", ev.Res, nil)
			case strings.HasPrefix(ev.Name, rbPfx):
				d.read(ev)
			}
		case "store":
			d.store(ev)
		case "append":
			d.appendTo(ev)
		case "return":
			d.ret(ev)
		}
	})
	if mode == "layout" {
		c.instance("decode", d.who)
	}
}

func (d *decoder) fail(format string, a ...interface{}) {
	if d.mode == "layout" {
		d.m.fail("decode", d.who, format, a...)
	}
	d.m.kill()
}

// lost reports an element that stays nil.
func (d *decoder) lost(format string, a ...interface{}) {
	if d.mode == "elements" && d.w.elem != "" {
		d.m.fail("elements", d.who, format, a...)
	}
	d.fail(format, a...)
}

func (d *decoder) pos() int {
	if t := d.m.get("pos", nil); t != nil {
		v, _ := t.intVal()
		return int(v)
	}
	return 0
}

func (d *decoder) setPos(i int) { d.m.set("pos", nil, d.e.n.int(int64(i))) }

// layout of the message that is being decoded; an authentication request depends on its status
func (d *decoder) layout() *wmsg {
	if d.w.name != "AuthenticationRequestMessage" || d.pos() == 0 {
		return d.w
	}
	st := d.m.get("v0", nil)
	for _, code := range sortedCodes() {
		if v, ok := d.m.truth(d.e.n.eq(st, d.e.n.int(code))); ok && v {
			return authMsgs[code]
		}
	}
	return d.w
}

// closed: the terminator of the list was read.
func (d *decoder) closed(w *wmsg) bool {
	if w.loop != "zero" && w.loop != "empty" || d.pos() != len(w.head)+1 {
		return false
	}
	z, ok := d.isZero(d.m.get("v"+itoa(len(w.head)), nil), w.loop)
	return ok && z
}

func (d *decoder) isZero(v *Term, loop string) (bool, bool) {
	if v == nil {
		return false, false
	}
	if loop == "zero" {
		if z, ok := d.m.truth(d.e.n.eq(v, d.e.n.int(0))); ok {
			return z, ok
		}
		return d.m.truth(d.e.n.eq(d.e.n.conv(v, byteType, byteType), d.e.n.int(0)))
	}
	if z, ok := d.m.truth(d.e.n.eq(v, d.e.n.zero(types.Typ[types.String]))); ok {
		return z, ok
	}
	l := d.e.length(d.m.ev.St, v)
	p := d.e.newProver(d.m.state())
	if p.proveLE(l, d.e.n.int(0)) {
		return true, true
	}
	if p.proveLT(d.e.n.int(0), l) {
		return false, true
	}
	return false, false
}

func (d *decoder) read(ev *Event) {
	m, e := d.m, d.e
	if d.bust() {
		return
	}
	buf := ev.Args[0]
	bt := derefType(buf.typ)
	if bt == nil {
		bt = types.NewSlice(byteType)
	}
	if b := m.get("buf", nil); b == nil {
		init := e.load(ev.St, buf, bt)
		if !m.has("body", init) {
			d.fail("reads from a buffer that does not start as the body of the frame: %v", init)
			return
		}
		m.set("buf", nil, buf)
	} else if b != buf {
		// a copy of what is left is as good
		if left := e.load(ev.St, b, bt); left == nil || left != e.load(ev.St, buf, bt) {
			d.fail("reads from a second buffer")
			return
		}
		m.clear("buf")
		m.set("buf", nil, buf)
	}
	w := d.layout()
	pos := d.pos()
	if d.closed(w) {
		d.fail("reads on after the terminator")
		return
	}
	if w.loop != "" && pos == len(w.head)+len(w.body) {
		d.finish(ev)
		pos = d.pos()
		if m.dead {
			return
		}
	}
	if pos >= len(w.head)+len(w.body) {
		d.fail("reads more than the %d fields of the message", len(w.head)+len(w.body))
		return
	}
	var it wfield
	if pos < len(w.head) {
		it = w.head[pos]
	} else {
		it = w.body[pos-len(w.head)]
		if pos == len(w.head) && w.loop == "count" {
			if n := m.get("v"+itoa(pos-1), nil); n == nil || !m.countBelow(n) {
				d.fail("reads another element although all elements may have been read")
				return
			}
		}
		if w.start && pos == len(w.head) && !m.has("some", nil) {
			// a request for encryption ends after its code
			left := e.length(ev.St, e.load(ev.St, buf, bt))
			is, known := m.truth(e.n.eq(m.get("v0", nil), e.n.int(80877103)))
			if !m.prover().proveLT(e.n.int(0), left) && !m.differ(left, e.n.int(0)) && !(known && !is) {
				d.fail("asks for parameters although the packet may end without any")
				return
			}
			m.set("some", nil, nil)
		}
		if pos == len(w.head)+1 && (w.loop == "zero" || w.loop == "empty") {
			if z, ok := d.isZero(m.get("v"+itoa(len(w.head)), nil), w.loop); !ok || z {
				d.fail("reads the value of an element without knowing that it is not the terminator")
				return
			}
		}
	}
	op := strings.TrimPrefix(ev.Name, rbPfx)
	ok := false
	switch it.kind {
	case "i32", "count32", "size":
		ok = op == "ReadInt32"
	case "i16", "count16":
		ok = op == "ReadInt16"
	case "byte":
		ok = op == "ReadByte"
	case "str":
		ok = op == "ReadString"
	case "bytes4":
		if op == "ReadBytes" {
			v, k := ev.Args[1].intVal()
			ok = k && v == 4
		}
	case "rest":
		ok = op == "ReadBytes" && m.sameInt(ev.Args[1], e.length(ev.St, e.load(ev.St, buf, bt)))
	case "sized":
		sz := m.get("v"+itoa(pos-1), nil)
		if op == "ReadBytes" && m.sameInt(bitsOf(ev.Args[1]), sz) {
			eq, known := m.truth(e.n.eq(sz, e.n.int(-1)))
			ok = known && !eq || m.prover().proveLE(e.n.int(0), sz)
			if !ok {
				d.fail("reads a value without knowing that it is not NULL")
				return
			}
		}
	}
	if !ok {
		d.fail("reads field %d (%s %s) with %s", pos, it.kind, it.field, op)
		return
	}
	m.set("rd", errOf(e.n, ev.Res), nil)
	m.set("v"+itoa(pos), nil, e.result(ev, 0))
	d.setPos(pos + 1)
}

// finish ends the present element, if there is one.
func (d *decoder) finish(ev *Event) {
	m := d.m
	w := d.layout()
	pos := d.pos()
	h := len(w.head)
	if w.loop == "" || pos <= h || d.closed(w) || d.bust() {
		return
	}
	for _, r := range m.all("rd") {
		if n, known := m.isNil(r.a); known && !n {
			m.set("bust", r.a, nil)
			return
		}
	}
	full := pos == h+len(w.body)
	null := false
	if !full && w.body[0].kind == "size" && pos == h+1 {
		v, ok := m.truth(d.e.n.eq(m.get("v"+itoa(h), nil), d.e.n.int(-1)))
		null = ok && v
		full = null
	}
	if !full {
		d.fail("an element ends after %d of its %d fields", pos-h, len(w.body))
		return
	}
	for _, r := range m.all("rd") {
		if !d.okRead(r.a) {
			m.set("pend", r.a, nil) // decided later, if at all
		}
	}
	el := m.get("slot", nil)
	list := m.get("list", nil)
	switch {
	case null:
		if el != nil && !m.emptySlice(el) {
			d.fail("a NULL value becomes %v", el)
			return
		}
		if el == nil && list != nil && list.op != "alloc" {
			d.fail("a NULL value is left out")
			return
		}
	case el == nil:
		d.lost("an element is read, but not stored")
		return
	case w.elem == "":
		if v := m.get("v"+itoa(pos-1), nil); el != v {
			d.fail("the element stored is %v, not the value read", el)
			return
		}
	default:
		for i, it := range w.body {
			v := m.get("v"+itoa(h+i), nil)
			got := m.get("fld:"+it.field, el)
			if got == nil || bitsOf(got) != bitsOf(v) {
				d.fail("field %s of an element becomes %v instead of the value read", it.field, got)
				return
			}
		}
	}
	for _, r := range m.all("rd") {
		m.del("rd", r.a)
	}
	for i := range w.body {
		m.del("v"+itoa(h+i), nil)
		m.clear("fld:" + w.body[i].field)
	}
	m.del("slot", nil)
	d.setPos(h)
	m.elementDone()
}

// keyOnly: only the first field of an element, which may be the terminator, was read.
func (d *decoder) keyOnly() bool {
	w := d.layout()
	return (w.loop == "zero" || w.loop == "empty") && d.pos() == len(w.head)+1 && !d.closed(w) && !d.m.has("slot", nil)
}

// errOf is the error a call returned last.
func errOf(n *interner, r *Term) *Term {
	tup := r.typ.(*types.Tuple)
	return ext(n, r, tup.Len()-1, tup.At(tup.Len()-1).Type())
}

// okRead: the error of a read is nil.
func (d *decoder) okRead(err *Term) bool {
	if err == d.maybe {
		return true
	}
	n, known := d.m.isNil(err)
	return known && n
}

// bust: a read of an earlier iteration failed, which leaves only the way to the error.
func (d *decoder) bust() bool { return len(d.m.all("bust")) > 0 }

func (d *decoder) inElem() bool {
	w := d.layout()
	if d.bust() {
		return false
	}
	return w.loop != "" && d.pos() > len(w.head) && !d.closed(w)
}

func (d *decoder) store(ev *Event) {
	m := d.m
	a := ev.Addr
	w := d.layout()
	switch {
	case a.op == "faddr" && w.elem != "" && namedOf(a.args[0].typ) == w.elem:
		if d.inElem() {
			m.set("fld:"+a.aux, a.args[0], ev.Val)
		}
	case w.elem != "" && namedOf(a.typ) == w.elem && a.op == "alloc" && ev.Val.op == "struct":
		for i, n := range strings.Split(ev.Val.aux, ",") {
			m.set("fld:"+n, a, ev.Val.args[i])
		}
	case a.op == "iaddr" && w.loop != "" && a.args[0].op == "alloc" && isListType(a.args[0], w):
		if !d.inElem() {
			return
		}
		if !m.countIs(a.args[1]) {
			d.fail("element %v of the list is set while reading another one", a.args[1])
			return
		}
		d.put(a.args[0], ev.Val)
	}
}

// isListType: a slice allocated for the elements.
func isListType(t *Term, w *wmsg) bool {
	return strings.HasPrefix(t.aux, "make ")
}

func (d *decoder) put(list, el *Term) {
	m := d.m
	if l := m.get("list", nil); l != nil && l != list {
		d.fail("elements go to different lists")
		return
	}
	m.set("list", nil, list)
	m.set("slot", nil, el)
}

func (d *decoder) appendTo(ev *Event) {
	m := d.m
	if !d.inElem() {
		return
	}
	l := m.get("list", nil)
	if l == nil && !m.emptySlice(ev.Args[0]) || l != nil && l != ev.Args[0] {
		return
	}
	el := d.e.sliceElems(ev.St, ev.Args[1])
	if len(el) != 1 || m.has("slot", nil) {
		d.fail("appends %v to the list of elements", ev.Args[1])
		return
	}
	m.set("list", nil, ev.Res)
	m.set("slot", nil, el[0])
}

// ret decides the end of a path.
func (d *decoder) ret(ev *Event) {
	m, e := d.m, d.e
	w := d.layout()
	errT := ev.Args[len(ev.Args)-1]
	nilErr, known := m.isNil(errT)
	if !known {
		// the path stands for both outcomes
		d.maybe = errT
		defer func() { d.maybe = nil }()
	}
	if d.mode == "accept" && !(known && nilErr) {
		d.refusal(ev, w, errT)
	}
	if known && !nilErr {
		return
	}
	if d.mode == "accept" {
		d.checkType(ev, w)
		return
	}
	if d.bust() {
		if !d.m.has("bust", errT) {
			d.fail("succeeds although a read has failed")
		}
		return
	}
	d.finish(ev)
	if m.dead {
		return
	}
	pos := d.pos()
	h := len(w.head)
	for _, r := range append(m.all("rd"), m.all("pend")...) {
		if !d.okRead(r.a) {
			d.fail("succeeds although a read may have failed")
			return
		}
	}
	if pos < h {
		if !(pos == h-1 && w.head[pos].kind == "rest") {
			d.fail("succeeds after reading %d of %d fields", pos, h)
			return
		}
	}
	res := ev.Args[0]
	for res.op == "iface" {
		res = res.args[0]
	}
	if res.op != "alloc" || namedOf(res.typ) != w.name {
		d.fail("the result is %v instead of a new %s", res, w.name)
		return
	}
	get := func(field string) *Term {
		st := derefType(res.typ).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == field {
				return e.load(ev.St, e.faddr(res, field, derefType(res.typ)), st.Field(i).Type())
			}
		}
		return e.n.nilT()
	}
	for i, it := range w.head {
		v := m.get("v"+itoa(i), nil)
		switch it.kind {
		case "const", "count16", "count32":
			continue
		}
		got := get(it.field)
		ok := v != nil && bitsOf(got) == bitsOf(v)
		switch it.kind {
		case "bytes4":
			ok = ok || got.op == "copied" && got.args[1] == v
		case "rest":
			if v == nil && m.has("buf", nil) {
				ok = got == e.load(ev.St, m.get("buf", nil), types.NewSlice(byteType))
			}
		}
		if !ok {
			d.fail("field %s becomes %v instead of the value read", it.field, got)
			return
		}
	}
	if w.loop == "" {
		if h == 0 && !d.emptyBody(ev) {
			d.fail("accepts a body although the message has none")
		}
		return
	}
	list := m.get("list", nil)
	got := get(w.list)
	none := list == nil
	switch w.loop {
	case "count":
		n := m.get("v"+itoa(h-1), nil)
		if !m.countReaches(n) {
			d.lost("succeeds before all elements have been read")
			return
		}
		if list == nil && got.op == "alloc" && isListType(got, w) {
			list = got // nothing, or only NULL values
		}
		if list != nil && list.op == "alloc" && !m.sameInt(e.length(ev.St, list), n) {
			d.lost("the list has %v elements instead of %v", e.length(ev.St, list), n)
			return
		}
	default:
		if !d.closed(w) {
			missing := false
			if w.start && pos == h && none {
				p := m.prover()
				if b := m.get("buf", nil); b != nil && p.proveLE(e.length(ev.St, e.load(ev.St, b, types.NewSlice(byteType))), e.n.int(0)) {
					missing = true
				}
			}
			if !missing {
				d.fail("succeeds without having read the terminator")
				return
			}
		}
	}
	if list == nil && !m.emptySlice(got) || list != nil && got != list {
		d.fail("field %s becomes %v instead of the elements read", w.list, got)
	}
}

func (d *decoder) emptyBody(ev *Event) bool {
	p := d.e.newProver(d.m.state())
	for _, b := range d.m.all("body") {
		if p.proveLE(d.e.length(ev.St, b.a), d.e.n.int(0)) {
			return true
		}
	}
	return false
}

func (c *Check) genericDecoder(fn *ssa.Function) {
	e := c.explore(fn, Opts{Prim: c.p.bufPrim, Havoc: true})
	frame := c.n.param(fn, 0, fn.Params[0])
	who := fnName(fn)
	c.product(e, nil, func(m *Mon, ev *Event) {
		switch {
		case ev.Kind == "call" && ev.Method != nil && ev.Args[0] == frame && ev.Method.Name() == "MessageBody":
			m.set("body", ev.Res, nil)
		case ev.Kind == "call" && ev.Method != nil && ev.Args[0] == frame && ev.Method.Name() == "MessageType":
			m.set("type", ev.Res, nil)
		case ev.Kind == "return":
			c.instance("decode", who)
			if n, ok := m.isNil(ev.Args[1]); !ok || !n {
				m.fail("decode", who, "refuses a message of unknown type")
				return
			}
			res := ev.Args[0]
			t := e.load(ev.St, e.faddr(res, "Type", derefType(res.typ)), byteType)
			b := e.load(ev.St, e.faddr(res, "Body", derefType(res.typ)), types.NewSlice(byteType))
			if !m.has("type", t) || !m.has("body", b) && !(b.op == "append" && b.aux == "..." && m.emptySlice(b.args[0]) && m.has("body", b.args[1])) {
				m.fail("decode", who, "the message becomes type %v, body %v", t, b)
			}
		}
	})
}

func (c *Check) genericEncoder(fn *ssa.Function) {
	e := c.explore(fn, Opts{Prim: c.p.bufPrim, Havoc: true})
	self := c.n.param(fn, 0, fn.Params[0])
	who := fnName(fn)
	st := derefType(self.typ)
	c.product(e, nil, func(m *Mon, ev *Event) {
		switch {
		case ev.Kind == "call" && ev.Name == pgPath+".NewStandardFrame":
			if ev.Args[0] == e.load(ev.St, e.faddr(self, "Type", st), byteType) && ev.Args[1] == e.load(ev.St, e.faddr(self, "Body", st), types.NewSlice(byteType)) {
				m.set("frame", ev.Res, nil)
			} else {
				m.fail("encode", who, "the frame is built from type %v and body %v", ev.Args[0], ev.Args[1])
			}
		case ev.Kind == "return":
			c.instance("encode", who)
			r := ev.Args[0]
			for r.op == "iface" {
				r = r.args[0]
			}
			if !m.has("frame", r) {
				m.fail("encode", who, "returns %v", r)
			}
		}
	})
}
