package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// encoder compares every path of a Frame method with the layout of its message.
//
// State of the automaton: pos is the number of the next item; cur the content of the buffer after the last write;
// elem the index of the element that is being written; part that the first half of an item is written.
type encoder struct {
	c    *Check
	e    *Exec
	w    *wmsg
	who  string
	self *Term
	m    *Mon
}

func (c *Check) encoder(w *wmsg, fn *ssa.Function) {
	e := c.explore(fn, Opts{Prim: c.p.bufPrim, Havoc: true, Gen: true})
	d := &encoder{c: c, e: e, w: w, who: fnName(fn), self: c.n.param(fn, 0, fn.Params[0])}
	c.product(e, nil, func(m *Mon, ev *Event) {
		d.m = m
		if ev.Kind == "iter" {
			d.finish()
		}
		m.loopStep(ev)
		switch ev.Kind {
		case "iter":
			m.loopIter(ev)
			m.follow(ev, "cur")
		case "call":
			switch {
			case strings.HasPrefix(ev.Name, wbPfx):
				d.write(ev)
			case ev.Name == pgPath+".NewStandardFrame" || ev.Name == pgPath+".NewStartupFrame":
				d.frame(ev)
			}
		case "append":
			d.appendTo(ev)
		case "return":
			c.instance("encode", d.who)
			r := ev.Args[0]
			for r.op == "iface" {
				r = r.args[0]
			}
			if !m.has("frame", r) {
				d.fail("returns %v instead of the frame of the message", r)
			}
		}
	})
}

func (d *encoder) fail(format string, a ...interface{}) {
	d.m.fail("encode", d.who, format, a...)
	d.m.kill()
}

func (d *encoder) pos() int {
	if t := d.m.get("pos", nil); t != nil {
		v, _ := t.intVal()
		return int(v)
	}
	return 0
}

func (d *encoder) setPos(i int) { d.m.set("pos", nil, d.e.n.int(int64(i))) }

func (d *encoder) owner() types.Type { return derefType(d.self.typ) }

// field is the value of a field of the message, or of an element.
func (d *encoder) field(ev *Event, base *Term, typ types.Type, name string) *Term {
	st, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return d.e.load(ev.St, d.e.faddr(base, name, typ), st.Field(i).Type())
		}
	}
	return nil
}

func (d *encoder) list(ev *Event) *Term { return d.field(ev, d.self, d.owner(), d.w.list) }

// write handles a method of the buffer.
func (d *encoder) write(ev *Event) {
	m, e := d.m, d.e
	buf := ev.Args[0]
	bt := derefType(buf.typ)
	if bt == nil {
		bt = types.NewSlice(byteType)
	}
	cur := m.get("cur", nil)
	now := m.before(ev, e.load(ev.St, buf, bt))
	if cur == nil && !m.emptySlice(now) || cur != nil && cur != now {
		d.fail("writes to a buffer that does not hold what was written before: %v", now)
		return
	}
	op := strings.TrimPrefix(ev.Name, wbPfx)
	switch op {
	case "WriteInt32", "WriteInt16", "WriteString":
		d.item(ev, op, ev.Args[1])
	case "WriteByte":
		d.item(ev, "byte", ev.Args[1])
	case "WriteBytes":
		d.bytes(ev, ev.Args[1])
	default:
		d.fail("writes with %s", op)
		return
	}
	out := e.n.mk(Term{op: "out", typ: bt, args: []*Term{ev.Res, buf}})
	m.set("cur", nil, out)
}

func (d *encoder) bytes(ev *Event, x *Term) {
	ts := d.e.toks(ev.St, x)
	for _, t := range ts {
		if d.m.dead {
			return
		}
		if t.spread {
			d.item(ev, "bytes", t.t)
		} else {
			d.item(ev, "byte", t.t)
		}
	}
}

func (d *encoder) appendTo(ev *Event) {
	cur := d.m.get("cur", nil)
	if cur == nil || ev.Args[0] != cur {
		return
	}
	d.bytes(ev, ev.Args[1])
	d.m.set("cur", nil, ev.Res)
}

// elem resolves the current element: the value at index base of the list.
func (d *encoder) elemOf(ev *Event, v *Term) bool { // v is list[k], k the number of complete elements
	v = bitsOf(v)
	return v.op == "load" && v.args[0].op == "iaddr" && v.args[0].args[0] == d.list(ev) && d.m.countIs(v.args[0].args[1])
}

// holds: v is the value of a field of the present element (or the element itself).
func (d *encoder) elemField(ev *Event, v *Term, name string) bool {
	v = bitsOf(v)
	if d.w.elem == "" {
		return d.elemOf(ev, v)
	}
	if v.op == "load" && v.args[0].op == "faddr" && v.args[0].aux == name {
		b := v.args[0].args[0]
		return d.elemOf(ev, b)
	}
	return false
}

// item checks one write against the layout. op: WriteInt32 WriteInt16 WriteString byte bytes.
func (d *encoder) item(ev *Event, op string, v *Term) {
	m, e, w := d.m, d.e, d.w
	h, n := len(w.head), len(w.head)+len(w.body)
	pos := d.pos()
	if w.loop != "" && pos == n && !d.terminates(ev, op, v) {
		d.finish()
		pos = d.pos()
	}
	// the terminator of the list
	if (w.loop == "zero" || w.loop == "empty") && (pos == h || pos == n) && d.terminates(ev, op, v) {
		d.finish()
		if m.has("term", nil) {
			d.fail("writes the terminator twice")
			return
		}
		if !m.countReaches(e.length(ev.St, d.list(ev))) {
			d.fail("writes the terminator before all elements")
			return
		}
		m.set("term", nil, nil)
		return
	}
	if m.has("term", nil) {
		d.fail("writes on after the terminator")
		return
	}
	if pos >= n {
		d.fail("writes more than the %d fields of the message", n)
		return
	}
	var it wfield
	inElem := pos >= h
	if inElem {
		it = w.body[pos-h]
	} else {
		it = w.head[pos]
	}
	same := func(v *Term) bool {
		if inElem {
			return d.elemField(ev, v, it.field)
		}
		return bitsOf(v) == bitsOf(d.field(ev, d.self, d.owner(), it.field))
	}
	ok := false
	switch it.kind {
	case "i32":
		ok = op == "WriteInt32" && same(v)
	case "i16":
		ok = op == "WriteInt16" && same(v)
	case "byte":
		ok = op == "byte" && same(v)
	case "const":
		c, k := v.intVal()
		ok = op == "WriteInt32" && k && c == it.val
	case "str":
		switch {
		case op == "WriteString":
			ok = same(v)
		case op == "bytes" && !m.has("part", nil):
			if same(v) {
				m.set("part", nil, nil)
				return
			}
		case op == "byte" && m.has("part", nil):
			c, k := v.intVal()
			ok = k && c == 0
			m.del("part", nil)
		}
	case "count16", "count32":
		want, bits := "WriteInt32", 32
		if it.kind == "count16" {
			want, bits = "WriteInt16", 16
		}
		x := unconv(v, bits)
		ok = op == want && m.sameInt(x, e.length(ev.St, d.list(ev)))
	case "rest":
		ok = op == "bytes" && same(v)
	case "bytes4":
		arr := e.faddr(d.self, it.field, d.owner())
		hi := int64(-1)
		if v.op == "slice" && v.args[0] == arr && v.args[1].op == "nil" {
			hi, _ = v.args[2].intVal()
			if v.args[2].op == "nil" {
				hi = 4
			}
		}
		ok = op == "bytes" && (v == arr || hi == 4 || same(v))
	case "size":
		if op != "WriteInt32" {
			break
		}
		if c, k := v.intVal(); k && c == -1 {
			// the element must be NULL
			for _, x := range m.all("?t") {
				if x.a.op == "eq" && (x.a.args[0].op == "nil" && d.elemOf(ev, x.a.args[1]) || x.a.args[1].op == "nil" && d.elemOf(ev, x.a.args[0])) {
					ok = true
				}
			}
			for x, t := range ev.St.facts {
				if t && x.op == "eq" && (x.args[0].op == "nil" && d.elemOf(ev, x.args[1]) || x.args[1].op == "nil" && d.elemOf(ev, x.args[0])) {
					ok = true
				}
			}
			if !ok {
				d.fail("writes NULL for a value that may be present")
				return
			}
			m.set("null", nil, nil)
			d.setPos(pos + 2)
			return
		}
		x := unconv(v, 32)
		if x.op == "len" && d.elemOf(ev, x.args[0]) {
			nl, known := m.isNil(x.args[0])
			if !known || nl {
				d.fail("writes the length of a value that may be NULL")
				return
			}
			ok = true
		}
	case "sized":
		ok = op == "bytes" && d.elemOf(ev, v)
	}
	if !ok {
		d.fail("field %d (%s %s) is written by %s(%v)", pos, it.kind, it.field, op, v)
		return
	}
	d.setPos(pos + 1)
}

// unconv undoes the conversions of a number that keep at least so many of its bits.
func unconv(t *Term, bits int) *Term {
	for t.op == "conv" && len(t.args) == 1 && typeBits(t.typ) >= bits {
		t = t.args[0]
	}
	return t
}

func (d *encoder) terminates(ev *Event, op string, v *Term) bool {
	c, k := v.intVal()
	return op == "byte" && k && c == 0 && !d.m.has("part", nil)
}

// finish ends the present element.
func (d *encoder) finish() {
	w := d.w
	if w.loop == "" || d.pos() <= len(w.head) {
		return
	}
	if d.pos() != len(w.head)+len(w.body) {
		d.fail("an element ends after %d of its %d fields", d.pos()-len(w.head), len(w.body))
		return
	}
	d.setPos(len(w.head))
	d.m.elementDone()
}

func (d *encoder) frame(ev *Event) {
	m, e, w := d.m, d.e, d.w
	std := strings.HasSuffix(ev.Name, ".NewStandardFrame")
	if std == w.start {
		d.fail("is sent in the wrong kind of frame")
		return
	}
	body := ev.Args[len(ev.Args)-1]
	if std {
		if t, ok := ev.Args[0].intVal(); !ok || t != int64(w.typ) {
			d.fail("is sent with the type byte %v instead of %q", ev.Args[0], w.typ)
			return
		}
	}
	if cur := m.get("cur", nil); cur == nil {
		d.bytes(ev, body)
		if m.dead {
			return
		}
	} else if cur != body {
		d.fail("the body of the frame is %v, not what was written", body)
		return
	}
	d.finish()
	if m.dead {
		return
	}
	if d.pos() != len(w.head) || m.has("part", nil) {
		d.fail("only %d of %d fields are written", d.pos(), len(w.head))
		return
	}
	if w.loop != "" {
		l := e.length(ev.St, d.list(ev))
		if !m.countReaches(l) {
			d.fail("the frame is built before all elements are written")
			return
		}
		if w.start && m.has("term", nil) && !m.prover().proveLT(e.n.int(0), l) {
			d.fail("a packet without parameters gets a terminator")
			return
		}
		if w.loop != "count" && !m.has("term", nil) {
			// a startup packet without parameters does not need the terminator
			if !w.start || !m.prover().proveLE(l, e.n.int(0)) {
				d.fail("the terminator of the list is missing")
				return
			}
		}
	}
	m.set("frame", ev.Res, nil)
}
