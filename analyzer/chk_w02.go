package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkFns["W02"] = checkW02 }

// W02: the primitives of the buffers. Every path of each method is compared with the wire encoding it stands for.
func checkW02(c *Check) {
	for _, r := range []struct {
		name string
		kind string
		size int
	}{
		{"ReadBytes", "bytes", 0}, {"ReadByte", "byte", 1}, {"ReadInt32", "int", 4}, {"ReadInt16", "int", 2},
		{"ReadString", "string", 0}, {"ReadInt32Array", "array", 4}, {"ReadInt16Array", "array", 2},
	} {
		if fn := c.mustFn("pkg/pg", "ReadBuffer", r.name); fn != nil {
			c.readPrim(fn, r.kind, r.size)
		}
	}
	if fn := c.mustFn("pkg/pg", "ReadBuffer", "Len"); fn != nil {
		c.lenPrim(fn)
	}
	for _, w := range []struct {
		name string
		kind string
		size int
	}{
		{"WriteBytes", "bytes", 0}, {"WriteByte", "byte", 1}, {"WriteInt32", "int", 4}, {"WriteInt16", "int", 2},
		{"WriteString", "string", 0}, {"WriteInt32Array", "array", 4}, {"WriteInt16Array", "array", 2},
	} {
		if fn := c.mustFn("pkg/pg", "WriteBuffer", w.name); fn != nil {
			c.writePrim(fn, w.kind, w.size)
		}
	}
	if fn := c.mustFn("pkg/pg", "WriteBuffer", "Len"); fn != nil {
		c.lenPrim(fn)
	}
	c.floor("read", 7, "read primitives")
	c.floor("write", 7, "write primitives")
}

func (c *Check) lenPrim(fn *ssa.Function) {
	e := c.explore(fn, Opts{})
	self := c.n.param(fn, 0, fn.Params[0])
	old := e.load(e.Init[0].st, self, derefType(self.typ))
	c.product(e, nil, func(m *Mon, ev *Event) {
		if ev.Kind != "return" {
			return
		}
		c.instance("length", fnName(fn))
		if !m.sameInt(ev.Args[0], e.length(ev.St, old)) {
			m.fail("length", fnName(fn), "returns %v instead of the number of bytes in the buffer", ev.Args[0])
		}
		if m.e.load(ev.St, self, derefType(self.typ)) != old {
			m.fail("length", fnName(fn), "changes the buffer")
		}
	})
}

// isPart: t is base[lo:hi] (hi nil: to the end).
func (m *Mon) isPart(t, base, lo, hi *Term) bool {
	b, l, h := m.e.sliceParts(t)
	if b != base {
		return false
	}
	n := m.e.length(m.ev.St, base)
	if h == nil {
		h = n
	}
	if hi == nil {
		hi = n
	}
	return m.sameInt(l, lo) && m.sameInt(h, hi)
}

func (c *Check) readPrim(fn *ssa.Function, kind string, size int) {
	const rule = "read"
	who := fnName(fn)
	e := c.explore(fn, Opts{Gen: true})
	c.total(rule, fn)
	self := c.n.param(fn, 0, fn.Params[0])
	old := e.load(e.Init[0].st, self, derefType(self.typ))
	var arg *Term
	if len(fn.Params) > 1 {
		arg = c.n.param(fn, 1, fn.Params[1])
	}
	bitsAt := func(m *Mon, v, off *Term) bool { // v is the integer at old[off:off+size]
		v = bitsOf(v)
		if v.op != "be" || v.aux != itoa(8*size) {
			return false
		}
		return m.isPart(v.args[0], old, off, e.n.bin("+", off, e.n.int(int64(size)), off.typ))
	}
	times := func(t *Term) *Term { return e.n.bin("*", t, e.n.int(int64(size)), arg.typ) }
	c.product(e, nil, func(m *Mon, ev *Event) {
		m.loopStep(ev)
		switch ev.Kind {
		case "iter":
			m.loopIter(ev)
		case "call":
			if ev.Name == "bytes.IndexByte" {
				if v, ok := ev.Args[1].intVal(); ok && v == 0 && ev.Args[0] == old {
					m.set("zero", ev.Res, nil)
				}
			}
		case "branch":
			// a search for the terminator byte by byte
			if x := ev.Cond; kind == "string" && x.op == "eq" {
				for i := 0; i < 2; i++ {
					b, z := x.args[i], x.args[1-i]
					if v, k := z.intVal(); k && v == 0 && b.op == "load" && b.args[0].op == "iaddr" && b.args[0].args[0] == old && m.countIs(b.args[0].args[1]) {
						if ev.Truth {
							m.set("zero", b.args[0].args[1], nil)
						} else {
							m.elementDone()
						}
					}
				}
			}
		case "append":
			if kind == "array" {
				// the array is collected by appending
				cur := m.get("arr", nil)
				if cur == nil && m.emptySlice(ev.Args[0]) || cur == ev.Args[0] {
					el := e.sliceElems(ev.St, ev.Args[1])
					if len(el) == 1 && c.elemAt(m, el[0], bitsAt, size) {
						m.elementDone()
						m.set("arr", nil, ev.Res)
					} else {
						m.fail(rule, who, "appends %v to the array", ev.Args[1])
					}
				}
			}
		case "store":
			if kind == "array" && ev.Addr.op == "iaddr" && ev.Addr.args[0].op == "alloc" && !isArrayPtr(ev.Addr.args[0].typ) {
				a := ev.Addr.args[0]
				if !m.countIs(ev.Addr.args[1]) || !c.elemAt(m, ev.Val, bitsAt, size) {
					m.fail(rule, who, "element %v of the array is set to %v", ev.Addr.args[1], ev.Val)
				}
				if g := m.get("arr", nil); g != nil && g != a {
					m.fail(rule, who, "elements go to different arrays")
				}
				m.set("arr", nil, a)
				m.elementDone()
			}
		case "return":
			c.instance(rule, who)
			cur := e.load(ev.St, self, derefType(self.typ))
			res, err := ev.Args[0], ev.Args[1]
			n, known := m.isNil(err)
			if !known {
				m.fail(rule, who, "cannot tell whether the read failed")
				return
			}
			if !n {
				if kind == "array" && m.prover().contradicts(e.length(ev.St, cur)) {
					return // checked before
				}
				p := m.prover()
				if cur != old && !(cur.op == "slice" && cur.args[0] == old && cur.args[2].op == "nil" && p.proveLE(cur.args[1], e.n.int(0))) {
					m.fail(rule, who, "a failed read advances the buffer")
				}
				l := e.length(ev.St, old)
				ok := false
				switch kind {
				case "bytes":
					ok = p.proveLT(arg, e.n.int(0)) || p.proveLT(l, arg)
				case "byte", "int":
					ok = p.proveLT(l, e.n.int(int64(size)))
				case "array":
					ok = p.proveLT(arg, e.n.int(0)) || p.proveLT(l, times(arg)) || p.proveLT(e.n.bin("/", l, e.n.int(int64(size)), arg.typ), arg)
				case "string":
					ok = m.countReaches(l)
					for _, f := range m.all("zero") {
						if p.proveLT(f.a, e.n.int(0)) {
							ok = true
						}
					}
				}
				if !ok {
					m.fail(rule, who, "fails although the buffer may hold enough bytes")
				}
				return
			}
			var used *Term
			ok := false
			switch kind {
			case "bytes":
				used = arg
				ok = m.isPart(res, old, e.n.int(0), arg)
			case "byte":
				used = e.n.int(1)
				ok = res.op == "load" && res.args[0] == e.iaddr(old, e.n.int(0))
			case "int":
				used = e.n.int(int64(size))
				ok = bitsAt(m, res, e.n.int(0))
			case "string":
				for _, f := range m.all("zero") {
					if m.prover().proveLE(e.n.int(0), f.a) {
						used = e.n.bin("+", f.a, e.n.int(1), f.a.typ)
						ok = res.op == "conv" && res.aux == "string" && m.isPart(res.args[0], old, e.n.int(0), f.a)
					}
				}
				if used == nil {
					m.fail(rule, who, "returns a string without having found its terminator")
					return
				}
			case "array":
				used = times(arg)
				a := m.get("arr", nil)
				ok = m.countReaches(arg) && (a == nil || a == res)
				if l := e.length(ev.St, res); res.op == "alloc" {
					ok = ok && m.sameInt(l, arg)
				} else if a == nil {
					ok = ok && m.emptySlice(res)
				}
			}
			if !ok {
				m.fail(rule, who, "the value returned, %v, is not the decoding of the next bytes", res)
			}
			if !m.isPart(cur, old, used, nil) {
				m.fail(rule, who, "the buffer is not advanced past exactly the bytes read: it is %v", cur)
			}
		}
		m.follow(ev, "arr")
	})
}

// isArrayPtr: an array of constant size, such as the arguments of append.
func isArrayPtr(t types.Type) bool {
	if t = derefType(t); t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Array)
	return ok
}

// elemAt: v is the element of the array with the number of elements completed so far as its index.
func (c *Check) elemAt(m *Mon, v *Term, bitsAt func(*Mon, *Term, *Term) bool, size int) bool {
	x := bitsOf(v)
	if x.op != "be" {
		return false
	}
	_, lo, _ := m.e.sliceParts(x.args[0])
	p := m.prover()
	for _, k := range m.counts(p) {
		l := linear{c: map[*Term]int64{}, ok: true}.add(p.lin(lo), k.by).add(k.l, -int64(size))
		if len(l.c) == 0 && l.k == 0 && bitsAt(m, v, lo) {
			return true
		}
	}
	return false
}

// tok is a piece of encoded output.
type tok struct {
	t      *Term
	spread bool
}

// toks lists the pieces a byte slice consists of.
func (e *Exec) toks(s *State, t *Term) []tok {
	switch {
	case t.op == "nil" || t.op == "const" && t.val == nil:
		return nil
	case t.op == "append" && t.aux == "":
		r := e.toks(s, t.args[0])
		for _, a := range t.args[1:] {
			r = append(r, tok{a, false})
		}
		return r
	case t.op == "append":
		return append(append([]tok(nil), e.toks(s, t.args[0])...), e.toks(s, t.args[1])...)
	case t.op == "conv" && (t.aux == "[]byte" || t.aux == "string" || t.aux == "[]uint8"):
		return e.toks(s, t.args[0])
	case t.op == "const":
		if v, ok := t.strVal(); ok {
			var r []tok
			for i := 0; i < len(v); i++ {
				r = append(r, tok{e.n.int(int64(v[i])), false})
			}
			return r
		}
	case t.op == "alloc":
		if v, ok := e.length(s, t).intVal(); ok && v <= 64 {
			var r []tok
			for i := int64(0); i < v; i++ {
				r = append(r, tok{e.load(s, e.iaddr(t, e.n.int(i)), byteType), false})
			}
			return r
		}
		// bytes stored one by one, then the rest copied
		if m := s.mem[outMark(e.n, t)]; m != nil && m.op == "tail" {
			off, _ := m.args[0].intVal()
			p := e.newProver(s)
			whole := e.n.bin("+", e.length(s, m.args[1]), m.args[0], types.Typ[types.Int])
			if off > 64 || !p.proveLE(whole, e.length(s, t)) || !p.proveLE(e.length(s, t), whole) {
				break
			}
			for k := range s.mem {
				if k.op == "iaddr" && k.args[0] == t {
					if i, ok := k.args[1].intVal(); !ok || i >= off {
						return []tok{{t, true}}
					}
				}
			}
			var r []tok
			for i := int64(0); i < off; i++ {
				v, ok := s.mem[e.iaddr(t, e.n.int(i))]
				if !ok {
					return []tok{{t, true}}
				}
				r = append(r, tok{v, false})
			}
			return append(r, e.toks(s, m.args[1])...)
		}
	case t.op == "slice":
		if el := e.sliceElems(s, t); el != nil {
			var r []tok
			for _, x := range el {
				r = append(r, tok{x, false})
			}
			return r
		}
		// a whole array
		if t.args[1].op == "nil" && t.args[2].op != "nil" {
			if h, ok := t.args[2].intVal(); ok {
				if n, ok := e.length(s, t.args[0]).intVal(); ok && n == h && t.args[0].op != "alloc" {
					return []tok{{t.args[0], true}}
				}
			}
		}
	}
	return []tok{{t, true}}
}

func byteTok(e *Exec, v *Term, shift int) tok { return tok{e.n.byteOf(v, shift), false} }

func intToks(e *Exec, v *Term, size int) []tok {
	var r []tok
	for i := size - 1; i >= 0; i-- {
		r = append(r, byteTok(e, v, 8*i))
	}
	return r
}

func sameTok(a, b tok) bool {
	if a.spread != b.spread {
		return false
	}
	if a.t == b.t {
		return true
	}
	x, ok1 := a.t.intVal()
	y, ok2 := b.t.intVal()
	return ok1 && ok2 && x == y
}

func sameToks(a, b []tok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameTok(a[i], b[i]) {
			return false
		}
	}
	return true
}

func tokString(ts []tok) string {
	var s []string
	for _, t := range ts {
		if t.spread {
			s = append(s, t.t.String()+"...")
		} else {
			s = append(s, t.t.String())
		}
	}
	return "[" + strings.Join(s, " ") + "]"
}

// total: a primitive does not panic, whatever it is asked for and whatever the buffer holds.
func (c *Check) total(rule string, fn *ssa.Function) {
	e := c.explore(fn, Opts{Oblig: true})
	strided := map[*Term]bool{} // variables that advance by more than one: their relation to the length is a matter of divisibility
	for _, nd := range e.Nodes {
		for _, ed := range nd.out {
			for _, ev := range ed.evs {
				if ev.Kind == "iter" && isNumTerm(ev.Res) && isNumTerm(ev.Val) && ev.Val != e.n.bin("+", ev.Res, e.n.int(1), ev.Res.typ) && ev.Addr == ev.Res {
					strided[ev.Res] = true
				}
			}
		}
	}
	for _, nd := range e.Nodes {
		for _, ed := range nd.out {
			for _, ev := range ed.evs {
				switch {
				case ev.Kind == "oblig" && !ev.OK && !(ev.Cond != nil && ev.Cond.mentions(strided)):
					c.violate(rule, evFn(ev)+" "+ev.What, ev.Pos(), "neither succeeds nor fails: "+e.describe(ev)+" is not known to hold", nil)
				case ev.Kind == "panic":
					c.violate(rule, evFn(ev)+" panic", ev.Pos(), "neither succeeds nor fails: "+e.describe(ev), nil)
				}
			}
		}
	}
}

func (c *Check) writePrim(fn *ssa.Function, kind string, size int) {
	const rule = "write"
	who := fnName(fn)
	e := c.explore(fn, Opts{Gen: true})
	c.total(rule, fn)
	self := c.n.param(fn, 0, fn.Params[0])
	arg := c.n.param(fn, 1, fn.Params[1])
	old := e.load(e.Init[0].st, self, derefType(self.typ))
	elem := func(m *Mon, v *Term) bool { // v is arr[k] for the present k
		v = bitsOf(v)
		return v.op == "load" && v.args[0].op == "iaddr" && v.args[0].args[0] == arg && m.countIs(v.args[0].args[1])
	}
	c.product(e, nil, func(m *Mon, ev *Event) {
		m.loopStep(ev)
		m.follow(ev, "buf")
		switch ev.Kind {
		case "iter":
			m.loopIter(ev)
		case "call":
			if kind != "array" || !strings.Contains(ev.Name, "Endian") {
				return
			}
			if !strings.HasSuffix(ev.Name, "bigEndian).PutUint"+itoa(8*size)) {
				if !strings.Contains(ev.Name, "Put") {
					return
				}
				m.fail(rule, who, "elements are encoded by %s", ev.Name)
				return
			}
			dst, v := ev.Args[len(ev.Args)-2], ev.Args[len(ev.Args)-1]
			base, lo, _ := e.sliceParts(dst)
			if m.has("taken", base) {
				m.fail(rule, who, "the bytes of %v are stored after the array was appended to the buffer", v)
				return
			}
			if m.e.length(ev.St, base).op == "const" {
				return // the encoding of one element, appended afterwards
			}
			p := m.prover()
			pos := false
			for _, k := range m.counts(p) {
				if l := (linear{c: map[*Term]int64{}, ok: true}).add(p.lin(lo), k.by).add(k.l, -int64(size)); len(l.c) == 0 && l.k == 0 {
					pos = true
				}
			}
			if !pos || !elem(m, v) {
				m.fail(rule, who, "the bytes of %v are stored at offset %v", v, lo)
			}
			if a := m.get("arr", nil); a != nil && a != base {
				m.fail(rule, who, "elements go to different arrays")
			}
			m.set("arr", nil, base)
			m.elementDone()
		case "append":
			if kind != "array" {
				return
			}
			cur := m.get("buf", nil)
			if cur == nil {
				cur = old
			}
			if ev.Args[0] != cur {
				return
			}
			if base, _, _ := e.sliceParts(ev.Args[1]); base.op == "alloc" {
				m.set("taken", base, nil)
			}
			ts := e.toks(ev.St, ev.Args[1])
			if len(ts) == size && !ts[0].spread {
				// one element
				el := ts[0].t
				ok := el.op == "byteof" && elem(m, el.args[0]) && sameToks(ts, intToks(e, el.args[0], size))
				if !ok {
					m.fail(rule, who, "appends %s", tokString(ts))
				}
				m.elementDone()
				m.set("buf", nil, ev.Res)
			}
		case "return":
			c.instance(rule, who)
			cur := e.load(ev.St, self, derefType(self.typ))
			if kind == "array" {
				ok := m.countReaches(e.length(ev.St, arg))
				if b := m.get("buf", nil); b != nil {
					ok = ok && cur == b
				} else {
					x := cur
					empty := x == old
					if x.op == "append" && x.aux == "..." && x.args[0] == old {
						a := m.get("arr", nil)
						l := e.length(ev.St, x.args[1])
						ok = ok && (a == nil || a == x.args[1]) && m.sameInt(l, e.n.bin("*", e.length(ev.St, arg), e.n.int(int64(size)), l.typ))
					} else {
						p := m.prover()
						ok = ok && empty && p.proveLE(e.length(ev.St, arg), e.n.int(0))
					}
				}
				if !ok {
					m.fail(rule, who, "the buffer ends up as %v", cur)
				}
				return
			}
			var want []tok
			switch kind {
			case "bytes":
				want = []tok{{arg, true}}
			case "byte":
				want = []tok{{arg, false}}
			case "int":
				want = intToks(e, arg, size)
			case "string":
				want = []tok{{arg, true}, {e.n.int(0), false}}
			}
			got := e.toks(ev.St, cur)
			if len(got) == 0 || got[0].t != old || !sameToks(got[1:], want) {
				m.fail(rule, who, "appends %s instead of %s", tokString(got), tokString(want))
			}
		}
	})
}

// mentions: the term, or a part of it, is one of the set.
func (t *Term) mentions(set map[*Term]bool) bool {
	if set[t] {
		return true
	}
	for _, a := range t.args {
		if a != nil && a.mentions(set) {
			return true
		}
	}
	return false
}
