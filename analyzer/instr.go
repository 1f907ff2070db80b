package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// simple executes an instruction without control flow. stop: edges were emitted.
func (r *runner) simple(s *State, in ssa.Instruction, site *Site, evs []*Event) ([]*Event, bool) {
	e := r.e
	n := e.n
	f := s.top()
	set := func(t *Term) { f.env[in.(ssa.Value)] = t }

	switch x := in.(type) {
	case *ssa.Alloc:
		t := e.fresh(s, "alloc", site, typeStr(derefType(x.Type())), x.Type())
		// re-executed allocation: a new zeroed object
		for k := range s.mem {
			if rootOf(k) == t || (k.op == "outmark" || k.op == "lenof") && k.args[0] == t {
				delete(s.mem, k)
			}
		}
		evs = r.ev(s, &Event{Kind: "alloc", Site: site, Res: t}, evs)
		set(t)

	case *ssa.MakeSlice:
		l := e.val(s, x.Len)
		c := e.val(s, x.Cap)
		if e.o.Oblig {
			evs = r.oblig(s, site, "make: negative length", n.not(n.lt(l, n.int(0))), evs)
			if c != l {
				evs = r.oblig(s, site, "make: length exceeds capacity", n.not(n.lt(c, l)), evs)
			}
		}
		t := e.fresh(s, "alloc", site, "make "+typeStr(x.Type()), x.Type())
		for k := range s.mem {
			if rootOf(k) == t || (k.op == "outmark" || k.op == "lenof") && k.args[0] == t {
				delete(s.mem, k)
			}
		}
		s.mem[n.mk(Term{op: "lenof", args: []*Term{t}})] = l
		evs = r.ev(s, &Event{Kind: "makeslice", Site: site, Args: []*Term{l, c}, Res: t}, evs)
		set(t)

	case *ssa.MakeChan:
		t := e.fresh(s, "alloc", site, "chan", x.Type())
		evs = r.ev(s, &Event{Kind: "makechan", Site: site, Args: []*Term{e.val(s, x.Size)}, Res: t}, evs)
		set(t)

	case *ssa.MakeMap:
		t := e.fresh(s, "alloc", site, "map", x.Type())
		mev := &Event{Kind: "makemap", Site: site, Res: t}
		if x.Reserve != nil {
			mev.Args = []*Term{e.val(s, x.Reserve)}
		}
		evs = r.ev(s, mev, evs)
		set(t)

	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		args := make([]*Term, len(x.Bindings))
		for i, b := range x.Bindings {
			args[i] = e.val(s, b)
		}
		t := n.mk(Term{op: "closure", fn: fn, args: args})
		evs = r.ev(s, &Event{Kind: "closure", Site: site, Fn: fn, Bind: args, Res: t}, evs)
		set(t)

	case *ssa.MakeInterface:
		v := e.val(s, x.X)
		set(n.mk(Term{op: "iface", typ: x.X.Type(), args: []*Term{v}}))

	case *ssa.ChangeInterface:
		set(e.val(s, x.X))

	case *ssa.ChangeType:
		set(e.val(s, x.X))

	case *ssa.Convert:
		set(n.conv(e.val(s, x.X), x.X.Type(), x.Type()))

	case *ssa.BinOp:
		a, b := e.val(s, x.X), e.val(s, x.Y)
		if e.o.Oblig && (x.Op == token.QUO || x.Op == token.REM) {
			if _, _, ok := typeRange(x.Type()); ok {
				evs = r.oblig(s, site, "division by zero", n.not(n.eq(b, n.int(0))), evs)
			}
		}
		if e.o.Oblig && (x.Op == token.SHL || x.Op == token.SHR) {
			if lo, _, ok := typeRange(x.Y.Type()); ok && lo < 0 {
				evs = r.oblig(s, site, "negative shift", n.not(n.lt(b, n.int(0))), evs)
			}
		}
		typ := x.Type()
		set(n.bin(x.Op.String(), a, b, typ))

	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := e.val(s, x.X)
			if e.o.Oblig {
				evs = r.nilOblig(s, site, a, "nil dereference", evs)
			}
			v := e.load(s, a, x.Type())
			if e.o.Access {
				evs = r.ev(s, &Event{Kind: "load", Site: site, Addr: a, Res: v}, evs)
			}
			set(v)
		case token.ARROW:
			ch := e.val(s, x.X)
			var typ types.Type = x.Type()
			ev := &Event{Kind: "recv", Site: site, Args: []*Term{ch}, Block: true, OK: x.CommaOk}
			ev.St = s.snap()
			if x.CommaOk {
				t := e.fresh(s, "sym", site, "recv", typ)
				ev.Res = t
				evs = append(evs, ev)
				set(t)
			} else {
				t := e.fresh(s, "sym", site, "recv", typ)
				ev.Res = t
				evs = append(evs, ev)
				set(t)
			}
		case token.NOT:
			set(n.not(e.val(s, x.X)))
		case token.SUB:
			set(n.bin("-", n.int(0), e.val(s, x.X), x.Type()))
		default:
			set(n.mk(Term{op: "un", aux: x.Op.String(), typ: x.Type(), args: []*Term{e.val(s, x.X)}}))
		}

	case *ssa.FieldAddr:
		b := e.val(s, x.X)
		owner := derefType(x.X.Type())
		st := owner.Underlying().(*types.Struct)
		if e.o.Oblig {
			evs = r.nilOblig(s, site, b, "field of nil pointer", evs)
		}
		set(e.faddr(b, st.Field(x.Field).Name(), owner))

	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		set(e.field(e.val(s, x.X), st.Field(x.Field).Name(), x.Type()))

	case *ssa.IndexAddr:
		b, i := e.val(s, x.X), e.val(s, x.Index)
		if e.o.Oblig {
			var l *Term
			if a, ok := arrayUnder(x.X.Type()); ok {
				l = n.int(a.Len())
			} else {
				l = e.length(s, b)
			}
			evs = r.oblig(s, site, "index below zero", n.not(n.lt(i, n.int(0))), evs)
			evs = r.oblig(s, site, "index out of range", n.lt(i, l), evs)
		}
		set(e.iaddr(b, i))

	case *ssa.Index:
		b, i := e.val(s, x.X), e.val(s, x.Index)
		if e.o.Oblig {
			var l *Term
			if a, ok := arrayUnder(x.X.Type()); ok {
				l = n.int(a.Len())
			} else {
				l = e.length(s, b)
			}
			evs = r.oblig(s, site, "index below zero", n.not(n.lt(i, n.int(0))), evs)
			evs = r.oblig(s, site, "index out of range", n.lt(i, l), evs)
		}
		if b.op == "array" {
			if c, ok := i.intVal(); ok && int(c) < len(b.args) {
				set(b.args[c])
				break
			}
		}
		set(n.mk(Term{op: "index", typ: x.Type(), args: []*Term{b, i}}))

	case *ssa.Slice:
		b := e.val(s, x.X)
		nl := n.nilT()
		lo, hi, mx := nl, nl, nl
		if x.Low != nil {
			lo = e.val(s, x.Low)
		}
		if x.High != nil {
			hi = e.val(s, x.High)
		}
		if x.Max != nil {
			mx = e.val(s, x.Max)
		}
		arr, isArr := arrayUnder(x.X.Type())
		if e.o.Oblig {
			var l *Term
			if isArr {
				l = n.int(arr.Len())
			} else {
				l = e.length(s, b)
			}
			l0 := lo
			if lo == nl {
				l0 = n.int(0)
			}
			h0 := hi
			if hi == nl {
				h0 = l
			}
			if lo != nl {
				evs = r.oblig(s, site, "slice bound below zero", n.not(n.lt(l0, n.int(0))), evs)
			}
			if lo != nl || hi != nl {
				evs = r.oblig(s, site, "slice bounds out of order", n.not(n.lt(h0, l0)), evs)
			}
			if hi != nl {
				// NB: slices may be extended up to their capacity; proving against the length is stricter
				evs = r.oblig(s, site, "slice bound out of range", n.not(n.lt(l, h0)), evs)
			}
		}
		if !isArr && lo == nl && hi == nl && mx == nl {
			set(b)
			break
		}
		if isArr && lo == nl && hi == nl {
			set(n.mk(Term{op: "slice", typ: x.Type(), args: []*Term{b, nl, n.int(arr.Len())}}))
			break
		}
		set(e.slice(b, lo, hi, x.Type()))

	case *ssa.SliceToArrayPointer:
		set(n.mk(Term{op: "arrptr", typ: x.Type(), args: []*Term{e.val(s, x.X)}}))

	case *ssa.Extract:
		t := e.val(s, x.Tuple)
		if t.op == "tuple" {
			if x.Index < len(t.args) {
				set(t.args[x.Index])
				break
			}
		}
		set(n.mk(Term{op: "ext", aux: fmt.Sprint(x.Index), typ: x.Type(), args: []*Term{t}}))

	case *ssa.Lookup:
		m, k := e.val(s, x.X), e.val(s, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			// string index
			if e.o.Oblig {
				evs = r.oblig(s, site, "index below zero", n.not(n.lt(k, n.int(0))), evs)
				evs = r.oblig(s, site, "index out of range", n.lt(k, e.length(s, m)), evs)
			}
			set(n.mk(Term{op: "index", typ: x.Type(), args: []*Term{m, k}}))
			break
		}
		if tab := e.p.constTable(m); tab != nil {
			return r.tableLookup(s, x, site, tab, m, k, evs)
		}
		ev := &Event{Kind: "mapget", Site: site, Args: []*Term{m, k}}
		ev.St = s.snap()
		if k.op == "ext" && k.aux == "1" && e.overs[k.args[0]] == m && (isParsedQuery(m) && e.p.queriesStay() || sameStep(k.args[0], site, x)) {
			// the value of the entry a loop has arrived at
			mt := x.X.Type().Underlying().(*types.Map)
			v := n.mk(Term{op: "ext", aux: "2", typ: mt.Elem(), args: []*Term{k.args[0]}})
			ev.Res = v
			if x.CommaOk {
				v = n.mk(Term{op: "tuple", typ: x.Type(), args: []*Term{v, n.boolean(true)}})
				ev.Res = v
			}
			evs = append(evs, ev)
			set(v)
			break
		}
		t := e.fresh(s, "sym", site, "lookup", x.Type())
		ev.Res = t
		evs = append(evs, ev)
		set(t)

	case *ssa.MapUpdate:
		m := e.val(s, x.Map)
		if e.o.Oblig {
			evs = r.nilOblig(s, site, m, "write to nil map", evs)
		}
		evs = r.ev(s, &Event{Kind: "mapset", Site: site, Args: []*Term{m, e.val(s, x.Key), e.val(s, x.Value)}}, evs)

	case *ssa.Range:
		t := n.mk(Term{op: "rangeof", typ: x.X.Type(), args: []*Term{e.val(s, x.X)}})
		evs = r.ev(s, &Event{Kind: "range", Site: site, Args: []*Term{e.val(s, x.X)}, Res: t}, evs)
		set(t)

	case *ssa.Next:
		it := e.val(s, x.Iter)
		var over *Term
		if it.op == "rangeof" {
			over = it.args[0]
		}
		ev := &Event{Kind: "next", Site: site, Args: []*Term{it, over}}
		ev.St = s.snap()
		t := e.fresh(s, "sym", site, "next", x.Type())
		ev.Res = t
		evs = append(evs, ev)
		set(t)
		// every value of url.Values made by the library has an element
		if over != nil && !x.IsString {
			if e.overs == nil {
				e.overs = map[*Term]*Term{}
			}
			if o, ok := e.overs[t]; ok && o != over {
				e.overs[t] = nil
			} else {
				e.overs[t] = over
			}
		}
		if isParsedQuery(over) && e.p.queriesStay() {
			mt := over.typ.Underlying().(*types.Map)
			v := n.mk(Term{op: "ext", aux: "2", typ: mt.Elem(), args: []*Term{t}})
			e.assume(s, n.lt(n.int(0), n.mk(Term{op: "len", typ: types.Typ[types.Int], args: []*Term{v}})), true)
		}

	case *ssa.TypeAssert:
		v := e.val(s, x.X)
		c := n.mk(Term{op: "typeis", typ: x.AssertedType, args: []*Term{v}})
		inner := func() *Term {
			if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				return v
			}
			if v.op == "iface" {
				return v.args[0]
			}
			return n.mk(Term{op: "assert", typ: x.AssertedType, args: []*Term{v}})
		}
		if t := e.p.pooled(x.X); t != nil && types.Identical(t, x.AssertedType) {
			e.assume(s, c, true)
		}
		if !x.CommaOk {
			if e.o.Oblig {
				evs = r.oblig(s, site, "type assertion", c, evs)
			}
			set(inner())
			break
		}
		if k, known := e.decide(s, c); known {
			if k {
				set(n.mk(Term{op: "tuple", args: []*Term{inner(), n.boolean(true)}}))
			} else {
				set(n.mk(Term{op: "tuple", args: []*Term{n.zero(x.AssertedType), n.boolean(false)}}))
			}
			break
		}
		for _, ok := range []bool{true, false} {
			s2 := s.clone()
			ev2 := append([]*Event(nil), evs...)
			ev2 = r.ev(s2, &Event{Kind: "branch", Site: site, Cond: c, Truth: ok}, ev2)
			e.assume(s2, c, ok)
			if ok {
				s2.top().env[x] = n.mk(Term{op: "tuple", args: []*Term{inner(), n.boolean(true)}})
			} else {
				s2.top().env[x] = n.mk(Term{op: "tuple", args: []*Term{n.zero(x.AssertedType), n.boolean(false)}})
			}
			s2.top().pc++
			r.goTo(s2, ev2)
		}
		return evs, true

	case *ssa.Store:
		a, v := e.val(s, x.Addr), e.val(s, x.Val)
		if e.o.Oblig {
			evs = r.nilOblig(s, site, a, "nil dereference", evs)
		}
		ev := &Event{Kind: "store", Site: site, Addr: a, Val: v}
		evs = r.ev(s, ev, evs)
		e.store(s, a, v)

	case *ssa.Send:
		ch := e.val(s, x.Chan)
		evs = r.ev(s, &Event{Kind: "send", Site: site, Args: []*Term{ch, e.val(s, x.X)}, Block: true}, evs)

	default:
		e.fail("unsupported instruction %T at %s", in, e.p.pos(in.Pos()))
		if v, ok := in.(ssa.Value); ok {
			f.env[v] = e.fresh(s, "sym", site, "unsupported", v.Type())
		}
	}
	return evs, false
}

func arrayUnder(t types.Type) (*types.Array, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	a, ok := t.Underlying().(*types.Array)
	return a, ok
}

// sel forks over the cases of a select statement.
func (r *runner) sel(s *State, x *ssa.Select, site *Site, evs []*Event) {
	e := r.e
	n := e.n
	var cases []SelCase
	for _, st := range x.States {
		c := SelCase{Send: st.Dir == types.SendOnly, Ch: e.val(s, st.Chan)}
		if c.Send {
			c.Val = e.val(s, st.Send)
		}
		cases = append(cases, c)
	}
	lo := 0
	if !x.Blocking {
		lo = -1
	}
	tup := x.Type().(*types.Tuple)
	for i := lo; i < len(cases); i++ {
		if i >= 0 && cases[i].Ch.op == "nil" {
			continue // a nil channel is never ready
		}
		s2 := s.clone()
		ev2 := append([]*Event(nil), evs...)
		ev := &Event{Kind: "select", Site: site, Cases: cases, Chosen: i, Block: x.Blocking}
		ev.St = s2.snap()
		args := make([]*Term, tup.Len())
		args[0] = n.int(int64(i))
		base := e.fresh(s2, "sym", site, "recv", x.Type())
		for j := 1; j < tup.Len(); j++ {
			args[j] = e.n.zero(tup.At(j).Type())
		}
		if i >= 0 && !cases[i].Send {
			args[1] = n.mk(Term{op: "ext", aux: "1", typ: tup.At(1).Type(), args: []*Term{base}})
			k := 2
			for j := 0; j < i; j++ {
				if !cases[j].Send {
					k++
				}
			}
			args[k] = n.mk(Term{op: "ext", aux: "0", typ: tup.At(k).Type(), args: []*Term{base}})
			ev.Res = base
		}
		e.refreshShared(s2, base)
		ev2 = append(ev2, ev)
		f := s2.top()
		f.env[x] = n.mk(Term{op: "tuple", args: args})
		f.pc++
		r.goTo(s2, ev2)
	}
	if len(cases) == 0 && x.Blocking {
		evs = r.ev(s, &Event{Kind: "select", Site: site, Block: true, Chosen: -1}, evs)
		r.end(evs)
	}
}

// builtin executes a call of a builtin function.
func (r *runner) builtin(s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
	e := r.e
	n := e.n
	f := s.top()
	set := func(t *Term) {
		if result != nil {
			f.env[result] = t
		}
	}
	arg := func(i int) *Term { return ci.args[i] }

	switch ci.bi {
	case "len":
		set(e.length(s, arg(0)))
	case "cap":
		set(n.mk(Term{op: "cap", typ: types.Typ[types.Int], args: []*Term{arg(0)}}))
	case "append":
		var t *Term
		if len(ci.args) == 1 {
			set(arg(0))
			break
		}
		spread := arg(1)
		el := e.sliceElems(s, spread)
		if el != nil {
			t = n.mk(Term{op: "append", typ: ci.common.Args[0].Type(), args: append([]*Term{arg(0)}, el...)})
			// flatten append(append(x, a), b)
			if b := arg(0); b.op == "append" && b.aux == "" {
				t = n.mk(Term{op: "append", typ: ci.common.Args[0].Type(), args: append(append([]*Term{}, b.args...), el...)})
			}
			if len(el) == 0 {
				t = arg(0)
			}
		} else {
			t = n.mk(Term{op: "append", aux: "...", typ: ci.common.Args[0].Type(), args: []*Term{arg(0), spread}})
		}
		if t.dep > 40 {
			t = e.fresh(s, "sym", ci.site, "append", t.typ)
		}
		evs = r.ev(s, &Event{Kind: "append", Site: ci.site, Args: []*Term{arg(0), spread}, Res: t}, evs)
		set(t)
	case "copy":
		ev := &Event{Kind: "copy", Site: ci.site, Args: ci.args}
		ev.St = s.snap()
		t := e.fresh(s, "sym", ci.site, "copy", types.Typ[types.Int])
		ev.Res = t
		evs = append(evs, ev)
		e.copyTo(s, arg(0), arg(1), t)
		set(t)
	case "delete":
		evs = r.ev(s, &Event{Kind: "mapdel", Site: ci.site, Args: ci.args, Defer: isDefer}, evs)
	case "close":
		if e.o.Oblig {
			evs = r.nilOblig(s, ci.site, arg(0), "close of nil channel", evs)
		}
		evs = r.ev(s, &Event{Kind: "close", Site: ci.site, Args: ci.args, Defer: isDefer}, evs)
	case "min", "max":
		set(e.fresh(s, "sym", ci.site, ci.bi, result.Type()))
	case "ssa:wrapnilchk":
		set(arg(0))
	case "clear":
		evs = r.ev(s, &Event{Kind: "mapclear", Site: ci.site, Args: ci.args}, evs)
	default:
		ev := &Event{Kind: "call", Site: ci.site, Name: "builtin." + ci.bi, Args: ci.args, Defer: isDefer}
		ev.St = s.snap()
		var typ types.Type
		if result != nil {
			typ = result.Type()
		}
		t := e.fresh(s, "sym", ci.site, ci.bi, typ)
		ev.Res = t
		evs = append(evs, ev)
		set(t)
	}
	return evs, false
}

// sliceElems lists the elements of a slice over a local array (variadic arguments), nil if unknown.
func (e *Exec) sliceElems(s *State, t *Term) []*Term {
	if t.op == "nil" {
		return []*Term{}
	}
	if t.op != "slice" {
		return nil
	}
	root := t.args[0]
	if root.op != "alloc" || t.args[1].op != "nil" {
		return nil
	}
	el := derefType(root.typ)
	if el == nil {
		return nil
	}
	a, ok := el.Underlying().(*types.Array)
	if !ok || a.Len() > 64 {
		return nil
	}
	if hi, ok := t.args[2].intVal(); ok && hi != a.Len() {
		return nil
	}
	out := make([]*Term, a.Len())
	for i := range out {
		out[i] = e.load(s, e.iaddr(root, e.n.int(int64(i))), a.Elem())
	}
	return out
}

// copyTo models copy(dst, src): the destination object holds the source from now on.
func (e *Exec) copyTo(s *State, dst, src, res *Term) {
	root := rootOf(dst)
	d := dst
	for d.op == "slice" && d.args[1].op == "nil" {
		d = d.args[0]
	}
	for k := range s.mem {
		if under(k, d) {
			delete(s.mem, k)
		}
	}
	if d.op == "faddr" || d.op == "alloc" {
		s.mem[d] = e.n.mk(Term{op: "copied", args: []*Term{dst, src}})
		return
	}
	if root.op != "alloc" {
		return
	}
	off, fixed := int64(0), dst.op == "slice" && dst.args[0] == root
	if fixed {
		off, fixed = dst.args[1].intVal()
	}
	for k := range s.mem {
		if k.op == "iaddr" && k.args[0] == root {
			if i, ok := k.args[1].intVal(); !ok || !fixed || i >= off {
				delete(s.mem, k)
			}
		}
	}
	if fixed && dst.args[2].op == "nil" {
		res = e.n.mk(Term{op: "tail", args: []*Term{e.n.int(off), src}})
	}
	s.mem[outMark(e.n, root)] = res
}

// tableLookup forks over the entries of a constant table.
func (r *runner) tableLookup(s *State, x *ssa.Lookup, site *Site, tab *table, m, k *Term, evs []*Event) ([]*Event, bool) {
	e := r.e
	n := e.n
	emit := func(s2 *State, ev2 []*Event, v *Term, ok bool) {
		f := s2.top()
		if x.CommaOk {
			f.env[x] = n.mk(Term{op: "tuple", args: []*Term{v, n.boolean(ok)}})
		} else {
			f.env[x] = v
		}
		f.pc++
		r.goTo(s2, ev2)
	}
	rest := s.clone()
	restEv := append([]*Event(nil), evs...)
	for _, ent := range tab.entries {
		c := n.eq(k, ent.key)
		v, known := e.decide(rest, c)
		if known && !v {
			continue
		}
		s2 := rest.clone()
		ev2 := append([]*Event(nil), evs...)
		ev2 = r.ev(s2, &Event{Kind: "branch", Site: site, Cond: c, Truth: true}, ev2)
		e.assume(s2, c, true)
		emit(s2, ev2, ent.val, true)
		if known && v {
			return evs, true
		}
		restEv = r.ev(rest, &Event{Kind: "branch", Site: site, Cond: c, Truth: false}, restEv)
		e.assume(rest, c, false)
	}
	emit(rest, restEv, n.zero(tab.elem), false)
	return evs, true
}

// isParsedQuery: the parameters of a URL as the library parsed them.
func isParsedQuery(t *Term) bool {
	if t == nil || t.typ == nil {
		return false
	}
	if _, ok := t.typ.Underlying().(*types.Map); !ok {
		return false
	}
	if t.op == "ext" {
		t = t.args[0]
	}
	return t.op == "sym" && (strings.HasPrefix(t.aux, "net/url.ParseQuery") || strings.HasPrefix(t.aux, "(*net/url.URL).Query"))
}

// queriesStay: nothing in the program changes url.Values.
func (p *Program) queriesStay() bool {
	if p.parsed == "" {
		p.parsed = "yes"
		is := func(v ssa.Value) bool {
			m, ok := v.Type().Underlying().(*types.Map)
			return ok && types.Identical(m.Elem().Underlying(), stringSlice)
		}
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.MapUpdate:
						if is(x.Map) {
							p.parsed = "no"
						}
					case ssa.CallInstruction:
						callee := x.Common().StaticCallee()
						if callee != nil && callee.Pkg != nil && (callee.Name() == "Get" || callee.Name() == "Has" || callee.Name() == "Encode") {
							continue
						}
						for _, a := range x.Common().Args {
							if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "len" {
								continue
							}
							if is(a) && (callee == nil || callee.Pkg == nil || !strings.HasPrefix(callee.Pkg.Pkg.Path(), modPath)) {
								p.parsed = "no"
							}
						}
					}
				}
			}
		}
	}
	return p.parsed == "yes"
}

// sameStep: the lookup belongs to the step of the iteration that found its key, and nothing happens in between that
// could change a map.
func sameStep(next *Term, at *Site, x *ssa.Lookup) bool {
	if next.site == nil || next.site.ctx != at.ctx {
		return false
	}
	nx, ok := next.site.in.(*ssa.Next)
	if !ok || nx.Parent() != x.Parent() {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, i int) bool
	back = func(b *ssa.BasicBlock, i int) bool {
		for ; i >= 0; i-- {
			switch y := b.Instrs[i].(type) {
			case *ssa.Next:
				if y == nx {
					return true
				}
			case *ssa.Call:
				if bi, ok := y.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
					break
				}
				// what writes to the log or formats does not change maps
				if g := y.Call.StaticCallee(); g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "fmt" && !strings.HasSuffix(g.Pkg.Pkg.Path(), "/logrus") {
					return false
				}
			case *ssa.MapUpdate:
				if types.Identical(y.Map.Type().Underlying(), x.X.Type().Underlying()) {
					return false
				}
			case *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Defer, *ssa.RunDefers:
				return false
			case *ssa.UnOp:
				if y.Op == token.ARROW {
					return false
				}
			}
		}
		if len(b.Preds) == 0 {
			return false
		}
		for _, p := range b.Preds {
			if seen[p] {
				continue
			}
			seen[p] = true
			if !back(p, len(p.Instrs)-1) {
				return false
			}
		}
		return true
	}
	for i, in := range x.Block().Instrs {
		if in == ssa.Instruction(x) {
			return back(x.Block(), i-1)
		}
	}
	return false
}
