package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// deferred is a deferred call with its evaluated operands.
type deferred struct {
	ci callInfo
}

type callInfo struct {
	site   *Site
	common *ssa.CallCommon
	static *ssa.Function // resolved callee (source or external)
	bind   []*Term       // closure bindings
	method *types.Func   // unresolved interface method
	bi     string        // builtin name
	dyn    *Term         // unresolved function value
	args   []*Term       // includes the receiver
}

// Frame is an inlined activation.
type Frame struct {
	ctx     *Ctx
	fn      *ssa.Function
	block   *ssa.BasicBlock
	pc      int
	env     map[ssa.Value]*Term
	defers  []deferred
	bindTo  ssa.Value                           // value of the caller that receives the result (nil: dropped)
	onceKey *Term                               // set when the frame is the body of a sync.Once
	heads   map[*ssa.BasicBlock]map[*Term]*Term // memory at the last visit of a loop header, for widening
}

// State is an abstract state: inlined stack, memory and path facts.
type State struct {
	frames []*Frame
	mem    map[*Term]*Term
	facts  map[*Term]bool
	epoch  *Term
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	c := &State{epoch: s.epoch, frames: make([]*Frame, len(s.frames)), mem: make(map[*Term]*Term, len(s.mem)), facts: make(map[*Term]bool, len(s.facts))}
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		if f.heads != nil {
			g.heads = make(map[*ssa.BasicBlock]map[*Term]*Term, len(f.heads))
			for k, v := range f.heads {
				g.heads[k] = v
			}
		}
		c.frames[i] = &g
	}
	for k, v := range s.mem {
		c.mem[k] = v
	}
	for k, v := range s.facts {
		c.facts[k] = v
	}
	return c
}

// snap is a light copy (no frames) for queries by monitors.
func (s *State) snap() *State {
	c := &State{epoch: s.epoch, mem: make(map[*Term]*Term, len(s.mem)), facts: make(map[*Term]bool, len(s.facts))}
	for k, v := range s.mem {
		c.mem[k] = v
	}
	for k, v := range s.facts {
		c.facts[k] = v
	}
	return c
}

// allTerms calls f on every term referenced by the stack.
func (s *State) stackTerms(f func(*Term)) {
	for _, fr := range s.frames {
		for _, t := range fr.env {
			f(t)
		}
		for _, b := range fr.ctx.binds() {
			f(b)
		}
		if fr.onceKey != nil {
			f(fr.onceKey)
		}
		for _, d := range fr.defers {
			for _, a := range d.ci.args {
				f(a)
			}
			for _, a := range d.ci.bind {
				f(a)
			}
			if d.ci.dyn != nil {
				f(d.ci.dyn)
			}
		}
	}
	if s.epoch != nil {
		f(s.epoch)
	}
}

func (c *Ctx) binds() []*Term { return nil }

func (s *State) mentions(t *Term) bool {
	found := false
	chk := func(x *Term) {
		if !found && x != nil && x.hasLeaf(t) {
			found = true
		}
	}
	s.stackTerms(chk)
	for k, v := range s.mem {
		chk(k)
		chk(v)
	}
	for k := range s.facts {
		chk(k)
	}
	return found
}

// rename substitutes leaf from by to in the whole state, merging with what is known about to.
func (n *interner) rename(s *State, from, to *Term) {
	for k := range s.facts {
		if k.hasLeaf(to) {
			delete(s.facts, k)
		}
	}
	sub := func(t *Term) *Term { return n.subst(t, from, to) }
	for _, fr := range s.frames {
		for k, t := range fr.env {
			fr.env[k] = sub(t)
		}
		fr.onceKey = sub(fr.onceKey)
		for h, m := range fr.heads {
			nm := make(map[*Term]*Term, len(m))
			for k, v := range m {
				nm[sub(k)] = sub(v)
			}
			fr.heads[h] = nm
		}
		for i := range fr.defers {
			ci := fr.defers[i].ci
			ci.args = subAll(n, ci.args, from, to)
			ci.bind = subAll(n, ci.bind, from, to)
			ci.dyn = sub(ci.dyn)
			fr.defers[i].ci = ci
		}
	}
	s.epoch = sub(s.epoch)
	nm := make(map[*Term]*Term, len(s.mem))
	var ks []*Term
	for k := range s.mem {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		v := sub(s.mem[k])
		nk := sub(k)
		if old, ok := nm[nk]; ok && old != v {
			v = n.mk(Term{op: "weak", args: []*Term{nk}})
		} else if nk != k && s.mem[nk] != nil && s.mem[nk] != v {
			v = n.mk(Term{op: "weak", args: []*Term{nk}})
		}
		nm[nk] = v
	}
	s.mem = nm
	nf := make(map[*Term]bool, len(s.facts))
	for k, v := range s.facts {
		nk := sub(k)
		if nk.op == "const" {
			continue
		}
		nf[nk] = v
	}
	s.facts = nf
}

func subAll(n *interner, ts []*Term, from, to *Term) []*Term {
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = n.subst(t, from, to)
	}
	return out
}

// gc drops dead values, unreachable memory and facts about them.
func (e *Exec) gc(s *State) {
	for _, fr := range s.frames {
		live := map[ssa.Value]bool{}
		for _, v := range e.p.liveAt(fr.block, fr.pc) {
			live[v] = true
		}
		for _, v := range e.loopPhis(fr.block) {
			live[v] = true
		}
		for k := range fr.env {
			if !live[k] {
				delete(fr.env, k)
			}
		}
	}
	reach := map[*Term]bool{}
	add := func(t *Term) {
		if t == nil {
			return
		}
		for _, l := range t.leaf {
			reach[l] = true
		}
	}
	s.stackTerms(add)
	for t := range e.kept {
		add(t)
	}
	for _, t := range e.pinned {
		add(t)
	}
	kept := map[*Term]bool{}
	for changed := true; changed; {
		changed = false
		for k, v := range s.mem {
			if kept[k] {
				continue
			}
			ok := true
			for _, l := range k.leaf {
				if (l.op == "alloc" || l.op == "sym" || l.op == "loopvar") && !reach[l] {
					ok = false
					break
				}
			}
			if ok {
				kept[k] = true
				changed = true
				add(v)
			}
		}
	}
	for k := range s.mem {
		if !kept[k] {
			delete(s.mem, k)
		}
	}
	for k := range s.facts {
		for _, l := range k.leaf {
			if (l.op == "alloc" || l.op == "sym" || l.op == "loopvar") && !reach[l] {
				delete(s.facts, k)
				break
			}
		}
	}
}

func (e *Exec) key(s *State) string {
	var sb strings.Builder
	for _, fr := range s.frames {
		fmt.Fprintf(&sb, "F%d.%d.%d[", fr.ctx.id, fr.block.Index, fr.pc)
		num := e.p.numbering(fr.fn)
		var vs []ssa.Value
		for v := range fr.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return num[vs[i]] < num[vs[j]] })
		for _, v := range vs {
			fmt.Fprintf(&sb, "%d=%d,", num[v], fr.env[v].id)
		}
		sb.WriteByte(']')
		if fr.onceKey != nil {
			fmt.Fprintf(&sb, "o%d", fr.onceKey.id)
		}
		for _, d := range fr.defers {
			fmt.Fprintf(&sb, "D%d(", d.ci.site.id)
			for _, a := range d.ci.args {
				fmt.Fprintf(&sb, "%d,", a.id)
			}
			for _, a := range d.ci.bind {
				fmt.Fprintf(&sb, "b%d,", a.id)
			}
			if d.ci.dyn != nil {
				fmt.Fprintf(&sb, "d%d,", d.ci.dyn.id)
			}
			sb.WriteByte(')')
		}
	}
	if s.epoch != nil {
		fmt.Fprintf(&sb, "E%d", s.epoch.id)
	}
	sb.WriteString("|M")
	for _, k := range sortedKeys(s.mem) {
		fmt.Fprintf(&sb, "%d=%d,", k.id, s.mem[k].id)
	}
	sb.WriteString("|C")
	for _, k := range sortedKeys(s.facts) {
		fmt.Fprintf(&sb, "%d=%v,", k.id, s.facts[k])
	}
	return sb.String()
}

func sortedKeys[V any](m map[*Term]V) []*Term {
	ks := make([]*Term, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

// ---- term constructors -------------------------------------------------------------------------

func (n *interner) constant(v constant.Value, t types.Type) *Term {
	if v != nil {
		switch v.Kind() {
		case constant.Bool:
			t = types.Typ[types.Bool]
		case constant.String:
			t = types.Typ[types.String]
		case constant.Int:
			t = types.Typ[types.Int]
		}
	}
	return n.mk(Term{op: "const", val: v, typ: t})
}

func (n *interner) boolean(b bool) *Term { return n.constant(constant.MakeBool(b), nil) }
func (n *interner) int(i int64) *Term    { return n.constant(constant.MakeInt64(i), nil) }
func (n *interner) nilT() *Term          { return n.mk(Term{op: "nil"}) }

func (n *interner) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return n.boolean(false)
		case u.Info()&types.IsString != 0:
			return n.constant(constant.MakeString(""), nil)
		case u.Info()&types.IsNumeric != 0:
			return n.int(0)
		}
		return n.nilT()
	case *types.Struct, *types.Array:
		return n.mk(Term{op: "zero", typ: t})
	}
	return n.nilT()
}

func (t *Term) isConst() bool { return t != nil && t.op == "const" && t.val != nil }
func (t *Term) intVal() (int64, bool) {
	if t == nil || t.op != "const" || t.val == nil || t.val.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.val)
}
func (t *Term) boolVal() (bool, bool) {
	if t == nil || t.op != "const" || t.val == nil || t.val.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(t.val), true
}
func (t *Term) strVal() (string, bool) {
	if t == nil || t.op != "const" || t.val == nil || t.val.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(t.val), true
}

func (n *interner) not(t *Term) *Term {
	if b, ok := t.boolVal(); ok {
		return n.boolean(!b)
	}
	if t.op == "not" {
		return t.args[0]
	}
	return n.mk(Term{op: "not", args: []*Term{t}})
}

func (n *interner) eq(a, b *Term) *Term {
	if a == b && a.op != "weak" {
		return n.boolean(true)
	}
	if a.isConst() && b.isConst() && a.val.Kind() == b.val.Kind() {
		return n.boolean(constant.Compare(a.val, tokEQL, b.val))
	}
	if v, ok := b.boolVal(); ok {
		if v {
			return a
		}
		return n.not(a)
	}
	if v, ok := a.boolVal(); ok {
		if v {
			return b
		}
		return n.not(b)
	}
	// interface compared with a concrete value wrapped on both sides
	if a.op == "iface" && b.op == "iface" {
		if a.typ != nil && b.typ != nil && !types.Identical(a.typ, b.typ) {
			return n.boolean(false)
		}
		return n.eq(a.args[0], b.args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return n.mk(Term{op: "eq", args: []*Term{a, b}})
}

func (n *interner) lt(a, b *Term) *Term {
	if a == b {
		return n.boolean(false)
	}
	if a.isConst() && b.isConst() && a.val.Kind() == b.val.Kind() {
		return n.boolean(constant.Compare(a.val, tokLSS, b.val))
	}
	return n.mk(Term{op: "lt", args: []*Term{a, b}})
}
