package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tokEQL = token.EQL
	tokLSS = token.LSS
)

// Event is something observable on a path: a call of a primitive, a channel operation, a branch ...
type Event struct {
	Kind   string
	Site   *Site
	Name   string // full name of the callee, or of the builtin
	Fn     *ssa.Function
	Method *types.Func
	Args   []*Term
	Res    *Term
	Addr   *Term
	Val    *Term
	Cond   *Term
	Truth  bool
	Cases  []SelCase
	Chosen int // -1: default
	Block  bool
	Bind   []*Term
	OK     bool
	What   string
	St     *State // memory and facts before the event
	Defer  bool
}

type SelCase struct {
	Send bool
	Ch   *Term
	Val  *Term
}

func (ev *Event) Pos() token.Pos {
	if ev.Site == nil {
		return token.NoPos
	}
	return instrPos(ev.Site.in)
}

func instrPos(in ssa.Instruction) token.Pos {
	if p := in.Pos(); p.IsValid() {
		return p
	}
	switch x := in.(type) {
	case *ssa.If:
		if v, ok := x.Cond.(ssa.Instruction); ok {
			return v.Pos()
		}
	case *ssa.Store:
		return x.Val.Pos()
	}
	// nearest instruction of the block with a position
	b := in.Block()
	if b != nil {
		idx := -1
		for i, j := range b.Instrs {
			if j == in {
				idx = i
			}
		}
		for i := idx - 1; i >= 0; i-- {
			if p := b.Instrs[i].Pos(); p.IsValid() {
				return p
			}
		}
		return b.Parent().Pos()
	}
	return token.NoPos
}

// Node is an abstract state at a join point; Edge carries the events between two of them.
type Node struct {
	id    int
	st    *State
	out   []*Edge
	in    []*Edge
	final bool
	fn    *ssa.Function // innermost function, for reports
}

type Edge struct {
	from, to *Node
	evs      []*Event
}

// Spawn is a goroutine started (or callback registered) on some path.
type Spawn struct {
	Kind string // go, errgroup, timer
	Ev   *Event
	Fn   *ssa.Function
	Bind []*Term
	Args []*Term
	Dyn  *Term
	St   *State
}

// Opts tunes an exploration.
type Opts struct {
	Prim     func(fn *ssa.Function) bool // do not inline, emit a call event
	Access   bool                        // emit load/store events of fields
	Oblig    bool                        // emit panic obligations
	MaxNodes int
	Pinned   []*Term
	NoSpawn  bool
	Havoc    bool // a method taken as a primitive leaves its receiver with unknown contents
	Gen      bool // tell values of the previous iteration from older ones
}

// Exec explores one entry point.
type Exec struct {
	p      *Program
	n      *interner
	o      Opts
	Root   *ssa.Function
	Nodes  []*Node
	Init   []*Node
	Spawns []*Spawn
	Errs   []string
	nodeBy map[string]*Node
	work   []*Node
	pinned []*Term
	overs  map[*Term]*Term // what an iteration step goes through
	kept   map[*Term]bool  // buffers given to primitives: automata look at them later
	inl    map[*ssa.Function]bool
	events int
	lp     map[*ssa.BasicBlock][]ssa.Value
	spKey  map[string]bool
	ErrPos []string
}

func newExec(p *Program, n *interner, o Opts) *Exec {
	if o.MaxNodes == 0 {
		o.MaxNodes = 60000
	}
	return &Exec{p: p, n: n, o: o, nodeBy: map[string]*Node{}, inl: map[*ssa.Function]bool{}, spKey: map[string]bool{}, pinned: o.Pinned}
}

func (e *Exec) fail(format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	for _, x := range e.Errs {
		if x == m {
			return
		}
	}
	e.Errs = append(e.Errs, m)
}

// Run explores fn with symbolic parameters.
func (e *Exec) Run(fn *ssa.Function) {
	args := make([]*Term, len(fn.Params))
	for i, p := range fn.Params {
		args[i] = e.n.param(fn, i, p)
	}
	e.RunWith(fn, nil, args, nil)
}

func (n *interner) param(fn *ssa.Function, i int, p *ssa.Parameter) *Term {
	return n.mk(Term{op: "param", aux: p.Name(), typ: p.Type(), obj: p})
}

// RunWith explores fn with the given arguments, closure bindings and initial memory.
func (e *Exec) RunWith(fn *ssa.Function, bind, args []*Term, st *State) {
	if fn == nil || fn.Blocks == nil {
		e.fail("no body to analyse for %v", fn)
		return
	}
	e.Root = fn
	s := &State{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}
	if st != nil {
		c := st.snap()
		s.mem, s.facts, s.epoch = c.mem, c.facts, c.epoch
	}
	ctx := e.n.ctx(nil, nil, fn, fn.String())
	e.push(s, ctx, fn, bind, args, nil)
	nd := e.node(s)
	for _, x := range e.Init {
		if x == nd {
			return
		}
	}
	e.Init = append(e.Init, nd)
	e.loop()
}

func (e *Exec) push(s *State, ctx *Ctx, fn *ssa.Function, bind, args []*Term, bindTo ssa.Value) {
	f := &Frame{ctx: ctx, fn: fn, block: fn.Blocks[0], env: map[ssa.Value]*Term{}, bindTo: bindTo}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(bind) {
			f.env[v] = bind[i]
		} else {
			// a closure analysed by itself: what it captures is unknown
			f.env[v] = e.n.mk(Term{op: "param", aux: v.Name(), typ: v.Type()})
		}
	}
	e.inl[fn] = true
	s.frames = append(s.frames, f)
}

func (e *Exec) node(s *State) *Node {
	e.gc(s)
	k := e.key(s)
	if nd := e.nodeBy[k]; nd != nil {
		return nd
	}
	nd := &Node{id: len(e.Nodes), st: s, fn: s.top().fn}
	e.nodeBy[k] = nd
	e.Nodes = append(e.Nodes, nd)
	e.work = append(e.work, nd)
	return nd
}

func (e *Exec) loop() {
	for len(e.work) > 0 {
		if len(e.Nodes) > e.o.MaxNodes {
			e.fail("state limit of %d exceeded in %s", e.o.MaxNodes, e.Root)
			return
		}
		nd := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		r := &runner{e: e, nd: nd}
		r.run(nd.st.clone(), nil)
	}
}

type runner struct {
	e  *Exec
	nd *Node
}

func (r *runner) edge(to *Node, evs []*Event) {
	ed := &Edge{from: r.nd, to: to, evs: evs}
	r.nd.out = append(r.nd.out, ed)
	if to != nil {
		to.in = append(to.in, ed)
	}
	r.e.events += len(evs)
}

func (r *runner) goTo(s *State, evs []*Event) { r.edge(r.e.node(s), evs) }

func (r *runner) end(evs []*Event) {
	r.edge(nil, evs)
}

// ---- values ------------------------------------------------------------------------------------

func (e *Exec) val(s *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.n.zero(x.Type())
		}
		return e.n.constant(x.Value, x.Type())
	case *ssa.Global:
		return e.n.mk(Term{op: "global", aux: x.Name(), typ: x.Type(), obj: x})
	case *ssa.Function:
		return e.n.mk(Term{op: "func", fn: x, typ: x.Type()})
	case *ssa.Builtin:
		return e.n.mk(Term{op: "builtin", aux: x.Name()})
	}
	if t := s.top().env[v]; t != nil {
		return t
	}
	e.fail("internal: value %s of %s is undefined", v.Name(), s.top().fn)
	return e.n.mk(Term{op: "weak", aux: v.Name()})
}

// fresh makes the result symbol of a site, ageing earlier results of the same site.
func (e *Exec) fresh(s *State, op string, site *Site, aux string, typ types.Type) *Term {
	t := e.n.mk(Term{op: op, aux: aux, typ: typ, site: site})
	if s.mentions(t) {
		old := e.n.mk(Term{op: op, aux: aux + "'", typ: typ, site: site})
		e.n.rename(s, t, old)
	}
	return t
}

func rootOf(addr *Term) *Term {
	for {
		switch addr.op {
		case "faddr", "iaddr", "slice":
			addr = addr.args[0]
		default:
			return addr
		}
	}
}

// faddr is the address of a field; typ is the struct type that owns it.
func (e *Exec) faddr(base *Term, field string, owner types.Type) *Term {
	return e.n.mk(Term{op: "faddr", aux: field, typ: owner, args: []*Term{base}})
}

func (e *Exec) iaddr(base, idx *Term) *Term {
	if base.op == "slice" && len(base.args) >= 2 {
		lo := base.args[1]
		inner := base.args[0]
		if lo == nil || lo.op == "nil" {
			return e.iaddr(inner, idx)
		}
		if c, ok := lo.intVal(); ok && c == 0 {
			return e.iaddr(inner, idx)
		}
		a, ok1 := lo.intVal()
		b, ok2 := idx.intVal()
		if ok1 && ok2 {
			return e.iaddr(inner, e.n.int(a+b))
		}
		return e.iaddr(inner, e.n.bin("+", lo, idx, types.Typ[types.Int]))
	}
	return e.n.mk(Term{op: "iaddr", args: []*Term{base, idx}})
}

func outMark(n *interner, root *Term) *Term {
	return n.mk(Term{op: "outmark", args: []*Term{root}})
}

func derefType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// load reads memory.
func (e *Exec) load(s *State, addr *Term, typ types.Type) *Term {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	// part of a struct or array stored as a whole
	if addr.op == "faddr" {
		if w, ok := s.mem[addr.args[0]]; ok {
			return e.field(w, addr.aux, typ)
		}
	}
	if st, ok := typ.Underlying().(*types.Struct); ok && e.hasPart(s, addr) {
		args := make([]*Term, st.NumFields())
		var names []string
		for i := 0; i < st.NumFields(); i++ {
			args[i] = e.load(s, e.faddr(addr, st.Field(i).Name(), typ), st.Field(i).Type())
			names = append(names, st.Field(i).Name())
		}
		return e.n.mk(Term{op: "struct", aux: strings.Join(names, ","), typ: typ, args: args})
	}
	if at, ok := typ.Underlying().(*types.Array); ok && e.hasPart(s, addr) && at.Len() <= 16 {
		args := make([]*Term, at.Len())
		for i := range args {
			args[i] = e.load(s, e.iaddr(addr, e.n.int(int64(i))), at.Elem())
		}
		return e.n.mk(Term{op: "array", typ: typ, args: args})
	}
	root := rootOf(addr)
	if m, ok := s.mem[outMark(e.n, root)]; ok {
		return e.n.mk(Term{op: "out", typ: typ, args: []*Term{m, addr}})
	}
	if root.op == "alloc" && !strings.HasSuffix(root.aux, "'") {
		if addr.op == "iaddr" {
			// stores with unknown index?
			for k := range s.mem {
				if k.op == "iaddr" && k.args[0] == addr.args[0] {
					if _, ok := k.args[1].intVal(); !ok {
						return e.n.mk(Term{op: "load", typ: typ, args: []*Term{addr}})
					}
				}
			}
			if _, ok := addr.args[1].intVal(); !ok && e.hasPart(s, addr.args[0]) {
				return e.n.mk(Term{op: "load", typ: typ, args: []*Term{addr}})
			}
		}
		return e.n.zero(typ)
	}
	args := []*Term{addr}
	if e.p.mutable(addr) && s.epoch != nil {
		args = append(args, s.epoch)
	}
	return e.n.mk(Term{op: "load", typ: typ, args: args})
}

func (e *Exec) hasPart(s *State, addr *Term) bool {
	for k := range s.mem {
		if (k.op == "faddr" || k.op == "iaddr") && k.args[0] == addr {
			return true
		}
		if k.op == "faddr" || k.op == "iaddr" {
			for x := k; x.op == "faddr" || x.op == "iaddr"; x = x.args[0] {
				if x.args[0] == addr {
					return true
				}
			}
		}
	}
	return false
}

func (e *Exec) field(w *Term, name string, typ types.Type) *Term {
	switch w.op {
	case "struct":
		for i, f := range strings.Split(w.aux, ",") {
			if f == name {
				return w.args[i]
			}
		}
	case "zero":
		return e.n.zero(typ)
	case "load":
		if len(w.args) == 1 {
			return e.n.mk(Term{op: "load", typ: typ, args: []*Term{e.faddr(w.args[0], name, w.typ)}})
		}
	}
	return e.n.mk(Term{op: "field", aux: name, typ: typ, args: []*Term{w}})
}

func under(k, addr *Term) bool {
	for k.op == "faddr" || k.op == "iaddr" {
		k = k.args[0]
		if k == addr {
			return true
		}
	}
	return false
}

// store writes memory.
func (e *Exec) store(s *State, addr, v *Term) {
	for k := range s.mem {
		switch {
		case k == addr:
		case under(k, addr):
			delete(s.mem, k)
		case k.op == "iaddr" && addr.op == "iaddr" && k.args[0] == addr.args[0]:
			_, c1 := k.args[1].intVal()
			_, c2 := addr.args[1].intVal()
			if !c1 || !c2 {
				delete(s.mem, k)
			}
		case k.op == "faddr" && addr.op == "faddr" && k.aux == addr.aux && k.args[0] != addr.args[0]:
			if rootOf(k).op != "alloc" && rootOf(addr).op != "alloc" {
				delete(s.mem, k)
			}
		}
	}
	// storing a part into a whole that is known as one value: split the whole
	if addr.op == "faddr" {
		if w, ok := s.mem[addr.args[0]]; ok {
			delete(s.mem, addr.args[0])
			e.explode(s, addr.args[0], w)
		}
	}
	switch v.op {
	case "struct":
		delete(s.mem, addr)
		e.explode(s, addr, v)
		return
	case "zero":
		if rootOf(addr).op == "alloc" {
			delete(s.mem, addr)
			delete(s.mem, outMark(e.n, addr))
			return
		}
	}
	s.mem[addr] = v
}

func (e *Exec) explode(s *State, addr, w *Term) {
	if w.op == "struct" {
		for i, f := range strings.Split(w.aux, ",") {
			s.mem[e.faddr(addr, f, w.typ)] = w.args[i]
		}
		return
	}
	if w.typ != nil {
		if st, ok := w.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				s.mem[e.faddr(addr, f.Name(), w.typ)] = e.field(w, f.Name(), f.Type())
			}
		}
	}
}

// bin builds (and folds) a binary operation.
func (n *interner) bin(op string, x, y *Term, typ types.Type) *Term {
	switch op {
	case "==":
		return n.eq(x, y)
	case "!=":
		return n.not(n.eq(x, y))
	case "<":
		return n.lt(x, y)
	case ">":
		return n.lt(y, x)
	case "<=":
		return n.not(n.lt(y, x))
	case ">=":
		return n.not(n.lt(x, y))
	}
	if x.isConst() && y.isConst() {
		if v := foldBin(op, x.val, y.val, typ); v != nil {
			return n.constant(v, typ)
		}
	}
	// (a + c1) + c2
	if op == "+" || op == "-" {
		if c, ok := y.intVal(); ok {
			if c == 0 {
				return x
			}
			if op == "-" {
				return n.bin("+", x, n.int(-c), typ)
			}
			if x.op == "bin" && x.aux == "+" {
				if d, ok := x.args[1].intVal(); ok && isSignedWide(typ) {
					return n.bin("+", x.args[0], n.int(c+d), typ)
				}
			}
		} else if _, ok := x.intVal(); ok && op == "+" {
			return n.bin("+", y, x, typ)
		}
	}
	if op == "*" {
		if _, ok := x.intVal(); ok {
			x, y = y, x
		}
		if c, ok := y.intVal(); ok && c == 1 {
			return x
		}
	}
	if op == "|" || op == "^" {
		if c, ok := x.intVal(); ok && c == 0 {
			return y
		}
		if c, ok := y.intVal(); ok && c == 0 {
			return x
		}
	}
	if op == "|" || op == "+" || op == "^" {
		if t := n.composed(op, x, y, typ); t != nil {
			return t
		}
	}
	return n.mk(Term{op: "bin", aux: op, typ: typ, args: []*Term{x, y}})
}

// composed recognises an integer put together from consecutive bytes, most significant first.
func (n *interner) composed(op string, x, y *Term, typ types.Type) *Term {
	w := typeBits(typ)
	if w != 16 && w != 32 && w != 64 {
		return nil
	}
	type part struct{ base, ix *Term }
	parts := map[int64]part{}
	ok := true
	// sh: the bits below t; room: how many bits of t count
	var walk func(t *Term, sh int64, room int)
	walk = func(t *Term, sh int64, room int) {
		if c, isC := t.intVal(); isC && c == 0 || !ok {
			return
		}
		if tw := typeBits(t.typ); tw < room {
			if b, isB := t.typ.Underlying().(*types.Basic); isB && b.Info()&types.IsUnsigned == 0 && tw < 64 {
				ok = false
				return
			}
			room = tw
		}
		add := func(base, ix *Term, sh int64, room int) {
			if _, twice := parts[sh]; twice || sh%8 != 0 || room < 8 {
				ok = false
				return
			}
			parts[sh] = part{base, ix}
		}
		switch {
		case t.op == "bin" && t.aux == op:
			walk(t.args[0], sh, room)
			walk(t.args[1], sh, room)
		case t.op == "bin" && t.aux == "<<":
			d, isC := t.args[1].intVal()
			if !isC || d < 0 || d > 63 {
				ok = false
				return
			}
			walk(t.args[0], sh+d, room-int(d))
		case t.op == "conv" && len(t.args) == 1:
			walk(t.args[0], sh, room)
		case t.op == "load" && t.args[0].op == "iaddr" && typeBits(t.typ) == 8:
			add(t.args[0].args[0], t.args[0].args[1], sh, room)
		case t.op == "be" && t.args[0].op == "slice" && len(t.args[0].args) >= 3:
			sl := t.args[0]
			lo := sl.args[1]
			if lo.op == "nil" {
				lo = n.int(0)
			}
			bs, _ := strconv.Atoi(t.aux)
			for i := 0; i < bs/8; i++ {
				at := int64(bs - 8*(i+1))
				add(sl.args[0], n.bin("+", lo, n.int(int64(i)), types.Typ[types.Int]), sh+at, room-int(at))
			}
		default:
			ok = false
		}
	}
	walk(x, 0, w)
	if ok {
		walk(y, 0, w)
	}
	if !ok || len(parts) < 2 || len(parts) > 8 {
		return nil
	}
	k := int64(len(parts))
	if k != 2 && k != 4 && k != 8 || k*8 > int64(w) {
		return nil
	}
	var base, lo *Term
	for i := int64(0); i < k; i++ {
		t, has := parts[8*(k-1-i)]
		if !has {
			return nil
		}
		b, ix := t.base, t.ix
		if i == 0 {
			base, lo = b, ix
		}
		if b != base || n.bin("+", lo, n.int(i), types.Typ[types.Int]) != ix {
			return nil
		}
	}
	hi := n.bin("+", lo, n.int(k), types.Typ[types.Int])
	if c, isC := lo.intVal(); isC && c == 0 {
		lo = n.nilT()
	}
	v := n.mk(Term{op: "be", aux: itoa(int(8 * k)), typ: uintType(int(8 * k)), args: []*Term{n.mk(Term{op: "slice", typ: base.typ, args: []*Term{base, lo, hi}})}})
	return n.conv(v, uintType(int(8*k)), typ)
}

func isSignedWide(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64)
}

func foldBin(op string, a, b constant.Value, typ types.Type) (res constant.Value) {
	defer func() {
		if recover() != nil {
			res = nil
		}
	}()
	var tk token.Token
	switch op {
	case "+":
		tk = token.ADD
	case "-":
		tk = token.SUB
	case "*":
		tk = token.MUL
	case "&":
		tk = token.AND
	case "|":
		tk = token.OR
	case "^":
		tk = token.XOR
	case "&^":
		tk = token.AND_NOT
	case "/":
		if constant.Sign(b) == 0 {
			return nil
		}
		tk = token.QUO_ASSIGN
	case "%":
		if constant.Sign(b) == 0 {
			return nil
		}
		tk = token.REM
	case "<<", ">>":
		s, ok := constant.Uint64Val(b)
		if !ok || s > 63 {
			return nil
		}
		t := token.SHL
		if op == ">>" {
			t = token.SHR
		}
		res = constant.Shift(a, t, uint(s))
		return fit(res, typ)
	default:
		return nil
	}
	res = constant.BinaryOp(a, tk, b)
	return fit(res, typ)
}

func fit(v constant.Value, typ types.Type) constant.Value {
	if v == nil || v.Kind() == constant.Unknown {
		return nil
	}
	if v.Kind() != constant.Int {
		return v
	}
	lo, hi, ok := typeRange(typ)
	if !ok {
		return nil
	}
	i, exact := constant.Int64Val(v)
	if !exact || i < lo || i > hi {
		return nil
	}
	return v
}

const (
	maxInt62 = int64(1) << 62
)

// intBits is the width of int on the platform analysed.
var intBits = 64

// maxLen: no object is larger (the address space of 64-bit platforms has 48 bits).
func maxLen() int64 {
	if intBits == 32 {
		return 1<<31 - 1<<16
	}
	return 1 << 50
}

// typeRange is the value range of an integer type, clamped to 62 bits.
func typeRange(t types.Type) (lo, hi int64, ok bool) {
	if t == nil {
		return 0, 0, false
	}
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, 0, false
	}
	k := b.Kind()
	if intBits == 32 {
		switch k {
		case types.Int:
			k = types.Int32
		case types.Uint, types.Uintptr:
			k = types.Uint32
		}
	}
	switch k {
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 0, 1<<63 - 1, true
	}
	return -1 << 63, 1<<63 - 1, true
}

// conv converts between basic types, named types and strings.
func (n *interner) conv(x *Term, from, to types.Type) *Term {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		flo, fhi, _ := typeRange(from)
		tlo, thi, _ := typeRange(to)
		if flo >= tlo && fhi <= thi && !(fb.Info()&types.IsUnsigned != 0 && (fb.Kind() == types.Uint64 || fb.Kind() == types.Uint) && tb.Info()&types.IsUnsigned == 0) {
			return x // lossless
		}
		if c, ok := x.intVal(); ok && c >= tlo && c <= thi {
			return x
		}
		if tb.Kind() == types.Uint8 {
			if r := n.byteOf(x, 0); r.op == "byteof" {
				return r
			}
		}
		return n.mk(Term{op: "conv", aux: tb.Name(), typ: to, args: []*Term{x}})
	}
	if ok1 && ok2 && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
		return x
	}
	if x.isConst() && ok2 && tb.Info()&types.IsString == 0 && ok1 {
		if v := fit(x.val, to); v != nil {
			return n.constant(v, to)
		}
	}
	name := typeStr(to.Underlying())
	// []byte(string(x)) and back keep the content
	if x.op == "conv" && (name == "string" || name == "[]byte") && len(x.args) == 1 && (x.aux == "string" || x.aux == "[]byte") {
		return n.mk(Term{op: "conv", aux: name, typ: to, args: []*Term{x.args[0]}})
	}
	if sliceOrString(from) && sliceOrString(to) && types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	return n.mk(Term{op: "conv", aux: name, typ: to, args: []*Term{x}})
}

func sliceOrString(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

// length is len(x).
func (e *Exec) length(s *State, x *Term) *Term {
	switch x.op {
	case "nil":
		return e.n.int(0)
	case "const":
		if v, ok := x.strVal(); ok {
			return e.n.int(int64(len(v)))
		}
	case "slice":
		lo, hi := x.args[1], x.args[2]
		if lo.op == "nil" {
			lo = e.n.int(0)
		}
		if hi.op == "nil" {
			hi = e.length(s, x.args[0])
		}
		return e.n.bin("-", hi, lo, types.Typ[types.Int])
	case "conv":
		if x.aux == "string" || x.aux == "[]byte" {
			if x.args[0].typ != nil && sliceOrString(x.args[0].typ) {
				return e.length(s, x.args[0])
			}
		}
	case "alloc":
		if l, ok := s.mem[e.n.mk(Term{op: "lenof", args: []*Term{x}})]; ok {
			return l
		}
		if t := derefType(x.typ); t != nil {
			if a, ok := t.Underlying().(*types.Array); ok {
				return e.n.int(a.Len())
			}
		}
	case "read":
		return x.args[1]
	case "tobe":
		b, _ := strconv.ParseInt(x.aux, 10, 64)
		return e.n.int(b / 8)
	case "append":
		// base + elements or base + spread
		l := e.length(s, x.args[0])
		if x.aux == "..." {
			return e.n.bin("+", l, e.length(s, x.args[1]), types.Typ[types.Int])
		}
		return e.n.bin("+", l, e.n.int(int64(len(x.args)-1)), types.Typ[types.Int])
	}
	return e.n.mk(Term{op: "len", typ: types.Typ[types.Int], args: []*Term{x}})
}

// nonNil tells whether a reference is known not to be nil.
func (e *Exec) nonNil(t *Term) bool {
	switch t.op {
	case "alloc", "closure", "func", "iface", "faddr", "iaddr", "global", "nonnil", "rtype":
		return true
	case "slice":
		return e.nonNil(t.args[0])
	case "append":
		return t.aux != "..." && len(t.args) > 1 || e.nonNil(t.args[0])
	case "sym":
		return knownNonNil[strings.TrimRight(t.aux, "'")]
	case "ext":
		// context.WithCancel and the like return neither a nil context nor a nil function
		return t.args[0].op == "sym" && strings.HasPrefix(t.args[0].aux, "context.With")
	case "load":
		if t.args[0].op == "global" {
			if g, ok := t.args[0].obj.(*ssa.Global); ok {
				return e.p.sentinel(g)
			}
		}
	case "conv":
		if t.aux == "[]byte" {
			return true
		}
	}
	return false
}

// decide evaluates a boolean term under the path facts.
func (e *Exec) decide(s *State, t *Term) (val, known bool) {
	if b, ok := t.boolVal(); ok {
		return b, true
	}
	if v, ok := s.facts[t]; ok {
		return v, true
	}
	switch t.op {
	case "not":
		v, k := e.decide(s, t.args[0])
		return !v, k
	case "eq":
		a, b := t.args[0], t.args[1]
		if a.op == "nil" || b.op == "nil" {
			x := a
			if a.op == "nil" {
				x = b
			}
			if e.nonNil(x) {
				return false, true
			}
			// x == other with other known
			for f, v := range s.facts {
				if f.op == "eq" && v && (f.args[0] == x || f.args[1] == x) {
					o := f.args[0]
					if o == x {
						o = f.args[1]
					}
					if e.nonNil(o) {
						return false, true
					}
				}
			}
			return false, false
		}
		// different constants or different sentinels
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			x, c := p[0], p[1]
			if !c.isConst() && !e.isSentinelLoad(c) {
				continue
			}
			if e.isSentinelLoad(c) && (e.isSentinelLoad(x) || x.op == "alloc" || e.ownSentinel(c) && e.foreignErr(x)) {
				return false, true
			}
			for f, v := range s.facts {
				if f.op == "eq" && v && (f.args[0] == x || f.args[1] == x) {
					o := f.args[0]
					if o == x {
						o = f.args[1]
					}
					if o.isConst() && c.isConst() && o != c && o.val.Kind() == c.val.Kind() {
						return false, true
					}
					if o.op == "nil" && e.nonNil(c) {
						return false, true
					}
				}
			}
		}
		if isNumTerm(a) && isNumTerm(b) {
			pr := e.newProver(s)
			if pr.proveLT(a, b) || pr.proveLT(b, a) {
				return false, true
			}
			if pr.proveLE(a, b) && pr.proveLE(b, a) {
				return true, true
			}
		}
		return false, false
	case "lt":
		pr := e.newProver(s)
		if pr.proveLT(t.args[0], t.args[1]) {
			return true, true
		}
		if pr.proveLE(t.args[1], t.args[0]) {
			return false, true
		}
	case "typeis":
		x := t.args[0]
		if x.op == "nil" {
			return false, true
		}
		if x.op == "iface" && x.typ != nil {
			if i, ok := t.typ.Underlying().(*types.Interface); ok {
				return types.Implements(x.typ, i), true
			}
			return types.Identical(x.typ, t.typ), true
		}
		if v, ok := s.facts[e.n.eq(x, e.n.nilT())]; ok && v {
			return false, true
		}
		for f, v := range s.facts {
			if f.op == "typeis" && v && f.args[0] == x && f.typ != nil {
				_, i1 := f.typ.Underlying().(*types.Interface)
				_, i2 := t.typ.Underlying().(*types.Interface)
				if !i1 && !i2 {
					return types.Identical(f.typ, t.typ), true
				}
			}
		}
	}
	return false, false
}

func isNumTerm(t *Term) bool {
	if _, ok := t.intVal(); ok {
		return true
	}
	_, _, ok := typeRange(t.typ)
	return ok
}

func (e *Exec) isSentinelLoad(t *Term) bool {
	if t.op == "load" && t.args[0].op == "global" {
		if g, ok := t.args[0].obj.(*ssa.Global); ok {
			return e.p.sentinel(g)
		}
	}
	return false
}

// ownSentinel: a sentinel error of the repository itself.
func (e *Exec) ownSentinel(t *Term) bool {
	g, ok := t.args[0].obj.(*ssa.Global)
	return ok && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
}

// foreignErr: error produced by a function outside the repository, which cannot be one of its sentinels.
func (e *Exec) foreignErr(t *Term) bool {
	x := t
	if x.op == "ext" {
		x = x.args[0]
	}
	if x.op == "sym" && x.site != nil {
		if c, ok := x.site.in.(ssa.CallInstruction); ok {
			if f := c.Common().StaticCallee(); f != nil && !e.p.inRepo(f) {
				return true
			}
		}
	}
	return false
}

// assume records a fact.
func (e *Exec) assume(s *State, t *Term, v bool) {
	for t.op == "not" {
		t, v = t.args[0], !v
	}
	if t.op == "const" {
		return
	}
	s.facts[t] = v
	if t.op == "typeis" && v {
		s.facts[e.n.eq(t.args[0], e.n.nilT())] = false
	}
}

// ---- stepping ----------------------------------------------------------------------------------

func (r *runner) ev(s *State, ev *Event, evs []*Event) []*Event {
	ev.St = s.snap()
	return append(evs, ev)
}

// run executes until the next join point or fork.
func (r *runner) run(s *State, evs []*Event) {
	e := r.e
	for steps := 0; ; steps++ {
		f := s.top()
		if f.pc >= len(f.block.Instrs) {
			e.fail("internal: fell off block %d of %s", f.block.Index, f.fn)
			r.end(evs)
			return
		}
		in := f.block.Instrs[f.pc]
		site := e.n.site(f.ctx, in)

		switch x := in.(type) {
		case *ssa.DebugRef:
			f.pc++

		case *ssa.Phi:
			// handled on block entry
			f.pc++

		case *ssa.Jump:
			if r.enter(s, f.block.Succs[0], evs) {
				return
			}

		case *ssa.If:
			c := e.val(s, x.Cond)
			if v, known := e.decide(s, c); known {
				evs = r.ev(s, &Event{Kind: "branch", Site: site, Cond: c, Truth: v, OK: true}, evs)
				i := 0
				if !v {
					i = 1
				}
				if r.enter(s, f.block.Succs[i], evs) {
					return
				}
				continue
			}
			for i, v := range []bool{true, false} {
				s2 := s.clone()
				ev2 := append([]*Event(nil), evs...)
				ev2 = r.ev(s2, &Event{Kind: "branch", Site: site, Cond: c, Truth: v}, ev2)
				e.assume(s2, c, v)
				r.enterFork(s2, s2.top().block.Succs[i], ev2)
			}
			return

		case *ssa.Return:
			vals := make([]*Term, len(x.Results))
			for i, v := range x.Results {
				vals[i] = e.val(s, v)
			}
			if len(s.frames) == 1 {
				evs = r.ev(s, &Event{Kind: "return", Site: site, Args: vals, Fn: f.fn}, evs)
				r.end(evs)
				return
			}
			evs = r.ev(s, &Event{Kind: "exit", Site: site, Args: vals, Fn: f.fn}, evs)
			s.frames = s.frames[:len(s.frames)-1]
			c := s.top()
			if f.onceKey != nil {
				s.mem[f.onceKey] = e.n.boolean(true)
			}
			if f.bindTo != nil {
				switch len(vals) {
				case 0:
				case 1:
					c.env[f.bindTo] = vals[0]
				default:
					c.env[f.bindTo] = e.n.mk(Term{op: "tuple", args: vals})
				}
			}
			r.goTo(s, evs)
			return

		case *ssa.RunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				var done bool
				evs, done = r.call(s, d.ci, nil, evs, true)
				if done {
					return
				}
				continue
			}
			f.pc++

		case *ssa.Panic:
			v := e.val(s, x.X)
			evs = r.ev(s, &Event{Kind: "panic", Site: site, Args: []*Term{v}, Fn: f.fn}, evs)
			r.end(evs)
			return

		case *ssa.Defer:
			ci := r.callInfo(s, site, x.Common())
			f.defers = append(f.defers, deferred{ci})
			evs = r.ev(s, &Event{Kind: "defer", Site: site, Name: ci.name(), Fn: ci.static, Args: ci.args, Bind: ci.bind, Method: ci.method}, evs)
			f.pc++

		case *ssa.Go:
			ci := r.callInfo(s, site, x.Common())
			evs = r.spawn(s, "go", site, ci, evs)
			f.pc++

		case *ssa.Call:
			ci := r.callInfo(s, site, x.Common())
			f.pc++
			var done bool
			evs, done = r.call(s, ci, x, evs, false)
			if done {
				return
			}

		case *ssa.Select:
			r.sel(s, x, site, evs)
			return

		default:
			var stop bool
			evs, stop = r.simple(s, in, site, evs)
			if stop {
				return
			}
			f.pc++
		}
		if steps > 20000 {
			e.fail("internal: too many steps in %s", f.fn)
			r.end(evs)
			return
		}
	}
}

// enter moves to the successor block; true when a join point was reached (edge emitted).
func (r *runner) enter(s *State, to *ssa.BasicBlock, evs []*Event) bool {
	evs = r.moveTo(s, to, evs)
	if len(to.Preds) > 1 {
		r.goTo(s, evs)
		return true
	}
	return false
}

func (r *runner) enterFork(s *State, to *ssa.BasicBlock, evs []*Event) {
	evs = r.moveTo(s, to, evs)
	r.goTo(s, evs)
}

func (r *runner) moveTo(s *State, to *ssa.BasicBlock, evs []*Event) []*Event {
	e := r.e
	f := s.top()
	from := f.block
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			// an if with both edges to the same block: the branch is irrelevant for constants
			break
		}
	}
	back := to.Dominates(from)
	type asg struct {
		phi *ssa.Phi
		t   *Term
	}
	var as []asg
	n := 0
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		as = append(as, asg{phi, e.val(s, phi.Edges[pi])})
	}
	// the iterations of a loop with a few steps stay apart altogether
	few := false
	for i := range as {
		if n := e.unrolled(s, as[i].phi, as[i].t); back && n > 0 && n <= 9 {
			few = true
		}
	}
	if back && !few {
		evs = r.widenMem(s, f, to, evs, func(lv, old *Term) {
			for j := range as {
				as[j].t = e.n.subst(as[j].t, lv, old)
			}
		})
		for i := range as {
			prev := f.env[as[i].phi]
			t := as[i].t
			if prev == nil || t == prev {
				continue
			}
			if !e.mustWiden(prev, t) || e.unrolled(s, as[i].phi, t) > 0 {
				continue
			}
			site := e.n.site(f.ctx, as[i].phi)
			if a := e.advances(prev, t, site, nil); a != nil {
				as[i].t, evs = r.advance(s, site, a, t, nil, evs, func(lv, old *Term) {
					for j := range as {
						if j != i {
							as[j].t = e.n.subst(as[j].t, lv, old)
						}
					}
				})
				continue
			}
			lv := e.n.mk(Term{op: "loopvar", typ: as[i].phi.Type(), site: site})
			keep := e.loopFacts(s, as[i].phi, prev, lv)
			if isNumTerm(lv) && len(keep) > 0 {
				// what is known of the value assigned holds for the variable from now on
				for k, v := range s.facts {
					if k.op == "lt" && v && k.args[0] == t && !k.args[1].isConst() && !k.args[1].hasLeaf(lv) {
						keep[e.n.lt(lv, k.args[1])] = true
					}
				}
			}
			if s.mentions(lv) || t.hasLeaf(lv) {
				old := e.n.mk(Term{op: "loopvar", aux: "'", typ: as[i].phi.Type(), site: site})
				if e.o.Gen {
					older := e.n.mk(Term{op: "loopvar", aux: "''", typ: as[i].phi.Type(), site: site})
					if s.mentions(old) {
						e.n.rename(s, old, older)
					}
					for j := range as {
						as[j].t = e.n.subst(as[j].t, old, older)
					}
				}
				// pending assignments refer to the old value too
				e.n.rename(s, lv, old)
				for j := range as {
					if j != i {
						as[j].t = e.n.subst(as[j].t, lv, old)
					}
				}
			}
			for k, v := range keep {
				s.facts[k] = v
			}
			evs = r.ev(s, &Event{Kind: "iter", Site: site, Res: lv, Val: t, Addr: prev}, evs)
			as[i].t = lv
		}
	}
	for _, a := range as {
		f.env[a.phi] = a.t
	}
	f.block = to
	f.pc = n
	if isLoopHead(to) {
		m := make(map[*Term]*Term, len(s.mem))
		for k, v := range s.mem {
			m[k] = v
		}
		if f.heads == nil {
			f.heads = map[*ssa.BasicBlock]map[*Term]*Term{}
		}
		f.heads[to] = m
	}
	return evs
}

func isLoopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// advancing is a slice that loses a constant number of leading elements in every iteration: base[first+step*n:end],
// where n counts the iterations. from and to are the values of n before and after one of them.
type advancing struct {
	n, from, to, base, end *Term
	first                  *Term
	step                   int64
}

func (e *Exec) advances(prev, t *Term, site *Site, cell *Term) *advancing {
	if t.op != "slice" || t.args[1].op == "nil" || isArrayPtr(t.args[0].typ) {
		return nil
	}
	a := &advancing{base: prev, end: e.n.nilT(), from: e.n.int(0), to: e.n.int(1)}
	from := a.from
	if prev.op == "slice" && prev.args[0] == t.args[0] {
		a.base, a.end = prev.args[0], prev.args[2]
		if prev.args[1].op != "nil" {
			from = prev.args[1]
		}
	}
	to := t.args[1]
	if a.base != t.args[0] || a.end != t.args[2] {
		return nil
	}
	d, ok := e.n.bin("-", to, from, types.Typ[types.Int]).intVal()
	if !ok && to.op == "bin" && to.aux == "+" && to.args[0] == from {
		d, ok = to.args[1].intVal()
	}
	if !ok || d < 1 || d > 16 {
		return nil
	}
	var obj interface{}
	if cell != nil {
		obj = cell
	}
	a.n = e.n.mk(Term{op: "loopvar", aux: "n", typ: types.Typ[types.Int], site: site, obj: obj})
	a.first, a.step = from, d
	if from.hasLeaf(a.n) {
		a.first = e.n.int(0)
		if e.offset(a, a.n) != from {
			if a.first = from.args[0]; from.op != "bin" || a.first.hasLeaf(a.n) || e.offset(a, a.n) != from {
				return nil
			}
		}
		a.from, a.to = a.n, e.n.bin("+", a.n, a.to, types.Typ[types.Int])
	}
	return a
}

// offset is the index of the first element left after n iterations.
func (e *Exec) offset(a *advancing, n *Term) *Term {
	k := n
	if a.step != 1 {
		k = e.n.bin("*", n, e.n.int(a.step), types.Typ[types.Int])
	}
	if v, ok := a.first.intVal(); ok && v == 0 {
		return k
	}
	return e.n.bin("+", a.first, k, types.Typ[types.Int])
}

// advance widens the number of iterations of a slice that loses leading elements. It returns the slice.
func (r *runner) advance(s *State, site *Site, a *advancing, t *Term, cell []*Term, evs []*Event, pending func(n, old *Term)) (*Term, []*Event) {
	e := r.e
	keep := map[*Term]bool{e.n.lt(a.n, e.n.int(0)): false}
	l := a.end
	if l.op == "nil" {
		l = e.length(s, a.base)
	}
	if !l.hasLeaf(a.n) && e.newProver(s).proveLE(t.args[1], l) {
		keep[e.n.lt(l, e.offset(a, a.n))] = false
		keep[e.n.lt(l, a.n)] = false
	}
	if s.mentions(a.n) || t.hasLeaf(a.n) {
		old := e.n.mk(Term{op: "loopvar", aux: "n'", typ: a.n.typ, site: a.n.site, obj: a.n.obj})
		e.n.rename(s, a.n, old)
		pending(a.n, old)
	}
	for k, v := range keep {
		s.facts[k] = v
	}
	evs = r.ev(s, &Event{Kind: "iter", Site: site, Res: a.n, Val: a.to, Addr: a.from, Bind: cell}, evs)
	return e.slice(a.base, e.offset(a, a.n), a.end, t.typ), evs
}

// widenMem forgets the value of memory cells that grow from iteration to iteration.
func (r *runner) widenMem(s *State, f *Frame, head *ssa.BasicBlock, evs []*Event, pending func(lv, old *Term)) []*Event {
	e := r.e
	site := e.n.site(f.ctx, head.Instrs[0])
	done := map[*Term]bool{}
	for again := true; again; {
		again = false
		before := f.heads[head]
		for _, c := range sortedKeys(s.mem) {
			prev, t := before[c], s.mem[c]
			if prev == nil && t.op == "slice" && t.args[0].op == "load" && t.args[0].args[0] == c {
				prev = t.args[0]
			}
			if done[c] || prev == nil || t == prev || t.op == "weak" || !e.mustWiden(prev, t) {
				continue
			}
			if c.op == "lenof" || c.op == "outmark" || c.op == "argof" {
				continue
			}
			typ := t.typ
			if a := e.advances(prev, t, site, c); a != nil {
				s.mem[c], evs = r.advance(s, site, a, t, []*Term{c}, evs, pending)
				done[c] = true
				again = true
				break
			}
			lv := e.n.mk(Term{op: "loopvar", aux: "mem", typ: typ, site: site, obj: c})
			keep := e.cellFacts(s, prev, t, lv)
			if s.mentions(lv) {
				old := e.n.mk(Term{op: "loopvar", aux: "mem'", typ: typ, site: site, obj: c})
				e.n.rename(s, lv, old)
				pending(lv, old)
			}
			for k, v := range keep {
				s.facts[k] = v
			}
			evs = r.ev(s, &Event{Kind: "iter", Site: site, Res: lv, Val: t, Addr: prev, Bind: []*Term{c}}, evs)
			if _, ok := s.mem[c]; ok {
				s.mem[c] = lv
			}
			done[c] = true
			again = true
			break
		}
	}
	return evs
}

// cellFacts are facts about the value t of a memory cell at the end of an iteration, stated of lv, the value the cell
// has from now on; prev is the one it had at the start of the iteration. Nothing is assumed of other iterations: what
// does not hold of the value assigned is not kept.
func (e *Exec) cellFacts(s *State, prev, t, lv *Term) map[*Term]bool {
	keep := map[*Term]bool{}
	if !isNumTerm(lv) || typeBits(lv.typ) < intBits {
		return keep
	}
	d, ok := e.n.bin("-", t, prev, lv.typ).intVal()
	if !ok && t.op == "bin" && (t.aux == "+" || t.aux == "-") && t.args[0] == prev {
		d, ok = t.args[1].intVal()
	}
	if !ok || d < -64 || d > 64 {
		return keep
	}
	// a counter that moves in small steps stays far away from the limits of the type
	shift := 60
	if typeBits(lv.typ) == 32 {
		shift = 29
	}
	p := e.newProver(s)
	hi, lo := e.n.lt(lv, e.n.int(2<<shift)), e.n.lt(lv, e.n.int(-2<<shift))
	if prev == lv {
		for _, k := range []*Term{hi, lo} {
			if v, ok := s.facts[k]; ok {
				keep[k] = v
			}
		}
	} else {
		if p.proveLT(prev, e.n.int(1<<shift)) {
			keep[hi] = true
		}
		if p.proveLE(e.n.int(-1<<shift), prev) {
			keep[lo] = false
		}
	}
	for k, v := range s.facts {
		if k.op != "lt" {
			continue
		}
		switch {
		case !v && k.args[0] == prev && !k.args[1].hasLeaf(lv) && p.proveLE(k.args[1], t):
			keep[e.n.lt(lv, k.args[1])] = false
		case v && k.args[0] == prev && !k.args[1].hasLeaf(lv) && p.proveLE(t, k.args[1]):
			keep[e.n.lt(k.args[1], lv)] = false
		}
	}
	if prev.isConst() {
		if p.proveLE(prev, t) {
			keep[e.n.lt(lv, prev)] = false
		}
		if p.proveLE(t, prev) {
			keep[e.n.lt(prev, lv)] = false
		}
	}
	return keep
}

// unrolled: the loop counts a variable from one constant to another in a few steps; its iterations are explored one by
// one. It returns the largest number of iterations, 0 for any other loop.
func (e *Exec) unrolled(s *State, phi *ssa.Phi, t *Term) int64 {
	v, ok := t.intVal()
	if !ok {
		return 0
	}
	b := phi.Block()
	var init, d int64
	d = 0
	for i, p := range b.Preds {
		if b.Dominates(p) {
			x, ok := e.step(phi.Edges[i], phi, 0)
			if !ok || x == 0 || d != 0 && x != d {
				return 0
			}
			d = x
		}
	}
	if d == 0 {
		return 0
	}
	first := false
	for i, p := range b.Preds {
		if !b.Dominates(p) {
			c, ok := e.val(s, phi.Edges[i]).intVal()
			if !ok || first && c != init {
				return 0
			}
			init, first = c, true
		}
	}
	if !first {
		return 0
	}
	// the condition that ends the loop
	for _, blk := range b.Parent().Blocks {
		if !b.Dominates(blk) || len(blk.Instrs) == 0 {
			continue
		}
		cond, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		op, ok := cond.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		if _, ok := e.step(op.X, phi, 0); !ok {
			continue
		}
		switch op.Op {
		case token.LSS, token.LEQ:
			if d < 0 {
				continue
			}
		case token.GTR, token.GEQ:
			if d > 0 {
				continue
			}
		case token.EQL, token.NEQ:
		default:
			continue
		}
		if in, ok := op.Y.(ssa.Instruction); ok && b.Dominates(in.Block()) {
			continue
		}
		max, ok := e.val(s, op.Y).intVal()
		if !ok || !leaves(b, blk) {
			continue
		}
		n := (max-init)/d + 1
		if n >= 0 && n <= 18 && (v-init)/d <= n+1 {
			return n + 1
		}
	}
	return 0
}

// leaves: a branch at the end of the block, which belongs to the loop that begins with head, ends the loop.
func leaves(head, blk *ssa.BasicBlock) bool {
	for _, x := range blk.Succs {
		seen := map[*ssa.BasicBlock]bool{}
		var back func(y *ssa.BasicBlock) bool
		back = func(y *ssa.BasicBlock) bool {
			if y == head {
				return true
			}
			if seen[y] || !head.Dominates(y) {
				return false
			}
			seen[y] = true
			for _, z := range y.Succs {
				if back(z) {
					return true
				}
			}
			return false
		}
		if !back(x) {
			return true
		}
	}
	return false
}

// offsetBase strips constant offsets.
func offsetBase(t *Term) *Term {
	for t.op == "bin" && (t.aux == "+" || t.aux == "-") && t.args[1].isConst() {
		t = t.args[0]
	}
	return t
}

// extends: t is prev with further elements appended.
func extends(prev, t *Term) bool {
	for t.op == "append" && t != prev {
		if prev.op == "append" && prev.aux == "" && t.aux == "" && len(t.args) > len(prev.args) {
			same := true
			for i, a := range prev.args {
				if t.args[i] != a {
					same = false
				}
			}
			if same {
				return true
			}
		}
		t = t.args[0]
		if t == prev {
			return true
		}
	}
	return false
}

func (e *Exec) mustWiden(prev, t *Term) bool {
	if t.dep > 40 {
		return true
	}
	if prev.op == "slice" && t.op == "slice" && prev.args[0] == t.args[0] {
		return true
	}
	if extends(prev, t) {
		return true
	}
	_, c1 := prev.intVal()
	_, c2 := t.intVal()
	if isNumTerm(t) && prev != t && offsetBase(prev) == offsetBase(t) {
		return true
	}
	if c1 && c2 {
		return true
	}
	if prev.isConst() && c1 == false {
		// bool/string constants: finite unless growing
		return t != prev && t.contains(prev) && !t.isConst()
	}
	if prev.op == "loopvar" && t.op != "loopvar" {
		return isNumTerm(t) || t.contains(prev)
	}
	return t.contains(prev) && t != prev
}

// loopFacts derives bounds of a loop variable that only grows (or only shrinks).
func (e *Exec) loopFacts(s *State, phi *ssa.Phi, prev, lv *Term) map[*Term]bool {
	keep := map[*Term]bool{}
	up, down, slow := true, true, true
	b := phi.Block()
	for i, edge := range phi.Edges {
		if !b.Dominates(b.Preds[i]) {
			continue
		}
		if edge == phi {
			continue
		}
		d, ok := e.step(edge, phi, 0)
		if !ok {
			up, down, slow = false, false, false
			break
		}
		if d < -64 || d > 64 {
			slow = false
		}
		if d < 0 {
			up = false
		}
		if d > 0 {
			down = false
		}
	}
	if !isNumTerm(lv) {
		return keep
	}
	if slow && typeBits(lv.typ) >= intBits {
		// a counter that moves in small steps stays far away from the limits of 64 bits
		// (and one that counts elements of an object from those of 32)
		shift := 60
		if typeBits(lv.typ) == 32 {
			shift = 29
		}
		hi, lo := e.n.lt(lv, e.n.int(2<<shift)), e.n.lt(lv, e.n.int(-2<<shift))
		if prev.op == "loopvar" && prev.site == lv.site {
			for _, k := range []*Term{hi, lo} {
				if v, ok := s.facts[k]; ok {
					keep[k] = v
				}
			}
		} else {
			p := e.newProver(s)
			if p.proveLT(prev, e.n.int(1<<shift)) {
				keep[hi] = true
			}
			if p.proveLE(e.n.int(-1<<shift), prev) {
				keep[lo] = false
			}
		}
	}
	if up {
		if prev.op == "loopvar" && prev.site == lv.site {
			for k, v := range s.facts {
				if k.op == "lt" && !v && k.args[0] == lv && !k.args[1].hasLeaf(lv) {
					keep[k] = v
				}
			}
		} else {
			keep[e.n.lt(lv, prev)] = false
		}
	}
	if down {
		if prev.op == "loopvar" && prev.site == lv.site {
			for k, v := range s.facts {
				if k.op == "lt" && !v && k.args[1] == lv && !k.args[0].hasLeaf(lv) {
					keep[k] = v
				}
			}
		} else {
			keep[e.n.lt(prev, lv)] = false
		}
	}
	return keep
}

// step computes v - phi when v is phi plus constants on every path.
func (e *Exec) step(v ssa.Value, phi *ssa.Phi, depth int) (int64, bool) {
	if v == phi {
		return 0, true
	}
	if depth > 8 {
		return 0, false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			k, _ := constant.Int64Val(c.Value)
			d, ok := e.step(x.X, phi, depth+1)
			if !ok {
				return 0, false
			}
			switch x.Op {
			case token.ADD:
				return d + k, true
			case token.SUB:
				return d - k, true
			}
		}
	case *ssa.Phi:
		var res int64
		for i, ed := range x.Edges {
			d, ok := e.step(ed, phi, depth+1)
			if !ok {
				return 0, false
			}
			if i > 0 && (d < 0) != (res < 0) && d != 0 && res != 0 {
				return 0, false
			}
			if i == 0 || d != 0 {
				res = d
			}
		}
		return res, true
	}
	return 0, false
}

// loopPhis lists the phis of the loop headers enclosing b; they are kept alive for widening.
func (e *Exec) loopPhis(b *ssa.BasicBlock) []ssa.Value {
	if e.lp == nil {
		e.lp = map[*ssa.BasicBlock][]ssa.Value{}
	}
	if r, ok := e.lp[b]; ok {
		return r
	}
	var res []ssa.Value
	for _, h := range b.Parent().Blocks {
		inLoop := false
		for _, p := range h.Preds {
			if !h.Dominates(p) {
				continue
			}
			// natural loop of edge p->h
			seen := map[*ssa.BasicBlock]bool{h: true}
			st := []*ssa.BasicBlock{p}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if seen[x] {
					continue
				}
				seen[x] = true
				st = append(st, x.Preds...)
			}
			if seen[b] {
				inLoop = true
			}
		}
		if !inLoop {
			continue
		}
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			switch u := phi.Type().Underlying().(type) {
			case *types.Basic:
				if u.Info()&(types.IsNumeric|types.IsString) != 0 {
					res = append(res, phi)
				}
			case *types.Slice:
				res = append(res, phi)
			}
		}
	}
	e.lp[b] = res
	return res
}

func (ci *callInfo) name() string {
	if ci.static != nil {
		if o := ci.static.Object(); o != nil {
			if f, ok := o.(*types.Func); ok {
				return f.FullName()
			}
		}
		return ci.static.String()
	}
	if ci.method != nil {
		return ci.method.FullName()
	}
	if ci.bi != "" {
		return "builtin." + ci.bi
	}
	return "dynamic"
}

// callInfo evaluates callee and operands of a call.
func (r *runner) callInfo(s *State, site *Site, c *ssa.CallCommon) callInfo {
	e := r.e
	ci := callInfo{site: site, common: c}
	for _, a := range c.Args {
		ci.args = append(ci.args, e.val(s, a))
	}
	if c.IsInvoke() {
		recv := e.val(s, c.Value)
		if recv.op == "iface" && recv.typ != nil {
			if m := e.p.SSA.LookupMethod(recv.typ, c.Method.Pkg(), c.Method.Name()); m != nil {
				ci.static = m
				ci.args = append([]*Term{recv.args[0]}, ci.args...)
				return ci
			}
		}
		ci.method = c.Method
		ci.args = append([]*Term{recv}, ci.args...)
		return ci
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		ci.bi = b.Name()
		return ci
	}
	r.resolve(&ci, e.val(s, c.Value))
	return ci
}

func (r *runner) resolve(ci *callInfo, ft *Term) {
	switch ft.op {
	case "func":
		ci.static = ft.fn
	case "closure":
		ci.static = ft.fn
		ci.bind = ft.args
	default:
		ci.dyn = ft
	}
	// a bound method value or method expression wrapper: see through it
	if f := ci.static; f != nil && f.Synthetic != "" && strings.HasSuffix(f.Name(), "$bound") && len(ci.bind) == 1 {
		if o, ok := f.Object().(*types.Func); ok {
			sig := o.Type().(*types.Signature)
			if sig.Recv() != nil {
				if _, isI := sig.Recv().Type().Underlying().(*types.Interface); !isI {
					if m := r.e.p.SSA.FuncValue(o); m != nil {
						ci.static = m
						ci.args = append([]*Term{ci.bind[0]}, ci.args...)
						ci.bind = nil
					}
				} else if ci.bind[0].op == "iface" && ci.bind[0].typ != nil {
					if m := r.e.p.SSA.LookupMethod(ci.bind[0].typ, o.Pkg(), o.Name()); m != nil {
						ci.static = m
						ci.args = append([]*Term{ci.bind[0].args[0]}, ci.args...)
						ci.bind = nil
					}
				} else {
					ci.static = nil
					ci.method = o
					ci.args = append([]*Term{ci.bind[0]}, ci.args...)
					ci.bind = nil
				}
			}
		}
	}
}

func (r *runner) spawn(s *State, kind string, site *Site, ci callInfo, evs []*Event) []*Event {
	ev := &Event{Kind: "go", What: kind, Site: site, Name: ci.name(), Fn: ci.static, Args: ci.args, Bind: ci.bind, Method: ci.method, Val: ci.dyn}
	evs = r.ev(s, ev, evs)
	r.addSpawn(s, kind, ev, ci)
	return evs
}

func (r *runner) addSpawn(s *State, kind string, ev *Event, ci callInfo) {
	sp := &Spawn{Kind: kind, Ev: ev, Fn: ci.static, Bind: ci.bind, Args: ci.args, Dyn: ci.dyn, St: ev.St}
	defer r.shareCells(s, ci, ev.Site)
	k := kind + "/" + ev.spawnID() + "|"
	for _, a := range sortedKeys(ev.St.mem) {
		k += fmt.Sprintf("%d=%d,", a.id, ev.St.mem[a].id)
	}
	for _, a := range sortedKeys(ev.St.facts) {
		k += fmt.Sprintf("%d:%v,", a.id, ev.St.facts[a])
	}
	if !r.e.spKey[k] {
		r.e.spKey[k] = true
		r.e.Spawns = append(r.e.Spawns, sp)
	}
}

// spawnID tells goroutines started by one execution of a function apart: by the go statement, the function, and the
// functions, channels and objects it is given, directly or in captured variables.
func (ev *Event) spawnID() string {
	k := fmt.Sprintf("%d/%v", ev.Site.id, ev.Fn)
	if ev.St == nil {
		return k
	}
	for _, a := range append(append([]*Term{}, ev.Args...), ev.Bind...) {
		k += fmt.Sprintf(",%d", a.id)
		if a.op != "alloc" {
			continue
		}
		for _, x := range sortedKeys(ev.St.mem) {
			if rootOf(x) != a {
				continue
			}
			v := ev.St.mem[x]
			if v.typ != nil {
				switch v.typ.Underlying().(type) {
				case *types.Chan, *types.Signature, *types.Pointer, *types.Struct:
				default:
					if v.op != "closure" && v.op != "func" {
						continue
					}
				}
			}
			k += fmt.Sprintf(";%d=%d", x.id, v.id)
		}
	}
	return k
}

// call performs a call; done means that edges were emitted and the path continues elsewhere.
func (r *runner) call(s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
	e := r.e
	f := s.top()

	set := func(t *Term) {
		if result != nil {
			f.env[result] = t
		}
	}

	if ci.bi != "" {
		return r.builtin(s, ci, result, evs, isDefer)
	}

	// models of library functions that call back or are understood structurally
	if ci.static != nil || ci.method != nil {
		if h, ok := models[ci.name()]; ok && !(ci.static != nil && e.o.Prim != nil && e.p.inRepo(ci.static) && e.o.Prim(ci.static)) {
			return h(r, s, ci, result, evs, isDefer)
		}
	}

	if ci.static != nil && ci.static.Blocks != nil && e.p.inRepo(ci.static) {
		prim := e.o.Prim != nil && e.o.Prim(ci.static)
		if prim && len(ci.args) > 0 && ci.args[0].op == "alloc" && ci.static.Signature.Recv() != nil {
			if e.kept == nil {
				e.kept = map[*Term]bool{}
			}
			e.kept[ci.args[0]] = true
		}
		rec := 0
		for _, fr := range s.frames {
			if fr.fn == ci.static {
				rec++
			}
		}
		if rec > 0 {
			evs = r.ev(s, &Event{Kind: "recurse", Site: ci.site, Name: ci.name(), Fn: ci.static, Args: ci.args}, evs)
			prim = true
		}
		if len(s.frames) > 40 {
			e.fail("inlining deeper than 40 at %s", e.p.pos(instrPos(ci.site.in)))
			prim = true
		}
		if !prim {
			evs = r.ev(s, &Event{Kind: "enter", Site: ci.site, Name: ci.name(), Fn: ci.static, Args: ci.args, Bind: ci.bind, Defer: isDefer}, evs)
			ctx := e.n.ctx(f.ctx, ci.site, ci.static, "")
			e.push(s, ctx, ci.static, ci.bind, ci.args, result)
			return evs, false
		}
	}

	if ci.dyn != nil && e.o.Oblig {
		evs = r.oblig(s, ci.site, "call of nil function", e.n.not(e.n.eq(ci.dyn, e.n.nilT())), evs)
	}
	if ci.method != nil && e.o.Oblig {
		evs = r.nilOblig(s, ci.site, ci.args[0], "method call on nil interface", evs)
	}

	// opaque call
	name := ci.name()
	var typ types.Type
	if ci.common != nil {
		tup := ci.common.Signature().Results()
		typ = tup
		if tup.Len() == 1 {
			typ = tup.At(0).Type()
		}
	}
	ev := &Event{Kind: "call", Site: ci.site, Name: name, Fn: ci.static, Method: ci.method, Args: ci.args, Val: ci.dyn, Defer: isDefer, Bind: ci.bind}
	ev.St = s.snap()
	res := e.fresh(s, "sym", ci.site, shortName(name), typ)
	ev.Res = res
	evs = append(evs, ev)
	if strings.HasPrefix(res.aux, "bytes.Index") || strings.HasPrefix(res.aux, "strings.Index") {
		s.mem[e.argKey(res, 0)] = ci.args[0]
	}
	e.effects(s, &ci, name, res)
	set(res)
	if effectsEpoch[name] {
		r.newEpoch(s, ev.Res)
	}
	if effectsEpoch[name] || strings.HasSuffix(name, ".Wait") {
		e.refreshShared(s, ev.Res)
	}
	return evs, false
}

func shareMark(n *interner, cell *Term) *Term {
	return n.mk(Term{op: "sharedcell", args: []*Term{cell}})
}

// shareCells: local variables that a goroutine just started assigns have an unknown value from now on.
func (r *runner) shareCells(s *State, ci callInfo, site *Site) {
	e := r.e
	seen := map[*Term]bool{}
	var closure func(fn *ssa.Function, bind []*Term)
	var value func(t *Term)
	var written []*Term
	value = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "alloc":
			value(s.mem[t])
		case "closure":
			closure(t.fn, t.args)
		case "iface":
			value(t.args[0])
		}
	}
	closure = func(fn *ssa.Function, bind []*Term) {
		for i, b := range bind {
			if b.op == "alloc" && fn != nil && i < len(fn.FreeVars) && assigns(fn, fn.FreeVars[i], 0) {
				written = append(written, b)
			}
			value(b)
		}
	}
	closure(ci.static, ci.bind)
	for _, a := range ci.args {
		value(a)
	}
	if len(written) == 0 {
		return
	}
	v := e.fresh(s, "sym", site, "shared", types.Typ[types.Int])
	for _, b := range written {
		s.mem[shareMark(e.n, b)] = e.n.boolean(true)
	}
	e.refreshShared(s, v)
}

// refreshShared: another goroutine may have assigned the shared local variables.
func (e *Exec) refreshShared(s *State, v *Term) {
	for _, k := range sortedKeys(s.mem) {
		if k.op != "sharedcell" {
			continue
		}
		b := k.args[0]
		for x := range s.mem {
			if under(x, b) {
				delete(s.mem, x)
			}
		}
		if el := derefType(b.typ); el != nil {
			switch el.Underlying().(type) {
			case *types.Struct, *types.Array:
				delete(s.mem, b)
				s.mem[outMark(e.n, b)] = v
			default:
				s.mem[b] = e.n.mk(Term{op: "out", typ: el, args: []*Term{v, b}})
			}
		}
	}
}

// assigns tells whether fn may assign the variable it captured as fv.
func assigns(fn *ssa.Function, fv ssa.Value, depth int) bool {
	if depth > 5 || fv.Referrers() == nil {
		return depth > 5
	}
	for _, in := range *fv.Referrers() {
		switch x := in.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr == fv || x.Val == fv {
				return true
			}
		case *ssa.MakeClosure:
			f, ok := x.Fn.(*ssa.Function)
			if !ok {
				return true
			}
			for i, b := range x.Bindings {
				if b == fv && (i >= len(f.FreeVars) || assigns(f, f.FreeVars[i], depth+1)) {
					return true
				}
			}
		case *ssa.FieldAddr:
			if assigns(fn, x, depth+1) {
				return true
			}
		case *ssa.IndexAddr:
			if assigns(fn, x, depth+1) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// newEpoch forgets what is known about shared mutable fields (a lock was acquired).
func (r *runner) newEpoch(s *State, t *Term) {
	e := r.e
	for k := range s.mem {
		if rootOf(k).op != "alloc" && (k.op == "faddr" || k.op == "global") && e.p.mutable(k) {
			delete(s.mem, k)
		}
	}
	s.epoch = t
}

func shortName(n string) string {
	n = strings.ReplaceAll(n, modPath+"/pkg/", "")
	return n
}

// effects havocs memory that an opaque callee can write through its pointer arguments.
func (e *Exec) effects(s *State, ci *callInfo, name string, res *Term) {
	if pureCallee(name) {
		return
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		switch t.op {
		case "iface":
			visit(t.args[0])
		case "faddr", "iaddr":
			root := rootOf(t)
			if root.op != "alloc" {
				if t.op == "faddr" && rootOf(t).op != "alloc" {
					s.mem[t] = e.n.mk(Term{op: "out", args: []*Term{res, t}})
				}
				return
			}
			for k := range s.mem {
				if under(k, t) {
					delete(s.mem, k)
				}
			}
			s.mem[t] = e.n.mk(Term{op: "out", args: []*Term{res, t}})
		case "slice":
			root := rootOf(t)
			if root.op == "alloc" && fillsSlice(name) {
				for k := range s.mem {
					if under(k, root) && k.op != "lenof" {
						delete(s.mem, k)
					}
				}
				s.mem[outMark(e.n, root)] = res
				return
			}
			if root.op == "alloc" {
				// variadic argument arrays: visit the elements
				for _, k := range sortedKeys(s.mem) {
					if k.op == "iaddr" && k.args[0] == root {
						if v := s.mem[k]; v.op == "iface" || v.op == "faddr" || v.op == "alloc" {
							visit(v)
						}
					}
				}
			}
		case "alloc":
			if derefType(t.typ) == nil {
				return
			}
			for k := range s.mem {
				if under(k, t) {
					delete(s.mem, k)
				}
			}
			if el := derefType(t.typ); el != nil {
				switch el.Underlying().(type) {
				case *types.Struct, *types.Array:
					delete(s.mem, t)
					s.mem[outMark(e.n, t)] = res
				default:
					s.mem[t] = e.n.mk(Term{op: "out", typ: el, args: []*Term{res, t}})
				}
			}
		}
	}
	for i, a := range ci.args {
		if i == 0 && !e.o.Havoc && ci.static != nil && ci.static.Signature.Recv() != nil && e.p.inRepo(ci.static) {
			continue // methods of the repository used as primitives: modelled by the caller
		}
		visit(a)
	}
}

// oblig emits a panic obligation: cond must hold here.
func (r *runner) oblig(s *State, site *Site, what string, cond *Term, evs []*Event) []*Event {
	v, known := r.e.decide(s, cond)
	ev := &Event{Kind: "oblig", Site: site, What: what, Cond: cond, OK: known && v}
	evs = r.ev(s, ev, evs)
	if !known {
		r.e.assume(s, cond, true)
	}
	return evs
}

func (r *runner) nilOblig(s *State, site *Site, x *Term, what string, evs []*Event) []*Event {
	if !r.e.maybeNil(s, x) {
		if x.op != "param" {
			evs = r.ev(s, &Event{Kind: "oblig", Site: site, What: what, Val: x, OK: true}, evs)
		}
		return evs
	}
	ev := &Event{Kind: "oblig", Site: site, What: what, Val: x, OK: false}
	evs = r.ev(s, ev, evs)
	r.e.assume(s, r.e.n.eq(x, r.e.n.nilT()), false)
	return evs
}

func sortStrings[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
