package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkFns["X01"] = checkX01 }

const (
	rOut  = "log and output arguments"
	rFlow = "functions summarised"
	rSrc  = "sources"

	lContent = "message contents"
	lURL     = "database URL"
)

// label says what a value may carry. Labels of parameters ("p") stand for whatever the caller passes; a key
// restricts the database URL to what is stored under one of its names.
type label struct {
	src   string        // lContent, lURL, "p" (parameter p of fn), "f" (the function fn), "out" (an output stream)
	fn    *ssa.Function // the function of a parameter; the function itself
	p     int
	bound ssa.Value // receiver of a method value
	key   int       // keyNone, keySafe, or the parameter of keyFn that names the key
	keyFn *ssa.Function
}

const (
	keyNone = -1
	keySafe = -2
)

// safeKeys are the connection parameters that do not identify or authenticate anybody.
var safeKeys = map[string]bool{"host": true, "port": true, "database": true, "dbname": true, "sslmode": true, "connect_timeout": true, "application_name": true}

type reason struct {
	from ssa.Value
	l    label
	pos  token.Pos
	what string
}

type outRec struct {
	l   label
	pos token.Pos // where it is written
	in  string
	how string
	via []string
}

type flows struct {
	c      *Check
	fns    []*ssa.Function
	set    map[ssa.Value]map[label]reason
	field  map[string]map[label]reason
	res    map[*ssa.Function][]map[label]reason
	out    map[*ssa.Function]map[int]map[label]bool // stored into what the parameter refers to
	put    map[*ssa.Function]map[string]map[label]reason
	sinks  map[*ssa.Function]map[label]outRec // per location and label
	seen   map[string]bool
	change bool
	final  bool
	iface  []types.Type
}

func checkX01(c *Check) {
	c.expl = "Interprocedural information-flow analysis over the whole program with parametric function summaries and a field-based heap: sources are all values of the protocol's message, frame and buffer types and bytes read from connections, the database URL of the configuration and the configuration file, and connection strings passed to the database driver; " +
		"sinks are all arguments of the logging library, of the standard library's printing functions, of writes to output streams, and of panics. Only the message type, lengths, comparisons, and the host, port and name of the database are released from the sources."
	c.assume = []string{"implicit flows (what is logged depends on a value without containing it) are not tracked", "one abstract object per struct field", "the libraries do not log what they are given"}
	f := &flows{c: c, set: map[ssa.Value]map[label]reason{}, field: map[string]map[label]reason{}, res: map[*ssa.Function][]map[label]reason{},
		out: map[*ssa.Function]map[int]map[label]bool{}, put: map[*ssa.Function]map[string]map[label]reason{}, sinks: map[*ssa.Function]map[label]outRec{}, seen: map[string]bool{}}
	if pg := c.p.ByRel["pkg/pg"]; pg != nil {
		for _, n := range []string{"Message", "Frame"} {
			if t := pg.Type(n); t != nil {
				f.iface = append(f.iface, t.Type())
			}
		}
	}
	if len(f.iface) != 2 {
		c.undecided("protocol types", "pkg/pg has no Message and Frame")
		return
	}
	for _, fn := range c.p.Funcs {
		c.instance(rFlow, fnName(fn))
		c.funcs[fn.String()] = true
		for i, p := range fn.Params {
			f.add(p, label{src: "p", fn: fn, p: i, key: keyNone}, reason{pos: fn.Pos(), what: "parameter " + p.Name()})
		}
	}
	f.fns = append(f.fns, c.p.Funcs...)
	for _, rel := range sortStrings(c.p.ByRel) {
		if fn := c.p.ByRel[rel].Func("init"); fn != nil {
			f.fns = append(f.fns, fn) // initialisation of package variables
		}
	}
	f.seeds()
	if pg := c.p.ByRel["pkg/pg"]; pg != nil {
		for _, m := range pg.Members {
			if t, ok := m.(*ssa.Type); ok && f.contentType(t.Type()) {
				c.instance(rSrc, "values of type pg."+t.Name())
			}
		}
	}
	rounds := 0
	for f.change = true; f.change && rounds < 200; rounds++ {
		f.change = false
		f.round()
	}
	if f.change {
		c.undecided("fixpoint", "no fixpoint after %d rounds", rounds)
	}
	for _, ls := range f.set {
		c.prodStates += len(ls)
	}
	c.prodEdges = rounds
	f.final = true
	f.round()
	c.floor(rOut, 10, "arguments of logging and printing")
	c.floor(rSrc, 3, "sources")
}

func (f *flows) round() {
	for _, fn := range f.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f.instr(fn, in)
			}
		}
	}
}

func (f *flows) add(v ssa.Value, l label, r reason) {
	if v == nil {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	m := f.set[v]
	if m == nil {
		m = map[label]reason{}
		f.set[v] = m
	}
	if _, ok := m[l]; !ok {
		m[l] = r
		f.change = true
	}
}

func (f *flows) addField(k string, l label, r reason) {
	if owner := l.owner(); owner != nil {
		m := f.put[owner]
		if m == nil {
			m = map[string]map[label]reason{}
			f.put[owner] = m
		}
		if m[k] == nil {
			m[k] = map[label]reason{}
		}
		if _, ok := m[k][l]; !ok {
			m[k][l] = r
			f.change = true
		}
		return
	}
	if f.field[k] == nil {
		f.field[k] = map[label]reason{}
	}
	if _, ok := f.field[k][l]; !ok {
		f.field[k][l] = r
		f.change = true
	}
}

// owner is the function whose callers decide what the label stands for.
func (l label) owner() *ssa.Function {
	if l.src == "p" {
		return l.fn
	}
	if l.key >= 0 {
		return l.keyFn
	}
	return nil
}

// contentType: messages, frames, buffers and what they are made of.
func (f *flows) contentType(t types.Type) bool {
	if d := derefType(t); d != nil {
		t = d
	}
	n, ok := t.(*types.Named)
	if !ok {
		if s, ok := t.Underlying().(*types.Slice); ok && t == t.Underlying() {
			return f.contentType(s.Elem())
		}
		return false
	}
	if n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pgPath {
		return false
	}
	switch u := n.Underlying().(type) {
	case *types.Basic, *types.Map, *types.Signature:
		return false
	case *types.Interface:
		for _, it := range f.iface {
			if types.Identical(it, n) || types.Implements(n, it.Underlying().(*types.Interface)) {
				return true
			}
		}
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if connLike(u.Field(i).Type()) {
				return false
			}
		}
	}
	return true
}

func connLike(t types.Type) bool {
	pk, n := pkgAndName(t)
	return pk == "net" && (strings.HasSuffix(n, "Conn") || strings.HasSuffix(n, "Listener"))
}

func (f *flows) seeds() {
	// the configured database URL
	if cfg := f.c.p.ByRel["pkg/server"].Type("Config"); cfg != nil {
		if st, ok := cfg.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if fl := st.Field(i); fl.Name() != "Listen" {
					f.addField(flowField(cfg.Type(), fl.Name()), label{src: lURL, key: keyNone}, reason{pos: fl.Pos(), what: "Config." + fl.Name()})
					f.c.instance(rSrc, "Config."+fl.Name())
				}
			}
		}
	}
	// connection strings
	for _, fn := range f.c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if name, _ := f.c.p.external(ci.Common()); name == "database/sql.Open" || strings.HasSuffix(name, "NewConnector") {
					for _, a := range ci.Common().Args {
						if p, ok := a.(*ssa.Parameter); ok {
							f.add(p, label{src: lURL, key: keyNone}, reason{pos: p.Pos(), what: "connection string"})
							f.c.instance(rSrc, "connection string of "+fnName(fn))
						}
					}
				}
			}
		}
	}
}

func flowField(t types.Type, name string) string {
	if d := derefType(t); d != nil {
		t = d
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + name
	}
	return t.String() + "." + name
}

func structField(t types.Type, i int) string {
	if d := derefType(t); d != nil {
		t = d
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

// of lists the labels of a value, what its type implies included.
func (f *flows) of(v ssa.Value) map[label]reason {
	m := f.set[v]
	if v == nil || v.Type() == nil {
		return m
	}
	switch x := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.MakeInterface:
		m := f.of(x.X)
		own := map[label]reason{}
		ms := types.NewMethodSet(x.X.Type())
		for _, name := range []string{"Error", "String", "GoString"} {
			sel := ms.Lookup(nil, name)
			if sel == nil {
				continue
			}
			fn := f.c.p.SSA.MethodValue(sel)
			if fn == nil || !f.c.p.inRepo(fn) {
				continue
			}
			fn = f.c.p.real(fn)
			if rs := f.res[fn]; len(rs) == 1 {
				for l := range rs[0] {
					for _, l2 := range f.inst(l, target{fn, []ssa.Value{x.X}}) {
						own[l2] = reason{pos: fn.Pos(), what: "shown by " + fnName(fn)}
					}
				}
			}
		}
		if len(own) == 0 {
			return m
		}
		for l, w := range m {
			own[l] = w
		}
		return own
	case *ssa.Function:
		return map[label]reason{{src: "f", fn: f.c.p.real(x), key: keyNone}: {}}
	case *ssa.Builtin:
		return nil
	case *ssa.Global:
		if x.Pkg != nil && x.Pkg.Pkg.Path() == "os" && (x.Name() == "Stdout" || x.Name() == "Stderr") {
			return map[label]reason{{src: "out", key: keyNone}: {pos: x.Pos(), what: "output stream"}}
		}
	}
	t := v.Type()
	extra := label{key: keyNone}
	switch {
	case f.contentType(t):
		extra.src = lContent
	default:
		return m
	}
	if _, ok := m[extra]; ok {
		return m
	}
	r := map[label]reason{extra: {pos: v.Pos(), what: "a value of type " + types.TypeString(t, shortQual)}}
	for l, w := range m {
		r[l] = w
	}
	return r
}

func shortQual(p *types.Package) string { return p.Name() }

// flow: everything from carries is also carried by to.
func (f *flows) flow(from, to ssa.Value, pos token.Pos) {
	for l := range f.of(from) {
		f.add(to, l, reason{from, l, pos, ""})
	}
}

// load lists what is stored at the address.
func (f *flows) load(a ssa.Value) map[label]reason {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return f.fieldLabels(x.X, structField(x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		if f.first(x.X, x.Index) {
			return nil
		}
		return f.of(x.X)
	}
	return f.of(a)
}

// nilEdge: v is compared to nil at the end of block b, and it is nil where control goes on to block to.
func nilEdge(v ssa.Value, b, to *ssa.BasicBlock) bool {
	return nilTest(b, func(x ssa.Value) bool { return x == v }) == to
}

// nilTest is the successor of b where a value is known to be nil (nil: none).
func nilTest(b *ssa.BasicBlock, is func(ssa.Value) bool) *ssa.BasicBlock {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return nil
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	isNil := func(x ssa.Value) bool {
		k, ok := x.(*ssa.Const)
		return ok && k.IsNil()
	}
	if !(is(c.X) && isNil(c.Y) || is(c.Y) && isNil(c.X)) {
		return nil
	}
	switch c.Op {
	case token.EQL:
		return b.Succs[0]
	case token.NEQ:
		return b.Succs[1]
	}
	return nil
}

// nilWhere: v is nil whenever control is in block b.
func nilWhere(v ssa.Value, b *ssa.BasicBlock) bool {
	if _, ok := v.(*ssa.Const); ok {
		return false
	}
	for d := b.Idom(); d != nil; d = d.Idom() {
		if s := nilTest(d, func(x ssa.Value) bool { return x == v }); s != nil && len(s.Preds) == 1 && s.Dominates(b) {
			return true
		}
	}
	return false
}

// cell lists what a load of a local variable that closures share may find. What the function itself stored before
// it found the variable to be nil is not there any more.
func (f *flows) cell(ld *ssa.UnOp) (map[label]reason, bool) {
	a := ownCell(ld.X)
	if a == nil {
		return nil, false
	}
	switch derefType(a.Type()).Underlying().(type) {
	case *types.Interface, *types.Pointer:
	default:
		return nil, false
	}
	var stores []*ssa.Store
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, in := range *v.Referrers() {
			switch y := in.(type) {
			case *ssa.Store:
				if y.Addr != v {
					return false
				}
				stores = append(stores, y)
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for i, b := range y.Bindings {
					if b == v && !visit(y.Fn.(*ssa.Function).FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !visit(a) {
		return nil, false
	}
	r := map[label]reason{}
	for _, st := range stores {
		if st.Parent() == ld.Parent() && st.Addr == ld.X && overwritten(st, ld) {
			continue
		}
		if f.replaced(a, st, ld) {
			continue
		}
		for l := range f.of(st.Val) {
			r[l] = reason{st.Val, l, st.Pos(), "stored"}
		}
	}
	return r, true
}

// ownCell is the variable a load goes to, where function literals that are only called in place share it with the
// function they appear in.
func ownCell(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			fn := x.Parent()
			if fn.Parent() == nil || !calledInPlace(fn) {
				return nil
			}
			v = nil
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					mc, ok := in.(*ssa.MakeClosure)
					if !ok || mc.Fn != ssa.Value(fn) {
						continue
					}
					for i, fv := range fn.FreeVars {
						if fv == x {
							if v != nil && v != mc.Bindings[i] {
								return nil
							}
							v = mc.Bindings[i]
						}
					}
				}
			}
		default:
			return nil
		}
	}
}

// replaced: between the store and the load another store to the variable always happens. The store is in the function
// of the load or in one around it, which does nothing while its function literal runs.
func (f *flows) replaced(a *ssa.Alloc, st *ssa.Store, ld *ssa.UnOp) bool {
	around := false
	for p := ld.Parent(); p != nil; p = p.Parent() {
		if p == st.Parent() {
			around = true
		}
		if p == a.Parent() {
			break
		}
		if !calledInPlace(p) {
			return false
		}
	}
	return around && !f.arrives(a, st, ld, ld.X)
}

// arrives: the value stored can still be in the variable, which is known as addr there, at the instruction.
func (f *flows) arrives(a *ssa.Alloc, st *ssa.Store, at ssa.Instruction, addr ssa.Value) bool {
	fn := at.Parent()
	seen := map[*ssa.BasicBlock]bool{}
	var found func(b *ssa.BasicBlock, i int) bool
	found = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == at {
				return true
			}
			if x, ok := b.Instrs[i].(*ssa.Store); ok && x.Addr == addr {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if found(s, 0) {
					return true
				}
			}
		}
		return false
	}
	if st.Parent() == fn {
		if st.Addr != addr {
			return true
		}
		for i, in := range st.Block().Instrs {
			if in == ssa.Instruction(st) && found(st.Block(), i+1) {
				return true
			}
		}
	}
	if fn == a.Parent() {
		return false
	}
	seen = map[*ssa.BasicBlock]bool{}
	if !found(fn.Blocks[0], 0) {
		return false
	}
	// what the variable held when the function literal was called
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() != fn {
				continue
			}
			mc, ok := call.Call.Value.(*ssa.MakeClosure)
			if !ok {
				return true
			}
			for i, fv := range fn.FreeVars {
				if ssa.Value(fv) == addr && f.arrives(a, st, call, mc.Bindings[i]) {
					return true
				}
			}
		}
	}
	return false
}

// overwritten: every way to the load passes a test that found the variable to be nil, and no way leads from there
// through the store.
func overwritten(st *ssa.Store, ld *ssa.UnOp) bool {
	for d := ld.Block(); d != nil; d = d.Idom() {
		s := nilTest(d, func(x ssa.Value) bool {
			u, ok := x.(*ssa.UnOp)
			return ok && u.Op == token.MUL && u.X == st.Addr && u.Block() == d && lastLoad(d, u)
		})
		if s == nil || len(s.Preds) != 1 || !s.Dominates(ld.Block()) {
			continue
		}
		if !reaches(s, st.Block()) {
			return true
		}
	}
	return false
}

// lastLoad: after the load nothing in its block can change the variable.
func lastLoad(b *ssa.BasicBlock, u *ssa.UnOp) bool {
	at := -1
	for i, in := range b.Instrs {
		if in == ssa.Instruction(u) {
			at = i
		}
		if at < 0 || i == at {
			continue
		}
		switch in.(type) {
		case *ssa.BinOp, *ssa.If, *ssa.DebugRef:
		default:
			return false
		}
	}
	return at >= 0
}

func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if visit(s) {
				return true
			}
		}
		return false
	}
	return visit(from)
}

// first: the first byte of a frame is its message type.
func (f *flows) first(x, index ssa.Value) bool {
	k, ok := index.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	i, _ := constant.Int64Val(k.Value)
	if i != 0 || !f.contentType(x.Type()) {
		return false
	}
	s, ok := x.Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (f *flows) fieldLabels(base ssa.Value, name string) map[label]reason {
	r := map[label]reason{}
	for l, w := range f.field[flowField(base.Type(), name)] {
		r[l] = w
	}
	d := base.Type()
	pk, n := pkgAndName(d)
	key := keyNone
	if pk == "net/url" && n == "URL" && (name == "Host" || name == "Path" || name == "Scheme" || name == "RawPath") {
		key = keySafe
	}
	if strings.HasSuffix(pk, "sirupsen/logrus") && name == "Out" {
		r[label{src: "out", key: keyNone}] = reason{pos: base.Pos(), what: "the log's writer"}
	}
	apart := isError(typeOfField(d, name)) // an error kept beside contents has the labels of its own field
	for l := range f.of(base) {
		if apart && l.src == lContent && strings.HasPrefix(pk, modPath) {
			continue
		}
		if l.src == "p" && strings.HasPrefix(pk, modPath) && (apart || !f.contentType(d)) {
			continue // fields of the program's structs have their own labels
		}
		if l, ok := filter(l, key, nil); ok {
			r[l] = reason{base, l, base.Pos(), ""}
		}
	}
	return r
}

// typeOfField is the type of a field of a struct or of what a pointer to it leads to (nil: no such field).
func typeOfField(t types.Type, name string) types.Type {
	if d := derefType(t); d != nil {
		t = d
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return s.Field(i).Type()
			}
		}
	}
	return nil
}

func isError(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// filter restricts a label to what is stored under a key.
func filter(l label, key int, keyFn *ssa.Function) (label, bool) {
	if key == keyNone || l.src == lContent || l.src == "f" || l.src == "out" {
		return l, true
	}
	if l.src == lURL && key == keySafe {
		return l, false
	}
	if l.key == keyNone || key == keySafe {
		l.key, l.keyFn = key, keyFn
	}
	return l, true
}

// store: the labels are stored at the address, or in the object v refers to.
func (f *flows) store(v ssa.Value, ls map[label]reason, from ssa.Value, pos token.Pos, depth int) {
	if depth > 12 || len(ls) == 0 || v == nil {
		return
	}
	into := func(v ssa.Value) { f.store(v, ls, from, pos, depth+1) }
	mark := func() {
		for l := range ls {
			f.add(v, l, reason{from, l, pos, "stored"})
		}
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		for l := range ls {
			f.addField(flowField(x.X.Type(), structField(x.X.Type(), x.Field)), l, reason{from, l, pos, "stored in the field " + structField(x.X.Type(), x.Field)})
		}
	case *ssa.IndexAddr:
		into(x.X)
	case *ssa.Slice:
		mark()
		into(x.X)
	case *ssa.Phi:
		mark()
		for _, e := range x.Edges {
			into(e)
		}
	case *ssa.MakeInterface:
		into(x.X)
	case *ssa.ChangeType:
		mark()
		into(x.X)
	case *ssa.ChangeInterface:
		mark()
		into(x.X)
	case *ssa.Convert:
		mark()
		into(x.X)
	case *ssa.TypeAssert:
		mark()
		into(x.X)
	case *ssa.Extract:
		mark()
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
			into(ta.X)
		}
	case *ssa.UnOp:
		mark()
		if x.Op == token.MUL {
			into(x.X)
		}
	case *ssa.Field:
		mark()
		for l := range ls {
			f.addField(flowField(x.X.Type(), structField(x.X.Type(), x.Field)), l, reason{from, l, pos, "stored"})
		}
	case *ssa.Parameter:
		mark()
		fn := x.Parent()
		for i, p := range fn.Params {
			if p != x {
				continue
			}
			if f.out[fn] == nil {
				f.out[fn] = map[int]map[label]bool{}
			}
			if f.out[fn][i] == nil {
				f.out[fn][i] = map[label]bool{}
			}
			for l := range ls {
				if !(l.src == "p" && l.fn == fn && l.p == i) && !f.out[fn][i][l] {
					f.out[fn][i][l] = true
					f.change = true
				}
			}
		}
	case *ssa.FreeVar:
		mark()
		for _, b := range f.bindings(x) {
			into(b)
		}
	case *ssa.Const, *ssa.Function, *ssa.Builtin, nil:
	default:
		mark()
	}
}

// bindings lists what a captured variable refers to.
func (f *flows) bindings(x *ssa.FreeVar) []ssa.Value {
	fn := x.Parent()
	var r []ssa.Value
	if fn.Parent() == nil {
		return nil
	}
	for i, fv := range fn.FreeVars {
		if fv != x {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn && i < len(mc.Bindings) {
					r = append(r, mc.Bindings[i])
				}
			}
		}
	}
	return r
}

func (f *flows) addAll(v ssa.Value, ls map[label]reason, from ssa.Value, pos token.Pos) {
	for l, r := range ls {
		if r.from == nil && r.what == "" {
			r = reason{from, l, pos, ""}
		}
		f.add(v, l, r)
	}
}

func (f *flows) instr(fn *ssa.Function, in ssa.Instruction) {
	pos := instrPos(in)
	switch x := in.(type) {
	case *ssa.Store:
		f.store(x.Addr, f.of(x.Val), x.Val, pos, 0)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if ls, ok := f.cell(x); ok {
				f.addAll(x, ls, x.X, pos)
			} else {
				f.addAll(x, f.load(x.X), x.X, pos)
			}
		case token.ARROW:
			f.flow(x.X, x, pos)
		case token.NOT:
		default:
			f.flow(x.X, x, pos)
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			f.flow(x.X, x, pos)
			f.flow(x.Y, x, pos)
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if from := x.Block().Preds[i]; !nilWhere(e, from) && !nilEdge(e, from, x.Block()) {
				f.flow(e, x, pos)
			}
		}
	case *ssa.Field:
		f.addAll(x, f.fieldLabels(x.X, structField(x.X.Type(), x.Field)), x.X, pos)
	case *ssa.Index:
		if !f.first(x.X, x.Index) {
			f.flow(x.X, x, pos)
		}
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc:
		if fa, ok := in.(*ssa.FieldAddr); ok {
			// the address itself, for calls on embedded objects
			f.addAll(fa, f.fieldLabels(fa.X, structField(fa.X.Type(), fa.Field)), fa.X, pos)
		}
		if ia, ok := in.(*ssa.IndexAddr); ok && !f.first(ia.X, ia.Index) {
			f.flow(ia.X, ia, pos)
		}
	case *ssa.Slice:
		f.flow(x.X, x, pos)
	case *ssa.Convert:
		f.flow(x.X, x, pos)
	case *ssa.ChangeType:
		f.flow(x.X, x, pos)
	case *ssa.ChangeInterface:
		f.flow(x.X, x, pos)
	case *ssa.SliceToArrayPointer:
		f.flow(x.X, x, pos)
	case *ssa.MakeInterface:
	case *ssa.TypeAssert:
		f.flow(x.X, x, pos)
	case *ssa.Extract:
		f.extract(x, pos)
	case *ssa.Lookup:
		key, keyFn := f.keyOf(x.Index, 0)
		if _, isStr := x.X.Type().Underlying().(*types.Basic); isStr {
			key = keyNone
		}
		for l := range f.of(x.X) {
			if l2, ok := filter(l, key, keyFn); ok {
				f.add(x, l2, reason{x.X, l, pos, ""})
			}
		}
	case *ssa.MapUpdate:
		f.store(x.Map, f.of(x.Value), x.Value, pos, 0)
		f.store(x.Map, f.of(x.Key), x.Key, pos, 0)
	case *ssa.Range:
		f.flow(x.X, x, pos)
	case *ssa.Next:
		f.flow(x.Iter, x, pos)
	case *ssa.Send:
		f.store(x.Chan, f.of(x.X), x.X, pos, 0)
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.SendOnly {
				f.store(s.Chan, f.of(s.Send), s.Send, pos, 0)
			}
		}
	case *ssa.MakeClosure:
		if g, ok := x.Fn.(*ssa.Function); ok {
			l := label{src: "f", fn: g, key: keyNone}
			if r := f.c.p.real(g); r != g {
				l.fn = r
				if len(x.Bindings) == 1 {
					l.bound = x.Bindings[0]
				}
			}
			f.add(x, l, reason{pos: pos})
			for i, b := range x.Bindings {
				if i < len(g.FreeVars) {
					f.flow(b, g.FreeVars[i], pos)
				}
			}
		}
	case *ssa.Return:
		rs := f.res[fn]
		if rs == nil {
			rs = make([]map[label]reason, len(x.Results))
			f.res[fn] = rs
		}
		for i, v := range x.Results {
			for l := range f.of(v) {
				if rs[i] == nil {
					rs[i] = map[label]reason{}
				}
				if _, ok := rs[i][l]; !ok {
					rs[i][l] = reason{v, l, pos, "returned"}
					f.change = true
				}
			}
		}
	case *ssa.Panic:
		f.sink(fn, x.X, pos, "panic", nil)
	case ssa.CallInstruction:
		f.call(fn, x)
	}
}

func (f *flows) extract(x *ssa.Extract, pos token.Pos) {
	switch t := x.Tuple.(type) {
	case *ssa.Lookup, *ssa.TypeAssert:
		if x.Index == 0 {
			f.flow(x.Tuple, x, pos)
		}
	case *ssa.UnOp:
		if x.Index == 0 {
			f.flow(x.Tuple, x, pos)
		}
	case *ssa.Next:
		key := keyNone
		if x.Index == 0 {
			return
		}
		if x.Index == 1 {
			key = keySafe // the names of the connection parameters
		}
		for l := range f.of(t) {
			if l2, ok := filter(l, key, nil); ok {
				f.add(x, l2, reason{t, l, pos, ""})
			}
		}
	case *ssa.Select:
		n := 2
		for _, s := range t.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			if n == x.Index {
				f.flow(s.Chan, x, pos)
			}
			n++
		}
	case *ssa.Call:
		f.results(t, x, x.Index)
	}
}

// keyOf classifies the name a value is looked up by.
func (f *flows) keyOf(v ssa.Value, depth int) (int, *ssa.Function) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String && safeKeys[constant.StringVal(x.Value)] {
			return keySafe, nil
		}
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return i, x.Parent()
			}
		}
	case *ssa.Phi:
		if depth > 3 {
			return keyNone, nil
		}
		for _, e := range x.Edges {
			if k, _ := f.keyOf(e, depth+1); k != keySafe {
				return keyNone, nil
			}
		}
		return keySafe, nil
	case *ssa.ChangeType:
		return f.keyOf(x.X, depth+1)
	case *ssa.Convert:
		return f.keyOf(x.X, depth+1)
	case *ssa.FreeVar:
		if bs := f.bindings(x); len(bs) == 1 && depth < 4 {
			return f.keyOf(bs[0], depth+1)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL || depth > 4 {
			break
		}
		// a variable or the element of a table: all that is ever stored there
		if vs := f.stored(x.X, 0); len(vs) > 0 {
			for _, v := range vs {
				if k, fn := f.keyOf(v, depth+1); k != keySafe {
					if len(vs) == 1 {
						return k, fn
					}
					return keyNone, nil
				}
			}
			return keySafe, nil
		}
	}
	return keyNone, nil
}

// stored lists the values stored in a local variable or array (nil: not known).
func (f *flows) stored(a ssa.Value, depth int) []ssa.Value {
	if depth > 4 {
		return nil
	}
	switch x := a.(type) {
	case *ssa.IndexAddr:
		return f.stored(x.X, depth+1)
	case *ssa.Slice:
		return f.stored(x.X, depth+1)
	case *ssa.FreeVar:
		if bs := f.bindings(x); len(bs) == 1 {
			return f.stored(bs[0], depth+1)
		}
	case *ssa.Alloc:
		var r []ssa.Value
		ok := true
		var visit func(v ssa.Value)
		visit = func(v ssa.Value) {
			if v.Referrers() == nil {
				ok = false
				return
			}
			for _, in := range *v.Referrers() {
				switch y := in.(type) {
				case *ssa.Store:
					if y.Addr == v {
						r = append(r, y.Val)
					} else {
						ok = false
					}
				case *ssa.IndexAddr:
					visit(y)
				case *ssa.Slice:
					visit(y)
				case *ssa.UnOp, *ssa.DebugRef, *ssa.Range:
				case *ssa.MakeClosure:
					for i, b := range y.Bindings {
						if b == v {
							visit(y.Fn.(*ssa.Function).FreeVars[i])
						}
					}
				case *ssa.Call:
					if b, isB := y.Call.Value.(*ssa.Builtin); !isB || b.Name() != "len" {
						ok = false
					}
				default:
					ok = false
				}
			}
		}
		visit(x)
		if ok {
			return r
		}
	}
	return nil
}

// target is a function that a call may reach with its arguments (nil: not known).
type target struct {
	fn   *ssa.Function
	args []ssa.Value
}

func (f *flows) targets(cc *ssa.CallCommon) []target {
	if cc.IsInvoke() {
		var r []target
		for _, g := range f.c.p.implementations(cc.Method) {
			r = append(r, target{g, append([]ssa.Value{cc.Value}, cc.Args...)})
		}
		return r
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		return nil
	case *ssa.Function:
		return []target{{f.c.p.real(v), cc.Args}}
	}
	return f.funcTargets(cc.Value, cc.Args)
}

func (f *flows) funcTargets(v ssa.Value, args []ssa.Value) []target {
	var r []target
	for l := range f.of(v) {
		if l.src != "f" {
			continue
		}
		a := args
		if l.bound != nil {
			a = append([]ssa.Value{l.bound}, args...)
		}
		r = append(r, target{l.fn, a})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].fn.Pos() < r[j].fn.Pos() })
	return r
}

// inst replaces what stands for the parameters of the target by what is passed.
func (f *flows) inst(l label, t target) []label {
	key, keyFn := l.key, l.keyFn
	if key >= 0 && l.keyFn == t.fn {
		if key < len(t.args) {
			key, keyFn = f.keyOf(t.args[key], 0)
		} else {
			key, keyFn = keyNone, nil
		}
	}
	if l.src == "p" && l.fn == t.fn {
		if l.p >= len(t.args) {
			return nil
		}
		var r []label
		for a := range f.of(t.args[l.p]) {
			if a, ok := filter(a, key, keyFn); ok {
				r = append(r, a)
			}
		}
		return r
	}
	base := l
	base.key, base.keyFn = keyNone, nil
	if l, ok := filter(base, key, keyFn); ok {
		return []label{l}
	}
	return nil
}

// results: what result i of the call carries.
func (f *flows) results(call *ssa.Call, to ssa.Value, i int) {
	cc := call.Common()
	pos := instrPos(call)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "min", "max", "ssa:wrapnilchk":
			for _, a := range cc.Args {
				f.flow(a, to, pos)
			}
		}
		return
	}
	ts := f.targets(cc)
	for _, t := range ts {
		if !f.c.p.inRepo(t.fn) {
			f.externalResult(objName(t.fn), t.fn.Signature, t.args, to, i, pos)
			continue
		}
		if rs := f.res[t.fn]; i < len(rs) {
			if t.fn.Name() == "MessageType" && len(t.args) == 1 {
				continue
			}
			for l := range rs[i] {
				for _, l2 := range f.inst(l, t) {
					f.add(to, l2, reason{nil, l, pos, "returned by " + fnName(t.fn)})
				}
			}
		}
	}
	if cc.IsInvoke() && (len(ts) == 0 || cc.Method.Pkg() == nil || !strings.HasPrefix(cc.Method.Pkg().Path(), modPath)) {
		name := cc.Method.FullName()
		f.externalResult(name, cc.Method.Type().(*types.Signature), append([]ssa.Value{cc.Value}, cc.Args...), to, i, pos)
	}
}

var quietPackages = map[string]bool{"io": true, "bufio": true, "bytes": true, "encoding/binary": true, "os": true, "syscall": true, "sync": true, "time": true, "context": true, "path/filepath": true}

func extPkg(name string) string {
	name = strings.TrimLeft(name, "(*")
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		if j := strings.IndexByte(name[i:], '.'); j >= 0 {
			return name[:i+j]
		}
	}
	pk, _, _ := strings.Cut(name, ".")
	return pk
}

func extBase(name string) string { return name[strings.LastIndexByte(name, '.')+1:] }

var transfers = []string{"Read", "Write", "Close", "Copy", "Flush", "Set", "Peek", "Scan", "Done", "Fire"}

func transfer(name string) bool {
	for _, p := range transfers {
		if strings.HasPrefix(extBase(name), p) {
			return true
		}
	}
	return false
}

func reads(name string) bool {
	b := extBase(name)
	return strings.HasPrefix(b, "Read") || strings.HasPrefix(b, "Copy") || b == "Peek" || strings.HasPrefix(b, "Fscan") || b == "Scan" || b == "Text" || b == "Bytes" && strings.Contains(name, "bufio.")
}

// readable lists what can be read from a value.
func (f *flows) readable(v ssa.Value) map[label]reason {
	for {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
			continue
		}
		if ci, ok := v.(*ssa.ChangeInterface); ok {
			v = ci.X
			continue
		}
		break
	}
	t := v.Type()
	if ms := types.NewMethodSet(t); ms.Lookup(nil, "Read") == nil && !strings.Contains(types.TypeString(t, nil), "bufio.") {
		return nil
	}
	pk, n := pkgAndName(t)
	switch {
	case pk == "bytes" || pk == "strings":
		return f.of(v)
	case pk == "os" && n == "File":
		return map[label]reason{{src: lURL, key: keyNone}: {pos: v.Pos(), what: "read from a file"}}
	case pk == pgPath || pk == "net" || pk == "io" || pk == "bufio" || pk == "crypto/tls":
		if len(f.of(v)) > 0 {
			onlyParams := true
			for l := range f.of(v) {
				onlyParams = onlyParams && (l.src == "p" || l.src == "f")
			}
			if !onlyParams {
				return f.of(v)
			}
		}
		return map[label]reason{{src: lContent, key: keyNone}: {pos: v.Pos(), what: "read from a connection"}}
	}
	return nil
}

func (f *flows) externalResult(name string, sig *types.Signature, args []ssa.Value, to ssa.Value, i int, pos token.Pos) {
	if i >= sig.Results().Len() {
		return
	}
	rt := sig.Results().At(i).Type()
	if b, ok := rt.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return
	}
	pk, base := extPkg(name), extBase(name)
	switch {
	case pk == "github.com/BurntSushi/toml":
		return // names of keys and positions
	case isErr(rt) && (quietPackages[pk] || transfer(name)):
		if pk == "golang.org/x/sync/errgroup" {
			break
		}
		return
	case transfer(name) && isInt(rt):
		return
	case pk == "net/url" && strings.Contains(name, "URL)") && (base == "Hostname" || base == "Port" || base == "EscapedPath" || base == "IsAbs" || base == "Redacted"):
		if base == "Redacted" && len(args) > 0 {
			// the password is replaced, the query is not
		} else {
			for l := range f.of(args[0]) {
				if l2, ok := filter(l, keySafe, nil); ok {
					f.add(to, l2, reason{args[0], l, pos, ""})
				}
			}
			return
		}
	case name == "os.Create", name == "os.OpenFile":
		f.add(to, label{src: "out", key: keyNone}, reason{pos: pos, what: "a file written to"})
		return
	case strings.HasSuffix(name, "logrus.Logger).Writer"), strings.HasSuffix(name, "logrus.Logger).WriterLevel"), strings.HasSuffix(name, "logrus.Entry).Writer"):
		f.add(to, label{src: "out", key: keyNone}, reason{pos: pos, what: "the log's writer"})
		return
	case base == "MessageType":
		return
	case strings.HasSuffix(name, "os.ReadFile"), strings.HasSuffix(name, "ioutil.ReadFile"):
		if i == 0 {
			f.add(to, label{src: lURL, key: keyNone}, reason{pos: pos, what: "read from a file"})
		}
		return
	case strings.HasPrefix(base, "RemoteAddr") || strings.HasPrefix(base, "LocalAddr"):
		return
	}
	if reads(name) {
		for _, a := range args {
			f.addAll(to, f.readable(a), a, pos)
		}
	}
	for _, a := range args {
		if name == "net/url.Parse" || !f.opaque(a) {
			for l := range f.of(a) {
				if l.src == "f" {
					continue
				}
				f.add(to, l, reason{a, l, pos, "through " + extBase(name)})
			}
		}
		// functions passed: their results
		for _, t := range f.funcTargets(a, nil) {
			for _, rs := range f.res[t.fn] {
				for l := range rs {
					for _, l2 := range f.inst(l, t) {
						f.add(to, l2, reason{nil, l, pos, "returned by " + fnName(t.fn)})
					}
				}
			}
		}
	}
}

// opaque: what was sent over a connection is not what calls on the connection return.
func (f *flows) opaque(v ssa.Value) bool { return connLike(v.Type()) }

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (f *flows) call(fn *ssa.Function, ci ssa.CallInstruction) {
	cc := ci.Common()
	pos := instrPos(ci)
	call, _ := ci.(*ssa.Call)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "print", "println":
			for _, a := range cc.Args {
				f.sink(fn, a, pos, b.Name(), nil)
			}
		case "copy":
			f.store(cc.Args[0], f.of(cc.Args[1]), cc.Args[1], pos, 0)
		case "append":
			if call != nil {
				f.results(call, call, 0)
				// the backing array may be shared
				for _, a := range cc.Args[1:] {
					f.store(cc.Args[0], f.of(a), a, pos, 0)
				}
			}
		default:
			if call != nil {
				f.results(call, call, 0)
			}
		}
		return
	}
	if call != nil && call.Type() != nil {
		if tp, ok := call.Type().(*types.Tuple); !ok || tp.Len() == 0 {
			f.results(call, call, 0)
		}
	}
	ts := f.targets(cc)
	for _, t := range ts {
		if f.c.p.inRepo(t.fn) {
			f.enter(fn, t, pos)
		} else {
			f.externalCall(fn, objName(t.fn), t.args, pos)
		}
	}
	if cc.IsInvoke() && (len(ts) == 0 || cc.Method.Pkg() == nil || !strings.HasPrefix(cc.Method.Pkg().Path(), modPath)) {
		f.externalCall(fn, cc.Method.FullName(), append([]ssa.Value{cc.Value}, cc.Args...), pos)
	}
}

// enter applies the summary of a function of the program at a call.
func (f *flows) enter(caller *ssa.Function, t target, pos token.Pos) {
	for i, a := range t.args {
		if i >= len(t.fn.Params) {
			break
		}
		for l, r := range f.of(a) {
			if l.src == "f" || l.src == "out" {
				f.add(t.fn.Params[i], l, r)
			}
		}
	}
	for i, ls := range f.out[t.fn] {
		if i >= len(t.args) {
			continue
		}
		m := map[label]reason{}
		for l := range ls {
			for _, l2 := range f.inst(l, t) {
				m[l2] = reason{nil, l, pos, ""}
			}
		}
		f.store(t.args[i], m, nil, pos, 0)
	}
	for k, ls := range f.put[t.fn] {
		for l, r := range ls {
			for _, l2 := range f.inst(l, t) {
				f.addField(k, l2, reason{f.argOf(l, t), l2, pos, r.what})
			}
		}
	}
	for l, rec := range f.sinks[t.fn] {
		for _, l2 := range f.inst(l, t) {
			r := rec
			r.via = append(append([]string{}, rec.via...), f.c.p.pos(pos)+": called by "+fnName(caller))
			f.report(l2, f.argOf(l, t), r)
		}
	}
}

func (f *flows) argOf(l label, t target) ssa.Value {
	if l.src == "p" && l.fn == t.fn && l.p < len(t.args) {
		return t.args[l.p]
	}
	return nil
}

func isLogPkg(name string) bool {
	return strings.Contains(name, "sirupsen/logrus.") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.") || strings.HasPrefix(name, "log/slog.") || strings.HasPrefix(name, "(*log/slog.") || strings.HasPrefix(name, "log/syslog.") || strings.HasPrefix(name, "(*log/syslog.")
}

func (f *flows) externalCall(fn *ssa.Function, name string, args []ssa.Value, pos token.Pos) {
	pk, base := extPkg(name), extBase(name)
	switch {
	case isLogPkg(name):
		if strings.HasPrefix(base, "Set") || base == "AddHook" {
			return
		}
		f.sinkArgs(fn, args, pos, name)
		return
	case pk == "fmt" && strings.HasPrefix(base, "Print"):
		f.sinkArgs(fn, args, pos, name)
		return
	case pk == "fmt" && strings.HasPrefix(base, "Fprint"):
		if f.stream(args[0]) {
			f.sinkArgs(fn, args[1:], pos, name)
			return
		}
	}
	// functions that are called back
	for _, a := range args {
		for _, t := range f.funcTargets(a, nil) {
			if !f.c.p.inRepo(t.fn) {
				continue
			}
			f.enter(fn, t, pos)
			if pk == "golang.org/x/sync/errgroup" && base == "Go" {
				for _, rs := range f.res[t.fn] {
					m := map[label]reason{}
					for l := range rs {
						for _, l2 := range f.inst(l, t) {
							m[l2] = reason{nil, l, pos, "returned by " + fnName(t.fn)}
						}
					}
					f.store(args[0], m, nil, pos, 0)
				}
			}
		}
	}
	// output streams
	for i, a := range args {
		if !f.has(a, "out") {
			continue
		}
		for j, b := range args {
			if j == i {
				continue
			}
			f.sink(fn, b, pos, name, nil)
			for l := range f.readable(b) {
				f.report(l, b, outRec{l: l, pos: pos, in: fnName(fn), how: extBase(name)})
			}
		}
	}
	if pk == "github.com/BurntSushi/toml" || pk == "database/sql" {
		return
	}
	// what the arguments refer to afterwards
	for i, a := range args {
		if !f.filled(a) {
			continue
		}
		for j, b := range args {
			if j == i {
				continue
			}
			if reads(name) {
				f.store(a, f.readable(b), b, pos, 0)
			}
			if !f.opaque(b) && i == 0 && !reads(name) || i == 0 && strings.HasPrefix(base, "Copy") {
				f.store(a, f.data(b), b, pos, 0)
			}
		}
	}
}

// data: the labels of a value other than functions.
func (f *flows) data(v ssa.Value) map[label]reason {
	r := map[label]reason{}
	for l, w := range f.of(v) {
		if l.src != "f" {
			r[l] = w
		}
	}
	return r
}

// filled: objects that keep what they are given.
func (f *flows) filled(v ssa.Value) bool {
	for {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
			continue
		}
		break
	}
	switch u := v.Type().Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Pointer:
		pk, n := pkgAndName(u)
		return (pk == "bytes" || pk == "strings" || pk == "bufio" || pk == "text/tabwriter" || pk == "sync" && (n == "Map" || n == "Pool") || pk == "sync/atomic" || pk == "container/list" || strings.HasPrefix(pk, modPath)) && n != "" || n == ""
	case *types.Interface:
		pk, n := pkgAndName(v.Type())
		return pk == "io" && strings.Contains(n, "Writer")
	}
	return false
}

func (f *flows) has(v ssa.Value, src string) bool {
	for l := range f.of(v) {
		if l.src == src {
			return true
		}
	}
	return false
}

// stream: the writer may be an output stream of the program.
func (f *flows) stream(v ssa.Value) bool {
	for {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
			continue
		}
		if ci, ok := v.(*ssa.ChangeInterface); ok {
			v = ci.X
			continue
		}
		break
	}
	pk, n := pkgAndName(v.Type())
	switch {
	case pk == "bytes", pk == "strings", pk == "bufio", pk == "net", pk == pgPath, strings.HasPrefix(pk, "hash"), strings.HasPrefix(pk, "crypto"), pk == "text/tabwriter":
		return f.has(v, "out")
	case pk == "io" && n == "Writer" && relPkg(fnPkg(v.Parent())) == "pkg/pg":
		return f.has(v, "out")
	}
	return true
}

// sinkArgs handles the arguments of a printing function; those of a format verb for the type only are fine.
func (f *flows) sinkArgs(fn *ssa.Function, args []ssa.Value, pos token.Pos, name string) {
	for i, a := range args {
		els, ok := f.elements(a)
		if !ok {
			f.sink(fn, a, pos, name, nil)
			continue
		}
		var verbs []string
		if i > 0 && strings.HasSuffix(name, "f") {
			if k, ok := args[i-1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
				verbs = formatVerbs(constant.StringVal(k.Value))
			}
		}
		for j, el := range els {
			if j < len(verbs) && (verbs[j] == "T" || verbs[j] == "p") {
				continue
			}
			f.sink(fn, el, pos, name, nil)
		}
	}
}

// formatVerbs lists the verbs of a format in the order of the arguments (nil if it uses anything special).
func formatVerbs(s string) []string {
	var r []string
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		for i++; i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0; i++ {
		}
		if i == len(s) || s[i] == '*' || s[i] == '[' {
			return nil
		}
		if s[i] != '%' {
			r = append(r, s[i:i+1])
		}
	}
	return r
}

// elements lists the arguments collected for a variadic call.
func (f *flows) elements(v ssa.Value) ([]ssa.Value, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Comment != "varargs" {
		return nil, false
	}
	at, ok := derefType(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	r := make([]ssa.Value, at.Len())
	for _, in := range *al.Referrers() {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		n, _ := constant.Int64Val(k.Value)
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ia {
				r[n] = st.Val
			}
		}
	}
	for _, x := range r {
		if x == nil {
			return nil, false
		}
	}
	return r, true
}

func (f *flows) sink(fn *ssa.Function, v ssa.Value, pos token.Pos, how string, via []string) {
	if f.final {
		f.c.instance(rOut, f.c.p.pos(pos)+" "+extBase(how)+" "+v.Name())
	}
	rec := outRec{pos: pos, in: fnName(fn), how: extBase(how), via: via}
	for l := range f.of(v) {
		f.report(l, v, rec)
	}
	for {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
			continue
		}
		break
	}
	for l := range f.printed(v.Type(), 0, map[types.Type]bool{}) {
		f.report(l, v, rec)
	}
}

// printed lists what printing a value of the type shows of its fields.
func (f *flows) printed(t types.Type, depth int, seen map[types.Type]bool) map[label]reason {
	if seen[t] {
		return nil
	}
	seen[t] = true
	r := map[label]reason{}
	join := func(m map[label]reason) {
		for l, w := range m {
			r[l] = w
		}
	}
	if f.contentType(t) && depth > 0 {
		r[label{src: lContent, key: keyNone}] = reason{what: "a value of type " + types.TypeString(t, shortQual)}
	}
	ms := types.NewMethodSet(t)
	for _, m := range []string{"Error", "String", "GoString", "Format"} {
		if sel := ms.Lookup(nil, m); sel != nil {
			if fn := f.c.p.SSA.MethodValue(sel); fn != nil && f.c.p.inRepo(fn) {
				if rs := f.res[f.c.p.real(fn)]; len(rs) == 1 {
					for l, w := range rs[0] {
						if l.src != "p" {
							r[l] = w
						}
					}
				}
			}
			return r
		}
	}
	if d := derefType(t); d != nil {
		if depth > 0 {
			return r
		}
		t = d
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for l, w := range f.field[flowField(t, u.Field(i).Name())] {
				switch u.Field(i).Type().Underlying().(type) {
				case *types.Pointer, *types.Chan, *types.Signature:
					continue // only the address is printed
				}
				r[l] = w
			}
			join(f.printed(u.Field(i).Type(), depth+1, seen))
		}
	case *types.Map:
		join(f.printed(u.Elem(), depth+1, seen))
		join(f.printed(u.Key(), depth+1, seen))
	case *types.Slice:
		join(f.printed(u.Elem(), depth+1, seen))
	case *types.Array:
		join(f.printed(u.Elem(), depth+1, seen))
	}
	return r
}

func (f *flows) report(l label, v ssa.Value, rec outRec) {
	if l.src == "f" || l.src == "out" {
		return
	}
	if owner := l.owner(); owner != nil {
		if len(rec.via) > 12 {
			return
		}
		m := f.sinks[owner]
		if m == nil {
			m = map[label]outRec{}
			f.sinks[owner] = m
		}
		if _, ok := m[l]; !ok {
			m[l] = rec
			f.change = true
		}
		return
	}
	if !f.final {
		return
	}
	trace := []string{f.c.p.pos(rec.pos) + ": " + rec.how + " in " + rec.in}
	trace = append(trace, rec.via...)
	trace = append(trace, f.why(v, l)...)
	f.c.violate(rOut, rec.in+" "+rec.how+" "+l.src, rec.pos, rec.how+" in "+rec.in+" writes "+l.src+" to the log or the output", trace)
}

// why explains where a value has a label from.
func (f *flows) why(v ssa.Value, l label) []string {
	var r []string
	for i := 0; v != nil && i < 12; i++ {
		w, ok := f.of(v)[l]
		if !ok {
			break
		}
		s := f.c.p.pos(w.pos)
		if w.what != "" {
			s += ": " + w.what
		}
		if w.pos.IsValid() && (len(r) == 0 || r[len(r)-1] != s) {
			r = append(r, s)
		}
		v, l = w.from, w.l
	}
	return r
}
