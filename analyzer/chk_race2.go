package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// origin labels values of the protocol package with the shared memory they refer to.
type origins struct {
	c      *Check
	fns    []*ssa.Function
	of     map[ssa.Value]map[string]bool
	change bool
}

func (o *origins) add(v ssa.Value, l string) {
	if o.of[v] == nil {
		o.of[v] = map[string]bool{}
	}
	if !o.of[v][l] {
		o.of[v][l] = true
		o.change = true
	}
}

func (o *origins) copy(from, to ssa.Value) {
	if from == nil || to == nil {
		return
	}
	for l := range o.of[from] {
		o.add(to, l)
	}
}

// refers: values of this type share memory with where they come from.
func refers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
		return true
	case *types.Interface:
		return u.NumMethods() == 0 || !isErr(t)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refers(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refers(u.At(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refers(u.Elem())
	}
	return false
}

func isErr(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// safeType: values of this type may be used by several goroutines.
func safeType(t types.Type) bool {
	if d := derefType(t); d != nil {
		t = d
	}
	pk, n := pkgAndName(t)
	switch {
	case pk == "sync", pk == "sync/atomic", pk == "net", pk == "regexp", pk == "io" && n != "LimitedReader", isErr(t):
		return true
	}
	_, fn := t.Underlying().(*types.Signature)
	return fn
}

// protocolState: package variables, connection fields and pooled buffers of the protocol package.
func (c *Check) protocolState() {
	o := &origins{c: c, of: map[ssa.Value]map[string]bool{}}
	calls := map[*ssa.Function][]ssa.CallInstruction{}
	for _, fn := range c.p.Funcs {
		if relPkg(fnPkg(fn)) != "pkg/pg" || fn.Blocks == nil || strings.HasPrefix(fn.Name(), "init") {
			continue
		}
		o.fns = append(o.fns, fn)
		if pk, n := recvNamed(fn); pk == pgPath && n == "Conn" {
			o.add(fn.Params[0], "")
		}
		c.instance(rGlob, fnName(fn))
	}
	callees := func(ci ssa.CallInstruction) []*ssa.Function {
		cc := ci.Common()
		if cc.IsInvoke() {
			return c.p.implementations(cc.Method)
		}
		if f := cc.StaticCallee(); f != nil {
			return []*ssa.Function{f}
		}
		return nil
	}
	for _, fn := range o.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, f := range callees(ci) {
						calls[f] = append(calls[f], ci)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == pgPath && !safeType(derefType(g.Type())) {
						o.add(g, "variable "+g.Name())
					}
				}
			}
		}
	}
	for o.change = true; o.change; {
		o.change = false
		for _, fn := range o.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					o.flow(in, calls, callees)
				}
			}
		}
	}
	// what is written
	type use struct {
		fn    *ssa.Function
		pos   token.Pos
		group string
	}
	writes, uses, out := map[string][]use{}, map[string][]use{}, map[string][]use{}
	groups := c.connGroups(callees)
	for _, fn := range o.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				note := func(m map[string][]use, v ssa.Value) {
					for l := range o.of[v] {
						if l == "" {
							continue
						}
						for g := range groups[fn] {
							m[l] = append(m[l], use{fn, instrPos(in), g})
						}
						if len(groups[fn]) == 0 {
							m[l] = append(m[l], use{fn, instrPos(in), ""})
						}
					}
				}
				switch x := in.(type) {
				case *ssa.Store:
					note(writes, x.Addr)
				case *ssa.MapUpdate:
					note(writes, x.Map)
				case *ssa.UnOp:
					if x.Op == token.MUL {
						note(uses, x.X)
					}
				case *ssa.Lookup:
					note(uses, x.X)
				case *ssa.Return:
					if fn.Object() != nil && fn.Object().Exported() {
						for _, r := range x.Results {
							if refers(r.Type()) {
								note(out, r)
							}
						}
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy", "delete", "clear":
							note(writes, cc.Args[0])
						case "append":
							if _, ok := cc.Args[0].(*ssa.Slice); ok {
								note(writes, cc.Args[0])
							}
						}
						continue
					}
					inside := false
					for _, f := range callees(x) {
						inside = inside || c.p.inRepo(f) && f.Blocks != nil
					}
					name, _ := c.p.external(cc)
					if inside || name == "" && !cc.IsInvoke() {
						continue
					}
					base := name[strings.LastIndexByte(name, '.')+1:]
					if name == "(*sync.Pool).Put" && len(cc.Args) > 1 {
						note(writes, cc.Args[1])
						continue
					}
					fill := fills(name) || strings.HasPrefix(base, "Put") || strings.HasPrefix(base, "AppendUint")
					for i, a := range cc.Args {
						_, sl := a.Type().Underlying().(*types.Slice)
						recv := i == 0 && cc.Signature().Recv() != nil && !cc.IsInvoke()
						switch {
						case i == 0 && (strings.HasPrefix(name, "io.Copy") || strings.HasPrefix(name, "fmt.Fprint")), fill && sl, recv && !safeType(a.Type()) && stateful(a.Type()):
							note(writes, a)
						case strings.HasPrefix(name, "sync/atomic."):
						default:
							note(uses, a)
						}
					}
				}
			}
		}
	}
	for _, l := range sortStrings(writes) {
		ws := writes[l]
		us := append(append([]use{}, ws...), uses[l]...)
		switch {
		case strings.HasPrefix(l, "variable "):
			if c.guardedVar(strings.TrimPrefix(l, "variable "), o.fns, o) {
				continue
			}
			c.violate(rGlob, l+" in "+fnName(ws[0].fn), ws[0].pos, l+" is shared by all connections and written after initialisation without a lock", nil)
		case strings.HasPrefix(l, "pool"):
			for _, u := range out[l] {
				c.violate(rGlob, "pooled memory in "+fnName(u.fn), u.pos, "what is returned shares memory with a buffer that goes back to the pool in "+fnName(ws[0].fn), nil)
				break
			}
		default:
			for _, u := range out[l] {
				if strings.HasPrefix(u.group, "recv") {
					c.violate(rSent, l+" in "+fnName(u.fn), u.pos, "the message received shares the connection's "+l+", which is written in "+fnName(ws[0].fn)+" while another goroutine uses the message", nil)
					break
				}
			}
			bad := false
			for _, w := range ws {
				for _, u := range us {
					if w.group != "" && u.group != "" && w.group != u.group && !bad && !c.lockedIn(w.fn, u.fn) {
						bad = true
						c.violate(rGlob, "Conn."+l+" in "+fnName(w.fn)+" and "+fnName(u.fn), w.pos, "the connection's "+l+" is written in "+fnName(w.fn)+" ("+w.group+") while "+fnName(u.fn)+" ("+u.group+") may use it", nil)
					}
				}
			}
		}
	}
	c.floor(rGlob, 20, "functions of the protocol package")
}

// stateful: using the value changes it.
func stateful(t types.Type) bool {
	pk, n := pkgAndName(t)
	switch pk + "." + n {
	case "bytes.Buffer", "strings.Builder", "bufio.Reader", "bufio.Writer", "bufio.ReadWriter", "bufio.Scanner", "bytes.Reader", "math/rand.Rand", "encoding/json.Encoder", "encoding/json.Decoder", "io.LimitedReader", "text/tabwriter.Writer":
		return true
	}
	return false
}

func (o *origins) flow(in ssa.Instruction, calls map[*ssa.Function][]ssa.CallInstruction, callees func(ssa.CallInstruction) []*ssa.Function) {
	switch x := in.(type) {
	case *ssa.FieldAddr:
		o.field(x.X, x, x.X.Type(), x.Field)
	case *ssa.Field:
		if refers(x.Type()) {
			o.copy(x.X, x)
		}
	case *ssa.IndexAddr:
		o.copy(x.X, x)
	case *ssa.Slice:
		o.copy(x.X, x)
	case *ssa.UnOp:
		if x.Op == token.MUL && refers(x.Type()) && !safeType(x.Type()) {
			o.copy(x.X, x)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			o.copy(e, x)
		}
	case *ssa.ChangeType:
		o.copy(x.X, x)
	case *ssa.MakeInterface:
		o.copy(x.X, x)
	case *ssa.ChangeInterface:
		o.copy(x.X, x)
	case *ssa.TypeAssert:
		o.copy(x.X, x)
	case *ssa.Extract:
		if refers(x.Type()) {
			o.copy(x.Tuple, x)
		}
	case *ssa.Store:
		// what is kept in a local object makes the object refer to it
		if refers(x.Val.Type()) {
			if b := localBase(x.Addr); b != nil {
				for l := range o.of[x.Val] {
					if l != "" {
						o.add(b, l)
					}
				}
			}
		}
	case ssa.CallInstruction:
		cc := x.Common()
		v, _ := x.(ssa.Value)
		if bi, ok := cc.Value.(*ssa.Builtin); ok {
			if bi.Name() == "append" && v != nil {
				o.copy(cc.Args[0], v)
			}
			return
		}
		name, _ := o.c.p.external(cc)
		if name == "(*sync.Pool).Get" && v != nil {
			o.add(v, "pool")
			return
		}
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		for _, f := range callees(x) {
			if !o.c.p.inRepo(f) || f.Blocks == nil {
				continue
			}
			for i, a := range args {
				if i < len(f.Params) && !safeType(a.Type()) {
					for l := range o.of[a] {
						if l != "" || isConnType(f.Params[i].Type()) {
							o.add(f.Params[i], l)
						}
					}
				}
			}
			if v != nil && refers(v.Type()) {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, res := range r.Results {
							if refers(res.Type()) {
								o.copy(res, v)
							}
						}
					}
				}
			}
		}
		// library functions that return part of what they are given
		if v != nil && name != "" {
			switch name {
			case "bytes.NewBuffer", "bytes.NewReader", "bytes.TrimSuffix", "bytes.TrimPrefix", "bytes.TrimRight", "bytes.TrimLeft", "bytes.TrimSpace", "bytes.Split", "bytes.SplitN", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Next", "(*bufio.Reader).Peek", "(*bufio.Reader).ReadSlice", "(*bytes.Buffer).AvailableBuffer":
				o.copy(args[0], v)
			}
		}
	}
}

func localBase(a ssa.Value) ssa.Value {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Alloc:
			return x
		default:
			return nil
		}
	}
}

func (o *origins) field(base, to ssa.Value, t types.Type, i int) {
	st, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return
	}
	for l := range o.of[base] {
		switch {
		case l == "" && isConnType(t):
			if !safeType(st.Field(i).Type()) {
				o.add(to, st.Field(i).Name())
			}
		case l != "":
			o.add(to, l)
		}
	}
}

// connGroups: which operations of a connection a function belongs to; receiving, sending and closing are concurrent.
func (c *Check) connGroups(callees func(ssa.CallInstruction) []*ssa.Function) map[*ssa.Function]map[string]bool {
	r := map[*ssa.Function]map[string]bool{}
	var visit func(fn *ssa.Function, g string)
	visit = func(fn *ssa.Function, g string) {
		if r[fn] == nil {
			r[fn] = map[string]bool{}
		}
		if r[fn][g] || fn.Blocks == nil {
			return
		}
		r[fn][g] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, f := range callees(ci) {
						if c.p.inRepo(f) {
							visit(f, g)
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function), g)
				}
			}
		}
	}
	for _, fn := range c.p.Funcs {
		if pk, n := recvNamed(fn); pk != pgPath || n != "Conn" || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		g := fn.Name()
		for _, p := range []string{"Recv", "Send"} {
			if strings.HasPrefix(g, p) {
				g = strings.ToLower(p)
			}
		}
		visit(fn, g)
	}
	return r
}

// lockedIn: both functions hold a lock of the connection at every access of its fields.
func (c *Check) lockedIn(fns ...*ssa.Function) bool {
	for _, fn := range fns {
		if len(fn.Params) == 0 {
			return false
		}
		ok, any := true, false
		e := c.explore(fn, Opts{Access: true})
		self := c.n.param(fn, 0, fn.Params[0])
		c.product(e, nil, func(m *Mon, ev *Event) {
			if l, _ := isLock(ev); l {
				m.set("lk", ev.Args[0], nil)
				any = true
			}
			if u, _ := isUnlock(ev); u {
				m.del("lk", ev.Args[0])
			}
			if (ev.Kind == "store" || ev.Kind == "load") && container(ev.Addr) == self && len(m.all("lk")) == 0 {
				if ev.Kind == "store" || !safeType(typOf(ev.Res)) {
					ok = false
				}
			}
		})
		if !ok || !any {
			return false
		}
	}
	return true
}

// guardedVar: every access of the variable happens with a lock held or after the same sync.Once.
func (c *Check) guardedVar(name string, fns []*ssa.Function, o *origins) bool {
	good := true
	for _, fn := range fns {
		touches := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Name() == name {
						touches = true
					}
				}
			}
		}
		if !touches || fn.Parent() != nil {
			continue
		}
		c.product(c.explore(fn, Opts{Access: true}), nil, func(m *Mon, ev *Event) {
			if l, _ := isLock(ev); l || ev.Kind == "once" {
				m.set("lk", ev.Args[0], nil)
			}
			if u, _ := isUnlock(ev); u {
				m.del("lk", ev.Args[0])
			}
			hit := false
			for _, a := range append(append([]*Term{}, ev.Args...), ev.Addr) {
				if b := container(a); b != nil && b.op == "global" {
					if g, ok := b.obj.(*ssa.Global); ok && g.Name() == name {
						hit = true
					}
				}
			}
			if hit && len(m.all("lk")) == 0 && ev.Kind != "branch" {
				good = false
			}
		})
	}
	return good
}
