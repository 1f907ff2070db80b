package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// pooled is the type of what Get of a package-level sync.Pool returns, if the pool has a New function and
// everything that New functions make and Put takes in the whole program has that one type.
func (p *Program) pooled(v ssa.Value) types.Type {
	call, ok := v.(*ssa.Call)
	if !ok || !isPoolCall(&call.Call, "Get") {
		return nil
	}
	g, ok := call.Call.Args[0].(*ssa.Global)
	if !ok {
		return nil
	}
	var t types.Type
	same := true
	see := func(v ssa.Value) {
		mi, ok := v.(*ssa.MakeInterface)
		if !ok || t != nil && !types.Identical(t, mi.X.Type()) {
			same = false
			return
		}
		t = mi.X.Type()
	}
	found := false
	visit := func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					if isPoolCall(x.Common(), "Put") {
						see(x.Common().Args[1])
					}
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || !isPool(fa.X.Type()) {
						continue
					}
					mk, ok := x.Val.(*ssa.Function)
					if mc, isC := x.Val.(*ssa.MakeClosure); isC {
						mk, ok = mc.Fn.(*ssa.Function)
					}
					if !ok {
						same = false
						continue
					}
					for _, mb := range mk.Blocks {
						if r, ok := mb.Instrs[len(mb.Instrs)-1].(*ssa.Return); ok {
							see(r.Results[0])
						}
					}
					if fa.X == g || copiedTo(fa.X, g) {
						found = true
					}
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		visit(fn)
	}
	for _, sp := range p.ByRel {
		if fn := sp.Func("init"); fn != nil {
			visit(fn)
		}
	}
	if !found || !same {
		return nil
	}
	return t
}

// copiedTo: the composite literal at a is what the package-level variable is initialised with
func copiedTo(a ssa.Value, g *ssa.Global) bool {
	refs := a.Referrers()
	if refs == nil {
		return false
	}
	for _, in := range *refs {
		ld, ok := in.(*ssa.UnOp)
		if !ok || ld.Referrers() == nil {
			continue
		}
		for _, u := range *ld.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == g {
				return true
			}
		}
	}
	return false
}

func isPool(t types.Type) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && n.Obj().Name() == "Pool"
}

func isPoolCall(c *ssa.CallCommon, name string) bool {
	fn := c.StaticCallee()
	return fn != nil && fn.Name() == name && len(c.Args) > 0 && isPool(c.Args[0].Type())
}
