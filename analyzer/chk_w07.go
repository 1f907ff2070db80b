package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkFns["W07"] = checkW07 }

// fallible calls whose failure means nothing for the operation
var harmlessFailure = map[string]string{
	"os/user.Current": "no default user is known then",
}

// lastError is the position of the error among the results, -1 if there is none.
func lastError(sig *types.Signature) int {
	n := sig.Results().Len()
	if n == 0 || !isErrorType(sig.Results().At(n-1).Type()) {
		return -1
	}
	return n - 1
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// decodeRoot: an operation of the package pg that reads or decodes something, or sends.
func (p *Program) decodeRoot(fn *ssa.Function) bool {
	if fn == nil || fn.Object() == nil || !fn.Object().Exported() || fn.Pkg == nil || fn.Pkg.Pkg.Path() != pgPath || fn.Synthetic != "" {
		return false
	}
	return lastError(fn.Signature) >= 0
}

// W07: the fate of the error of every fallible call.
func checkW07(c *Check) {
	var roots []*ssa.Function
	for _, fn := range c.p.Funcs {
		if c.p.decodeRoot(fn) && fn.Blocks != nil {
			roots = append(roots, fn)
		}
	}
	if fn := c.mustFn("pkg/cli", "", "readServerConfig"); fn != nil {
		roots = append(roots, fn)
	}
	if len(roots) < 30 {
		c.undecided("roots", "only %d reading and decoding operations found", len(roots))
	}
	for _, fn := range roots {
		fn := fn
		e := c.explore(fn, Opts{Havoc: true, Prim: func(f *ssa.Function) bool { return f != fn && c.p.decodeRoot(f) }})
		c.errorFate(e, fn)
	}
}

// callError is the error a call may have returned.
func (c *Check) callError(ev *Event) *Term {
	if ev.Kind != "call" || ev.Defer {
		return nil
	}
	in, ok := ev.Site.in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	sig := in.Common().Signature()
	i := lastError(sig)
	if i < 0 {
		return nil
	}
	n := ev.Name
	if _, ok := harmlessFailure[n]; ok {
		return nil
	}
	for _, p := range []string{"fmt.", "errors.", "(error)", "(*bytes.Buffer).Write", "(*strings.Builder)", "log.", "github.com/sirupsen/logrus."} {
		if strings.HasPrefix(n, p) {
			return nil
		}
	}
	if strings.HasSuffix(n, ").Close") || strings.HasSuffix(n, ").Unwrap") {
		return nil
	}
	if ev.Res == nil {
		return c.n.mk(Term{op: "sym", aux: "dropped", site: ev.Site, typ: sig.Results().At(i).Type()})
	}
	if sig.Results().Len() == 1 {
		return ev.Res
	}
	return ext(c.n, ev.Res, i, types.Universe.Lookup("error").Type())
}

func (c *Check) errorFate(e *Exec, fn *ssa.Function) {
	const rule = "errors reported"
	who := fnName(fn)
	last := lastError(fn.Signature)
	c.instance(rule, who)
	// forgiven: the call reported that it doesn't know the message, which is no failure to decode it
	forgiven := func(m *Mon, err *Term) bool {
		for _, f := range append(m.all("?t"), m.all("forgive")...) {
			t := f.a
			if (t.op == "erris" || t.op == "eq") && (t.args[0] == err || t.args[1] == err) {
				for _, s := range t.args {
					if s.op == "load" && s.args[0].op == "global" && strings.HasSuffix(s.args[0].obj.(*ssa.Global).Name(), "nsupportedAuthenticationRequest") {
						return true
					}
				}
			}
		}
		return false
	}
	nameOf := func(err *Term) string {
		for _, l := range err.leaf {
			if l.site != nil {
				if in, ok := l.site.in.(ssa.CallInstruction); ok {
					if f := in.Common().StaticCallee(); f != nil {
						return fnName(f)
					}
				}
			}
		}
		return err.String()
	}
	settle := func(m *Mon) {
		for _, f := range m.all("err") {
			if n, known := m.isNil(f.b); known && n || forgiven(m, f.b) {
				m.del("err", f.a)
			}
		}
	}
	c.product(e, nil, func(m *Mon, ev *Event) {
		settle(m)
		switch ev.Kind {
		case "iter":
			m.follow(ev, "err")
		case "call":
			if ev.Name == "net/url.ParseQuery" {
				m.set("query", nil, nil)
			}
			if ev.Name == "(*net/url.URL).Query" && !m.has("query", nil) {
				m.fail(rule, who, "malformed query parameters are dropped silently by url.URL.Query")
			}
			x := c.callError(ev)
			if x == nil {
				return
			}
			for _, f := range m.all("err") {
				if f.a.site == ev.Site {
					m.fail(rule, who, "the error of %s is overwritten before it was looked at", nameOf(f.b))
				}
			}
			k := ev.Res
			if k == nil {
				k = x
			}
			m.set("err", k, x)
		case "return":
			err := ev.Args[last]
			n, known := m.isNil(err)
			if known && n {
				for _, f := range m.all("err") {
					m.fail(rule, who, "returns success although %s may have failed", nameOf(f.b))
				}
				return
			}
			var own *Term
			for _, f := range m.all("err") {
				if f.b == err {
					own = f.a
				} else if !known {
					m.fail(rule, who, "may return success although %s may have failed", nameOf(f.b))
				}
			}
			if !known && own == nil && !strings.HasSuffix(nameOf(err), ").Close") && !strings.HasPrefix(err.String(), "(net.Conn).Close") {
				m.fail(rule, who, "cannot tell whether the error returned, %v, is that of a failed step", err)
			}
			for i, r := range ev.Args {
				if i != last && !noResult(m, unface(r), own, err) {
					m.fail(rule, who, "returns the result %v together with an error", r)
				}
			}
		}
	})
}

// noResult: r is empty, or what the failed call itself has returned.
func noResult(m *Mon, r, own, err *Term) bool {
	if n, known := m.isNil(r); known && n {
		return true
	}
	if r.op == "const" {
		if v, ok := r.intVal(); ok {
			return v == 0
		}
		if v, ok := r.strVal(); ok {
			return v == ""
		}
		if v, ok := r.boolVal(); ok {
			return !v
		}
		return r.val == nil
	}
	if r.op == "alloc" || r.op == "struct" {
		return false
	}
	// the other results of the call that failed
	if own == nil && err.op == "ext" {
		own = err.args[0]
	}
	if own == nil {
		return false
	}
	for _, l := range r.leaf {
		if l != own && l.op != "const" && l.op != "nil" {
			return false
		}
	}
	return len(r.leaf) > 0
}
