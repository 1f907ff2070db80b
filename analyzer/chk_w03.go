package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checkFns["W03"] = checkW03 }

func checkW03(c *Check) {
	if fn := c.mustFn("pkg/pg", "", "ReadStandardFrame"); fn != nil {
		c.frameReader(fn, 1)
	}
	if fn := c.mustFn("pkg/pg", "", "ReadStartupFrame"); fn != nil {
		c.frameReader(fn, 0)
	}
	if fn := c.mustFn("pkg/pg", "", "NewStandardFrame"); fn != nil {
		c.frameBuilder(fn, true)
	}
	if fn := c.mustFn("pkg/pg", "", "NewStartupFrame"); fn != nil {
		c.frameBuilder(fn, false)
	}
	for _, a := range []struct {
		t    string
		head int64
	}{{"StandardFrame", 5}, {"StartupFrame", 4}} {
		for _, n := range []string{"MessageType", "MessageBody", "Bytes"} {
			if fn := c.mustFn("pkg/pg", a.t, n); fn != nil {
				c.frameAccessor(fn, n, a.head)
			}
		}
	}
}

// pieces lists the reads that a byte slice consists of; false if it has other parts.
func (m *Mon) pieces(t *Term) ([]*Term, bool) {
	switch {
	case m.emptySlice(t):
		return nil, true
	case t.op == "append" && t.aux == "...":
		a, ok1 := m.pieces(t.args[0])
		b, ok2 := m.pieces(t.args[1])
		return append(a, b...), ok1 && ok2
	case t.op == "read":
		return []*Term{t.args[2]}, true
	}
	b, lo, hi := m.e.sliceParts(t)
	if k, ok := lo.intVal(); ok && k == 0 {
		if b != t && (hi == nil || m.sameInt(hi, m.e.length(m.ev.St, b))) {
			return m.pieces(b)
		}
	}
	if r := m.get("region", t); r != nil {
		return []*Term{r}, true
	}
	return nil, false
}

// beTerms lists the big-endian integers that a condition speaks of.
func beTerms(cond *Term) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "be" {
			r = append(r, t)
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(cond)
	return r
}

// frameReader: skip is the number of bytes before the length field.
func (c *Check) frameReader(fn *ssa.Function, skip int64) {
	const rule = "delimit"
	who := fnName(fn)
	c.instance(rule, who)
	e := c.explore(fn, Opts{})
	r := c.n.param(fn, 0, fn.Params[0])
	errOf := func(res *Term) *Term {
		return ext(c.n, res, 1, types.Universe.Lookup("error").Type())
	}
	// lengthField: v is the length field of the frame, read from the first bytes of the stream
	lengthField := func(m *Mon, v *Term) bool {
		v = bitsOf(v)
		if v.op != "be" || v.aux != "32" {
			return false
		}
		b, lo, hi := e.sliceParts(v.args[0])
		ps, ok := m.pieces(b)
		first := m.get("rd0", nil)
		return ok && len(ps) > 0 && ps[0] == first && m.sameInt(lo, e.n.int(skip)) && (hi == nil || m.prover().proveLE(e.n.int(skip+4), hi))
	}
	c.product(e, nil, func(m *Mon, ev *Event) {
		switch ev.Kind {
		case "branch":
			for _, b := range beTerms(ev.Cond) {
				m.set("be", b, nil)
			}
		case "call":
			switch ev.Name {
			case "io.CopyN", "io.ReadFull":
				src, cnt := ev.Args[0], e.length(ev.St, ev.Args[1])
				if ev.Name == "io.CopyN" {
					src, cnt = ev.Args[1], ev.Args[2]
				}
				if src != r {
					m.fail(rule, who, "reads from %v", src)
					return
				}
				if !m.prover().proveLE(e.n.int(0), cnt) {
					m.fail(rule, who, "the number of bytes to read, %v, may be negative, which counts as success", cnt)
				}
				i := 0
				for m.has("rd"+itoa(i), nil) {
					i++
				}
				m.set("rd"+itoa(i), nil, ev.Res)
				m.set("n"+itoa(i), nil, cnt)
				if ev.Name == "io.ReadFull" {
					m.set("region", ev.Args[1], ev.Res)
					if b, lo, hi := e.sliceParts(ev.Args[1]); b != ev.Args[1] && (hi == nil || m.sameInt(hi, e.length(ev.St, b))) && m.sameInt(lo, e.n.int(0)) {
						m.set("region", b, ev.Res)
					}
				}
				return
			case "(encoding/binary.bigEndian).Uint32":
				return
			}
			for _, a := range ev.Args {
				if unface(a) == r || a == r {
					m.fail(rule, who, "the stream is read by %s", shortName(ev.Name))
				}
			}
		case "iter":
			m.fail(rule, who, "reads in a loop")
		case "return":
			n, known := m.isNil(ev.Args[1])
			p := m.prover()
			if !known || !n {
				ok := false
				for i := 0; m.has("rd"+itoa(i), nil); i++ {
					x := errOf(m.get("rd"+itoa(i), nil))
					if v, k := m.isNil(x); x == ev.Args[1] || k && !v {
						ok = true
					}
				}
				for _, f := range m.all("be") {
					b := f.a
					for _, x := range []*Term{b, e.n.conv(b, types.Typ[types.Uint32], types.Typ[types.Int32])} {
						if lengthField(m, x) && p.proveLT(x, e.n.int(4)) {
							ok = true
						}
					}
				}
				if !ok {
					m.fail(rule, who, "refuses a frame whose length covers itself and whose bytes were all read")
				}
				if known {
					return
				}
			}
			total := linear{c: map[*Term]int64{}, k: -skip, ok: true}
			var want []*Term
			for i := 0; m.has("rd"+itoa(i), nil); i++ {
				res := m.get("rd"+itoa(i), nil)
				want = append(want, res)
				x := errOf(res)
				if v, k := m.isNil(x); !(k && v) && x != ev.Args[1] {
					m.fail(rule, who, "returns a frame although a read may have failed")
					return
				}
				total = total.add(p.lin(m.get("n"+itoa(i), nil)), 1)
			}
			got, ok := m.pieces(unface(ev.Args[0]))
			if len(got) != len(want) {
				ok = false
			}
			for i := 0; ok && i < len(want); i++ {
				ok = got[i] == want[i]
			}
			if !ok || len(want) == 0 {
				m.fail(rule, who, "the frame returned, %v, is not the bytes read", ev.Args[0])
				return
			}
			// total is now the length field
			var lf *Term
			for v, k := range total.c {
				if k == 1 && len(total.c) == 1 {
					lf = v
				}
			}
			if lf == nil || total.k != 0 || !lengthField(m, lf) {
				m.fail(rule, who, "the number of bytes read is not the length field%s", map[bool]string{true: " plus the type byte"}[skip == 1])
				return
			}
			if !p.proveLE(e.n.int(4), lf) {
				m.fail(rule, who, "a length below 4 is accepted")
			}
		}
	})
}

func (c *Check) frameBuilder(fn *ssa.Function, std bool) {
	const rule = "build"
	who := fnName(fn)
	c.instance(rule, who)
	e := c.explore(fn, Opts{})
	var want []tok
	body := c.n.param(fn, len(fn.Params)-1, fn.Params[len(fn.Params)-1])
	if std {
		want = append(want, tok{c.n.param(fn, 0, fn.Params[0]), false})
	}
	c.product(e, nil, func(m *Mon, ev *Event) {
		if ev.Kind != "return" {
			return
		}
		l := e.n.bin("+", e.length(ev.St, body), e.n.int(4), types.Typ[types.Int])
		exp := append(append(append([]tok(nil), want...), intToks(e, l, 4)...), tok{body, true})
		got := e.toks(ev.St, unface(ev.Args[0]))
		if !sameToks(got, exp) {
			m.fail(rule, who, "builds %s instead of %s", tokString(got), tokString(exp))
		}
	})
}

func (c *Check) frameAccessor(fn *ssa.Function, what string, head int64) {
	const rule = "parts"
	who := fnName(fn)
	c.instance(rule, who)
	e := c.explore(fn, Opts{})
	self := c.n.param(fn, 0, fn.Params[0])
	c.product(e, nil, func(m *Mon, ev *Event) {
		if ev.Kind != "return" {
			return
		}
		ok := false
		r := ev.Args[0]
		switch what {
		case "MessageType":
			if head == 5 {
				ok = r.op == "load" && r.args[0] == e.iaddr(self, e.n.int(0))
			} else {
				v, k := r.intVal()
				ok = k && v == 0
			}
		case "MessageBody":
			ok = m.isPart(r, self, e.n.int(head), nil)
		case "Bytes":
			ok = r == self || m.isPart(r, self, e.n.int(0), nil)
		}
		if !ok {
			m.fail(rule, who, "returns %v", r)
		}
	})
}
