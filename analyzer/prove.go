package main

import (
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// prover decides linear inequalities over integer terms from the path facts (a small polyhedral domain,
// Fourier-Motzkin elimination over the constraints connected to the goal).
type prover struct {
	e     *Exec
	s     *State
	depth int
	extra []linear // further constraints
	memo  map[*Term][2]int64
	busy  map[*Term]bool
}

func (e *Exec) newProver(s *State) *prover {
	return &prover{e: e, s: s, memo: map[*Term][2]int64{}, busy: map[*Term]bool{}}
}

type linear struct {
	c  map[*Term]int64
	k  int64
	ok bool
}

func (l linear) add(m linear, f int64) linear {
	r := linear{c: map[*Term]int64{}, k: l.k + f*m.k, ok: l.ok && m.ok}
	for t, v := range l.c {
		r.c[t] = v
	}
	for t, v := range m.c {
		r.c[t] += f * v
		if r.c[t] == 0 {
			delete(r.c, t)
		}
	}
	return r
}

func single(t *Term) linear { return linear{c: map[*Term]int64{t: 1}, ok: true} }

// rng is an interval of a term from its type and the facts against constants.
func (p *prover) rng(t *Term) (int64, int64) {
	if v, ok := t.intVal(); ok {
		return v, v
	}
	if r, ok := p.memo[t]; ok {
		return r[0], r[1]
	}
	lo, hi, ok := typeRange(t.typ)
	if !ok {
		lo, hi = -1<<63, 1<<63-1
	}
	if p.busy[t] {
		return lo, hi
	}
	p.busy[t] = true
	defer delete(p.busy, t)
	clampHi := func(v int64) {
		if v < hi {
			hi = v
		}
	}
	clampLo := func(v int64) {
		if v > lo {
			lo = v
		}
	}
	switch t.op {
	case "len", "cap":
		clampLo(0)
		clampHi(maxLen() / elemSize(t.args[0].typ))
	case "bin":
		if _, isC := t.args[1].intVal(); !isC && (t.aux == "+" || t.aux == "-") && len(p.busy) < 12 {
			a, b := p.rng(t.args[0])
			c, d := p.rng(t.args[1])
			if t.aux == "-" {
				c, d = -d, -c
			}
			if c > -1<<62 && d < 1<<62 && d > -1<<62 && c < 1<<62 {
				if x, y := satAdd(a, c), satAdd(b, d); x >= lo && y <= hi {
					lo, hi = x, y
				}
			}
		}
		if c, ok := t.args[1].intVal(); ok {
			a, b := p.rng(t.args[0])
			switch t.aux {
			case "+":
				if x, y := satAdd(a, c), satAdd(b, c); x >= lo && y <= hi {
					lo, hi = x, y
				}
			case "/":
				if c > 0 {
					if a/c > lo {
						lo = a / c
					}
					clampHi(b / c)
				}
			case "&":
				if c >= 0 {
					clampLo(0)
					clampHi(c)
				}
			case "%":
				if c > 0 && a >= 0 {
					clampLo(0)
					clampHi(c - 1)
				}
			case "*":
				if c > 0 && a > -maxInt62/c && b < maxInt62/c && a*c >= lo && b*c <= hi {
					lo, hi = a*c, b*c
				}
			case ">>":
				if c >= 0 && c < 63 && a >= 0 {
					lo, hi = a>>uint(c), b>>uint(c)
				}
			}
		}
	}
	if bi := indexByteOf(t); bi != nil {
		clampLo(-1)
		clampHi(maxLen())
	}
	for f, v := range p.s.facts {
		if f.op == "eq" && v {
			for i := 0; i < 2; i++ {
				if f.args[i] == t {
					if c, ok := f.args[1-i].intVal(); ok {
						clampLo(c)
						clampHi(c)
					}
				}
			}
		}
		if f.op != "lt" {
			continue
		}
		a, b := f.args[0], f.args[1]
		if a == t && p.depth < 4 {
			p.depth++
			bl, bh := p.rng(b)
			p.depth--
			if v {
				clampHi(satAdd(bh, -1))
			} else {
				clampLo(bl)
			}
		}
		if b == t && p.depth < 4 {
			p.depth++
			al, ah := p.rng(a)
			p.depth--
			if v {
				clampLo(satAdd(al, 1))
			} else {
				clampHi(ah)
			}
		}
	}
	if p.depth == 0 && len(p.busy) == 1 {
		p.memo[t] = [2]int64{lo, hi}
	}
	return lo, hi
}

// elemSize is the size of the elements of a slice type (1 if unknown).
func elemSize(t types.Type) int64 {
	if t != nil {
		if s, ok := t.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok {
				if n := typeBits(b); n > 8 {
					return int64(n / 8)
				}
			}
		}
	}
	return 1
}

func satAdd(a, b int64) int64 {
	c := a + b
	if a > 0 && b > 0 && c < 0 {
		return 1<<63 - 1
	}
	if a < 0 && b < 0 && c >= 0 {
		return -1 << 63
	}
	return c
}

// indexByteOf: t is the result of bytes.IndexByte / strings.IndexByte(x, c); returns x.
func indexByteOf(t *Term) *Term {
	if t.op == "sym" && (strings.HasPrefix(t.aux, "bytes.Index") || strings.HasPrefix(t.aux, "strings.Index")) {
		return t
	}
	return nil
}

// lin normalises an integer term; sums that could wrap around stay opaque.
func (p *prover) lin(t *Term) linear {
	if v, ok := t.intVal(); ok {
		return linear{c: map[*Term]int64{}, k: v, ok: true}
	}
	if t.op == "bin" {
		x, y := t.args[0], t.args[1]
		lo, hi, ok := typeRange(t.typ)
		switch t.aux {
		case "+", "-":
			a, b := p.rng(x)
			c, d := p.rng(y)
			var l, h int64
			if t.aux == "+" {
				l, h = satAdd(a, c), satAdd(b, d)
			} else {
				if d == -1<<63 || c == -1<<63 {
					break
				}
				l, h = satAdd(a, -d), satAdd(b, -c)
			}
			if ok && l >= lo && h <= hi && l > -1<<63 && h < 1<<63-1 {
				f := int64(1)
				if t.aux == "-" {
					f = -1
				}
				return p.lin(x).add(p.lin(y), f)
			}
		case "*":
			if c, isC := y.intVal(); isC && c > 0 && c < 1<<20 {
				a, b := p.rng(x)
				if ok && a > -maxInt62/c && b < maxInt62/c && a*c >= lo && b*c <= hi {
					l := p.lin(x)
					r := linear{c: map[*Term]int64{}, k: l.k * c, ok: true}
					for v, k := range l.c {
						r.c[v] = k * c
					}
					return r
				}
			}
		case "<<":
			if c, isC := y.intVal(); isC && c >= 0 && c < 20 {
				return p.lin(p.e.n.bin("*", x, p.e.n.constant(constant.MakeInt64(1<<uint(c)), nil), t.typ))
			}
		}
	}
	return single(t)
}

type ineq struct { // sum c*t + k >= 0
	c map[*Term]*big.Int
	k *big.Int
}

func mkIneq(l linear) ineq {
	q := ineq{c: map[*Term]*big.Int{}, k: big.NewInt(l.k)}
	for t, v := range l.c {
		q.c[t] = big.NewInt(v)
	}
	return q
}

func (p *prover) constraints() []linear {
	var cs []linear
	one := linear{c: map[*Term]int64{}, k: -1, ok: true}
	for _, f := range sortedKeys(p.s.facts) {
		v := p.s.facts[f]
		switch f.op {
		case "lt":
			if !isNumTerm(f.args[0]) || !isNumTerm(f.args[1]) {
				continue
			}
			a, b := p.lin(f.args[0]), p.lin(f.args[1])
			if v { // b - a - 1 >= 0
				cs = append(cs, b.add(a, -1).add(one, 1))
			} else {
				cs = append(cs, a.add(b, -1))
			}
		case "eq":
			if !isNumTerm(f.args[0]) || !isNumTerm(f.args[1]) {
				continue
			}
			a, b := p.lin(f.args[0]), p.lin(f.args[1])
			if v {
				cs = append(cs, a.add(b, -1), b.add(a, -1))
			} else {
				// x != c at the edge of its range
				for i := 0; i < 2; i++ {
					x, c := f.args[i], f.args[1-i]
					if k, ok := c.intVal(); ok {
						lo, hi := p.rng(x)
						if lo == k {
							cs = append(cs, p.lin(x).add(linear{c: map[*Term]int64{}, k: -(k + 1), ok: true}, 1))
						}
						if hi == k {
							cs = append(cs, linear{c: map[*Term]int64{}, k: k - 1, ok: true}.add(p.lin(x), -1))
						}
					}
				}
			}
		}
	}
	return cs
}

// varFacts are the inherent bounds of a variable.
func (p *prover) varFacts(t *Term) []linear {
	var cs []linear
	lo, hi := p.rng(t)
	if lo > -1<<62 {
		cs = append(cs, single(t).add(linear{c: map[*Term]int64{}, k: -lo, ok: true}, 1))
	}
	if hi < 1<<61 {
		cs = append(cs, linear{c: map[*Term]int64{}, k: hi, ok: true}.add(single(t), -1))
	}
	if x := indexByteOf(t); x != nil {
		// r <= len(haystack) - 1
		if h, ok := p.e.symArg(p.s, t, 0); ok {
			cs = append(cs, p.lin(p.e.length(p.s, h)).add(single(t), -1).add(linear{c: map[*Term]int64{}, k: -1, ok: true}, 1))
		}
	}
	if t.op == "bin" && (t.aux == "/" || t.aux == ">>") {
		c, ok := t.args[1].intVal()
		if t.aux == ">>" && ok && c >= 0 && c < 20 {
			c = 1 << uint(c)
		}
		a, _ := p.rng(t.args[0])
		if ok && c > 0 && a >= 0 {
			x := p.lin(t.args[0])
			q := linear{c: map[*Term]int64{t: c}, ok: true}
			cs = append(cs, x.add(q, -1)) // x - c*q >= 0
			cs = append(cs, q.add(x, -1).add(linear{c: map[*Term]int64{}, k: c - 1, ok: true}, 1))
		}
	}
	return cs
}

// symArg finds an argument of the event that produced a symbol.
func (e *Exec) argKey(t *Term, i int) *Term {
	return e.n.mk(Term{op: "argof", aux: itoa(i), args: []*Term{t}})
}

func (e *Exec) symArg(s *State, t *Term, i int) (*Term, bool) {
	v, ok := s.mem[e.argKey(t, i)]
	return v, ok
}

func (p *prover) proveLT(a, b *Term) bool { // b - a - 1 >= 0
	if !isNumTerm(a) || !isNumTerm(b) {
		return false
	}
	return p.prove(p.lin(b).add(p.lin(a), -1).add(linear{c: map[*Term]int64{}, k: -1, ok: true}, 1))
}

func (p *prover) proveLE(a, b *Term) bool {
	if !isNumTerm(a) || !isNumTerm(b) {
		return false
	}
	return p.prove(p.lin(b).add(p.lin(a), -1))
}

// prove shows goal >= 0 by refuting -goal - 1 >= 0.
func (p *prover) prove(goal linear) bool {
	neg := linear{c: map[*Term]int64{}, k: -1, ok: true}.add(goal, -1)
	if len(goal.c) == 0 {
		return goal.k >= 0
	}
	return p.refutes(neg)
}

// contradicts: what is known of the variables of t cannot be true.
func (p *prover) contradicts(t *Term) bool {
	l := p.lin(t)
	l.c, l.k = map[*Term]int64{}, 0
	for v := range p.lin(t).c {
		l.c[v] = 0
	}
	return p.refutes(l)
}

// refutes: neg >= 0 contradicts what is known.
func (p *prover) refutes(neg linear) bool {
	all := append(p.constraints(), p.extra...)
	// connected constraints only
	vars := map[*Term]bool{}
	for t := range neg.c {
		vars[t] = true
	}
	used := make([]bool, len(all))
	done := map[*Term]bool{}
	var sys []linear
	for round := 0; round < 4; round++ {
		ch := false
		for _, t := range sortedKeys(vars) {
			if done[t] {
				continue
			}
			done[t] = true
			for _, c := range p.varFacts(t) {
				sys = append(sys, c)
				for v := range c.c {
					vars[v] = true
				}
			}
			ch = true
		}
		for i, c := range all {
			if used[i] {
				continue
			}
			for v := range c.c {
				if vars[v] {
					used[i] = true
					sys = append(sys, c)
					for w := range c.c {
						vars[w] = true
					}
					ch = true
					break
				}
			}
		}
		if !ch {
			break
		}
	}
	var qs []ineq
	qs = append(qs, mkIneq(neg))
	for _, c := range sys {
		if c.ok {
			qs = append(qs, mkIneq(c))
		}
	}
	return infeasible(qs)
}

// infeasible eliminates all variables (Fourier-Motzkin with integer tightening).
func infeasible(qs []ineq) bool {
	for {
		vars := map[*Term][2]int{}
		var keep []ineq
		seen := map[string]bool{}
		for _, q := range qs {
			for t, v := range q.c {
				if v.Sign() == 0 {
					delete(q.c, t)
				}
			}
			if len(q.c) == 0 {
				if q.k.Sign() < 0 {
					return true
				}
				continue
			}
			// tighten by the gcd of the coefficients
			g := new(big.Int)
			for _, v := range q.c {
				g.GCD(nil, nil, g, new(big.Int).Abs(v))
			}
			if g.Cmp(big.NewInt(1)) > 0 {
				for t := range q.c {
					q.c[t] = new(big.Int).Quo(q.c[t], g)
				}
				q.k, _ = new(big.Int).DivMod(q.k, g, new(big.Int))
			}
			key := q.key()
			if seen[key] {
				continue
			}
			seen[key] = true
			keep = append(keep, q)
			for t, v := range q.c {
				n := vars[t]
				if v.Sign() > 0 {
					n[0]++
				} else {
					n[1]++
				}
				vars[t] = n
			}
		}
		qs = keep
		if len(vars) == 0 || len(qs) > 600 {
			return false
		}
		var best *Term
		bc := 1 << 30
		for _, t := range sortedKeys(vars) {
			n := vars[t]
			if c := n[0] * n[1]; c < bc {
				bc, best = c, t
			}
		}
		var pos, negs, rest []ineq
		for _, q := range qs {
			v, ok := q.c[best]
			switch {
			case !ok:
				rest = append(rest, q)
			case v.Sign() > 0:
				pos = append(pos, q)
			default:
				negs = append(negs, q)
			}
		}
		for _, a := range pos {
			for _, b := range negs {
				fa := new(big.Int).Neg(b.c[best])
				fb := a.c[best]
				r := ineq{c: map[*Term]*big.Int{}, k: new(big.Int)}
				r.k.Add(new(big.Int).Mul(a.k, fa), new(big.Int).Mul(b.k, fb))
				for t, v := range a.c {
					r.c[t] = new(big.Int).Mul(v, fa)
				}
				for t, v := range b.c {
					m := new(big.Int).Mul(v, fb)
					if o, ok := r.c[t]; ok {
						r.c[t] = o.Add(o, m)
					} else {
						r.c[t] = m
					}
				}
				delete(r.c, best)
				rest = append(rest, r)
			}
		}
		qs = rest
	}
}

func (q ineq) key() string {
	var ts []*Term
	for t := range q.c {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var sb strings.Builder
	for _, t := range ts {
		sb.WriteString(q.c[t].String())
		sb.WriteByte('*')
		sb.WriteString(itoa(t.id))
		sb.WriteByte('+')
	}
	sb.WriteString(q.k.String())
	return sb.String()
}
