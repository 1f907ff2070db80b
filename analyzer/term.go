package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an interned description of where a value comes from (its provenance).
//
// Leaves: const, nil, zero, param, sym (result of an event at a site), alloc (object created at a site),
// loopvar (widened loop-carried value), global (address of a package variable), func, builtin.
type Term struct {
	id   int
	op   string
	aux  string
	args []*Term
	typ  types.Type
	val  constant.Value
	site *Site
	fn   *ssa.Function
	obj  interface{}
	leaf []*Term // distinct leaves of kinds sym/alloc/loopvar/param/global, sorted by id
	dep  int     // nesting depth
}

// Ctx is a chain of inlined calls; Site is an instruction in a context.
type Ctx struct {
	id     int
	parent *Ctx
	call   *Site // call site in the parent (nil for roots)
	fn     *ssa.Function
	root   string
	depth  int
}

type Site struct {
	id  int
	ctx *Ctx
	in  ssa.Instruction
}

type interner struct {
	terms map[string]*Term
	byID  []*Term
	ctxs  map[string]*Ctx
	sites map[string]*Site
	types map[types.Type]int
	tcan  []types.Type
	instr map[ssa.Instruction]int
}

func newInterner() *interner {
	return &interner{terms: map[string]*Term{}, ctxs: map[string]*Ctx{}, sites: map[string]*Site{},
		types: map[types.Type]int{}, instr: map[ssa.Instruction]int{}}
}

func (n *interner) typeID(t types.Type) int {
	if t == nil {
		return -1
	}
	if id, ok := n.types[t]; ok {
		return id
	}
	for i, c := range n.tcan {
		if types.Identical(c, t) {
			n.types[t] = i
			return i
		}
	}
	n.tcan = append(n.tcan, t)
	n.types[t] = len(n.tcan) - 1
	return len(n.tcan) - 1
}

func (n *interner) instrID(in ssa.Instruction) int {
	if id, ok := n.instr[in]; ok {
		return id
	}
	id := len(n.instr)
	n.instr[in] = id
	return id
}

func (n *interner) ctx(parent *Ctx, call *Site, fn *ssa.Function, root string) *Ctx {
	pid, cid := -1, -1
	d := 0
	if parent != nil {
		pid = parent.id
		d = parent.depth + 1
		root = parent.root
	}
	if call != nil {
		cid = call.id
	}
	k := fmt.Sprintf("%d/%d/%p/%s", pid, cid, fn, root)
	if c := n.ctxs[k]; c != nil {
		return c
	}
	c := &Ctx{id: len(n.ctxs), parent: parent, call: call, fn: fn, root: root, depth: d}
	n.ctxs[k] = c
	return c
}

func (n *interner) site(c *Ctx, in ssa.Instruction) *Site {
	k := strconv.Itoa(c.id) + "/" + strconv.Itoa(n.instrID(in))
	if s := n.sites[k]; s != nil {
		return s
	}
	s := &Site{id: len(n.sites), ctx: c, in: in}
	n.sites[k] = s
	return s
}

func isLeafOp(op string) bool {
	switch op {
	case "sym", "alloc", "loopvar", "param", "global":
		return true
	}
	return false
}

func (n *interner) mk(t Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.aux)
	sb.WriteByte('|')
	if t.typ != nil {
		sb.WriteString(strconv.Itoa(n.typeID(t.typ)))
	}
	sb.WriteByte('|')
	if t.val != nil {
		sb.WriteString(t.val.ExactString())
	}
	sb.WriteByte('|')
	if t.site != nil {
		sb.WriteString(strconv.Itoa(t.site.id))
	}
	if t.fn != nil {
		fmt.Fprintf(&sb, "|f%p", t.fn)
	}
	if t.obj != nil {
		fmt.Fprintf(&sb, "|o%p", t.obj)
	}
	for _, a := range t.args {
		sb.WriteByte(',')
		if a == nil {
			sb.WriteByte('_')
		} else {
			sb.WriteString(strconv.Itoa(a.id))
		}
	}
	k := sb.String()
	if r := n.terms[k]; r != nil {
		return r
	}
	r := &t
	r.id = len(n.byID)
	n.byID = append(n.byID, r)
	n.terms[k] = r
	if isLeafOp(r.op) {
		r.leaf = []*Term{r}
	}
	set := map[*Term]bool{}
	for _, l := range r.leaf {
		set[l] = true
	}
	for _, a := range r.args {
		if a == nil {
			continue
		}
		if a.dep+1 > r.dep {
			r.dep = a.dep + 1
		}
		for _, l := range a.leaf {
			set[l] = true
		}
	}
	r.leaf = r.leaf[:0:0]
	for l := range set {
		r.leaf = append(r.leaf, l)
	}
	sort.Slice(r.leaf, func(i, j int) bool { return r.leaf[i].id < r.leaf[j].id })
	return r
}

func (t *Term) hasLeaf(l *Term) bool {
	i := sort.Search(len(t.leaf), func(i int) bool { return t.leaf[i].id >= l.id })
	return i < len(t.leaf) && t.leaf[i] == l
}

func (t *Term) leafs() []*Term {
	if t == nil {
		return nil
	}
	return t.leaf
}

func (t *Term) contains(x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if a != nil && a.contains(x) {
			return true
		}
	}
	return false
}

// subst replaces from by to everywhere in t.
func (n *interner) subst(t, from, to *Term) *Term {
	if t == nil {
		return nil
	}
	if t == from {
		return to
	}
	if isLeafOp(from.op) && !t.hasLeaf(from) {
		return t
	}
	if len(t.args) == 0 {
		return t
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = n.subst(a, from, to)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	c := *t
	c.args = args
	c.leaf = nil
	c.dep = 0
	return n.mk(c)
}

func typeStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// String renders the provenance for reports.
func (t *Term) String() string {
	if t == nil {
		return "_"
	}
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = a.String()
	}
	j := strings.Join(as, ", ")
	switch t.op {
	case "const":
		if t.val == nil {
			return "zero(" + typeStr(t.typ) + ")"
		}
		s := t.val.ExactString()
		if len(s) > 60 {
			s = s[:60] + "..."
		}
		return s
	case "nil":
		return "nil"
	case "param":
		return t.aux
	case "global":
		return "&" + t.aux
	case "func":
		return t.fn.Name()
	case "sym":
		return t.aux + "#" + strconv.Itoa(t.site.id)
	case "alloc":
		return "new(" + t.aux + ")#" + strconv.Itoa(t.site.id)
	case "loopvar":
		return "iter#" + strconv.Itoa(t.site.id)
	case "load":
		if t.args[0].op == "faddr" {
			return t.args[0].args[0].String() + "." + t.args[0].aux
		}
		return "*" + as[0]
	case "faddr":
		return "&" + as[0] + "." + t.aux
	case "bin":
		return "(" + as[0] + t.aux + as[1] + ")"
	case "iface":
		return as[0]
	case "closure":
		return "closure " + t.fn.Name()
	}
	if t.aux != "" {
		return t.op + "[" + t.aux + "](" + j + ")"
	}
	return t.op + "(" + j + ")"
}
