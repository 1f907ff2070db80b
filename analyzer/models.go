package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// functions whose (single) result is never nil
var knownNonNil = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "time.AfterFunc": true, "time.NewTimer": true,
	"net.JoinHostPort": true,
}

var effectsEpoch = map[string]bool{
	"(*sync.Mutex).Lock": true, "(*sync.RWMutex).Lock": true, "(*sync.RWMutex).RLock": true,
	"(sync.Locker).Lock": true,
}

// callees that don't write through their arguments
func pureCallee(name string) bool {
	if name == "errors.As" || fillsSlice(name) {
		return false
	}
	for _, p := range []string{"fmt.", "errors.", "log.", "strings.", "strconv.", "net.JoinHostPort", "net.Listen",
		"github.com/sirupsen/logrus.", "(*sync.", "(sync.", "sync/atomic.Load", "bytes.Index", "bytes.Cut", "bytes.Contains",
		"encoding/hex.", "reflect.", "time.", "(net.", "(*net.", "(*bytes.Buffer).", "path/filepath.", "net/url.", "(*net/url.", "(net/url.",
		"(*golang.org/x/sync/errgroup.Group)", "os/user.", "(error)", "(github.com/fsnotify", "(*github.com/fsnotify",
		"(*database/sql.DB)", "database/sql.Open", "github.com/fsnotify"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// fillsSlice: the callee writes into the bytes it is given.
func fillsSlice(name string) bool {
	return strings.HasSuffix(name, ").Read") || strings.HasSuffix(name, ").ReadAt") || name == "io.ReadAtLeast" || name == "io.CopyBuffer"
}

type model func(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool)

var models = map[string]model{}

func init() {
	for k, v := range map[string]model{
		"(*sync.Once).Do":                          modelOnceDo,
		"(*golang.org/x/sync/errgroup.Group).Go":   modelErrgroupGo,
		"time.AfterFunc":                           modelAfterFunc,
		"(*sync.WaitGroup).Go":                     modelWaitGroupGo,
		"errors.Is":                                modelErrorsIs,
		"reflect.TypeOf":                           modelTypeOf,
		"reflect.New":                              modelReflectNew,
		"(reflect.Value).Interface":                modelReflectInterface,
		"(encoding/binary.bigEndian).Uint16":       modelBE(16),
		"(encoding/binary.bigEndian).Uint32":       modelBE(32),
		"(encoding/binary.bigEndian).Uint64":       modelBE(64),
		"(encoding/binary.bigEndian).PutUint16":    modelPutBE(16),
		"(encoding/binary.bigEndian).PutUint32":    modelPutBE(32),
		"(encoding/binary.bigEndian).AppendUint16": modelAppendBE(16),
		"(encoding/binary.bigEndian).AppendUint32": modelAppendBE(32),
		"(encoding/binary.littleEndian).Uint16":    modelLE(16),
		"(encoding/binary.littleEndian).Uint32":    modelLE(32),
		"io.CopyN":                                 modelCopyN,
		"(*bytes.Buffer).Bytes":                    modelBufBytes,
		"(*bytes.Buffer).Len":                      modelBufLen,
		"(*bytes.Buffer).Write":                    modelBufWrite,
		"bytes.NewBuffer":                          modelNewBuffer,
		"io.ReadFull":                              modelReadFull,
		"bytes.Cut":                                modelCut,
	} {
		models[k] = v
	}
}

func (ci *callInfo) ev(kind string, isDefer bool) *Event {
	return &Event{Kind: kind, Site: ci.site, Name: ci.name(), Fn: ci.static, Method: ci.method, Args: ci.args, Bind: ci.bind, Defer: isDefer}
}

// plain emits an opaque call event with the given result term.
func (r *runner) plain(s *State, ci callInfo, result ssa.Value, res *Term, evs []*Event, isDefer bool) []*Event {
	ev := ci.ev("call", isDefer)
	ev.Res = res
	evs = r.ev(s, ev, evs)
	if result != nil {
		s.top().env[result] = res
	}
	return evs
}

func modelOnceDo(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
	e := r.e
	key := e.n.mk(Term{op: "oncedone", args: []*Term{ci.args[0]}})
	fi := ci
	fi.static, fi.bind, fi.dyn, fi.method = nil, nil, nil, nil
	fi.args = nil
	r.resolve(&fi, ci.args[1])

	// already done
	s2 := s.clone()
	ev2 := append([]*Event(nil), evs...)
	skip := ci.ev("once", isDefer)
	skip.Truth = false
	ev2 = r.ev(s2, skip, ev2)
	known := s.mem[key] != nil
	s2.mem[key] = e.n.boolean(true)
	r.goTo(s2, ev2)
	if known {
		return evs, true
	}

	run := ci.ev("once", isDefer)
	run.Truth = true
	evs = r.ev(s, run, evs)
	nf := len(s.frames)
	var done bool
	fi.common = nil
	evs, done = r.call(s, fi, nil, evs, isDefer)
	if !done {
		if len(s.frames) > nf {
			s.top().onceKey = key
		} else {
			s.mem[key] = e.n.boolean(true)
		}
		r.goTo(s, evs)
	}
	return evs, true
}

func modelErrgroupGo(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
	fi := ci
	fi.static, fi.bind, fi.dyn, fi.method = nil, nil, nil, nil
	fi.args = nil
	r.resolve(&fi, ci.args[1])
	ev := &Event{Kind: "go", What: "errgroup", Site: ci.site, Name: fi.name(), Fn: fi.static, Args: fi.args, Bind: fi.bind, Method: fi.method, Val: fi.dyn, Addr: ci.args[0]}
	evs = r.ev(s, ev, evs)
	r.addSpawn(s, "errgroup", ev, fi)
	return evs, false
}

func modelWaitGroupGo(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
	evs = r.ev(s, &Event{Kind: "call", Site: ci.site, Name: "(*sync.WaitGroup).Go", Args: ci.args, Defer: isDefer}, evs)
	fi := ci
	fi.static, fi.bind, fi.dyn, fi.method = nil, nil, nil, nil
	fi.args = nil
	r.resolve(&fi, ci.args[1])
	ev := &Event{Kind: "go", What: "wg", Site: ci.site, Name: fi.name(), Fn: fi.static, Args: fi.args, Bind: fi.bind, Method: fi.method, Val: fi.dyn, Addr: ci.args[0]}
	evs = r.ev(s, ev, evs)
	r.addSpawn(s, "wg", ev, fi)
	return evs, false
}

func modelAfterFunc(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
	fi := ci
	fi.static, fi.bind, fi.dyn, fi.method = nil, nil, nil, nil
	fi.args = nil
	r.resolve(&fi, ci.args[1])
	ev := &Event{Kind: "go", What: "timer", Site: ci.site, Name: fi.name(), Fn: fi.static, Args: fi.args, Bind: fi.bind, Val: fi.dyn}
	evs = r.ev(s, ev, evs)
	r.addSpawn(s, "timer", ev, fi)
	var typ types.Type
	if result != nil {
		typ = result.Type()
	}
	res := r.e.fresh(s, "sym", ci.site, "time.AfterFunc", typ)
	return r.plain(s, ci, result, res, evs, isDefer), false
}

func modelErrorsIs(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
	e := r.e
	err, target := ci.args[0], ci.args[1]
	c := e.n.eq(err, target)
	v, known := e.decide(s, c)
	if known && (v || err.op == "nil" || e.isSentinelLoad(err) || e.isSentinelLoad(ci.args[1]) && e.ownSentinel(ci.args[1]) && e.foreignErr(err)) {
		return r.plain(s, ci, result, e.n.boolean(v), evs, isDefer), false
	}
	if v, ok := e.decide(s, e.n.eq(err, e.n.nilT())); ok && v {
		return r.plain(s, ci, result, e.n.boolean(false), evs, isDefer), false
	}
	res := e.n.mk(Term{op: "erris", typ: types.Typ[types.Bool], args: []*Term{err, target}})
	return r.plain(s, ci, result, res, evs, isDefer), false
}

func modelTypeOf(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
	e := r.e
	if a := ci.args[0]; a.op == "iface" {
		return r.plain(s, ci, result, e.n.mk(Term{op: "rtype", typ: a.typ}), evs, isDefer), false
	}
	return r.plain(s, ci, result, e.fresh(s, "sym", ci.site, "reflect.TypeOf", nil), evs, isDefer), false
}

func modelReflectNew(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
	e := r.e
	if a := ci.args[0]; a.op == "rtype" {
		t := e.fresh(s, "alloc", ci.site, typeStr(a.typ), types.NewPointer(a.typ))
		for k := range s.mem {
			if rootOf(k) == t {
				delete(s.mem, k)
			}
		}
		return r.plain(s, ci, result, e.n.mk(Term{op: "rval", args: []*Term{t}}), evs, isDefer), false
	}
	return r.plain(s, ci, result, e.fresh(s, "sym", ci.site, "reflect.New", nil), evs, isDefer), false
}

func modelReflectInterface(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
	e := r.e
	if a := ci.args[0]; a.op == "rval" {
		return r.plain(s, ci, result, e.n.mk(Term{op: "iface", typ: a.args[0].typ, args: []*Term{a.args[0]}}), evs, isDefer), false
	}
	var typ types.Type
	if result != nil {
		typ = result.Type()
	}
	return r.plain(s, ci, result, e.fresh(s, "sym", ci.site, "reflect.Interface", typ), evs, isDefer), false
}

func uintType(bits int) types.Type {
	switch bits {
	case 16:
		return types.Typ[types.Uint16]
	case 32:
		return types.Typ[types.Uint32]
	}
	return types.Typ[types.Uint64]
}

func modelBE(bits int) model { return endian("be", bits) }
func modelLE(bits int) model { return endian("le", bits) }

func endian(kind string, bits int) model {
	return func(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
		e := r.e
		b := ci.args[len(ci.args)-1]
		if e.o.Oblig {
			evs = r.oblig(s, ci.site, "too few bytes for an integer", e.n.not(e.n.lt(e.length(s, b), e.n.int(int64(bits/8)))), evs)
		}
		// only the first bytes matter
		x := e.slice(b, e.n.nilT(), e.n.int(int64(bits/8)), nil)
		res := e.n.mk(Term{op: kind, aux: itoa(bits), typ: uintType(bits), args: []*Term{x}})
		return r.plain(s, ci, result, res, evs, isDefer), false
	}
}

func itoa(i int) string { return constant.MakeInt64(int64(i)).ExactString() }

// slice normalises x[lo:hi].
func (e *Exec) slice(x, lo, hi *Term, typ types.Type) *Term {
	n := e.n
	if c, ok := lo.intVal(); ok && c == 0 {
		lo = n.nilT()
	}
	if x.op == "slice" {
		a := x.args[1]
		if a.op == "nil" {
			a = n.int(0)
		}
		nlo := a
		if lo.op != "nil" {
			nlo = n.bin("+", a, lo, types.Typ[types.Int])
		}
		nhi := x.args[2]
		if hi.op != "nil" {
			nhi = n.bin("+", a, hi, types.Typ[types.Int])
		}
		if c, ok := nlo.intVal(); ok && c == 0 {
			nlo = n.nilT()
		}
		if typ == nil {
			typ = x.typ
		}
		return n.mk(Term{op: "slice", typ: typ, args: []*Term{x.args[0], nlo, nhi}})
	}
	if lo.op == "nil" && hi.op == "nil" {
		return x
	}
	if typ == nil {
		typ = x.typ
	}
	return n.mk(Term{op: "slice", typ: typ, args: []*Term{x, lo, hi}})
}

func modelPutBE(bits int) model {
	return func(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
		e := r.e
		dst, v := ci.args[len(ci.args)-2], ci.args[len(ci.args)-1]
		if e.o.Oblig {
			evs = r.oblig(s, ci.site, "too few bytes for an integer", e.n.not(e.n.lt(e.length(s, dst), e.n.int(int64(bits/8)))), evs)
		}
		evs = r.plain(s, ci, result, nil, evs, isDefer)
		e.putBytes(s, dst, v, bits)
		return evs, false
	}
}

// putBytes stores the bytes of a big-endian integer.
func (e *Exec) putBytes(s *State, dst, v *Term, bits int) {
	root, off := dst, int64(0)
	ok := true
	if dst.op == "slice" {
		root = dst.args[0]
		if dst.args[1].op != "nil" {
			off, ok = dst.args[1].intVal()
		}
	}
	if !ok {
		e.putRegion(s, dst, v, bits)
		return
	}
	for i := 0; i < bits/8; i++ {
		e.store(s, e.iaddr(root, e.n.int(off+int64(i))), e.byteOf(v, bits, i))
	}
}

// putRegion: bytes at a variable offset.
func (e *Exec) putRegion(s *State, dst, v *Term, bits int) {
	root := dst.args[0]
	for k := range s.mem {
		if under(k, root) && k.op != "lenof" {
			delete(s.mem, k)
		}
	}
	s.mem[outMark(e.n, rootOf(root))] = e.n.mk(Term{op: "region", args: []*Term{dst, e.byteOf(v, bits, 0)}})
}

// byteOf is byte i, counted from the most significant one, of an integer.
func (e *Exec) byteOf(v *Term, bits, i int) *Term {
	if c, ok := v.intVal(); ok {
		return e.n.constant(constant.MakeInt64(c>>uint(bits-8*(i+1))&255), types.Typ[types.Uint8])
	}
	return e.n.byteOf(v, bits-8*(i+1))
}

// byteOf is the byte of v that starts at bit k.
func (n *interner) byteOf(v *Term, k int) *Term {
	for {
		if v.op == "conv" && len(v.args) == 1 && typeBits(v.typ) >= k+8 && typeBits(v.args[0].typ) >= k+8 {
			v = v.args[0]
			continue
		}
		if v.op == "bin" && v.aux == ">>" && len(v.args) == 2 {
			if d, ok := v.args[1].intVal(); ok && d >= 0 && d < 64 && int(d)+k+8 <= typeBits(v.args[0].typ) {
				k += int(d)
				v = v.args[0]
				continue
			}
		}
		if v.op == "bin" && v.aux == "&" {
			if m, ok := v.args[1].intVal(); ok && m>>uint(k)&255 == 255 {
				v = v.args[0]
				continue
			}
		}
		break
	}
	if c, ok := v.intVal(); ok {
		return n.constant(constant.MakeInt64(c>>uint(k)&255), types.Typ[types.Uint8])
	}
	if typeBits(v.typ) == 8 && k == 0 {
		if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return v
		}
	}
	return n.mk(Term{op: "byteof", aux: itoa(k), typ: types.Typ[types.Uint8], args: []*Term{v}})
}

// typeBits is the width of an integer type, 0 for anything else.
func typeBits(t types.Type) int {
	if t == nil {
		return 0
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int, types.Uint, types.Uintptr:
		return intBits
	case types.Int64, types.Uint64:
		return 64
	}
	return 0
}

func modelAppendBE(bits int) model {
	return func(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
		e := r.e
		dst, v := ci.args[len(ci.args)-2], ci.args[len(ci.args)-1]
		t := e.n.mk(Term{op: "tobe", aux: itoa(bits), args: []*Term{v}})
		res := e.n.mk(Term{op: "append", aux: "...", typ: dst.typ, args: []*Term{dst, t}})
		evs = r.ev(s, &Event{Kind: "append", Site: ci.site, Args: []*Term{dst, t}, Res: res}, evs)
		return r.plain(s, ci, result, res, evs, isDefer), false
	}
}

func contentKey(n *interner, buf *Term) *Term {
	return n.mk(Term{op: "content", args: []*Term{buf}})
}

// modelCopyN: on success exactly n bytes of the reader are appended to the buffer.
func modelCopyN(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
	e := r.e
	dst, src, cnt := ci.args[0], ci.args[1], ci.args[2]
	var typ types.Type
	if result != nil {
		typ = result.Type()
	}
	buf := dst
	if buf.op == "iface" {
		buf = buf.args[0]
	}
	evs = append([]*Event(nil), evs...)
	ev := ci.ev("call", isDefer)
	ev.St = s.snap()
	res := e.fresh(s, "sym", ci.site, "io.CopyN", typ)
	ev.Res = res
	evs = append(evs, ev)
	if result != nil {
		s.top().env[result] = res
	}
	errT := e.n.mk(Term{op: "ext", aux: "1", typ: types.Universe.Lookup("error").Type(), args: []*Term{res}})
	nT := e.n.mk(Term{op: "ext", aux: "0", typ: types.Typ[types.Int64], args: []*Term{res}})

	for _, ok := range []bool{true, false} {
		s2 := s.clone()
		ev2 := append([]*Event(nil), evs...)
		c := e.n.eq(errT, e.n.nilT())
		ev2 = r.ev(s2, &Event{Kind: "branch", Site: ci.site, Cond: c, Truth: ok, What: "model"}, ev2)
		e.assume(s2, c, ok)
		ck := contentKey(e.n, buf)
		old := s2.mem[ck]
		if old == nil {
			if buf.op == "alloc" {
				old = e.n.nilT()
			} else {
				old = e.n.mk(Term{op: "load", args: []*Term{ck}})
			}
		}
		if ok {
			e.assume(s2, e.n.eq(nT, cnt), true)
			e.assume(s2, e.n.lt(cnt, e.n.int(0)), false)
			piece := e.n.mk(Term{op: "read", args: []*Term{src, cnt, res}})
			s2.mem[ck] = e.n.mk(Term{op: "append", aux: "...", args: []*Term{old, piece}})
		} else {
			piece := e.n.mk(Term{op: "readpart", args: []*Term{src, cnt, res}})
			s2.mem[ck] = e.n.mk(Term{op: "append", aux: "...", args: []*Term{old, piece}})
		}
		r.goTo(s2, ev2)
	}
	return evs, true
}

func modelBufBytes(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
	return r.plain(s, ci, result, r.e.bufContent(s, ci.args[0]), evs, isDefer), false
}

func (e *Exec) bufContent(s *State, buf *Term) *Term {
	if c := s.mem[contentKey(e.n, buf)]; c != nil {
		return c
	}
	if buf.op == "alloc" {
		return e.n.nilT()
	}
	return e.n.mk(Term{op: "load", args: []*Term{contentKey(e.n, buf)}})
}

func modelBufLen(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
	return r.plain(s, ci, result, r.e.length(s, r.e.bufContent(s, ci.args[0])), evs, isDefer), false
}

// filled is what x holds if it has been filled from a reader.
func (e *Exec) filled(s *State, x *Term) *Term {
	if r := s.mem[e.n.mk(Term{op: "region", args: []*Term{x}})]; r != nil {
		return r
	}
	return x
}

func modelNewBuffer(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
	if result == nil {
		return evs, false
	}
	e := r.e
	res := e.fresh(s, "alloc", ci.site, "new(bytes.Buffer)", result.Type())
	s.mem[contentKey(e.n, res)] = e.filled(s, ci.args[0])
	return r.plain(s, ci, result, res, evs, isDefer), false
}

func modelBufWrite(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
	e := r.e
	old := e.bufContent(s, ci.args[0])
	s.mem[contentKey(e.n, ci.args[0])] = e.n.mk(Term{op: "append", aux: "...", args: []*Term{old, e.filled(s, ci.args[1])}})
	var res *Term
	if result != nil {
		t := result.Type()
		res = e.fresh(s, "sym", ci.site, "bytes.Write", t)
		e.assume(s, e.n.eq(e.n.mk(Term{op: "ext", aux: "1", typ: types.Universe.Lookup("error").Type(), args: []*Term{res}}), e.n.nilT()), true)
	}
	return r.plain(s, ci, result, res, evs, isDefer), false
}

// modelReadFull: on success the whole destination holds bytes of the reader.
func modelReadFull(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
	e := r.e
	src, dst := ci.args[0], ci.args[1]
	var typ types.Type
	if result != nil {
		typ = result.Type()
	}
	evs = append([]*Event(nil), evs...)
	ev := ci.ev("call", isDefer)
	ev.St = s.snap()
	res := e.fresh(s, "sym", ci.site, "io.ReadFull", typ)
	ev.Res = res
	evs = append(evs, ev)
	if result != nil {
		s.top().env[result] = res
	}
	errT := e.n.mk(Term{op: "ext", aux: "1", typ: types.Universe.Lookup("error").Type(), args: []*Term{res}})
	for _, ok := range []bool{true, false} {
		s2 := s.clone()
		ev2 := append([]*Event(nil), evs...)
		c := e.n.eq(errT, e.n.nilT())
		ev2 = r.ev(s2, &Event{Kind: "branch", Site: ci.site, Cond: c, Truth: ok, What: "model"}, ev2)
		e.assume(s2, c, ok)
		root := rootOf(dst)
		for k := range s2.mem {
			if under(k, root) {
				delete(s2.mem, k)
			}
		}
		op := "read"
		if !ok {
			op = "readpart"
		}
		l := e.length(s2, dst)
		s2.mem[e.n.mk(Term{op: "region", args: []*Term{dst}})] = e.n.mk(Term{op: op, args: []*Term{src, l, res}})
		if root.op == "alloc" {
			s2.mem[outMark(e.n, root)] = res
		}
		r.goTo(s2, ev2)
	}
	return evs, true
}

// ---- whole-program facts -----------------------------------------------------------------------

type table struct {
	entries []tabEntry
	elem    types.Type
}

type tabEntry struct {
	key, val *Term
}

type progFacts struct {
	built     bool
	mutFields map[string]bool // owner type + field stored outside of construction
	nilFields map[string]bool // owner type + field that can be nil in a live object
	globals   map[*ssa.Global]int
	sentinels map[*ssa.Global]bool
	tables    map[*ssa.Global]*table
}

var pf = map[*Program]*progFacts{}

func fieldKey(owner types.Type, field string) string {
	if owner == nil {
		return "?." + field
	}
	return types.TypeString(owner, nil) + "." + field
}

func (p *Program) facts(n *interner) *progFacts {
	f := pf[p]
	if f != nil {
		return f
	}
	f = &progFacts{mutFields: map[string]bool{}, nilFields: map[string]bool{}, globals: map[*ssa.Global]int{},
		sentinels: map[*ssa.Global]bool{}, tables: map[*ssa.Global]*table{}}
	pf[p] = f

	all := append([]*ssa.Function(nil), p.Funcs...)
	for _, sp := range p.ByRel {
		if i := sp.Func("init"); i != nil {
			all = append(all, i)
		}
	}

	stores := map[*ssa.Global]int{}
	uses := map[*ssa.Global]int{} // other uses than loads
	initStore := map[*ssa.Global]*ssa.Store{}
	type lit struct {
		a   *ssa.Alloc
		set map[string]bool
	}
	set := map[string]int{}   // field -> constructions that set it to something possibly non-nil
	total := map[string]int{} // type -> constructions

	for _, fn := range all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok {
						stores[g]++
						if fn.Name() == "init" && fn.Synthetic != "" {
							initStore[g] = x
						}
					}
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						owner := derefType(fa.X.Type())
						st := owner.Underlying().(*types.Struct)
						k := fieldKey(owner, st.Field(fa.Field).Name())
						if _, isAlloc := fa.X.(*ssa.Alloc); !isAlloc {
							f.mutFields[k] = true
						}
						if c, ok := x.Val.(*ssa.Const); ok && c.Value == nil {
							f.nilFields[k] = true
						}
					}
				case *ssa.Alloc:
					t := derefType(x.Type())
					st, ok := t.Underlying().(*types.Struct)
					if !ok {
						break
					}
					whole := false
					seen := map[string]bool{}
					for _, rf := range *x.Referrers() {
						switch y := rf.(type) {
						case *ssa.Store:
							if y.Addr == x {
								whole = true
							}
						case *ssa.FieldAddr:
							for _, r2 := range *y.Referrers() {
								if sto, ok := r2.(*ssa.Store); ok && sto.Addr == y {
									seen[st.Field(y.Field).Name()] = true
								}
							}
						}
					}
					if whole {
						break
					}
					tk := types.TypeString(t, nil)
					total[tk]++
					for nm := range seen {
						set[tk+"."+nm]++
					}
				case *ssa.MapUpdate:
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						if u, ok := in.(*ssa.UnOp); ok && u.X == g {
							continue
						}
						if s, ok := in.(*ssa.Store); ok && s.Addr == g {
							continue
						}
						uses[g]++
					}
				}
			}
		}
	}

	for _, sp := range p.ByRel {
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			st, ok := t.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			tk := types.TypeString(t.Type(), nil)
			for i := 0; i < st.NumFields(); i++ {
				k := tk + "." + st.Field(i).Name()
				if total[tk] == 0 || set[k] < total[tk] {
					f.nilFields[k] = true
				}
			}
		}
	}

	for g, s := range initStore {
		if stores[g] != 1 || uses[g] != 0 {
			continue
		}
		if v, ok := s.Val.(*ssa.Call); ok {
			if c := v.Call.StaticCallee(); c != nil && (c.String() == "errors.New" || c.String() == "fmt.Errorf") {
				f.sentinels[g] = true
			}
		}
		if mm, ok := s.Val.(*ssa.MakeMap); ok {
			if t := p.evalTable(n, mm, g, all); t != nil {
				f.tables[g] = t
			}
		}
	}
	// sentinels of other packages (io.EOF ...)
	return f
}

// evalTable evaluates a package level map that is filled by its initialiser only.
func (p *Program) evalTable(n *interner, mm *ssa.MakeMap, g *ssa.Global, all []*ssa.Function) *table {
	t := &table{elem: mm.Type().Underlying().(*types.Map).Elem()}
	for _, rf := range *mm.Referrers() {
		switch x := rf.(type) {
		case *ssa.MapUpdate:
			k, ok := x.Key.(*ssa.Const)
			if !ok || k.Value == nil {
				return nil
			}
			v := p.evalStatic(n, x.Value)
			if v == nil {
				return nil
			}
			t.entries = append(t.entries, tabEntry{n.constant(k.Value, nil), v})
		case *ssa.Store:
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	// loaded values must only be looked up
	for _, fn := range all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.X != g {
					continue
				}
				for _, rf := range *u.Referrers() {
					switch y := rf.(type) {
					case *ssa.Lookup:
					case *ssa.DebugRef, *ssa.Range:
					case *ssa.Call:
						if bi, ok := y.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
							return nil
						}
					default:
						return nil
					}
				}
			}
		}
	}
	return t
}

func (p *Program) evalStatic(n *interner, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return n.zero(x.Type())
		}
		return n.constant(x.Value, nil)
	case *ssa.Function:
		return n.mk(Term{op: "func", fn: x, typ: x.Type()})
	case *ssa.ChangeType:
		return p.evalStatic(n, x.X)
	case *ssa.ChangeInterface:
		return p.evalStatic(n, x.X)
	case *ssa.MakeClosure:
		if len(x.Bindings) == 0 {
			return n.mk(Term{op: "closure", fn: x.Fn.(*ssa.Function)})
		}
	case *ssa.MakeInterface:
		in := p.evalStatic(n, x.X)
		if in == nil {
			in = n.mk(Term{op: "zero", typ: x.X.Type()})
		}
		return n.mk(Term{op: "iface", typ: x.X.Type(), args: []*Term{in}})
	case *ssa.Call:
		if c := x.Call.StaticCallee(); c != nil && c.String() == "reflect.TypeOf" {
			if mi, ok := x.Call.Args[0].(*ssa.MakeInterface); ok {
				return n.mk(Term{op: "rtype", typ: mi.X.Type()})
			}
		}
	}
	return nil
}

func (p *Program) constTable(m *Term) *table {
	if m.op == "load" && m.args[0].op == "global" {
		if g, ok := m.args[0].obj.(*ssa.Global); ok && pf[p] != nil {
			return pf[p].tables[g]
		}
	}
	return nil
}

// mutable: the field (or variable) is written after construction.
func (p *Program) mutable(addr *Term) bool {
	f := pf[p]
	switch addr.op {
	case "faddr":
		return f.mutFields[fieldKey(addr.typ, addr.aux)]
	case "global":
		return false
	}
	return false
}

// sentinel: package-level error created once and never reassigned (in this repository or the standard library).
func (p *Program) sentinel(g *ssa.Global) bool {
	if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		return pf[p].sentinels[g]
	}
	t := derefType(g.Type())
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// maybeNil tells whether dereferencing t could hit nil, as far as the code itself shows.
func (e *Exec) maybeNil(s *State, t *Term) bool {
	if e.nonNil(t) {
		return false
	}
	if v, known := e.decide(s, e.n.eq(t, e.n.nilT())); known {
		return v
	}
	if t.typ != nil && t.op == "load" {
		if _, ok := t.typ.Underlying().(*types.Map); ok {
			if v, known := e.decide(s, e.n.eq(e.length(s, t), e.n.int(0))); known && !v {
				return false // a nil map holds nothing
			}
		}
	}
	switch t.op {
	case "nil":
		return true
	case "load":
		a := t.args[0]
		if a.op == "faddr" {
			return pf[e.p].nilFields[fieldKey(a.typ, a.aux)]
		}
		return false
	case "ext":
		src := t.args[0]
		if src.op != "sym" || src.typ == nil {
			return false
		}
		tup, ok := src.typ.(*types.Tuple)
		if !ok {
			return false
		}
		last := tup.At(tup.Len() - 1).Type()
		lt := e.n.mk(Term{op: "ext", aux: itoa(tup.Len() - 1), typ: last, args: []*Term{src}})
		if types.Identical(last, types.Universe.Lookup("error").Type()) {
			if t == lt {
				return true
			}
			v, known := e.decide(s, e.n.eq(lt, e.n.nilT()))
			return !(known && v)
		}
		if b, ok := last.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && t != lt {
			okT := lt
			if strings.HasPrefix(src.aux, "recv") || strings.HasPrefix(src.aux, "lookup") {
				okT = e.n.mk(Term{op: "ext", aux: "1", typ: types.Typ[types.Bool], args: []*Term{src}})
				if _, isSel := src.site.in.(*ssa.Select); isSel {
					return false
				}
			}
			v, known := e.decide(s, okT)
			return !(known && v)
		}
	case "sym":
		if strings.HasPrefix(t.aux, "lookup") {
			if t.typ == nil {
				return false
			}
			switch t.typ.Underlying().(type) {
			case *types.Pointer, *types.Signature, *types.Interface, *types.Map, *types.Chan:
				return true
			}
		}
		if t.typ != nil && types.Identical(t.typ, types.Universe.Lookup("error").Type()) {
			return true
		}
	}
	return false
}

// modelCut: bytes.Cut at a single byte is a search for that byte.
func modelCut(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
	e := r.e
	if result == nil {
		return evs, false
	}
	b, sep := ci.args[0], e.sliceElems(s, ci.args[1])
	if len(sep) != 1 {
		return r.plain(s, ci, result, e.fresh(s, "sym", ci.site, ci.name(), result.Type()), evs, isDefer), false
	}
	ix := e.fresh(s, "sym", ci.site, "bytes.IndexByte", types.Typ[types.Int])
	ev := ci.ev("call", isDefer)
	ev.Name, ev.Fn = "bytes.IndexByte", nil
	ev.Args = []*Term{b, sep[0]}
	ev.Res = ix
	evs = r.ev(s, ev, evs)
	for _, found := range []bool{true, false} {
		s2 := s.clone()
		ev2 := append([]*Event(nil), evs...)
		c := e.n.lt(ix, e.n.int(0))
		ev2 = r.ev(s2, &Event{Kind: "branch", Site: ci.site, Cond: c, Truth: !found, What: "model"}, ev2)
		e.assume(s2, c, !found)
		res := []*Term{b, e.n.nilT(), e.n.boolean(false)}
		if found {
			e.assume(s2, e.n.lt(ix, e.length(s2, b)), true)
			res = []*Term{e.slice(b, e.n.nilT(), ix, b.typ), e.slice(b, e.n.bin("+", ix, e.n.int(1), types.Typ[types.Int]), e.n.nilT(), b.typ), e.n.boolean(true)}
		}
		s2.top().env[result] = e.n.mk(Term{op: "tuple", args: res})
		r.goTo(s2, ev2)
	}
	return evs, true
}
