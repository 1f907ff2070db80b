package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checkFns["K01"] = checkK01
	checkFns["K02"] = checkK02
}

// distModel knows the roles of the fields of ConfigDistributor and of its subscriptions, found by their types and use.
type distModel struct {
	k       *closable
	c       *Check
	subs    string          // map of subscriptions by channel
	sub     types.Type      // struct type of a subscription
	lock    map[string]bool // mutexes of a subscription
	cancel  string          // event of a subscription
	checks  string          // predicates of a subscription
	chField string          // channel of a subscription (if it is kept there as well)
	last    string          // last configuration
	source  string          // incoming configurations
	ready   string          // fired once there is a configuration
	roots   []*distRoot
}

type distRoot struct {
	fn   *ssa.Function
	self *Term
	ts   []*Thread
}

// distributor explores all exported operations of ConfigDistributor with the goroutines they start.
func (c *Check) distributor() *distModel {
	k := c.closable("ConfigDistributor")
	if k == nil {
		return nil
	}
	d := &distModel{k: k, c: c, lock: map[string]bool{}}
	st := derefType(k.self.typ).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch t := f.Type().Underlying().(type) {
		case *types.Map:
			if _, ok := t.Key().Underlying().(*types.Chan); ok {
				if el := derefType(t.Elem()); el != nil {
					if _, ok := el.Underlying().(*types.Struct); ok {
						d.subs, d.sub = f.Name(), el
					}
				}
			}
		case *types.Chan:
			if namedOf(t.Elem()) == "Config" && t.Dir() != types.SendOnly {
				d.source = f.Name()
			}
		case *types.Pointer:
			if namedOf(f.Type()) == "Config" {
				d.last = f.Name()
			}
		}
	}
	if d.sub != nil {
		ss := d.sub.Underlying().(*types.Struct)
		for i := 0; i < ss.NumFields(); i++ {
			f := ss.Field(i)
			switch {
			case typeIs(f.Type(), "sync", "Mutex") || typeIs(f.Type(), "sync", "RWMutex"):
				d.lock[f.Name()] = true
			case namedOf(f.Type()) == "Event":
				d.cancel = f.Name()
			case isMsgChanOf(f.Type(), "Config"):
				d.chField = f.Name()
			default:
				if sl, ok := f.Type().Underlying().(*types.Slice); ok {
					if _, ok := sl.Elem().Underlying().(*types.Signature); ok {
						d.checks = f.Name()
					}
				}
			}
		}
	}
	if d.subs == "" || d.source == "" || d.last == "" || len(d.lock) == 0 || d.cancel == "" || d.checks == "" {
		c.undecided("distributor fields", "cannot tell which fields hold the source, the current configuration, the subscriptions, their locks, events and predicates")
		return nil
	}
	fns, selves := k.roots()
	fns, selves = append(fns, k.close), append(selves, k.self)
	for i, fn := range fns {
		d.roots = append(d.roots, &distRoot{fn, selves[i], c.threads(fn, Opts{Prim: k.prim, Access: true})})
	}
	for _, r := range d.roots {
		for _, t := range r.ts {
			if !d.monitors(t, r.self) {
				continue
			}
			t.Exec.eachEvent(func(ev *Event) {
				if ev.Kind == "call" && ev.Name == evFire {
					if b, f, ok := fieldOf(ev.Args[0]); ok && b == r.self && f != k.event {
						d.ready = f
					}
				}
			})
		}
	}
	if d.ready == "" {
		c.violate("ready", "ConfigDistributor", k.close.Pos(), "the goroutine that receives configurations does not announce the first one", nil)
		return nil
	}
	return d
}

func isMsgChanOf(t types.Type, elem string) bool {
	ch, ok := t.Underlying().(*types.Chan)
	return ok && namedOf(ch.Elem()) == elem
}

// isSource: ch is the channel of incoming configurations.
func (d *distModel) isSource(ch, self *Term) bool {
	b, f, ok := fieldOf(ch)
	return ok && b == self && f == d.source
}

// monitors: t receives from the source.
func (d *distModel) monitors(t *Thread, self *Term) bool {
	found := false
	t.Exec.eachEvent(func(ev *Event) {
		if x, _, _ := d.received(t.Exec, ev, self); x != nil {
			found = true
		}
	})
	return found
}

// received: the event receives a configuration from the source; ok is nil when the end of the source goes unnoticed.
func (d *distModel) received(e *Exec, ev *Event, self *Term) (val, ok *Term, yes bool) {
	switch ev.Kind {
	case "recv":
		if !d.isSource(ev.Args[0], self) {
			return nil, nil, false
		}
		if ev.OK {
			return ext(e.n, ev.Res, 0, chanElem(ev.Args[0].typ)), ext(e.n, ev.Res, 1, types.Typ[types.Bool]), true
		}
		return ev.Res, nil, true
	case "select":
		if ev.Chosen < 0 || ev.Cases[ev.Chosen].Send || !d.isSource(ev.Cases[ev.Chosen].Ch, self) {
			return nil, nil, false
		}
		return ext(e.n, ev.Res, 0, chanElem(ev.Cases[ev.Chosen].Ch.typ)), ext(e.n, ev.Res, 1, types.Typ[types.Bool]), true
	}
	return nil, nil, false
}

// awaits: the event waits for the source (whatever happens).
func (d *distModel) awaits(ev *Event, self *Term) bool {
	switch ev.Kind {
	case "recv":
		return d.isSource(ev.Args[0], self)
	case "select":
		for _, cs := range ev.Cases {
			if !cs.Send && d.isSource(cs.Ch, self) {
				return true
			}
		}
	}
	return false
}

// subOf: t is the event of which subscription?
func (d *distModel) subOf(m *Mon, ev *Event, t *Term) *Term {
	if b, f, ok := fieldOf(t); ok && f == d.cancel && d.isSub(b) {
		return b
	}
	if t.op == "alloc" {
		for k, v := range ev.St.mem {
			if v == t && k.op == "faddr" && k.aux == d.cancel && d.isSub(k.args[0]) {
				return k.args[0]
			}
		}
	}
	return nil
}

func (d *distModel) isSub(t *Term) bool {
	if t == nil || t.typ == nil {
		return false
	}
	el := derefType(t.typ)
	return el != nil && types.Identical(el, d.sub)
}

// subLock: the mutex l belongs to which subscription?
func (d *distModel) subLock(l *Term) *Term {
	if l.op == "faddr" && d.lock[l.aux] && d.isSub(l.args[0]) {
		return l.args[0]
	}
	return nil
}

// dstep follows the subscriptions along a path.
//
// Monitor facts: lk(lock)=exclusive; fm(map): a map stored in the field of subscriptions; lu(value)=channel: the
// subscription of the channel, looked up in the present section; fd(value)=channel: looked up at any time; nolu(channel):
// it was looked up and there is none; hf(result)=sub: HasFired was asked under the lock of the subscription; alive(sub):
// the lock of the subscription is held since before it was registered; fc(sub): its event was fired; qu(sub): nobody
// sends on its channel any more; ca(result)=sub: HasFired (at any time); reg(sub)=channel: registered by this path.
type dstep struct {
	d    *distModel
	m    *Mon
	self *Term
	v    *visit

	given *Term // predicates handed to Subscribe
}

// ownLock: an own lock of the distributor is held (exclusively).
func (s *dstep) ownLock(exclusive bool) bool {
	for _, l := range s.m.all("lk") {
		if l.a.op == "faddr" && l.a.args[0] == s.self {
			if x, _ := l.b.boolVal(); x || !exclusive {
				return true
			}
		}
	}
	return false
}

func (s *dstep) isSubs(t *Term) bool {
	if b, f, ok := fieldOf(t); ok && b == s.self && f == s.d.subs {
		return true
	}
	return s.m.has("fm", t)
}

// same: both terms denote the same subscription on this path.
func (s *dstep) same(a, b *Term) bool {
	if a == b {
		return true
	}
	v, known := s.m.truth(s.m.e.n.eq(a, b))
	return known && v
}

// pair: ch is the channel of the subscription.
func (s *dstep) pair(ch, sub *Term) bool {
	m := s.m
	ch = unface(ch)
	if x := m.get("fd", sub); x != nil && x == ch {
		return true
	}
	if x := m.get("reg", sub); x != nil && x == ch {
		return true
	}
	if b, f, ok := fieldOf(ch); ok && b == sub && f == s.d.chField && f != "" {
		return true
	}
	i, w := s.v.part(ch)
	j, x := s.v.part(sub)
	if i != nil && i == j && w == "key" && x == "val" {
		return true
	}
	// fields of one and the same element of a copy
	if a, f := partField(ch); a != nil {
		if b, g := partField(sub); a == b {
			if k := m.get("src", a.args[0]); k != nil && strings.HasPrefix(k.aux, "pairs ") {
				ps := "," + k.aux[6:] + ","
				return strings.Contains(ps, ",key="+f+",") && strings.Contains(ps, ",val="+g+",")
			}
		}
	}
	// key and value of one and the same entry of a map of subscriptions
	if ch.op == "ext" && ch.aux == "1" && sub.op == "ext" && sub.aux == "2" && ch.args[0] == sub.args[0] && m.has("nxs", ch.args[0]) {
		return true
	}
	return false
}

// quiet: the subscription sub is known to be cancelled for good.
func (s *dstep) quiet(sub *Term) bool {
	for _, f := range s.m.all("qu") {
		if s.same(f.a, sub) {
			return true
		}
	}
	return false
}

func (s *dstep) step(ev *Event) {
	d, m := s.d, s.m
	s.v.step(ev)
	m.dropOld("fd", "lu", "ok", "hf", "fc", "qu", "ca", "cl", "alive", "chk", "hit", "unclear", "nxs")
	m.follow(ev, "lk")
	if l, ex := isLock(ev); l {
		m.set("lk", ev.Args[0], m.e.n.boolean(ex))
		if sub := d.subLock(ev.Args[0]); sub != nil && m.has("fc", sub) {
			m.set("qu", sub, nil)
		}
	}
	if u, _ := isUnlock(ev); u {
		m.del("lk", ev.Args[0])
		if sub := d.subLock(ev.Args[0]); sub != nil {
			m.del("alive", sub)
			for _, f := range m.all("hf") {
				if f.b == sub {
					m.del("hf", f.a)
				}
			}
		}
		if ev.Args[0].op == "faddr" && ev.Args[0].args[0] == s.self {
			m.clear("lu")
			m.clear("nolu")
		}
	}
	switch ev.Kind {
	case "range":
		if _, isMap := ev.Args[0].typ.Underlying().(*types.Map); isMap {
			m.set("its", ev.Res, nil)
		}
	case "next":
		if m.has("its", ev.Args[0]) {
			m.clear("nxs")
			m.set("nxs", ev.Res, nil)
		}
	case "mapget":
		if s.isSubs(ev.Args[0]) && s.ownLock(false) {
			v := ev.Res
			if tup, ok := ev.Res.typ.(*types.Tuple); ok {
				v = ext(m.e.n, ev.Res, 0, tup.At(0).Type())
				m.set("ok", ext(m.e.n, ev.Res, 1, types.Typ[types.Bool]), v)
			}
			m.set("lu", v, ev.Args[1])
			m.set("fd", v, ev.Args[1])
		}
	case "store":
		if isFieldAddr(ev.Addr, s.self, d.subs) {
			m.set("fm", ev.Val, nil)
		}
	case "call":
		switch ev.Name {
		case evFire:
			if sub := d.subOf(m, ev, ev.Args[0]); sub != nil {
				m.set("fc", sub, nil)
			}
		case evHas:
			if sub := d.subOf(m, ev, ev.Args[0]); sub != nil {
				m.set("ca", ev.Res, sub)
				for _, l := range m.all("lk") {
					if d.subLock(l.a) == sub {
						m.set("hf", ev.Res, sub)
					}
				}
			}
			if d.k.isEvent(ev.Args[0], s.self) {
				m.set("cl", ev.Res, nil)
			}
		}
	case "select":
		if ev.Chosen >= 0 {
			if ch := ev.Cases[ev.Chosen].Ch; ch.op == "done" {
				if sub := d.subOf(m, ev, ch.args[0]); sub != nil {
					m.set("ca", m.e.n.boolean(true), sub)
				}
				if d.k.isEnd(ch, s.self) {
					m.set("cl", m.e.n.boolean(true), nil)
				}
			}
		}
	case "recv":
		if d.k.isEnd(ev.Args[0], s.self) {
			m.set("cl", m.e.n.boolean(true), nil)
		}
	case "mapset":
		if s.isSubs(ev.Args[0]) {
			sub := ev.Args[2]
			m.set("reg", sub, ev.Args[1])
			m.set("pr", sub, d.predicates(m, sub, ev))
			for _, l := range m.all("lk") {
				if d.subLock(l.a) == sub {
					m.set("alive", sub, nil)
				}
			}
		}
	case "mapdel":
		if s.isSubs(ev.Args[0]) {
			for _, f := range m.all("reg") {
				if f.b == ev.Args[1] {
					m.del("reg", f.a)
				}
			}
		}
	}
}

// none: the value looked up is known not to exist.
func (s *dstep) none(v *Term) bool {
	if n, known := s.m.isNil(v); known && n {
		return true
	}
	for _, f := range s.m.all("ok") {
		if f.b == v {
			if b, known := s.m.truth(f.a); known && !b {
				return true
			}
		}
	}
	return false
}

// cancelled: the subscription is known to be cancelled, or the distributor closed.
func (s *dstep) cancelled(sub *Term) bool {
	for _, f := range s.m.all("ca") {
		if f.b == sub {
			if v, known := s.m.truth(f.a); known && v {
				return true
			}
		}
	}
	return s.closed() || s.m.has("fc", sub)
}

func (s *dstep) closed() bool {
	for _, f := range s.m.all("cl") {
		if v, known := s.m.truth(f.a); known && v {
			return true
		}
	}
	return false
}

// delivery: ev sends (or may send) on a subscribed channel.
func deliveries(ev *Event) []SelCase {
	switch ev.Kind {
	case "send":
		if namedOf(chanElem(ev.Args[0].typ)) == "Config" {
			return []SelCase{{Send: true, Ch: ev.Args[0], Val: ev.Args[1]}}
		}
	case "select":
		var r []SelCase
		for _, cs := range ev.Cases {
			if cs.Send && namedOf(chanElem(cs.Ch.typ)) == "Config" {
				r = append(r, cs)
			}
		}
		return r
	}
	return nil
}

// subscriptionRules: the rules that make an unsubscribed channel quiet. They are decided for every operation of the distributor
// and every goroutine it starts.
func (d *distModel) subscriptionRules() {
	for _, r := range d.roots {
		for _, t := range r.ts {
			d.quietRules(r, t)
		}
	}
	d.cancelField()
	c := d.c
	c.floor("send", 1, "sends to subscribers")
	c.floor("registration", 1, "registrations of subscriptions")
	c.floor("removal", 1, "removals of subscriptions")
	c.floor("unsubscribed", 1, "returns of Unsubscribe")
}

// cancelField: the event of a subscription is set before it is registered and never replaced.
func (d *distModel) cancelField() {
	for _, fn := range d.c.p.Funcs {
		eachStoreTo(fn, d.sub, func(st *ssa.Store, field string) {
			if field != d.cancel && field != d.chField && field != d.checks || field == "" {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			if _, fresh := fa.X.(*ssa.Alloc); !fresh {
				d.c.violate("fixed", field+" in "+fnName(fn), st.Pos(), "a field of a subscription is replaced later on", nil)
			}
		})
	}
}

func (d *distModel) quietRules(r *distRoot, t *Thread) {
	c := d.c
	who := fnName(t.Fn)
	e := t.Exec
	root := t.Kind == "root"
	c.product(e, nil, func(m *Mon, ev *Event) {
		s := &dstep{d: d, m: m, self: r.self, v: &visit{m: m}}
		s.v.miss = func() {
			if len(m.all("closing")) > 0 {
				m.fail("close cancels all", evFn(ev), "a subscription is skipped")
			}
		}
		if ev.Kind == "select" || ev.Kind == "send" {
			for _, cs := range deliveries(ev) {
				c.instance("send", evFn(ev))
				var held *Term
				ok := false
				for _, l := range m.all("lk") {
					sub := d.subLock(l.a)
					x, _ := l.b.boolVal()
					if sub == nil || !x || !s.pair(cs.Ch, sub) {
						continue
					}
					held = sub
					if m.has("alive", sub) {
						ok = true
					}
					for _, f := range m.all("hf") {
						if f.b == sub {
							if v, known := m.truth(f.a); known && !v {
								ok = true
							}
						}
					}
				}
				switch {
				case held == nil:
					m.fail("send", evFn(ev), "a configuration is sent to %v without holding the lock of the subscription of that channel", cs.Ch)
				case !ok:
					m.fail("send", evFn(ev), "a configuration is sent without checking, under the lock, that the subscription is still active")
				}
			}
		}
		if ev.Kind == "mapset" && s.isSubs(ev.Args[0]) {
			c.instance("registration", evFn(ev))
			ok := false
			for _, f := range m.all("lu") {
				if f.b == ev.Args[1] && (s.none(f.a) || s.quiet(f.a)) {
					ok = true
				}
			}
			switch {
			case !s.ownLock(true):
				m.fail("registration", evFn(ev), "the subscription is registered without holding the lock exclusively")
			case !ok:
				m.fail("registration", evFn(ev), "an active subscription of the channel may be replaced: nothing waits for the notification in progress")
			case ev.Args[2].op != "alloc":
				m.fail("registration", evFn(ev), "what is registered is no new subscription")
			case ev.St.mem[m.e.faddr(ev.Args[2], d.cancel, d.sub)] == nil:
				m.fail("registration", evFn(ev), "the subscription is registered without an event to cancel it")
			case d.chField != "" && ev.St.mem[m.e.faddr(ev.Args[2], d.chField, d.sub)] != ev.Args[1]:
				m.fail("registration", evFn(ev), "the subscription is registered for another channel")
			}
		}
		if ev.Kind == "mapdel" && s.isSubs(ev.Args[0]) {
			c.instance("removal", evFn(ev))
			ok := false
			for _, f := range m.all("lu") {
				if f.b == ev.Args[1] && (s.quiet(f.a) || s.none(f.a)) {
					ok = true
				}
			}
			switch {
			case !s.ownLock(true):
				m.fail("removal", evFn(ev), "the subscription is removed without holding the lock exclusively")
			case !ok:
				m.fail("removal", evFn(ev), "a subscription is removed that was not cancelled before (and nothing waits for the notification in progress)")
			}
		}
		if ev.Kind == "store" && isFieldAddr(ev.Addr, r.self, d.subs) {
			old := m.e.load(ev.St, ev.Addr, ev.Val.typ)
			if n, known := m.isNil(old); !known || !n {
				m.fail("removal", evFn(ev), "all subscriptions are dropped: nothing waits for the notifications in progress")
			}
		}
		if ev.Kind == "call" && ev.Name == "builtin.clear" && s.isSubs(ev.Args[0]) {
			m.fail("removal", evFn(ev), "all subscriptions are dropped: nothing waits for the notifications in progress")
		}

		if ev.Kind == "range" && s.isSubs(ev.Args[0]) && s.ownLock(false) && !m.has("looked", nil) {
			s.v.need(ev.Args[0])
			if len(m.all("closing")) > 0 {
				m.set("looked", nil, nil)
			}
		}
		s.step(ev)
		if _, _, yes := d.received(m.e, ev, r.self); yes {
			for _, k := range []string{"ca", "fd", "fc", "qu", "nxs", "its", "closing", "looked", "first"} {
				m.clear(k)
			}
			s.v.reset()
		}

		// Close
		switch ev.Kind {
		case "call":
			if ev.Name == evFire && d.k.isEvent(ev.Args[0], r.self) {
				m.set("closing", ev.Res, nil)
				m.del("looked", nil)
				s.v.reset()
			}
		case "return":
			for _, f := range m.all("closing") {
				if v, known := m.truth(f.a); known && !v {
					continue
				}
				c.instance("close cancels all", who)
				switch {
				case !m.has("looked", nil):
					m.fail("close cancels all", who, "returns without cancelling the subscriptions")
				case s.v.pending():
					m.fail("close cancels all", who, "returns before all subscriptions are cancelled")
				}
			}
		}
		for _, f := range m.all("qu") {
			if it, w := s.v.part(f.a); it != nil && w == "val" {
				s.v.done(it)
			}
		}
		for _, f := range m.all("fd") {
			if it, w := s.v.part(f.b); it != nil && w == "key" && (s.none(f.a) || s.quiet(f.a)) {
				s.v.done(it)
			}
		}

		if ev.Kind == "return" && root {
			switch r.fn.Name() {
			case "Unsubscribe":
				ch := c.n.param(r.fn, 1, r.fn.Params[1])
				c.instance("unsubscribed", who)
				ok := false
				for _, f := range m.all("fd") {
					if f.b == ch && (s.none(f.a) || s.quiet(f.a)) {
						ok = true
					}
				}
				// a distributor without any subscription
				if n, known := m.isNil(m.e.load(ev.St, m.e.faddr(r.self, d.subs, derefType(r.self.typ)), types.Typ[types.UnsafePointer])); known && n {
					ok = true
				}
				if !ok {
					m.fail("unsubscribed", who, "returns without having waited for the notification in progress")
				}
			case "Subscribe":
				if len(ev.Args) == 0 {
					return
				}
				if n, known := m.isNil(ev.Args[len(ev.Args)-1]); known && n {
					return
				}
				c.instance("refused", who)
				if len(m.all("reg")) > 0 {
					m.fail("refused", who, "returns an error although the subscription is registered")
				}
			}
		}
	})
}

func checkK02(c *Check) {
	c.expl = "Typestate analysis of the subscriptions over every operation of ConfigDistributor and the goroutines it starts: a send on a channel needs the lock of the very subscription registered for that channel and, under it, the proof that the subscription is " +
		"active; a subscription leaves the map only after its event fired and its lock was acquired afterwards; Unsubscribe and the first Close return only when that is the case for the channel (all channels); waiting callers of Get see the closed event; the end of the source closes."
	c.assume = []string{"E01: a fired event stays fired", "V01: nothing is registered after the closed event fired", "sync.Mutex provides mutual exclusion"}
	d := c.distributor()
	if d == nil {
		return
	}
	d.subscriptionRules()
	c.floor("close cancels all", 1, "returns after closing")
	for _, r := range d.roots {
		c.harmless(r.fn)
		for _, t := range r.ts {
			if d.monitors(t, r.self) {
				d.sourceEnd(r, t)
			}
			if r.fn.Name() == "Get" && t.Kind == "root" {
				d.released(r, t)
			}
		}
	}
	c.floor("source end", 1, "goroutines receiving configurations")
	c.floor("released", 1, "waits for a configuration")
}

// harmless: an operation does not panic, whatever the state of the distributor.
func (c *Check) harmless(fn *ssa.Function) {
	c.instance("harmless", fnName(fn))
	for _, t := range c.threads(fn, Opts{Oblig: true}) {
		t.Exec.eachEvent(func(ev *Event) {
			switch {
			case ev.Kind == "oblig" && ev.What == "write to nil map" && c.fromStart(ev.Val):
			case ev.Kind == "oblig" && !ev.OK && ev.Val != nil && c.alwaysSet(ev.Val):
			case ev.Kind == "oblig" && !ev.OK && ev.What != "call of nil function": // functions are given by the caller
				c.violate("harmless", evFn(ev)+" "+ev.What, ev.Pos(), "reached from "+fnName(fn)+": "+t.Exec.describe(ev)+" is not known to hold", nil)
			case ev.Kind == "panic" && !c.watchdogPanic(t, ev):
				c.violate("harmless", evFn(ev)+" panic", ev.Pos(), "reached from "+fnName(fn)+": "+t.Exec.describe(ev), nil)
			}
		})
	}
}

// alwaysSet: the value is that of a field that every object gets when it is created, never nil, and that is not written afterwards.
func (c *Check) alwaysSet(t *Term) bool {
	var fa *Term
	switch {
	case t.op == "load" && t.args[0].op == "faddr":
		fa = t.args[0]
	case t.op == "out" && len(t.args) > 1 && t.args[1].op == "faddr":
		fa = t.args[1]
	default:
		return false
	}
	owner := fa.typ
	if owner == nil {
		return false
	}
	made, set := 0, 0
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && types.Identical(derefType(a.Type()), owner) {
					made++
				}
				f, ok := in.(*ssa.FieldAddr)
				if !ok || !types.Identical(derefType(f.X.Type()), owner) || derefType(f.X.Type()).Underlying().(*types.Struct).Field(f.Field).Name() != fa.aux {
					continue
				}
				for _, u := range *f.Referrers() {
					switch u := u.(type) {
					case *ssa.UnOp:
					case *ssa.DebugRef:
					case *ssa.Store:
						if _, fresh := f.X.(*ssa.Alloc); !fresh || u.Addr != f || !c.created(u.Val) {
							return false
						}
						set++
					default:
						return false // the address of the field is used otherwise
					}
				}
			}
		}
	}
	return made > 0 && set == made
}

// created: the value is a fresh object.
func (c *Check) created(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.MakeChan, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure:
		return true
	case *ssa.Call:
		fn := v.Call.StaticCallee()
		if fn == nil || fn.Blocks == nil {
			return false
		}
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if _, fresh := r.Results[0].(*ssa.Alloc); !fresh {
					return false
				}
			}
		}
		return true
	}
	return false
}

// fromStart: the map is a field that is set when the object is created, and only ever to a map.
func (c *Check) fromStart(t *Term) bool {
	_, field, ok := fieldOfLoad(t)
	if !ok {
		return false
	}
	made := false
	for _, fn := range c.p.Funcs {
		if fnPkg(fn) != srvPath {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || derefType(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() != field {
					continue
				}
				if _, ok := st.Val.(*ssa.MakeMap); !ok {
					return false
				}
				made = made || strings.HasPrefix(fn.Name(), "New")
			}
		}
	}
	return made
}

// sourceEnd: when the source is closed, the distributor is closed before the goroutine ends.
func (d *distModel) sourceEnd(r *distRoot, t *Thread) {
	c := d.c
	who := fnName(t.Fn)
	c.instance("source end", who)
	c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		s := &dstep{d: d, m: m, self: r.self, v: &visit{m: m}}
		ended := func() bool {
			for _, f := range m.all("more") {
				if v, known := m.truth(f.a); !known || !v {
					return true
				}
			}
			return false
		}
		end := ended()
		s.step(ev)
		if ev.Kind == "call" && ev.Name == evFire && d.k.isEvent(ev.Args[0], r.self) {
			m.set("cl", m.e.n.boolean(true), nil)
		}
		if (ev.Kind == "return" || d.awaits(ev, r.self)) && end && !s.closed() {
			m.fail("source end", who, "the end of the source of configurations does not close the distributor")
		}
		waits := d.awaits(ev, r.self)
		if _, _, yes := d.received(m.e, ev, r.self); yes || waits {
			if m.has("over", nil) {
				m.fail("ends", who, "the goroutine that receives configurations goes on after it has learned that the distributor is closed")
				return
			}
		}
		if ev.Kind == "select" && ev.Chosen >= 0 && !ev.Cases[ev.Chosen].Send && d.k.isEnd(ev.Cases[ev.Chosen].Ch, r.self) {
			c.instance("ends", who)
			m.set("over", nil, nil)
		}
		if _, ok, yes := d.received(m.e, ev, r.self); yes {
			m.clear("more")
			if ok == nil {
				m.fail("source end", who, "the end of the source of configurations is not recognised")
				return
			}
			m.set("more", ok, nil)
		}
	})
}

// released: whatever Get waits for, the end of the distributor wakes it up and makes it fail.
func (d *distModel) released(r *distRoot, t *Thread) {
	c := d.c
	who := fnName(t.Fn)
	c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		blocks := ev.Kind == "select" && ev.Block || ev.Kind == "recv" || ev.Kind == "send" || blockingCall(ev) != ""
		if blocks {
			c.instance("released", who)
			ok := false
			if ev.Kind == "select" {
				for _, cs := range ev.Cases {
					ok = ok || !cs.Send && d.k.isEnd(cs.Ch, r.self)
				}
			}
			if ev.Kind == "recv" && d.k.isEnd(ev.Args[0], r.self) {
				ok = true
			}
			if !ok {
				m.fail("released", who, "waits at %s without being woken up by the end of the distributor", c.p.pos(ev.Pos()))
			}
			m.clear("end")
			if ev.Kind == "select" && ev.Chosen >= 0 && d.k.isEnd(ev.Cases[ev.Chosen].Ch, r.self) || ev.Kind == "recv" && ok {
				m.set("end", nil, nil)
			}
		}
		if ev.Kind == "return" && m.has("end", nil) {
			if x := ev.Args[len(ev.Args)-1]; !isGlobalErr(x, "ErrConfigDistributorClosed") {
				m.fail("released", who, "returns %v when the distributor is closed while it waits", x)
			}
		}
	})
}

// predicates is the list of predicates of a subscription.
func (d *distModel) predicates(m *Mon, sub *Term, ev *Event) *Term {
	if sub.op == "alloc" {
		if v := ev.St.mem[m.e.faddr(sub, d.checks, d.sub)]; v != nil {
			return v
		}
		if v := m.get("pr", sub); v != nil {
			return v
		}
	}
	return startupField(m.e, sub, d.checks)
}

// filterStep follows the evaluation of the predicates of subscriptions: chk(list): its predicates are being asked one by one,
// hit(list): one of them returned true. accepts tells whether the arguments of a predicate are right.
func (s *dstep) filterStep(ev *Event, args func(old, cur *Term) bool) {
	m := s.m
	m.ns = "chk:"
	defer func() { m.ns = "" }()
	s.answers()
	m.loopStep(ev)
	if ev.Kind == "iter" {
		m.loopIter(ev)
		m.followKey(ev, "pred")
	}
	if ev.Kind != "call" || ev.Val == nil || ev.Name != "dynamic" || len(ev.Args) != 2 || namedOf(ev.Args[1].typ) != "Config" {
		return
	}
	f := ev.Val
	if f.op != "load" || f.args[0].op != "iaddr" {
		return
	}
	list, i := f.args[0].args[0], f.args[0].args[1]
	if !m.has("chk", list) {
		for _, k := range []string{"cnt", "el", "later", "ji"} {
			m.clear(m.ns + k)
		}
		m.clear("pred")
		m.set("chk", list, nil)
	}
	s.d.c.instance("predicate", evFn(ev))
	if !args(ev.Args[0], ev.Args[1]) {
		m.fail("predicate", evFn(ev), "a predicate is asked about %v and %v instead of the previous and the new configuration", ev.Args[0], ev.Args[1])
	}
	m.set("pred", ev.Res, list)
	if m.countIs(i) || m.countFromEnd(i, m.e.length(m.state(), list)) {
		m.elementDone()
	}
}

// answers notes what the predicates returned, as far as it is known now.
func (s *dstep) answers() {
	m := s.m
	for _, f := range m.all("pred") {
		if v, known := m.truth(f.a); known {
			m.del("pred", f.a)
			if v {
				m.set("hit", f.b, nil)
			}
		} else if m.isOld(f.a) {
			m.del("pred", f.a)
			m.set("unclear", f.b, nil)
		}
	}
}

// wanted: the list of predicates is empty, or one of them returned true.
func (s *dstep) wanted(list *Term) bool {
	m := s.m
	if m.has("hit", list) || m.emptySlice(list) {
		return true
	}
	v, known := m.truth(m.e.n.eq(m.e.length(m.state(), list), m.e.n.int(0)))
	return known && v
}

// unwanted: there are predicates and all of them returned false.
func (s *dstep) unwanted(list *Term) bool {
	m := s.m
	if !m.has("chk", list) || m.has("hit", list) || m.has("unclear", list) {
		return false
	}
	for _, f := range m.all("pred") {
		if f.b == list {
			return false
		}
	}
	m.ns = "chk:"
	defer func() { m.ns = "" }()
	return m.countReaches(m.e.length(m.state(), list))
}

func checkK01(c *Check) {
	c.expl = "Dataflow over Get, Subscribe and the goroutine receiving configurations: each received configuration is stored as the current one before it is announced, and every entry of the map of subscriptions (read not before that) is, before the next configuration, " +
		"sent that configuration, known cancelled, or known to have predicates that all returned false for (previous, new); Subscribe registers before or in the same critical section as it reads the current configuration and sends it, under the lock of the new subscription held since before; Get returns what was stored."
	c.assume = []string{"E01", "K02: cancelled subscriptions need no delivery", "predicates are pure functions of their arguments"}
	d := c.distributor()
	if d == nil {
		return
	}
	mons := 0
	for _, r := range d.roots {
		for _, t := range r.ts {
			switch {
			case d.monitors(t, r.self):
				mons++
				d.monitor(r, t)
			default:
				d.starts(r, t)
			}
			if t.Kind == "root" && r.fn.Name() == "Subscribe" {
				d.subscribes(r, t)
			}
			if t.Kind == "root" && r.fn.Name() == "Get" {
				d.gets(r, t)
			}
		}
	}
	d.cancelField()
	c.floor("delivery", 1, "goroutines receiving configurations")
	c.floor("start", 1, "operations starting it")
	c.floor("initial", 1, "successful returns of Subscribe")
	c.floor("get", 1, "returns of Get")
	c.floor("predicate", 1, "evaluations of predicates")
}

// monitor: what becomes of a configuration received.
func (d *distModel) monitor(r *distRoot, t *Thread) {
	c := d.c
	who := fnName(t.Fn)
	c.instance("delivery", who)
	c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		s := &dstep{d: d, m: m, self: r.self, v: &visit{m: m}}
		s.v.miss = func() {
			m.fail("delivery", who, "a subscriber is skipped although it is active and none of its predicates was asked, or one of them returned true")
		}
		var cur *Term
		for _, f := range m.all("new") {
			if v, known := m.truth(f.b); known && !v {
				m.clear("new")
			} else {
				cur = f.a
			}
		}
		dealt := func() {
			done := func(sub *Term) {
				if it, w := s.v.part(sub); it != nil && w == "val" {
					s.v.done(it)
				}
			}
			for _, f := range m.all("ca") {
				if s.cancelled(f.b) {
					done(f.b)
				}
			}
			for _, f := range m.all("chk") {
				if b, g, ok := fieldOf(f.a); ok && g == d.checks && s.unwanted(f.a) {
					done(b)
				}
			}
			for _, f := range m.all("sent") {
				done(f.a)
			}
			m.clear("sent")
			if s.closed() {
				for _, f := range m.all("open") {
					s.v.done(f.a)
				}
			}
		}
		s.answers()
		dealt() // by what the last branch told
		if cur != nil && (ev.Kind == "return" || d.awaits(ev, r.self)) && !s.closed() {
			switch {
			case !m.has("stored", nil):
				m.fail("delivery", who, "a configuration received does not become the current one")
			case !m.has("announced", nil):
				m.fail("delivery", who, "the first configuration is not announced")
			case !m.has("snap", nil):
				m.fail("delivery", who, "the subscribers are not notified")
			case s.v.pending():
				m.fail("delivery", who, "not all subscribers are notified")
			}
		}
		if ev.Kind == "return" && cur == nil && !s.closed() && len(m.all("more")) > 0 {
			ended := false
			for _, f := range m.all("more") {
				if v, known := m.truth(f.a); known && !v {
					ended = true
				}
			}
			if !ended {
				m.fail("delivery", who, "stops receiving configurations although the distributor is not closed")
			}
		} else if ev.Kind == "return" && cur != nil && !s.closed() {
			m.fail("delivery", who, "stops receiving configurations although the distributor is not closed")
		}
		s.filterStep(ev, func(o, n *Term) bool { return cur == nil || n == cur && m.has("old", o) })
		if cur != nil {
			for _, cs := range deliveries(ev) {
				d.sends(s, ev, cs, cur)
			}
		}
		s.step(ev)

		switch ev.Kind {
		case "load":
			if isFieldAddr(ev.Addr, r.self, d.last) && s.ownLock(false) && cur != nil && !m.has("stored", nil) {
				m.set("old", ev.Res, nil)
			}
			if isFieldAddr(ev.Addr, r.self, d.subs) && s.ownLock(false) && cur != nil && !m.has("snap", nil) {
				m.set("snap", nil, nil)
				s.v.need(ev.Res)
			}
		case "store":
			if isFieldAddr(ev.Addr, r.self, d.last) {
				switch {
				case ev.Val != cur:
					m.fail("delivery", who, "%v becomes the current configuration instead of the one received", ev.Val)
				case !s.ownLock(true):
					m.fail("delivery", who, "the current configuration is replaced without holding the lock")
				case m.has("early", nil):
					m.fail("delivery", who, "the subscribers are collected before the configuration becomes the current one: who subscribes in between misses it")
				}
				m.set("stored", nil, nil)
			}
		case "call":
			if ev.Name == evFire {
				if b, f, ok := fieldOf(ev.Args[0]); ok && b == r.self && f == d.ready {
					if !m.has("stored", nil) {
						m.fail("delivery", who, "%s fires before there is a configuration", d.ready)
					}
					m.set("announced", nil, nil)
				}
			}
			if u, _ := isUnlock(ev); u && ev.Args[0].op == "faddr" && ev.Args[0].args[0] == r.self && m.has("snap", nil) && !m.has("stored", nil) {
				m.set("early", nil, nil)
			}
		}
		if val, ok, yes := d.received(m.e, ev, r.self); yes {
			for _, k := range []string{"new", "old", "stored", "announced", "snap", "early", "more", "chk", "hit", "pred", "unclear", "chk:cnt", "chk:el", "chk:later", "chk:ji", "ca", "fd", "fc", "qu", "nxs", "its"} {
				m.clear(k)
			}
			s.v.reset()
			if ok == nil {
				ok = m.e.n.boolean(true)
			}
			m.set("new", val, ok)
			m.set("more", ok, nil)
		}

		dealt()
	})
	// nobody else replaces the current configuration
	for _, o := range d.roots {
		for _, t := range o.ts {
			if d.monitors(t, o.self) {
				continue
			}
			t.Exec.eachEvent(func(ev *Event) {
				if ev.Kind == "store" && isFieldAddr(ev.Addr, o.self, d.last) {
					c.violate("delivery", evFn(ev), ev.Pos(), "replaces the current configuration without notifying anybody", nil)
				}
			})
		}
	}
}

// sends: a delivery of configuration cur to a subscriber.
func (d *distModel) sends(s *dstep, ev *Event, cs SelCase, cur *Term) {
	m := s.m
	var sub *Term
	for _, l := range m.all("lk") {
		if x := d.subLock(l.a); x != nil && s.pair(cs.Ch, x) {
			sub = x
		}
	}
	if cs.Val != cur {
		m.fail("value", evFn(ev), "%v is sent instead of the current configuration", cs.Val)
		return
	}
	if sub == nil {
		return // K02
	}
	if !s.wanted(d.predicates(m, sub, ev)) && (s.given == nil || sub.op != "alloc" || !s.wanted(s.given)) {
		m.fail("filter", evFn(ev), "a configuration is sent although it is not known that the subscriber has no predicates or one of them returned true")
	}
	if ev.Kind == "send" || ev.Chosen >= 0 && ev.Cases[ev.Chosen] == cs {
		m.set("sent", sub, nil)
	}
}

// starts: the goroutine is started by whoever fires the event first (or by a sync.Once).
func (d *distModel) starts(r *distRoot, t *Thread) {
	c := d.c
	who := fnName(t.Fn)
	spawns := func(ev *Event) bool {
		if ev.Kind != "go" {
			return false
		}
		x := child(r.ts, t, ev)
		return x != nil && d.monitors(x, r.self)
	}
	any := ""
	t.Exec.eachEvent(func(ev *Event) {
		if spawns(ev) {
			any = who
		}
	})
	if t.Kind != "root" && any == "" {
		return
	}
	must := r.fn.Name() == "Subscribe" || r.fn.Name() == "Get"
	c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		due := func() bool {
			for _, f := range m.all("first") {
				if v, known := m.truth(f.a); !known || v {
					return true
				}
			}
			return false
		}
		switch {
		case spawns(ev):
			ok := m.has("inonce", nil)
			for _, f := range m.all("first") {
				if v, known := m.truth(f.a); known && v {
					ok = true
				}
			}
			if !ok {
				m.fail("start", who, "the goroutine receiving configurations may be started more than once")
			}
			m.clear("first")
			m.clear("inonce")
			m.set("running", nil, nil)
		case ev.Kind == "call" && ev.Name == evFire:
			if b, f, ok := fieldOf(ev.Args[0]); ok && b == r.self && f != d.k.event && f != d.ready {
				m.set("first", ev.Res, nil)
				m.set("running", nil, nil)
			}
		case ev.Kind == "once":
			if ev.Truth {
				m.set("inonce", nil, nil)
			} else {
				m.set("running", nil, nil)
			}
		case ev.Kind == "call" && ev.Name == evHas || ev.Kind == "select" && ev.Chosen >= 0 || ev.Kind == "recv":
			// once there is a configuration somebody started it
		}
		if ev.Kind == "return" || ev.Kind == "select" && ev.Block || ev.Kind == "recv" {
			if due() {
				m.fail("start", who, "the goroutine receiving configurations is marked as started but not started")
			}
		}
		if !must {
			return
		}
		if ev.Kind == "select" && ev.Block && !m.has("running", nil) {
			for _, cs := range ev.Cases {
				if cs.Ch.op == "done" {
					if b, f, ok := fieldOf(cs.Ch.args[0]); ok && b == r.self && f == d.ready {
						c.instance("start", who)
						m.fail("start", who, "waits for a configuration without having started the goroutine that receives it")
					}
				}
			}
		}
		if ev.Kind == "return" && t.Kind == "root" && r.fn.Name() == "Subscribe" {
			if n, known := m.isNil(ev.Args[len(ev.Args)-1]); !known || n {
				c.instance("start", who)
				if !m.has("running", nil) {
					m.fail("start", who, "subscribes without having started the goroutine that receives configurations")
				}
			}
		}
		if m.has("running", nil) {
			c.instance("start", who)
		}
	})
}

func (d *distModel) subscribes(r *distRoot, t *Thread) {
	c := d.c
	who := fnName(t.Fn)
	ch := c.n.param(r.fn, 1, r.fn.Params[1])
	checks := c.n.param(r.fn, 2, r.fn.Params[2])
	c.endless("initial", t)
	c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		s := &dstep{d: d, m: m, self: r.self, v: &visit{m: m}, given: checks}
		s.filterStep(ev, func(o, n *Term) bool { return o.op == "nil" && m.has("cur", n) })
		for _, cs := range deliveries(ev) {
			if n, known := m.isNil(cs.Val); !known || n {
				m.fail("initial", who, "%v is sent to a new subscriber although there may be no configuration yet", cs.Val)
				continue
			}
			if !m.has("cur", cs.Val) {
				m.fail("initial", who, "%v is sent to a new subscriber instead of the current configuration", cs.Val)
				continue
			}
			ok := false
			for _, f := range m.all("alive") {
				ok = ok || m.get("reg", f.a) == cs.Ch
			}
			if !ok {
				m.fail("initial", who, "the current configuration is sent without having held back newer ones since the subscription is registered")
			}
			d.sends(s, ev, cs, cs.Val)
		}
		switch {
		case ev.Kind == "mapget" && s.isSubs(ev.Args[0]) && ev.Args[1] == ch:
			at := m.e.n.int(int64(ev.Site.id))
			if m.has("looked", at) {
				m.fail("initial", who, "the channel is looked up again and again although its subscription was not removed")
				return
			}
			m.set("looked", at, nil)
		case ev.Kind == "mapdel" && s.isSubs(ev.Args[0]):
			m.clear("looked")
		case ev.Kind == "call" && len(ev.Args) > 0 && ev.Args[0].op == "faddr" && ev.Args[0].args[0] != r.self && ev.Args[0].args[0].op != "alloc":
			m.clear("looked") // something is done to the subscription that was found
		}
		own := false
		if u, _ := isUnlock(ev); u && ev.Args[0].op == "faddr" && ev.Args[0].args[0] == r.self {
			own = true
		}
		s.step(ev)
		switch {
		case own:
			m.clear("cur0")
		case ev.Kind == "load" && isFieldAddr(ev.Addr, r.self, d.last) && s.ownLock(false):
			if len(m.all("reg")) > 0 {
				m.set("cur", ev.Res, nil)
			} else {
				m.set("cur0", ev.Res, nil)
			}
		case ev.Kind == "mapset" && s.isSubs(ev.Args[0]):
			for _, f := range m.all("cur0") {
				m.set("cur", f.a, nil)
			}
			if ev.Args[1] != ch {
				m.fail("initial", who, "another channel than the one given is registered")
			}
			p := d.predicates(m, ev.Args[2], ev)
			if p == nil || p != checks && !p.hasLeaf(checks) {
				m.fail("initial", who, "the subscription is registered without the predicates given")
			}
		}
		if ev.Kind != "return" {
			return
		}
		if n, known := m.isNil(ev.Args[len(ev.Args)-1]); known && !n {
			c.instance("refused", who)
			if !s.closed() {
				m.fail("initial", who, "fails although the distributor is not closed")
			}
			return
		}
		c.instance("initial", who)
		ok := false
		for _, f := range m.all("cur") {
			if n, known := m.isNil(f.a); known && n {
				ok = true
			}
		}
		reg := m.all("reg")
		for _, f := range reg {
			p := d.predicates(m, f.a, ev)
			ok = ok || m.has("sent", f.a) || s.cancelled(f.a) || s.unwanted(p) || s.unwanted(checks)
		}
		switch {
		case len(reg) == 0:
			m.fail("initial", who, "returns without having registered the subscription")
		case len(m.all("cur")) == 0:
			m.fail("initial", who, "returns without having looked for the current configuration after the subscription was registered")
		case !ok:
			m.fail("initial", who, "returns without having sent the current configuration")
		}
	})
}

// endless reports loops that neither end nor wait for anything.
func (c *Check) endless(rule string, t *Thread) {
	ends := map[*Node]bool{}
	for again := true; again; {
		again = false
		for _, nd := range t.Exec.Nodes {
			for _, ed := range nd.out {
				if !ends[nd] && (ed.to == nil || ed.to.final || ends[ed.to] || waiting(ed.evs)) {
					ends[nd], again = true, true
				}
			}
		}
	}
	for _, nd := range t.Exec.Nodes {
		if !nd.final && !ends[nd] && len(nd.out) > 0 && nd.fn != nil {
			c.violate(rule, fnName(nd.fn)+" loop", nd.fn.Pos(), "a loop neither ends nor waits for anything", nil)
			return
		}
	}
}

func waiting(evs []*Event) bool {
	for _, ev := range evs {
		switch ev.Kind {
		case "select", "recv", "send", "panic", "return":
			return true
		}
	}
	return false
}

func (d *distModel) gets(r *distRoot, t *Thread) {
	c := d.c
	who := fnName(t.Fn)
	isReady := func(x *Term) bool {
		b, f, ok := fieldOf(x)
		return ok && b == r.self && f == d.ready
	}
	c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		s := &dstep{d: d, m: m, self: r.self, v: &visit{m: m}}
		before := s.closed()
		s.step(ev)
		ready := func() bool {
			for _, f := range m.all("rdy") {
				if v, known := m.truth(f.a); known && v {
					return true
				}
			}
			return false
		}
		switch ev.Kind {
		case "call":
			if ev.Name == evHas && isReady(ev.Args[0]) {
				m.set("rdy", ev.Res, nil)
			}
		case "select":
			if ev.Block {
				listens := false
				for _, cs := range ev.Cases {
					listens = listens || cs.Ch.op == "done" && isReady(cs.Ch.args[0])
				}
				if !listens {
					m.fail("get", who, "waits without learning of the first configuration")
					return
				}
			}
			if ev.Chosen >= 0 {
				if x := ev.Cases[ev.Chosen].Ch; x.op == "done" && isReady(x.args[0]) {
					m.set("rdy", m.e.n.boolean(true), nil)
				}
			}
		case "recv":
			if x := ev.Args[0]; x.op == "done" && isReady(x.args[0]) {
				m.set("rdy", m.e.n.boolean(true), nil)
			} else if x.op == "done" && !before {
				m.fail("get", who, "waits without learning of the first configuration")
				return
			}
		case "load":
			if isFieldAddr(ev.Addr, r.self, d.last) {
				m.set("lv", ev.Res, m.e.n.boolean(ready()))
			}
		case "return":
			c.instance("get", who)
			err := ev.Args[len(ev.Args)-1]
			if n, known := m.isNil(err); known && !n {
				if !s.closed() {
					m.fail("get", who, "fails although the distributor is not closed")
				}
				return
			}
			v := ev.Args[0]
			x := m.get("lv", v)
			if x == nil {
				m.fail("get", who, "returns %v instead of the current configuration", v)
				return
			}
			b, _ := x.boolVal()
			if n, known := m.isNil(v); !b && !(known && !n) {
				m.fail("get", who, "returns before there is a configuration")
			}
		}
	})
}
