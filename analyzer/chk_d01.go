package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checkFns["D01"] = checkD01
	for _, n := range []string{"(*net/url.URL).Hostname", "(*net/url.URL).Port", "(*net/url.Userinfo).Username", "(*net/url.Userinfo).Password",
		"(net/url.Values).Get", "strings.TrimLeft", "strings.TrimPrefix", "strings.TrimSpace", "strings.HasPrefix"} {
		models[n] = modelPure
	}
}

// modelPure: the result is determined by the arguments.
func modelPure(r *runner, s *State, ci callInfo, result ssa.Value, evs []*Event, isDefer bool) ([]*Event, bool) {
	if result == nil {
		return r.plain(s, ci, result, nil, evs, isDefer), false
	}
	return r.plain(s, ci, result, r.e.n.mk(Term{op: "app", aux: ci.name(), typ: result.Type(), args: ci.args}), evs, isDefer), false
}

var stringSlice = types.NewSlice(types.Typ[types.String])

// dsnKeys are the parameters with a rule of their own.
var dsnKeys = []string{"host", "port", "user", "password", "database"}

func checkD01(c *Check) {
	c.expl = "Abstract interpretation of the URI translation with a value domain per connection parameter: every path that returns parameters must have a known scheme, and the value of each parameter is composed as " +
		"query parameter, else the non-empty part of the URI (by its accessor, which decodes), else the default; every path that returns an error must come from an unparsable URI, query or another scheme."
	c.assume = []string{"net/url splits and decodes as documented", "a parsed query has at least one value per parameter", "os/user.Current reports the operating-system user"}
	fn := c.mustFn("pkg/pg", "", "ParseDatabaseURI")
	if fn == nil {
		return
	}
	e := c.explore(fn, Opts{})
	d := &dsnMon{c: c, fn: fn}
	c.product(e, nil, d.step)
	for _, k := range dsnKeys {
		c.floor("parameter "+k, 1, "paths that return the parameter")
	}
	c.floor("scheme", 1, "paths that return parameters")
	c.floor("rejection", 3, "causes of errors")
}

// dsnMon follows the parameters. Monitor facts: u: the parsed URI; qv: its query; v:K(M)=value of parameter K in map M
// (parts, defaults, override(value): the query parameter, if present, else value; orelse(a, d): d if a is empty; nonempty(a));
// g:K(M)=latest result of looking K up; was(result)=value of the parameter looked up.
type dsnMon struct {
	c  *Check
	fn *ssa.Function
}

func (d *dsnMon) val(m *Mon, mp *Term, k string) *Term {
	if v := m.get("v:"+k, mp); v != nil {
		return v
	}
	return m.kind("unset")
}

func wrapT(m *Mon, op string, args ...*Term) *Term {
	return m.e.n.mk(Term{op: op, aux: "dsn", args: args})
}

// empty tells whether a string is known to be empty or not.
func (m *Mon) empty(t *Term) (empty, known bool) {
	if s, ok := t.strVal(); ok {
		return s == "", true
	}
	if v, ok := m.truth(m.e.n.eq(m.e.n.zero(types.Typ[types.String]), t)); ok {
		return v, true
	}
	p := m.prover()
	l := p.lin(m.e.length(m.state(), t))
	if p.prove(linear{c: map[*Term]int64{}, k: -1, ok: true}.add(l, 1)) {
		return false, true
	}
	if p.prove(linear{c: map[*Term]int64{}, ok: true}.add(l, -1)) {
		return true, true
	}
	return false, false
}

func (d *dsnMon) uri(m *Mon) *Term {
	for _, f := range m.all("u") {
		return f.a
	}
	return nil
}

// source classifies a value: the part of the URI, the default, of parameter k.
func (d *dsnMon) isPart(m *Mon, k string, t *Term) bool {
	u := d.uri(m)
	if u == nil {
		return false
	}
	field := func(t *Term, f string) bool {
		b, n, ok := fieldOfLoad(t)
		return ok && n == f && b == u
	}
	app := func(t *Term, name string) bool { return t.op == "app" && t.aux == name }
	switch k {
	case "host":
		return app(t, "(*net/url.URL).Hostname") && t.args[0] == u
	case "port":
		return app(t, "(*net/url.URL).Port") && t.args[0] == u
	case "user":
		return app(t, "(*net/url.Userinfo).Username") && field(t.args[0], "User")
	case "password":
		return t.op == "ext" && t.aux == "0" && app(t.args[0], "(*net/url.Userinfo).Password") && field(t.args[0].args[0], "User")
	case "database":
		if (app(t, "strings.TrimLeft") || app(t, "strings.TrimPrefix")) && field(t.args[0], "Path") {
			s, ok := t.args[1].strVal()
			return ok && s == "/"
		}
		if t.op == "slice" && field(t.args[0], "Path") {
			lo, ok := t.args[1].intVal()
			return ok && lo == 1 && (t.args[2].op == "nil" || t.args[2] == m.e.length(m.state(), t.args[0]))
		}
	}
	return false
}

// part: the URI is known to hold (not to hold) parameter k.
func (d *dsnMon) part(m *Mon, k string) (present, known bool) {
	if k == "user" || k == "password" {
		for _, f := range m.all("ui") {
			if nil_, ok := m.isNil(f.a); ok && nil_ {
				return false, true
			}
		}
	}
	if k == "database" {
		for _, f := range m.all("path") {
			if e, ok := m.empty(f.a); ok && e {
				return false, true
			}
			slash := m.e.n.constant(constant.MakeString("/"), nil)
			// the path of a URI with a scheme is empty or starts with a slash
			if v, ok := m.truth(m.e.n.mk(Term{op: "app", aux: "strings.HasPrefix", typ: types.Typ[types.Bool], args: []*Term{f.a, slash}})); ok && !v {
				return false, true
			}
			if v, ok := m.truth(m.e.n.eq(slash, f.a)); ok && v {
				return false, true
			}
			// longer than the leading slash
			p := m.prover()
			l := p.lin(m.e.length(m.state(), f.a))
			if p.prove(linear{c: map[*Term]int64{}, k: -2, ok: true}.add(l, 1)) {
				return true, true
			}
			if p.prove(linear{c: map[*Term]int64{}, k: 1, ok: true}.add(l, -1)) {
				return false, true
			}
		}
	}
	for _, f := range m.all("p:" + k) {
		if k == "password" {
			if v, ok := m.truth(m.e.n.mk(Term{op: "ext", aux: "1", typ: types.Typ[types.Bool], args: []*Term{f.a.args[0]}})); ok {
				return v, true
			}
			if e, ok := m.empty(f.a); ok && !e {
				return true, true
			}
			continue
		}
		if e, ok := m.empty(f.a); ok {
			return !e, true
		}
	}
	return false, false
}

// isDefault: t is the default of parameter k.
func (d *dsnMon) isDefault(m *Mon, mp *Term, k string, t *Term, final *Term) bool {
	switch k {
	case "host":
		s, ok := t.strVal()
		return ok && s == "localhost"
	case "port":
		s, ok := t.strVal()
		return ok && s == "5432"
	case "user":
		b, f, ok := fieldOfLoad(t)
		return ok && f == "Username" && b.op == "ext" && b.aux == "0" && b.args[0].op == "sym" && stripAge(b.args[0].aux) == "os/user.Current"
	case "database":
		w := m.get("was", t)
		return w != nil && stripNonEmpty(w) == stripNonEmpty(final)
	}
	return false
}

func stripNonEmpty(t *Term) *Term {
	for t.op == "nonempty" || t.op == "present" {
		t = t.args[0]
	}
	return t
}

func stripAge(s string) string {
	for len(s) > 0 && s[len(s)-1] == '\'' {
		s = s[:len(s)-1]
	}
	return s
}

// fieldOfLoad: t is the content of a field of base.
func fieldOfLoad(t *Term) (base *Term, field string, ok bool) {
	if t.op == "load" && t.args[0].op == "faddr" {
		return t.args[0].args[0], t.args[0].aux, true
	}
	return nil, "", false
}

// keys known as values of map lookups that turned out empty or not
func (d *dsnMon) sharpen(m *Mon) {
	for _, k := range dsnKeys {
		for _, g := range m.all("g:" + k) {
			r := g.b
			v := r
			if tup, ok := r.typ.(*types.Tuple); ok {
				v = m.e.n.mk(Term{op: "ext", aux: "0", typ: tup.At(0).Type(), args: []*Term{r}})
				if p, known := m.truth(m.e.n.mk(Term{op: "ext", aux: "1", typ: types.Typ[types.Bool], args: []*Term{r}})); known && !p {
					d.mark(m, g.a, k, "empty")
					continue
				} else if known {
					d.mark(m, g.a, k, "present")
				}
			}
			if e, known := m.empty(v); known && e {
				d.mark(m, g.a, k, "empty")
			} else if known {
				d.mark(m, g.a, k, "nonempty")
			}
		}
	}
}

func (d *dsnMon) mark(m *Mon, mp *Term, k, what string) {
	v := d.val(m, mp, k)
	if v.op == "empty" || v.op == "nonempty" || v.op == what {
		return
	}
	m.set("v:"+k, mp, wrapT(m, what, stripKnown(v)))
}

func (d *dsnMon) step(m *Mon, ev *Event) {
	c := d.c
	if ev.Kind != "branch" {
		d.sharpen(m)
	}
	v := &visit{m: m, miss: func() {
		m.fail("query parameters", evFn(ev), "a query parameter is not taken over")
	}}
	if ev.Kind != "branch" {
		// an entry without value does not exist
		for _, f := range m.all("open") {
			val := ext(m.e.n, f.a, 2, stringSlice)
			if n, ok := m.truth(m.e.n.eq(m.e.length(m.state(), val), m.e.n.int(0))); ok && n {
				v.done(f.a)
			}
		}
	}
	pend := v.pending()
	v.step(ev)
	if pend && !v.pending() {
		for _, k := range dsnKeys {
			for _, f := range m.all("mp") {
				m.set("v:"+k, f.a, wrapT(m, "override", stripKnown(d.val(m, f.a, k))))
			}
			m.clear("g:" + k)
		}
		m.set("queried", nil, nil)
	}
	switch ev.Kind {
	case "call":
		switch ev.Name {
		case "net/url.Parse", "net/url.ParseRequestURI":
			if ev.Args[0].op == "param" || ev.Args[0].op == "app" && ev.Args[0].aux == "strings.TrimSpace" && ev.Args[0].args[0].op == "param" {
				m.set("u", m.e.result(ev, 0), m.e.result(ev, 1))
			}
		case "net/url.ParseQuery":
			if b, f, ok := fieldOfLoad(ev.Args[0]); ok && f == "RawQuery" && b == d.uri(m) {
				m.set("qv", m.e.result(ev, 0), m.e.result(ev, 1))
				v.need(m.e.result(ev, 0))
			}
		case "os/user.Current":
			m.set("osuser", m.e.result(ev, 0), m.e.result(ev, 1))
		}
		if ev.Res != nil && ev.Res.op == "app" {
			t := ev.Res
			if ev.Name == "(*net/url.Userinfo).Password" {
				t = m.e.result(ev, 0)
			}
			for _, k := range dsnKeys {
				if d.isPart(m, k, t) {
					m.set("p:"+k, t, nil)
				}
			}
		}
		for _, a := range ev.Args {
			d.noteParts(m, a)
		}
	case "branch":
		d.noteParts(m, ev.Cond)
	case "makemap":
		m.set("mp", ev.Res, nil)
	case "mapset":
		mp, key, val := ev.Args[0], ev.Args[1], ev.Args[2]
		if !m.has("mp", mp) {
			c.instance("map", evFn(ev))
			m.fail("parameter map", evFn(ev), "writes parameters into a map that is not made by this call: %s", mp)
			return
		}
		d.noteParts(m, val)
		if nx, w := v.part(key); w == "key" {
			if d.queryValue(m, v, nx, key, val) {
				v.done(nx)
				m.set("into", mp, nil)
			} else {
				m.fail("query parameters", evFn(ev), "takes %s for the value of a query parameter", val)
			}
			return
		}
		k, ok := key.strVal()
		if !ok {
			m.fail("parameter map", evFn(ev), "cannot tell which parameter %s is", key)
			return
		}
		if !isDsnKey(k) {
			return
		}
		cur := d.val(m, mp, k)
		nv := val
		if cur.op == "empty" {
			nv = wrapT(m, "orelse", cur.args[0], val)
		}
		m.set("v:"+k, mp, nv)
		m.del("g:"+k, mp)
	case "mapdel":
		if m.has("mp", ev.Args[0]) {
			m.fail("parameter map", evFn(ev), "removes a parameter")
		}
	case "mapget":
		k, ok := ev.Args[1].strVal()
		if !ok || !m.has("mp", ev.Args[0]) || !isDsnKey(k) || ev.Res == nil {
			return
		}
		r := ev.Res
		m.set("g:"+k, ev.Args[0], r)
		if _, tup := r.typ.(*types.Tuple); tup {
			r = m.e.result(ev, 0)
		}
		m.set("was", r, d.val(m, ev.Args[0], k))
	case "return":
		d.ret(m, ev)
	}
}

func stripKnown(t *Term) *Term {
	for t.op == "nonempty" || t.op == "empty" || t.op == "present" {
		t = t.args[0]
	}
	return t
}

func isDsnKey(k string) bool {
	for _, x := range dsnKeys {
		if x == k {
			return true
		}
	}
	return false
}

// noteParts remembers the parts of the URI that are looked at.
func (d *dsnMon) noteParts(m *Mon, t *Term) {
	u := d.uri(m)
	if u == nil || t == nil {
		return
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if b, f, ok := fieldOfLoad(t); ok && b == u {
			switch f {
			case "User":
				m.set("ui", t, nil)
			case "Path":
				m.set("path", t, nil)
			case "Scheme":
				m.set("scheme", t, nil)
			}
		}
		for _, k := range dsnKeys {
			if d.isPart(m, k, t) {
				m.set("p:"+k, t, nil)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
}

// queryValue: val is the first value of the query parameter at hand.
func (d *dsnMon) queryValue(m *Mon, v *visit, nx, key, val *Term) bool {
	if val.op == "app" && val.aux == "(net/url.Values).Get" {
		return m.has("qv", val.args[0]) && val.args[1] == key
	}
	if val.op != "load" || val.args[0].op != "iaddr" {
		return false
	}
	i, ok := val.args[0].args[1].intVal()
	if !ok || i != 0 {
		return false
	}
	x, w := v.part(val.args[0].args[0])
	return x == nx && w == "val"
}

func (d *dsnMon) ret(m *Mon, ev *Event) {
	c := d.c
	who := fnName(d.fn)
	if len(ev.Args) != 2 {
		c.undecided(who, "%s does not return parameters and an error", who)
		return
	}
	mp, err := ev.Args[0], ev.Args[1]
	u := d.uri(m)
	schemeIs := func(s string) (bool, bool) {
		for _, f := range m.all("scheme") {
			if v, ok := m.truth(m.e.n.eq(m.e.n.constant(constant.MakeString(s), nil), f.a)); ok {
				return v, true
			}
		}
		return false, false
	}
	if nil_, known := m.isNil(err); !known || !nil_ {
		if !known && mp.op != "nil" {
			m.fail("rejection", who, "cannot tell whether %s is an error", err)
			return
		}
		for _, k := range []string{"u", "qv"} {
			for _, f := range m.all(k) {
				if n, ok := m.isNil(f.b); ok && !n {
					c.instance("rejection", who+" because of "+f.b.String())
					return
				}
			}
		}
		a, ka := schemeIs("postgres")
		b, kb := schemeIs("postgresql")
		if ka && kb && !a && !b {
			c.instance("rejection", who+" because of the scheme")
			return
		}
		m.fail("rejection", who, "a well-formed postgres or postgresql URI is rejected")
		return
	}
	if u == nil {
		m.fail("parsing", who, "returns parameters without having parsed the given string as a URI")
		return
	}
	if n, ok := m.isNil(m.get("u", u)); !ok || !n {
		m.fail("parsing", who, "returns parameters although the URI may be unparsable")
		return
	}
	c.instance("scheme", who)
	a, ka := schemeIs("postgres")
	b, kb := schemeIs("postgresql")
	if !(ka && a || kb && b) {
		m.fail("scheme", who, "returns parameters although the scheme may be neither postgres nor postgresql")
	}
	if mp.op == "conv" {
		mp = mp.args[0]
	}
	if !m.has("mp", mp) {
		m.fail("parameter map", who, "returns %s, which is not a map made by this call", mp)
		return
	}
	for _, f := range m.all("into") {
		if f.a != mp {
			m.fail("query parameters", who, "the query parameters are written into another map")
			return
		}
	}
	final := d.val(m, mp, "user")
	for _, k := range dsnKeys {
		c.instance("parameter "+k, who)
		if why := d.judge(m, mp, k, final); why != "" {
			m.fail("parameter "+k, who, "%s", why)
		}
	}
}

// judge tells what is wrong with parameter k.
func (d *dsnMon) judge(m *Mon, mp *Term, k string, user *Term) string {
	v := d.val(m, mp, k)
	later := false // an empty value is replaced by the default after the query was applied
	hasDefault := k != "password"
	for v.op != "override" {
		switch v.op {
		case "nonempty", "present":
			later = true
			v = v.args[0]
			continue
		case "orelse":
			if !d.isDefault(m, mp, k, v.args[1], user) {
				return "the default is " + v.args[1].String()
			}
			later = true
			v = v.args[0]
			continue
		case "empty":
			v = v.args[0]
			continue
		}
		return "a query parameter of the same name does not take precedence"
	}
	v = v.args[0]
	present, known := d.part(m, k)
	for {
		switch v.op {
		case "nonempty", "present":
			later = true
			v = v.args[0]
			continue
		case "empty":
			v = v.args[0]
			continue
		case "orelse":
			if !d.isDefault(m, mp, k, v.args[1], user) {
				return "the default is " + v.args[1].String()
			}
			later = true
			v = v.args[0]
			continue
		}
		break
	}
	if s, ok := v.strVal(); ok && s == "" {
		v = m.kind("unset")
	}
	switch {
	case d.isPart(m, k, v):
		if known && present || later || !hasDefault && known {
			if !hasDefault && !present {
				return "an absent password is set"
			}
			return ""
		}
		if known {
			return "the default is lost when the URI does not name it"
		}
		return "is taken from the URI even when the URI does not name it"
	case v.op == "const" && v.aux == "unset":
		if known && !present {
			if !hasDefault || later {
				return ""
			}
			if k == "user" && d.noOSUser(m) {
				return ""
			}
			return "has no default"
		}
		if known {
			return "named by the URI but not taken over"
		}
		return "not looked up in the URI"
	case d.isDefault(m, mp, k, v, user):
		if known && !present {
			if k == "database" && !later {
				return "the default is taken before the query parameters are applied"
			}
			return ""
		}
		return "the default is used although the URI may name it"
	}
	return "is set to " + v.String()
}

// noOSUser: the operating-system user is unknown.
func (d *dsnMon) noOSUser(m *Mon) bool {
	for _, f := range m.all("osuser") {
		if n, ok := m.isNil(f.b); ok && !n {
			return true
		}
	}
	return false
}
