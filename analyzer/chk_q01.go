package main

import (
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() { checkFns["Q01"] = checkQ01 }

// sqlTokens splits SQL text into words, quoted names and literals, and single characters; comments are dropped.
func sqlTokens(s string) []string {
	var r []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case unicode.IsSpace(rune(c)):
			i++
		case strings.HasPrefix(s[i:], "--"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i:], "*/")
			if j < 0 {
				return append(r, "/*")
			}
			i += j + 2
		case c == '\'' || c == '"':
			j := i + 1
			for j < len(s) && s[j] != c {
				j++
			}
			if j == len(s) {
				return append(r, "unterminated")
			}
			r = append(r, s[i:j+1])
			i = j + 1
		case c == '_' || unicode.IsLetter(rune(c)) || unicode.IsDigit(rune(c)):
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '$' || unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j]))) {
				j++
			}
			r = append(r, strings.ToLower(s[i:j]))
			i = j
		default:
			r = append(r, string(c))
			i++
		}
	}
	return r
}

var sqlWrites = map[string]bool{}

var sqlHarmless = map[string]bool{}

func init() {
	for _, w := range strings.Fields("insert update delete merge truncate create alter drop grant revoke copy call do set reset lock vacuum analyze cluster reindex refresh into listen notify unlisten begin commit rollback savepoint prepare execute deallocate declare fetch move close discard load comment security import reassign checkpoint") {
		sqlWrites[w] = true
	}
	for _, w := range strings.Fields("current_database current_schema current_catalog current_user session_user version count sum min max avg coalesce nullif lower upper trim btrim ltrim rtrim length substr substring replace concat quote_ident quote_literal format format_type regclass in any all some exists values array row cast extract has_table_privilege has_schema_privilege pg_table_is_visible pg_get_userbyid obj_description col_description current_setting array_agg string_agg json_agg and or not where on from select as when then else using join like distinct by order") {
		sqlHarmless[w] = true
	}
}

// readOnly tells why a statement may change anything.
func readOnly(sql string) string {
	ts := sqlTokens(sql)
	for len(ts) > 0 && ts[len(ts)-1] == ";" {
		ts = ts[:len(ts)-1]
	}
	if len(ts) == 0 {
		return "is empty"
	}
	switch ts[0] {
	case "select", "with", "values", "table", "show", "(":
	default:
		return "starts with " + strings.ToUpper(ts[0])
	}
	for i, t := range ts {
		prev := ""
		if i > 0 {
			prev = ts[i-1]
		}
		switch {
		case t == ";":
			return "consists of several statements"
		case t == "/*" || t == "unterminated":
			return "is not well-formed"
		case sqlWrites[t] && prev != ".":
			return "contains " + strings.ToUpper(t)
		case (t == "for") && i+1 < len(ts) && (ts[i+1] == "share" || ts[i+1] == "key" || ts[i+1] == "no"):
			return "locks rows"
		case t == "(" && prev != "" && (unicode.IsLetter(rune(prev[0])) || prev[0] == '_') && !sqlHarmless[prev]:
			return "calls the function " + prev + ", which may have side effects"
		}
	}
	return ""
}

// sqlColumns lists the select list: qualifier and column, "" where the expression is not a plain column.
func sqlColumns(sql string) (cols [][2]string, ok bool) {
	ts := sqlTokens(sql)
	if len(ts) == 0 || ts[0] != "select" {
		return nil, false
	}
	var item []string
	depth := 0
	flush := func() {
		e := item
		for i, t := range e {
			if t == "as" {
				e = e[:i]
				break
			}
		}
		if len(e) == 4 && e[1] == "." {
			e = e[:3] // alias without AS
		}
		if len(e) > 3 && e[len(e)-2] == ":" && e[len(e)-3] == ":" {
			e = e[:len(e)-3] // cast
		}
		switch {
		case len(e) == 3 && e[1] == ".":
			cols = append(cols, [2]string{unquoteSQL(e[0]), unquoteSQL(e[2])})
		case len(e) == 1 || len(e) == 2:
			cols = append(cols, [2]string{"", unquoteSQL(e[0])})
		default:
			cols = append(cols, [2]string{"", ""})
		}
		item = nil
	}
	for _, t := range ts[1:] {
		switch {
		case t == "(":
			depth++
		case t == ")":
			depth--
		}
		if depth == 0 && (t == "from" || t == ";") {
			break
		}
		if depth == 0 && t == "," {
			flush()
			continue
		}
		if t == "*" && depth == 0 {
			return nil, false
		}
		item = append(item, t)
	}
	flush()
	return cols, true
}

func unquoteSQL(s string) string { return strings.ToLower(strings.Trim(s, "\"")) }

const sqlPkg = "database/sql."

func isSQL(name, method string) bool {
	return strings.HasPrefix(name, "(*database/sql.") && strings.HasSuffix(name, ")."+method)
}

// sqlQuery: the event runs a query; its text.
func sqlQuery(ev *Event) (text *Term, single, ok bool) {
	if ev.Kind != "call" || !strings.HasPrefix(ev.Name, "(*database/sql.") {
		return nil, false, false
	}
	switch ev.Name[strings.LastIndex(ev.Name, ".")+1:] {
	case "Query":
		return ev.Args[1], false, true
	case "QueryContext":
		return ev.Args[2], false, true
	case "QueryRow":
		return ev.Args[1], true, true
	case "QueryRowContext":
		return ev.Args[2], true, true
	}
	return nil, false, false
}

func checkQ01(c *Check) {
	c.expl = "Effect rule over every use of database/sql (constant statements, read-only by their text) and a typestate automaton over every path of the exported operations of the inspector: rows are read to the end, scanned without error, " +
		"stored under the columns of the same row, checked for an error of the iteration and released; a handle is given out only after a successful ping."
	c.assume = []string{"database/sql reports a broken iteration through Rows.Err", "catalogue queries without the words listed in the analyser have no side effects"}
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := call.Common().StaticCallee()
				if callee == nil || callee.Pkg == nil || callee.Pkg.Pkg.Path() != "database/sql" {
					continue
				}
				c.instance("database use", fnName(fn)+" "+callee.Name())
				n := callee.Name()
				if strings.HasPrefix(n, "Exec") || strings.HasPrefix(n, "Begin") || strings.HasPrefix(n, "Prepare") {
					c.violate("read-only", fnName(fn), call.Pos(), n+" may change the database", nil)
				}
			}
		}
	}
	for _, fn := range c.p.Funcs {
		if relPkg(fnPkg(fn)) != "pkg/pgmeta" || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Blocks == nil {
			continue
		}
		c.inspectorOp(fn)
	}
	c.floor("query", 2, "queries of the inspector")
	c.floor("mapping", 1, "rows stored in a mapping")
	c.floor("complete", 1, "ends of a complete iteration")
	c.floor("handle", 1, "handles given out")
}

// inspectorOp: all paths of one operation. Monitor facts: q(rows)=error of the query; row(r): single row not scanned yet;
// nx(next)=rows; open(rows): a row at hand not stored yet; t(address)=scan that wrote it, with its column in col:N; sc(scan)=rows;
// last(rows)=result of the latest Err; closed(rows); db(handle)=error of Open; ping(handle)=error.
func (c *Check) inspectorOp(fn *ssa.Function) {
	who := fnName(fn)
	text := map[string]string{} // columns of the query by site of the rows
	key := func(t *Term) string {
		for t.op == "ext" {
			t = t.args[0]
		}
		if t.site == nil {
			return t.String()
		}
		return itoa(t.site.id)
	}
	e := c.explore(fn, Opts{})
	var fromDB func(m *Mon, t *Term) (col int, scan *Term, ok bool)
	fromDB = func(m *Mon, t *Term) (int, *Term, bool) {
		t = bare(t)
		if t.op == "out" && len(t.args) > 1 {
			for i := 0; i < 32; i++ {
				for _, f := range m.all("col:" + itoa(i)) {
					if f.a == t.args[1] && f.b == t.args[0] {
						return i, f.b, true
					}
				}
			}
		}
		return 0, nil, false
	}
	column := func(m *Mon, scan *Term, i int) ([2]string, bool) {
		rows := m.get("sc", scan)
		if rows == nil {
			return [2]string{}, false
		}
		cols, ok := sqlColumns(text[key(rows)])
		if !ok || i >= len(cols) {
			return [2]string{}, false
		}
		return cols[i], true
	}
	ended := func(m *Mon, rows *Term) bool {
		for _, f := range m.all("nx") {
			if f.b == rows {
				if v, ok := m.truth(f.a); ok && !v {
					return true
				}
			}
		}
		return false
	}
	c.product(e, nil, func(m *Mon, ev *Event) {
		if ev.Kind != "branch" {
			// a row is at hand once Next is known to have returned true
			for _, f := range m.all("nx") {
				if v, ok := m.truth(f.a); ok && v && m.has("open?", f.b) {
					m.del("open?", f.b)
					m.set("open", f.b, nil)
				}
			}
		}
		switch ev.Kind {
		case "call":
			if q, single, ok := sqlQuery(ev); ok {
				c.instance("query", evFn(ev))
				s, isConst := q.strVal()
				if !isConst {
					m.fail("read-only", evFn(ev), "the text of the query is not constant: %s", q)
				} else if why := readOnly(s); why != "" {
					m.fail("read-only", evFn(ev), "the query %s", why)
				}
				if single {
					text[key(ev.Res)] = s
					m.set("row", ev.Res, nil)
				} else {
					rows := m.e.result(ev, 0)
					text[key(rows)] = s
					m.set("q", rows, m.e.result(ev, 1))
				}
				return
			}
			if len(ev.Args) > 0 && strings.HasPrefix(ev.Name, "(*database/sql.") {
				// what a failed call returned is nil
				x := ev.Args[0]
				if none, known := m.isNil(x); !known || none {
					for _, kk := range []string{"q", "db"} {
						if err := m.get(kk, x); err != nil {
							if n, known := m.isNil(err); !known || !n {
								m.fail("failed call", evFn(ev), "%s is called on %s although getting it may have failed", shortName(ev.Name), x)
							}
						}
					}
				}
				if m.has("closed", x) && !isSQL(ev.Name, "Close") && !isSQL(ev.Name, "Err") {
					m.fail("complete", evFn(ev), "%s is called on %s, which was closed before", shortName(ev.Name), x)
				}
			}
			switch {
			case isSQL(ev.Name, "Next"):
				rows := ev.Args[0]
				if m.has("open", rows) {
					m.fail("complete", evFn(ev), "a row is skipped")
				}
				m.clear("nx")
				m.del("last", rows)
				m.set("nx", ev.Res, rows)
				m.set("open?", rows, nil)
			case isSQL(ev.Name, "Scan"):
				m.del("row", ev.Args[0])
				m.set("sc", ev.Res, ev.Args[0])
				m.set("err", ev.Res, nil)
				cols, known := sqlColumns(text[key(ev.Args[0])])
				els := m.e.sliceElems(m.state(), ev.Args[len(ev.Args)-1])
				if els == nil || known && len(els) != len(cols) {
					m.fail("mapping", evFn(ev), "the query returns %d columns but %d are scanned", len(cols), len(els))
				}
				for i := 0; i < 32; i++ {
					m.clear("col:" + itoa(i))
				}
				for i, t := range els {
					m.set("col:"+itoa(i), bare(t), ev.Res)
				}
			case isSQL(ev.Name, "Err") && strings.Contains(ev.Name, ".Rows)"):
				if ended(m, ev.Args[0]) {
					m.set("last", ev.Args[0], ev.Res)
				}
			case isSQL(ev.Name, "Close"):
				m.set("closed", ev.Args[0], nil)
			case ev.Name == sqlPkg+"Open":
				if d, ok := ev.Args[0].strVal(); !ok || d != "postgres" {
					m.fail("handle", evFn(ev), "%s is not the name under which the driver is known", ev.Args[0])
				}
				if ev.Args[1].op != "param" {
					m.fail("handle", evFn(ev), "the database opened is %s, not the one asked for", ev.Args[1])
				}
				m.set("db", m.e.result(ev, 0), m.e.result(ev, 1))
			case isSQL(ev.Name, "Ping") || isSQL(ev.Name, "PingContext"):
				m.set("ping", ev.Args[0], ev.Res)
			}
		case "mapset":
			if elemStruct(ev.Args[0].typ) == nil {
				return
			}
			c.instance("mapping", evFn(ev))
			m.set("into", ev.Args[0], nil)
			ki, scan, ok := fromDB(m, ev.Args[1])
			if !ok {
				m.fail("mapping", evFn(ev), "the key %s is not a value scanned from the present row", ev.Args[1])
				return
			}
			if n, known := m.isNil(scan); !known || !n {
				m.fail("mapping", evFn(ev), "a row is stored although scanning it may have failed")
			}
			kc, okc := column(m, scan, ki)
			if !okc || kc[1] != "oid" {
				m.fail("mapping", evFn(ev), "the key is column %d of the query, which is not an object id", ki+1)
			}
			for f, v := range structParts(ev.Args[2]) {
				i, s2, ok := fromDB(m, v)
				if !ok || s2 != scan {
					m.fail("mapping", evFn(ev), "%s is %s, which was not scanned from the row of its key", f, v)
					continue
				}
				col, okc := column(m, scan, i)
				want := map[string]string{"Name": "relname", "Schema": "nspname"}[f]
				if want != "" && (!okc || col[1] != want) {
					m.fail("mapping", evFn(ev), "%s is taken from column %s of the query", f, col[1])
				}
				if want == "relname" && okc && col[0] != kc[0] {
					m.fail("mapping", evFn(ev), "the key is the object id of another table than the name")
				}
			}
			if len(structParts(ev.Args[2])) == 0 {
				m.fail("mapping", evFn(ev), "stores %s, which does not name a table of the row", ev.Args[2])
			}
			m.del("open", m.get("sc", scan))
			m.del("open?", m.get("sc", scan))
		case "return":
			c.inspectorReturn(m, ev, who, ended, fromDB)
		}
	})
}

// elemStruct is the struct type of the values of a map.
func elemStruct(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	mt, ok := t.Underlying().(*types.Map)
	if !ok {
		return nil
	}
	el := mt.Elem()
	if d := derefType(el); d != nil {
		el = d
	}
	st, _ := el.Underlying().(*types.Struct)
	return st
}

// structParts are the fields of a struct value.
func structParts(t *Term) map[string]*Term {
	r := map[string]*Term{}
	if t.op == "struct" {
		for i, n := range strings.Split(t.aux, ",") {
			if i < len(t.args) {
				r[n] = t.args[i]
			}
		}
	}
	return r
}

func (c *Check) inspectorReturn(m *Mon, ev *Event, who string, ended func(m *Mon, rows *Term) bool, fromDB func(m *Mon, t *Term) (int, *Term, bool)) {
	if len(ev.Args) == 0 {
		return
	}
	err := ev.Args[len(ev.Args)-1]
	isErrT := err.typ == nil || types.Identical(err.typ, nil0) || err.op == "nil"
	good, known := m.isNil(err)
	for _, f := range m.all("row") {
		m.fail("released", who, "the row of %s is never scanned, which would release it", f.a)
	}
	// handles
	for _, f := range m.all("db") {
		if known && !good {
			continue
		}
		if ev.Args[0].op == "nil" {
			if good && known {
				m.fail("handle", who, "no handle and no error are returned")
			}
			continue
		}
		c.instance("handle", who)
		if n, ok := m.isNil(f.b); !ok || !n {
			m.fail("handle", who, "a handle is given out although opening the database may have failed")
		}
		p := m.get("ping", f.a)
		if p == nil {
			m.fail("handle", who, "a handle is given out without asking the database")
			continue
		}
		if n, ok := m.isNil(p); !ok || !n {
			m.fail("handle", who, "a handle is given out although the database may not have answered")
		}
		if m.has("closed", f.a) {
			m.fail("handle", who, "the handle given out is closed")
		}
	}
	for _, f := range m.all("q") {
		rows := f.a
		if n, ok := m.isNil(f.b); ok && !n {
			if known && good {
				m.fail("complete", who, "a failed query is returned as success")
			}
			continue
		}
		if n, ok := m.isNil(rows); ok && n {
			continue // then the query has failed
		}
		if !m.has("closed", rows) && !ended(m, rows) {
			m.fail("released", who, "the result set is not released")
		}
		if known && !good {
			continue
		}
		last := m.get("last", rows)
		if last == nil {
			m.fail("complete", who, "a result is returned although the iteration may have ended early or with an error (Rows.Err is not asked after the last row)")
			continue
		}
		c.instance("complete", who)
		if err == last {
			// the caller is told
		} else if n, ok := m.isNil(last); !ok || !n {
			m.fail("complete", who, "a result is returned although the iteration may have ended with an error")
		}
		if len(m.all("into")) > 0 && !m.has("into", bare(ev.Args[0])) {
			m.fail("complete", who, "what is returned is not the mapping that was filled")
		}
	}
	// single rows
	if len(m.all("q")) == 0 && isErrT {
		for _, f := range m.all("err") {
			if known && !good || err == f.a {
				continue
			}
			if n, ok := m.isNil(f.a); !ok || !n {
				m.fail("complete", who, "a value is returned although reading it may have failed")
			}
		}
		if len(m.all("err")) > 0 && !(known && !good) && len(ev.Args) == 2 {
			if _, _, ok := fromDB(m, ev.Args[0]); !ok {
				m.fail("complete", who, "%s is returned, which is not the value read", ev.Args[0])
			}
		}
	}
}
