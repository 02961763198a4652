package sqlitet

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"math/rand/v2"
	"regexp"
	"sort"
	"strings"
	"testing"

	_ "github.com/mattn/go-sqlite3"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/xsql"

	"verif/mon"
)

var ctx = context.Background()

const ddl = `
CREATE TABLE emp (id INTEGER PRIMARY KEY, dept INTEGER, name TEXT, age INTEGER, note TEXT);
CREATE TABLE dept (id INTEGER PRIMARY KEY, title TEXT, budget INTEGER);
CREATE TABLE tags (emp INTEGER, tag TEXT, weight INTEGER);`

var schemaCols = map[string][]string{
	"emp":  {"id", "dept", "name", "age", "note"},
	"dept": {"id", "title", "budget"},
	"tags": {"emp", "tag", "weight"},
}

var isText = map[string]bool{"name": true, "note": true, "title": true, "tag": true}

// pgExec executes statements with numbered placeholders: $n means argument n,
// as it does in Postgres.
type pgExec struct{ x xsql.Executor }

var dollar = regexp.MustCompile(`'(?:[^']|'')*'|\$(\d+)`)

func pgText(q string) string {
	return dollar.ReplaceAllStringFunc(q, func(s string) string {
		if s[0] == '\'' {
			return s
		}
		return "?" + s[1:]
	})
}
func (p pgExec) ExecContext(c context.Context, q string, a ...any) (sql.Result, error) {
	return p.x.ExecContext(c, pgText(q), a...)
}
func (p pgExec) QueryContext(c context.Context, q string, a ...any) (*sql.Rows, error) {
	return p.x.QueryContext(c, pgText(q), a...)
}
func (p pgExec) QueryRowContext(c context.Context, q string, a ...any) *sql.Row {
	return p.x.QueryRowContext(c, pgText(q), a...)
}

// gen makes random model queries.
type gen struct {
	r *rand.Rand
	w *world
	n int
	// avoid keeps a table out of sub-queries: SQLite evaluates the new values
	// of an UPDATE while it is already changing earlier rows of that table.
	avoid string
}

func (g *gen) intv() val {
	return int64(g.r.IntN(12) - 1)
}
func (g *gen) intn() val {
	if g.r.IntN(5) == 0 {
		return nil
	}
	return g.intv()
}
func (g *gen) strn() val {
	if g.r.IntN(5) == 0 {
		return nil
	}
	return word(g.r)
}

// scope lists the columns an expression can use.
type scope []struct {
	n    string
	text bool
}

func scopeOf(t, alias string) scope {
	var s scope
	for _, c := range schemaCols[t] {
		n := c
		if alias != "" {
			n = alias + "." + c
		}
		s = append(s, struct {
			n    string
			text bool
		}{n, isText[c]})
	}
	return s
}

func (g *gen) col(s scope, text bool) ex {
	for {
		c := s[g.r.IntN(len(s))]
		if c.text == text {
			return col{c.n}
		}
	}
}

func (s scope) has(text bool) bool {
	for _, c := range s {
		if c.text == text {
			return true
		}
	}
	return false
}

// expr makes an expression; noArgs forbids placeholders.
func (g *gen) expr(s scope, text bool, depth int, noArgs bool) ex {
	leaf := func() ex {
		if !s.has(text) || g.r.IntN(3) == 0 {
			var v val
			if text {
				v = word(g.r)
			} else {
				v = g.intv()
			}
			if noArgs || g.r.IntN(3) == 0 {
				return cst{v}
			}
			return lit{v}
		}
		return g.col(s, text)
	}
	if depth <= 0 || g.r.IntN(2) == 0 {
		return leaf()
	}
	switch g.r.IntN(3) {
	case 0:
		if text {
			return cat{g.expr(s, true, depth-1, noArgs), g.expr(s, true, depth-1, noArgs)}
		}
		return add{g.expr(s, false, depth-1, noArgs), g.expr(s, false, depth-1, noArgs)}
	case 1:
		return coal{g.col2(s, text), g.expr(s, text, depth-1, noArgs)}
	}
	return cas{g.pred(s, depth-1, noArgs, false), g.expr(s, text, depth-1, noArgs), g.expr(s, text, depth-1, noArgs)}
}

func (g *gen) col2(s scope, text bool) ex {
	if s.has(text) {
		return g.col(s, text)
	}
	if text {
		return cst{"k"}
	}
	return cst{int64(3)}
}

var ops = []string{"=", "<>", "<", "<=", ">", ">="}

func (g *gen) pred(s scope, depth int, noArgs, subs bool) ex {
	text := s.has(true) && g.r.IntN(3) == 0
	n := 7
	if subs {
		n = 10
	}
	if depth <= 0 {
		n = 3
	}
	switch g.r.IntN(n) {
	case 0, 1:
		return cmp{ops[g.r.IntN(len(ops))], g.expr(s, text, depth-1, noArgs), g.expr(s, text, depth-1, noArgs)}
	case 2:
		return isnull{g.col2(s, text), g.r.IntN(2) == 0}
	case 3:
		return between{g.expr(s, false, 0, noArgs), g.expr(s, false, 0, noArgs), g.expr(s, false, 0, noArgs)}
	case 4:
		if noArgs {
			return cmp{"=", g.col2(s, text), g.col2(s, text)}
		}
		l := inlist{a: g.col2(s, text), not: g.r.IntN(3) == 0}
		for i := 0; i <= g.r.IntN(5); i++ {
			switch {
			case g.r.IntN(12) == 0:
				l.vals = append(l.vals, nil)
			case text:
				l.vals = append(l.vals, word(g.r))
			default:
				l.vals = append(l.vals, g.intv())
			}
		}
		return l
	case 5:
		a, b := g.pred(s, depth-1, noArgs, false), g.pred(s, depth-1, noArgs, false)
		if g.r.IntN(3) == 0 {
			return and2{a, b}
		}
		return or2{a, b}
	case 6:
		return not1{g.pred(s, depth-1, noArgs, false)}
	case 7, 8:
		return insub{a: g.col2(s, text), q: g.simple(text), not: g.r.IntN(3) == 0}
	}
	return exists{q: g.correlated(s), not: g.r.IntN(2) == 0}
}

// simple is a one-column query over one table.
func (g *gen) simple(text bool) *query {
	t := []string{"emp", "dept", "tags"}[g.r.IntN(3)]
	for t == g.avoid {
		t = []string{"emp", "dept", "tags"}[g.r.IntN(3)]
	}
	g.n++
	a := fmt.Sprintf("s%d", g.n)
	s := scopeOf(t, a)
	q := &query{from: t, alias: a, limit: -1, items: []item{{e: g.expr(s, text, 1, false)}}}
	for i := 0; i < g.r.IntN(3); i++ {
		q.where = append(q.where, g.pred(s, 1, false, false))
	}
	return q
}

// correlated refers to the columns of the enclosing query.
func (g *gen) correlated(outer scope) *query {
	q := g.simple(false)
	in := scopeOf(q.from, q.alias)
	q.where = append(q.where, cmp{ops[g.r.IntN(len(ops))], g.col(in, false), g.col2(outer, false)})
	return q
}

func (g *gen) scalarq(outer scope) scalar {
	q := g.correlated(outer)
	q.agg = true
	e := q.items[0].e
	q.items = []item{{e: e, agg: []string{"COUNT(*)", "SUM", "MIN", "MAX", "COUNT"}[g.r.IntN(5)]}}
	return scalar{q}
}

// query makes a query; width and types fixed when like is given.
func (g *gen) query(depth int, like []bool, nested bool) (*query, []bool) {
	g.n++
	q := &query{limit: -1, alias: fmt.Sprintf("t%d", g.n)}
	var sc scope
	switch {
	case depth > 0 && g.r.IntN(5) == 0:
		// derived table or CTE
		sub, types := g.query(depth-1, nil, true)
		for i := range sub.items {
			sub.items[i].alias = fmt.Sprintf("x%d", i+1)
		}
		for i, t := range types {
			sc = append(sc, struct {
				n    string
				text bool
			}{fmt.Sprintf("%s.x%d", q.alias, i+1), t})
		}
		if !nested && g.r.IntN(2) == 0 {
			name := fmt.Sprintf("cte%d", g.n)
			q.ctes = append(q.ctes, cte{name, sub})
			q.from = name
		} else {
			q.sub = sub
		}
	default:
		q.from = []string{"emp", "emp", "dept", "tags"}[g.r.IntN(4)]
		sc = scopeOf(q.from, q.alias)
	}
	for i := 0; g.r.IntN(3) == 0 && i < 2; i++ {
		g.n++
		j := join{kind: []string{"Join", "LeftJoin", "RightJoin", "FullJoin"}[g.r.IntN(4)], tab: []string{"emp", "dept", "tags"}[g.r.IntN(3)], alias: fmt.Sprintf("j%d", g.n)}
		if i > 0 && j.kind != "Join" {
			j.kind = "LeftJoin"
		}
		if (nested || depth < 2) && j.kind != "Join" {
			// SQLite mis-flattens outer joins inside compounds
			j.kind = "LeftJoin"
		}
		js := scopeOf(j.tab, j.alias)
		eq := cmp{"=", g.col(js, false), g.col2(sc, false)}
		if c, ok := eq.b.(cst); ok {
			_ = c
			eq.b = g.col(js, false)
		}
		sc = append(sc, js...)
		j.on = eq
		if g.r.IntN(3) == 0 && j.kind != "FullJoin" {
			j.on = and2{eq, g.pred(sc, 1, true, false)}
		}
		q.joins = append(q.joins, j)
	}
	for i := 0; i < g.r.IntN(4); i++ {
		q.where = append(q.where, g.pred(sc, 2, false, depth > 0))
	}
	types := like
	if types == nil {
		for i := 0; i <= g.r.IntN(4); i++ {
			types = append(types, sc.has(true) && g.r.IntN(2) == 0)
		}
	}
	if g.r.IntN(4) == 0 {
		// aggregation
		q.agg = true
		for i := 0; i < g.r.IntN(3); i++ {
			q.group = append(q.group, g.col2(sc, sc.has(true) && g.r.IntN(2) == 0))
		}
		for i := len(q.group) - 1; i >= 0; i-- {
			if _, ok := q.group[i].(cst); ok {
				q.group = append(q.group[:i], q.group[i+1:]...)
			}
		}
		for _, t := range types {
			var it item
			for _, ge := range q.group {
				if isTextCol(sc, ge) == t && g.r.IntN(2) == 0 {
					it.e = ge
				}
			}
			if it.e == nil {
				if t {
					it = item{e: g.expr(sc, true, 1, false), agg: []string{"MIN", "MAX"}[g.r.IntN(2)]}
				} else {
					it = item{e: g.expr(sc, false, 1, false), agg: []string{"COUNT(*)", "SUM", "MIN", "MAX", "COUNT"}[g.r.IntN(5)]}
				}
			}
			q.items = append(q.items, it)
		}
		if len(q.group) > 0 && g.r.IntN(2) == 0 {
			q.having = &havingc{item{agg: "COUNT(*)"}, ops[g.r.IntN(len(ops))], int64(g.r.IntN(4))}
		}
	} else {
		for _, t := range types {
			if !t && depth > 0 && g.r.IntN(8) == 0 {
				q.items = append(q.items, item{e: g.scalarq(sc)})
				continue
			}
			q.items = append(q.items, item{e: g.expr(sc, t, 2, false)})
		}
	}
	for i := range q.items {
		if g.r.IntN(3) == 0 {
			q.items[i].alias = fmt.Sprintf("al%d", i)
		}
	}
	if depth > 0 && g.r.IntN(5) == 0 {
		for i := 0; i <= g.r.IntN(2); i++ {
			u, _ := g.query(0, types, true)
			u.order, u.limit, u.offset = nil, -1, 0
			q.unions = append(q.unions, union{g.r.IntN(2) == 0, u})
		}
	}
	if g.r.IntN(2) == 0 {
		perm := g.r.Perm(len(q.items))
		for _, p := range perm {
			q.order = append(q.order, orderc{p + 1, g.r.IntN(3) == 0})
		}
		if g.r.IntN(2) == 0 {
			q.limit = g.r.IntN(6)
			if g.r.IntN(2) == 0 {
				q.offset = g.r.IntN(4)
			}
		}
	}
	return q, types
}

func isTextCol(s scope, e ex) bool {
	for _, c := range s {
		if c.n == e.(col).n {
			return c.text
		}
	}
	return false
}

// targets makes scan targets and a reader of the current row.
func targets(r *rand.Rand, types []bool) ([]any, func() row) {
	var d []any
	var rd []func() val
	for _, t := range types {
		switch k := r.IntN(4); {
		case k == 0:
			p := new(any)
			d = append(d, p)
			rd = append(rd, func() val { return norm(*p) })
		case k == 1 && t:
			p := new(sql.NullString)
			d = append(d, p)
			rd = append(rd, func() val {
				if !p.Valid {
					return nil
				}
				return p.String
			})
		case k == 2 && t:
			p := new(*string)
			d = append(d, p)
			rd = append(rd, func() val {
				if *p == nil {
					return nil
				}
				return **p
			})
		case k == 1:
			p := new(sql.NullInt64)
			d = append(d, p)
			rd = append(rd, func() val {
				if !p.Valid {
					return nil
				}
				return p.Int64
			})
		default:
			if t {
				p := new([]byte)
				d = append(d, p)
				rd = append(rd, func() val {
					if *p == nil {
						return nil
					}
					return string(*p)
				})
			} else {
				p := new(*int64)
				d = append(d, p)
				rd = append(rd, func() val {
					if *p == nil {
						return nil
					}
					return **p
				})
			}
		}
	}
	return d, func() row {
		var x row
		for _, f := range rd {
			x = append(x, f())
		}
		return x
	}
}

func norm(v any) val {
	switch x := v.(type) {
	case []byte:
		return string(x)
	case int:
		return int64(x)
	}
	return v
}

// sameRows compares; unordered results as multisets.
func sameRows(got, want []row, ordered bool) bool {
	if len(got) != len(want) {
		return false
	}
	a, b := make([]string, len(got)), make([]string, len(want))
	for i := range got {
		a[i], b[i] = rowKey(got[i]), rowKey(want[i])
	}
	if !ordered {
		sort.Strings(a)
		sort.Strings(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type h struct {
	m    *mon.M
	db   *sql.DB
	prov xdb.Provider
	w    *world
	r    *rand.Rand
	g    *gen
	// release frees the connection of the current executor
	release func()
}

func newDB(name string) *sql.DB {
	db, err := sql.Open("sqlite3", "file:"+name+"?mode=memory&cache=shared")
	if err != nil {
		panic(err)
	}
	db.SetMaxOpenConns(1)
	if _, err := db.Exec(ddl); err != nil {
		panic(err)
	}
	return db
}

func dialects(r *rand.Rand) (xsql.SQLDialect, bool, string) {
	switch r.IntN(4) {
	case 0:
		return xsql.NoDialect, false, "none"
	case 1:
		return xsql.SQLServer, false, "sqlserver"
	}
	return xsql.Postgres, true, "postgres"
}

// exec picks where the statement runs.
func (x *h) exec(pg bool) (xsql.Executor, func(), string) {
	var e xsql.Executor
	var done = func() {}
	name := ""
	switch x.r.IntN(4) {
	case 0:
		e, name = x.db, "db"
	case 1:
		e, name = x.prov, "provider"
	case 2:
		tx, err := x.prov.BeginTx(ctx, nil)
		if err != nil {
			panic(err)
		}
		e, name = tx, "provider-tx"
		done = func() {
			if err := tx.Commit(); err != nil {
				x.m.Fail("commit", "commit of a provider transaction failed: %v", err)
			}
			_ = tx.Close()
		}
	case 3:
		c, err := x.db.Conn(ctx)
		if err != nil {
			panic(err)
		}
		e, name = c, "conn"
		done = func() { _ = c.Close() }
	}
	if pg {
		e = pgExec{e}
	}
	fin := done
	once := false
	done = func() {
		if !once {
			once = true
			fin()
		}
	}
	x.release = done
	return e, done, name
}

func fmtRows(l []row) string {
	tail := ""
	if len(l) > 25 {
		l, tail = l[:25], fmt.Sprintf(" ... (%d rows)", len(l))
	}
	return fmt.Sprintf("%v", l) + tail
}

// engine tells whether SQLite itself answers the hand-written query with these
// rows: a difference from the model is then the engine's (it mis-flattens some
// compounds with outer joins), not the builder's. It is counted.
func (x *h) engine(q *query, got []row, ordered bool) bool {
	x.release()
	s := &sqlw{}
	q.text(s)
	rows, err := x.db.Query(s.b.String(), s.args...)
	if err != nil {
		return false
	}
	defer rows.Close()
	var l []row
	for rows.Next() {
		vals := make(row, len(q.items))
		p := make([]any, len(vals))
		for i := range vals {
			p[i] = &vals[i]
		}
		if err := rows.Scan(p...); err != nil {
			return false
		}
		for i := range vals {
			vals[i] = norm(vals[i])
		}
		l = append(l, vals)
	}
	if len(got) == 1 && len(l) > 1 {
		l = l[:1]
	}
	if !sameRows(got, l, ordered) {
		return false
	}
	x.m.Count("engine-deviates", 1)
	return true
}

// selects runs a query through the builder.
func (x *h) selects() {
	r := x.r
	q, types := x.g.query(2, nil, false)
	d, pg, dn := dialects(r)
	b := &builder{r: r, d: d, pg: pg}
	dests, read := targets(r, types)
	want := q.eval(x.w, nil).rows
	ordered := len(q.order) > 0
	mk := b.prepare(q, dests)
	st := mk(d)
	if r.IntN(6) == 0 {
		c := st.Clone()
		st.Close()
		st = c
	}
	text := st.String()
	args := fmt.Sprintf("%v", st.Args())
	ex, done, en := x.exec(pg)
	defer done()
	what := func() string {
		return fmt.Sprintf("dialect %s executor %s\ncalls %s\nsql %s\nargs %s", dn, en, strings.Join(b.log, "\n      "), text, args)
	}
	fp := shape(q)
	x.m.State("query-shape", fp)
	x.m.Eval(len(want) > 0, text, args, len(want))
	x.m.Count("select", 1)
	if r.IntN(4) == 0 && (ordered || len(want) <= 1) {
		x.m.Count("select-row", 1)
		err := st.QueryRowAndClose(ctx, ex)
		if len(want) == 0 {
			if !errors.Is(err, sql.ErrNoRows) && !x.engine(q, nil, ordered) {
				x.m.Fail("row:"+fp, "no row expected, got err=%v row=%q\n%s", err, read(), what())
			}
			return
		}
		if err != nil {
			x.m.Fail("select:"+fp, "query failed: %v\n%s", err, what())
			return
		}
		if got := read(); rowKey(got) != rowKey(want[0]) && !x.engine(q, []row{got}, ordered) {
			x.m.Fail("select:"+fp, "bound variables hold %q, the row is %q\n%s", got, want[0], what())
		}
		return
	}
	var got []row
	err := st.QueryAndClose(ctx, ex, func(*sql.Rows) { got = append(got, read()) })
	if err != nil {
		x.m.Fail("select:"+fp, "query failed: %v\n%s", err, what())
		return
	}
	x.m.Count("rows", len(got))
	if !sameRows(got, want, ordered) && !x.engine(q, got, ordered) {
		x.m.Fail("select:"+fp, "got  %s\nwant %s\n%s", fmtRows(got), fmtRows(want), what())
	}
	if len(want) > 1 {
		x.m.Sample(map[string]any{"sql": text, "args": args, "rows": len(want)})
	}
}

// shape names the constructs of a query.
func shape(q *query) string {
	var p []string
	add := func(c bool, s string) {
		if c {
			p = append(p, s)
		}
	}
	add(len(q.ctes) > 0, "with")
	add(q.sub != nil, "derived")
	for _, j := range q.joins {
		p = append(p, j.kind)
	}
	add(len(q.where) > 0, "where")
	add(q.agg, "agg")
	add(len(q.group) > 0, "group")
	add(q.having != nil, "having")
	for _, u := range q.unions {
		add(u.all, "unionall")
		add(!u.all, "union")
	}
	add(len(q.order) > 0, "order")
	add(q.limit >= 0, "limit")
	add(q.offset > 0, "offset")
	return strings.Join(p, "+")
}

// check compares every table with the model.
func (x *h) check(what func() string, fp string) bool {
	for n, t := range x.w.tabs {
		rows, err := x.db.Query("SELECT " + strings.Join(t.cols, ",") + " FROM " + n)
		if err != nil {
			x.m.Fail("state", "reading %s: %v after\n%s", n, err, what())
			return false
		}
		var got []row
		for rows.Next() {
			vals := make([]any, len(t.cols))
			p := make([]any, len(vals))
			for i := range vals {
				p[i] = &vals[i]
			}
			if err := rows.Scan(p...); err != nil {
				panic(err)
			}
			for i := range vals {
				vals[i] = norm(vals[i])
			}
			got = append(got, vals)
		}
		_ = rows.Close()
		if !sameRows(got, t.rows, false) {
			x.m.Fail(fp, "table %s holds %s\nwant %s\nafter %s", n, fmtRows(got), fmtRows(t.rows), what())
			return false
		}
	}
	return true
}

type setc struct {
	c string
	e ex
}

func (x *h) setval(c string) val {
	if isText[c] {
		return x.g.strn()
	}
	return x.g.intn()
}

// sets chooses columns and new values.
func (x *h) sets(t string, sc scope) []setc {
	var l []setc
	for _, c := range schemaCols[t] {
		if c == "id" || x.r.IntN(2) == 0 {
			continue
		}
		if x.r.IntN(2) == 0 || sc == nil {
			l = append(l, setc{c, lit{x.setval(c)}})
		} else if !isText[c] && x.r.IntN(4) == 0 && t != "tags" {
			x.g.avoid = t
			l = append(l, setc{c, x.g.scalarq(sc)})
			x.g.avoid = ""
		} else {
			l = append(l, setc{c, x.g.expr(sc, isText[c], 2, false)})
		}
	}
	if len(l) == 0 {
		c := schemaCols[t][1]
		l = append(l, setc{c, lit{x.setval(c)}})
	}
	x.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

func (x *h) returning(t string) ([]item, []bool) {
	var it []item
	var types []bool
	if x.r.IntN(3) != 0 {
		return nil, nil
	}
	sc := scopeOf(t, "")
	for i := 0; i <= x.r.IntN(3); i++ {
		ty := x.r.IntN(2) == 0
		it = append(it, item{e: x.g.expr(sc, ty, 1, true)})
		types = append(types, ty)
	}
	return it, types
}

// run executes a data-changing statement and compares.
func (x *h) run(kind, dn string, b *builder, calls []call, d xsql.SQLDialect, ret []item, types []bool, affected []row, wantErr bool, next *world, n int) {
	st := calls[0].start(d)
	for _, c := range calls[1:] {
		c.do(st)
	}
	var names []string
	for _, c := range calls {
		names = append(names, c.what)
	}
	if x.r.IntN(6) == 0 {
		c := st.Clone()
		st.Close()
		st = c
	}
	text := st.String()
	args := fmt.Sprint(deref(st.Args()))
	ex, done, en := x.exec(b.pg)
	what := func() string {
		return fmt.Sprintf("dialect %s executor %s\ncalls %s\nsql %s\nargs %s\n%s", dn, en, strings.Join(names, "."), text, args, strings.Join(b.log, "\n"))
	}
	x.m.Eval(n > 0, text, args, n)
	x.m.Count(kind, 1)
	var err error
	var got []row
	if ret != nil {
		var dests []any
		var read func() row
		dests, read = targets(x.r, types)
		st.To(dests...)
		x.m.Count(kind+"-returning", 1)
		if n == 1 && !wantErr && x.r.IntN(2) == 0 {
			err = st.QueryRowAndClose(ctx, ex)
			got = append(got, read())
		} else {
			err = st.QueryAndClose(ctx, ex, func(*sql.Rows) { got = append(got, read()) })
		}
	} else {
		var res sql.Result
		res, err = st.ExecAndClose(ctx, ex)
		if err == nil {
			if k, e := res.RowsAffected(); e != nil || int(k) != n {
				x.m.Fail(kind+":affected", "affected %d rows (%v), want %d\n%s", k, e, n, what())
			}
		}
	}
	done()
	if wantErr {
		x.m.Count(kind+"-rejected", 1)
		if err == nil {
			x.m.Fail(kind+":noerror", "a failing statement reported success\n%s", what())
		}
	} else {
		if err != nil {
			x.m.Fail(kind+":failed", "%v\n%s", err, what())
		} else {
			x.w = next
			x.g.w = next
			if ret != nil && !sameRows(got, affected, false) {
				x.m.Fail(kind+":returning", "returned %s\nwant %s\n%s", fmtRows(got), fmtRows(affected), what())
			}
		}
	}
	x.check(what, kind+":effect")
}

func deref(a []any) []any {
	var l []any
	for _, v := range a {
		switch p := v.(type) {
		case *int64:
			l = append(l, *p)
		case *string:
			l = append(l, *p)
		default:
			l = append(l, v)
		}
	}
	return l
}

func (x *h) retCalls(b *builder, ret []item) []call {
	var out []call
	for i, it := range ret {
		if i > 0 && x.r.IntN(2) == 0 {
			continue
		}
		n := 1
		if i+1 < len(ret) && len(out) >= 0 {
			n = 1
		}
		_ = n
		txt, _ := b.expr(func(s *sqlw) { it.sql(s) })
		out = append(out, b.mk(fmt.Sprintf("Returning(%q)", txt), func(s xsql.Builder) { s.Returning(txt) }))
	}
	return out
}

func (x *h) returnGroup(b *builder, ret []item) []call {
	if len(ret) == 0 {
		return nil
	}
	if x.r.IntN(2) == 0 {
		txt, _ := b.expr(func(s *sqlw) {
			for i, it := range ret {
				if i > 0 {
					s.w(", ")
				}
				it.sql(s)
			}
		})
		return []call{b.mk(fmt.Sprintf("Returning(%q)", txt), func(s xsql.Builder) { s.Returning(txt) })}
	}
	var out []call
	for _, it := range ret {
		txt, _ := b.expr(func(s *sqlw) { it.sql(s) })
		out = append(out, b.mk(fmt.Sprintf("Returning(%q)", txt), func(s xsql.Builder) { s.Returning(txt) }))
	}
	return out
}

func (w *world) scopeRow(t string, r row, alias string) *env {
	m := map[string]val{}
	bind(w.table(t), alias, r, m)
	return &env{vals: m}
}

func retRows(w *world, t string, ret []item, rows []row) []row {
	var out []row
	for _, r := range rows {
		e := w.scopeRow(t, r, "")
		var o row
		for _, it := range ret {
			o = append(o, it.e.eval(w, e))
		}
		out = append(out, o)
	}
	return out
}

func (x *h) insert() {
	r := x.r
	t := []string{"emp", "emp", "dept", "tags"}[r.IntN(4)]
	d, pg, dn := dialects(r)
	b := &builder{r: r, d: d, pg: pg}
	cols := schemaCols[t]
	// chosen columns in random order, the key always
	var use []string
	for _, c := range cols {
		if c == "id" || r.IntN(4) > 0 {
			use = append(use, c)
		}
	}
	if len(use) == 0 {
		use = []string{cols[0]}
	}
	r.Shuffle(len(use), func(i, j int) { use[i], use[j] = use[j], use[i] })
	if r.IntN(5) == 0 {
		x.insertSelect(t, use, d, pg, dn, b)
		return
	}
	n := 1
	if r.IntN(2) == 0 {
		n = 1 + r.IntN(6)
	}
	next := x.w.clone()
	nt := next.tabs[t]
	conflict := ""
	if t != "tags" {
		conflict = []string{"", "", "ignore", "update"}[r.IntN(4)]
	}
	upd := setc{}
	if conflict == "update" {
		c := cols[1+r.IntN(len(cols)-1)]
		upd = setc{c, lit{x.setval(c)}}
	}
	ret, types := x.returning(t)
	var vals [][]setc
	wantErr := false
	var affected []row
	cnt := 0
	for i := 0; i < n; i++ {
		var rowv []setc
		full := make(row, len(cols))
		for _, c := range use {
			var e ex = lit{x.setval(c)}
			if c == "id" {
				id := int64(r.IntN(400) + 1)
				if r.IntN(6) == 0 && len(x.w.tabs[t].rows) > 0 {
					id = x.w.tabs[t].rows[r.IntN(len(x.w.tabs[t].rows))][0].(int64)
				}
				e = lit{id}
			} else if r.IntN(3) == 0 {
				e = x.g.expr(nil, isText[c], 1, false)
			}
			rowv = append(rowv, setc{c, e})
			full[nt.idx(c)] = e.eval(x.w, nil)
		}
		vals = append(vals, rowv)
		dup := -1
		if t != "tags" {
			for k, o := range nt.rows {
				if o[0] == full[0] {
					dup = k
				}
			}
		}
		switch {
		case dup < 0:
			nt.rows = append(nt.rows, full)
			affected = append(affected, full)
			cnt++
		case conflict == "":
			wantErr = true
		case conflict == "update":
			nr := append(row(nil), nt.rows[dup]...)
			nr[nt.idx(upd.c)] = upd.e.eval(x.w, nil)
			nt.rows[dup] = nr
			affected = append(affected, nr)
			cnt++
		}
	}
	var group []call
	if n == 1 && r.IntN(2) == 0 {
		for _, s := range vals[0] {
			txt, args := b.expr(s.e.sql)
			c := s.c
			if txt == "?" && r.IntN(2) == 0 {
				group = append(group, b.mk(fmt.Sprintf("Set(%q,%v)", c, args), func(q xsql.Builder) { q.Set(c, args[0]) }))
			} else {
				group = append(group, b.mk(fmt.Sprintf("SetExpr(%q,%q,%v)", c, txt, args), func(q xsql.Builder) { q.SetExpr(c, txt, args...) }))
			}
		}
	} else {
		for _, rowv := range vals {
			var parts []func(xsql.Row) xsql.Row
			desc := "NewRow()"
			for _, s := range rowv {
				txt, args := b.expr(s.e.sql)
				c := s.c
				if txt == "?" && r.IntN(2) == 0 {
					desc += fmt.Sprintf(".Set(%q,%v)", c, args)
					parts = append(parts, func(w xsql.Row) xsql.Row { return w.Set(c, args[0]) })
				} else {
					desc += fmt.Sprintf(".SetExpr(%q,%q,%v)", c, txt, args)
					parts = append(parts, func(w xsql.Row) xsql.Row { return w.SetExpr(c, txt, args...) })
				}
			}
			group = append(group, b.mk(desc, func(q xsql.Builder) {
				w := q.NewRow()
				for _, p := range parts {
					w = p(w)
				}
			}))
		}
	}
	switch conflict {
	case "ignore":
		group = append(group, b.mk("Clause(ON CONFLICT (id) DO NOTHING)", func(q xsql.Builder) { q.Clause("ON CONFLICT (id) DO NOTHING") }))
	case "update":
		txt, args := b.expr(upd.e.sql)
		if r.IntN(2) == 0 {
			group = append(group, b.mk("Clause(ON CONFLICT (id) DO UPDATE SET).Expr", func(q xsql.Builder) {
				q.Clause("ON CONFLICT (id) DO UPDATE SET").Expr(upd.c+" = "+txt, args...)
			}))
		} else {
			group = append(group, b.mk("Clause(ON CONFLICT (id) DO UPDATE SET x = ?)", func(q xsql.Builder) {
				q.Clause("ON CONFLICT (id) DO UPDATE SET "+upd.c+" = "+txt, args...)
			}))
		}
	}
	rg := x.returnGroup(b, ret)
	var calls []call
	if conflict == "" {
		calls = merge(r, group, rg)
	} else {
		calls = append(group, rg...)
	}
	first := b.mk(fmt.Sprintf("InsertInto(%q)", t), nil)
	first.start = func(d xsql.SQLDialect) xsql.Builder { return d.InsertInto(t) }
	calls = append([]call{first}, calls...)
	if wantErr {
		next, affected = x.w, nil
	}
	x.run("insert", dn, b, calls, d, ret, types, retRows(next, t, ret, affected), wantErr, next, cnt)
	if n > 1 {
		x.m.Count("insert-bulk", 1)
	}
}

// insertSelect copies rows of a query.
func (x *h) insertSelect(t string, use []string, d xsql.SQLDialect, pg bool, dn string, b *builder) {
	q := &query{from: "emp", alias: "e", limit: -1}
	sc := scopeOf("emp", "e")
	next := x.w.clone()
	nt := next.tabs[t]
	off := int64(x.r.IntN(1000) + 500)
	for _, c := range use {
		if c == "id" {
			q.items = append(q.items, item{e: add{col{"e.id"}, lit{off}}})
		} else {
			q.items = append(q.items, item{e: x.g.expr(sc, isText[c], 1, false)})
		}
	}
	for i := 0; i < 1+x.r.IntN(2); i++ {
		q.where = append(q.where, x.g.pred(sc, 2, false, true))
	}
	q.where = append(q.where, cmp{"<", col{"e.id"}, lit{int64(20)}})
	res := q.eval(x.w, nil)
	wantErr := false
	for _, r := range res.rows {
		full := make(row, len(nt.cols))
		for i, c := range use {
			full[nt.idx(c)] = r[i]
		}
		if t != "tags" {
			for _, o := range nt.rows {
				if o[0] == full[0] {
					wantErr = true
				}
			}
		}
		nt.rows = append(nt.rows, full)
	}
	mk := merge(x.r, b.selectCalls(q, nil), b.fromCalls(q), b.whereCalls(q.where))
	head := fmt.Sprintf("INSERT INTO %s (%s) SELECT", t, strings.Join(use, ","))
	first := b.mk(fmt.Sprintf("New(%q)", head), nil)
	first.start = func(d xsql.SQLDialect) xsql.Builder { return d.New(head) }
	if wantErr {
		next = x.w
	}
	x.run("insert-select", dn, b, append([]call{first}, mk...), d, nil, nil, nil, wantErr, next, len(res.rows))
}

func (x *h) conds(t string) []ex {
	sc := scopeOf(t, t)
	var l []ex
	for i := 0; i < 1+x.r.IntN(3); i++ {
		l = append(l, x.g.pred(sc, 2, false, true))
	}
	return l
}

func match(w *world, t string, r row, conds []ex) bool {
	e := w.scopeRow(t, r, t)
	for _, c := range conds {
		if !truth(c.eval(w, e)) {
			return false
		}
	}
	return true
}

func (x *h) update() {
	t := []string{"emp", "dept", "tags"}[x.r.IntN(3)]
	d, pg, dn := dialects(x.r)
	b := &builder{r: x.r, d: d, pg: pg}
	sets := x.sets(t, scopeOf(t, t))
	conds := x.conds(t)
	ret, types := x.returning(t)
	next := x.w.clone()
	nt := next.tabs[t]
	var affected []row
	n := 0
	for i, r := range x.w.tabs[t].rows {
		if !match(x.w, t, r, conds) {
			continue
		}
		n++
		e := x.w.scopeRow(t, r, t)
		for _, s := range sets {
			nt.rows[i][nt.idx(s.c)] = s.e.eval(x.w, e)
		}
		affected = append(affected, nt.rows[i])
	}
	var sg []call
	for _, s := range sets {
		txt, args := b.expr(s.e.sql)
		c := s.c
		if txt == "?" && x.r.IntN(3) > 0 {
			sg = append(sg, b.mk(fmt.Sprintf("Set(%q,%v)", c, args), func(q xsql.Builder) { q.Set(c, args[0]) }))
		} else {
			sg = append(sg, b.mk(fmt.Sprintf("SetExpr(%q,%q,%v)", c, txt, args), func(q xsql.Builder) { q.SetExpr(c, txt, args...) }))
		}
	}
	first := b.mk(fmt.Sprintf("Update(%q)", t), nil)
	first.start = func(d xsql.SQLDialect) xsql.Builder { return d.Update(t) }
	calls := merge(x.r, sg, b.whereCalls(conds), x.returnGroup(b, ret))
	x.run("update", dn, b, append([]call{first}, calls...), d, ret, types, retRows(next, t, ret, affected), false, next, n)
}

func (x *h) delete() {
	t := []string{"emp", "dept", "tags"}[x.r.IntN(3)]
	d, pg, dn := dialects(x.r)
	b := &builder{r: x.r, d: d, pg: pg}
	conds := x.conds(t)
	if len(x.w.tabs[t].rows) < 15 {
		conds = append(conds, cmp{"<", col{t + "." + schemaCols[t][0]}, lit{int64(x.r.IntN(10))}})
	}
	ret, types := x.returning(t)
	next := x.w.clone()
	nt := next.tabs[t]
	nt.rows = nil
	var gone []row
	for _, r := range x.w.tabs[t].rows {
		if match(x.w, t, r, conds) {
			gone = append(gone, r)
		} else {
			nt.rows = append(nt.rows, r)
		}
	}
	first := b.mk(fmt.Sprintf("DeleteFrom(%q)", t), nil)
	first.start = func(d xsql.SQLDialect) xsql.Builder { return d.DeleteFrom(t) }
	calls := merge(x.r, b.whereCalls(conds), x.returnGroup(b, ret))
	x.run("delete", dn, b, append([]call{first}, calls...), d, ret, types, retRows(x.w, t, ret, gone), false, next, len(gone))
}

// structs for Bind

type key struct {
	ID int64 `db:"id"`
}

type audit struct {
	key
	Dept sql.NullInt64 `db:"dept,omitempty"`
}

type empRow struct {
	Note sql.NullString `db:"note"`
	audit
	Skip  int
	Name  *string `db:"name"`
	Other string  `json:"x"`
	Age   *int64  `db:"age"`
}

func (x *h) binds() {
	d, pg, dn := dialects(x.r)
	b := &builder{r: x.r, d: d, pg: pg}
	var e empRow
	e.Skip, e.Other = 7, "keep"
	sc := scopeOf("emp", "")
	var conds []ex
	for i := 0; i < x.r.IntN(3); i++ {
		conds = append(conds, x.g.pred(sc, 2, false, false))
	}
	q := &query{from: "emp", limit: -1, where: conds}
	for _, c := range []string{"note", "id", "dept", "name", "age"} {
		q.items = append(q.items, item{e: col{c}})
	}
	var extra *int64
	bindCall := b.mk("Bind(&empRow)", func(s xsql.Builder) { s.Bind(&e) })
	sel := []call{bindCall}
	if x.r.IntN(2) == 0 {
		q.items = append(q.items, item{e: add{col{"age"}, lit{int64(5)}}})
		sel = append(sel, b.mk("Select(age + ?).To", func(s xsql.Builder) { s.Select("age + ?", 5).To(&extra) }))
	}
	q.order = []orderc{{2, x.r.IntN(2) == 0}}
	want := q.eval(x.w, nil).rows
	from := b.fromCalls(q)
	ord := []call{b.mk("OrderBy", func(s xsql.Builder) {
		if q.order[0].desc {
			s.OrderBy("2 DESC")
		} else {
			s.OrderBy("2")
		}
	})}
	calls := append(from[:1:1], merge(x.r, sel, b.whereCalls(conds), ord)...)
	st := calls[0].start(d)
	for _, c := range calls[1:] {
		c.do(st)
	}
	text := st.String()
	ex, done, en := x.exec(pg)
	defer done()
	read := func() row {
		o := row{nil, e.ID, nil, nil, nil}
		if e.Note.Valid {
			o[0] = e.Note.String
		}
		if e.Dept.Valid {
			o[2] = e.Dept.Int64
		}
		if e.Name != nil {
			o[3] = *e.Name
		}
		if e.Age != nil {
			o[4] = *e.Age
		}
		if len(q.items) == 6 {
			if extra != nil {
				o = append(o, *extra)
			} else {
				o = append(o, nil)
			}
		}
		return o
	}
	var got []row
	err := st.QueryAndClose(ctx, ex, func(*sql.Rows) { got = append(got, read()) })
	x.m.Count("bind", 1)
	x.m.Count("bind-rows", len(got))
	x.m.Eval(len(want) > 0, "bind", text, len(want))
	if err != nil || !sameRows(got, want, true) {
		x.m.Fail("bind", "bound struct: err %v\ngot  %s\nwant %s\ndialect %s executor %s\nsql %s", err, fmtRows(got), fmtRows(want), dn, en, text)
	}
	if e.Skip != 7 || e.Other != "keep" {
		x.m.Fail("bind:untagged", "fields without a column were changed: %+v", e)
	}
}

func TestC07(t *testing.T) {
	mon.Run(t, "C07", "a case is one statement executed against SQLite; non-trivial when it returned or affected at least one row", func(m *mon.M) {
		hist := m.N(120, 1500)
		steps := m.N(260, 500)
		for hn := 0; hn < hist && !m.Failed(); hn++ {
			r := m.Rand("history", hn)
			db := newDB(fmt.Sprintf("c07_%d", hn))
			prov, err := xdb.New("sqlite3", db, nil)
			if err != nil {
				t.Fatal(err)
			}
			x := &h{m: m, db: db, prov: prov, r: r, w: &world{tabs: map[string]*table{}}}
			for n, c := range schemaCols {
				x.w.tabs[n] = &table{cols: c}
			}
			x.g = &gen{r: r, w: x.w}
			for s := 0; s < steps && !m.Failed(); s++ {
				x.g.n = 0
				if tot := len(x.w.tabs["emp"].rows); tot < 6 {
					x.insert()
					continue
				} else if tot > 40 {
					x.delete()
				}
				switch k := r.IntN(20); {
				case k < 3:
					x.insert()
				case k < 5:
					x.update()
				case k < 6:
					x.delete()
				case k < 8:
					x.binds()
					x.shapes()
				default:
					x.selects()
				}
			}
			m.State("final-state", fmtAll(x.w))
			_ = prov.Close()
		}
		for _, n := range []string{"select", "insert", "update", "delete", "bind", "shapes", "insert-bulk", "insert-rejected", "insert-returning", "update-returning", "delete-returning", "insert-select", "rows"} {
			m.Need(n, 10)
		}
	})
}

func fmtAll(w *world) string {
	return fmt.Sprint(w.tabs["emp"].rows, w.tabs["dept"].rows, w.tabs["tags"].rows)
}
