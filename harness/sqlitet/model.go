// Package sqlitet runs built statements against an embedded SQLite database
// and compares effects and results with an in-memory model of the tables.
package sqlitet

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
)

// val is nil, int64 or string.
type val = any

type row = []val

// table is a base table or the result of a query.
type table struct {
	cols []string
	rows []row
}

func (t *table) idx(c string) int {
	for i, x := range t.cols {
		if x == c {
			return i
		}
	}
	panic("harness: no column " + c + " in " + strings.Join(t.cols, ","))
}

// env binds qualified column names to values; the innermost scope wins.
type env struct {
	up   *env
	vals map[string]val
}

func (e *env) get(n string) val {
	for x := e; x != nil; x = x.up {
		if v, ok := x.vals[n]; ok {
			return v
		}
	}
	panic("harness: unbound " + n)
}

// world is the state of the model database.
type world struct {
	tabs map[string]*table
}

func (w *world) clone() *world {
	n := &world{tabs: map[string]*table{}}
	for k, t := range w.tabs {
		c := &table{cols: t.cols}
		for _, r := range t.rows {
			c.rows = append(c.rows, append(row(nil), r...))
		}
		n.tabs[k] = c
	}
	return n
}

// sqlw collects text and arguments of one expression.
type sqlw struct {
	b    strings.Builder
	args []any
	pg   bool
}

func (s *sqlw) w(f string, a ...any) { fmt.Fprintf(&s.b, f, a...) }
func (s *sqlw) arg(v any)            { s.b.WriteString("?"); s.args = append(s.args, v) }

func (s *sqlw) text(v string) {
	t := strings.ReplaceAll(v, "'", "''")
	if s.pg {
		t = strings.ReplaceAll(t, "?", `\?`)
	}
	s.b.WriteString("'" + t + "'")
}

// ex is an expression; booleans are int64 0/1 or nil (unknown).
type ex interface {
	sql(*sqlw)
	eval(*world, *env) val
}

type (
	col  struct{ n string }
	lit  struct{ v val } // written as a placeholder
	cst  struct{ v val } // written as text
	add  struct{ a, b ex }
	cat  struct{ a, b ex }
	coal struct{ a, b ex }
	cmp  struct {
		op   string
		a, b ex
	}
	isnull struct {
		a   ex
		not bool
	}
	and2    struct{ a, b ex }
	or2     struct{ a, b ex }
	not1    struct{ a ex }
	between struct{ a, lo, hi ex }
	inlist  struct {
		a    ex
		vals []val
		not  bool
	}
	insub struct {
		a   ex
		q   *query
		not bool
	}
	exists struct {
		q   *query
		not bool
	}
	scalar struct{ q *query }
	cas    struct{ c, a, b ex }
)

func (x col) sql(s *sqlw)               { s.b.WriteString(x.n) }
func (x col) eval(_ *world, e *env) val { return e.get(x.n) }
func (x lit) sql(s *sqlw)               { s.arg(x.v) }
func (x lit) eval(_ *world, _ *env) val { return x.v }
func (x cst) eval(_ *world, _ *env) val { return x.v }
func (x add) sql(s *sqlw)               { s.w("("); x.a.sql(s); s.w(" + "); x.b.sql(s); s.w(")") }
func (x cat) sql(s *sqlw)               { s.w("("); x.a.sql(s); s.w(" || "); x.b.sql(s); s.w(")") }
func (x coal) sql(s *sqlw)              { s.w("COALESCE("); x.a.sql(s); s.w(", "); x.b.sql(s); s.w(")") }
func (x cmp) sql(s *sqlw)               { x.a.sql(s); s.w(" %s ", x.op); x.b.sql(s) }
func (x and2) sql(s *sqlw)              { s.w("("); x.a.sql(s); s.w(" AND "); x.b.sql(s); s.w(")") }
func (x or2) sql(s *sqlw)               { s.w("("); x.a.sql(s); s.w(" OR "); x.b.sql(s); s.w(")") }
func (x not1) sql(s *sqlw)              { s.w("NOT ("); x.a.sql(s); s.w(")") }
func (x scalar) sql(s *sqlw)            { s.w("("); x.q.text(s); s.w(")") }
func (x cas) sql(s *sqlw) {
	s.w("CASE WHEN ")
	x.c.sql(s)
	s.w(" THEN ")
	x.a.sql(s)
	s.w(" ELSE ")
	x.b.sql(s)
	s.w(" END")
}
func (x cst) sql(s *sqlw) {
	switch v := x.v.(type) {
	case nil:
		s.w("NULL")
	case int64:
		s.w("%d", v)
	case string:
		s.text(v)
	}
}
func (x isnull) sql(s *sqlw) {
	x.a.sql(s)
	if x.not {
		s.w(" IS NOT NULL")
	} else {
		s.w(" IS NULL")
	}
}
func (x between) sql(s *sqlw) {
	x.a.sql(s)
	s.w(" BETWEEN ")
	x.lo.sql(s)
	s.w(" AND ")
	x.hi.sql(s)
}
func (x inlist) sql(s *sqlw) {
	x.a.sql(s)
	if x.not {
		s.w(" NOT")
	}
	s.w(" IN (")
	for i, v := range x.vals {
		if i > 0 {
			s.w(",")
		}
		s.arg(v)
	}
	s.w(")")
}
func (x insub) head(s *sqlw) {
	x.a.sql(s)
	if x.not {
		s.w(" NOT")
	}
	s.w(" IN (")
}
func (x insub) sql(s *sqlw) { x.head(s); x.q.text(s); s.w(")") }
func (x exists) sql(s *sqlw) {
	if x.not {
		s.w("NOT ")
	}
	s.w("EXISTS (")
	x.q.text(s)
	s.w(")")
}

func (x add) eval(w *world, e *env) val {
	a, b := x.a.eval(w, e), x.b.eval(w, e)
	if a == nil || b == nil {
		return nil
	}
	return a.(int64) + b.(int64)
}
func (x cat) eval(w *world, e *env) val {
	a, b := x.a.eval(w, e), x.b.eval(w, e)
	if a == nil || b == nil {
		return nil
	}
	return fmt.Sprint(a) + fmt.Sprint(b)
}
func (x coal) eval(w *world, e *env) val {
	if a := x.a.eval(w, e); a != nil {
		return a
	}
	return x.b.eval(w, e)
}
func (x cas) eval(w *world, e *env) val {
	if truth(x.c.eval(w, e)) {
		return x.a.eval(w, e)
	}
	return x.b.eval(w, e)
}

// order compares like SQLite: NULL < numbers < text.
func order(a, b val) int {
	k := func(v val) int {
		switch v.(type) {
		case nil:
			return 0
		case int64:
			return 1
		}
		return 2
	}
	if k(a) != k(b) {
		return k(a) - k(b)
	}
	switch x := a.(type) {
	case int64:
		y := b.(int64)
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
	case string:
		return strings.Compare(x, b.(string))
	}
	return 0
}

func boolv(b bool) val {
	if b {
		return int64(1)
	}
	return int64(0)
}

func truth(v val) bool { i, ok := v.(int64); return ok && i != 0 }

func (x cmp) eval(w *world, e *env) val {
	a, b := x.a.eval(w, e), x.b.eval(w, e)
	if a == nil || b == nil {
		return nil
	}
	c := order(a, b)
	switch x.op {
	case "=":
		return boolv(c == 0)
	case "<>":
		return boolv(c != 0)
	case "<":
		return boolv(c < 0)
	case "<=":
		return boolv(c <= 0)
	case ">":
		return boolv(c > 0)
	case ">=":
		return boolv(c >= 0)
	}
	panic("harness: op " + x.op)
}
func (x isnull) eval(w *world, e *env) val { return boolv((x.a.eval(w, e) == nil) != x.not) }
func and3(a, b val) val {
	if (a != nil && !truth(a)) || (b != nil && !truth(b)) {
		return int64(0)
	}
	if a == nil || b == nil {
		return nil
	}
	return int64(1)
}
func not3(a val) val {
	if a == nil {
		return nil
	}
	return boolv(!truth(a))
}
func (x and2) eval(w *world, e *env) val { return and3(x.a.eval(w, e), x.b.eval(w, e)) }
func (x or2) eval(w *world, e *env) val {
	return not3(and3(not3(x.a.eval(w, e)), not3(x.b.eval(w, e))))
}
func (x not1) eval(w *world, e *env) val { return not3(x.a.eval(w, e)) }
func (x between) eval(w *world, e *env) val {
	return and3(cmp{">=", x.a, x.lo}.eval(w, e), cmp{"<=", x.a, x.hi}.eval(w, e))
}
func member(a val, l []val, not bool) val {
	r := val(int64(0))
	for _, v := range l {
		if a == nil || v == nil {
			if r != val(int64(1)) {
				r = nil
			}
			continue
		}
		if order(a, v) == 0 {
			r = int64(1)
		}
	}
	if len(l) == 0 {
		r = int64(0)
	}
	if not {
		return not3(r)
	}
	return r
}
func (x inlist) eval(w *world, e *env) val { return member(x.a.eval(w, e), x.vals, x.not) }
func (x insub) eval(w *world, e *env) val {
	t := x.q.eval(w, e)
	var l []val
	for _, r := range t.rows {
		l = append(l, r[0])
	}
	return member(x.a.eval(w, e), l, x.not)
}
func (x exists) eval(w *world, e *env) val { return boolv((len(x.q.eval(w, e).rows) > 0) != x.not) }
func (x scalar) eval(w *world, e *env) val {
	t := x.q.eval(w, e)
	if len(t.rows) == 0 {
		return nil
	}
	return t.rows[0][0]
}

// item is an output column; agg is "", "COUNT(*)", "SUM", "MIN", "MAX", "COUNT".
type item struct {
	e     ex
	agg   string
	alias string
}

func (it item) sql(s *sqlw) {
	switch it.agg {
	case "":
		it.e.sql(s)
	case "COUNT(*)":
		s.w("COUNT(*)")
	default:
		s.w("%s(", it.agg)
		it.e.sql(s)
		s.w(")")
	}
}

func aggregate(it item, w *world, rows []*env) val {
	switch it.agg {
	case "":
		return it.e.eval(w, rows[0])
	case "COUNT(*)":
		return int64(len(rows))
	}
	var res val
	n := int64(0)
	for _, e := range rows {
		v := it.e.eval(w, e)
		if v == nil {
			continue
		}
		n++
		switch {
		case res == nil:
			res = v
		case it.agg == "SUM":
			res = res.(int64) + v.(int64)
		case it.agg == "MIN" && order(v, res) < 0, it.agg == "MAX" && order(v, res) > 0:
			res = v
		}
	}
	if it.agg == "COUNT" {
		return n
	}
	return res
}

type join struct {
	kind  string // "Join", "LeftJoin", "RightJoin", "FullJoin"
	tab   string
	alias string
	on    ex // without placeholders
}

type cte struct {
	name string
	q    *query
}

type union struct {
	all bool
	q   *query
}

// query is a SELECT.
type query struct {
	ctes   []cte
	items  []item
	from   string // table or CTE name
	sub    *query // derived table instead
	alias  string
	joins  []join
	where  []ex
	group  []ex
	having *havingc
	unions []union
	order  []orderc // ordinals, total on the output columns when limited
	limit  int      // -1 none
	offset int
	// useIn marks the index of the where entry emitted through Where(..).In(..).
	agg bool
}

type havingc struct {
	it  item
	op  string
	val int64
}

type orderc struct {
	ord  int // 1-based output column
	desc bool
}

func (q *query) plain() bool { return len(q.order) == 0 && q.limit < 0 }

func (q *query) outCols() []string {
	var l []string
	for i, it := range q.items {
		a := it.alias
		if a == "" {
			a = fmt.Sprintf("c%d", i+1)
		}
		l = append(l, a)
	}
	return l
}

// text writes the query by hand, independently of the builder. It serves for
// sub-queries inside expressions and as a second opinion on the database
// engine when a result differs from the model.
func (q *query) text(s *sqlw) {
	for i, c := range q.ctes {
		if i == 0 {
			s.w("WITH ")
		} else {
			s.w(", ")
		}
		s.w("%s AS (", c.name)
		c.q.text(s)
		s.w(") ")
	}
	s.w("SELECT ")
	for i, it := range q.items {
		if i > 0 {
			s.w(", ")
		}
		it.sql(s)
		if it.alias != "" {
			s.w(" AS %s", it.alias)
		}
	}
	if q.sub != nil {
		s.w(" FROM (")
		q.sub.text(s)
		s.w(") %s", q.alias)
	} else {
		s.w(" FROM %s %s", q.from, q.alias)
	}
	for _, j := range q.joins {
		k := map[string]string{"Join": "JOIN", "LeftJoin": "LEFT JOIN", "RightJoin": "RIGHT JOIN", "FullJoin": "FULL JOIN"}[j.kind]
		s.w(" %s %s %s ON ", k, j.tab, j.alias)
		j.on.sql(s)
	}
	for i, p := range q.where {
		if i == 0 {
			s.w(" WHERE ")
		} else {
			s.w(" AND ")
		}
		s.w("(")
		p.sql(s)
		s.w(")")
	}
	for i, g := range q.group {
		if i == 0 {
			s.w(" GROUP BY ")
		} else {
			s.w(", ")
		}
		g.sql(s)
	}
	if q.having != nil {
		s.w(" HAVING ")
		q.having.it.sql(s)
		s.w(" %s %d", q.having.op, q.having.val)
	}
	for _, u := range q.unions {
		s.w(" UNION ")
		if u.all {
			s.w("ALL ")
		}
		u.q.text(s)
	}
	for i, o := range q.order {
		if i == 0 {
			s.w(" ORDER BY ")
		} else {
			s.w(", ")
		}
		s.w("%d", o.ord)
		if o.desc {
			s.w(" DESC")
		}
	}
	if q.limit >= 0 {
		s.w(" LIMIT %d OFFSET %d", q.limit, q.offset)
	}
}

func (w *world) table(n string) *table {
	t := w.tabs[n]
	if t == nil {
		panic("harness: no table " + n)
	}
	return t
}

func bind(t *table, alias string, r row, into map[string]val) {
	for i, c := range t.cols {
		var v val
		if r != nil {
			v = r[i]
		}
		if alias == "" {
			into[c] = v
		} else {
			into[alias+"."+c] = v
		}
	}
}

func (q *query) core(w *world, up *env) *table {
	var base *table
	if q.sub != nil {
		base = q.sub.eval(w, up)
	} else {
		base = w.table(q.from)
	}
	var scopes []map[string]val
	for _, r := range base.rows {
		m := map[string]val{}
		bind(base, q.alias, r, m)
		scopes = append(scopes, m)
	}
	bound := []struct {
		t *table
		a string
	}{{base, q.alias}}
	for _, j := range q.joins {
		jt := w.table(j.tab)
		var out []map[string]val
		used := make([]bool, len(jt.rows))
		for _, s := range scopes {
			hit := false
			for i, r := range jt.rows {
				m := map[string]val{}
				for k, v := range s {
					m[k] = v
				}
				bind(jt, j.alias, r, m)
				if truth(j.on.eval(w, &env{up: up, vals: m})) {
					hit, used[i] = true, true
					out = append(out, m)
				}
			}
			if !hit && (j.kind == "LeftJoin" || j.kind == "FullJoin") {
				m := map[string]val{}
				for k, v := range s {
					m[k] = v
				}
				bind(jt, j.alias, nil, m)
				out = append(out, m)
			}
		}
		if j.kind == "RightJoin" || j.kind == "FullJoin" {
			for i, r := range jt.rows {
				if !used[i] {
					m := map[string]val{}
					for _, b := range bound {
						bind(b.t, b.a, nil, m)
					}
					bind(jt, j.alias, r, m)
					out = append(out, m)
				}
			}
		}
		bound = append(bound, struct {
			t *table
			a string
		}{jt, j.alias})
		scopes = out
	}
	var envs []*env
	for _, s := range scopes {
		e := &env{up: up, vals: s}
		ok := true
		for _, p := range q.where {
			ok = ok && truth(p.eval(w, e))
		}
		if ok {
			envs = append(envs, e)
		}
	}
	res := &table{cols: q.outCols()}
	if !q.agg {
		for _, e := range envs {
			var r row
			for _, it := range q.items {
				r = append(r, it.e.eval(w, e))
			}
			res.rows = append(res.rows, r)
		}
		return res
	}
	groups := map[string][]*env{}
	var keys []string
	for _, e := range envs {
		k := ""
		for _, g := range q.group {
			k += fmt.Sprintf("%T:%v|", g.eval(w, e), g.eval(w, e))
		}
		if _, ok := groups[k]; !ok {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], e)
	}
	if len(q.group) == 0 && len(keys) == 0 {
		keys = []string{""}
		groups[""] = nil
	}
	for _, k := range keys {
		g := groups[k]
		if q.having != nil {
			v := aggregate(q.having.it, w, g)
			if !truth(cmp{q.having.op, cst{v}, cst{q.having.val}}.eval(w, nil)) {
				continue
			}
		}
		var r row
		for _, it := range q.items {
			r = append(r, aggregate(it, w, g))
		}
		res.rows = append(res.rows, r)
	}
	return res
}

func rowKey(r row) string {
	var b strings.Builder
	for _, v := range r {
		fmt.Fprintf(&b, "%T:%q|", v, fmt.Sprint(v))
	}
	return b.String()
}

func (q *query) eval(w *world, up *env) *table {
	if len(q.ctes) > 0 {
		w = &world{tabs: copyTabs(w.tabs)}
		for _, c := range q.ctes {
			w.tabs[c.name] = c.q.eval(w, nil)
		}
	}
	res := q.core(w, up)
	for _, u := range q.unions {
		o := u.q.eval(w, up)
		res.rows = append(res.rows, o.rows...)
		if !u.all {
			seen := map[string]bool{}
			var l []row
			for _, r := range res.rows {
				if k := rowKey(r); !seen[k] {
					seen[k] = true
					l = append(l, r)
				}
			}
			res.rows = l
		}
	}
	if len(q.order) > 0 {
		sort.SliceStable(res.rows, func(i, j int) bool {
			for _, o := range q.order {
				c := order(res.rows[i][o.ord-1], res.rows[j][o.ord-1])
				if c != 0 {
					return (c < 0) != o.desc
				}
			}
			return false
		})
	}
	off := min(q.offset, len(res.rows))
	if q.limit >= 0 {
		res.rows = res.rows[off:min(off+q.limit, len(res.rows))]
	}
	return res
}

func copyTabs(m map[string]*table) map[string]*table {
	n := map[string]*table{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// random helpers

var words = []string{"", "a", "it's", "what?", `q"x`, "$1", "x -- y", "ünï", "A;B", "?", "10", "O''N", "line\nbreak", `back\slash`}

func word(r *rand.Rand) string { return words[r.IntN(len(words))] }
