// Package prog generates random statement-builder programs, runs them against
// xsql and interprets them with an independent model of what SQL text,
// arguments and scan targets must come out.
package prog

import (
	"database/sql"
	"fmt"
	"math/rand/v2"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/effective-security/xdb/xsql"
)

// Op is one builder call.
type Op struct {
	K    string
	S    string
	S2   string
	Args []any
	Strs []string
	Sub  *Prog
	B    bool
	N    int
	N2   int
	Dest []any
	// Ptr is the pointer to a struct given to Bind: Strs are its columns and
	// Dest its fields.
	Ptr any
	// Row marks Set/SetExpr calls made on the row of the last NewRow.
	Row bool
}

// Prog is a statement-builder program.
type Prog struct {
	Dialect string // "default", "postgres", "sqlserver", "package"
	Name    string
	NL      int // 0 dialect default, 1 on, 2 off
	Ops     []Op
}

func (o Op) String() string {
	s := o.K + "("
	if o.Row {
		s = "row." + s
	}
	switch o.K {
	case "orderby", "bind":
		s += fmt.Sprintf("%q", o.Strs)
	case "paginate":
		s += fmt.Sprint(o.N, ", ", o.N2)
	case "union":
		s += fmt.Sprint(o.B)
	case "in", "limit", "offset":
	case "to":
		s += fmt.Sprint(len(o.Dest))
	default:
		s += fmt.Sprintf("%q", o.S)
		if o.S2 != "" || o.K == "subquery" {
			s += fmt.Sprintf(", %q", o.S2)
		}
	}
	for _, a := range o.Args {
		s += fmt.Sprintf(", %v", a)
	}
	if o.Sub != nil {
		s += ", " + o.Sub.String()
	}
	return s + ")"
}

func (p *Prog) String() string {
	var l []string
	for _, o := range p.Ops {
		l = append(l, o.String())
	}
	s := p.Dialect + "." + strings.Join(l, ".")
	if p.Name != "" {
		s += " name=" + p.Name
	}
	if p.NL != 0 {
		s += fmt.Sprintf(" nl=%d", p.NL)
	}
	return s
}

// Dialects by name.
func dialect(n string) xsql.SQLDialect {
	switch n {
	case "postgres":
		return xsql.Postgres
	case "sqlserver":
		return xsql.SQLServer
	}
	return xsql.NoDialect
}

// PG tells whether placeholders are numbered.
func (p *Prog) PG() bool { return p.Dialect == "postgres" }

type rowHolder struct{ r xsql.Row }

// Build runs the program in its own dialect.
func (p *Prog) Build() xsql.Builder {
	return p.BuildIn(dialect(p.Dialect))
}

// BuildIn runs the program in the given dialect.
func (p *Prog) BuildIn(d xsql.SQLDialect) xsql.Builder {
	q, rest := p.start(d)
	h := &rowHolder{}
	for _, o := range rest {
		o.Apply(q, h, d)
	}
	return q
}

func (p *Prog) start(d xsql.SQLDialect) (xsql.Builder, []Op) {
	o := p.Ops[0]
	pk := p.Dialect == "package" && d == xsql.NoDialect
	var q xsql.Builder
	switch o.K {
	case "select":
		if pk {
			q = xsql.Select(o.S, o.Args...)
		} else {
			q = d.Select(o.S, o.Args...)
		}
	case "from":
		if pk {
			q = xsql.From(o.S, o.Args...)
		} else {
			q = d.From(o.S, o.Args...)
		}
	case "insert":
		if pk {
			q = xsql.InsertInto(o.S)
		} else {
			q = d.InsertInto(o.S)
		}
	case "update":
		if pk {
			q = xsql.Update(o.S)
		} else {
			q = d.Update(o.S)
		}
	case "delete":
		if pk {
			q = xsql.DeleteFrom(o.S)
		} else {
			q = d.DeleteFrom(o.S)
		}
	case "new":
		if pk {
			q = xsql.New(o.S, o.Args...)
		} else {
			q = d.New(o.S, o.Args...)
		}
	case "with":
		if pk {
			q = xsql.With(o.S, o.Sub.buildSub(d))
		} else {
			q = d.With(o.S, o.Sub.buildSub(d))
		}
	default:
		panic("harness: program starts with " + o.K)
	}
	if p.NL != 0 {
		q.UseNewLines(p.NL == 1)
	}
	if p.Name != "" {
		q.SetName(p.Name)
	}
	return q, p.Ops[1:]
}

// buildSub builds a sub-query in its own dialect, except when the whole
// program is redirected to a scratch dialect.
func (p *Prog) buildSub(d xsql.SQLDialect) xsql.Builder {
	if d == nil || d == xsql.NoDialect || d == xsql.Postgres || d == xsql.SQLServer {
		return p.Build()
	}
	return p.BuildIn(d)
}

// Apply performs one call.
func (o Op) Apply(q xsql.Builder, h *rowHolder, d xsql.SQLDialect) {
	switch o.K {
	case "select":
		q.Select(o.S, o.Args...)
	case "from":
		q.From(o.S, o.Args...)
	case "where":
		q.Where(o.S, o.Args...)
	case "in":
		q.In(o.Args...)
	case "join":
		q.Join(o.S, o.S2)
	case "leftjoin":
		q.LeftJoin(o.S, o.S2)
	case "rightjoin":
		q.RightJoin(o.S, o.S2)
	case "fulljoin":
		q.FullJoin(o.S, o.S2)
	case "groupby":
		q.GroupBy(o.S)
	case "having":
		q.Having(o.S, o.Args...)
	case "orderby":
		q.OrderBy(o.Strs...)
	case "limit":
		q.Limit(o.Args[0])
	case "offset":
		q.Offset(o.Args[0])
	case "paginate":
		q.Paginate(o.N, o.N2)
	case "union":
		q.Union(o.B, o.Sub.buildSub(d))
	case "with":
		q.With(o.S, o.Sub.buildSub(d))
	case "subquery":
		q.SubQuery(o.S, o.S2, o.Sub.buildSub(d))
	case "clause":
		q.Clause(o.S, o.Args...)
	case "expr":
		q.Expr(o.S, o.Args...)
	case "returning":
		q.Returning(o.S)
	case "set":
		if o.Row {
			h.r = h.r.Set(o.S, o.Args[0])
		} else {
			q.Set(o.S, o.Args[0])
		}
	case "setexpr":
		if o.Row {
			h.r = h.r.SetExpr(o.S, o.S2, o.Args...)
		} else {
			q.SetExpr(o.S, o.S2, o.Args...)
		}
	case "newrow":
		h.r = q.NewRow()
	case "to":
		q.To(o.Dest...)
	case "bind":
		q.Bind(o.Ptr)
	case "update":
		q.Update(o.S)
	case "invalidate":
		q.Invalidate()
	case "string":
		_ = q.String()
	default:
		panic("harness: unknown op " + o.K)
	}
}

// ---- model ----

type item struct {
	sep, text string
	args      []any
}

type slot struct {
	pos    int
	clause string
	cargs  []any
	items  []item
	where  bool
}

type model struct {
	slots []*slot
	cur   int
	dest  []any
	row   struct{ first, notEmpty bool }
}

const (
	pStart = (1 + iota) << 20
	pWith
	pInsert
	pFields
	pValues
	pDelete
	pUpdate
	pSet
	pSelect
	pInto
	pFrom
	pWhere
	pGroup
	pHaving
	pUnion
	pOrder
	pLimit
	pOffset
	pReturning
)

func (m *model) find(pos int) *slot {
	for _, s := range m.slots {
		if s.pos == pos {
			return s
		}
	}
	return nil
}

func (m *model) last() int {
	n := 0
	for _, s := range m.slots {
		if s.pos > n {
			n = s.pos
		}
	}
	return n
}

func (m *model) add(pos int, clause, text string, args []any, sep string) {
	m.cur = pos
	s := m.find(pos)
	if s == nil {
		s = &slot{pos: pos, clause: clause}
		m.slots = append(m.slots, s)
		sort.SliceStable(m.slots, func(i, j int) bool { return m.slots[i].pos < m.slots[j].pos })
		if text == "" {
			s.cargs = args
			return
		}
	} else if text == "" {
		if len(args) > 0 {
			s.cargs = args
		}
		return
	}
	s.items = append(s.items, item{sep, text, args})
}

func sepFor(pos int) string {
	if pos == pWhere || pos == pHaving {
		return " AND "
	}
	return ", "
}

func (m *model) apply(o Op) {
	switch o.K {
	case "select":
		m.add(pSelect, "SELECT", o.S, o.Args, ", ")
	case "new":
		m.add(pSelect, o.S, "", o.Args, ", ")
	case "from":
		m.add(pFrom, "FROM", o.S, o.Args, ", ")
	case "where":
		m.add(pWhere, "WHERE", o.S, o.Args, " AND ")
	case "in":
		m.add(pWhere, "", "IN ("+strings.TrimSuffix(strings.Repeat("?,", len(o.Args)), ",")+")", o.Args, " ")
	case "join", "leftjoin", "rightjoin", "fulljoin":
		kw := map[string]string{"join": "JOIN", "leftjoin": "LEFT JOIN", "rightjoin": "RIGHT JOIN", "fulljoin": "FULL JOIN"}[o.K]
		m.add(pFrom, "", kw+" "+o.S+" ON ("+o.S2+")", nil, " ")
	case "groupby":
		m.add(pGroup, "GROUP BY", o.S, nil, ", ")
	case "having":
		m.add(pHaving, "HAVING", o.S, o.Args, " AND ")
	case "orderby":
		m.add(pOrder, "ORDER BY", strings.Join(o.Strs, ", "), nil, ", ")
	case "limit":
		m.add(pLimit, "LIMIT ?", "", o.Args[:1], "")
	case "offset":
		m.add(pOffset, "OFFSET ?", "", o.Args[:1], "")
	case "paginate":
		page, size := max(o.N, 1), max(o.N2, 1)
		if page > 1 {
			m.add(pOffset, "OFFSET ?", "", []any{(page - 1) * size}, "")
		}
		m.add(pLimit, "LIMIT ?", "", []any{size}, "")
	case "union":
		pos := pUnion
		for _, s := range m.slots {
			if s.pos >= pos && s.pos < pOrder {
				pos = s.pos + 1
			}
		}
		t, a, _ := o.Sub.model()
		kw := "UNION "
		if o.B {
			kw = "UNION ALL "
		}
		m.add(pos, kw+t, "", a, "")
	case "with":
		t, a, _ := o.Sub.model()
		m.add(pWith, "WITH", o.S+" AS ("+t+")", a, ", ")
	case "subquery":
		t, a, _ := o.Sub.model()
		m.add(m.cur, "", o.S+t+o.S2, a, sepFor(m.cur))
	case "clause":
		pos := pStart
		if len(m.slots) > 0 {
			pos = m.last() + 1
		}
		m.add(pos, o.S, "", o.Args, "")
	case "expr":
		m.add(m.cur, "", o.S, o.Args, ", ")
	case "returning":
		m.add(pReturning, "RETURNING", o.S, nil, ", ")
	case "insert":
		m.add(pInsert, "INSERT INTO", o.S, nil, ", ")
		m.add(pFields-1, "(", "", nil, "")
		m.add(pValues-1, ") VALUES (", "", nil, "")
		m.add(pValues+1, ")", "", nil, "")
		m.cur = pFields
	case "update":
		m.add(pUpdate, "UPDATE", o.S, nil, ", ")
	case "delete":
		m.add(pDelete, "DELETE FROM", o.S, nil, ", ")
	case "set", "setexpr":
		e := o.S2
		if o.K == "set" {
			e = "?"
		}
		switch {
		case o.Row && !m.row.first:
			sep := ""
			if m.row.notEmpty {
				sep = ", "
			}
			m.row.notEmpty = true
			m.add(pValues, "", e, o.Args, sep)
		case m.find(pInsert) != nil:
			m.add(pFields, "", o.S, nil, ", ")
			m.add(pValues, "", e, o.Args, ", ")
			m.row.notEmpty = true
		case m.find(pUpdate) != nil:
			m.add(pSet, "SET", o.S+"="+e, o.Args, ", ")
		}
	case "newrow":
		first := m.find(pValues) == nil
		m.row.first, m.row.notEmpty = first, false
		if !first {
			m.add(pValues, "", " ", nil, " ), (")
		}
	case "to":
		m.dest = append(m.dest, o.Dest...)
	case "bind":
		for i, c := range o.Strs {
			m.add(pSelect, "SELECT", c, nil, ", ")
			m.dest = append(m.dest, o.Dest[i])
		}
	case "invalidate", "string":
	default:
		panic("harness: model lacks " + o.K)
	}
}

func (m *model) render() (string, []any) {
	var parts []string
	var args []any
	for _, s := range m.slots {
		t := s.clause
		args = append(args, s.cargs...)
		for i, it := range s.items {
			switch {
			case i > 0:
				t += it.sep + it.text
			case t == "":
				t = it.text
			default:
				t += " " + it.text
			}
			args = append(args, it.args...)
		}
		parts = append(parts, t)
	}
	return strings.Join(parts, " "), args
}

// model returns text (no dialect), arguments and scan targets.
func (p *Prog) model() (string, []any, []any) {
	m := &model{}
	for _, o := range p.Ops {
		m.apply(o)
	}
	t, a := m.render()
	return t, a, m.dest
}

// Want is what the program must produce.
type Want struct {
	Text string // normalised
	Args []any
	Dest []any
}

// Model interprets the program.
func (p *Prog) Model() Want {
	t, a, d := p.model()
	if p.PG() {
		t = Number(t)
	}
	return Want{Norm(t), a, d}
}

// Number turns ? into $1..$n and \? into ?.
func Number(t string) string {
	var b strings.Builder
	n := 0
	for i := 0; i < len(t); i++ {
		switch {
		case t[i] == '\\' && i+1 < len(t) && t[i+1] == '?':
			b.WriteByte('?')
			i++
		case t[i] == '?':
			n++
			b.WriteString("$" + strconv.Itoa(n))
		default:
			b.WriteByte(t[i])
		}
	}
	return b.String()
}

var reParen = regexp.MustCompile(`\s*([(),])\s*`)

var reQuoted = regexp.MustCompile(`'[^']*'`)

// Norm removes differences in white space that carry no meaning: everything
// inside single quotes stays as it is.
func Norm(s string) string {
	if strings.IndexByte(s, '\'') < 0 {
		return norm(s)
	}
	var lits []string
	s = norm(reQuoted.ReplaceAllStringFunc(s, func(l string) string {
		lits = append(lits, l)
		return "\x00"
	}))
	var b strings.Builder
	for _, part := range strings.SplitAfter(s, "\x00") {
		if t, ok := strings.CutSuffix(part, "\x00"); ok {
			b.WriteString(t + lits[0])
			lits = lits[1:]
		} else {
			b.WriteString(part)
		}
	}
	return b.String()
}

func norm(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	return reParen.ReplaceAllString(s, "$1")
}

// ---- generator ----

// Gen makes random programs with unique labels.
type Gen struct {
	R *rand.Rand
	N int
	// Dest makes scan targets when set.
	Dest bool
	// Simple avoids escapes and unusual runes.
	Simple bool
	// Quiet does not read the text while the statement is being built.
	Quiet bool
}

// literals are quoted texts whose white space, brackets and keywords must
// arrive as they are.
var literals = []string{
	" || 'x  y ( ,  z'", " || 'a\r\nb'", " || ' '", " || '\t ) '", " || 'it''s  ( WHERE )'", " || ' FROM  t ORDER BY '",
	" || '-- no , comment'", " || '日本  語'", " || '{a, b}'", " || '%s %d  %%'", " || ';'", " || 'a\n\nb  '",
	` || 'c:\dir\x'`, ` || 'end\'`, ` || '\\'`, ` || E'\\x00'`,
}

func (g *Gen) id() int { g.N++; return g.N }

// frag makes an expression fragment with n labelled placeholders.
func (g *Gen) frag(kind string, maxArgs int) (string, []any) {
	n := 0
	if maxArgs > 0 {
		n = g.R.IntN(maxArgs + 1)
	}
	var parts []string
	var args []any
	if n == 0 {
		k := g.id()
		s := fmt.Sprintf("%s%d", kind, k)
		if !g.Simple {
			switch g.R.IntN(40) {
			case 11:
				s += `\`
			case 12:
				s += ` \?` // an escaped question mark at the very end
			case 0, 1, 2:
				s += ` \? 'k'`
			case 3, 4, 5:
				s += ` /* имя */`
			case 6, 7, 8:
				s = fmt.Sprintf("COALESCE(%s, 'x y')", s)
			case 9:
				s += literals[g.R.IntN(len(literals))]
			case 10:
				s += " || '" + strings.Repeat("long  text , ", g.R.IntN(400)) + "'"
			}
		}
		return s, nil
	}
	for i := 0; i < n; i++ {
		k := g.id()
		s := fmt.Sprintf("c%d = ?", k)
		if !g.Simple {
			switch g.R.IntN(15) {
			case 3:
				s = fmt.Sprintf("n%d <> ''%s OR c%d = ?", k, literals[g.R.IntN(len(literals))], k)
			case 0:
				s = fmt.Sprintf(`j%d \? 'k' OR c%d = ?`, k, k)
			case 1:
				s = fmt.Sprintf(`c%d = ? AND j%d \?> 'k'`, k, k)
			case 2:
				s = fmt.Sprintf(`"Жизнь日" > 0 OR c%d = ?`, k)
			case 4:
				s = fmt.Sprintf(`c%d = ? OR j%d \?`, k, k)
			}
		}
		parts = append(parts, s)
		args = append(args, fmt.Sprintf("a%d", k))
	}
	return strings.Join(parts, " OR "), args
}

func (g *Gen) dialect() string {
	return []string{"default", "postgres", "postgres", "sqlserver", "package"}[g.R.IntN(5)]
}

// Program makes a program of any kind.
func (g *Gen) Program(depth int) *Prog {
	p := &Prog{Dialect: g.dialect(), NL: []int{0, 0, 0, 1, 2}[g.R.IntN(5)]}
	switch g.R.IntN(10) {
	case 0, 1:
		p.Ops = g.insertOps(depth)
	case 2:
		p.Ops = g.updateOps(depth)
	case 3:
		p.Ops = g.deleteOps(depth)
	case 4:
		p.Ops = g.rawOps(depth)
	default:
		p.Ops = g.selectOps(depth)
	}
	return p
}

// Long makes a program with very many blocks of one kind among ordinary ones,
// or sub-queries nested very deeply.
func (g *Gen) Long() *Prog {
	p := &Prog{Dialect: g.dialect(), NL: []int{0, 0, 0, 1, 2}[g.R.IntN(5)]}
	n := []int{9, 10, 11, 12, 25, 63, 64, 65, 99, 100, 101, 102, 130, 255, 256, 257, 260}[g.R.IntN(17)]
	small := func() *Prog {
		q := &Prog{Dialect: p.Dialect, Ops: append([]Op{{K: "from", S: fmt.Sprintf("t%d", g.id())}}, g.selBlock()...)}
		for i := range q.Ops {
			if q.Ops[i].K == "to" {
				q.Ops[i] = Op{K: "orderby", Strs: []string{fmt.Sprintf("o%d", g.id())}}
			}
		}
		return q
	}
	rep := func(f func() []Op) [][]Op {
		var b [][]Op
		for i := 0; i < n; i++ {
			b = append(b, f())
		}
		return b
	}
	switch k := g.R.IntN(10); k {
	case 0: // rows
		cols := 1 + g.R.IntN(5)
		p.Ops = []Op{{K: "insert", S: fmt.Sprintf("t%d", g.id())}}
		blocks := rep(func() []Op {
			b := []Op{{K: "newrow"}}
			for j := 0; j < cols; j++ {
				b = append(b, g.setOp(true, ""))
			}
			return b
		})
		p.Ops = append(p.Ops, flatten(append(blocks, g.tail(1, "returning", "clause")...))...)
		return p
	case 1: // columns
		kind := []string{"insert", "update"}[g.R.IntN(2)]
		p.Ops = []Op{{K: kind, S: fmt.Sprintf("t%d", g.id())}}
		blocks := append(rep(func() []Op { return []Op{g.setOp(false, "")} }), g.tail(1, "returning", "with")...)
		g.R.Shuffle(len(blocks), func(i, j int) { blocks[i], blocks[j] = blocks[j], blocks[i] })
		p.Ops = append(p.Ops, flatten(blocks)...)
		return p
	case 2: // depth
		n = min(n, 40)
		p = g.Select(0)
		for i := 0; i < n; i++ {
			o := g.Select(0)
			b := []Op{{K: "where", S: fmt.Sprintf("w%d", g.id())}, {K: "subquery", S: "EXISTS (", S2: ")", Sub: p}}
			if g.R.IntN(2) == 0 {
				b = []Op{{K: "with", S: fmt.Sprintf("q%d", g.id()), Sub: p}}
			}
			o.Ops = append(o.Ops, b...)
			p = o
		}
		return p
	default:
		var blocks [][]Op
		if k < 6 {
			blocks = rep(func() []Op { return []Op{{K: "union", B: g.R.IntN(2) == 0, Sub: small()}} })
			if k == 3 {
				blocks = rep(func() []Op { return g.clauseBlock(0) })
			}
		} else {
			f := []func() []Op{
				g.selBlock,
				func() []Op { return g.whereBlock(0, "where") },
				func() []Op { return []Op{{K: "with", S: fmt.Sprintf("q%d", g.id()), Sub: small()}} },
				func() []Op {
					return []Op{{K: "from", S: fmt.Sprintf("t%d", g.id())}, {K: "leftjoin", S: fmt.Sprintf("t%d", g.id()), S2: fmt.Sprintf("o%d = o%d", g.id(), g.id())}}
				},
			}[k-6]
			blocks = rep(f)
		}
		blocks = append(blocks, []Op{{K: "orderby", Strs: []string{fmt.Sprintf("o%d", g.id())}}}, []Op{{K: "limit", Args: []any{g.id()}}}, g.selBlock(), g.whereBlock(0, "where"))
		if g.R.IntN(2) == 0 {
			g.R.Shuffle(len(blocks), func(i, j int) { blocks[i], blocks[j] = blocks[j], blocks[i] })
		}
		p.Ops = flatten(first(append(blocks, []Op{{K: "from", S: fmt.Sprintf("t%d", g.id())}})))
	}
	return p
}

// Select makes a SELECT program.
func (g *Gen) Select(depth int) *Prog {
	return &Prog{Dialect: g.dialect(), NL: []int{0, 0, 1, 2}[g.R.IntN(4)], Ops: g.selectOps(depth)}
}

func (g *Gen) selBlock() []Op {
	s, a := g.frag("s", 1)
	ops := []Op{{K: "select", S: s, Args: a}}
	if g.Dest && g.R.IntN(2) == 0 {
		ops = append(ops, Op{K: "to", Dest: g.dest(1 + g.R.IntN(2))})
	}
	for g.R.IntN(4) == 0 {
		s, a = g.frag("s", 1)
		ops = append(ops, Op{K: "expr", S: s, Args: a})
	}
	if g.Dest && g.R.IntN(4) == 0 {
		ops = append(ops, g.bind())
	}
	return ops
}

// kinds of fields of bound structs.
var kinds = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(false), reflect.TypeOf(new(string)), reflect.TypeOf(new(int64)),
	reflect.TypeOf([]byte(nil)), reflect.TypeOf([]string(nil)), reflect.TypeOf(time.Time{}), reflect.TypeOf(new(time.Time)),
	reflect.TypeOf(sql.NullString{}), reflect.TypeOf(map[string]string(nil)), reflect.TypeOf([2]int{}), reflect.TypeOf(1.5),
	reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf(new(new0)), reflect.TypeOf(new0{}), reflect.TypeOf(uint8(0)),
}

type new0 struct{ A int }

// bind makes a struct with tagged and untagged fields of many kinds, embedded
// structs included.
func (g *Gen) bind() Op {
	var build func(depth int) (reflect.Type, func(v reflect.Value) ([]string, []any))
	build = func(depth int) (reflect.Type, func(v reflect.Value) ([]string, []any)) {
		var fs []reflect.StructField
		var walk []func(v reflect.Value) ([]string, []any)
		for i, n := 0, 1+g.R.IntN(6); i < n; i++ {
			k := g.id()
			f := reflect.StructField{Name: fmt.Sprintf("F%d", k), Type: kinds[g.R.IntN(len(kinds))]}
			col := fmt.Sprintf([]string{"b%d", "b%d", "b%d", "t.b%d AS x", "count(b%d)", "b%d IS NULL"}[g.R.IntN(6)], k)
			switch t := g.R.IntN(10); {
			case t == 0: // no column
				f.Tag = reflect.StructTag(fmt.Sprintf(`json:"%s"`, col))
				walk = append(walk, nil)
			case t == 1 && depth > 0:
				typ, w := build(depth - 1)
				f.Type, f.Anonymous = typ, true
				walk = append(walk, w)
			default:
				f.Tag = reflect.StructTag(fmt.Sprintf(`db:"%s%s" json:"x"`, col, []string{"", "", ",int8,index", ",null"}[g.R.IntN(4)]))
				walk = append(walk, func(v reflect.Value) ([]string, []any) { return []string{col}, []any{v.Addr().Interface()} })
			}
			fs = append(fs, f)
		}
		return reflect.StructOf(fs), func(v reflect.Value) ([]string, []any) {
			var cols []string
			var ptrs []any
			for i, w := range walk {
				if w != nil {
					c, p := w(v.Field(i))
					cols, ptrs = append(cols, c...), append(ptrs, p...)
				}
			}
			return cols, ptrs
		}
	}
	typ, walk := build(2)
	v := reflect.New(typ)
	o := Op{K: "bind", Ptr: v.Interface()}
	o.Strs, o.Dest = walk(v.Elem())
	return o
}

func (g *Gen) dest(n int) []any {
	var d []any
	for i := 0; i < n; i++ {
		d = append(d, new(string))
	}
	return d
}

func (g *Gen) whereBlock(depth int, kw string) []Op {
	var ops []Op
	s, a := g.frag("w", 2)
	ops = append(ops, Op{K: kw, S: s, Args: a})
	switch g.R.IntN(5) {
	case 0:
		if kw == "where" {
			k := g.id()
			ops = []Op{{K: kw, S: fmt.Sprintf("c%d", k)}}
			var args []any
			n := 1 + g.R.IntN(4)
			if !g.Simple && g.R.IntN(100) == 0 {
				n = 90 + g.R.IntN(1100)
			} else if !g.Simple && g.R.IntN(20) == 0 {
				n = 0 // an empty list
			}
			for i := 0; i < n; i++ {
				args = append(args, fmt.Sprintf("a%d.%d", k, i))
			}
			ops = append(ops, Op{K: "in", Args: args})
		}
	case 1:
		if depth > 0 {
			k := g.id()
			pre := []string{fmt.Sprintf("x%d IN (", k), "EXISTS (", "NOT EXISTS (", "("}[g.R.IntN(4)]
			ops = append(ops, Op{K: "subquery", S: pre, S2: ")", Sub: g.Select(depth - 1)})
		}
	}
	return ops
}

func (g *Gen) clauseBlock(depth int) []Op {
	k := g.id()
	op := Op{K: "clause", S: fmt.Sprintf("CLAUSE%d", k)}
	if g.R.IntN(3) == 0 {
		op.S = fmt.Sprintf("CLAUSE c%d = ?", k)
		op.Args = []any{fmt.Sprintf("a%d", k)}
	}
	ops := []Op{op}
	for g.R.IntN(2) == 0 {
		s, a := g.frag("e", 1)
		ops = append(ops, Op{K: "expr", S: s, Args: a})
	}
	if depth > 0 && g.R.IntN(6) == 0 {
		pre, suf := "(", ")"
		if g.R.IntN(2) == 0 {
			pre, suf = "", ""
		}
		ops = append(ops, Op{K: "subquery", S: pre, S2: suf, Sub: g.Select(depth - 1)})
	}
	return ops
}

func (g *Gen) with(depth int) []Op {
	return []Op{{K: "with", S: fmt.Sprintf("q%d", g.id()), Sub: g.Select(depth - 1)}}
}

func (g *Gen) noise(ops []Op) []Op {
	// reading the text half way must not change the outcome
	if g.Quiet {
		return ops
	}
	var out []Op
	for i, o := range ops {
		out = append(out, o)
		if i < len(ops)-1 && g.R.IntN(9) == 0 {
			out = append(out, Op{K: []string{"string", "invalidate"}[g.R.IntN(2)]})
		}
	}
	return out
}

func (g *Gen) selectOps(depth int) []Op {
	var blocks [][]Op
	some := func(p, n int, f func() []Op) {
		for i := 0; i < n; i++ {
			if g.R.IntN(100) < p {
				blocks = append(blocks, f())
			}
		}
	}
	table := func() []Op {
		if g.R.IntN(6) == 0 {
			s, a := g.frag("t", 1)
			return []Op{{K: "from", S: s, Args: a}}
		}
		return []Op{{K: "from", S: fmt.Sprintf("t%d", g.id())}}
	}
	blocks = append(blocks, g.selBlock())
	some(60, 3, g.selBlock)
	from := table()
	if depth > 0 && g.R.IntN(6) == 0 {
		from = append(from, Op{K: "subquery", S: "(", S2: fmt.Sprintf(") AS d%d", g.id()), Sub: g.Select(depth - 1)})
	}
	for g.R.IntN(3) == 0 {
		k := []string{"join", "leftjoin", "rightjoin", "fulljoin"}[g.R.IntN(4)]
		from = append(from, Op{K: k, S: fmt.Sprintf("t%d", g.id()), S2: fmt.Sprintf("o%d = o%d", g.id(), g.id())})
	}
	blocks = append(blocks, from)
	some(55, 3, func() []Op { return g.whereBlock(depth, "where") })
	some(25, 2, func() []Op { return []Op{{K: "groupby", S: fmt.Sprintf("g%d", g.id())}} })
	some(20, 2, func() []Op { return g.whereBlock(depth, "having") })
	some(30, 2, func() []Op {
		var l []string
		for i := 0; i <= g.R.IntN(3); i++ {
			l = append(l, fmt.Sprintf("o%d", g.id()))
		}
		return []Op{{K: "orderby", Strs: l}}
	})
	some(25, 2, func() []Op { return []Op{{K: "limit", Args: []any{g.id()}}} })
	some(20, 2, func() []Op { return []Op{{K: "offset", Args: []any{g.id()}}} })
	some(10, 2, func() []Op { return []Op{g.paginate()} })
	some(18, 3, func() []Op { return g.clauseBlock(depth) })
	some(8, 1, func() []Op {
		return []Op{{K: "from", S: fmt.Sprintf("t%d", g.id())}}
	})
	if depth > 0 {
		some(15, 2, func() []Op {
			return []Op{{K: "union", B: g.R.IntN(2) == 0, Sub: g.Select(depth - 1)}}
		})
		some(12, 2, func() []Op { return g.with(depth) })
		some(10, 1, func() []Op {
			s, _ := g.frag("s", 0)
			pre, suf := "(", fmt.Sprintf(") AS d%d", g.id())
			if g.R.IntN(4) == 0 {
				pre, suf = "", ""
			}
			return []Op{{K: "select", S: s}, {K: "subquery", S: pre, S2: suf, Sub: g.Select(depth - 1)}}
		})
	}
	if g.R.IntN(30) == 0 { // a limit set over and over, continued in between
		k := []string{"limit", "offset"}[g.R.IntN(2)]
		for range 3 + g.R.IntN(4) {
			b := []Op{{K: k, Args: []any{g.id()}}}
			if g.R.IntN(3) != 0 {
				s, a := g.frag("e", 2)
				b = append(b, Op{K: "expr", S: s, Args: a})
			}
			blocks = append(blocks, b)
		}
	}
	// an expression continues whatever clause was added last
	some(12, 2, func() []Op {
		s, a := g.frag("e", 2)
		return []Op{{K: "expr", S: s, Args: a}}
	})
	g.R.Shuffle(len(blocks), func(i, j int) { blocks[i], blocks[j] = blocks[j], blocks[i] })
	return g.noise(flatten(first(blocks)))
}

// first moves a block that can start a statement to the front.
func first(blocks [][]Op) [][]Op {
	for i, b := range blocks {
		switch b[0].K {
		case "select", "from", "with":
			blocks[0], blocks[i] = blocks[i], blocks[0]
			return blocks
		}
	}
	return blocks
}

func flatten(b [][]Op) []Op {
	var r []Op
	for _, x := range b {
		r = append(r, x...)
	}
	return r
}

func (g *Gen) setOp(row bool, field string) Op {
	k := g.id()
	f := fmt.Sprintf("c%d", k)
	if field != "" {
		f = field
	}
	switch g.R.IntN(4) {
	case 0:
		return Op{K: "setexpr", S: f, S2: fmt.Sprintf("e%d + ?", k), Args: []any{fmt.Sprintf("a%d", k)}, Row: row}
	case 1:
		return Op{K: "setexpr", S: f, S2: fmt.Sprintf("NOW%d", k), Row: row}
	}
	return Op{K: "set", S: f, Args: []any{fmt.Sprintf("a%d", k)}, Row: row}
}

func (g *Gen) tail(depth int, kinds ...string) [][]Op {
	var b [][]Op
	for _, k := range kinds {
		for i := 0; i < 2; i++ {
			if g.R.IntN(3) != 0 {
				continue
			}
			switch k {
			case "where":
				b = append(b, g.whereBlock(depth, "where"))
			case "returning":
				b = append(b, []Op{{K: "returning", S: fmt.Sprintf("r%d", g.id())}})
			case "clause":
				b = append(b, g.clauseBlock(depth))
			case "from":
				b = append(b, []Op{{K: "from", S: fmt.Sprintf("t%d", g.id())}})
			case "with":
				if depth > 0 {
					b = append(b, g.with(depth))
				}
			case "limit":
				b = append(b, []Op{{K: "limit", Args: []any{g.id()}}})
			}
		}
	}
	return b
}

func (g *Gen) insertOps(depth int) []Op {
	head := []Op{{K: "insert", S: fmt.Sprintf("t%d", g.id())}}
	cols := 1 + g.R.IntN(4)
	if g.R.IntN(2) == 0 {
		var blocks [][]Op
		for i := 0; i < cols; i++ {
			blocks = append(blocks, []Op{g.setOp(false, "")})
		}
		blocks = append(blocks, g.tail(depth, "returning", "clause", "with")...)
		g.R.Shuffle(len(blocks), func(i, j int) { blocks[i], blocks[j] = blocks[j], blocks[i] })
		return g.noise(append(head, flatten(blocks)...))
	}
	rows := 1 + g.R.IntN(4)
	var blocks [][]Op
	for i := 0; i < rows; i++ {
		b := []Op{{K: "newrow"}}
		for j := 0; j < cols; j++ {
			b = append(b, g.setOp(true, ""))
		}
		blocks = append(blocks, b)
	}
	blocks = append(blocks, g.tail(depth, "returning", "clause", "with")...)
	g.R.Shuffle(len(blocks), func(i, j int) { blocks[i], blocks[j] = blocks[j], blocks[i] })
	return g.noise(append(head, flatten(blocks)...))
}

func (g *Gen) updateOps(depth int) []Op {
	head := []Op{{K: "update", S: fmt.Sprintf("t%d", g.id())}}
	var blocks [][]Op
	for i := 0; i <= g.R.IntN(4); i++ {
		blocks = append(blocks, []Op{g.setOp(false, "")})
	}
	blocks = append(blocks, g.tail(depth, "where", "from", "returning", "clause", "with")...)
	g.R.Shuffle(len(blocks), func(i, j int) { blocks[i], blocks[j] = blocks[j], blocks[i] })
	return g.noise(append(head, flatten(blocks)...))
}

func (g *Gen) deleteOps(depth int) []Op {
	head := []Op{{K: "delete", S: fmt.Sprintf("t%d", g.id())}}
	blocks := g.tail(depth, "where", "returning", "clause", "with", "limit")
	g.R.Shuffle(len(blocks), func(i, j int) { blocks[i], blocks[j] = blocks[j], blocks[i] })
	return g.noise(append(head, flatten(blocks)...))
}

func (g *Gen) rawOps(depth int) []Op {
	k := g.id()
	op := Op{K: "new", S: fmt.Sprintf("VERB%d", k)}
	if g.R.IntN(4) == 0 {
		op.S = fmt.Sprintf("VERB c%d = ?", k)
		op.Args = []any{fmt.Sprintf("a%d", k)}
	}
	ops := []Op{op}
	for g.R.IntN(2) == 0 {
		s, a := g.frag("e", 1)
		ops = append(ops, Op{K: "expr", S: s, Args: a})
	}
	if depth > 0 && g.R.IntN(3) == 0 {
		pre, suf := "(", ")"
		if g.R.IntN(2) == 0 {
			pre, suf = "", ""
		}
		ops = append(ops, Op{K: "subquery", S: pre, S2: suf, Sub: g.Select(depth - 1)})
	}
	ops = append(ops, flatten(g.tail(depth, "from", "where", "clause", "returning"))...)
	return g.noise(ops)
}

// Kinds lists the operation kinds of a program in order, sub-queries included.
func (p *Prog) Kinds() string {
	var l []string
	for _, o := range p.Ops {
		s := o.K
		if o.Sub != nil {
			s += "[" + o.Sub.Kinds() + "]"
		}
		l = append(l, s)
	}
	return strings.Join(l, " ")
}

// Size counts the operations.
func (p *Prog) Size() int {
	n := len(p.Ops)
	for _, o := range p.Ops {
		if o.Sub != nil {
			n += o.Sub.Size()
		}
	}
	return n
}

// Mix tells which ops carry arguments (for coverage).
func (p *Prog) NArgs() int { return len(p.Model().Args) }

// paginate makes pages of usual and of enormous numbers.
func (g *Gen) paginate() Op {
	o := Op{K: "paginate", N: g.R.IntN(5) - 1, N2: g.R.IntN(30) - 1}
	switch g.R.IntN(6) {
	case 0: // around the limits of 31, 32 and 63 bits
		o.N, o.N2 = 1<<(1+g.R.IntN(31))+g.R.IntN(3)-1, 1<<(1+g.R.IntN(30))+g.R.IntN(3)-1
	case 1:
		o.N = []int{-1 << 63, -1 << 31, 1<<31 - 1, 1 << 31, 1 << 32, 1<<62 + 1}[g.R.IntN(6)]
		o.N2 = []int{-1 << 63, -1 << 31, 0, 1, 1}[g.R.IntN(5)]
	}
	return o
}
