package sqlitet

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/effective-security/xdb/xsql"
)

// call is one builder call, with its text for reports.
type call struct {
	what string
	do   func(q xsql.Builder)
	// start begins a statement with this call, when it can
	start func(d xsql.SQLDialect) xsql.Builder
}

// builder turns model queries into builder calls.
type builder struct {
	r  *rand.Rand
	d  xsql.SQLDialect
	pg bool
	// subd picks the dialect of sub-queries: any may be used
	log []string
}

func (b *builder) expr(f func(*sqlw)) (string, []any) {
	s := &sqlw{pg: b.pg}
	f(s)
	args := make([]any, len(s.args))
	for i, a := range s.args {
		args[i] = b.argForm(a)
	}
	return s.b.String(), args
}

// argForm passes the same value as different Go types.
func (b *builder) argForm(v any) any {
	switch x := v.(type) {
	case int64:
		switch b.r.IntN(4) {
		case 0:
			return int(x)
		case 1:
			return int32(x)
		case 2:
			return &x
		}
		return x
	case string:
		if b.r.IntN(4) == 0 {
			return &x
		}
		return x
	}
	return v
}

func (b *builder) mk(what string, do func(q xsql.Builder)) call {
	return call{what: what, do: do}
}

// merge interleaves groups of calls keeping the order within each group.
func merge(r *rand.Rand, groups ...[]call) []call {
	var out []call
	for {
		total := 0
		for _, g := range groups {
			total += len(g)
		}
		if total == 0 {
			return out
		}
		n := r.IntN(total)
		for i, g := range groups {
			if n < len(g) {
				out = append(out, g[0])
				groups[i] = g[1:]
				break
			}
			n -= len(g)
		}
	}
}

func (b *builder) selectCalls(q *query, dests []any) []call {
	var out []call
	if dests != nil && b.r.IntN(3) == 0 {
		// all targets in one call at the end
		out = b.selectItems(q, nil)
		return append(out, b.mk(fmt.Sprintf("To(%d)", len(dests)), func(s xsql.Builder) { s.To(dests...) }))
	}
	return b.selectItems(q, dests)
}

func (b *builder) selectItems(q *query, dests []any) []call {
	var out []call
	for i := 0; i < len(q.items); {
		it := q.items[i]
		n := 1
		if sc, ok := it.e.(scalar); ok && it.agg == "" && i > 0 && b.r.IntN(2) == 0 {
			sub := b.nested(sc.q)
			suffix := ")"
			if it.alias != "" {
				suffix += " AS " + it.alias
			}
			g := glue(&out, b.mk("SubQuery((..))", func(s xsql.Builder) { s.SubQuery("(", suffix, sub()) }))
			out = append(out, g)
		} else {
			if i+1 < len(q.items) && b.r.IntN(3) == 0 {
				n = 2
			}
			txt, args := b.expr(func(s *sqlw) {
				for k := 0; k < n; k++ {
					if k > 0 {
						s.w(", ")
					}
					x := q.items[i+k]
					x.sql(s)
					if x.alias != "" {
						s.w(" AS %s", x.alias)
					}
				}
			})
			c := b.mk(fmt.Sprintf("Select(%q,%v)", txt, args), func(s xsql.Builder) { s.Select(txt, args...) })
			c.start = func(d xsql.SQLDialect) xsql.Builder { return d.Select(txt, args...) }
			if i > 0 && b.r.IntN(4) == 0 && len(out) > 0 {
				// Expr extends the clause just added
				c = b.mk(fmt.Sprintf("Expr(%q,%v)", txt, args), func(s xsql.Builder) { s.Expr(txt, args...) })
				g := glue(&out, c)
				out = append(out, g)
			} else {
				out = append(out, c)
			}
		}
		if dests != nil {
			dd := dests[i : i+n]
			last := &out[len(out)-1]
			prev := *last
			*last = call{what: prev.what + ".To", do: func(s xsql.Builder) { prev.do(s); s.To(dd...) }}
			if prev.start != nil {
				last.start = func(d xsql.SQLDialect) xsql.Builder { s := prev.start(d); s.To(dd...); return s }
			}
		}
		i += n
	}
	return out
}

// glue removes the last call from out and returns it joined with c, so that
// nothing comes between them.
func glue(out *[]call, c call) call {
	l := *out
	prev := l[len(l)-1]
	*out = l[:len(l)-1]
	j := call{what: prev.what + "." + c.what, do: func(s xsql.Builder) { prev.do(s); c.do(s) }}
	if prev.start != nil {
		j.start = func(d xsql.SQLDialect) xsql.Builder { s := prev.start(d); c.do(s); return s }
	}
	return j
}

// nested prepares a sub-query through the builder; sub-queries may be made in
// any dialect.
func (b *builder) nested(q *query) func() xsql.Builder {
	d := b.d
	if !b.pg {
		// escaped text differs between dialects, so others stay unescaped
		if b.r.IntN(2) == 0 {
			d = xsql.SQLServer
		}
	} else if b.r.IntN(2) == 0 {
		d = xsql.NoDialect
	}
	mk := b.prepare(q, nil)
	return func() xsql.Builder { return mk(d) }
}

func (b *builder) whereCalls(where []ex) []call {
	var out []call
	for i, p := range where {
		switch x := p.(type) {
		case inlist:
			if b.r.IntN(2) == 0 {
				txt, args := b.expr(func(s *sqlw) {
					x.a.sql(s)
					if x.not {
						s.w(" NOT")
					}
				})
				var in []any
				for _, v := range x.vals {
					in = append(in, b.argForm(v))
				}
				out = append(out, b.mk(fmt.Sprintf("Where(%q,%v).In(%v)", txt, args, in), func(s xsql.Builder) { s.Where(txt, args...).In(in...) }))
				continue
			}
		case insub:
			if b.r.IntN(2) == 0 && len(where) > 0 {
				if _, ok := x.a.(col); ok {
					sub := b.nested(x.q)
					txt, _ := b.expr(x.head)
					c := b.mk(fmt.Sprintf("SubQuery(%q)", txt), func(s xsql.Builder) { s.SubQuery(txt, ")", sub()) })
					if i == 0 {
						c2 := c
						c = b.mk("Where(1=1)."+c.what, func(s xsql.Builder) { s.Where("1=1"); c2.do(s) })
						out = append(out, c)
					} else {
						g := glue(&out, c)
						out = append(out, g)
					}
					continue
				}
			}
		case and2:
			// two calls mean the same as one with AND
			if b.r.IntN(2) == 0 {
				out = append(out, b.whereCalls([]ex{x.a, x.b})...)
				continue
			}
		}
		txt, args := b.expr(p.sql)
		out = append(out, b.mk(fmt.Sprintf("Where(%q,%v)", txt, args), func(s xsql.Builder) { s.Where(txt, args...) }))
	}
	return out
}

func (b *builder) fromCalls(q *query) []call {
	var out []call
	var c call
	if q.sub != nil {
		sub := b.nested(q.sub)
		c = b.mk("From().SubQuery", func(s xsql.Builder) { s.From("").SubQuery("(", ") AS "+q.alias, sub()) })
		c.start = func(d xsql.SQLDialect) xsql.Builder {
			s := d.From("")
			s.SubQuery("(", ") AS "+q.alias, sub())
			return s
		}
	} else {
		txt := q.from
		if q.alias != "" && q.alias != q.from {
			txt += " " + q.alias
		}
		c = b.mk(fmt.Sprintf("From(%q)", txt), func(s xsql.Builder) { s.From(txt) })
		c.start = func(d xsql.SQLDialect) xsql.Builder { return d.From(txt) }
	}
	out = append(out, c)
	for _, j := range q.joins {
		on, _ := b.expr(j.on.sql)
		t := j.tab
		if j.alias != j.tab {
			t += " " + j.alias
		}
		out = append(out, b.mk(fmt.Sprintf("%s(%q,%q)", j.kind, t, on), func(s xsql.Builder) {
			switch j.kind {
			case "Join":
				s.Join(t, on)
			case "LeftJoin":
				s.LeftJoin(t, on)
			case "RightJoin":
				s.RightJoin(t, on)
			case "FullJoin":
				s.FullJoin(t, on)
			}
		}))
	}
	return out
}

// prepare returns a constructor that performs the calls in a random order.
func (b *builder) prepare(q *query, dests []any) func(xsql.SQLDialect) xsql.Builder {
	sel := b.selectCalls(q, dests)
	from := b.fromCalls(q)
	where := b.whereCalls(q.where)
	var group, having, ord, lim, with, uni []call
	for _, g := range q.group {
		txt, _ := b.expr(g.sql)
		group = append(group, b.mk(fmt.Sprintf("GroupBy(%q)", txt), func(s xsql.Builder) { s.GroupBy(txt) }))
	}
	if q.having != nil {
		txt, _ := b.expr(q.having.it.sql)
		txt += " " + q.having.op + " ?"
		v := b.argForm(q.having.val)
		having = append(having, b.mk(fmt.Sprintf("Having(%q,%v)", txt, v), func(s xsql.Builder) { s.Having(txt, v) }))
	}
	var obs []string
	for i, o := range q.order {
		t := fmt.Sprint(o.ord)
		if o.desc {
			t += " DESC"
		}
		obs = append(obs, t)
		if i == len(q.order)-1 || b.r.IntN(2) == 0 {
			l := obs
			obs = nil
			ord = append(ord, b.mk(fmt.Sprintf("OrderBy(%q)", l), func(s xsql.Builder) { s.OrderBy(l...) }))
		}
	}
	if q.limit >= 0 {
		if q.limit > 0 && q.offset%q.limit == 0 && b.r.IntN(2) == 0 {
			pg := q.offset/q.limit + 1
			lim = append(lim, b.mk(fmt.Sprintf("Paginate(%d,%d)", pg, q.limit), func(s xsql.Builder) { s.Paginate(pg, q.limit) }))
		} else {
			if b.r.IntN(4) == 0 {
				// a later limit replaces the earlier one
				lim = append(lim, b.mk("Limit(9999)", func(s xsql.Builder) { s.Limit(9999) }))
			}
			lim = append(lim, b.mk(fmt.Sprintf("Limit(%d)", q.limit), func(s xsql.Builder) { s.Limit(q.limit) }))
			if q.offset > 0 {
				oc := b.mk(fmt.Sprintf("Offset(%d)", q.offset), func(s xsql.Builder) { s.Offset(q.offset) })
				if b.r.IntN(2) == 0 {
					lim = append([]call{oc}, lim...)
				} else {
					lim = append(lim, oc)
				}
			}
		}
	}
	for i, c := range q.ctes {
		sub := b.nested(c.q)
		x := b.mk(fmt.Sprintf("With(%q)", c.name), func(s xsql.Builder) { s.With(c.name, sub()) })
		if i == 0 {
			x.start = func(d xsql.SQLDialect) xsql.Builder { return d.With(c.name, sub()) }
		}
		with = append(with, x)
	}
	for _, u := range q.unions {
		sub := b.nested(u.q)
		uni = append(uni, b.mk(fmt.Sprintf("Union(%v)", u.all), func(s xsql.Builder) { s.Union(u.all, sub()) }))
	}
	var calls []call
	for {
		core := merge(b.r, clone(sel), clone(from), clone(where), clone(group), clone(having))
		calls = merge(b.r, append(core, clone(uni)...), clone(ord), clone(lim), clone(with))
		if calls[0].start != nil {
			break
		}
		if b.r.IntN(3) == 0 {
			// begin with a call that can start a statement
			for i, c := range calls {
				if c.start != nil {
					calls = append([]call{c}, append(clone(calls[:i]), calls[i+1:]...)...)
					break
				}
			}
			break
		}
	}
	// a moved start call must not overtake earlier calls of its own group: the
	// first startable call is always the first of its group.
	var names []string
	for _, c := range calls {
		names = append(names, c.what)
	}
	b.log = append(b.log, strings.Join(names, "."))
	return func(d xsql.SQLDialect) xsql.Builder {
		s := calls[0].start(d)
		for _, c := range calls[1:] {
			c.do(s)
		}
		return s
	}
}

func clone(c []call) []call { return append([]call(nil), c...) }
