// Package xsqlt monitors the SQL builder.
package xsqlt

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/effective-security/xdb/xsql"

	"verif/mon"
	"verif/prog"
)

// workload feeds programs to f: random ones first, then every permutation of
// small clause sets.
func workload(m *mon.M, f func(p *prog.Prog)) {
	n := m.N(25000, 400000)
	for i := 0; i < n; i++ {
		g := &prog.Gen{R: m.Rand("prog", i), Dest: true}
		p := g.Program(i % 3)
		f(p)
		m.Count("builder_calls", p.Size())
	}
	for i := 0; i < m.N(400, 4000); i++ {
		g := &prog.Gen{R: m.Rand("long", i), Dest: true}
		p := g.Long()
		f(p)
		m.Count("long_programs", 1)
	}
	for _, d := range []string{"default", "postgres", "sqlserver", "package"} {
		permutations(d, func(p *prog.Prog) {
			f(p)
			m.Count("permuted_statements", 1)
		})
	}
	m.Need("builder_calls", 100000)
	m.Need("permuted_statements", 2000)
}

// permutations covers every order of adding a clause set, with and without a
// second fragment for a clause added at the very end.
func permutations(d string, f func(p *prog.Prog)) {
	all := map[string]prog.Op{
		"select":  {K: "select", S: "c1 = ?", Args: []any{"a1"}},
		"from":    {K: "from", S: "t1"},
		"where":   {K: "where", S: "c2 = ?", Args: []any{"a2"}},
		"group":   {K: "groupby", S: "g1"},
		"having":  {K: "having", S: "c3 = ?", Args: []any{"a3"}},
		"order":   {K: "orderby", Strs: []string{"o1", "o2"}},
		"limit":   {K: "limit", Args: []any{901}},
		"offset":  {K: "offset", Args: []any{902}},
		"union":   {K: "union"},
		"with":    {K: "with", S: "q1"},
		"limit2":  {K: "limit", Args: []any{903}},
		"offset2": {K: "offset", Args: []any{904}},
		"where2":  {K: "where", S: "c4 = ?", Args: []any{"a4"}},
		"select2": {K: "select", S: "c5 = ?", Args: []any{"a5"}},
		"union2":  {K: "union", B: true},
	}
	sets := [][]string{
		{"select", "from", "where", "group", "having", "order"},
		{"select", "from", "where", "order", "limit", "offset"},
		{"select", "from", "where", "union", "order", "limit"},
		{"select", "with", "from", "where", "where2", "select2"},
		{"select", "from", "limit", "offset", "limit2", "offset2"},
		{"select", "from", "union", "union2", "order", "where"},
		{"select", "from", "having", "union", "limit", "with"},
	}
	for _, set := range sets {
		perm(len(set), func(ix []int) {
			p := &prog.Prog{Dialect: d}
			for _, i := range ix {
				o := all[set[i]]
				switch o.K {
				case "union":
					n := 6
					if o.B {
						n = 7
					}
					o.Sub = &prog.Prog{Dialect: d, Ops: []prog.Op{
						{K: "from", S: fmt.Sprintf("u%d", n)}, {K: "select", S: fmt.Sprintf("c%d = ?", n), Args: []any{fmt.Sprintf("a%d", n)}}}}
				case "with":
					o.Sub = &prog.Prog{Dialect: d, Ops: []prog.Op{
						{K: "select", S: "c8 = ?", Args: []any{"a8"}}, {K: "from", S: "u8"}}}
				}
				p.Ops = append(p.Ops, o)
			}
			switch p.Ops[0].K {
			case "select", "from", "with":
				f(p)
			}
		})
	}
}

func perm(n int, f func([]int)) {
	ix := make([]int, n)
	used := make([]bool, n)
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(ix)
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				ix[k] = i
				rec(k + 1)
				used[i] = false
			}
		}
	}
	rec(0)
}

func TestC01(t *testing.T) {
	mon.Run(t, "C01",
		"a case is one random or permuted sequence of builder calls (all statement kinds, all dialects, nested sub-queries, CTEs and unions); its SQL text is compared with an independent clause model; non-trivial: at least three clauses",
		func(m *mon.M) {
			workload(m, func(p *prog.Prog) {
				want := p.Model()
				m.Guard("build", p, func() {
					q := p.Build()
					text := q.String()
					if got := prog.Norm(text); got != want.Text {
						m.Fail("text", "program: %v\n got: %s\nwant: %s", p, got, want.Text)
					}
					if strings.TrimSpace(text) != text {
						m.Fail("trim", "program: %v\ntext has leading or trailing white space: %q", p, text)
					}
					if again := q.String(); again != text {
						m.Fail("unstable", "program: %v\nfirst %s\nthen %s", p, text, again)
					}
					q.Close()
				})
				m.Eval(len(p.Ops) >= 3, p.Kinds(), p.Dialect)
				m.State("call_sequences", p.Kinds())
				if p.Size() > 5 {
					m.Sample(p.String() + " => " + want.Text)
				}
			})
			defaults(m)
		})
}

// defaults runs programs through the package functions while some dialect is
// the default one.
func defaults(m *mon.M) {
	defer xsql.SetDialect(xsql.NoDialect)
	var all func(p *prog.Prog)
	all = func(p *prog.Prog) {
		p.Dialect, p.NL = "package", 0
		for _, o := range p.Ops {
			if o.Sub != nil {
				all(o.Sub)
			}
		}
	}
	for n := 0; n < m.N(4000, 40000); n++ {
		g := &prog.Gen{R: m.Rand("defaults", n)}
		p := g.Program(n % 3)
		all(p)
		d := []xsql.SQLDialect{xsql.NoDialect, xsql.Postgres, xsql.SQLServer}[g.R.IntN(3)]
		xsql.SetDialect(d)
		want := p.Model()
		if d == xsql.Postgres {
			p.Dialect = "postgres"
			want = p.Model()
			p.Dialect = "package"
		}
		lines := n%5 != 0
		if nd := xsql.UseNewLines(lines); nd != d {
			m.Fail("default", "the default dialect is %s after it was set to %s", nd.Provider(), d.Provider())
		}
		m.Guard("build", p, func() {
			q := p.Build()
			text := q.String()
			if got := prog.Norm(text); got != want.Text {
				m.Fail("default", "default dialect %s, program: %v\n got: %s\nwant: %s", d.Provider(), p, got, want.Text)
			}
			if a := q.Args(); len(a) != len(want.Args) || len(a) > 0 && !reflect.DeepEqual(a, want.Args) {
				m.Fail("default", "default dialect %s, program: %v\nargs %v, want %v", d.Provider(), p, a, want.Args)
			}
			q.Close()
		})
		xsql.UseNewLines(true)
		m.Count("default_dialects", 1)
		m.Eval(len(p.Ops) >= 3, "default", d.Provider(), p.Kinds())
	}
	m.Need("default_dialects", 3000)
}

var (
	rePG   = regexp.MustCompile(`\$(\d+)`)
	reEq   = regexp.MustCompile(`c(\d+) ?= ?$`)
	rePlus = regexp.MustCompile(`e(\d+) \+ $`)
	reIn   = regexp.MustCompile(`c(\d+) ?IN ?\(((?:[?$0-9]+, ?)*)$`)
)

// placeholders finds the placeholders of a final text.
func placeholders(text string, pg bool) (at []int, num []int) {
	if pg {
		for _, x := range rePG.FindAllStringSubmatchIndex(text, -1) {
			n, _ := strconv.Atoi(text[x[2]:x[3]])
			at = append(at, x[0])
			num = append(num, n)
		}
		return at, num
	}
	for i := 0; i < len(text); i++ {
		if text[i] == '?' && (i == 0 || text[i-1] != '\\') {
			at = append(at, i)
			num = append(num, len(at))
		}
	}
	return at, num
}

func TestC02(t *testing.T) {
	mon.Run(t, "C02",
		"a case is one random or permuted sequence of builder calls; every placeholder of the final text carries a label which names the argument it was supplied with; non-trivial: at least two arguments",
		func(m *mon.M) {
			m.Need("labelled_placeholders", 50000)
			m.Need("escaped_question_marks", 100)
			workload(m, func(p *prog.Prog) { checkArgs(m, p) })
			huge(m)
		})
}

// huge builds statements with more placeholders than 16 bits can count.
func huge(m *mon.M) {
	for i := 0; i < m.N(2, 12); i++ {
		r := m.Rand("huge", i)
		p := &prog.Prog{Dialect: []string{"postgres", "default"}[i%2], Ops: []prog.Op{{K: "from", S: "t1"}}}
		k := 0
		for k < 66000 {
			n := 1 + r.IntN(9000)
			o := prog.Op{K: "in"}
			k++
			c := k
			for j := 0; j < n; j++ {
				o.Args = append(o.Args, fmt.Sprintf("a%d.%d", c, j))
			}
			p.Ops = append(p.Ops, prog.Op{K: "where", S: fmt.Sprintf("c%d", c)}, o)
			k += n
		}
		want := p.Model()
		m.Guard("build", "a statement with many thousands of arguments", func() {
			q := p.Build()
			defer q.Close()
			text := q.String()
			if prog.Norm(text) != want.Text || len(q.Args()) != len(want.Args) {
				at, num := placeholders(text, p.PG())
				for n := range at {
					if num[n] != n+1 {
						m.Fail("numbering", "statement with %d arguments: placeholder %d is numbered %d", len(want.Args), n+1, num[n])
						return
					}
				}
				m.Fail("huge", "statement with %d arguments: %d placeholders, %d arguments", len(want.Args), len(at), len(q.Args()))
				return
			}
			if !reflect.DeepEqual(q.Args(), want.Args) {
				m.Fail("huge", "statement with %d arguments: they are out of order", len(want.Args))
			}
		})
		m.Eval(true, "huge", i)
		m.Count("huge_placeholders", len(want.Args))
	}
}

func checkArgs(m *mon.M, p *prog.Prog) {
	want := p.Model()
	m.Guard("build", p, func() {
		q := p.Build()
		defer q.Close()
		text := q.String()
		args := append([]any(nil), q.Args()...)
		pg := p.PG()
		at, num := placeholders(text, pg)
		if len(at) != len(args) {
			m.Fail("count", "program: %v\ntext: %s\n%d placeholders, %d arguments %v", p, text, len(at), len(args), args)
			return
		}
		same := prog.Norm(text) == want.Text
		for i := range at {
			if num[i] != i+1 {
				m.Fail("numbering", "program: %v\ntext: %s\nplaceholder %d is numbered %d", p, text, i+1, num[i])
				return
			}
			before := text[:at[i]]
			var label string
			if x := reEq.FindStringSubmatch(before); x != nil {
				label = "a" + x[1]
			} else if x := rePlus.FindStringSubmatch(before); x != nil {
				label = "a" + x[1]
			} else if x := reIn.FindStringSubmatch(before); x != nil {
				label = fmt.Sprintf("a%s.%d", x[1], strings.Count(x[2], ","))
			}
			switch {
			case label != "":
				m.Count("labelled_placeholders", 1)
				if args[i] != any(label) {
					m.Fail("wrong-arg", "program: %v\ntext: %s\nargs: %v\nplaceholder %d belongs to %s but gets %v", p, text, args, i+1, label, args[i])
					return
				}
			case same:
				m.Count("positional_placeholders", 1)
				if !reflect.DeepEqual(args[i], want.Args[i]) {
					m.Fail("wrong-arg", "program: %v\ntext: %s\nargs: %v\nwant: %v\nplaceholder %d gets %v", p, text, args, want.Args, i+1, args[i])
					return
				}
			}
		}
		if pg {
			esc := strings.Count(want.Text, "?")
			m.Count("escaped_question_marks", esc)
			if strings.Contains(text, `\?`) || strings.Count(text, "?") != esc {
				m.Fail("escape", "program: %v\ntext: %s\nescaped question marks are not literal ones: want %s", p, text, want.Text)
			}
		}
		m.Eval(len(args) >= 2, p.Kinds(), p.Dialect)
		m.State("placeholder_layouts", p.Kinds(), len(args))
		if len(args) > 3 {
			m.Sample(fmt.Sprintf("%v => %s %v", p, text, args))
		}
	})
}

var _ = xsql.Select
