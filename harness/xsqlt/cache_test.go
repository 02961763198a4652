package xsqlt

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/effective-security/xdb/xsql"

	"verif/mon"
	"verif/prog"
)

// scratch is a dialect with an empty cache and the default options, so that a
// statement built in it shows what a build without any history yields.
func scratch() xsql.SQLDialect {
	d := &xsql.Dialect{}
	d.UseNewLines(true)
	return d
}

// uncached returns the text of the program as built with no history at all.
func uncached(p *prog.Prog) string {
	q := p.BuildIn(scratch())
	defer q.Close()
	t := q.String()
	if p.PG() {
		t = prog.Number(t)
	}
	return t
}

// small is an alphabet of calls over few fragments: many different
// statements are made of the same fragments.
func small() []prog.Op {
	return []prog.Op{
		{K: "select", S: "a"}, {K: "select", S: "b"}, {K: "select", S: "a, b"},
		{K: "from", S: "a"}, {K: "from", S: "b"}, {K: "from", S: "a, b"},
		{K: "where", S: "a"}, {K: "where", S: "b = ?", Args: []any{"x"}}, {K: "where", S: "a AND b = ?", Args: []any{"y"}},
		{K: "where", S: `a \? b`}, {K: "where", S: `a \? b`, Args: []any{}},
		{K: "having", S: "a"}, {K: "having", S: "b = ?", Args: []any{"z"}},
		{K: "groupby", S: "a"}, {K: "groupby", S: "b"}, {K: "orderby", Strs: []string{"a"}}, {K: "orderby", Strs: []string{"b"}},
		{K: "expr", S: "a"}, {K: "expr", S: "b"}, {K: "expr", S: "FROM a"},
		{K: "join", S: "b", S2: "a"}, {K: "in", Args: []any{"v"}}, {K: "returning", S: "a"}, {K: "returning", S: "b"},
		{K: "limit", Args: []any{1}}, {K: "offset", Args: []any{2}},
		{K: "clause", S: "a"}, {K: "clause", S: "WHERE a"}, {K: "clause", S: "FROM a"}, {K: "clause", S: "LIMIT ?", Args: []any{3}},
		{K: "clause", S: "RETURNING a"}, {K: "clause", S: "GROUP BY a"}, {K: "clause", S: "SELECT a"}, {K: "clause", S: ", b"},
	}
}

func starts() []prog.Op {
	return []prog.Op{
		{K: "select", S: "a"}, {K: "from", S: "a"}, {K: "update", S: "a"}, {K: "delete", S: "a"},
		{K: "insert", S: "a"}, {K: "new", S: "a"}, {K: "new", S: "SELECT a"}, {K: "new", S: "FROM a"},
	}
}

func TestC03(t *testing.T) {
	mon.Run(t, "C03",
		"a case is one statement rendered after thousands of others made of the same few fragments in other clauses (all sequences up to length 3 or 4 over a small alphabet, random longer ones, all dialects, names); its text is compared with a build in a dialect without history; non-trivial: at least two calls",
		func(m *mon.M) {
			m.Need("rendered", 40000)
			m.Need("fragment_collisions", 2000)
			collide(m)
			random3(m)
			names(m)
			changes(m)
			operators(m)
			mass(m)
		})
}

// bag is the multiset of fragments of a statement without its clause structure.
func bag(text string) string {
	f := strings.FieldsFunc(text, func(r rune) bool { return r == ' ' || r == '\n' || r == ',' })
	n := map[string]int{}
	for _, x := range f {
		n[x]++
	}
	return fmt.Sprint(n)
}

func collide(m *mon.M) {
	var progs []*prog.Prog
	alpha := small()
	for _, d := range []string{"default", "postgres"} {
		for _, s := range starts() {
			for i := range alpha {
				progs = append(progs, &prog.Prog{Dialect: d, Ops: []prog.Op{s, alpha[i]}})
				for j := range alpha {
					progs = append(progs, &prog.Prog{Dialect: d, Ops: []prog.Op{s, alpha[i], alpha[j]}})
				}
			}
		}
	}
	if m.Thorough() {
		for i := range alpha {
			for j := range alpha {
				for k := range alpha {
					for _, s := range starts() {
						progs = append(progs, &prog.Prog{Dialect: "default", Ops: []prog.Op{s, alpha[i], alpha[j], alpha[k]}})
					}
				}
			}
		}
	}
	r := m.Rand("collide", 0)
	seen := map[string]map[string]bool{}
	for pass := 0; pass < 2; pass++ {
		r.Shuffle(len(progs), func(i, j int) { progs[i], progs[j] = progs[j], progs[i] })
		for _, p := range progs {
			for _, nl := range []int{0, 2} {
				if nl == 2 && r.IntN(3) != 0 {
					continue
				}
				p2 := *p
				p2.NL = nl
				checkUncached(m, &p2, seen)
			}
		}
	}
	n := 0
	for _, s := range seen {
		if len(s) > 1 {
			n += len(s)
		}
	}
	m.Count("fragment_collisions", n)
}

func checkUncached(m *mon.M, p *prog.Prog, seen map[string]map[string]bool) {
	m.Guard("render", p, func() {
		want := uncached(p)
		q := p.Build()
		got := q.String()
		if got != want {
			m.Fail("cached-text", "program: %v\n got: %q\nwant: %q", p, got, want)
		}
		q.Invalidate()
		if again := q.String(); again != want {
			m.Fail("cached-text-again", "program: %v\n got: %q\nwant: %q", p, again, want)
		}
		q.Close()
		m.Count("rendered", 1)
		m.Eval(len(p.Ops) > 1, p.String())
		if seen != nil {
			b := p.Dialect + bag(want)
			if seen[b] == nil {
				seen[b] = map[string]bool{}
			}
			seen[b][want] = true
		}
		m.State("texts", p.Dialect, want)
	})
}

func random3(m *mon.M) {
	alpha := small()
	st := starts()
	for i := 0; i < m.N(12000, 200000); i++ {
		r := m.Rand("random", i)
		p := &prog.Prog{Dialect: []string{"default", "postgres", "sqlserver", "package"}[r.IntN(4)], NL: []int{0, 0, 1, 2}[r.IntN(4)]}
		p.Ops = append(p.Ops, st[r.IntN(len(st))])
		for n := r.IntN(7); n > 0; n-- {
			o := alpha[r.IntN(len(alpha))]
			if r.IntN(8) == 0 {
				o = prog.Op{K: "subquery", S: "(", S2: ")", Sub: &prog.Prog{Dialect: p.Dialect, Ops: []prog.Op{st[r.IntN(2)], alpha[r.IntN(11)]}}}
			}
			p.Ops = append(p.Ops, o)
		}
		if i < 3 {
			m.Sample(p.String() + " => " + uncached(p))
		}
		checkUncached(m, p, nil)
	}
	for i := 0; i < m.N(3000, 40000); i++ {
		g := &prog.Gen{R: m.Rand("gen", i)}
		checkUncached(m, g.Program(i%3), nil)
	}
}

// names checks named statements against a map model.
func names(m *mon.M) {
	type key struct{ d, n string }
	first := map[key]string{}
	ds := map[string]xsql.SQLDialect{"default": xsql.NoDialect, "postgres": xsql.Postgres, "sqlserver": xsql.SQLServer}
	dn := []string{"default", "postgres", "sqlserver"}
	for i := 0; i < m.N(6000, 60000); i++ {
		r := m.Rand("names", i)
		d := dn[r.IntN(3)]
		name := fmt.Sprintf("name%d", r.IntN(40+i/20))
		switch r.IntN(9) {
		case 0: // names that look like statement texts
			name = []string{"a", "SELECT a", "SELECT a FROM b", "\nSELECT a", "VACUUM", "\nFROM a"}[r.IntN(6)]
		case 1:
			name = strings.Repeat("n", 1+r.IntN(5))
		}
		g := &prog.Gen{R: r, Simple: true, Quiet: true}
		var p *prog.Prog
		if r.IntN(2) == 0 {
			p = g.Select(0)
		} else {
			p = &prog.Prog{Ops: []prog.Op{starts()[r.IntN(8)], small()[r.IntN(11)]}}
		}
		p.Dialect = d
		k := key{d, name}
		switch r.IntN(4) {
		case 0:
			called := false
			got, gk := ds[d].GetOrCreateQuery(name, func(n string) xsql.Builder {
				called = true
				if n != name {
					m.Fail("create-name", "create was called with name %q instead of %q", n, name)
				}
				return p.Build()
			})
			want, had := first[k]
			if !had {
				want = uncached(p)
				first[k] = want
			}
			if got != want || gk != name || called == had {
				m.Fail("get-or-create", "dialect %s name %q: got %q key %q create called %v; want %q, registered before %v", d, name, got, gk, called, want, had)
			}
		case 1: // look up only
			got, ok := ds[d].GetCachedQuery(name)
			want, had := first[k]
			if ok != had || got != want {
				m.Fail("lookup", "dialect %s name %q: got %q %v want %q %v", d, name, got, ok, want, had)
			}
		case 2: // an unnamed statement is never answered with a named text
			checkUncached(m, p, nil)
		default:
			p.Name = name
			q := p.Build()
			if q.Name() != name {
				m.Fail("name", "Name() is %q after SetName(%q)", q.Name(), name)
			}
			got := q.String()
			want, had := first[k]
			if !had {
				p2 := *p
				p2.Name = ""
				want = uncached(&p2)
				first[k] = want
			}
			if got != want {
				m.Fail("named", "dialect %s name %q: got %q want %q (registered before: %v)", d, name, got, want, had)
			}
			q.Close()
		}
		m.Count("named_steps", 1)
		m.Eval(true, "names", d, name, i)
	}
	m.Count("names_registered", len(first))
}

// changes alternates rendering and changing statements.
func changes(m *mon.M) {
	alpha := small()
	for i := 0; i < m.N(3000, 40000); i++ {
		r := m.Rand("changes", i)
		p := &prog.Prog{Dialect: []string{"default", "postgres", "sqlserver"}[r.IntN(3)]}
		p.Ops = []prog.Op{starts()[r.IntN(8)]}
		q := p.Build()
		for n := 0; n < 6; n++ {
			o := alpha[r.IntN(len(alpha))]
			o.Apply(q, nil, nil)
			p.Ops = append(p.Ops, o)
			got, want := q.String(), uncached(p)
			if got != want {
				m.Fail("stale", "program: %v\n got: %q\nwant: %q", p, got, want)
				break
			}
			if r.IntN(3) == 0 {
				q.Limit(r.IntN(100))
				p.Ops = append(p.Ops, prog.Op{K: "limit", Args: []any{0}})
			}
			m.Count("changes_rendered", 1)
		}
		m.Eval(true, "changes", p.String())
		q.Close()
	}
}

// operators: a fragment without arguments keeps its question marks (they are
// operators of the database), the same fragment with an argument has a
// placeholder there, in whatever order the two are rendered.
func operators(m *mon.M) {
	for i := 0; i < m.N(2000, 20000); i++ {
		r := m.Rand("operators", i)
		c, esc := fmt.Sprintf("o%d", i), r.IntN(2) == 0
		frag, plain, bound := c+" ? 'k'", c+" ? 'k'", c+" $1 'k'"
		if esc {
			frag, plain, bound = `j \? 'z' AND `+frag, `j ? 'z' AND `+plain, `j ? 'z' AND `+bound
		}
		kw := []string{"WHERE", "SELECT", "HAVING", "FROM", "RAW"}[r.IntN(5)]
		build := func(args ...any) xsql.Builder {
			q := xsql.Postgres.New("VERB")
			switch kw {
			case "WHERE":
				return q.Where(frag, args...)
			case "SELECT":
				return xsql.Postgres.Select(frag, args...)
			case "HAVING":
				return q.Having(frag, args...)
			case "FROM":
				return q.From(frag, args...)
			}
			return q.Clause("RAW "+frag, args...)
		}
		head := "VERB\n" + kw + " "
		if kw == "SELECT" {
			head = "SELECT "
		}
		for k := 0; k < 4; k++ {
			q, want := build(), head+plain
			if with := (k+i)%2 == 0; with {
				q.Close()
				q, want = build(k), head+bound
			}
			if got := q.String(); prog.Norm(got) != prog.Norm(want) {
				m.Fail("operator", "fragment %q (%s, %d arguments) after the same fragment was rendered with and without arguments\n got: %q\nwant: %q", frag, kw, len(q.Args()), got, want)
				q.Close()
				return
			}
			q.Close()
		}
		m.Count("operator_texts", 4)
		m.Eval(true, "operators", kw, esc)
	}
}

// mass renders a very large number of small statements in one dialect: texts
// must not be mixed up however many there are.
func mass(m *mon.M) {
	n := m.N(400000, 3000000)
	r := m.Rand("mass", 0)
	sep := []string{"\n", " "}[r.IntN(2)]
	d := &xsql.Dialect{}
	d.UseNewLines(sep == "\n")
	stride := 1 + r.IntN(1<<20)
	for i := 0; i < n; i++ {
		c := strconv.Itoa(i*stride + i)
		q := d.From("t" + c)
		got, want := q.String(), "FROM t"+c
		q.Close()
		if got != want {
			m.Fail("mixed-up", "statement %d of many: got %q want %q", i, got, want)
			break
		}
	}
	m.Count("mass_texts", n)
	m.Need("mass_texts", 100000)
}

// ---- isolation ----

type live struct {
	p    *prog.Prog
	q    xsql.Builder
	desc string
}

func TestC04(t *testing.T) {
	mon.Run(t, "C04",
		"a case is one step of a random history over a pool of live statements (build, change, render, clone, close either side, recycle); after every step every live statement must equal a model of its own calls; non-trivial: the history has clones and recycled statements",
		func(m *mon.M) {
			m.Need("clones", 1000)
			m.Need("closed", 5000)
			m.Need("comparisons", 50000)
			plain := map[string]string{}
			for _, d := range []xsql.SQLDialect{xsql.NoDialect, xsql.Postgres, xsql.SQLServer} {
				for _, nl := range []bool{false, true} {
					plain[fmt.Sprint(d.Provider(), nl)] = optioned(d, nl)
				}
			}
			namedClones(m)
			recycle(m, plain)
			for i := 0; i < m.N(250, 4000) && !m.Failed(); i++ {
				isolate(m, i)
			}
		})
}

func more(g *prog.Gen, p *prog.Prog) prog.Op {
	r := g.R
	g.N++
	k := g.N
	switch r.IntN(11) {
	case 0:
		return prog.Op{K: "where", S: fmt.Sprintf("c%d = ?", k), Args: []any{fmt.Sprintf("a%d", k)}}
	case 1:
		return prog.Op{K: "orderby", Strs: []string{fmt.Sprintf("o%d", k)}}
	case 2:
		return prog.Op{K: "limit", Args: []any{k}}
	case 3:
		return prog.Op{K: "clause", S: fmt.Sprintf("CLAUSE%d", k)}
	case 4:
		return prog.Op{K: "to", Dest: []any{new(string)}}
	case 5:
		return prog.Op{K: "expr", S: fmt.Sprintf("e%d = ?", k), Args: []any{fmt.Sprintf("a%d", k)}}
	case 6:
		return prog.Op{K: "returning", S: fmt.Sprintf("r%d", k)}
	case 7:
		return prog.Op{K: "set", S: fmt.Sprintf("c%d", k), Args: []any{fmt.Sprintf("a%d", k)}}
	case 8:
		return prog.Op{K: "offset", Args: []any{k}}
	case 9:
		return prog.Op{K: "with", S: fmt.Sprintf("q%d", k), Sub: g.Select(0)}
	}
	return prog.Op{K: "select", S: fmt.Sprintf("s%d", k)}
}

func compare(m *mon.M, l *live, when string) bool {
	want := l.p.Model()
	q := l.q
	text := q.String()
	m.Count("comparisons", 1)
	fail := func(fp, f string, a ...any) bool {
		m.Fail(fp, "%s\n%s\nprogram: %v\n%s", when, l.desc, l.p, fmt.Sprintf(f, a...))
		return false
	}
	if got := prog.Norm(text); got != want.Text {
		return fail("text", " got: %s\nwant: %s", got, want.Text)
	}
	if ref := uncached(l.p); ref != text {
		return fail("options", "text differs from a fresh statement's\n got: %q\nwant: %q", text, ref)
	}
	if a := q.Args(); len(a) != len(want.Args) || len(a) > 0 && !reflect.DeepEqual(append([]any{}, a...), append([]any{}, want.Args...)) {
		return fail("args", " got: %v\nwant: %v", a, want.Args)
	}
	if d := q.Dest(); !sameDest(d, want.Dest) {
		return fail("dest", "scan targets differ: got %d want %d", len(d), len(want.Dest))
	}
	if q.Name() != "" && q.Name() != l.p.Name {
		return fail("name", "name is %q want %q", q.Name(), l.p.Name)
	}
	return true
}

func sameDest(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func copyProg(p *prog.Prog) *prog.Prog {
	c := *p
	c.Ops = append([]prog.Op(nil), p.Ops...)
	return &c
}

func isolate(m *mon.M, n int) {
	r := m.Rand("isolate", n)
	g := &prog.Gen{R: r, Dest: true}
	var pool []*live
	var hist []string
	log := func(f string, a ...any) {
		hist = append(hist, fmt.Sprintf(f, a...))
		if len(hist) > 12 {
			hist = hist[1:]
		}
	}
	steps := 60
	// statements in use empty the pool, so that the next ones are brand new
	var hoard []xsql.Builder
	for k := []int{0, 0, 40, 200}[r.IntN(4)]; k > 0; k-- {
		hoard = append(hoard, xsql.From(fmt.Sprintf("hoard%d", k)))
	}
	clones, closed := 0, 0
	for s := 0; s < steps; s++ {
		switch k := r.IntN(10); {
		case k < 3 || len(pool) == 0:
			p := g.Program(r.IntN(2))
			if r.IntN(3) == 0 { // many clauses
				for k := 4 + r.IntN(16); k > 0; k-- {
					p.Ops = append(p.Ops, more(g, p))
				}
			}
			l := &live{p: p}
			if !m.Guard("build", p, func() { l.q = p.Build() }) {
				return
			}
			if l.q.Name() != "" {
				m.Fail("name", "a new statement has the name %q of an earlier one", l.q.Name())
			}
			pool = append(pool, l)
			log("built %d", len(pool)-1)
		case k < 5:
			i := r.IntN(len(pool))
			o := more(g, pool[i].p)
			o.Apply(pool[i].q, nil, nil)
			pool[i].p.Ops = append(pool[i].p.Ops, o)
			log("changed %d with %v", i, o)
		case k < 7 && len(pool) < 12:
			i := r.IntN(len(pool))
			if r.IntN(2) == 0 {
				_ = pool[i].q.String()
			}
			c := &live{p: copyProg(pool[i].p), q: pool[i].q.Clone()}
			pool = append(pool, c)
			clones++
			log("cloned %d to %d", i, len(pool)-1)
		case k < 8:
			i := r.IntN(len(pool))
			pool[i].q.Invalidate()
			_ = pool[i].q.String()
			log("rendered %d", i)
		default:
			i := r.IntN(len(pool))
			if r.IntN(3) == 0 { // named and with options before it is recycled
				pool[i].q.SetName(fmt.Sprintf("n%d.%d", n, s)).UseNewLines(r.IntN(2) == 0).To(new(int))
				_ = pool[i].q.String()
			}
			pool[i].q.Close()
			pool = append(pool[:i], pool[i+1:]...)
			closed++
			log("closed %d", i)
		}
		for i, l := range pool {
			l.desc = fmt.Sprintf("history %d statement %d; last steps: %v", n, i, hist)
			if r.IntN(2) == 0 {
				l.q.Invalidate()
			}
			ok := true
			if !m.Guard("compare", l.p, func() { ok = compare(m, l, fmt.Sprintf("after step %d", s)) }) || !ok {
				return
			}
		}
	}
	for _, l := range pool {
		l.q.Close()
	}
	for i, q := range hoard {
		if got, want := prog.Norm(q.String()), fmt.Sprintf("FROM hoard%d", len(hoard)-i); got != want {
			m.Fail("hoard", "a statement that was left alone has text %q instead of %q", got, want)
		}
		q.Close()
	}
	m.Count("clones", clones)
	m.Count("closed", closed+len(pool))
	m.Eval(clones > 0 && closed > 0, "isolate", n, clones, closed)
	m.State("histories", hist)
	if n < 3 {
		m.Sample(map[string]any{"history": hist, "clones": clones, "closed": closed})
	}
}

// namedClones: the clone of a named statement is its own when it changes.
func namedClones(m *mon.M) {
	for i := 0; i < m.N(2000, 20000); i++ {
		r := m.Rand("named", i)
		g := &prog.Gen{R: r, Dest: true}
		p := g.Program(1)
		p.NL = 0
		var ops []prog.Op
		for _, o := range p.Ops { // the text of a named statement is fixed once it is read
			if o.K != "string" {
				ops = append(ops, o)
			}
		}
		p.Ops = ops
		var q, c xsql.Builder
		ok := m.Guard("named", p, func() {
			q = p.Build()
			q.SetName(fmt.Sprintf("named%d", i))
			if r.IntN(3) != 0 {
				_ = q.String()
			}
			c = q.Clone()
			if r.IntN(2) == 0 {
				q.Close()
			}
			cp := copyProg(p)
			for k := 1 + r.IntN(3); k > 0; k-- {
				o := more(g, cp)
				o.Apply(c, nil, nil)
				cp.Ops = append(cp.Ops, o)
				compare(m, &live{p: cp, q: c, desc: "clone of a named statement, changed"}, "clone")
			}
			c.Close()
		})
		if !ok || m.Failed() {
			return
		}
		m.Count("clones", 1)
		m.Eval(true, "named", p.String())
	}
}

// recycle closes loaded statements and looks at the fresh ones that follow.
func recycle(m *mon.M, plain map[string]string) {
	for i := 0; i < m.N(3000, 30000); i++ {
		r := m.Rand("recycle", i)
		if m.Failed() {
			return
		}
		g := &prog.Gen{R: r, Dest: true}
		old := g.Program(1)
		if i%8 == 0 { // loaded with very many arguments and targets
			for n := 1 << r.IntN(10); n > 0; n-- {
				old.Ops = append(old.Ops, more(g, old))
			}
		}
		q := old.Build()
		q.SetName(fmt.Sprintf("old%d", i)).UseNewLines(rand.N(2) == 0)
		_ = q.String()
		q.Close()
		bare := xsql.New("VERB")
		if len(bare.Args()) != 0 || len(bare.Dest()) != 0 || bare.Name() != "" || bare.String() != "VERB" {
			m.Fail("bare", "after closing %v, a new statement has %d arguments, %d targets, name %q, text %q", old, len(bare.Args()), len(bare.Dest()), bare.Name(), bare.String())
			return
		}
		bare.Close()
		for _, d := range []xsql.SQLDialect{xsql.NoDialect, xsql.Postgres, xsql.SQLServer} {
			// a new statement has the options of its dialect
			nl := r.IntN(2) == 0
			if got, want := optioned(d, nl), plain[fmt.Sprint(d.Provider(), nl)]; got != want {
				m.Fail("options", "after closing %v with other options, a new %s statement is laid out as %q instead of %q", old, d.Provider(), got, want)
			}
			// a clone has the options of its original
			o := d.Select("a")
			o.UseNewLines(i%2 == 0)
			c := o.Clone()
			for _, q := range []xsql.Builder{o, c} {
				q.From("t").Where("x = ?", 1)
			}
			if x, y := o.String(), c.String(); x != y {
				m.Fail("clone-options", "%s: statement %q, its clone %q", d.Provider(), x, y)
			}
			o.Close()
			c.Close()
		}
		p := g.Program(0)
		l := &live{p: p, desc: fmt.Sprintf("after closing %v", old)}
		m.Guard("recycled", p, func() {
			l.q = p.Build()
			compare(m, l, "recycled statement")
			c := l.q.Clone()
			compare(m, &live{p: p, q: c, desc: "clone of a recycled statement"}, "clone")
			// an expression added to the clone goes to the clause it would go to in the original
			o := prog.Op{K: "expr", S: "zz"}
			o.Apply(c, nil, nil)
			p2 := copyProg(p)
			p2.Ops = append(p2.Ops, o)
			compare(m, &live{p: p2, q: c, desc: "clone with one more expression"}, "clone")
			c.Close()
			compare(m, l, "after its clone was closed")
			l.q.Close()
		})
		m.Count("closed", 2)
		m.Count("clones", 1)
		m.Eval(true, "recycle", old.String(), p.String())
	}
}

// optioned is the exact text of a small statement.
func optioned(d xsql.SQLDialect, lines bool) string {
	d.UseNewLines(lines)
	defer d.UseNewLines(true)
	q := d.From("opt").Select("a").Where("b = 1")
	defer q.Close()
	return q.String()
}
