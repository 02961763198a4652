package schemat

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"
	"time"

	"github.com/effective-security/xdb/schema"

	"verif/catalog"
	"verif/fakedb"
	"verif/mon"
)

// shaped adds references of a chosen shape between the tables.
func shaped(r *rand.Rand, c *catalog.Catalog, shape string) {
	var ts []*catalog.Tab
	for _, t := range c.Tabs {
		if !t.View && len(t.Cols) > 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return
	}
	c.FKs = nil
	link := func(a, b *catalog.Tab) {
		c.FKs = append(c.FKs, catalog.FK{Name: fmt.Sprintf("fk%d", len(c.FKs)), Schema: a.Schema, Table: a.Name, Column: a.Cols[r.IntN(len(a.Cols))].Name,
			RefSchema: b.Schema, RefTable: b.Name, RefColumn: b.Cols[0].Name})
	}
	switch shape {
	case "chain":
		for i := range len(ts) - 1 {
			link(ts[i], ts[i+1])
		}
	case "cycle":
		for i := range ts {
			link(ts[i], ts[(i+1)%len(ts)])
		}
	case "self":
		for _, t := range ts {
			link(t, t)
		}
	case "complete":
		for _, a := range ts {
			for _, b := range ts {
				if len(c.FKs) < 60 {
					link(a, b)
				}
			}
		}
	case "star":
		for _, t := range ts[1:] {
			link(ts[0], t)
		}
	case "tree":
		for i := range ts {
			for _, j := range []int{2*i + 1, 2*i + 2} {
				if j < len(ts) {
					link(ts[i], ts[j])
				}
			}
		}
	case "two columns":
		for i := range len(ts) - 1 {
			link(ts[i], ts[i+1])
			link(ts[i], ts[r.IntN(len(ts))])
			link(ts[i+1], ts[i])
		}
	case "ghost":
		for i := range len(ts) - 1 {
			link(ts[i], ts[i+1])
		}
		a := ts[r.IntN(len(ts))]
		c.FKs = append(c.FKs, catalog.FK{Name: "to_ghost", Schema: a.Schema, Table: a.Name, Column: a.Cols[0].Name, RefSchema: "hidden", RefTable: "ghost", RefColumn: "id"})
	}
	r.Shuffle(len(c.FKs), func(i, j int) { c.FKs[i], c.FKs[j] = c.FKs[j], c.FKs[i] })
}

func TestC26(t *testing.T) {
	mon.Run(t, "C26", "a listing with dependencies over a random reference graph", func(m *mon.M) {
		shapes := []string{"random", "random", "chain", "cycle", "self", "complete", "star", "tree", "two columns", "ghost", "clash"}
		for n := 0; n < m.N(1500, 25000) && !m.Failed(); n++ {
			r := m.Rand("deps", n)
			kind := []string{"postgres", "sqlserver"}[n%2]
			shape := shapes[r.IntN(len(shapes))]
			tables := 1 + r.IntN(10)
			if n%200 == 7 {
				tables, shape = 400, "chain"
			} else if n%100 == 11 || n%100 == 52 { // most tables are selected, the rest is reached through them
				tables, shape = 200+r.IntN(200), []string{"random", "chain", "tree", "two columns"}[r.IntN(4)]
			}
			o := catalog.Options{Kind: kind, MaxTables: tables, Views: r.IntN(3) == 0, FKs: 1 + r.IntN(max(14, tables)), Ugly: true, Empty: r.IntN(3) == 0, Clash: shape == "clash"}
			c := catalog.Gen(r, o)
			if shape != "random" && shape != "clash" {
				shaped(r, c, shape)
			}
			s := serve(r, c, r.IntN(2) == 0)
			p := schema.NewProvider(s.db, kindName(r, kind))
			refs := refsOf(c)
			ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
			all := []*catalog.Catalog{c}
			for i := 0; i < 4 && !m.Failed(); i++ {
				if i > 0 && len(c.Tabs) < 100 && r.IntN(6) == 0 { // the same provider, another catalog
					c = catalog.Evolve(r, o, c)
					s.cat, all, refs = c, append(all, c), refsOf(c)
					m.Count("altered", 1)
				}
				fs, ft := filters(r, c)
				if len(c.Tabs) > 100 && i < 2 {
					fs, ft = nil, nil
					for _, t := range c.Tabs {
						if r.IntN(3) != 0 {
							ft = append(ft, t.Name)
						}
					}
				}
				what := fmt.Sprintf("%s over %s, shape %s, %d tables, schemas %q tables %q, step %d, keys %v", kind, s.kind, shape, len(c.Tabs), fs, ft, i, c.FKs)
				if r.IntN(5) == 0 { // another listing in between leaves no trace
					switch r.IntN(3) {
					case 0:
						_, _ = p.ListViews(ctx, nil, nil)
					case 1:
						_, _ = p.ListForeignKeys(ctx, fs, nil)
					default:
						_, _ = p.ListTables(ctx, nil, nil, false)
					}
				}
				var sel []*catalog.Tab
				for _, x := range c.Tabs {
					if !x.View && fold(fs, x.Schema) && fold(ft, x.Name) {
						sel = append(sel, x)
					}
				}
				want := closure(c, sel)
				before := s.queries.Load()
				got, err := p.ListTables(ctx, fs, ft, true)
				if err != nil {
					m.Fail("error", "%s: %v", what, err)
					continue
				}
				if msg := sameTables(kind, got, want, refs, c.ByText[catalog.Indexes] == 0); msg != "" {
					m.Fail("dependencies", "%s: %s", what, msg)
				}
				m.Count("listings", 1)
				m.Count("discovered tables", len(want)-len(sel))
				spoilTables(r, got)
				m.Count("queries", int(s.queries.Load()-before))
				m.State("graph", shape, len(sel), len(want))
				m.Eval(len(want) > len(sel), n, i)
			}
			cancel()
			if msg := s.close(); msg != "" {
				m.Fail("released", "%s over %s: %s", kind, s.kind, msg)
			}
			for _, c := range all {
				c.Close()
			}
		}
		m.Need("listings", 1000)
		m.Need("altered", 100)
		m.Need("discovered tables", 500)
	})
}

var errCatalog = errors.New("injected: catalog failure")

func TestC27(t *testing.T) {
	mon.Run(t, "C27", "a listing during which the database fails", func(m *mon.M) {
		faults := []string{"query", "fetch", "scan", "columns", "cancel", "conn"}
		for n := 0; n < m.N(150, 2500) && !m.Failed(); n++ {
			r := m.Rand("fault", n)
			kind := []string{"postgres", "sqlserver"}[n%2]
			c := catalog.Gen(r, catalog.Options{Kind: kind, MaxTables: 1 + r.IntN(4), Views: true, FKs: 1 + r.IntN(5)})
			type listing struct {
				name string
				run  func(ctx context.Context, p schema.Provider) (any, int, error)
			}
			fs, ft := filters(r, c)
			if r.IntN(2) == 0 {
				fs, ft = nil, nil
			}
			ls := []listing{
				{"tables", func(ctx context.Context, p schema.Provider) (any, int, error) {
					l, err := p.ListTables(ctx, fs, ft, false)
					return l, len(l), err
				}},
				{"tables with dependencies", func(ctx context.Context, p schema.Provider) (any, int, error) {
					l, err := p.ListTables(ctx, fs, ft, true)
					return l, len(l), err
				}},
				{"views", func(ctx context.Context, p schema.Provider) (any, int, error) {
					l, err := p.ListViews(ctx, fs, ft)
					return l, len(l), err
				}},
				{"foreign keys", func(ctx context.Context, p schema.Provider) (any, int, error) {
					l, err := p.ListForeignKeys(ctx, fs, ft)
					return l, len(l), err
				}},
			}
			for _, l := range ls {
				// how many queries does it take?
				s := serve(r, c, true)
				okCtx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
				var good string
				m.Guard("panic", l.name, func() {
					v, _, err := l.run(okCtx, schema.NewProvider(s.db, kind))
					if err != nil {
						m.Fail("error", "%s %s over one connection (%s): %v", kind, l.name, s.kind, err)
					}
					good = dump(v)
				})
				cancel()
				total := int(s.queries.Load())
				if msg := s.close(); msg != "" {
					m.Fail("released", "%s %s: %s", kind, l.name, msg)
				}
				if m.Failed() {
					break
				}
				// fail each of them in every way
				for at := 1; at <= total && !m.Failed(); at++ {
					for _, f := range faults {
						s := serve(r, c, true)
						ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
						hit, must := false, true
						what := ""
						s.fault = func(q int, qk string, res *fakedb.Result) error {
							if q != at || hit {
								return nil
							}
							hit = true
							what = qk
							switch f {
							case "query":
								return fakedb.Odd(errCatalog, r.IntN(9))
							case "conn":
								return driver.ErrBadConn
							case "fetch":
								res.Err, res.FailAt = fakedb.Odd(errCatalog, r.IntN(9)), r.IntN(len(res.Rows)+1)
							case "scan":
								if len(res.Rows) == 0 {
									must = false
									return nil
								}
								i := r.IntN(len(res.Rows))
								row := append([]driver.Value(nil), res.Rows[i]...)
								switch qk {
								case catalog.Tables, catalog.FKeys:
									row[r.IntN(len(row))] = nil
								case catalog.Columns:
									row[[]int{0, 1, 3, 5}[r.IntN(4)]] = nil
								case catalog.Views:
									row[[]int{0, 1, 2, 5, 7}[r.IntN(5)]] = nil
								case catalog.Indexes:
									k := r.IntN(4)
									row[k] = nil
								}
								res.Rows = append([][]driver.Value(nil), res.Rows...)
								res.Rows[i] = row
							case "columns":
								// one column more than expected
								res.Cols = append(append([]string(nil), res.Cols...), "extra")
								for i, row := range res.Rows {
									res.Rows[i] = append(append([]driver.Value(nil), row...), int64(1))
								}
								must = len(res.Rows) > 0
							case "cancel":
								cancel()
								must = false
							}
							return nil
						}
						p := schema.NewProvider(s.db, kind)
						id := func() string {
							return fmt.Sprintf("%s %s over %s, fault %q at query %d (%s) of %d, schemas %q tables %q", kind, l.name, s.kind, f, at, what, total, fs, ft)
						}
						if f == "conn" && (s.kind == "db" || s.kind == "provider") {
							must = false // database/sql tries again
						}
						m.Guard("panic", id(), func() {
							v, n, err := l.run(ctx, p)
							switch {
							case err == nil && must:
								m.Fail("hidden", "%s: no error, %d entries", id(), n)
							case err != nil && n != 0:
								m.Fail("partial", "%s: error %v and %d entries", id(), err, n)
							case err == nil && f != "cancel" && dump(v) != good:
								m.Fail("wrong", "%s: success with %s, want %s", id(), dump(v), good)
							case err == nil && f == "cancel" && dump(v) != good:
								m.Fail("shortened", "%s: success with %s, want %s", id(), dump(v), good)
							case err != nil && (f == "query" || f == "fetch") && !errors.Is(err, errCatalog):
								m.Fail("cause", "%s: error %v does not name its cause", id(), err)
							}
							if err != nil {
								m.Count("errors reported", 1)
							}
							// the provider recovers
							if s.kind == "db" || s.kind == "provider" || s.kind == "tx" && f != "cancel" && f != "conn" {
								c2, cancel2 := context.WithTimeout(context.Background(), 30*time.Second)
								v, _, err := l.run(c2, p)
								cancel2()
								if err != nil || dump(v) != good {
									m.Fail("after", "%s: afterwards %v %s, want %s", id(), err, dump(v), good)
								}
								m.Count("repeated", 1)
							}
						})
						cancel()
						if !hit {
							m.Fail("harness", "%s: the fault was not reached", id())
						}
						if msg := s.close(); msg != "" {
							m.Fail("released", "%s: %s", id(), msg)
						}
						m.Count("fault "+f+" at "+what, 1)
						m.State("cell", kind, l.name, f, what, min(at, 4), s.kind)
						m.Eval(true, n, l.name, at, f)
					}
				}
			}
			c.Close()
		}
		for _, name := range []string{"oracle", "", "sqlite3", "Postgres"} {
			p := schema.NewProvider(fakedb.New(fakedb.Hooks{}).SQL(), name)
			for i := range 4 {
				m.Guard("unsupported-panic", name, func() {
					var err error
					var n int
					switch i {
					case 0:
						var l schema.Tables
						l, err = p.ListTables(context.Background(), nil, nil, false)
						n = len(l)
					case 1:
						var l schema.Tables
						l, err = p.ListTables(context.Background(), nil, nil, true)
						n = len(l)
					case 2:
						var l schema.Tables
						l, err = p.ListViews(context.Background(), nil, nil)
						n = len(l)
					case 3:
						var l schema.ForeignKeys
						l, err = p.ListForeignKeys(context.Background(), nil, nil)
						n = len(l)
					}
					if err == nil || n != 0 {
						m.Fail("unsupported", "database kind %q: %d entries, error %v", name, n, err)
					}
				})
			}
		}
		m.Need("errors reported", 500)
		for _, q := range []string{catalog.Tables, catalog.Columns, catalog.Indexes, catalog.FKeys} {
			for _, f := range []string{"query", "fetch", "scan"} {
				m.Need("fault "+f+" at "+q, 20)
			}
		}
	})
}

// dump renders a listing completely.
func dump(v any) string {
	var b strings.Builder
	switch l := v.(type) {
	case schema.Tables:
		for _, t := range l {
			fmt.Fprintf(&b, "%s.%s %s %v pk=%s\n", t.Schema, t.Name, t.Type, t.IsView, t.PrimaryKeyName())
			for _, c := range t.Columns {
				fmt.Fprintf(&b, "  %s %s %v", c.StructString(), c.SchemaName, c.Indexes.Names())
				if c.Ref != nil {
					fmt.Fprintf(&b, " ref=%+v", *c.Ref)
				}
				b.WriteString("\n")
			}
			for _, i := range t.Indexes {
				fmt.Fprintf(&b, "  %+v\n", *i)
			}
		}
	case schema.ForeignKeys:
		for _, k := range l {
			fmt.Fprintf(&b, "%+v\n", *k)
		}
	}
	return b.String()
}
