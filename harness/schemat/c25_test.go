// Package schemat monitors schema listing, discovery, table descriptions and printing.
package schemat

import (
	"context"
	"database/sql"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sync/atomic"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/schema"

	"verif/catalog"
	"verif/fakedb"
	"verif/mon"
)

// server serves a catalog through database/sql.
type server struct {
	cat  *catalog.Catalog
	fdb  *fakedb.DB
	sdb  *sql.DB
	db   xdb.DB
	kind string
	done func()
	// faults
	queries atomic.Int64
	fault   func(n int, kind string, res *fakedb.Result) error
}

// serve hands rows out in the order shuffled by r.
func serve(r *rand.Rand, cat *catalog.Catalog, single bool) *server {
	s := &server{cat: cat}
	seed := r.Uint64()
	s.fdb = fakedb.New(fakedb.Hooks{Named: true, Query: func(ctx context.Context, q string, args []any) (*fakedb.Result, error) {
		n := int(s.queries.Add(1))
		kind, cols, rows, err := s.cat.Answer(q, args)
		if err != nil {
			return nil, err
		}
		rows = catalog.Shuffle(rand.New(rand.NewPCG(seed, uint64(n))), rows)
		res := &fakedb.Result{Cols: cols, Rows: rows}
		if s.fault != nil {
			if err := s.fault(n, kind, res); err != nil {
				return nil, err
			}
		}
		return res, nil
	}}).Quiet()
	s.sdb = s.fdb.SQL()
	if single {
		s.sdb.SetMaxOpenConns(1)
	}
	switch r.IntN(4) {
	case 0:
		tx, err := s.sdb.Begin()
		if err != nil {
			panic(err)
		}
		s.db, s.kind, s.done = tx, "tx", func() { _ = tx.Rollback() }
	case 1:
		p, err := xdb.New(cat.Kind, s.sdb, nil)
		if err != nil {
			panic(err)
		}
		s.db, s.kind, s.done = p, "provider", func() { _ = p.Close() }
	case 2:
		c, err := s.sdb.Conn(context.Background())
		if err != nil {
			panic(err)
		}
		s.db, s.kind, s.done = c, "conn", func() { _ = c.Close() }
	default:
		s.db, s.kind, s.done = s.sdb, "db", func() {}
	}
	return s
}

// close reports what stayed occupied.
func (s *server) close() string {
	end := time.Now().Add(5 * time.Second)
	for s.fdb.OpenRows() != 0 && time.Now().Before(end) {
		time.Sleep(100 * time.Microsecond)
	}
	n := s.fdb.OpenRows()
	s.done()
	for s.sdb.Stats().InUse != 0 && time.Now().Before(end) {
		time.Sleep(100 * time.Microsecond)
	}
	u := s.sdb.Stats().InUse
	_ = s.sdb.Close()
	if n != 0 || u != 0 {
		return fmt.Sprintf("%d result sets open, %d connections in use", n, u)
	}
	return ""
}

func kindName(r *rand.Rand, kind string) string {
	if kind == "sqlserver" && r.IntN(2) == 0 {
		return "mssql"
	}
	return kind
}

// spoilTables changes a result now and then: it belongs to the caller.
func spoilTables(r *rand.Rand, l schema.Tables) {
	if r.IntN(3) != 0 {
		return
	}
	for _, t := range l {
		for _, c := range t.Columns {
			c.Name, c.Type, c.Nullable, c.Indexes, c.Ref = "spoiled", "spoiled", !c.Nullable, nil, nil
		}
		for _, x := range t.Indexes {
			for i := range x.ColumnNames {
				x.ColumnNames[i] = "spoiled"
			}
		}
		t.Name, t.PrimaryKey = "spoiled", nil
	}
	clear(l)
}

func TestC25(t *testing.T) {
	mon.Run(t, "C25", "a listing of a random catalog under random filters and row orders", func(m *mon.M) {
		ctx := context.Background()
		for n := 0; n < m.N(2500, 40000) && !m.Failed(); n++ {
			r := m.Rand("list", n)
			kind := []string{"postgres", "sqlserver"}[n%2]
			o := catalog.Options{Kind: kind, MaxTables: 1 + r.IntN(12), Views: true, FKs: 1 + r.IntN(10), Ugly: true, Empty: r.IntN(2) == 0, Clash: r.IntN(3) == 0, Large: r.IntN(4) == 0}
			if n%500 == 3 || n%500 == 6 { // thousands of tables
				o.MaxTables, o.Large, o.FKs = 2600, false, 2000
			}
			c := catalog.Gen(r, o)
			for len(c.Tabs) < 1000 && o.MaxTables > 1000 {
				c = catalog.Gen(r, o)
			}
			s := serve(r, c, r.IntN(2) == 0)
			p := schema.NewProvider(s.db, kindName(r, kind))
			ordered := func() bool { return c.ByText[catalog.Indexes] == 0 }
			all := []*catalog.Catalog{c}
			for i := 0; i < 5 && !m.Failed(); i++ {
				if i > 0 && len(c.Tabs) < 100 && r.IntN(8) == 0 { // the same provider, another catalog
					c = catalog.Evolve(r, o, c)
					s.cat, all = c, append(all, c)
					m.Count("altered", 1)
				}
				if r.IntN(4) == 0 {
					p = schema.NewProvider(s.db, kindName(r, kind))
				}
				fs, ft := filters(r, c)
				fs0, ft0 := append([]string(nil), fs...), append([]string(nil), ft...)
				what := fmt.Sprintf("%s over %s, schemas %q tables %q, catalog %d", kind, s.kind, fs, ft, len(all))
				switch op := r.IntN(5); op {
				case 0, 1, 4:
					view := op == 1
					var want []*catalog.Tab
					for _, x := range c.Tabs {
						if x.View == view && fold(fs, x.Schema) && fold(ft, x.Name) {
							want = append(want, x)
						}
					}
					var got schema.Tables
					var err error
					if view {
						got, err = p.ListViews(ctx, fs, ft)
					} else {
						got, err = p.ListTables(ctx, fs, ft, false)
					}
					if err != nil {
						m.Fail("error", "%s: %v", what, err)
						continue
					}
					for _, g := range got {
						if !view && c.Find(g.Schema, g.Name) != nil && g.Type != c.Find(g.Schema, g.Name).Type {
							m.Fail("type", "%s: %s is a %q", what, g.SchemaName, g.Type)
						}
					}
					if msg := sameTables(kind, got, want, nil, ordered()); msg != "" {
						m.Fail(map[bool]string{true: "views", false: "tables"}[view], "%s: %s", what, msg)
					}
					m.Count(map[bool]string{true: "views", false: "tables"}[view], len(want))
					spoilTables(r, got)
					for _, w := range want {
						if len(w.Cols) == 0 {
							m.Count("without columns", 1)
						}
						if w.Part && len(w.Idx) > 0 {
							m.Count("partitioned", 1)
						}
					}
					m.Eval(len(want) > 0, n, i)
				case 2, 3:
					var want []catalog.FK
					for _, f := range c.FKs {
						if fold(fs, f.Schema) && fold(ft, f.Table) {
							want = append(want, f)
						}
					}
					got, err := p.ListForeignKeys(ctx, fs, ft)
					if err != nil {
						m.Fail("error", "%s: %v", what, err)
						continue
					}
					if msg := sameFKs(got, want); msg != "" {
						m.Fail("fkeys", "%s: %s", what, msg)
					}
					m.Count("foreign keys", len(want))
					for _, k := range got {
						k.Column, k.RefTable = "spoiled", "spoiled"
					}
					m.Eval(len(want) > 0, n, i)
				}
				if !reflect.DeepEqual(append([]string(nil), fs...), fs0) || !reflect.DeepEqual(append([]string(nil), ft...), ft0) {
					m.Fail("filters", "%s: filters changed to %q %q", what, fs, ft)
				}
				m.Count("listings", 1)
			}
			if msg := s.close(); msg != "" {
				m.Fail("released", "%s over %s: %s", kind, s.kind, msg)
			}
			for _, c := range all {
				for k, v := range c.ByText {
					m.Count("executed "+kind+" "+k, v)
				}
				for k, v := range c.Model {
					m.Count("modelled "+kind+" "+k, v)
				}
				c.Close()
			}
		}
		m.Need("listings", 1000)
		m.Need("tables", 300)
		m.Need("views", 50)
		m.Need("without columns", 20)
		m.Need("partitioned", 20)
		m.Need("altered", 100)
		m.Need("foreign keys", 300)
	})
}
