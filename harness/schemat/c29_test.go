package schemat

import (
	"context"
	"database/sql"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"sync"
	"testing"

	_ "github.com/mattn/go-sqlite3"

	"github.com/effective-security/xdb/schema"
	"github.com/effective-security/xdb/xsql"

	"verif/mon"
)

func squeeze(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	for _, p := range []string{",", "(", ")", "="} {
		s = strings.ReplaceAll(s, p+" ", p)
		s = strings.ReplaceAll(s, " "+p, p)
	}
	return s
}

type info struct {
	ti    *schema.TableInfo
	spare []string // the whole array of the columns, spare capacity included
	copy  schema.TableInfo
	all   []string
	json  string
}

func genInfo(r *rand.Rand, n int) *info {
	cols := make([]string, 0, 40)
	used := map[string]bool{}
	num := 1 + r.IntN(12)
	for len(cols) < num {
		var c string
		switch r.IntN(6) {
		case 0:
			c = fmt.Sprintf("c%d", r.IntN(15))
		case 1:
			c = fmt.Sprintf("C%d", r.IntN(15))
		case 2:
			c = fmt.Sprintf(`"Quoted %d"`, r.IntN(9))
		case 3:
			c = []string{"id", "name", "null", "NULLable", "user_id", "org", "a", "a_b"}[r.IntN(8)]
		default:
			c = fmt.Sprintf("col_%d_%d", len(cols), r.IntN(100))
		}
		if !used[c] {
			used[c] = true
			cols = append(cols, c)
		}
	}
	d := []xsql.SQLDialect{xsql.Postgres, xsql.SQLServer, xsql.NoDialect}[r.IntN(3)]
	sch := []string{"public", "dbo", "app"}[r.IntN(3)]
	name := fmt.Sprintf("tab%d", n)
	ti := &schema.TableInfo{Schema: sch, Name: name, SchemaName: sch + "." + name, PrimaryKey: cols[0], Columns: cols, Indexes: []string{"ix1", "ix2"}, Dialect: d}
	if r.IntN(4) == 0 {
		ti.SchemaName = name
	}
	x := &info{ti: ti, spare: slices.Clone(cols[:cap(cols)]), copy: *ti, all: slices.Clone(cols)}
	x.copy.Indexes = slices.Clone(ti.Indexes)
	b, _ := json.Marshal(ti)
	x.json = string(b)
	return x
}

// unchanged tells what use did to the description.
func (x *info) unchanged() string {
	t := x.ti
	if !slices.Equal(t.Columns[:cap(t.Columns)], x.spare) || len(t.Columns) != len(x.all) {
		return fmt.Sprintf("columns became %q, were %q", t.Columns[:cap(t.Columns)], x.spare)
	}
	c := x.copy
	if t.Schema != c.Schema || t.Name != c.Name || t.SchemaName != c.SchemaName || t.PrimaryKey != c.PrimaryKey || t.Dialect != c.Dialect || !slices.Equal(t.Indexes, c.Indexes) {
		return fmt.Sprintf("became %+v, was %+v", *t, c)
	}
	if b, _ := json.Marshal(t); string(b) != x.json {
		return "encodes as " + string(b) + ", was " + x.json
	}
	w, g := reflect.ValueOf(c), reflect.ValueOf(*t)
	for i := range w.NumField() {
		if k := w.Field(i).Kind(); (k == reflect.String || k == reflect.Bool || k == reflect.Int) && !reflect.DeepEqual(fmt.Sprint(w.Field(i)), fmt.Sprint(g.Field(i))) {
			return fmt.Sprintf("field %s became %v, was %v", w.Type().Field(i).Name, g.Field(i), w.Field(i))
		}
	}
	return ""
}

func (x *info) aliased(prefix string, null map[string]bool) string {
	var l []string
	for _, c := range x.all {
		switch {
		case null[c]:
			l = append(l, "NULL")
		case prefix != "":
			l = append(l, prefix+"."+c)
		default:
			l = append(l, c)
		}
	}
	return strings.Join(l, ",")
}

// use does one random thing with the description and compares the statement.
func use(m *mon.M, r *rand.Rand, x *info, prefix string, null map[string]bool, yield bool) {
	t := x.ti
	pg := x.copy.Dialect == xsql.Postgres
	sn := x.copy.SchemaName
	ph := func(i int) string {
		if pg {
			return fmt.Sprintf("$%d", i)
		}
		return "?"
	}
	step := func() {
		if yield && r.IntN(3) == 0 {
			runtime.Gosched()
		}
	}
	var q xsql.Builder
	var want, what string
	var args []any
	step()
	switch k := r.IntN(11); k {
	case 0:
		what = "From"
		q = t.From()
		step()
		q.Select("x").Where("k = ?", r.IntN(5))
		want, args = "SELECT x FROM "+sn+" WHERE k="+ph(1), []any{1}
	case 1:
		what = "DeleteFrom"
		q = t.DeleteFrom()
		step()
		if r.IntN(2) == 0 {
			want = "DELETE FROM " + sn
		} else {
			q.Where("a = ?", 1)
			want, args = "DELETE FROM "+sn+" WHERE a="+ph(1), []any{1}
		}
	case 2:
		what = "InsertInto"
		q = t.InsertInto()
		step()
		q.Set("a", 1).Set("b", 2)
		want, args = "INSERT INTO "+sn+"(a,b)VALUES("+ph(1)+","+ph(2)+")", []any{1, 2}
	case 3:
		what = "Update"
		q = t.Update()
		step()
		q.Set("a", 1).Where("b = ?", 2)
		want, args = "UPDATE "+sn+" SET a="+ph(1)+" WHERE b="+ph(2), []any{1, 2}
	case 4, 5:
		what = "Select"
		q = t.Select()
		step()
		if k == 4 {
			want = "SELECT " + strings.Join(x.all, ",") + " FROM " + sn
		} else {
			q.Where("b = ?", 2).OrderBy("z").Limit(5)
			want, args = "SELECT "+strings.Join(x.all, ",")+" FROM "+sn+" WHERE b="+ph(1)+" ORDER BY z LIMIT "+ph(2), []any{2, 5}
			if x.copy.Dialect == xsql.SQLServer {
				want = "" // paging is the builder's matter
			}
		}
	case 6, 7:
		what = "Select columns"
		sel := slices.Clone(x.all)
		r.Shuffle(len(sel), func(i, j int) { sel[i], sel[j] = sel[j], sel[i] })
		sel = sel[:1+r.IntN(len(sel))]
		switch r.IntN(6) { // what is requested need not be a declared column, or only once
		case 0:
			sel = []string{[]string{"*", "COUNT(*)", "1", "DISTINCT a", sel[0] + " AS x", "t.*"}[r.IntN(6)]}
		case 1:
			sel = append(sel, sel[0])
		}
		keep := slices.Clone(sel)
		q = t.Select(sel...)
		step()
		want = "SELECT " + strings.Join(keep, ",") + " FROM " + sn
		if !slices.Equal(sel, keep) {
			m.Fail("argument", "Select changed the list of columns from %q to %q", keep, sel)
		}
	case 8:
		what = "SelectAliased"
		q = t.SelectAliased(prefix, null)
		step()
		want = "SELECT " + x.aliased(prefix, null) + " FROM " + sn
		if prefix != "" {
			want += " " + prefix
		}
	case 9:
		what = "AllColumns"
		if got := squeeze(t.AllColumns()); got != squeeze(strings.Join(x.all, ",")) {
			m.Fail("AllColumns", "AllColumns of %q is %q", x.all, got)
		}
	case 10:
		what = "AliasedColumns"
		if got := squeeze(t.AliasedColumns(prefix, null)); got != squeeze(x.aliased(prefix, null)) {
			m.Fail("AliasedColumns", "AliasedColumns(%q,%v) of %q is %q", prefix, null, x.all, got)
		}
	}
	m.Count(what, 1)
	if q == nil {
		return
	}
	step()
	got := q.String()
	if want != "" && squeeze(got) != squeeze(want) {
		m.Fail(what, "%s of %q (prefix %q, excluded %v) yields\n%s, want\n%s", what, x.all, prefix, null, squeeze(got), squeeze(want))
	}
	if len(q.Args()) != len(args) {
		m.Fail(what, "%s: arguments %v", what, q.Args())
	}
	if r.IntN(2) == 0 {
		q.Close()
	}
}

func TestC29(t *testing.T) {
	mon.Run(t, "C29", "a statement started from a table description; histories in one goroutine and the same description in many goroutines at once", func(m *mon.M) {
		prefixes := []string{"", "a", "t1", "x_y", "NULL_", "b"}
		gen := func(r *rand.Rand, x *info) (string, map[string]bool) {
			var null map[string]bool
			if r.IntN(5) > 0 {
				null = map[string]bool{}
				for _, c := range x.all {
					switch r.IntN(4) {
					case 0:
						null[c] = true
					case 1:
						null[c] = false
					}
				}
				if r.IntN(3) == 0 {
					null["not_a_column"] = true
				}
			}
			return prefixes[r.IntN(len(prefixes))], null
		}
		for n := 0; n < m.N(4000, 40000) && !m.Failed(); n++ {
			r := m.Rand("seq", n)
			x := genInfo(r, n%50)
			ok := m.Guard("panic", x.all, func() {
				for i := 0; i < 20; i++ {
					p, null := gen(r, x)
					keep := fmt.Sprint(null)
					use(m, r, x, p, null, false)
					if fmt.Sprint(null) != keep {
						m.Fail("argument", "the set of excluded columns became %v, was %s", null, keep)
					}
				}
			})
			if msg := x.unchanged(); msg != "" {
				m.Fail("modified", "use of the description: %s", msg)
			}
			if !ok {
				break
			}
			m.State("description", len(x.all), x.copy.Dialect.Provider())
			m.Eval(true, n)
		}
		// shared
		for n := 0; n < m.N(400, 4000) && !m.Failed(); n++ {
			r := m.Rand("shared", n)
			var xs []*info
			for i := range 3 {
				xs = append(xs, genInfo(r, i))
			}
			type sub struct {
				p    string
				null map[string]bool
			}
			subs := make([][]sub, len(xs))
			for i, x := range xs {
				for range 3 {
					p, null := gen(r, x)
					subs[i] = append(subs[i], sub{p, null})
				}
			}
			var wg sync.WaitGroup
			start := make(chan struct{})
			for g := range 8 {
				gr := m.Rand("goroutine", n*100+g)
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					m.Guard("panic-shared", n, func() {
						for range 40 {
							i := gr.IntN(len(xs))
							s := subs[i][gr.IntN(3)]
							use(m, gr, xs[i], s.p, s.null, true)
						}
					})
				}()
			}
			close(start)
			wg.Wait()
			for _, x := range xs {
				if msg := x.unchanged(); msg != "" {
					m.Fail("modified-shared", "shared use of the description: %s", msg)
				}
			}
			m.Count("shared rounds", 1)
			m.Eval(true, "shared", n)
		}
		// executed: values come back in declared order
		db, err := sql.Open("sqlite3", ":memory:")
		if err != nil {
			t.Fatal(err)
		}
		defer db.Close()
		db.SetMaxOpenConns(1)
		for n := 0; n < m.N(150, 2500) && !m.Failed(); n++ {
			r := m.Rand("sqlite", n)
			num := 1 + r.IntN(9)
			var cols []string
			for i := range num {
				cols = append(cols, fmt.Sprintf("c%d", i))
			}
			order := slices.Clone(cols)
			r.Shuffle(num, func(i, j int) { order[i], order[j] = order[j], order[i] })
			name := fmt.Sprintf("t%d", n)
			if _, err := db.Exec("CREATE TABLE " + name + " (" + strings.Join(cols, " TEXT, ") + " TEXT)"); err != nil {
				t.Fatal(err)
			}
			ti := &schema.TableInfo{Schema: "main", Name: name, SchemaName: "main." + name, Columns: order, Dialect: xsql.NoDialect}
			ins := ti.InsertInto()
			for _, c := range order {
				ins.Set(c, "v_"+c)
			}
			ctx := context.Background()
			if _, err := ins.ExecAndClose(ctx, db); err != nil {
				m.Fail("sqlite", "insert: %v", err)
				break
			}
			null := map[string]bool{}
			for _, c := range order {
				if r.IntN(3) == 0 {
					null[c] = true
				}
			}
			for k := range 4 {
				var q xsql.Builder
				wantCols := order
				switch k {
				case 0:
					q = ti.Select()
				case 1:
					wantCols = slices.Clone(order)
					r.Shuffle(num, func(i, j int) { wantCols[i], wantCols[j] = wantCols[j], wantCols[i] })
					wantCols = wantCols[:1+r.IntN(num)]
					q = ti.Select(wantCols...)
				case 2:
					q = ti.SelectAliased("x", null).Where("x." + order[0] + " IS NOT NULL")
				case 3:
					q = ti.SelectAliased("", null)
				}
				got := make([]sql.NullString, len(wantCols))
				dest := make([]any, len(got))
				for i := range got {
					dest[i] = &got[i]
				}
				if err := db.QueryRowContext(ctx, q.String(), q.Args()...).Scan(dest...); err != nil {
					m.Fail("sqlite", "statement %d %s over %q: %v", k, q.String(), order, err)
				}
				for i, c := range wantCols {
					isNull := k >= 2 && null[c]
					if got[i].Valid == isNull || got[i].Valid && got[i].String != "v_"+c {
						m.Fail("sqlite", "statement %d %s: column %d is %v, want %s (NULL %v)", k, q.String(), i, got[i], c, isNull)
					}
				}
				q.Close()
				m.Count("executed", 1)
			}
			if _, err := ti.Update().Set(order[0], "new").ExecAndClose(ctx, db); err != nil {
				m.Fail("sqlite", "update: %v", err)
			}
			var s string
			if err := db.QueryRow("SELECT " + order[0] + " FROM " + name).Scan(&s); err != nil || s != "new" {
				m.Fail("sqlite", "after update %q %v", s, err)
			}
			if _, err := ti.DeleteFrom().ExecAndClose(ctx, db); err != nil {
				m.Fail("sqlite", "delete: %v", err)
			}
			var left int
			if err := db.QueryRow("SELECT count(*) FROM " + name).Scan(&left); err != nil || left != 0 {
				m.Fail("sqlite", "after delete %d rows left (%v)", left, err)
			}
			if _, err := db.Exec("DROP TABLE " + name); err != nil {
				t.Fatal(err)
			}
			m.Eval(true, "sqlite", n)
		}
		m.Need("executed", 300)
		m.Need("shared rounds", 50)
		m.Need("SelectAliased", 1000)
	})
}
