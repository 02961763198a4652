package sqlitet

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/xsql"

	"verif/fakedb"
	"verif/mon"
	"verif/tval"
)

// zoned tells whether the destination is in UTC when it is a time.
func zoned(v any) bool {
	t, ok := v.(xdb.Time)
	return !ok || time.Time(t).Location() == time.UTC || time.Time(t).IsZero()
}

func c11Sqlite(m *mon.M, t *testing.T) {
	cols := tval.Cols()
	rounds := m.N(60, 600)
	for n := 0; n < rounds; n++ {
		r := m.Rand("sqlite", n)
		db, err := sql.Open("sqlite3", fmt.Sprintf("file:c11_%d?mode=memory&cache=shared", n))
		if err != nil {
			t.Fatal(err)
		}
		db.SetMaxOpenConns(1)
		prov, err := xdb.New("sqlite3", db, nil)
		if err != nil {
			t.Fatal(err)
		}
		var ddl, names []string
		for i, c := range cols {
			nm := fmt.Sprintf("c%d", i)
			names = append(names, nm)
			ddl = append(ddl, nm+" "+c.Decl[r.IntN(len(c.Decl))])
		}
		if _, err := db.Exec("CREATE TABLE t (k INTEGER PRIMARY KEY, " + strings.Join(ddl, ", ") + ")"); err != nil {
			t.Fatal(err)
		}
		const rowsN = 12
		want := make([][]any, rowsN)
		for k := range want {
			ins := xsql.NoDialect.InsertInto("t")
			ins.Set("k", k)
			for i, c := range cols {
				v := c.Gen(r)
				if r.IntN(4) == 0 {
					v = c.Empty[r.IntN(len(c.Empty))]
				}
				want[k] = append(want[k], v)
				ins.Set(names[i], v)
			}
			if _, err := ins.ExecAndClose(ctx, prov); err != nil {
				m.Fail("write", "writing row failed: %v\n%s", err, showRow(want[k]))
				return
			}
		}
		// reused destinations must not matter either
		dest := make([]any, len(cols))
		for i, c := range cols {
			dest[i] = c.New()
		}
		var k int
		nulls := make([]int64, len(cols))
		q := xsql.NoDialect.From("t").Select("k").To(&k)
		for i := range cols {
			q.Select(names[i]).To(dest[i])
		}
		for i := range cols {
			q.Select(names[i] + " IS NULL").To(&nulls[i])
		}
		q.OrderBy("k")
		seen := 0
		err = q.QueryAndClose(ctx, prov, func(*sql.Rows) {
			seen++
			for i, c := range cols {
				w := want[k][i]
				got := c.Get(dest[i])
				m.Eval(!c.IsEmpty(w), c.Name, tval.Show(w))
				m.Count("sqlite:"+c.Name, 1)
				exp := w
				if c.IsEmpty(w) {
					exp = c.Zero
				}
				if (nulls[i] == 1) != c.IsEmpty(w) {
					m.Fail("null:"+c.Name, "%s: %s stored as NULL: %v", c.Name, tval.Show(w), nulls[i] == 1)
				}
				if !c.Eq(got, exp) || !zoned(got) {
					m.Fail("sqlite:"+c.Name, "%s: wrote %s, read %s", c.Name, tval.Show(w), tval.Show(got))
				}
				if i == 0 {
					m.Sample(map[string]string{"wrote": showRow(want[k])})
				}
			}
		})
		if err != nil || seen != rowsN {
			m.Fail("read", "reading back %d rows: %v", seen, err)
		}
		_ = prov.Close()
	}
}

func showRow(l []any) string {
	var p []string
	for _, v := range l {
		p = append(p, tval.Show(v))
	}
	return strings.Join(p, " ")
}

// c11Echo delivers each stored value in every form a driver uses for it.
func c11Echo(m *mon.M, t *testing.T) {
	var cur driver.Value
	var lastArg any
	fd := fakedb.New(fakedb.Hooks{
		Query: func(context.Context, string, []any) (*fakedb.Result, error) {
			return &fakedb.Result{Cols: []string{"v"}, Rows: [][]driver.Value{{cur}}}, nil
		},
		Exec: func(_ context.Context, _ string, a []any) (driver.Result, error) {
			lastArg = a[0]
			return driver.RowsAffected(1), nil
		},
	}).Quiet()
	db := fd.SQL()
	defer db.Close()
	prov, err := xdb.New("postgres", db, nil)
	if err != nil {
		t.Fatal(err)
	}
	read := func(r *rand.Rand, c tval.Col, v any) (any, error) {
		cur = v
		if b, ok := v.([]byte); ok {
			// drivers reuse their buffer after the row
			b = append([]byte(nil), b...)
			cur = b
			defer func() {
				for i := range b {
					b[i] = '#'
				}
			}()
		}
		p := c.New()
		if r.IntN(3) == 0 {
			c.Set(p, c.Gen(r))
		}
		err := prov.QueryRowContext(ctx, "SELECT v").Scan(p)
		return c.Get(p), err
	}
	for _, c := range tval.Cols() {
		for n := 0; n < m.N(400, 6000); n++ {
			r := m.Rand("echo"+c.Name, n)
			v := c.Gen(r)
			if n < len(c.Empty) {
				v = c.Empty[n]
			} else if c.IsEmpty(v) && c.Name != "Time" {
				v = c.Empty[0]
			}
			if _, err := prov.ExecContext(ctx, "UPDATE t SET v=$1", v); err != nil {
				m.Fail("value:"+c.Name, "%s: writing %s failed: %v", c.Name, tval.Show(v), err)
				continue
			}
			m.Eval(!c.IsEmpty(v), c.Name, tval.Show(v))
			if c.IsEmpty(v) {
				if lastArg != nil {
					m.Fail("null:"+c.Name, "%s: %s stored as %v instead of NULL", c.Name, tval.Show(v), lastArg)
				}
				got, err := read(r, c, nil)
				if err != nil || !c.Eq(got, c.Zero) {
					m.Fail("null:"+c.Name, "%s: NULL reads as %s (%v)", c.Name, tval.Show(got), err)
				}
				m.Count("echo-null", 1)
				continue
			}
			if lastArg == nil {
				m.Fail("null:"+c.Name, "%s: %s stored as NULL", c.Name, tval.Show(v))
				continue
			}
			forms := append([]any{lastArg}, c.Forms(r, v)...)
			if s, ok := lastArg.(string); ok {
				forms = append(forms, []byte(s))
			}
			for _, f := range forms {
				got, err := read(r, c, f)
				m.Count("echo", 1)
				m.State("form", c.Name, fmt.Sprintf("%T", f))
				if err != nil || !c.Eq(got, v) || !zoned(got) {
					m.Fail(fmt.Sprintf("echo:%s:%T", c.Name, f), "%s: wrote %s, delivered as %s, read %s (%v)", c.Name, tval.Show(v), tval.Show(f), tval.Show(got), err)
				}
			}
		}
	}
	// helpers that turn lists into array arguments
	for n := 0; n < m.N(200, 3000); n++ {
		r := m.Rand("arrays", n)
		l := tval.IDs(r, r.IntN(6))
		var want []string
		for _, v := range l {
			want = append(want, fmt.Sprint(int64(v)))
		}
		text := "{" + strings.Join(want, ",") + "}"
		for name, a := range map[string]any{"Int64Array": xdb.Int64Array(l), "IDArray.Int64Array": tval.List(l).Int64Array()} {
			if _, err := prov.ExecContext(ctx, "UPDATE t SET v=$1", a); err != nil || fmt.Sprint(lastArg) != text {
				m.Fail("array:"+name, "%s of %v is sent as %v (%v)", name, l, lastArg, err)
			}
			m.Count("array", 1)
		}
		var e []int32x
		want = nil
		for i := 0; i < r.IntN(5); i++ {
			v := int32x(tval.Int64(r))
			e = append(e, v)
			want = append(want, fmt.Sprint(int32(v)))
		}
		if _, err := prov.ExecContext(ctx, "UPDATE t SET v=$1", xdb.Int32Array(e)); err != nil || fmt.Sprint(lastArg) != "{"+strings.Join(want, ",")+"}" {
			m.Fail("array:Int32Array", "Int32Array of %v is sent as %v (%v)", e, lastArg, err)
		}
		var f []uint32x
		want = nil
		for i := 0; i < r.IntN(5); i++ {
			v := uint32x(tval.Uint64(r))
			f = append(f, v)
			want = append(want, fmt.Sprint(int32(v)))
		}
		if _, err := prov.ExecContext(ctx, "UPDATE t SET v=$1", xdb.Int32Array(f)); err != nil || fmt.Sprint(lastArg) != "{"+strings.Join(want, ",")+"}" {
			m.Fail("array:Int32Array", "Int32Array of %v is sent as %v (%v)", f, lastArg, err)
		}
	}
}

type int32x int32

type uint32x uint32

func TestC11(t *testing.T) {
	mon.Run(t, "C11", "a case is one value written and read back; non-trivial when it is not stored as NULL", func(m *mon.M) {
		c11Sqlite(m, t)
		c11Echo(m, t)
		m.Need("echo", 1000)
		m.Need("echo-null", 20)
		m.Need("sqlite:Time", 100)
	})
}
