package provt

import (
	"context"
	"database/sql"
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"testing"
	"time"

	_ "github.com/mattn/go-sqlite3"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/xsql"

	"verif/mon"
)

type kv struct {
	K, V int64
}

func (x *kv) ScanRow(r xdb.Row) error { return r.Scan(&x.K, &x.V) }

type world map[int64]int64

func read(ctx context.Context, db xdb.DB) (world, error) {
	l, err := xdb.ExecuteListQuery[kv](ctx, db, "SELECT k, v FROM kv")
	if err != nil {
		return nil, err
	}
	w := world{}
	for _, x := range l {
		w[x.K] = x.V
	}
	return w, nil
}

// sqliteHistory compares what readers inside and outside of transactions see
// with a model, on a real database file.
func sqliteHistory(m *mon.M, t *testing.T, n int) {
	r := m.Rand("sqlite", n)
	dir, err := os.MkdirTemp("", "provt")
	if err != nil {
		t.Fatal(err)
	}
	defer func() { _ = os.RemoveAll(dir) }()
	dsn := "file:" + filepath.Join(dir, "x.db") + "?_journal_mode=WAL&_synchronous=OFF&_busy_timeout=5000&_foreign_keys=on"
	open := func() *sql.DB {
		d, err := sql.Open("sqlite3", dsn)
		if err != nil {
			t.Fatal(err)
		}
		return d
	}
	sdb, outside := open(), open()
	defer func() { _ = outside.Close() }()
	ctx := context.Background()
	for _, q := range []string{"CREATE TABLE kv (k INTEGER PRIMARY KEY, v INTEGER)",
		"CREATE TABLE child (k INTEGER REFERENCES kv(k) DEFERRABLE INITIALLY DEFERRED)"} {
		if _, err := sdb.ExecContext(ctx, q); err != nil {
			t.Fatal(err)
		}
	}
	p, err := xdb.New("sqlite3", sdb, nil)
	if err != nil {
		m.Fail("new", "%v", err)
		return
	}
	defer func() {
		if err := p.Close(); err != nil {
			m.Fail("close", "%v", err)
		}
	}()
	committed := world{}
	var hist []string
	say := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	fail := func(fp, f string, a ...any) {
		m.Fail(fp, "%s\nhistory: %v", fmt.Sprintf(f, a...), hist)
	}
	check := func(what string, db xdb.DB, want world) {
		got, err := read(ctx, db)
		if err != nil {
			fail("read", "%s: %v", what, err)
		} else if !maps.Equal(got, want) {
			fail("visibility", "%s sees %v, want %v", what, got, want)
		}
	}
	var w xdb.Provider // the writing transaction
	var cancel context.CancelFunc
	var inside world
	broken := false // a deferred constraint will refuse the commit
	next := int64(1)
	write := func(db xdb.DB, s world) {
		k := 1 + r.Int64N(6)
		v := next
		next++
		var err error
		switch r.IntN(5) {
		case 0:
			_, err = db.ExecContext(ctx, "INSERT OR REPLACE INTO kv VALUES (?,?)", k, v)
		case 1:
			_, err = xsql.NoDialect.New("INSERT OR REPLACE INTO kv VALUES (?,?)", k, v).Exec(ctx, db)
		case 2:
			var got int64
			err = db.QueryRowContext(ctx, "INSERT OR REPLACE INTO kv VALUES (?,?) RETURNING v", k, v).Scan(&got)
		case 3:
			if _, has := s[k]; !has {
				return
			}
			_, err = xsql.NoDialect.Update("kv").Set("v", v).Where("k = ?", k).Exec(ctx, db)
		case 4:
			var l []*kv
			l, err = xdb.ExecuteListQuery[kv](ctx, db, "INSERT OR REPLACE INTO kv VALUES (?,?),(?,?) RETURNING k, v", k, v, k+100, v)
			if err == nil && len(l) != 2 {
				fail("returning", "%d rows", len(l))
			}
			s[k+100] = v
		}
		s[k] = v
		if err != nil {
			fail("write", "%v", err)
		}
	}
	for i := 0; i < 30 && !m.Failed(); i++ {
		switch k := r.IntN(12); {
		case w == nil && k < 2: // outside of a transaction
			write(p, committed)
			say("parent write")
		case w == nil && k < 7:
			c, cc := context.WithCancel(ctx)
			x, err := p.BeginTx(c, nil)
			if err != nil {
				fail("begin", "%v", err)
				cc()
				return
			}
			w, cancel, inside, broken = x, cc, maps.Clone(committed), false
			say("begin")
		case w != nil && k < 5:
			write(w, inside)
			say("tx write -> %v", inside)
			m.Count("sqlite writes", 1)
		case w != nil && k == 5: // a failing statement changes nothing
			if _, err := w.ExecContext(ctx, "INSERT INTO kv VALUES (1,1),(1,2)"); err == nil {
				fail("constraint", "duplicate key accepted")
			}
			say("tx failing write")
		case w != nil && k == 6:
			check("the transaction", w, inside)
			if r.IntN(4) == 0 {
				if _, err := w.ExecContext(ctx, "INSERT INTO child VALUES (99999)"); err != nil {
					fail("write", "%v", err)
				}
				broken = true
				say("tx breaks a deferred constraint")
			}
		case w != nil && k < 10:
			how := []string{"commit", "commit", "rollback", "close", "cancel", "close after commit"}[r.IntN(6)]
			var err error
			switch how {
			case "commit":
				err = w.Commit()
			case "close after commit":
				err = w.Commit()
				if e := w.Close(); e != nil {
					fail("close", "%v", e)
				}
			case "rollback":
				err = w.Rollback()
			case "close":
				err = w.Close()
			case "cancel":
				cancel()
				d := time.Now().Add(5 * time.Second)
				for sdb.Stats().InUse != 0 && time.Now().Before(d) {
					time.Sleep(200 * time.Microsecond)
				}
				if e := w.Commit(); e == nil {
					fail("commit-cancelled", "commit of a cancelled transaction succeeds")
				}
			}
			say("%s -> %v", how, err)
			if how == "commit" || how == "close after commit" {
				if broken {
					if err == nil {
						fail("commit-hidden", "the database refused the commit and no error is reported")
					}
					m.Count("sqlite refused commits", 1)
				} else {
					if err != nil {
						fail("commit", "%v", err)
					}
					committed = inside
					m.Count("sqlite commits", 1)
				}
			} else {
				if err != nil {
					fail("rollback", "%v", err)
				}
				m.Count("sqlite rollbacks", 1)
			}
			old := w
			w = nil
			cancel()
			if r.IntN(2) == 0 {
				_ = old.Commit()
				_ = old.Rollback()
				_ = old.Close()
			}
			if _, err := old.ExecContext(ctx, "INSERT OR REPLACE INTO kv VALUES (1, -1)"); err == nil {
				fail("after-end", "statement through a finished transaction succeeds")
			}
			check("the parent afterwards", p, committed)
		default:
			check("the parent", p, committed)
			check("another process", outside, committed)
			m.Count("sqlite outside reads", 1)
		}
	}
	if w != nil {
		if err := w.Close(); err != nil {
			fail("close", "%v", err)
		}
		cancel()
	}
	check("the parent at the end", p, committed)
	check("another process at the end", outside, committed)
	m.State("sqlite", len(hist), len(committed))
	m.Eval(true, "s", n)
}
