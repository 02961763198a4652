package wiret

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/effective-security/xdb"

	"verif/mon"
	"verif/pgfake"
	"verif/tdsfake"
)

func keepAlives() int {
	buf := make([]byte, 1<<22)
	return strings.Count(string(buf[:runtime.Stack(buf, true)]), "SQLProvider).keepAlive")
}

// TestC22 covers attempts against servers: what fails, and what is closed, leaves nothing open.
func TestC22(t *testing.T) {
	mon.Run(t, "C22", "a case is one attempt to open or create a provider against a server, with a failure at a random statement or none, followed by a close; non-trivial always", func(m *mon.M) {
		dir := t.TempDir()
		good := filepath.Join(dir, "good")
		_ = os.MkdirAll(good, 0o700)
		for i := 1; i < 4; i++ {
			_ = os.WriteFile(filepath.Join(good, fmt.Sprintf("%d_a.up.sql", i)), []byte(fmt.Sprintf("-- script %d.up\n", i)), 0o600)
		}
		tds := tdsfake.New()
		defer tds.Close()
		for n := 0; n < m.N(300, 4000); n++ {
			r := m.Rand("attempt", n)
			d := newMigDB()
			kind := r.IntN(8)
			src := pgSource(d)
			db := ""
			var cfg *xdb.MigrationConfig
			desc := ""
			d.how = []string{"error", "drop"}[r.IntN(2)]
			switch kind {
			case 0:
				desc = "no migration"
			case 1:
				desc, cfg = "missing migrations", &xdb.MigrationConfig{Source: filepath.Join(dir, "none")}
			case 2, 3:
				d.at = 1 + r.IntN(30)
				desc, cfg = fmt.Sprintf("%s at statement %d", d.how, d.at), &xdb.MigrationConfig{Source: good, ForceVersion: r.IntN(2)}
			case 4:
				d.broken = fmt.Sprintf("%d.up", 1+r.IntN(3))
				desc, cfg = "broken script "+d.broken, &xdb.MigrationConfig{Source: good}
			case 5:
				d.srv.Accept = func(*pgfake.Session) *pgfake.Error { return &pgfake.Error{Code: "28000", Msg: "no"} }
				desc = "rejected login"
			case 6:
				tds.Reject.Store(r.IntN(2) == 0)
				tds.FailQueries.Store(r.IntN(2) == 0)
				src, desc = "sqlserver://u:p@"+tds.Addr()+"?encrypt=disable", fmt.Sprintf("SQL Server rejects logins %v, statements %v", tds.Reject.Load(), tds.FailQueries.Load())
			case 7:
				db = "x"
				desc, cfg = "good migration", &xdb.MigrationConfig{Source: good}
			}
			closes := 1 + r.IntN(3)
			what := fmt.Sprintf("attempt %d: %s, database %q", n, desc, db)
			m.Guard("attempt", what, func() {
				if r.IntN(3) == 0 {
					h, _, _, err := xdb.Open(src, db)
					if (h == nil) != (err != nil) {
						m.Fail("result", "%s\nhandle %v with error %v", what, h != nil, err)
					}
					if h != nil {
						_ = h.Close()
						m.Count("opened", 1)
					} else {
						m.Count("failed", 1)
					}
					return
				}
				p, err := xdb.NewProvider(src, db, nil, cfg)
				if (p == nil) != (err != nil) {
					m.Fail("result", "%s\nprovider %v with error %v", what, p != nil, err)
				}
				if p == nil {
					m.Count("failed", 1)
					return
				}
				m.Count("opened", 1)
				if kind == 0 || kind == 7 { // another handle of the same database is not affected
					h, _, _, err := xdb.Open(src, db)
					if err != nil {
						m.Fail("second", "%s\nthe second handle: %v", what, err)
						return
					}
					defer func() {
						if err := h.Ping(); err != nil {
							m.Fail("second", "%s\nthe second handle after the first was closed: %v", what, err)
						}
						_ = h.Close()
					}()
					m.Count("two handles", 1)
				}
				var wg sync.WaitGroup
				for i := 0; i < closes; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						if err := p.Close(); err != nil {
							m.Fail("close", "%s\n%v", what, err)
						}
					}()
				}
				wg.Wait()
			})
			if !eventually(func() bool { return d.srv.Open() == 0 && tds.Open() == 0 }) {
				m.Fail("left-open", "%s\n%d connections stay open", what, d.srv.Open()+tds.Open())
			}
			tds.Reject.Store(false)
			tds.FailQueries.Store(false)
			m.Eval(true, what)
			m.State("attempts", kind, desc, closes)
			d.close()
		}
		if !waitFor(10*time.Second, func() bool { return keepAlives() == 0 }) {
			m.Fail("keepalive", "%d keep-alive goroutines are left", keepAlives())
		}
		m.Need("failed", 100)
		m.Need("opened", 50)
		m.Need("two handles", 20)
	})
}
