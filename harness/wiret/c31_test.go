package wiret

import (
	"database/sql"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/migrate"

	"verif/mon"
	"verif/pgfake"
	"verif/tdsfake"
)

// record is the content of the table of versions.
type record struct {
	has     bool
	version int
	dirty   bool
}

func (v record) String() string {
	if !v.has {
		return "none"
	}
	return fmt.Sprintf("%d dirty=%v", v.version, v.dirty)
}

// migdb is a database as the migration library sees it.
type migdb struct {
	srv *pgfake.Server

	mu    sync.Mutex
	cond  *sync.Cond
	table bool
	rec   record
	ran   []string // scripts executed
	owner int      // session that holds the advisory lock
	bad   []string
	// scripts that contain broken fail
	broken string
	// the at-th statement (from 1) fails
	at, seen int
	how      string // error, drop
	stall    bool
	over     bool
}

func (d *migdb) close() {
	d.mu.Lock()
	d.over = true
	d.cond.Broadcast()
	d.mu.Unlock()
	d.srv.Close()
}

type pending struct{ rec *record }

func newMigDB() *migdb {
	d := &migdb{srv: pgfake.New()}
	d.cond = sync.NewCond(&d.mu)
	d.srv.Handle = d.handle
	d.srv.Ended = func(s *pgfake.Session) {
		d.mu.Lock()
		if d.owner == s.ID {
			d.owner = 0
			d.cond.Broadcast()
		}
		d.mu.Unlock()
	}
	d.srv.Start()
	return d
}

var reRun = regexp.MustCompile(`-- script (\S+)`)

func (d *migdb) handle(s *pgfake.Session, q string, args []any, describe bool) pgfake.Result {
	d.mu.Lock()
	defer d.mu.Unlock()
	if !describe {
		d.seen++
		if d.seen == d.at {
			// an unlock that fails without the session's end would keep the lock for good
			if d.how == "drop" || strings.Contains(q, "pg_advisory") {
				return pgfake.Result{Drop: true}
			}
			return pgfake.Result{Err: &pgfake.Error{Code: "XX000", Msg: "injected"}}
		}
	}
	if s.State == nil {
		s.State = &pending{}
	}
	p := s.State.(*pending)
	one := func(oid uint32, v any) pgfake.Result {
		return pgfake.Result{Cols: []pgfake.Col{{Name: "v", OID: oid}}, Rows: [][]any{{v}}}
	}
	switch {
	case strings.Contains(q, "CURRENT_DATABASE"):
		return one(pgfake.Text, s.Params["database"])
	case strings.Contains(q, "CURRENT_SCHEMA"):
		return one(pgfake.Text, "public")
	case strings.Contains(q, "pg_advisory_lock"):
		if describe {
			return one(pgfake.Text, "")
		}
		for d.owner != 0 && d.owner != s.ID {
			if d.over {
				return pgfake.Result{Drop: true}
			}
			d.cond.Wait()
		}
		d.owner = s.ID
		return one(pgfake.Text, "")
	case strings.Contains(q, "pg_advisory_unlock"):
		if describe {
			return one(pgfake.Bool, true)
		}
		if d.owner != s.ID {
			d.bad = append(d.bad, "unlock without lock")
		} else {
			d.owner = 0
			d.cond.Broadcast()
		}
		return one(pgfake.Bool, true)
	case strings.Contains(q, "information_schema.tables"):
		n := int64(0)
		if d.table {
			n = 1
		}
		return one(pgfake.Int8, n)
	case strings.HasPrefix(q, "CREATE TABLE IF NOT EXISTS \"public\".\"schema_migrations\""):
		d.table = true
		return pgfake.Result{Tag: "CREATE TABLE"}
	case strings.HasPrefix(q, "SELECT version, dirty"):
		if !d.table {
			return pgfake.Result{Err: &pgfake.Error{Code: "42P01", Msg: "undefined table"}}
		}
		r := pgfake.Result{Cols: []pgfake.Col{{Name: "version", OID: pgfake.Int8}, {Name: "dirty", OID: pgfake.Bool}}}
		if d.rec.has {
			r.Rows = [][]any{{int64(d.rec.version), d.rec.dirty}}
		}
		return r
	case q == "BEGIN" || strings.HasPrefix(q, "BEGIN"):
		p.rec = nil
		return pgfake.Result{}
	case q == "ROLLBACK":
		p.rec = nil
		return pgfake.Result{}
	case q == "COMMIT":
		if p.rec != nil {
			d.rec = *p.rec
		}
		p.rec = nil
		return pgfake.Result{}
	case strings.HasPrefix(q, "TRUNCATE"):
		if describe {
			return pgfake.Result{}
		}
		if d.owner != s.ID {
			d.bad = append(d.bad, "version changed without the lock")
		}
		p.rec = &record{}
		return pgfake.Result{Tag: "TRUNCATE TABLE"}
	case strings.HasPrefix(q, "INSERT INTO \"public\".\"schema_migrations\""):
		if describe {
			return pgfake.Result{}
		}
		v, _ := strconv.Atoi(fmt.Sprint(args[0]))
		p.rec = &record{true, v, fmt.Sprint(args[1]) == "true" || fmt.Sprint(args[1]) == "t"}
		return pgfake.Result{Tag: "INSERT 0 1"}
	}
	if m := reRun.FindStringSubmatch(q); m != nil {
		if d.owner != s.ID {
			d.bad = append(d.bad, "script "+m[1]+" executed without the lock")
		}
		if d.broken != "" && m[1] == d.broken {
			return pgfake.Result{Err: &pgfake.Error{Code: "42601", Msg: "syntax error"}}
		}
		if d.stall {
			d.mu.Unlock()
			time.Sleep(time.Millisecond)
			d.mu.Lock()
		}
		d.ran = append(d.ran, m[1])
		return pgfake.Result{Tag: "CREATE TABLE"}
	}
	d.bad = append(d.bad, "unexpected statement "+q)
	return pgfake.Result{}
}

// steps is a directory of migrations.
type steps struct {
	dir      string
	versions []int
	up, down map[int]bool
}

func genSteps(r *rand.Rand, base string, n int) *steps {
	names := []string{"m", "db migrations", "50%", "a#b", "what?", "a%20b", "deep/er", "é", "a+b", "-x", "a;b", "a:b"}
	st := &steps{dir: filepath.Join(base, strconv.Itoa(n), names[r.IntN(len(names))]), up: map[int]bool{}, down: map[int]bool{}}
	if err := os.MkdirAll(st.dir, 0o700); err != nil {
		panic(err)
	}
	v := 0
	for i := 1 + r.IntN(6); i > 0; i-- {
		v += 1 + r.IntN(3)
		if r.IntN(8) == 0 {
			v = v + 20231115000000%100000
		}
		st.versions = append(st.versions, v)
		pre := []string{"%d", "%03d", "%06d"}[r.IntN(3)]
		title := []string{"init", "add_users", "x", "with space", "a.b"}[r.IntN(5)]
		w := func(dir string) {
			fn := fmt.Sprintf(pre+"_%s.%s.sql", v, title, dir)
			body := fmt.Sprintf("CREATE TABLE t%d(id bigint);\n-- script %d.%s\nSELECT 1;\n", v, v, dir)
			if err := os.WriteFile(filepath.Join(st.dir, fn), []byte(body), 0o600); err != nil {
				panic(err)
			}
		}
		if r.IntN(10) > 0 {
			st.up[v] = true
			w("up")
		}
		if r.IntN(6) > 0 || !st.up[v] {
			st.down[v] = true
			w("down")
		}
	}
	if r.IntN(3) == 0 {
		_ = os.WriteFile(filepath.Join(st.dir, "README.md"), []byte("notes"), 0o600)
	}
	if r.IntN(3) == 0 {
		_ = os.WriteFile(filepath.Join(filepath.Dir(st.dir), "1_wrong.up.sql"), []byte("-- script wrong\n"), 0o600)
	}
	return st
}

func (st *steps) index(v int) int {
	for i, x := range st.versions {
		if x == v {
			return i
		}
	}
	return -1
}

// plan is what a migration has to do.
type plan struct {
	scripts []string
	recs    []record // states of the table that may be left behind, in order
	fails   bool
}

// expect computes the effect of a migration from a state.
func (st *steps) expect(rec record, force, target int, broken string) plan {
	p := plan{recs: []record{rec}}
	set := func(r record) {
		rec = r
		p.recs = append(p.recs, r)
	}
	if force > 0 {
		set(record{true, force, false})
	}
	if rec.dirty {
		p.fails = true
		return p
	}
	cur := -1
	if rec.has {
		cur = st.index(rec.version)
		if cur < 0 {
			p.fails = true
			return p
		}
	}
	to := len(st.versions) - 1
	if target > 0 {
		if to = st.index(target); to < 0 {
			p.fails = true
			return p
		}
	}
	run := func(v int, dir string, there bool, next int) bool {
		set(record{true, next, true})
		if there {
			s := fmt.Sprintf("%d.%s", v, dir)
			if s == broken {
				p.fails = true
				return false
			}
			p.scripts = append(p.scripts, s)
		}
		set(record{true, next, false})
		return true
	}
	for cur < to {
		cur++
		v := st.versions[cur]
		if !run(v, "up", st.up[v], v) {
			return p
		}
	}
	for cur > to {
		v := st.versions[cur]
		cur--
		if !run(v, "down", st.down[v], st.versions[cur]) {
			return p
		}
	}
	return p
}

func TestC31(t *testing.T) {
	mon.Run(t, "C31", "a case is one migration within a history of a database (version, target, forced version, failing script, injected fault, concurrent migrations); non-trivial when a script runs, the version is forced or something fails", func(m *mon.M) {
		m.Assume("the database is a model of Postgres behind the wire protocol: transactions, the advisory lock and the table of versions; SQL Server migrations are not run")
		base := t.TempDir()
		for n := 0; n < m.N(400, 5000); n++ {
			r := m.Rand("history", n)
			m.Guard("history", n, func() { history(m, r, base, n) })
			_ = os.RemoveAll(filepath.Join(base, strconv.Itoa(n)))
		}
		for n := 0; n < m.N(50, 600); n++ {
			r := m.Rand("together", n)
			m.Guard("together", n, func() { together(m, r, base, 100000+n) })
			_ = os.RemoveAll(filepath.Join(base, strconv.Itoa(100000+n)))
		}
		nothing(m, base)
		for _, k := range []string{"steps_up", "steps_down", "forced", "failed_scripts", "faults", "dirty", "unchanged"} {
			m.Need(k, 20)
		}
		m.Need("concurrent", 20)
	})
}

func within(f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
		return true
	case <-time.After(limit):
		return false
	}
}

func pgSource(d *migdb) string {
	return "postgres://u:p@" + d.srv.Addr() + "/app?sslmode=disable"
}

var cwd, _ = os.Getwd()

func history(m *mon.M, r *rand.Rand, base string, n int) {
	d := newMigDB()
	defer d.close()
	st := genSteps(r, base, n)
	db, err := sql.Open("postgres", pgSource(d))
	if err != nil {
		panic(err)
	}
	defer func() { _ = db.Close() }()
	var log []string
	for k := 2 + r.IntN(5); k > 0; k-- {
		force, target, broken, at := 0, 0, "", 0
		vs := append([]int{999999, 1}, st.versions...)
		if r.IntN(2) == 0 {
			target = vs[r.IntN(len(vs))]
			if r.IntN(3) > 0 {
				target = st.versions[r.IntN(len(st.versions))]
			}
		}
		if r.IntN(4) == 0 || d.rec.dirty && r.IntN(2) == 0 {
			force = st.versions[r.IntN(len(st.versions))]
			if r.IntN(8) == 0 {
				force = vs[r.IntN(len(vs))]
			}
		}
		if r.IntN(5) == 0 {
			broken = fmt.Sprintf("%d.%s", st.versions[r.IntN(len(st.versions))], []string{"up", "down"}[r.IntN(2)])
		}
		how := ""
		if r.IntN(5) == 0 {
			at = 1 + r.IntN(14+4*len(st.versions))
			how = []string{"error", "drop"}[r.IntN(2)]
		}
		missing := r.IntN(12) == 0
		dir := st.dir
		if missing {
			dir = filepath.Join(st.dir, "missing")
		}
		d.mu.Lock()
		before := d.rec
		d.ran, d.broken, d.at, d.how, d.seen, d.bad = nil, broken, at, how, 0, nil
		d.mu.Unlock()
		d.srv.Reset()
		if rel, err := filepath.Rel(cwd, dir); err == nil && r.IntN(4) == 0 {
			dir = rel
		}
		via := []string{"postgres", "pgsql", "provider"}[r.IntN(3)]
		// not a version: as if none was given
		if force == 0 && r.IntN(4) == 0 {
			force = -1 - r.IntN(3)
		}
		if target == 0 && r.IntN(4) == 0 {
			target = -1 - r.IntN(3)
		}
		call := fmt.Sprintf("migrate via %s in %q (versions %v), force %d, target %d, broken %q, fault %s@%d, missing %v, from %s", via, st.dir, st.versions, force, target, broken, how, at, missing, before)
		log = append(log, call)
		what := strings.Join(log, "\n")
		if via == "provider" {
			var p xdb.Provider
			if !within(func() {
				p, err = xdb.NewProvider(pgSource(d), "", nil, &xdb.MigrationConfig{Source: dir, ForceVersion: force, MigrateVersion: target})
			}) {
				m.Fail("hangs", "%s\ndid not return within %v", what, limit)
				return
			}
			if (p == nil) != (err != nil) {
				m.Fail("provider", "%s\nprovider %v with error %v", what, p != nil, err)
			}
			if p != nil {
				_ = p.Close()
			}
		} else {
			if !within(func() { err = migrate.Migrate(via, "app", dir, force, target, db) }) {
				m.Fail("hangs", "%s\ndid not return within %v", what, limit)
				return
			}
			if n := db.Stats().InUse; n != 0 {
				m.Fail("conn-occupied", "%s\n%d connections still in use", what, n)
			}
			d.mu.Lock()
			d.at = 0
			d.mu.Unlock()
			if err := db.Ping(); err != nil {
				m.Fail("unusable", "%s\nthe database cannot be used afterwards: %v", what, err)
			}
		}
		p := st.expect(before, force, target, broken)
		if missing {
			p = plan{recs: []record{before}, fails: true}
		}
		d.mu.Lock()
		ran, rec, bad, seen, owner := append([]string(nil), d.ran...), d.rec, d.bad, d.seen, d.owner
		d.at = 0
		d.mu.Unlock()
		if len(bad) > 0 {
			m.Fail("protocol", "%s\n%v", what, bad)
		}
		if owner != 0 && !eventually(func() bool { d.mu.Lock(); defer d.mu.Unlock(); return d.owner == 0 }) {
			m.Fail("locked", "%s\nthe lock stays taken", what)
		}
		if missing && seen > 0 && via != "provider" {
			m.Fail("access", "%s\n%d statements in spite of the missing directory", what, seen)
		}
		fault := at > 0 && seen >= at
		last := p.recs[len(p.recs)-1]
		ok := err == nil
		if !fault {
			if ok == p.fails {
				m.Fail("result", "%s\nreturned %v", what, err)
			}
			if fmt.Sprint(ran) != fmt.Sprint(p.scripts) {
				m.Fail("scripts", "%s\nran %v, want %v (error %v)", what, ran, p.scripts, err)
			}
			if rec != last {
				m.Fail("version", "%s\nrecorded %s, want %s (error %v)", what, rec, last, err)
			}
		} else {
			m.Count("faults", 1)
			if ok && (p.fails || rec != last || fmt.Sprint(ran) != fmt.Sprint(p.scripts)) {
				m.Fail("silent", "%s\nsuccess in spite of the fault: ran %v, recorded %s; want %v, %s", what, ran, rec, p.scripts, last)
			}
			if len(ran) > len(p.scripts) || fmt.Sprint(ran) != fmt.Sprint(p.scripts[:len(ran)]) {
				m.Fail("scripts", "%s\nran %v, not the beginning of %v", what, ran, p.scripts)
			}
			found := false
			for _, x := range p.recs {
				found = found || x == rec
			}
			if !found {
				m.Fail("version", "%s\nrecorded %s, not one of %v", what, rec, p.recs)
			}
		}
		// counters
		if force > 0 {
			m.Count("forced", 1)
		}
		if before.dirty {
			m.Count("dirty", 1)
		}
		for _, s := range ran {
			m.Count("steps_"+s[strings.Index(s, ".")+1:], 1)
		}
		if p.fails && broken != "" {
			m.Count("failed_scripts", 1)
		}
		if ok && len(p.recs) == 1 {
			m.Count("unchanged", 1)
		}
		m.Eval(len(p.recs) > 1 || p.fails || fault, what)
		m.State("migrations", before, force, target, len(ran), ok, fault, via)
		if !eventually(func() bool { return d.srv.Open() <= db.Stats().OpenConnections }) {
			m.Fail("left-open", "%s\n%d connections", what, d.srv.Open())
		}
	}
	if n%40 == 0 {
		m.Sample(log)
	}
	_ = db.Close()
	if !eventually(func() bool { return d.srv.Open() == 0 }) {
		m.Fail("left-open", "%s\n%d connections after closing", strings.Join(log, "\n"), d.srv.Open())
	}
}

// together runs several migrations of the same database at the same time.
func together(m *mon.M, r *rand.Rand, base string, n int) {
	d := newMigDB()
	defer d.close()
	d.stall = true
	st := genSteps(r, base, n)
	k := 2 + r.IntN(3)
	errs := make([]error, k)
	var wg sync.WaitGroup
	for i := 0; i < k; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			db, err := sql.Open("postgres", pgSource(d))
			if err != nil {
				panic(err)
			}
			defer func() { _ = db.Close() }()
			errs[i] = migrate.Migrate("postgres", "app", st.dir, 0, 0, db)
		}()
	}
	wg.Wait()
	what := fmt.Sprintf("%d migrations at once in %q (versions %v)", k, st.dir, st.versions)
	p := st.expect(record{}, 0, 0, "")
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, err := range errs {
		if err != nil {
			m.Fail("together-error", "%s\n%v", what, errs)
			break
		}
	}
	if fmt.Sprint(d.ran) != fmt.Sprint(p.scripts) || d.rec != p.recs[len(p.recs)-1] || len(d.bad) > 0 {
		m.Fail("together", "%s\nran %v, recorded %s; want %v; %v", what, d.ran, d.rec, p.scripts, d.bad)
	}
	m.Count("concurrent", 1)
	m.Eval(true, what)
}

// nothing covers what must not reach the database.
func nothing(m *mon.M, base string) {
	d := newMigDB()
	defer d.close()
	dir := filepath.Join(base, "some")
	_ = os.MkdirAll(dir, 0o700)
	_ = os.WriteFile(filepath.Join(dir, "1_a.up.sql"), []byte("-- script 1.up\n"), 0o600)
	db, _ := sql.Open("postgres", pgSource(d))
	defer func() { _ = db.Close() }()
	provs := []string{"postgres", "pgsql", "sqlserver", "mysql", "", "sqlite3"}
	sort.Strings(provs)
	for _, p := range provs {
		for _, src := range []string{"", filepath.Join(base, "none"), dir} {
			if src == dir && (p == "postgres" || p == "pgsql") {
				continue
			}
			d.srv.Reset()
			d.seen = 0
			what := fmt.Sprintf("migrate %q from %q", p, src)
			var err error
			m.Guard("nothing", what, func() { err = migrate.Migrate(p, "app", src, 3, 2, db) })
			if (err == nil) != (src == "") {
				m.Fail("nothing-result", "%s\nreturned %v", what, err)
			}
			if p != "sqlserver" && len(d.srv.Log()) > 0 || src != dir && len(d.srv.Log()) > 0 {
				m.Fail("access", "%s\ntouched the database: %v", what, d.srv.Log())
			}
			if len(d.ran) > 0 {
				m.Fail("scripts", "%s\nran %v", what, d.ran)
			}
			m.Eval(true, what)
		}
	}
	// a nil handle proves that it is not used
	for _, p := range provs {
		m.Guard("nil-db", p, func() {
			if err := migrate.Migrate(p, "app", "", 0, 0, nil); err != nil {
				m.Fail("nothing-result", "empty source for %q: %v", p, err)
			}
			if err := migrate.Migrate(p, "app", filepath.Join(base, "none"), 0, 0, nil); err == nil {
				m.Fail("nothing-result", "missing directory for %q was accepted", p)
			}
		})
	}
	// a database that cannot be used
	closed, _ := sql.Open("postgres", pgSource(d))
	_ = closed.Close()
	dead, _ := sql.Open("postgres", "postgres://u:p@"+deadPort()+"/app?sslmode=disable")
	gone, _ := sql.Open("sqlserver", "sqlserver://u:p@"+deadPort()+"?encrypt=disable&dial+timeout=1")
	_ = gone.Close()
	for what, x := range map[string]*sql.DB{"a closed database": closed, "a database nobody serves": dead, "a closed SQL Server": gone} {
		p := "postgres"
		if x == gone {
			p = "sqlserver"
		}
		var err error
		if m.Guard("unusable", what, func() { err = migrate.Migrate(p, "app", dir, 0, 0, x) }) && err == nil {
			m.Fail("nothing-result", "migrating %s was not reported", what)
		}
		m.Eval(true, what)
	}
	_ = dead.Close()
	// a server that fails every statement
	tds := tdsfake.New()
	defer tds.Close()
	sdb, _ := sql.Open("sqlserver", "sqlserver://u:p@"+tds.Addr()+"?encrypt=disable")
	tds.FailQueries.Store(true)
	if err := migrate.Migrate("sqlserver", "app", dir, 0, 0, sdb); err == nil {
		m.Fail("nothing-result", "SQL Server failures were not reported")
	}
	_ = sdb.Close()
	// no directory is read from the working directory by accident
	if p, err := xdb.NewProvider(pgSource(d), "", nil, &xdb.MigrationConfig{ForceVersion: 2, MigrateVersion: 1}); err != nil || d.rec.has {
		m.Fail("access", "a provider without a source: %v, %s", err, d.rec)
	} else {
		_ = p.Close()
	}
}
