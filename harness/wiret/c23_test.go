package wiret

import (
	"context"
	"database/sql"
	"fmt"
	"math/rand/v2"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/effective-security/xdb"

	"verif/mon"
	"verif/pgfake"
	"verif/tdsfake"
	"verif/tval"
)

// source is a connection string built from known parts.
type source struct {
	driver, user, pass, host, db string
	hasPass                      bool
	params                       map[string]string
	// how the database is written: "", path, dbname, database
	form string
	text string
	path string // the SQL Server instance
}

const unreserved = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~"

// esc percent-encodes; raw are further characters that may stay as they are.
func esc(r *rand.Rand, s, raw string) string {
	var b strings.Builder
	over := r.IntN(3) == 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case strings.IndexByte(unreserved, c) >= 0 && !(over && r.IntN(4) == 0):
			b.WriteByte(c)
		case strings.IndexByte(raw, c) >= 0 && r.IntN(2) == 0:
			b.WriteByte(c)
		case r.IntN(2) == 0:
			fmt.Fprintf(&b, "%%%02x", c)
		default:
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

const inUser = "!$&'()*+,;="

var pieces = []string{"a", "b", "user", "X", "0", "9", "@", ":", "/", "?", "#", "%", "+", "&", "=", ";", " ", "'", `"`, `\`, "[", "]", "{", "}", "$", "!", "*", "(", ")", ",", "é", "日", "🙂", "%41", "%", "..", "~", "|", "^", "<", ">", "`", "-", "_", "dbname", "database"}

func word(r *rand.Rand, min int) string {
	if r.IntN(3) == 0 {
		return []string{"app", "postgres", "test_db", "u1", "My Db"}[r.IntN(5)]
	}
	var b strings.Builder
	for i := min + r.IntN(5); i > 0; i-- {
		b.WriteString(pieces[r.IntN(len(pieces))])
	}
	return b.String()
}

// value is a word that is neither padded nor empty.
func value(r *rand.Rand) string {
	for {
		if w := strings.TrimSpace(word(r, 1)); w != "" {
			return w
		}
	}
}

func genSource(r *rand.Rand, driver, host string, padUser bool, params map[string]string) *source {
	s := &source{driver: driver, user: value(r), host: host, params: map[string]string{}}
	if padUser && r.IntN(8) == 0 {
		s.user = []string{" ", "", "\t"}[r.IntN(3)] + s.user + []string{" ", "\n", "  "}[r.IntN(3)]
	}
	switch r.IntN(5) {
	case 0:
	case 1:
		s.hasPass = true
	default:
		s.hasPass, s.pass = true, word(r, 1)
	}
	for k, v := range params {
		s.params[k] = v
	}
	path := ""
	var q []string
	add := func(k, v string) {
		e := esc(r, v, "!$'()*,/:@?")
		if r.IntN(3) == 0 {
			e = strings.ReplaceAll(e, "%20", "+")
		}
		q = append(q, esc(r, k, "")+"="+e)
	}
	if r.IntN(6) > 0 {
		s.db = value(r)
		forms := []string{"path", "dbname"}
		if driver == "sqlserver" {
			forms = []string{"database"}
		}
		s.form = forms[r.IntN(len(forms))]
		switch s.form {
		case "path":
			path = "/" + esc(r, s.db, inUser+":@")
		default:
			k := s.form
			if driver == "sqlserver" && r.IntN(4) == 0 {
				k = []string{"Database", "DATABASE"}[r.IntN(2)]
			}
			add(k, s.db)
			s.params[k] = s.db
		}
	}
	if path == "" && driver == "postgres" && r.IntN(3) == 0 {
		path = "/"
	}
	if driver == "sqlserver" && r.IntN(3) == 0 { // the instance
		path = "/" + []string{"SQLEXPRESS", "app", "in stance", "инст"}[r.IntN(4)]
		path = strings.ReplaceAll(path, " ", "%20")
		s.path, _ = url.PathUnescape(path)
	}
	for k, v := range params {
		add(k, v)
	}
	r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
	if len(q) > 0 && driver != "sqlserver" && r.IntN(6) == 0 {
		// set again: drivers take the first, or refuse it (SQL Server)
		k, _, _ := strings.Cut(q[r.IntN(len(q))], "=")
		q = append(q, k+"="+esc(r, word(r, 0), ""))
	}
	s.text = driver + "://" + esc(r, s.user, inUser)
	if s.hasPass {
		s.text += ":" + esc(r, s.pass, inUser)
	}
	s.text += "@" + host + path
	if len(q) > 0 {
		s.text += "?" + strings.Join(q, "&")
	} else if r.IntN(4) == 0 {
		s.text += "?"
	}
	return s
}

// wrapped is the text as users hold it: padded, quoted, in a file or in the environment.
func (s *source) wrapped(r *rand.Rand, dir string) (string, string) {
	t := s.text
	how := "plain"
	switch r.IntN(6) {
	case 0:
		how, t = "padded", []string{" ", "\n", "\t", " \r\n"}[r.IntN(4)]+t+[]string{"\n", " ", "\r\n"}[r.IntN(3)]
	case 1:
		how, t = "quoted", `"`+t+`"`
	case 2:
		how, t = "quoted padded inside", `" `+t+` "`
	}
	switch r.IntN(5) {
	case 0:
		how += " file"
		if r.IntN(2) == 0 {
			how += " with newline"
			t += "\n"
		}
		fn := filepath.Join(dir, "source")
		if err := os.WriteFile(fn, []byte(t), 0o600); err != nil {
			panic(err)
		}
		return "file://" + fn, how
	case 1:
		_ = os.Setenv("VERIF_SOURCE", t)
		return "env://VERIF_SOURCE", how + " env"
	}
	return t, how
}

var hosts = []string{"db", "db.example.com", "db:5432", "10.0.0.1", "10.0.0.1:1433", "[::1]", "[::1]:5432", "[fe80::1%25en0]:1", "my-host_1", "localhost", "a.b.c:1", "Host:65535"}

// pgParams are settings a Postgres client hands to the server.
func pgParams(r *rand.Rand) map[string]string {
	p := map[string]string{}
	for _, k := range []string{"application_name", "search_path", "TimeZone", "my.setting"} {
		if r.IntN(3) == 0 {
			p[k] = value(r)
		}
	}
	return p
}

func TestC23(t *testing.T) {
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); strings.HasPrefix(k, "PG") {
			_ = os.Unsetenv(k)
		}
	}
	_ = os.Setenv("PGPASSFILE", "/nonexistent")
	mon.Run(t, "C23", "a case is one connection string built from chosen parts, parsed or opened against a server that records the login; non-trivial when a part needs escaping or a database is selected", func(m *mon.M) {
		dir := t.TempDir()
		parseAll(m, dir)
		openPostgres(m, dir)
		openSQLServer(m, dir)
		openErrors(m, dir)
		m.Need("parsed", 5000)
		m.Need("pg_logins", 300)
		m.Need("tds_logins", 200)
		m.Need("rejected", 40)
	})
}

func parseAll(m *mon.M, dir string) {
	for n := 0; n < m.N(20000, 300000); n++ {
		r := m.Rand("parse", n)
		drv := []string{"postgres", "sqlserver", "mysql", "other"}[r.IntN(4)]
		params := map[string]string{}
		for i := r.IntN(4); i > 0; i-- {
			k := []string{"sslmode", "application_name", "app name", "encrypt", "a&b", "k=v", "connect_timeout", "é"}[r.IntN(8)]
			params[k] = word(r, 0)
		}
		s := genSource(r, drv, hosts[r.IntN(len(hosts))], true, params)
		in, how := s.wrapped(r, dir)
		what := fmt.Sprintf("%s: %q", how, s.text)
		var got *xdb.Source
		var err error
		if !m.Guard("parse", what, func() { got, err = xdb.ParseConnectionString(in) }) {
			continue
		}
		if err != nil {
			m.Fail("parse-error", "%s\n%v", what, err)
			continue
		}
		m.Count("parsed", 1)
		host := strings.ReplaceAll(s.host, "%25", "%")
		if drv != "postgres" && s.form == "path" {
			s.db = got.Database
		}
		for _, f := range []struct{ k, got, want string }{
			{"driver", got.Driver, s.driver}, {"user", got.User, s.user}, {"password", got.Password, s.pass},
			{"host", got.Host, host}, {"database", got.Database, s.db}, {"source", got.Source, s.text},
		} {
			if f.got != f.want {
				m.Fail("parse-"+f.k, "%s\n%s %q, want %q", what, f.k, f.got, f.want)
			}
		}
		if !reflect.DeepEqual(got.Params, s.params) {
			m.Fail("parse-params", "%s\nparameters %q, want %q", what, got.Params, s.params)
		}
		if n%4 == 0 && len(s.params) > 0 { // the result belongs to the caller
			for k := range got.Params {
				got.Params[k] = "spoiled"
			}
			got.Password, got.Database = "spoiled", "spoiled"
			if got, err = xdb.ParseConnectionString(in); err != nil || got.Password != s.pass || !reflect.DeepEqual(got.Params, s.params) {
				m.Fail("parse-owner", "%s\nparsed again after the result was changed: %+v (%v)", what, got, err)
				continue
			}
		}
		m.Eval(s.text != s.driver+"://"+s.user+"@"+s.host, s.text, how)
		if n%5003 == 0 {
			m.Sample(map[string]any{"source": s.text, "held": how, "parsed": got})
		}
	}
}

func eventually(f func() bool) bool {
	for i := 0; i < 4000; i++ {
		if f() {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

func ok(*pgfake.Session, string, []any, bool) pgfake.Result { return pgfake.Result{} }

func openPostgres(m *mon.M, dir string) {
	srv := pgfake.New()
	srv.Handle = ok
	srv.Start()
	defer srv.Close()
	for n := 0; n < m.N(1500, 15000); n++ {
		r := m.Rand("pg", n)
		params := pgParams(r)
		want := map[string]string{}
		for k, v := range params {
			want[k] = v
		}
		params["sslmode"] = "disable"
		s := genSource(r, "postgres", srv.Addr(), false, params)
		in, how := s.wrapped(r, dir)
		db := ""
		if r.IntN(4) > 0 {
			db = value(r)
		}
		srv.Reset()
		useProvider := r.IntN(3) == 0
		what := fmt.Sprintf("open %s: %q with database %q", how, s.text, db)
		var d *sql.DB
		var p xdb.Provider
		var name, ds string
		var err error
		if !m.Guard("open", what, func() {
			if useProvider {
				p, err = xdb.NewProvider(in, db, nil, nil)
			} else {
				d, name, ds, err = xdb.Open(in, db)
			}
		}) {
			continue
		}
		if err != nil {
			m.Fail("open-error", "%s\n%v", what, err)
			continue
		}
		if p != nil {
			name, ds = p.Name(), p.ConnectionString()
		}
		if name != "postgres" {
			m.Fail("open-driver", "%s\ndriver %q", what, name)
		}
		checkPG := func(what string) {
			l := srv.Sessions()
			if len(l) == 0 {
				m.Fail("open-login", "%s\nno login", what)
				return
			}
			for _, c := range l {
				m.Count("pg_logins", 1)
				wdb := s.db
				if db != "" {
					wdb = db
				}
				if wdb == "" {
					wdb = c.Params["database"] // the client's default
				}
				if c.Params["user"] != s.user || c.Password != s.pass || c.Params["database"] != wdb {
					m.Fail("open-identity", "%s\nlogged in as %q, password %q, database %q", what, c.Params["user"], c.Password, c.Params["database"])
				}
				for k, v := range want {
					if c.Params[k] != v {
						m.Fail("open-setting", "%s\nsetting %s is %q, want %q", what, k, c.Params[k], v)
					}
				}
				for k := range c.Params {
					if _, ok := want[k]; !ok && k != "user" && k != "database" && k != "client_encoding" && k != "datestyle" {
						m.Fail("open-extra", "%s\nsetting %s=%q was not asked for", what, k, c.Params[k])
					}
				}
			}
		}
		checkPG(what)
		if d != nil {
			_ = d.Close()
		} else {
			_ = p.Close()
		}
		// the reported connection string leads to the same place
		srv.Reset()
		d2, err := sql.Open(name, ds)
		if err == nil {
			err = d2.PingContext(context.Background())
			_ = d2.Close()
		}
		if err != nil {
			m.Fail("connstr", "%s\nreported connection string %q: %v", what, ds, err)
		} else {
			checkPG(what + " (reported connection string " + ds + ")")
		}
		m.Eval(true, s.text, db, how, useProvider)
		m.State("open_forms", s.form, db != "", s.hasPass, how, useProvider, len(params))
	}
	if !eventually(func() bool { return srv.Open() == 0 }) {
		m.Fail("open-left", "%d connections left after closing", srv.Open())
	}
}

func openSQLServer(m *mon.M, dir string) {
	srv := tdsfake.New()
	defer srv.Close()
	for n := 0; n < m.N(1000, 10000); n++ {
		r := m.Rand("tds", n)
		params := map[string]string{"encrypt": "disable"}
		app := ""
		if r.IntN(2) == 0 {
			app = noWide(value(r))
			params["app name"] = app
		}
		s := genSource(r, "sqlserver", srv.Addr(), false, params)
		if noWide(s.user+s.pass+s.db) != s.user+s.pass+s.db {
			continue // the SQL Server client miscounts characters beyond the basic plane
		}
		if strings.Contains(s.user, `\`) {
			continue // names with a domain log in without a password
		}
		in, how := s.wrapped(r, dir)
		db := ""
		if r.IntN(4) > 0 {
			db = noWide(value(r))
		}
		if db == "" && n%4 > 0 {
			db = "orders"
		}
		srv.Reset()
		what := fmt.Sprintf("open %s: %q with database %q", how, s.text, db)
		var d *sql.DB
		var name, ds string
		var err error
		if !m.Guard("open", what, func() { d, name, ds, err = xdb.Open(in, db) }) {
			continue
		}
		if err != nil {
			m.Fail("open-error", "%s\n%v", what, err)
			continue
		}
		if name != "sqlserver" {
			m.Fail("open-driver", "%s\ndriver %q", what, name)
		}
		check := func(what string) {
			l := srv.Logins()
			if len(l) == 0 {
				m.Fail("open-login", "%s\nno login", what)
			}
			for _, c := range l {
				m.Count("tds_logins", 1)
				wdb := s.db
				if db != "" {
					wdb = db
				}
				if c.User != s.user || c.Password != s.pass || c.Database != wdb || app != "" && c.App != app {
					m.Fail("open-identity", "%s\nlogged in as %q, password %q, application %q (want %q), database %q", what, c.User, c.Password, c.App, app, c.Database)
				}
			}
		}
		check(what)
		_ = d.Close()
		if u, err := url.Parse(ds); err != nil || strings.TrimSuffix(u.Path, "/") != s.path {
			m.Fail("connstr-instance", "%s\nreported connection string %q (%v) has not the instance %q", what, ds, err, s.path)
		}
		srv.Reset()
		d2, err := sql.Open(name, ds)
		if err == nil {
			err = d2.Ping()
			_ = d2.Close()
		}
		if err != nil {
			m.Fail("connstr", "%s\nreported connection string %q: %v", what, ds, err)
		} else {
			check(what + " (reported connection string " + ds + ")")
		}
		m.Eval(true, s.text, db, how)
	}
	if !eventually(func() bool { return srv.Open() == 0 }) {
		m.Fail("open-left", "%d connections left after closing", srv.Open())
	}
}

func noWide(s string) string {
	return strings.Map(func(c rune) rune {
		if c > 0xFFFF {
			return '?'
		}
		return c
	}, s)
}

// deadPort is an address nobody listens on.
func deadPort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().String()
}

func openErrors(m *mon.M, dir string) {
	pg := pgfake.New()
	pg.Handle = ok
	pg.Accept = func(s *pgfake.Session) *pgfake.Error {
		if s.Params["user"] == "nobody" {
			return &pgfake.Error{Code: "28P01", Msg: "password authentication failed"}
		}
		if s.Params["database"] == "missing" {
			return &pgfake.Error{Code: "3D000", Msg: "database does not exist"}
		}
		return nil
	}
	pg.Start()
	defer pg.Close()
	tds := tdsfake.New()
	tds.Reject.Store(true)
	defer tds.Close()
	tds2 := tdsfake.New()
	tds2.FailQueries.Store(true)
	defer tds2.Close()
	dead := deadPort()
	empty := filepath.Join(dir, "empty")
	_ = os.WriteFile(empty, nil, 0o600)
	type bad struct{ ds, db string }
	var l []bad
	for _, db := range []string{"", "app"} {
		for _, ds := range []string{
			"mysql://u:p@" + pg.Addr() + "/x", "postgresql://u:p@" + pg.Addr() + "/x?sslmode=disable", "pg://u@h", "://", "", " ", `""`, "u:p@h", "%zz", "postgres://%zz@h/", "postgres://u:p@h:port/x",
			"host=127.0.0.1 user=u", "server=127.0.0.1;user id=u", "postgres://u\x01@h/x", "file:///nonexistent/source", "file://" + empty, "env://VERIF_UNSET_SOURCE",
			"postgres://u:p@" + dead + "/x?sslmode=disable", "sqlserver://u:p@" + dead + "?encrypt=disable&dial+timeout=1",
			"postgres://nobody:p@" + pg.Addr() + "/x?sslmode=disable", "postgres://u:p@" + pg.Addr() + "/x?sslmode=require", "postgres://u:p@" + pg.Addr() + "/x?sslmode=bogus",
			"sqlserver://u:p@" + tds.Addr() + "?encrypt=disable", "sqlserver://u:p@" + tds2.Addr() + "?encrypt=disable",
			"sqlserver://u:p@" + tds.Addr() + "?encrypt=disable&connection+timeout=x",
		} {
			l = append(l, bad{ds, db})
		}
	}
	l = append(l, bad{"postgres://u:p@" + pg.Addr() + "/missing?sslmode=disable", ""}, bad{"postgres://u:p@" + pg.Addr() + "/x?sslmode=disable", "missing"},
		bad{"postgres://u:p@" + pg.Addr() + "?sslmode=disable&dbname=x", "missing"})
	r := m.Rand("errors", 0)
	for i := 0; i < m.N(10, 100); i++ {
		l = append(l, bad{tval.NoNul(word(r, 2)), ""})
	}
	for _, b := range l {
		what := fmt.Sprintf("open %q with database %q", b.ds, b.db)
		m.Guard("open", what, func() {
			d, _, _, err := xdb.Open(b.ds, b.db)
			if err == nil || d != nil {
				m.Fail("accepted", "%s\nwas accepted: %v, %v", what, d != nil, err)
			}
			p, err := xdb.NewProvider(b.ds, b.db, nil, &xdb.MigrationConfig{})
			if err == nil || p != nil {
				m.Fail("accepted", "provider %s\nwas accepted: %v, %v", what, p != nil, err)
			}
		})
		m.Count("rejected", 1)
		m.Eval(true, "bad", b.ds, b.db)
	}
	if !eventually(func() bool { return pg.Open() == 0 && tds.Open() == 0 && tds2.Open() == 0 }) {
		m.Fail("rejected-left", "connections left after failures: %d %d %d", pg.Open(), tds.Open(), tds2.Open())
	}
	// parsing reports sources it cannot resolve or parse
	for _, ds := range []string{"file:///nonexistent/source", "env://VERIF_UNSET_SOURCE", "secret://x", "%zz", "postgres://%zz@h/", "postgres://u:p@h:port/x", "postgres://u\x01@h/x", "://"} {
		if s, err := xdb.ParseConnectionString(ds); err == nil || s != nil {
			m.Fail("accepted", "parsing %q was accepted: %+v", ds, s)
		}
		m.Eval(true, "badparse", ds)
	}
}
