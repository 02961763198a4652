package wiret

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/effective-security/xdb/schema"
	"gopkg.in/yaml.v3"

	"verif/catalog"
	"verif/mon"
	"verif/pgcat"
	"verif/pgfake"
	"verif/scmp"
	"verif/tdsfake"
)

// cliCase is one run of the tool.
type cliCase struct {
	cmd     string
	db      string
	format  string
	args    []string
	schemas []string
	tables  []string // or views
	views   bool     // tables and columns also list views
	viewSel []string // generate
	deps    bool
	model   string
	schema  string
}

func flags(r *rand.Rand, name string, l []string) (a []string) {
	if len(l) > 1 && r.IntN(2) == 0 {
		return []string{"--" + name, strings.Join(l, ",")}
	}
	for _, v := range l {
		if r.IntN(2) == 0 {
			a = append(a, "--"+name+"="+v)
		} else {
			a = append(a, "--"+name, v)
		}
	}
	return
}

func given(l []string) []string {
	return slices.DeleteFunc(append([]string(nil), l...), func(s string) bool { return s == "" })
}

func genCase(r *rand.Rand, c *catalog.Catalog) *cliCase {
	k := &cliCase{cmd: []string{"columns", "tables", "views", "foreign-keys", "generate"}[r.IntN(5)]}
	k.db = []string{"app", "My Db", "orders-2", "Ünïted", "x"}[r.IntN(5)]
	fs, ft := scmp.Filters(r, c)
	k.schemas, k.tables = given(fs), given(ft)
	var parts [][]string
	parts = append(parts, []string{"--db=" + k.db})
	if r.IntN(2) == 0 {
		parts[0] = []string{"--db", k.db}
	}
	parts = append(parts, flags(r, "schema", k.schemas))
	switch k.cmd {
	case "views":
		parts = append(parts, flags(r, "view", k.tables))
	default:
		parts = append(parts, flags(r, "table", k.tables))
	}
	switch k.cmd {
	case "columns":
		k.deps = r.IntN(2) == 0
		k.views = r.IntN(2) == 0
	case "tables":
		k.deps = true
		k.views = r.IntN(2) == 0
	case "generate":
		k.deps = r.IntN(2) == 0
		if r.IntN(2) == 0 {
			for _, t := range c.Tabs {
				if t.View && r.IntN(2) == 0 {
					k.viewSel = append(k.viewSel, t.Name)
				}
			}
			if r.IntN(4) == 0 {
				k.viewSel = append(k.viewSel, "missing")
			}
			parts = append(parts, flags(r, "view", k.viewSel))
		}
		if r.IntN(5) > 0 {
			k.model = []string{"out/model", "model", "./a/b/c", "m"}[r.IntN(4)]
			parts = append(parts, []string{"--out-model", k.model})
		}
		if r.IntN(5) > 0 {
			k.schema = []string{"out/schema", "schema", "./a/b/d", "s"}[r.IntN(4)]
			parts = append(parts, []string{"--out-schema", k.schema})
		}
	}
	if k.deps && k.cmd != "tables" {
		parts = append(parts, []string{"--dependencies"})
	}
	if k.views {
		parts = append(parts, []string{"--views"})
	}
	k.format = "table"
	switch r.IntN(4) {
	case 0:
		k.format = "json"
		parts = append(parts, []string{"--o=json"})
	case 1:
		k.format = "yaml"
		parts = append(parts, []string{"--o", "yaml"})
	case 2:
		parts = append(parts, []string{"--o", "table"})
	}
	if r.IntN(4) == 0 {
		parts = append(parts, []string{[]string{"-D", "--debug"}[r.IntN(2)]})
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	k.args = []string{"schema", k.cmd}
	for _, p := range parts {
		k.args = append(k.args, p...)
	}
	return k
}

// listed is what the command selects, in the order of the listing.
func (k *cliCase) listed(c *catalog.Catalog) (l []*catalog.Tab) {
	byName := func(l []*catalog.Tab) []*catalog.Tab {
		sort.SliceStable(l, func(i, j int) bool { return l[i].Schema+"."+l[i].Name < l[j].Schema+"."+l[j].Name })
		return l
	}
	selected := func(view bool, names []string) (o []*catalog.Tab) {
		for _, t := range c.Tabs {
			if t.View == view && scmp.Fold(k.schemas, t.Schema) && scmp.Fold(names, t.Name) {
				o = append(o, t)
			}
		}
		return byName(o)
	}
	if k.cmd == "views" {
		return selected(true, k.tables)
	}
	l = selected(false, k.tables)
	if k.deps {
		l = byName(scmp.Closure(c, l))
	}
	if k.views {
		l = append(l, selected(true, k.tables)...)
	}
	if len(k.viewSel) > 0 {
		l = append(l, selected(true, k.viewSel)...)
	}
	return l
}

// verify compares what was printed with the catalog.
func (k *cliCase) verify(c *catalog.Catalog, out string) string {
	if k.cmd == "foreign-keys" {
		var want []catalog.FK
		for _, f := range c.FKs {
			if scmp.Fold(k.schemas, f.Schema) && scmp.Fold(k.tables, f.Table) {
				want = append(want, f)
			}
		}
		var keys schema.ForeignKeys
		for _, f := range catalog.SortedFKs(want) {
			x := scmp.AsFK(f)
			keys = append(keys, &x)
		}
		var got schema.ForeignKeys
		switch k.format {
		case "json":
			if err := json.Unmarshal([]byte(out), &got); err != nil {
				return err.Error()
			}
		case "yaml":
			if err := yaml.Unmarshal([]byte(out), &got); err != nil {
				return err.Error()
			}
		default:
			return scmp.TableText(keys, out)
		}
		if len(got) != len(keys) {
			return fmt.Sprintf("%d foreign keys, want %d", len(got), len(keys))
		}
		for i, g := range got {
			w := *keys[i]
			w.SchemaName = ""
			if g == nil || *g != w {
				return fmt.Sprintf("foreign key %+v, want %+v", g, w)
			}
		}
		return ""
	}
	var refs map[string][]catalog.FK
	if k.deps {
		refs = scmp.RefsOf(c)
	}
	var want schema.Tables
	names := ""
	for _, t := range k.listed(c) {
		rf := refs
		if t.View {
			rf = nil
		}
		want = append(want, scmp.Expect(c.Kind, t, rf))
		names += t.Schema + "." + t.Name + "\n"
	}
	var got schema.Tables
	switch k.format {
	case "json":
		if err := json.Unmarshal([]byte(out), &got); err != nil {
			return err.Error()
		}
	case "yaml":
		if err := yaml.Unmarshal([]byte(out), &got); err != nil {
			return err.Error()
		}
	default:
		if k.cmd == "columns" {
			return scmp.TableTextAnyOrder(want, out)
		}
		if out != names {
			return fmt.Sprintf("printed %q, want %q", out, names)
		}
		return ""
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d objects, want %d", len(got), len(want))
	}
	for i := range got {
		if msg := scmp.SameDoc(got[i], want[i], !k.deps && !want[i].IsView); msg != "" {
			return msg
		}
	}
	return ""
}

func tree(dir string) map[string]string {
	m := map[string]string{}
	_ = filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

// generated tells which files the command writes, with a text each must hold.
func (k *cliCase) generated(c *catalog.Catalog) (files map[string][]string, out []string) {
	files = map[string][]string{}
	by := map[string][]*catalog.Tab{}
	for _, t := range k.listed(c) {
		by[t.Schema] = append(by[t.Schema], t)
	}
	for s, l := range by {
		pre := ""
		if len(by) > 1 {
			pre = s + "_"
		}
		for _, f := range [][2]string{{k.model, "model.gen.go"}, {k.schema, "schema.gen.go"}} {
			var texts []string
			for _, t := range l {
				if f[0] == k.model && f[1] == "model.gen.go" {
					texts = append(texts, "represents one row from table '"+t.Schema+"."+t.Name+"'")
				} else {
					texts = append(texts, "provides column definitions for table '"+t.Schema+"."+t.Name+"'")
				}
			}
			if f[0] == "" {
				out = append(out, texts...)
			} else {
				fn := filepath.Join(f[0], pre+f[1])
				files[fn] = append(files[fn], texts...)
			}
		}
	}
	return
}

func count(s, w string) int { return strings.Count(s, w) }

func (k *cliCase) verifyFiles(c *catalog.Catalog, before, after map[string]string, out string) string {
	files, texts := k.generated(c)
	for f := range after {
		if _, ok := before[f]; !ok && files[f] == nil {
			return "wrote " + f
		}
		if b, ok := before[f]; ok && b != after[f] && files[f] == nil {
			return "changed " + f
		}
	}
	for f := range before {
		if _, ok := after[f]; !ok {
			return "removed " + f
		}
	}
	for f, l := range files {
		b, ok := after[f]
		if !ok {
			return "did not write " + f
		}
		for _, w := range l {
			if count(b, w) != 1 {
				return fmt.Sprintf("%s holds %q %d times", f, w, count(b, w))
			}
		}
		if n := count(b, "represents one row from table") + count(b, "provides column definitions for table"); n != len(l) {
			return fmt.Sprintf("%s holds %d descriptions, want %d", f, n, len(l))
		}
	}
	for _, w := range texts {
		if count(out, w) != 1 {
			return fmt.Sprintf("printed %q %d times", w, count(out, w))
		}
	}
	if n := count(out, "represents one row from table") + count(out, "provides column definitions for table"); n != len(texts) {
		return fmt.Sprintf("printed %d descriptions, want %d", n, len(texts))
	}
	if len(texts) == 0 && strings.TrimSpace(out) != "" {
		return fmt.Sprintf("printed %q", out)
	}
	return ""
}

// plainTypes keeps a catalog within the types and names that code is generated for.
func plainTypes(r *rand.Rand, c *catalog.Catalog) {
	ok := [][2]string{{"bigint", "int8"}, {"integer", "int4"}, {"text", "text"}, {"boolean", "bool"}, {"timestamp with time zone", "timestamptz"}, {"ARRAY", "_text"}}
	for _, t := range c.Tabs {
		for i := range t.Cols {
			p := ok[r.IntN(len(ok))]
			if c.Kind == "sqlserver" {
				w := []string{"bigint", "int", "nvarchar", "bit", "datetime2", "uniqueidentifier"}[r.IntN(6)]
				p = [2]string{w, w}
			}
			t.Cols[i].Type, t.Cols[i].Udt = p[0], p[1]
		}
	}
}

// oneRef leaves every column at most one reference.
func oneRef(c *catalog.Catalog) {
	seen := map[string]bool{}
	c.FKs = slices.DeleteFunc(c.FKs, func(f catalog.FK) bool {
		k := f.Schema + "." + f.Table + "." + f.Column
		if seen[k] {
			return true
		}
		seen[k] = true
		return false
	})
}

func TestC33(t *testing.T) {
	mon.Run(t, "C33", "a case is one run of the xdbcli program, built from the tree, with random command, flags, catalog and server behaviour; non-trivial when something is listed or a failure is injected", func(m *mon.M) {
		dir := t.TempDir()
		bin, err := pgcat.Build(dir)
		if err != nil {
			t.Fatalf("build: %v", err)
		}
		tds := tdsfake.New()
		defer tds.Close()
		tds.FailQueries.Store(true)
		other := pgfake.New()
		other.Handle = func(*pgfake.Session, string, []any, bool) pgfake.Result { return pgfake.Result{} }
		other.Start()
		defer other.Close()
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			t.Fatal(err)
		}
		defer full.Close()

		one := func(n int) {
			r := m.Rand("cli", n)
			gen := false
			c := catalog.Gen(r, catalog.Options{Kind: []string{"postgres", "sqlserver"}[n/2%2], MaxTables: 1 + r.IntN(8), Views: true, FKs: 1 + r.IntN(6), Ugly: n%2 == 0, Inner: true, Empty: n%4 < 2})
			oneRef(c)
			defer c.Close()
			k := genCase(r, c)
			for n%2 == 0 && k.cmd == "generate" {
				k = genCase(r, c)
			}
			if gen = k.cmd == "generate"; gen {
				plainTypes(r, c)
			}
			s := pgcat.Serve(c, r.Uint64())
			defer s.Close()
			work := filepath.Join(dir, fmt.Sprint("run", n))
			_ = os.MkdirAll(work, 0o700)
			defer func() { _ = os.RemoveAll(work) }()
			src, env := s.Source(), []string{}
			how := r.IntN(4)
			switch how {
			case 0:
				env = append(env, "XDB_DATASOURCE="+src)
			case 1: // the flag wins
				env = append(env, "XDB_DATASOURCE=postgres://u:p@"+other.Addr()+"/other?sslmode=disable")
				k.args = append(k.args, "--sql-source", src)
			case 2:
				if src = strings.Replace(src, "?", "/original?", 1); c.Kind == "sqlserver" {
					src = s.Source() + "&database=original"
				}
				k.args = append([]string{"--sql-source=" + src}, k.args...)
			case 3:
				_ = os.WriteFile(filepath.Join(work, "source.txt"), []byte(src+"\n"), 0o600)
				k.args = append(k.args, "--sql-source", "file://"+filepath.Join(work, "source.txt"))
			}
			// failures
			fault := ""
			var stdout *os.File
			pick := r.IntN(12)
			if len(k.viewSel) > 0 && r.IntN(3) == 0 {
				pick = 0
			}
			switch pick {
			case 0, 1:
				s.How = []string{"error", "fatal", "rows"}[r.IntN(3)]
				switch r.IntN(3) {
				case 0:
					s.FailAt = 1 + r.IntN(12)
				case 1:
					s.FailAt = 1 + r.IntN(4+5*len(c.Tabs))
					// a lost session may be answered by another attempt
					s.Once = s.How != "fatal"
				case 2:
					s.FailOn = []string{catalog.Tables, catalog.Views, catalog.Columns, catalog.Indexes, catalog.FKeys}[r.IntN(5)]
				}
				if (k.views || len(k.viewSel) > 0) && r.IntN(2) == 0 {
					s.FailAt, s.FailOn = 0, catalog.Views
				}
				fault = "query"
			case 2:
				s.FailAt, s.How = 1+r.IntN(12), "drop"
				fault = "query"
			case 3:
				s.Reject()
				fault = "login"
			case 4:
				s.Refuse()
				fault = "refused"
			case 5:
				fault = "full"
				stdout = full
			case 6:
				if gen && (k.model != "" || k.schema != "") {
					fault = "blocked"
					d := k.model
					if d == "" || k.schema != "" && r.IntN(2) == 0 {
						d = k.schema
					}
					d = filepath.Join(work, strings.Split(filepath.Clean(d), "/")[0])
					_ = os.WriteFile(d, []byte("in the way"), 0o600)
				}
			}
			if gen && fault == "" && k.model != "" && r.IntN(3) == 0 { // generated before
				_ = os.MkdirAll(filepath.Join(work, k.model), 0o700)
				_ = os.WriteFile(filepath.Join(work, k.model, "model.gen.go"), []byte("old"), 0o600)
				_ = os.WriteFile(filepath.Join(work, k.model, "mine.go"), []byte("package mine"), 0o600)
			}
			before := tree(work)
			o := pgcat.Exec(bin, work, env, stdout, k.args...)
			after := tree(work)
			what := fmt.Sprintf("run %d: xdbcli %q, %s, source %d, failure %q %s at %d %t on %q", n, k.args, c.Kind, how, fault, s.How, s.FailAt, s.Once, s.FailOn)
			m.Sample(what)
			m.Count("runs", 1)
			m.Count("run "+k.cmd, 1)
			m.Count("run on "+c.Kind, 1)
			if o.Hung || o.Code < 0 {
				m.Fail("hung", "%s: ended with %d: %s%s", what, o.Code, o.Stdout, o.Stderr)
				return
			}
			if strings.Contains(o.Stderr, "goroutine ") && strings.Contains(o.Stderr, "panic") {
				m.Fail("panic", "%s: %s", what, o.Stderr)
				return
			}
			dbs := s.Databases()
			for _, x := range dbs {
				if x != k.db {
					m.Fail("database", "%s: connected to database %q", what, x)
				}
			}
			silent := o.Code != 0 && strings.TrimSpace(o.Stderr) == ""
			if silent {
				m.Fail("message", "%s: exit status %d without a message", what, o.Code)
			}
			must := fault == "login" || fault == "refused"
			may := false
			if fault == "query" && s.Hit.Load() {
				must = true
				m.Count("failures met", 1)
			}
			listed := len(k.listed(c))
			if k.cmd == "foreign-keys" {
				listed = len(c.FKs)
			}
			switch fault {
			case "full":
				// something has to be printed
				some := listed > 0
				if gen {
					_, texts := k.generated(c)
					some = len(texts) > 0
				}
				if k.cmd == "foreign-keys" || k.format != "table" && !gen {
					some = true
				}
				if some {
					must = true
				} else {
					may = true
				}
			case "blocked":
				files, _ := k.generated(c)
				if len(files) == 0 {
					may = true
				}
				for f := range files {
					top, err := os.Stat(filepath.Join(work, strings.Split(filepath.Clean(f), "/")[0]))
					must = must || err == nil && top.Mode().IsRegular()
				}
			}
			m.Eval(listed > 0 || must, n)
			m.State("run", k.cmd, k.format, how, fault, must, len(k.schemas) > 0, len(k.tables) > 0, k.deps, k.views)
			if must {
				m.Count("failing runs", 1)
				if o.Code == 0 {
					m.Fail("exit-"+fault, "%s: exit status 0: %s%s", what, o.Stdout, o.Stderr)
				}
				return
			}
			if may {
				return
			}
			if o.Code != 0 {
				m.Fail("failed", "%s: exit status %d: %s%s", what, o.Code, o.Stdout, o.Stderr)
				return
			}
			if len(dbs) == 0 {
				m.Fail("connect", "%s: no connection to the server", what)
			}
			if stdout != nil {
				return
			}
			if gen {
				if msg := k.verifyFiles(c, before, after, o.Stdout); msg != "" {
					m.Fail("files", "%s: %s\n%s", what, msg, o.Stdout)
				}
				m.Count("generated", listed)
				return
			}
			if msg := k.verifyFiles(&catalog.Catalog{}, before, after, ""); msg != "" {
				m.Fail("files", "%s: %s", what, msg)
			}
			if msg := k.verify(c, o.Stdout); msg != "" {
				m.Fail("output-"+k.cmd, "%s: %s\n%s", what, msg, o.Stdout)
			}
			m.Count("listed", listed)
		}

		total := m.N(2500, 40000)
		var wg sync.WaitGroup
		next := make(chan int)
		for range 6 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := range next {
					if !m.Failed() {
						one(n)
					}
				}
			}()
		}
		for n := range total {
			next <- n
		}
		close(next)
		wg.Wait()
		if len(other.Sessions()) > 0 {
			m.Fail("source", "the source of the environment was used instead of the one given")
		}

		// wrong use
		for i, x := range [][]string{
			{"schema", "columns", "--db", "app"},
			{"schema", "generate", "--db", "app"},
			{"schema", "tables"},
			{"schema", "foreign-keys", "--sql-source", "postgres://u:p@" + deadPort() + "?sslmode=disable"},
			{"schema", "views", "--db", "app", "--sql-source", "postgres://u:p@" + deadPort() + "?sslmode=disable"},
			{"schema", "tables", "--db", "app", "--sql-source", "mysql://u:p@" + other.Addr()},
			{"schema", "tables", "--db", "app", "--sql-source", "file:///nonexistent/source"},
			{"schema", "tables", "--db", "app", "--sql-source", "sqlserver://u:p@" + tds.Addr() + "?encrypt=disable"},
			{"schema", "columns", "--db", "My Db", "--sql-source", "sqlserver://u:p@" + tds.Addr() + "?encrypt=disable&database=zz"},
			{"schema", "generate", "--db", "app", "--types-def", "/nonexistent.yaml", "--sql-source", "postgres://u:p@" + other.Addr() + "?sslmode=disable"},
			{"schema", "nothing", "--db", "app", "--sql-source", "postgres://u:p@" + other.Addr() + "?sslmode=disable"},
			{"schema", "tables", "--db", "app", "--unknown", "--sql-source", "postgres://u:p@" + other.Addr() + "?sslmode=disable"},
		} {
			o := pgcat.Exec(bin, dir, nil, nil, x...)
			m.Count("wrong uses", 1)
			m.Eval(true, "wrong", i)
			if o.Code <= 0 || strings.TrimSpace(o.Stderr) == "" || o.Hung {
				m.Fail("wrong-use", "xdbcli %q: exit status %d, stdout %q, message %q", x, o.Code, o.Stdout, o.Stderr)
			}
			if i < 2 && !strings.Contains(o.Stderr, "XDB_DATASOURCE") {
				m.Fail("wrong-use", "xdbcli %q does not say what is missing: %q", x, o.Stderr)
			}
		}
		for _, l := range tds.Logins() {
			if l.Database != "app" && l.Database != "My Db" {
				m.Fail("database", "SQL Server login to database %q", l.Database)
			}
		}
		if len(tds.Logins()) < 2 {
			m.Fail("database", "%d SQL Server logins", len(tds.Logins()))
		}
		m.Need("runs", 500)
		m.Need("listed", 300)
		m.Need("failing runs", 60)
		m.Need("failures met", 20)
		for _, c := range []string{"columns", "tables", "views", "foreign-keys", "generate"} {
			m.Need("run "+c, 40)
		}
	})
}
