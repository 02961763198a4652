// Package catalog is a model of a database catalog that answers the catalog
// queries of the schema provider. Where the query text is plain SQL it is
// executed by SQLite over emulated information_schema and sys tables, so that
// the text itself is under test; otherwise the model answers.
package catalog

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"math/rand/v2"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"

	sqlite3 "github.com/mattn/go-sqlite3"
)

// Col is a column.
type Col struct {
	Name, Type, Udt string
	Nullable        bool
	MaxLen          *int
	Pos             int
}

// Idx is an index.
type Idx struct {
	Name            string
	Primary, Unique bool
	Cols            []string
	Incl            []string // columns kept along, not part of the key
}

// Tab is a table or view.
type Tab struct {
	Schema, Name, Type string
	View               bool
	Cols               []Col
	Idx                []Idx
	Tool               bool
	Part               bool        // partitioned
	Props              [][2]string // extended properties: class and name
	id                 int
}

// FK is one column of a foreign key.
type FK struct {
	Name, Schema, Table, Column, RefSchema, RefTable, RefColumn string
}

// Catalog is the content of a database.
type Catalog struct {
	Kind   string // postgres or sqlserver
	Tabs   []*Tab
	System []*Tab // tables the database keeps for itself
	FKs    []FK

	once sync.Once
	db   *sql.DB
	err  error
	// observations
	mu     sync.Mutex
	ByText map[string]int // queries executed by SQLite
	Model  map[string]int // queries answered by the model
}

// Find returns a table.
func (c *Catalog) Find(schema, name string) *Tab {
	for _, t := range c.Tabs {
		if t.Schema == schema && t.Name == name {
			return t
		}
	}
	return nil
}

// Close releases the emulation.
func (c *Catalog) Close() {
	if c.db != nil {
		_ = c.db.Close()
	}
}

// Kinds of catalog queries.
const (
	Tables  = "tables"
	Views   = "views"
	Columns = "columns"
	Indexes = "indexes"
	FKeys   = "fkeys"
)

var (
	spaces  = regexp.MustCompile(`\s+`)
	comment = regexp.MustCompile(`(?s)--[^\n]*|/\*.*?\*/`)
)

// Kind recognises a catalog query by the catalog tables it reads.
func Kind(q string) string {
	s := strings.ToLower(spaces.ReplaceAllString(comment.ReplaceAllString(q, " "), " "))
	s = strings.NewReplacer("[", "", "]", "", `"`, "").Replace(s)
	has := func(x string) bool { return strings.Contains(s, x) }
	switch {
	case has("constraint_column_usage"), has("foreign_key_columns"), has("referential_constraints"), has("pg_constraint"), has("sys.foreign_keys"):
		return FKeys
	case has("pg_index"), has("sys.indexes"):
		return Indexes
	case has("sys.views"), has("'view'"), has("information_schema.views"), has("pg_views"):
		return Views
	case has("information_schema.columns"), has("sys.columns"), has("pg_attribute"):
		return Columns
	case has("information_schema.tables"), has("sys.tables"), has("pg_tables"), has("pg_class"):
		return Tables
	}
	return ""
}

var drvOnce sync.Once

func (c *Catalog) schemaIDs() map[string]int {
	ids := map[string]int{}
	for _, l := range [][]*Tab{c.Tabs, c.System} {
		for _, t := range l {
			if ids[t.Schema] == 0 {
				ids[t.Schema] = len(ids) + 1
			}
		}
	}
	return ids
}

var schemaTables sync.Map // database name -> map[int]string

func nullable(b bool) string {
	if b {
		return "YES"
	}
	return "NO"
}

// emulate builds the catalog tables in SQLite.
func (c *Catalog) emulate() {
	drvOnce.Do(func() {
		sql.Register("sqlite3-catalog", &sqlite3.SQLiteDriver{ConnectHook: func(conn *sqlite3.SQLiteConn) error {
			for _, s := range []string{"ATTACH ':memory:' AS information_schema", "ATTACH ':memory:' AS sys", "ATTACH ':memory:' AS names"} {
				if _, err := conn.Exec(s, nil); err != nil {
					return err
				}
			}
			return nil
		}})
	})
	db, err := sql.Open("sqlite3-catalog", ":memory:")
	if err != nil {
		c.err = err
		return
	}
	db.SetMaxOpenConns(1)
	c.db = db
	x := func(q string, a ...any) {
		if c.err == nil {
			if _, err := db.Exec(q, a...); err != nil {
				c.err = fmt.Errorf("%s: %w", q, err)
			}
		}
	}
	if c.Kind != "sqlserver" {
		x("PRAGMA case_sensitive_like = ON")
	}
	x("BEGIN")
	x("CREATE TABLE information_schema.tables (table_catalog TEXT, table_schema TEXT, table_name TEXT, table_type TEXT)")
	x("CREATE TABLE information_schema.columns (table_catalog TEXT, table_schema TEXT, table_name TEXT, column_name TEXT, ordinal_position INTEGER, is_nullable TEXT, data_type TEXT, udt_name TEXT, character_maximum_length INTEGER)")
	x("CREATE TABLE information_schema.table_constraints (constraint_schema TEXT, constraint_name TEXT, table_schema TEXT, table_name TEXT, constraint_type TEXT)")
	x("CREATE TABLE information_schema.key_column_usage (constraint_schema TEXT, constraint_name TEXT, table_schema TEXT, table_name TEXT, column_name TEXT, ordinal_position INTEGER, position_in_unique_constraint INTEGER)")
	x("CREATE TABLE information_schema.constraint_column_usage (constraint_schema TEXT, constraint_name TEXT, table_schema TEXT, table_name TEXT, column_name TEXT)")
	x("CREATE TABLE sys.schemas (schema_id INTEGER, name TEXT)")
	x("CREATE TABLE sys.tables (object_id INTEGER, schema_id INTEGER, name TEXT, type TEXT, type_desc TEXT, is_ms_shipped INTEGER)")
	x("CREATE TABLE sys.views (object_id INTEGER, schema_id INTEGER, name TEXT, type TEXT, type_desc TEXT, is_ms_shipped INTEGER)")
	x("CREATE TABLE sys.objects (object_id INTEGER, schema_id INTEGER, name TEXT, type TEXT, type_desc TEXT, is_ms_shipped INTEGER)")
	x("CREATE TABLE sys.columns (object_id INTEGER, column_id INTEGER, name TEXT)")
	x("CREATE TABLE sys.indexes (object_id INTEGER, index_id INTEGER, name TEXT, type INTEGER, type_desc TEXT, is_primary_key BOOLEAN, is_unique BOOLEAN)")
	x("CREATE TABLE sys.index_columns (object_id INTEGER, index_id INTEGER, index_column_id INTEGER, column_id INTEGER, key_ordinal INTEGER, is_included_column INTEGER)")
	x("CREATE TABLE sys.foreign_key_columns (constraint_object_id INTEGER, constraint_column_id INTEGER, parent_object_id INTEGER, parent_column_id INTEGER, referenced_object_id INTEGER, referenced_column_id INTEGER)")
	x("CREATE TABLE sys.foreign_keys (object_id INTEGER, schema_id INTEGER, name TEXT, parent_object_id INTEGER, referenced_object_id INTEGER)")
	x("CREATE TABLE sys.extended_properties (class INTEGER, class_desc TEXT, major_id INTEGER, minor_id INTEGER, name TEXT, value TEXT)")
	x("CREATE TABLE names.pg_namespace (oid INTEGER, nspname TEXT)")
	x("CREATE TABLE names.pg_class (oid INTEGER, relname TEXT, relnamespace INTEGER, relkind TEXT)")
	x("CREATE TABLE names.pg_index (indexrelid INTEGER, indrelid INTEGER, indisprimary BOOLEAN, indisunique BOOLEAN, indnatts INTEGER, indnkeyatts INTEGER, indkey TEXT)")
	x("CREATE TABLE names.pg_attribute (attrelid INTEGER, attname TEXT, attnum INTEGER)")
	x("CREATE TABLE names.pg_constraint (oid INTEGER, conname TEXT, connamespace INTEGER, contype TEXT, conrelid INTEGER, confrelid INTEGER, conkey TEXT, confkey TEXT)")
	x("CREATE TABLE names.pg_indexes (schemaname TEXT, tablename TEXT, indexname TEXT)")
	for _, i := range []string{"information_schema.columns (table_schema, table_name)", "sys.columns (object_id, column_id)", "sys.indexes (object_id)", "sys.index_columns (object_id, index_id)",
		"names.pg_class (oid)", "names.pg_index (indrelid)", "names.pg_attribute (attrelid)", "names.pg_indexes (schemaname, tablename)"} {
		db, tab, _ := strings.Cut(i, ".")
		x("CREATE INDEX " + db + ".by_" + strings.Fields(tab)[0] + " ON " + tab)
	}
	ids := c.schemaIDs()
	for s, id := range ids {
		x("INSERT INTO sys.schemas VALUES (?,?)", id, s)
		x("INSERT INTO names.pg_namespace VALUES (?,?)", id, s)
	}
	// columns the user may not see are only in the catalogs of the server itself
	pos := func(t *Tab, col string) int {
		last := 0
		for _, cl := range t.Cols {
			if cl.Name == col {
				return cl.Pos
			}
			last = max(last, cl.Pos)
		}
		hidden := t.hidden()
		return last + 1 + slices.Index(hidden, col)
	}
	next := 100
	for n, l := range [][]*Tab{c.Tabs, c.System} {
		for _, t := range l {
			next++
			t.id = next
			typ := t.Type
			if t.View {
				typ = "VIEW"
			} else if c.Kind == "sqlserver" {
				typ = "BASE TABLE"
			}
			if !(c.Kind == "sqlserver" && n == 1) { // the server's own tables are in neither view
				x("INSERT INTO information_schema.tables VALUES ('db',?,?,?)", t.Schema, t.Name, typ)
			}
			shipped := n
			if t.Tool {
				shipped = 0
			}
			obj := "tables"
			kind, desc := "U", "USER_TABLE"
			if t.View {
				obj, kind, desc = "views", "V", "VIEW"
			}
			if !t.View && n == 0 {
				desc = t.Type
			}
			x("INSERT INTO sys."+obj+" VALUES (?,?,?,?,?,?)", t.id, ids[t.Schema], t.Name, kind, desc, shipped)
			x("INSERT INTO sys.objects VALUES (?,?,?,?,?,?)", t.id, ids[t.Schema], t.Name, kind, desc, shipped)
			for _, col := range t.Cols {
				var ml any
				if col.MaxLen != nil {
					ml = *col.MaxLen
				}
				x("INSERT INTO information_schema.columns VALUES ('db',?,?,?,?,?,?,?,?)", t.Schema, t.Name, col.Name, col.Pos, nullable(col.Nullable), col.Type, col.Udt, ml)
				x("INSERT INTO sys.columns VALUES (?,?,?)", t.id, col.Pos, col.Name)
			}
			if !t.View {
				for _, p := range t.Props {
					x("INSERT INTO sys.extended_properties VALUES (1,?,?,?,?,'text')", p[0], t.id, len(p[1])%2, p[1])
				}
			}
			for _, n := range t.hidden() {
				x("INSERT INTO sys.columns VALUES (?,?,?)", t.id, pos(t, n), n)
				x("INSERT INTO names.pg_attribute VALUES (?,?,?)", t.id, n, pos(t, n))
			}
			relkind := "r"
			if t.View {
				relkind = "v"
			} else if t.Type == "FOREIGN" {
				relkind = "f"
			} else if t.Part {
				relkind = "p"
			}
			x("INSERT INTO names.pg_class VALUES (?,?,?,?)", t.id, t.Name, ids[t.Schema], relkind)
			for _, col := range t.Cols { // in no order
				x("INSERT INTO names.pg_attribute VALUES (?,?,?)", t.id, col.Name, col.Pos)
			}
			if t.Idx != nil && relkind == "f" {
				panic("catalog: foreign tables have no indexes")
			}
			first := 1
			if !t.View && !slices.ContainsFunc(t.Idx, func(i Idx) bool { return i.Primary }) { // a heap
				x("INSERT INTO sys.indexes VALUES (?,0,NULL,0,'HEAP',0,0)", t.id)
				first = 2
			}
			if t.View && n == 0 && t.id%3 == 0 && len(t.Cols) > 0 { // an indexed view
				x("INSERT INTO sys.indexes VALUES (?,1,'ix_of_view',1,'CLUSTERED',0,1)", t.id)
				x("INSERT INTO sys.index_columns VALUES (?,1,1,?,1,0)", t.id, t.Cols[0].Pos)
			}
			// the clustered one is the first
			order := append([]Idx(nil), t.Idx...)
			sort.SliceStable(order, func(a, b int) bool { return order[a].Primary && !order[b].Primary })
			for k, i := range order {
				x("INSERT INTO sys.indexes VALUES (?,?,?,?,?,?,?)", t.id, first+k, i.Name, 1+min(first+k-1, 1), "INDEX", i.Primary, i.Unique)
				for p, cn := range i.Cols {
					x("INSERT INTO sys.index_columns VALUES (?,?,?,?,?,0)", t.id, first+k, p+1, pos(t, cn), p+1)
				}
			}
			for _, i := range t.Idx {
				next++
				x("INSERT INTO names.pg_class VALUES (?,?,?,?)", next, i.Name, ids[t.Schema], map[string]string{"r": "i", "p": "I"}[relkind])
				var key []string
				for _, cn := range i.Cols {
					key = append(key, fmt.Sprint(pos(t, cn)))
				}
				incl := key
				for _, cn := range i.Incl {
					incl = append(incl[:len(incl):len(incl)], fmt.Sprint(pos(t, cn)))
				}
				x("INSERT INTO names.pg_index VALUES (?,?,?,?,?,?,?)", next, t.id, i.Primary, i.Unique, len(incl), len(key), fromZero+" "+strings.Join(incl, " "))
				x("INSERT INTO names.pg_indexes VALUES (?,?,?)", t.Schema, t.Name, i.Name)
				if i.Primary || i.Unique {
					x("INSERT INTO names.pg_constraint VALUES (?,?,?,?,?,0,?,NULL)", next, i.Name, ids[t.Schema], map[bool]string{true: "p", false: "u"}[i.Primary], t.id, strings.Join(key, " "))
				}
				if i.Primary {
					x("INSERT INTO information_schema.table_constraints VALUES (?,?,?,?,'PRIMARY KEY')", t.Schema, i.Name, t.Schema, t.Name)
					for p, cn := range i.Cols {
						x("INSERT INTO information_schema.key_column_usage VALUES (?,?,?,?,?,?,NULL)", t.Schema, i.Name, t.Schema, t.Name, cn, p+1)
						x("INSERT INTO information_schema.constraint_column_usage VALUES (?,?,?,?,?)", t.Schema, i.Name, t.Schema, t.Name, cn)
					}
				}
			}
		}
	}
	// tables that keys refer to without being listed
	ghosts := map[string]*Tab{}
	find := func(schema, name, col string) *Tab {
		if t := c.Find(schema, name); t != nil {
			return t
		}
		t := ghosts[schema+"\x00"+name]
		if t == nil {
			next++
			t = &Tab{Schema: schema, Name: name, id: next}
			ghosts[schema+"\x00"+name] = t
			if ids[schema] == 0 {
				ids[schema] = len(ids) + 1
				x("INSERT INTO names.pg_namespace VALUES (?,?)", ids[schema], schema)
			}
			x("INSERT INTO names.pg_class VALUES (?,?,?,'r')", t.id, name, ids[schema])
		}
		if !slices.ContainsFunc(t.Cols, func(cl Col) bool { return cl.Name == col }) {
			t.Cols = append(t.Cols, Col{Name: col, Pos: len(t.Cols) + 1})
			x("INSERT INTO names.pg_attribute VALUES (?,?,?)", t.id, col, len(t.Cols))
		}
		return t
	}
	for _, l := range c.constraints() {
		next++
		f := l[0]
		x("INSERT INTO information_schema.table_constraints VALUES (?,?,?,?,'FOREIGN KEY')", f.Schema, f.Name, f.Schema, f.Table)
		var a, b *Tab
		var key, ref []string
		for n, f := range l {
			x("INSERT INTO information_schema.key_column_usage VALUES (?,?,?,?,?,?,?)", f.Schema, f.Name, f.Schema, f.Table, f.Column, n+1, n+1)
			x("INSERT INTO information_schema.constraint_column_usage VALUES (?,?,?,?,?)", f.Schema, f.Name, f.RefSchema, f.RefTable, f.RefColumn)
			a, b = find(f.Schema, f.Table, f.Column), find(f.RefSchema, f.RefTable, f.RefColumn)
			key, ref = append(key, fmt.Sprint(pos(a, f.Column))), append(ref, fmt.Sprint(pos(b, f.RefColumn)))
			x("INSERT INTO sys.foreign_key_columns VALUES (?,?,?,?,?,?)", next, n+1, a.id, pos(a, f.Column), b.id, pos(b, f.RefColumn))
		}
		x("INSERT INTO sys.objects VALUES (?,?,?,?,?,0)", next, ids[f.Schema], f.Name, "F", "FOREIGN_KEY_CONSTRAINT")
		x("INSERT INTO sys.foreign_keys VALUES (?,?,?,?,?)", next, ids[f.Schema], f.Name, a.id, b.id)
		x("INSERT INTO names.pg_constraint VALUES (?,?,?,'f',?,?,?,?)", next, f.Name, ids[f.Schema], a.id, b.id, strings.Join(key, " "), strings.Join(ref, " "))
	}
	x("COMMIT")
	if c.err != nil {
		return
	}
	// functions of SQL Server
	conn, err := db.Conn(bg)
	if err != nil {
		c.err = err
		return
	}
	defer func() { _ = conn.Close() }()
	c.err = conn.Raw(func(dc any) error {
		s := dc.(*sqlite3.SQLiteConn)
		names := map[int64]string{}
		for n, id := range ids {
			names[int64(id)] = n
		}
		if err := s.RegisterFunc("schema_name", func(id int64) string { return names[id] }, true); err != nil {
			return err
		}
		if err := s.RegisterFunc("len", func(v string) int64 { return int64(len([]rune(v))) }, true); err != nil {
			return err
		}
		if err := s.RegisterFunc("schema_id", func(n string) int64 { return int64(ids[n]) }, true); err != nil {
			return err
		}
		// functions of Postgres
		if err := s.RegisterFunc("in_array", func(v int64, l string) bool {
			_, f := items(l)
			return slices.Contains(f, fmt.Sprint(v))
		}, true); err != nil {
			return err
		}
		if err := s.RegisterFunc("array_position", func(l string, v int64) any {
			low, f := items(l)
			n := slices.Index(f, fmt.Sprint(v))
			if n < 0 {
				return nil
			}
			return int64(low + n)
		}, true); err != nil {
			return err
		}
		if err := s.RegisterFunc("array_item", func(l string, n int64) any {
			low, f := items(l)
			n -= int64(low)
			if n < 0 || int(n) >= len(f) {
				return nil
			}
			v, _ := strconv.ParseInt(f[n], 10, 64)
			return v
		}, true); err != nil {
			return err
		}
		if err := s.RegisterFunc("array_to_string", func(l, sep string) string { return strings.ReplaceAll(l, "\x01", sep) }, true); err != nil {
			return err
		}
		return s.RegisterAggregator("array_agg", func() *arrayAgg { return &arrayAgg{} }, true)
	})
}

type arrayAgg struct{ l []string }

func (a *arrayAgg) Step(v string) { a.l = append(a.l, v) }
func (a *arrayAgg) Done() string  { return strings.Join(a.l, "\x01") }

// fromZero starts vectors, whose first index is 0; that of arrays is 1.
const fromZero = "[0]"

func items(l string) (low int, f []string) {
	f = strings.Fields(l)
	if len(f) > 0 && f[0] == fromZero {
		return 0, f[1:]
	}
	return 1, f
}

// casts of Postgres that change nothing here.
var casts = regexp.MustCompile(`(?i)::\s*(?:int2vector|int[248]?\[\]|smallint\[\]|integer\[\]|text\[\]|name\[\]|text|varchar|name|int[248]?|smallint|integer|bigint)`)

// anyArray is how Postgres asks whether a value is in an array.
var anyArray = regexp.MustCompile(`(?i)([a-z_.]+)\s*=\s*any\s*\(([^()]*)\)`)

// arrayItem is how Postgres takes an element of an array.
var arrayItem = regexp.MustCompile(`(?i)([a-z_][a-z_.]*)\s*\[([^\[\]]*)\]`)

// crossApply is how SQL Server joins the rows of a correlated query into one text.
var crossApply = regexp.MustCompile(`(?is)cross\s+apply\s*\(\s*select\s+(.*?)\s+from\s(.*)\sfor\s+xml\s+path\s*\(\s*''\s*\)\s*\)\s*(?:as\s+)?\w+\s*\(\s*(\w+)\s*\)`)

var plus = regexp.MustCompile(`\+\s*','`)

// like patterns of Postgres have a backslash as the escape unless told otherwise.
var like = regexp.MustCompile(`(?i)\blike\s+'(?:[^']|'')*'(\s+escape\b)?`)

// apply rewrites it for SQLite.
func apply(q string) string {
	m := crossApply.FindStringSubmatch(q)
	if m == nil {
		return q
	}
	q = strings.Replace(q, m[0], "", 1)
	expr := "(SELECT group_concat(v, '') FROM (SELECT " + plus.ReplaceAllString(m[1], "|| ','") + " AS v FROM " + m[2] + "))"
	return regexp.MustCompile(`\b`+m[3]+`\b`).ReplaceAllLiteralString(q, expr)
}

var dollar = regexp.MustCompile(`'(?:[^']|'')*'|\$(\d+)`)

// constraints puts the columns of a foreign key together.
func (c *Catalog) constraints() [][]FK {
	at := map[[3]string]int{}
	var l [][]FK
	for _, f := range c.FKs {
		k := [3]string{f.Schema, f.Table, f.Name}
		n, ok := at[k]
		if !ok {
			n = len(l)
			at[k] = n
			l = append(l, nil)
		}
		l[n] = append(l[n], f)
	}
	return l
}

// clash tells whether the catalog has foreign keys a database would not have:
// two of a name that refer to different tables, or a column twice in one of them,
// or, in SQL Server, tables that are not there.
func (c *Catalog) clash() bool {
	owner := map[[2]string]string{}
	for _, l := range c.constraints() {
		seen := map[string]bool{}
		for _, f := range l {
			if f.RefSchema != l[0].RefSchema || f.RefTable != l[0].RefTable || seen[f.Column] || c.Find(f.Schema, f.Table) == nil {
				return true
			}
			seen[f.Column] = true
			if c.Kind == "sqlserver" {
				k := [2]string{f.Schema, f.Name}
				if c.Find(f.RefSchema, f.RefTable) == nil || owner[k] != "" && owner[k] != f.Table {
					return true
				}
				owner[k] = f.Table
			}
		}
	}
	return false
}

// hidden lists index columns that the user may not see.
func (t *Tab) hidden() []string {
	var l []string
	for _, i := range t.Idx {
		for _, n := range i.Cols {
			if !slices.Contains(l, n) && !slices.ContainsFunc(t.Cols, func(cl Col) bool { return cl.Name == n }) {
				l = append(l, n)
			}
		}
	}
	return l
}

// Answer answers a query. Arguments are values or sql.NamedArg.
func (c *Catalog) Answer(q string, args []any) (kind string, cols []string, rows [][]driver.Value, err error) {
	kind = Kind(q)
	if kind == "" {
		return "", nil, nil, fmt.Errorf("catalog: unknown query %q", q)
	}
	if !(kind == FKeys && c.clash()) {
		c.once.Do(c.emulate)
		if c.err != nil {
			panic(c.err)
		}
		cols, rows, err = c.execute(q, args)
		if err == nil {
			c.count(&c.ByText, kind)
			return kind, cols, rows, nil
		}
	}
	c.count(&c.Model, kind)
	cols, rows = c.model(kind, q, args)
	return kind, cols, rows, nil
}

func (c *Catalog) count(m *map[string]int, k string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if *m == nil {
		*m = map[string]int{}
	}
	(*m)[k]++
}

func (c *Catalog) execute(q string, args []any) ([]string, [][]driver.Value, error) {
	text := dollar.ReplaceAllStringFunc(q, func(s string) string {
		if s[0] == '\'' {
			return s
		}
		return "?" + s[1:]
	})
	if c.Kind == "sqlserver" {
		text = apply(text)
	}
	if c.Kind != "sqlserver" {
		text = casts.ReplaceAllString(text, "")
		text = like.ReplaceAllStringFunc(text, func(m string) string {
			if m[len(m)-1] != '\'' {
				return m
			}
			return m + ` ESCAPE '\'`
		})
	}
	text = anyArray.ReplaceAllString(text, "in_array($1, $2)")
	if c.Kind != "sqlserver" {
		text = arrayItem.ReplaceAllString(text, "array_item($1, $2)")
	}
	r, err := c.db.Query(text, args...)
	if err != nil {
		return nil, nil, err
	}
	defer func() { _ = r.Close() }()
	cols, err := r.Columns()
	if err != nil {
		return nil, nil, err
	}
	var rows [][]driver.Value
	for r.Next() {
		v := make([]any, len(cols))
		p := make([]any, len(cols))
		for i := range v {
			p[i] = &v[i]
		}
		if err := r.Scan(p...); err != nil {
			return nil, nil, err
		}
		row := make([]driver.Value, len(cols))
		for i := range v {
			row[i] = v[i]
		}
		rows = append(rows, row)
	}
	return cols, rows, r.Err()
}

var (
	literal = regexp.MustCompile(`'((?:[^']|'')*)'`)
	selList = regexp.MustCompile(`(?is)^\s*select\s+(.*?)\s+from\s`)
)

// names finds the schema and table a query asks for: bind values or literals.
func names(q string, args []any) (string, string) {
	var s []string
	schema, table := "", ""
	for _, a := range args {
		switch v := a.(type) {
		case sql.NamedArg:
			if strings.EqualFold(v.Name, "schema") {
				schema = fmt.Sprint(v.Value)
			} else {
				table = fmt.Sprint(v.Value)
			}
		default:
			s = append(s, fmt.Sprint(v))
		}
	}
	if len(s) >= 2 {
		// numbered placeholders may be used in another order
		low := strings.ToLower(q)
		one, two := strings.Index(low, "$1"), -1
		if one >= 0 && strings.Contains(lastWord(low[:one]), "table") && !strings.Contains(lastWord(low[:one]), "schema") {
			two = 0
		}
		if two == 0 {
			return s[1], s[0]
		}
		return s[0], s[1]
	}
	if schema == "" && table == "" {
		var l []string
		for _, m := range literal.FindAllStringSubmatch(q, -1) {
			v := strings.ReplaceAll(m[1], "''", "'")
			if v != "," && v != "" && v != "r" && v != "p" && v != "U" {
				l = append(l, v)
			}
		}
		if len(l) >= 2 {
			return l[0], l[1]
		}
	}
	return schema, table
}

func lastWord(s string) string {
	f := strings.Fields(strings.TrimRight(s, " =('\n\t"))
	if len(f) == 0 {
		return ""
	}
	return f[len(f)-1]
}

// order puts the values into the order in which the query selects them.
func order(q string, want []string, match []string) []int {
	m := selList.FindStringSubmatch(comment.ReplaceAllString(q, " "))
	def := make([]int, len(want))
	for i := range def {
		def[i] = i
	}
	if m == nil {
		return def
	}
	var items []string
	depth, start := 0, 0
	for i, ch := range m[1] {
		switch ch {
		case '(':
			depth++
		case ')':
			depth--
		case ',':
			if depth == 0 {
				items = append(items, m[1][start:i])
				start = i + 1
			}
		}
	}
	items = append(items, m[1][start:])
	if len(items) != len(want) {
		return def
	}
	res := make([]int, len(want))
	used := map[int]bool{}
	for i, it := range items {
		res[i] = -1
		for j, re := range match {
			if !used[j] && regexp.MustCompile(re).MatchString(strings.ToLower(it)) {
				res[i], used[j] = j, true
				break
			}
		}
		if res[i] < 0 {
			return def
		}
	}
	return res
}

func arrange(ord []int, cols []string, row []driver.Value) ([]string, []driver.Value) {
	c, r := make([]string, len(ord)), make([]driver.Value, len(ord))
	for i, o := range ord {
		c[i], r[i] = cols[o], row[o]
	}
	return c, r
}

func (c *Catalog) model(kind, q string, args []any) ([]string, [][]driver.Value) {
	var cols []string
	var rows [][]driver.Value
	switch kind {
	case Indexes:
		cols = []string{"index_name", "is_pk", "is_unique", "column_names"}
		ord := order(q, cols, []string{`index_name|relname\s*$|i\.name`, `prim|is_pk`, `uniq`, `col`})
		s, n := names(q, args)
		if t := c.Find(s, n); t != nil && !t.View {
			for _, i := range t.Idx {
				_, r := arrange(ord, cols, []driver.Value{i.Name, i.Primary, i.Unique, strings.Join(i.Cols, ",")})
				rows = append(rows, r)
			}
		}
		cols, _ = arrange(ord, cols, make([]driver.Value, len(cols)))
	case FKeys:
		cols = []string{"name", "schema", "table", "column", "ref_schema", "ref_table", "ref_column"}
		for _, f := range c.FKs {
			rows = append(rows, []driver.Value{f.Name, f.Schema, f.Table, f.Column, f.RefSchema, f.RefTable, f.RefColumn})
		}
	case Tables:
		cols = []string{"schema", "name", "type"}
		for _, t := range c.Tabs {
			if !t.View {
				rows = append(rows, []driver.Value{t.Schema, t.Name, t.Type})
			}
		}
	case Columns:
		cols = []string{"column_name", "data_type", "udt_name", "is_nullable", "character_maximum_length", "ordinal_position"}
		s, n := names(q, args)
		if t := c.Find(s, n); t != nil {
			for _, cl := range t.Cols {
				rows = append(rows, c.colRow(cl))
			}
		}
	case Views:
		cols = []string{"schema", "table", "column_name", "data_type", "udt_name", "is_nullable", "character_maximum_length", "ordinal_position"}
		for _, t := range c.Tabs {
			if t.View {
				for _, cl := range t.Cols {
					rows = append(rows, append([]driver.Value{t.Schema, t.Name}, c.colRow(cl)...))
				}
				if len(t.Cols) == 0 {
					row := []driver.Value{t.Schema, t.Name, nil, nil, nil, nil, nil, nil}
					if strings.Contains(strings.ToLower(q), "coalesce") {
						row = []driver.Value{t.Schema, t.Name, "", "", "", "", nil, int64(0)}
					}
					rows = append(rows, row)
				}
			}
		}
	}
	return cols, rows
}

func (c *Catalog) colRow(cl Col) []driver.Value {
	var ml driver.Value
	if cl.MaxLen != nil {
		ml = int64(*cl.MaxLen)
	}
	udt := cl.Udt
	if c.Kind == "sqlserver" {
		udt = cl.Type
	}
	return []driver.Value{cl.Name, cl.Type, udt, nullable(cl.Nullable), ml, int64(cl.Pos)}
}

// Shuffle reorders rows.
func Shuffle(r *rand.Rand, rows [][]driver.Value) [][]driver.Value {
	l := append([][]driver.Value(nil), rows...)
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

// SortedFKs is the order in which listings report foreign keys.
func SortedFKs(l []FK) []FK {
	o := append([]FK(nil), l...)
	key := func(f FK) []string {
		return []string{f.Schema + "." + f.Table + "." + f.Name, f.Column, f.RefSchema + "." + f.RefTable + "." + f.RefColumn}
	}
	sort.SliceStable(o, func(i, j int) bool {
		a, b := key(o[i]), key(o[j])
		for k := range a {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return false
	})
	return o
}
