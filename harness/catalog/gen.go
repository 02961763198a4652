package catalog

import (
	"context"
	"fmt"
	"math/rand/v2"
	"slices"
	"strings"
)

var bg = context.Background()

// Options bound generated catalogs.
type Options struct {
	Kind      string
	MaxTables int
	Views     bool
	FKs       int  // at most
	Ugly      bool // names in other letter cases and scripts
	Inner     bool // no white space at the ends of names
	Clash     bool // foreign keys sharing a name, and composite ones
	Empty     bool // Postgres tables and views without columns
	Large     bool // tables of hundreds of columns, indexes of dozens, dozens of indexes
}

var pgTypes = [][2]string{{"bigint", "int8"}, {"integer", "int4"}, {"smallint", "int2"}, {"text", "text"}, {"character varying", "varchar"}, {"character", "bpchar"},
	{"boolean", "bool"}, {"timestamp with time zone", "timestamptz"}, {"timestamp without time zone", "timestamp"}, {"jsonb", "jsonb"}, {"json", "json"}, {"uuid", "uuid"},
	{"numeric", "numeric"}, {"double precision", "float8"}, {"real", "float4"}, {"bytea", "bytea"}, {"ARRAY", "_text"}, {"ARRAY", "_int8"}, {"date", "date"}, {"USER-DEFINED", "vector"}}
var msTypes = []string{"bigint", "int", "smallint", "tinyint", "varchar", "nvarchar", "char", "nchar", "bit", "datetime2", "datetime", "uniqueidentifier", "decimal", "float", "real", "varbinary"}

var words = []string{"org", "user", "account", "login", "team", "member", "event", "audit", "token", "invoice", "node", "edge", "tag", "item", "order", "line", "doc", "page", "key", "job"}

func unique(r *rand.Rand, used map[string]bool, mk func() string) string {
	for i := 0; ; i++ {
		n := mk()
		if i > 20 {
			n += fmt.Sprint(r.IntN(10000))
		}
		if !used[n] {
			used[n] = true
			return n
		}
	}
}

// style: 0 plain names, 1 unusual ones, 2 unusual ones without spaces at the ends.
func (o Options) style() int {
	switch {
	case !o.Ugly:
		return 0
	case o.Inner:
		return 2
	}
	return 1
}

func word(r *rand.Rand, style int) string {
	w := words[r.IntN(len(words))]
	if r.IntN(3) == 0 {
		w += "_" + words[r.IntN(len(words))]
	}
	if style > 0 && r.IntN(30) == 0 {
		w = []string{"pg_", "sys_", "information_schema_", "sys"}[r.IntN(4)] + w
	}
	if style > 0 {
		k := r.IntN(12)
		if style == 2 && (k == 6 || k == 7) {
			k = 4
		}
		switch k {
		case 6:
			w += " "
		case 7:
			w = " " + w
		case 8:
			w += "%d"
		case 0:
			w = strings.ToUpper(w)
		case 1:
			w = strings.ToUpper(w[:1]) + w[1:]
		case 2:
			w += "_Ü"
		case 3:
			w = "_" + w
		case 4:
			w += " x"
		case 5:
			w += "'s"
		}
	}
	return w
}

func otherCase(r *rand.Rand, s string) string {
	if r.IntN(2) == 0 && strings.ToUpper(s) != s {
		return strings.ToUpper(s)
	}
	i := r.IntN(len(s))
	if b := s[i]; b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' {
		return s[:i] + string(rune(b^0x20)) + s[i+1:]
	}
	return s
}

// Gen makes a catalog.
func Gen(r *rand.Rand, o Options) *Catalog {
	c := &Catalog{Kind: o.Kind}
	schemas := []string{"public", "sales", "Sales_2", "hr", "dbo"}[:1+r.IntN(5)]
	if r.IntN(3) == 0 { // names that start like those of the database itself
		schemas = append(schemas, []string{"pgboss", "pg2", "information_schema2", "sys_old", "my_information_schema", "PG", "catalog"}[r.IntN(7)])
	}
	used := map[string]bool{}
	taken := map[string]map[string]bool{}
	n := r.IntN(o.MaxTables + 1)
	for range n {
		t := &Tab{Type: "BASE TABLE"}
		if o.Kind == "sqlserver" {
			t.Type = "USER_TABLE"
		} else if r.IntN(8) == 0 {
			t.Type = "FOREIGN"
		}
		t.Schema = schemas[r.IntN(len(schemas))]
		t.Name = word(r, o.style())
		if len(c.Tabs) > 0 && r.IntN(4) == 0 {
			t.Name = c.Tabs[r.IntN(len(c.Tabs))].Name // the same name in another schema
		}
		if o.Ugly && len(c.Tabs) > 0 && r.IntN(8) == 0 { // names told apart by letter case
			o := c.Tabs[r.IntN(len(c.Tabs))]
			t.Schema, t.Name = o.Schema, otherCase(r, o.Name)
		}
		key := t.Schema + "." + t.Name
		if used[key] {
			continue
		}
		used[key] = true
		if o.Views && r.IntN(4) == 0 {
			t.View, t.Type = true, "VIEW"
		}
		if o.Kind == "postgres" && o.Empty && r.IntN(10) == 0 {
			t.Cols = nil
		} else {
			t.Cols = genCols(r, o)
		}
		if o.Kind == "postgres" && t.Type == "BASE TABLE" && r.IntN(6) == 0 {
			t.Part = true
		}
		if !t.View && t.Type != "FOREIGN" && len(t.Cols) > 0 {
			t.Idx = genIdx(r, o, t, taken)
		}
		if o.Kind == "sqlserver" && !t.View {
			for range r.IntN(6) / 3 {
				t.Props = append(t.Props, [][2]string{{"OBJECT_OR_COLUMN", "MS_Description"}, {"INDEX", "MS_Description"}, {"OBJECT_OR_COLUMN", "owner"}}[r.IntN(3)])
			}
		}
		c.Tabs = append(c.Tabs, t)
	}
	// tables of the database itself
	sys := []string{"pg_catalog", "information_schema"}
	for i := range r.IntN(3) {
		s := sys[r.IntN(2)]
		typ := "BASE TABLE"
		if o.Kind == "sqlserver" {
			s = "dbo"
		}
		t := &Tab{Schema: s, Name: fmt.Sprintf("sys_thing%d", i), Type: typ, Cols: []Col{{Name: "x", Type: "text", Udt: "text", Pos: 1}}}
		if r.IntN(2) == 0 && o.Kind != "sqlserver" {
			t.View = true
		}
		if o.Kind == "sqlserver" && r.IntN(2) == 0 {
			// sysdiagrams: made by tools, marked as such
			t.Tool = true
			t.Props = [][2]string{{"OBJECT_OR_COLUMN", "microsoft_database_tools_support"}}
		}
		c.System = append(c.System, t)
	}
	if o.FKs > 0 {
		genFKs(r, o, c)
	}
	return c
}

func genCols(r *rand.Rand, o Options) []Col {
	used := map[string]bool{}
	var l []Col
	n := 1 + r.IntN(6)
	if r.IntN(20) == 0 {
		n = 12 + r.IntN(10)
	}
	if o.Large && r.IntN(8) == 0 {
		n = 40 + r.IntN(400)
	}
	pos := 0
	for i := range n {
		pos += 1 + r.IntN(2)*r.IntN(3)
		cl := Col{Pos: pos, Nullable: r.IntN(2) == 0}
		if i == 0 {
			cl.Name = "id"
			used["id"] = true
			cl.Nullable = false
		} else {
			cl.Name = unique(r, used, func() string { return word(r, o.style()) })
		}
		if o.Kind == "sqlserver" {
			cl.Type = msTypes[r.IntN(len(msTypes))]
			cl.Udt = cl.Type
		} else {
			t := pgTypes[r.IntN(len(pgTypes))]
			cl.Type, cl.Udt = t[0], t[1]
		}
		if strings.Contains(cl.Type, "char") || r.IntN(10) == 0 {
			v := []int{1, 64, 255, 4000, 0, -1, 1073741823}[r.IntN(7)]
			cl.MaxLen = &v
		}
		l = append(l, cl)
	}
	// the catalog holds them in any order
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

func genIdx(r *rand.Rand, o Options, t *Tab, taken map[string]map[string]bool) []Idx {
	var l []Idx
	used := map[string]bool{}
	if o.Kind == "postgres" {
		// names are unique in a schema
		if taken[t.Schema] == nil {
			taken[t.Schema] = map[string]bool{}
		}
		used = taken[t.Schema]
	}
	names := func(n int) []string {
		p := r.Perm(len(t.Cols))
		var s []string
		for i := range min(n, len(p)) {
			s = append(s, t.Cols[p[i]].Name)
		}
		return s
	}
	count, width := r.IntN(5), 3
	if o.Large && r.IntN(3) == 0 {
		count, width = 1+r.IntN(30), 32
	}
	for i := range count {
		x := Idx{Unique: r.IntN(2) == 0}
		x.Name = unique(r, used, func() string { return "idx_" + word(r, o.style()) })
		x.Cols = names(1 + r.IntN(width))
		if i == 0 && r.IntN(4) != 0 {
			x.Primary, x.Unique = true, true
			x.Name = unique(r, used, func() string { return t.Name + "_pkey" })
			if r.IntN(4) != 0 {
				x.Cols = names(1)
			}
		} else if r.IntN(12) == 0 {
			x.Cols = append(x.Cols, "hidden_col") // not accessible to this user
		}
		if o.Kind == "postgres" && r.IntN(4) == 0 {
			for _, n := range names(1 + r.IntN(3)) {
				if !slices.Contains(x.Cols, n) {
					x.Incl = append(x.Incl, n)
				}
			}
		}
		l = append(l, x)
	}
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

func genFKs(r *rand.Rand, o Options, c *Catalog) {
	var ts []*Tab
	for _, t := range c.Tabs {
		if !t.View && len(t.Cols) > 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return
	}
	taken := map[string]bool{}
	for range r.IntN(o.FKs + 1) {
		a, b := ts[r.IntN(len(ts))], ts[r.IntN(len(ts))]
		if r.IntN(8) == 0 {
			b = a
		}
		from, to := r.Perm(len(a.Cols)), r.Perm(len(b.Cols))
		f := FK{Schema: a.Schema, Table: a.Name, RefSchema: b.Schema, RefTable: b.Name}
		// as Postgres names them: the same in every schema
		f.Name = fmt.Sprintf("%s_%s_fkey", f.Table, a.Cols[from[0]].Name)
		if r.IntN(3) == 0 {
			f.Name = fmt.Sprintf("fk_%d", len(c.FKs))
		}
		if o.Clash && r.IntN(4) == 0 && len(c.FKs) > 0 {
			f.Name = c.FKs[r.IntN(len(c.FKs))].Name
		}
		// names are of the table in Postgres, of the schema in SQL Server
		owner := f.Schema + "\x00"
		if o.Kind == "postgres" {
			owner += f.Table + "\x00"
		}
		if taken[owner+f.Name] {
			f.Name += fmt.Sprint("_", len(c.FKs))
		}
		if taken[owner+f.Name] {
			continue
		}
		taken[owner+f.Name] = true
		n := 1
		if r.IntN(4) == 0 { // of several columns
			n = min(1+r.IntN(4), len(from), len(to))
		}
		for i := range n {
			f.Column, f.RefColumn = a.Cols[from[i]].Name, b.Cols[to[i]].Name
			c.FKs = append(c.FKs, f)
		}
	}
}

// Evolve returns the catalog after somebody altered it: tables dropped, made
// and altered, indexes and foreign keys dropped and made.
func Evolve(r *rand.Rand, o Options, c *Catalog) *Catalog {
	e := &Catalog{Kind: c.Kind, System: c.System}
	here := map[[2]string]*Tab{}
	for _, t := range c.Tabs {
		if r.IntN(8) == 0 {
			continue
		}
		u := *t
		u.id = 0
		u.Cols = slices.Clone(t.Cols)
		u.Idx = nil
		for _, x := range t.Idx {
			if r.IntN(4) != 0 {
				u.Idx = append(u.Idx, x)
			}
		}
		if len(u.Cols) > 0 && r.IntN(2) == 0 {
			k := r.IntN(len(u.Cols))
			u.Cols[k].Nullable = !u.Cols[k].Nullable
			pos := 0
			for _, cl := range u.Cols {
				pos = max(pos, cl.Pos)
			}
			cl := Col{Name: fmt.Sprintf("added_%d", pos+1), Type: "bit", Udt: "bit", Pos: pos + 1, Nullable: true}
			if c.Kind == "postgres" {
				cl.Type, cl.Udt = "boolean", "bool"
			}
			u.Cols = append(u.Cols, cl)
		}
		e.Tabs = append(e.Tabs, &u)
		here[[2]string{u.Schema, u.Name}] = &u
	}
	if r.IntN(3) == 0 {
		if o.FKs > 0 {
			genFKs(r, o, e)
		}
		return e
	}
	gone := map[[3]string]bool{}
	for _, f := range c.FKs {
		k := [3]string{f.Schema, f.Table, f.Name}
		if _, ok := gone[k]; !ok {
			gone[k] = r.IntN(4) == 0
		}
		if !gone[k] && here[[2]string{f.Schema, f.Table}] != nil && here[[2]string{f.RefSchema, f.RefTable}] != nil {
			e.FKs = append(e.FKs, f)
		}
	}
	return e
}
