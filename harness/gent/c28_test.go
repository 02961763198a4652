// Package gent monitors the code generator: generated packages are compiled
// and run.
package gent

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"unicode"

	"github.com/effective-security/xdb/schema"

	"verif/catalog"
	"verif/mon"
	"verif/pgcat"
	"verif/scmp"
)

//go:embed driver.go.txt
var driverSource []byte

// sqlType is a column type with its Go types and sample values (as drivers
// hand them out) with the texts they must come out as.
type sqlType struct {
	typ, udt   string
	goType     string
	goNull     string
	values     [][2]string
	id, idNull string // for identifier columns, when different
}

func v(s string) [2]string {
	_, t, _ := strings.Cut(s, ":")
	return [2]string{s, t}
}

var (
	ints8  = [][2]string{v("i:9223372036854775807"), v("i:42"), v("i:-7")}
	ints4  = [][2]string{v("i:2147483647"), v("i:42"), v("i:-7")}
	ints2  = [][2]string{v("i:32767"), v("i:-32768")}
	ints1  = [][2]string{v("i:255"), v("i:127"), v("i:3"), v("i:200")}
	bools  = [][2]string{v("B:true"), v("B:false")}
	texts  = [][2]string{v("s:hello"), v("s:naïve 日本"), v("s:it's")}
	btexts = [][2]string{{"x:68656c6c6f", "hello"}}
	times  = [][2]string{{"t:2024-02-29T12:34:56Z", "2024-02-29T12:34:56Z"}}
	nums   = [][2]string{{"x:31322e3530", "12.5"}, {"x:2d3130", "-10"}}
	floats = [][2]string{v("f:1.5"), v("f:-2048")}
	guid   = "6ba7b810-9dad-11d1-80b4-00c04fd430c8"
)

var pgTypes = []sqlType{
	{typ: "bigint", udt: "int8", goType: "int64", goNull: "xdb.Int64", values: ints8, id: "xdb.ID", idNull: "xdb.ID"},
	{typ: "integer", udt: "int4", goType: "int32", goNull: "xdb.Int32", values: ints4, id: "xdb.ID32", idNull: "xdb.ID32"},
	{typ: "smallint", udt: "int2", goType: "int16", goNull: "xdb.Int32", values: ints2},
	{typ: "numeric", udt: "numeric", goType: "float64", goNull: "xdb.Float", values: nums},
	{typ: "real", udt: "float4", goType: "float32", goNull: "xdb.Float", values: floats},
	{typ: "double precision", udt: "float8", goType: "float64", goNull: "xdb.Float", values: floats},
	{typ: "boolean", udt: "bool", goType: "bool", goNull: "xdb.Bool", values: bools},
	{typ: "jsonb", udt: "jsonb", goType: "xdb.NULLString", goNull: "xdb.NULLString", values: [][2]string{{"x:7b2261223a317d", `{"a":1}`}}},
	{typ: "bytea", udt: "bytea", goType: "[]uint8", goNull: "[]uint8", values: [][2]string{{"x:00417f0a", "\x00A\x7f\n"}}},
	{typ: "character", udt: "bpchar", goType: "string", goNull: "xdb.NULLString", values: btexts},
	{typ: "character varying", udt: "varchar", goType: "string", goNull: "xdb.NULLString", values: texts},
	{typ: "text", udt: "text", goType: "string", goNull: "xdb.NULLString", values: texts},
	{typ: "cidr", udt: "cidr", goType: "string", goNull: "xdb.NULLString", values: btexts},
	{typ: "inet", udt: "inet", goType: "string", goNull: "xdb.NULLString", values: btexts},
	{typ: "USER-DEFINED", udt: "ltree", goType: "string", goNull: "xdb.NULLString", values: btexts},
	{typ: "time without time zone", udt: "time", goType: "xdb.Time", goNull: "xdb.Time", values: times},
	{typ: "date", udt: "date", goType: "xdb.Time", goNull: "xdb.Time", values: times},
	{typ: "timestamp without time zone", udt: "timestamp", goType: "xdb.Time", goNull: "xdb.Time", values: times},
	{typ: "timestamp with time zone", udt: "timestamptz", goType: "xdb.Time", goNull: "xdb.Time", values: times},
	{typ: "uuid", udt: "uuid", goType: "xdb.UUID", goNull: "xdb.UUID", values: [][2]string{{"s:" + guid, guid}}},
	{typ: "ARRAY", udt: "_text", goType: "pq.StringArray", goNull: "pq.StringArray", values: [][2]string{{"x:7b2261222c2262225d", ""}}},
	{typ: "ARRAY", udt: "_varchar", goType: "pq.StringArray", goNull: "pq.StringArray", values: nil},
	{typ: "ARRAY", udt: "_int8", goType: "pq.Int64Array", goNull: "pq.Int64Array", values: nil},
}

var msTypes = []sqlType{
	{typ: "bigint", goType: "int64", goNull: "xdb.Int64", values: ints8, id: "xdb.ID", idNull: "xdb.ID"},
	{typ: "int", goType: "int32", goNull: "xdb.Int32", values: ints4, id: "xdb.ID32", idNull: "xdb.ID32"},
	{typ: "smallint", goType: "int16", goNull: "xdb.Int32", values: ints2},
	{typ: "tinyint", goNull: "xdb.Int32", values: ints1},
	{typ: "decimal", goType: "float64", goNull: "xdb.Float", values: nums},
	{typ: "numeric", goType: "float64", goNull: "xdb.Float", values: nums},
	{typ: "real", goType: "float32", goNull: "xdb.Float", values: floats},
	{typ: "bit", goType: "bool", goNull: "xdb.Bool", values: bools},
	{typ: "nchar", goType: "string", goNull: "xdb.NULLString", values: texts},
	{typ: "nvarchar", goType: "string", goNull: "xdb.NULLString", values: texts},
	{typ: "char", goType: "string", goNull: "xdb.NULLString", values: texts},
	{typ: "varchar", goType: "string", goNull: "xdb.NULLString", values: texts},
	{typ: "text", goType: "string", goNull: "xdb.NULLString", values: texts},
	{typ: "time", goType: "xdb.Time", goNull: "xdb.Time", values: times},
	{typ: "date", goType: "xdb.Time", goNull: "xdb.Time", values: times},
	{typ: "datetime", goType: "xdb.Time", goNull: "xdb.Time", values: times},
	{typ: "datetime2", goType: "xdb.Time", goNull: "xdb.Time", values: times},
	{typ: "uniqueidentifier", goType: "xdb.UUID", goNull: "xdb.UUID", values: [][2]string{{"x:6ba7b8109dad11d180b400c04fd430c8", "?"}}},
}

var unsupported = map[string][][2]string{
	"postgres":  {{"json", "json"}, {"interval", "interval"}, {"ARRAY", "_uuid"}, {"ARRAY", "_int4"}, {"USER-DEFINED", "vector"}, {"money", "money"}, {"xml", "xml"}},
	"sqlserver": {{"float", "float"}, {"varbinary", "varbinary"}, {"money", "money"}, {"xml", "xml"}, {"datetimeoffset", "datetimeoffset"}},
}

func init() {
	for i := range pgTypes {
		switch t := &pgTypes[i]; t.udt {
		case "_text", "_varchar":
			t.values = [][2]string{{"x:" + fmt.Sprintf("%x", `{"a","b c"}`), `{"a","b c"}`}}
		case "_int8":
			t.values = [][2]string{{"x:" + fmt.Sprintf("%x", `{1,-2}`), `{1,-2}`}}
		}
	}
	for i := range msTypes {
		msTypes[i].udt = msTypes[i].typ
	}
}

// plain reduces a name to its letters and digits in lower case.
func plain(s string) string {
	if strings.HasPrefix(s, "_") {
		s = "X" + s[1:]
	}
	return strings.Map(func(r rune) rune {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			return unicode.ToLower(r)
		}
		return -1
	}, s)
}

// plainTable does the same for the name of a row type, where a leading
// underscore may be left out.
func same(got, want string, alt ...string) bool {
	g := plain(got)
	if g == want {
		return true
	}
	return slices.Contains(alt, g)
}

var nouns = [][2]string{{"users", "user"}, {"user_logins", "user_login"}, {"people", "person"}, {"statuses", "status"}, {"orders", "order"}, {"org", "org"}, {"orgMembers", "orgMember"},
	{"Invoices", "Invoice"}, {"categories", "category"}, {"data", "datum"}, {"team_2", "team_2"}, {"vwMemberships", "vwMembership"}, {"AUDIT", "AUDIT"}, {"audit log", "audit log"},
	{"Größen", "Größen"}, {"files", "file"}, {"type", "type"}, {"func", "func"}, {"ids", "id"}, {"keys", "key"}, {"address", "address"}, {"indices", "index"}, {"errors", "error"}, {"schemas", "schema"}, {"values", "value"}}

var colWords = []string{"name", "Name2", "user_name", "userAge", "org_id", "orgRef", "ownerId", "AccountID", "parent_ids", "tag_ids", "items_count", "node_count", "created_at", "URL", "api_url", "_hidden", "meta data",
	"größe", "type", "func", "range", "a1", "x_y_z", "rows", "err", "m", "p", "IS_ACTIVE", "dash-name", "email", "json", "xdb", "schema", "values", "errors", "string", "int64", "order", "ip", "uuid", "valid_id", "paid", "grid", "e_mail", "kids", "bids"}

func isID(n string) bool {
	return strings.EqualFold(n, "id") || strings.HasSuffix(n, "_id") || strings.HasSuffix(n, "Id") || strings.HasSuffix(n, "ID")
}

type col struct {
	catalog.Col
	t      sqlType
	goType string // "" when any that holds the values will do
	field  string // required name
}

type table struct {
	*catalog.Tab
	plural, singular string
	cols             []*col // kept, in order
	dropped          int
	override         string
	cached           bool
}

// gencase is one run of the generator.
type gencase struct {
	n      int
	r      *rand.Rand
	cat    *catalog.Catalog
	tabs   []*table
	args   []string
	db     string
	suffix string
	schema bool
	expect map[string]*table // listed tables by name
	dir    string
	id     string
	desc   string
	refs   map[string][]catalog.FK
	// names found in the generated packages
	structs []string
	bad     string    // why generation cannot work
	odd     bool      // generation may fail
	pkgs    [2]string // names of the model and schema packages
}

func (g *gencase) typeOf(c *col) string {
	if isID(c.Name) && c.t.id != "" {
		return c.t.id
	}
	if c.t.udt == "_int8" && strings.HasSuffix(c.Name, "_ids") {
		return "xdb.IDArray"
	}
	if c.Nullable {
		return c.t.goNull
	}
	return c.t.goType
}

func newCase(r *rand.Rand, n int) *gencase {
	g := &gencase{n: n, r: r, expect: map[string]*table{}, id: fmt.Sprintf("c%d", n)}
	kind := []string{"postgres", "sqlserver"}[n%2]
	types := pgTypes
	if kind == "sqlserver" {
		types = msTypes
	}
	g.db = []string{"testdb", "My Db", "orders-2", "org_main"}[r.IntN(4)]
	c := &catalog.Catalog{Kind: kind}
	g.cat = c
	schemas := []string{"public", "sales", "Sales_2", "dbo", "hr", "main", "public_2"}
	r.Shuffle(len(schemas), func(i, j int) { schemas[i], schemas[j] = schemas[j], schemas[i] })
	schemas = schemas[:1+r.IntN(3)]
	if r.IntN(6) == 0 {
		schemas = []string{"public", "sales", "Sales_2", "dbo", "hr", "audit", "ops"}
	}
	perm := r.Perm(len(nouns))
	idxNames := map[string]bool{}
	count := max(1+r.IntN(5), len(schemas))
	many := n%300 == 18
	if many {
		count = 270
	}
	for i := range count {
		var nn [2]string
		if many {
			nn[0] = fmt.Sprintf("part%dx", i)
			nn[1] = nn[0]
		} else {
			nn = [2]string(nouns[perm[i]])
		}
		t := &table{plural: nn[0], singular: nn[1], Tab: &catalog.Tab{Type: "BASE TABLE", Schema: schemas[r.IntN(len(schemas))]}}
		if kind == "sqlserver" {
			t.Type = "USER_TABLE"
		}
		t.Name = nn[r.IntN(2)]
		if t.View = r.IntN(4) == 0; t.View {
			t.Type = "VIEW"
		}
		used := map[string]bool{"table": true}
		pos := 0
		width := 1 + r.IntN(9)
		if n%60 == 5 && i == 0 {
			width = 260
		}
		if many {
			width = 1 + r.IntN(2)
		}
		for j := range width {
			cl := catalog.Col{Nullable: r.IntN(2) == 0}
			pos += 1 + r.IntN(3)/2
			cl.Pos = pos
			for {
				cl.Name = colWords[r.IntN(len(colWords))]
				if j == 0 && r.IntN(4) > 0 {
					cl.Name = []string{"id", "ID", "Id"}[r.IntN(3)]
				}
				if r.IntN(3) == 0 || width > 9 {
					cl.Name += fmt.Sprint("_", r.IntN(3*width))
				}
				if !used[plain(cl.Name)] {
					break
				}
			}
			used[plain(cl.Name)] = true
			ty := types[r.IntN(len(types))]
			cl.Type, cl.Udt = ty.typ, ty.udt
			if r.IntN(12) == 0 && !used[plain(cl.Name)+"count"] {
				delete(used, plain(cl.Name))
				cl.Name += "_count"
				used[plain(cl.Name)] = true
			}
			if strings.HasSuffix(cl.Name, "ids") && kind == "postgres" && r.IntN(2) == 0 {
				ty = types[len(types)-1]
				cl.Type, cl.Udt = ty.typ, ty.udt
			}
			if strings.HasSuffix(cl.Name, "_count") && r.IntN(2) == 0 {
				for _, ty := range types {
					if ty.udt == "int4" {
						cl.Type, cl.Udt, cl.Nullable = ty.typ, ty.udt, r.IntN(3) == 0
					}
				}
			}
			if (strings.Contains(ty.typ, "char") || strings.Contains(ty.typ, "text")) && r.IntN(2) == 0 || r.IntN(12) == 0 {
				ml := []int{1, 64, 4000, -1, 255, 65536, 10485760, 1<<31 - 1}[r.IntN(8)]
				cl.MaxLen = &ml
			}
			t.Cols = append(t.Cols, cl)
		}
		if !t.View {
			for k := range r.IntN(3) {
				x := catalog.Idx{Name: fmt.Sprintf("ix_%s_%d", plain(t.Name), k), Unique: r.IntN(2) == 0, Primary: k == 0 && r.IntN(3) > 0}
				if r.IntN(6) == 0 {
					x.Name = fmt.Sprintf("IX of %s's %d", plain(t.Name), k)
				}
				if n := t.Cols[r.IntN(len(t.Cols))].Name; r.IntN(5) == 0 && !strings.ContainsAny(n, " ") {
					x.Name = n
				}
				if idxNames[x.Name] {
					continue
				}
				idxNames[x.Name] = true
				p := r.Perm(len(t.Cols))
				for _, q := range p[:min(len(p), 1+r.IntN(2))] {
					x.Cols = append(x.Cols, t.Cols[q].Name)
				}
				t.Idx = append(t.Idx, x)
			}
		}
		g.tabs = append(g.tabs, t)
		c.Tabs = append(c.Tabs, t.Tab)
	}
	var real []*table
	for _, t := range g.tabs {
		if !t.View {
			real = append(real, t)
		}
	}
	seen := map[string]bool{}
	for i := range r.IntN(5) {
		if len(real) == 0 {
			break
		}
		a, b := real[r.IntN(len(real))], real[r.IntN(len(real))]
		f := catalog.FK{Name: fmt.Sprint("fk_", i), Schema: a.Schema, Table: a.Name, Column: a.Cols[r.IntN(len(a.Cols))].Name, RefSchema: b.Schema, RefTable: b.Name, RefColumn: b.Cols[r.IntN(len(b.Cols))].Name}
		if k := f.Schema + f.Table + "." + f.Column; !seen[k] {
			seen[k] = true
			c.FKs = append(c.FKs, f)
		}
	}
	g.options()
	switch r.IntN(14) {
	case 0: // a type there is no Go type for
		var l []*table
		for _, t := range g.tabs {
			if g.expect[t.Schema+"."+t.Name] != nil {
				for _, x := range t.cols {
					if x.goType == "" || !strings.Contains(x.field, "!") {
						l = append(l, t)
						break
					}
				}
			}
		}
		if len(l) > 0 {
			t := l[r.IntN(len(l))]
			x := t.cols[r.IntN(len(t.cols))]
			if !strings.HasPrefix(x.goType, "override ") {
				u := unsupported[kind][r.IntN(len(unsupported[kind]))]
				for i := range t.Cols {
					if t.Cols[i].Name == x.Name {
						t.Cols[i].Type, t.Cols[i].Udt = u[0], u[1]
					}
				}
				g.bad = u[0] + " " + u[1]
			}
		}
	case 1: // names Go cannot have
		t := g.tabs[r.IntN(len(g.tabs))]
		if r.IntN(2) == 0 {
			t.Name = []string{"2fa", "it's", "a\"b", "café!", "x=y", "a.b"}[r.IntN(6)]
		} else {
			t.Cols[len(t.Cols)-1].Name = []string{"2fa", "it's", "a`b", "back\\slash", "x=y", "q?"}[r.IntN(6)]
		}
		t.Idx, c.FKs = nil, nil
		g.odd = true
	}
	return g
}

// options picks the flags and the definitions file and tells what they select.
func (g *gencase) options() {
	r := g.r
	var parts [][]string
	parts = append(parts, []string{"--db", g.db})
	var fs, ft, views []string
	if r.IntN(4) == 0 {
		fs = append(fs, g.tabs[r.IntN(len(g.tabs))].Schema)
	}
	if r.IntN(4) == 0 {
		for _, t := range g.tabs {
			if r.IntN(2) == 0 {
				ft = append(ft, t.Name)
			}
		}
	}
	for _, t := range g.tabs {
		if t.View && r.IntN(3) > 0 {
			views = append(views, t.Name)
		}
	}
	for _, p := range []struct {
		n string
		l []string
	}{{"schema", fs}, {"table", ft}, {"view", views}} {
		for _, x := range p.l {
			parts = append(parts, []string{"--" + p.n, x})
		}
	}
	deps := r.IntN(2) == 0
	if deps {
		parts = append(parts, []string{"--dependencies"})
		g.refs = scmp.RefsOf(g.cat)
	}
	var sel []*catalog.Tab
	for _, t := range g.tabs {
		if !t.View && scmp.Fold(fs, t.Schema) && scmp.Fold(ft, t.Name) {
			sel = append(sel, t.Tab)
		}
	}
	if deps {
		sel = scmp.Closure(g.cat, sel)
	}
	if len(views) > 0 {
		for _, t := range g.tabs {
			if t.View && scmp.Fold(fs, t.Schema) && scmp.Fold(views, t.Name) {
				sel = append(sel, t.Tab)
			}
		}
	}
	for _, t := range g.tabs {
		if slices.Contains(sel, t.Tab) {
			g.expect[t.Schema+"."+t.Name] = t
		}
	}
	if r.IntN(3) == 0 {
		g.suffix = []string{"Row", "model", "DTO", g.tabs[0].singular}[r.IntN(4)]
		parts = append(parts, []string{"--struct-suffix=" + g.suffix})
	}
	if r.IntN(3) == 0 {
		g.schema = true
		parts = append(parts, []string{"--use-schema"})
	}
	if r.IntN(3) == 0 {
		parts = append(parts, []string{"--imports", "encoding/json"})
		if r.IntN(2) == 0 {
			parts = append(parts, []string{"--imports", "time"})
		}
	}
	g.pkgs = [2]string{"model", "schema"}
	if r.IntN(3) == 0 {
		g.pkgs[0] = []string{"dbmodel", "rows", "schema_rows", "model2"}[r.IntN(4)]
		parts = append(parts, []string{"--pkg-model", g.pkgs[0]})
	}
	if r.IntN(3) == 0 {
		g.pkgs[1] = []string{"tables", "dbschema", "model_tables", "schema2"}[r.IntN(4)]
		parts = append(parts, []string{"--pkg-schema", g.pkgs[1]})
	}
	byTyp := map[string]sqlType{}
	for _, t := range pgTypes {
		byTyp["postgres "+t.typ+" "+t.udt] = t
	}
	for _, t := range msTypes {
		byTyp["sqlserver "+t.typ+" "+t.udt] = t
	}
	defs := map[string]any{}
	types, fields, tables := map[string]string{}, map[string]string{}, map[string]string{}
	var cached, drop []string
	use := r.IntN(2) == 0
	if use {
		for _, t := range g.tabs {
			fqn := t.Schema + "." + t.Name
			if r.IntN(4) == 0 {
				t.override = fmt.Sprintf("Custom%sThing", strings.ToUpper(plain(t.singular))[:1]) + fmt.Sprint(len(tables))
				if r := rune(t.Name[0]); r >= 'A' && r <= 'Z' && g.n%4 < 2 && plain(t.Name) == strings.ToLower(t.Name) {
					t.override = t.Name
				}
				tables[fqn] = t.override
			}
			if r.IntN(3) == 0 {
				t.cached = true
				cached = append(cached, fqn)
			}
			for _, c := range t.Cols {
				if r.IntN(10) == 0 {
					fields[fqn+"."+c.Name] = fmt.Sprintf("Renamed%d", len(fields))
				}
				if r.IntN(14) == 0 {
					drop = append(drop, c.Name)
				}
				if r.IntN(8) == 0 {
					key := c.Name
					if r.IntN(2) == 0 {
						key = fqn + "." + c.Name
					}
					if strings.Contains(c.Type, "char") || c.Type == "text" {
						types[key] = "xdb.NULLString"
					} else if c.Udt == "int4" || c.Udt == "int" {
						types[key] = "xdb.Int64"
					}
				}
			}
		}
		if r.IntN(2) == 0 {
			types["_count"] = "int64"
		}
		defs["tables"], defs["fields"], defs["types"], defs["with_cached_props"], defs["drop_columns"] = tables, fields, types, cached, drop
		// a type given for a name holds for every column of that name: keep only those that fit
		for _, t := range g.tabs {
			for _, c := range t.Cols {
				fits := strings.Contains(c.Type, "char") || c.Type == "text"
				if types[c.Name] == "xdb.NULLString" && !fits {
					delete(types, c.Name)
				}
				if types[c.Name] == "xdb.Int64" && c.Udt != "int4" && c.Udt != "int" {
					delete(types, c.Name)
				}
			}
		}
	}
	for _, t := range g.tabs {
		fqn := t.Schema + "." + t.Name
		for _, c := range scmp.SortedCols(t.Tab) {
			if slices.Contains(drop, c.Name) {
				t.dropped++
				continue
			}
			x := &col{Col: c, t: byTyp[g.cat.Kind+" "+c.Type+" "+c.Udt], field: fields[fqn+"."+c.Name]}
			x.goType = g.typeOf(x)
			if types["_count"] != "" && c.Udt == "int4" && !c.Nullable && strings.HasSuffix(c.Name, "_count") {
				x.goType = types["_count"]
			}
			if v := types[fqn+"."+c.Name]; v != "" {
				x.goType = "override " + v
			}
			if v := types[c.Name]; v != "" {
				x.goType = "override " + v
			}
			t.cols = append(t.cols, x)
		}
	}
	if use {
		b, _ := json.Marshal(defs)
		parts = append(parts, []string{"--types-def", "types.yaml"})
		g.desc = string(b)
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	g.args = []string{"schema", "generate"}
	for _, p := range parts {
		g.args = append(g.args, p...)
	}
}

func (g *gencase) describe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "case %d, %s, xdbcli %q, definitions %s", g.n, g.cat.Kind, g.args, g.desc)
	for _, t := range g.cat.Tabs {
		fmt.Fprintf(&b, "\n %s.%s view %v:", t.Schema, t.Name, t.View)
		for _, c := range scmp.SortedCols(t) {
			fmt.Fprintf(&b, " %q %s/%s null %v;", c.Name, c.Type, c.Udt, c.Nullable)
		}
	}
	for _, f := range g.cat.FKs {
		fmt.Fprintf(&b, "\n key %v", f)
	}
	return b.String()
}

func files(dir string) map[string][]byte {
	m := map[string][]byte{}
	l, _ := os.ReadDir(dir)
	for _, f := range l {
		b, _ := os.ReadFile(filepath.Join(dir, f.Name()))
		m[f.Name()] = b
	}
	return m
}

// generate runs the tool; it returns the files, or what went wrong.
func (g *gencase) generate(bin string) (model, sch map[string][]byte, fail, msg string) {
	if err := os.MkdirAll(g.dir, 0o700); err != nil {
		panic(err)
	}
	if g.desc != "" {
		_ = os.WriteFile(filepath.Join(g.dir, "types.yaml"), []byte(g.desc), 0o600)
	}
	for i := range 2 {
		if i == 1 {
			// over longer files of an earlier run
			for _, x := range []struct {
				dir string
				m   map[string][]byte
			}{{"r1/model", model}, {"r1/schema", sch}} {
				_ = os.MkdirAll(filepath.Join(g.dir, x.dir), 0o700)
				for n, b := range x.m {
					_ = os.WriteFile(filepath.Join(g.dir, x.dir, n), append(bytes.Clone(b), bytes.Repeat([]byte("// old\n"), 1+g.n%400)...), 0o600)
				}
			}
		}
		s := pgcat.Serve(g.cat, uint64(g.n*2+i))
		args := append(append([]string(nil), g.args...), "--out-model", fmt.Sprintf("r%d/model", i), "--out-schema", fmt.Sprintf("r%d/schema", i), "--sql-source", s.Source())
		o := pgcat.Exec(bin, g.dir, nil, nil, args...)
		s.Close()
		if o.Code != 0 {
			if strings.TrimSpace(o.Stderr) == "" || o.Code < 0 || o.Hung {
				return nil, nil, "", fmt.Sprintf("exit status %d without a message: %q", o.Code, o.Stderr)
			}
			return nil, nil, o.Stderr, ""
		}
		m, c := files(filepath.Join(g.dir, fmt.Sprintf("r%d/model", i))), files(filepath.Join(g.dir, fmt.Sprintf("r%d/schema", i)))
		if i == 0 {
			model, sch = m, c
			continue
		}
		for n := range m {
			if !bytes.Equal(m[n], model[n]) {
				return nil, nil, "", n + " differs between two runs over the same database"
			}
		}
		for n := range c {
			if !bytes.Equal(c[n], sch[n]) {
				return nil, nil, "", n + " differs between two runs over the same database"
			}
		}
		if len(m) != len(model) || len(c) != len(sch) {
			return nil, nil, "", "two runs wrote different files"
		}
		if msg := g.printed(bin, model, sch); msg != "" {
			return nil, nil, "", msg
		}
	}
	if g.odd {
		return model, sch, "", ""
	}
	by := map[string]bool{}
	for _, t := range g.expect {
		by[t.Schema] = true
	}
	for _, x := range []struct {
		m map[string][]byte
		n string
	}{{model, "model.gen.go"}, {sch, "schema.gen.go"}} {
		want := map[string]bool{}
		for s := range by {
			if len(by) > 1 {
				want[s+"_"+x.n] = true
			} else {
				want[x.n] = true
			}
		}
		var names []string
		for n := range x.m {
			names = append(names, n)
		}
		for n := range want {
			if x.m[n] == nil {
				return nil, nil, "", fmt.Sprintf("%s is not written, only %v", n, names)
			}
		}
		if len(x.m) != len(want) {
			return nil, nil, "", fmt.Sprintf("files %v, want %v", names, want)
		}
	}
	return model, sch, "", ""
}

// printed runs the tool once more with code going to the output instead of a file.
func (g *gencase) printed(bin string, model, sch map[string][]byte) string {
	noModel, noSchema := g.n%5 < 2, g.n%5 == 1 || g.n%5 == 2
	if !noModel && !noSchema || g.odd {
		return ""
	}
	dir := filepath.Join(g.dir, "p")
	_ = os.MkdirAll(dir, 0o700)
	args := append([]string(nil), g.args...)
	for i, a := range args {
		if a == "types.yaml" {
			args[i] = "../types.yaml"
		}
	}
	// the names the folders would give
	if noModel {
		if !slices.Contains(args, "--pkg-model") {
			args = append(args, "--pkg-model", g.pkgs[0])
		}
	} else {
		args = append(args, "--out-model", "deep/er/model")
	}
	if noSchema {
		if !slices.Contains(args, "--pkg-schema") {
			args = append(args, "--pkg-schema", g.pkgs[1])
		}
	} else {
		args = append(args, "--out-schema", "schema/")
	}
	s := pgcat.Serve(g.cat, uint64(g.n))
	defer s.Close()
	o := pgcat.Exec(bin, dir, nil, nil, append(args, "--sql-source", s.Source())...)
	if o.Code != 0 {
		return fmt.Sprintf("printing instead of writing: exit status %d: %s", o.Code, o.Stderr)
	}
	by := map[string]bool{}
	for _, t := range g.expect {
		by[t.Schema] = true
	}
	var l []string
	for n := range by {
		l = append(l, n)
	}
	sort.Strings(l)
	want := ""
	for _, n := range l {
		pre := ""
		if len(l) > 1 {
			pre = n + "_"
		}
		if noModel {
			want += string(model[pre+"model.gen.go"])
		}
		if noSchema {
			want += string(sch[pre+"schema.gen.go"])
		}
	}
	if want != "" {
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		defer full.Close()
		if o := pgcat.Exec(bin, dir, nil, full, append(args, "--sql-source", s.Source())...); o.Code <= 0 || o.Stderr == "" {
			return fmt.Sprintf("the output takes no code and the exit status is %d: %q", o.Code, o.Stderr)
		}
	}
	if o.Stdout != want {
		return fmt.Sprintf("printed code differs from written code:\n%.2000s\nwant\n%.2000s", o.Stdout, want)
	}
	for _, x := range []struct {
		skip bool
		dir  string
		want map[string][]byte
	}{{noModel, "deep/er/model", model}, {noSchema, "schema", sch}} {
		got := files(filepath.Join(dir, x.dir))
		if x.skip {
			if len(got) != 0 {
				return "files were written although the code is printed"
			}
			continue
		}
		if len(got) != len(x.want) {
			return "files differ when other code is printed"
		}
		for n := range got {
			if !bytes.Equal(got[n], x.want[n]) {
				return n + " differs when other code is printed"
			}
		}
	}
	if e, _ := os.ReadDir(dir); len(e) > 1 {
		return fmt.Sprintf("files were written besides the requested ones: %v", e)
	}
	return ""
}

var known = map[string]string{
	"xdb": "github.com/effective-security/xdb", "xdbschema": "github.com/effective-security/xdb/schema", "xsql": "github.com/effective-security/xdb/xsql",
	"values": "github.com/effective-security/x/values", "errors": "github.com/cockroachdb/errors", "pq": "github.com/lib/pq",
}

// imports does what goimports does: it drops unused imports and adds missing ones.
func imports(name string, src []byte, more map[string]string) ([]byte, *ast.File, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	used := map[string]bool{}
	for _, u := range f.Unresolved {
		used[u.Name] = true
	}
	sel := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && used[x.Name] {
				sel[x.Name] = true
			}
		}
		return true
	})
	have := map[string]string{}
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		n := p[strings.LastIndex(p, "/")+1:]
		if i.Name != nil {
			n = i.Name.Name
		}
		have[n] = p
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport (\n", f.Name.Name)
	var l []string
	for n := range sel {
		p := have[n]
		if p == "" {
			p = known[n]
		}
		if more[n] != "" {
			p = more[n]
		}
		if p != "" {
			l = append(l, fmt.Sprintf("\t%s %q\n", n, p))
		}
	}
	sort.Strings(l)
	b.WriteString(strings.Join(l, ""))
	b.WriteString(")\n")
	// the rest of the file
	end := f.Name.End()
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			end = g.End()
		}
	}
	b.Write(src[fs.Position(end).Offset:])
	out, err := format.Source(b.Bytes())
	return out, f, err
}

// names lists what a package declares.
type names struct {
	structs, infos, maps []string
	dialects             int
}

func (x *names) add(f *ast.File) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Name.Name == "ScanRow" && d.Recv != nil && len(d.Recv.List) == 1 {
				if s, ok := d.Recv.List[0].Type.(*ast.StarExpr); ok {
					x.structs = append(x.structs, s.X.(*ast.Ident).Name)
				}
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				v, ok := s.(*ast.ValueSpec)
				if !ok || len(v.Values) != 1 {
					continue
				}
				n := v.Names[0].Name
				if n == "Dialect" {
					x.dialects++
				}
				c, ok := v.Values[0].(*ast.CompositeLit)
				if !ok {
					continue
				}
				switch t := c.Type.(type) {
				case *ast.SelectorExpr:
					if t.Sel.Name == "TableInfo" {
						x.infos = append(x.infos, n)
					}
				case *ast.MapType:
					x.maps = append(x.maps, n)
				}
			}
		}
	}
	sort.Strings(x.structs)
}

type reply struct {
	Case, Struct string
	Fields       []struct{ Name, Type, Tag string }
	Scan         []string
	ScanErr      string
	Rows         [][]string
	RowErrs      []string
	Cached       string
	Info         *schema.TableInfo
	InfoVar      string
	InfoFQN      string
	InfoDialect  string
	Columns      []struct {
		Field string
		Col   schema.Column
	}
	ColumnsInfo string
	Tables      map[string]string
	TablesVars  int
	Dialects    []string
	Page        string
	Panic       string
}

// structOf finds the table a generated type is for, by its name.
func (g *gencase) structOf(name string) *table {
	for _, t := range g.expect {
		if t.override != "" {
			if name == t.override {
				return t
			}
			continue
		}
		pre := ""
		if g.schema && !strings.EqualFold(t.Schema, "dbo") && !strings.EqualFold(t.Schema, "public") {
			pre = plain(t.Schema)
		}
		if plain(name) == pre+plain(t.singular)+plain(g.suffix) || plain(name) == pre+plain(t.Name)+plain(g.suffix) && t.Name != t.plural {
			return t
		}
	}
	return nil
}

var tagDB = regexp.MustCompile(`^db:"([^"]*)" json:",omitempty"$`)

// tag is what the tag of a field must hold.
func (g *gencase) tag(t *table, c *col) string {
	s := c.Name + "," + c.Udt
	if n := scmp.MaxLen(c.MaxLen); n > 0 {
		s += fmt.Sprintf(",max:%d", n)
	}
	if c.Nullable {
		s += ",null"
	}
	in, pk := false, false
	for _, x := range t.Idx {
		if slices.Contains(x.Cols, c.Name) {
			in = true
			pk = pk || x.Primary
		}
	}
	if in {
		s += ",index"
		if pk {
			s += ",primary"
		}
	}
	if l := g.refs[t.Schema+"."+t.Name+"."+c.Name]; len(l) > 0 && !t.View {
		s += fmt.Sprintf(",fk:%s.%s.%s", l[0].RefSchema, l[0].RefTable, l[0].RefColumn)
	}
	return s
}

// check compares what a generated type does with the catalog.
func (g *gencase) check(p *reply, rows [][][2]string) string {
	t := g.structOf(p.Struct)
	fqn := t.Schema + "." + t.Name
	if p.Panic != "" {
		return "panic: " + p.Panic
	}
	if p.ScanErr != "" {
		return p.ScanErr
	}
	if p.Info == nil || p.Info.Schema != t.Schema || p.Info.Name != t.Name || p.InfoFQN != fqn {
		return fmt.Sprintf("table description %+v (%s) for %s", p.Info, p.InfoFQN, fqn)
	}
	if p.InfoDialect != g.cat.Kind {
		return fmt.Sprintf("dialect %s for %s", p.InfoDialect, g.cat.Kind)
	}
	for _, d := range p.Dialects {
		if d != g.cat.Kind {
			return fmt.Sprintf("Dialect is %s for %s", d, g.cat.Kind)
		}
	}
	if t.override != "" && p.InfoVar != t.override+"TableInfo" {
		return fmt.Sprintf("the description is %s for %s", p.InfoVar, t.override)
	}
	if t.override == "" && plain(p.InfoVar) != plain(t.singular)+"tableinfo" && plain(p.InfoVar) != plain(t.Name)+"tableinfo" {
		return fmt.Sprintf("the description of %s is %s", fqn, p.InfoVar)
	}
	if p.ColumnsInfo != "same" {
		return "the column definitions carry another description"
	}
	var kept []string
	pk := ""
	for _, c := range t.cols {
		kept = append(kept, c.Name)
	}
	for _, x := range t.Idx {
		if x.Primary && len(x.Cols) == 1 {
			pk = x.Cols[0]
		}
	}
	if !slices.Equal(p.Info.Columns, kept) {
		return fmt.Sprintf("description lists columns %q, want %q", p.Info.Columns, kept)
	}
	if p.Info.PrimaryKey != pk {
		return fmt.Sprintf("description has primary key %q, want %q", p.Info.PrimaryKey, pk)
	}
	var idx []string
	for _, x := range t.Idx {
		idx = append(idx, x.Name)
	}
	sort.Strings(idx)
	has := append([]string(nil), p.Info.Indexes...)
	sort.Strings(has)
	if !slices.Equal(idx, has) {
		return fmt.Sprintf("description lists indexes %q, want %q", has, idx)
	}
	if len(p.Fields) != len(kept) || len(p.Scan) != len(kept) || len(p.Columns) != len(kept) {
		return fmt.Sprintf("%d fields, %d scanned, %d column definitions, want %d", len(p.Fields), len(p.Scan), len(p.Columns), len(kept))
	}
	byName := map[string]int{}
	for i, f := range p.Fields {
		byName[f.Name] = i
	}
	for i, c := range t.cols {
		fi, ok := byName[p.Scan[i]]
		if !ok {
			return fmt.Sprintf("column %d is scanned into %s", i, p.Scan[i])
		}
		f := p.Fields[fi]
		mt := tagDB.FindStringSubmatch(f.Tag)
		if mt == nil || mt[1] != g.tag(t, c) {
			return fmt.Sprintf("column %d %q is scanned into field %s tagged %s, want %q", i, c.Name, f.Name, f.Tag, g.tag(t, c))
		}
		if c.field != "" && f.Name != c.field || c.field == "" && plain(f.Name) != plain(c.Name) {
			return fmt.Sprintf("column %q has field %s, want %s", c.Name, f.Name, c.field)
		}
		if w := strings.TrimPrefix(c.goType, "override "); w != "" && f.Type != w {
			return fmt.Sprintf("column %q of %s/%s null %v has type %s, want %s", c.Name, c.Type, c.Udt, c.Nullable, f.Type, w)
		}
		d := p.Columns[i]
		w := schema.Column{Name: c.Name, Type: c.Type, UdtType: c.Udt, Nullable: c.Nullable, MaxLength: scmp.MaxLen(c.MaxLen), Position: uint32(c.Pos)}
		if got := (schema.Column{Name: d.Col.Name, Type: d.Col.Type, UdtType: d.Col.UdtType, Nullable: d.Col.Nullable, MaxLength: d.Col.MaxLength, Position: d.Col.Position}); d.Field != f.Name || !reflect.DeepEqual(got, w) {
			return fmt.Sprintf("column definition %s %+v, want %s %+v", d.Field, got, f.Name, w)
		}
	}
	want := ""
	if t.cached {
		want = "yes"
	}
	if p.Cached != want {
		return fmt.Sprintf("cached properties %q, want %q", p.Cached, want)
	}
	if p.Page != "" {
		return p.Page
	}
	// rows
	if len(kept) > 0 && len(p.Rows) != len(rows) {
		return fmt.Sprintf("%d rows read, want %d", len(p.Rows), len(rows))
	}
	for i := range p.Rows {
		if p.RowErrs[i] != "" {
			return fmt.Sprintf("row %v: %s", rows[i], p.RowErrs[i])
		}
		for j, got := range p.Rows[i] {
			c := t.cols[j]
			in, want := rows[i][j][0], rows[i][j][1]
			good := got == want
			switch {
			case in == "n:":
				good = got == "null" || got == "0" || got == "" && c.goType == "[]uint8" || got == "false" && c.goType == "xdb.Bool"
			case want == "?":
				good = got != "null"
			}
			if !good {
				return fmt.Sprintf("column %q of %s/%s: %q read as %q, want %q", t.cols[j].Name, t.cols[j].Type, t.cols[j].Udt, in, got, want)
			}
		}
	}
	// all tables
	if p.TablesVars != 1 {
		return fmt.Sprintf("%d maps of tables", p.TablesVars)
	}
	if len(p.Dialects) != 2 {
		return fmt.Sprintf("%d dialects", len(p.Dialects))
	}
	if len(p.Tables) != len(g.expect) {
		return fmt.Sprintf("map of tables %v, want %d", p.Tables, len(g.expect))
	}
	for _, x := range g.expect {
		if p.Tables[x.Name] != x.Schema+"."+x.Name {
			return fmt.Sprintf("map of tables has %q for %q", p.Tables[x.Name], x.Name)
		}
	}
	return ""
}

// rows makes values for the kept columns.
func (t *table) rows(r *rand.Rand) (out [][][2]string) {
	for i := range 4 {
		var row [][2]string
		for _, c := range t.cols {
			l := c.t.values
			x := l[r.IntN(len(l))]
			if isID(c.Name) && c.t.id != "" {
				x = [2]string{"i:" + fmt.Sprint(1+r.IntN(1<<31-1)), ""}
				x[1] = x[0][2:]
			}
			if c.goType == "xdb.IDArray" {
				x = [2]string{"x:" + fmt.Sprintf("%x", "{1,22}"), "{1,22}"}
			}
			if c.Nullable && (i == 3 || r.IntN(4) == 0) {
				x = [2]string{"n:", ""}
			}
			row = append(row, x)
		}
		out = append(out, row)
	}
	return
}

func TestC28(t *testing.T) {
	mon.Run(t, "C28", "a case is one random catalog and one random set of options for which the built xdbcli program generates code twice from a wire-level server; the packages of many cases are compiled together (imports completed as goimports does) and every generated type is exercised; non-trivial when a type is generated", func(m *mon.M) {
		dir := t.TempDir()
		bin, err := pgcat.Build(dir)
		if err != nil {
			t.Fatal(err)
		}
		harness := os.Getenv("VERIF_DIR")
		if harness == "" {
			harness = "/verif"
		}
		harness = filepath.Join(harness, "harness")
		for b := 0; b < m.N(5, 60) && !m.Failed(); b++ {
			batch(m, dir, bin, harness, b, m.N(60, 80))
		}
		m.Need("types exercised", 150)
		m.Need("unsupported types refused", 3)
		m.Need("rows read", 500)
	})
}

func batch(m *mon.M, dir, bin, harness string, b, size int) {
	root := filepath.Join(dir, fmt.Sprint("batch", b))
	overlay := map[string]string{}
	virtual := filepath.Join(harness, "genout")
	put := func(name string, data []byte) {
		real := filepath.Join(root, "src", strings.ReplaceAll(name, "/", "__"))
		_ = os.MkdirAll(filepath.Dir(real), 0o700)
		if err := os.WriteFile(real, data, 0o600); err != nil {
			panic(err)
		}
		overlay[filepath.Join(virtual, name)] = real
	}
	var mu sync.Mutex
	var reg, imp bytes.Buffer
	cases := map[string]*gencase{}
	values := map[string][][][2]string{}
	one := func(n int) {
		g := newCase(m.Rand("gen", n), n)
		defer g.cat.Close()
		g.dir = filepath.Join(root, g.id)
		model, sch, fail, msg := g.generate(bin)
		mu.Lock()
		defer mu.Unlock()
		m.Count("generated", 1)
		m.State("options", g.cat.Kind, g.suffix, g.schema, g.desc != "", len(g.expect), g.bad, g.odd)
		switch {
		case msg != "":
			m.Fail("generate", "%s\n%s", g.describe(), msg)
			return
		case fail != "":
			if g.bad == "" && !g.odd {
				m.Fail("refused", "%s\n%s", g.describe(), fail)
			}
			if g.bad != "" {
				m.Count("unsupported types refused", 1)
			}
			m.Eval(true, n)
			return
		case g.bad != "":
			m.Fail("unsupported", "%s\nsucceeds with type %s", g.describe(), g.bad)
			return
		}
		var mn, sn names
		pkg := "verif/genout/" + g.id
		for name, src := range sch {
			out, f, err := imports(name, src, nil)
			if err != nil {
				m.Fail("syntax", "%s\n%s: %v", g.describe(), name, err)
				return
			}
			if f.Name.Name != g.pkgs[1] {
				m.Fail("package", "%s\nschema package is %s, want %s", g.describe(), f.Name.Name, g.pkgs[1])
				return
			}
			sn.add(f)
			put(g.id+"/"+g.pkgs[1]+"/"+name, out)
		}
		for name, src := range model {
			out, f, err := imports(name, src, map[string]string{g.pkgs[1]: pkg + "/" + g.pkgs[1]})
			if err != nil {
				m.Fail("syntax", "%s\n%s: %v", g.describe(), name, err)
				return
			}
			if f.Name.Name != g.pkgs[0] {
				m.Fail("package", "%s\nmodel package is %s, want %s", g.describe(), f.Name.Name, g.pkgs[0])
				return
			}
			mn.add(f)
			put(g.id+"/"+g.pkgs[0]+"/"+name, out)
		}
		g.structs = mn.structs
		m.Eval(len(g.structs) > 0, n)
		if !g.odd {
			found := map[*table]string{}
			for _, s := range mn.structs {
				x := g.structOf(s)
				if x == nil || found[x] != "" {
					m.Fail("types", "%s\ntype %s is not for a listed table, or a second one", g.describe(), s)
					return
				}
				found[x] = s
			}
			if len(found) != len(g.expect) {
				m.Fail("types", "%s\ntypes %v for %d tables", g.describe(), mn.structs, len(g.expect))
				return
			}
			if len(found) > 0 && (len(sn.maps) != 1 || plain(sn.maps[0]) != plain(g.db)+"tables") {
				m.Fail("tables", "%s\nmaps of tables %v", g.describe(), sn.maps)
				return
			}
			if len(found) > 0 && (sn.dialects != 1 || mn.dialects != 1) {
				m.Fail("dialect", "%s\nDialect is declared %d times in the schema and %d in the model package", g.describe(), sn.dialects, mn.dialects)
				return
			}
		}
		cases[g.id] = g
		if len(mn.structs) == 0 {
			return
		}
		fmt.Fprintf(&imp, "\tm%s %q\n\ts%s %q\n", g.id, pkg+"/"+g.pkgs[0], g.id, pkg+"/"+g.pkgs[1])
		for _, s := range mn.structs {
			fmt.Fprintf(&reg, "\t\t{Case: %q, Struct: %q, New: func() any { return new(m%s.%s) }, Result: func() any { return new(m%s.%sResult) }, Column: s%s.%s, TablesVars: %d,\n", g.id, s, g.id, s, g.id, s, g.id, s, len(sn.maps))
			if len(sn.maps) > 0 {
				fmt.Fprintf(&reg, "\t\t\tTables: s%s.%s,\n", g.id, sn.maps[0])
			}
			fmt.Fprintf(&reg, "\t\t\tDialects: []any{m%s.Dialect, s%s.Dialect},\n\t\t\tInfos: map[string]*xdbschema.TableInfo{\n", g.id, g.id)
			for _, i := range sn.infos {
				fmt.Fprintf(&reg, "\t\t\t\t%q: &s%s.%s,\n", i, g.id, i)
			}
			fmt.Fprintf(&reg, "\t\t\t}},\n")
			if x := g.structOf(s); x != nil && !g.odd {
				values[g.id+"/"+s] = x.rows(g.r)
			}
		}
	}
	var wg sync.WaitGroup
	next := make(chan int)
	for range 6 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := range next {
				one(n)
			}
		}()
	}
	for i := range size {
		next <- b*size + i
	}
	close(next)
	wg.Wait()
	if m.Failed() {
		return
	}
	put("run/main.go", driverSource)
	put("run/entries.go", []byte("package main\n\nimport (\n\txdbschema \"github.com/effective-security/xdb/schema\"\n"+imp.String()+")\n\nfunc entries() []entry {\n\treturn []entry{\n"+reg.String()+"\t}\n}\n"))
	ov := filepath.Join(root, "overlay.json")
	j, _ := json.Marshal(map[string]any{"Replace": overlay})
	_ = os.WriteFile(ov, j, 0o600)
	prog := filepath.Join(root, "genrun")
	c := exec.Command("go", "build", "-overlay", ov, "-o", prog, "./genout/run")
	c.Dir = harness
	if out, err := c.CombinedOutput(); err != nil {
		id := regexp.MustCompile(`\bc\d+\b`).FindString(string(out))
		g := cases[id]
		if g == nil {
			panic(fmt.Sprintf("build: %v: %s", err, out))
		}
		m.Fail("compile", "%s\nthe generated code does not compile:\n%.3000s", g.describe(), out)
		return
	}
	m.Count("packages compiled", 2*len(cases))
	plan := map[string]any{}
	enc := map[string][][]string{}
	for k, l := range values {
		for _, row := range l {
			var e []string
			for _, x := range row {
				e = append(e, x[0])
			}
			enc[k] = append(enc[k], e)
		}
	}
	plan["Rows"] = enc
	j, _ = json.Marshal(plan)
	pf := filepath.Join(root, "plan.json")
	_ = os.WriteFile(pf, j, 0o600)
	o, err := exec.Command(prog, pf).Output()
	if err != nil {
		panic(fmt.Sprintf("run: %v", err))
	}
	d := json.NewDecoder(bytes.NewReader(o))
	for d.More() {
		var p reply
		if err := d.Decode(&p); err != nil {
			panic(err)
		}
		g := cases[p.Case]
		if g.odd {
			continue
		}
		m.Count("types exercised", 1)
		m.Count("rows read", len(p.Rows))
		if msg := g.check(&p, values[p.Case+"/"+p.Struct]); msg != "" {
			m.Fail("type", "%s\ntype %s: %s", g.describe(), p.Struct, msg)
		}
		for _, f := range p.Fields {
			m.State("field types", f.Type)
		}
	}
	_ = os.RemoveAll(root)
}
