// Package scmp compares what the schema provider and the printers produce with
// the catalog it was made from.
package scmp

import (
	"fmt"
	"math/rand/v2"
	"slices"
	"sort"
	"strings"

	"github.com/effective-security/xdb/schema"

	"verif/catalog"
)

func Fold(filter []string, v string) bool {
	if len(filter) == 0 {
		return true
	}
	return slices.ContainsFunc(filter, func(f string) bool { return strings.EqualFold(f, v) })
}

func MaxLen(v *int) uint32 {
	if v == nil || *v < 0 {
		return 0
	}
	return uint32(*v)
}

func SortedCols(t *catalog.Tab) []catalog.Col {
	l := append([]catalog.Col(nil), t.Cols...)
	sort.Slice(l, func(i, j int) bool { return l[i].Pos < l[j].Pos })
	return l
}

// sameTable compares a listed table with the catalog. refs is nil when
// references are not expected to be filled.
func sameTable(kind string, got *schema.Table, want *catalog.Tab, refs map[string][]catalog.FK, ordered bool) string {
	fqn := want.Schema + "." + want.Name
	if got.Schema != want.Schema || got.Name != want.Name || got.IsView != want.View || got.SchemaName != fqn {
		return fmt.Sprintf("%s listed as schema %q name %q (%q) view %v", fqn, got.Schema, got.Name, got.SchemaName, got.IsView)
	}
	cols := SortedCols(want)
	if len(got.Columns) != len(cols) {
		return fmt.Sprintf("%s has columns %v, want %d", fqn, got.Columns.Names(), len(cols))
	}
	inIdx := map[string][]string{}
	idx := map[string]catalog.Idx{}
	for _, i := range want.Idx {
		idx[i.Name] = i
		for _, n := range i.Cols {
			inIdx[n] = append(inIdx[n], i.Name)
		}
	}
	var names []string
	for i, w := range cols {
		g := got.Columns[i]
		udt := w.Udt
		if kind == "sqlserver" {
			udt = w.Type
		}
		if g.Name != w.Name || g.Type != w.Type || g.UdtType != udt || g.Nullable != w.Nullable || g.MaxLength != MaxLen(w.MaxLen) || g.Position != uint32(w.Pos) || g.SchemaName != fqn+"."+w.Name {
			return fmt.Sprintf("%s column %d is %s (%s), want %+v", fqn, i, g.StructString(), g.SchemaName, w)
		}
		names = append(names, w.Name)
		in := append([]string(nil), inIdx[w.Name]...)
		sort.Strings(in)
		has := g.Indexes.Names()
		sort.Strings(has)
		if !slices.Equal(in, has) {
			return fmt.Sprintf("%s.%s is in indexes %v, want %v", fqn, w.Name, has, in)
		}
		primary := false
		for _, n := range in {
			primary = primary || idx[n].Primary
		}
		if g.IsIndex() != (len(in) > 0) || g.IsPrimary() != primary {
			return fmt.Sprintf("%s.%s: index %v primary %v, want %v %v", fqn, w.Name, g.IsIndex(), g.IsPrimary(), len(in) > 0, primary)
		}
		if refs == nil {
			if g.Ref != nil {
				return fmt.Sprintf("%s.%s has reference %v", fqn, w.Name, *g.Ref)
			}
		} else if msg := sameRef(g, refs[fqn+"."+w.Name]); msg != "" {
			return msg
		}
	}
	if !slices.Equal(got.Columns.Names(), names) {
		return fmt.Sprintf("%s column names %v, want %v", fqn, got.Columns.Names(), names)
	}
	if len(got.Indexes) != len(want.Idx) {
		return fmt.Sprintf("%s has indexes %v, want %d", fqn, got.Indexes.Names(), len(want.Idx))
	}
	last := ""
	var pk string
	for _, g := range got.Indexes {
		w, ok := idx[g.Name]
		if !ok {
			return fmt.Sprintf("%s has index %q", fqn, g.Name)
		}
		gc, wc := append([]string(nil), g.ColumnNames...), append([]string(nil), w.Cols...)
		if !ordered && kind != "postgres" { // SQL Server lists them in the order of the table
			sort.Strings(gc)
			sort.Strings(wc)
		}
		if g.IsPrimary != w.Primary || g.IsUnique != w.Unique || !slices.Equal(gc, wc) || g.SchemaName != fqn+"."+g.Name {
			return fmt.Sprintf("%s index %+v, want %+v", fqn, *g, w)
		}
		if last >= g.Name && last != "" {
			return fmt.Sprintf("%s: index %q comes after %q: the order depends on the database", fqn, g.Name, last)
		}
		last = g.Name
		if w.Primary && len(w.Cols) == 1 {
			pk = w.Cols[0]
		}
	}
	if got.PrimaryKeyName() != pk {
		return fmt.Sprintf("%s primary key %q, want %q", fqn, got.PrimaryKeyName(), pk)
	}
	if got.PrimaryKey != nil && !slices.Contains(got.Columns, got.PrimaryKey) {
		return fmt.Sprintf("%s primary key is not one of its columns", fqn)
	}
	return ""
}

func sameRef(g *schema.Column, want []catalog.FK) string {
	if len(want) == 0 {
		if g.Ref != nil {
			return fmt.Sprintf("%s has reference %v, but is no foreign key", g.SchemaName, *g.Ref)
		}
		return ""
	}
	if g.Ref == nil {
		return fmt.Sprintf("%s has no reference, want one of %v", g.SchemaName, want)
	}
	for _, w := range want {
		if *g.Ref == AsFK(w) {
			return ""
		}
	}
	return fmt.Sprintf("%s has reference %+v, want one of %v", g.SchemaName, *g.Ref, want)
}

func AsFK(w catalog.FK) schema.ForeignKey {
	return schema.ForeignKey{Name: w.Name, Schema: w.Schema, Table: w.Table, Column: w.Column, RefSchema: w.RefSchema, RefTable: w.RefTable, RefColumn: w.RefColumn,
		SchemaName: w.Schema + "." + w.Table + "." + w.Name}
}

// SameTables compares a listing with the tables it must hold.
func SameTables(kind string, got schema.Tables, want []*catalog.Tab, refs map[string][]catalog.FK, ordered bool) string {
	w := append([]*catalog.Tab(nil), want...)
	sort.Slice(w, func(i, j int) bool { return w[i].Schema+"."+w[i].Name < w[j].Schema+"."+w[j].Name })
	var gn, wn []string
	for _, g := range got {
		if g == nil {
			return "nil table"
		}
		gn = append(gn, g.Schema+"."+g.Name)
	}
	for _, t := range w {
		wn = append(wn, t.Schema+"."+t.Name)
	}
	if !slices.Equal(gn, wn) {
		return fmt.Sprintf("listed %v, want %v", gn, wn)
	}
	for i := range w {
		if msg := sameTable(kind, got[i], w[i], refs, ordered); msg != "" {
			return msg
		}
	}
	return ""
}

func SameFKs(got schema.ForeignKeys, want []catalog.FK) string {
	w := catalog.SortedFKs(want)
	if len(got) != len(w) {
		return fmt.Sprintf("listed %d foreign keys %v, want %d %v", len(got), showFKs(got), len(w), w)
	}
	for i := range w {
		if *got[i] != AsFK(w[i]) {
			return fmt.Sprintf("foreign key %d is %+v, want %+v", i, *got[i], w[i])
		}
		if got[i].ColumnSchemaName() != w[i].Schema+"."+w[i].Table+"."+w[i].Column || got[i].RefColumnSchemaName() != w[i].RefSchema+"."+w[i].RefTable+"."+w[i].RefColumn {
			return fmt.Sprintf("foreign key %+v: column %q refers to %q", *got[i], got[i].ColumnSchemaName(), got[i].RefColumnSchemaName())
		}
	}
	return ""
}

func showFKs(l schema.ForeignKeys) []string {
	var s []string
	for _, k := range l {
		s = append(s, fmt.Sprintf("%+v", *k))
	}
	return s
}

func Recase(r *rand.Rand, s string) string {
	switch r.IntN(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	return s
}

// Filters picks schema and table Filters: existing, absent and recased names.
func Filters(r *rand.Rand, c *catalog.Catalog) (schemas, tables []string) {
	var ss, ts []string
	for _, t := range c.Tabs {
		ss, ts = append(ss, t.Schema), append(ts, t.Name)
	}
	pick := func(l []string) []string {
		switch r.IntN(4) {
		case 0, 1:
			if r.IntN(2) == 0 {
				return []string{}
			}
			return nil
		}
		var o []string
		n := 1 + r.IntN(3)
		if r.IntN(4) == 0 { // long lists, the last of which may be the only one that exists
			n = 1
			for range 3 + r.IntN(8) {
				o = append(o, []string{"missing", "pub", "publicx", "other"}[r.IntN(4)])
			}
		}
		for range n {
			if len(l) > 0 && r.IntN(5) != 0 {
				o = append(o, Recase(r, l[r.IntN(len(l))]))
			} else {
				o = append(o, []string{"missing", "", "pub", "%", "publicx"}[r.IntN(5)])
				if len(c.Tabs) > 0 && r.IntN(3) == 0 { // no name of its own
					t := c.Tabs[r.IntN(len(c.Tabs))]
					o[len(o)-1] = []string{t.Schema + "." + t.Name, "." + t.Name, t.Name + ".", t.Name + "*", `"` + t.Name + `"`, " " + t.Schema, t.Schema + " "}[r.IntN(7)]
				}
			}
		}
		return o
	}
	return pick(ss), pick(ts)
}

// Closure is every table reachable from the selected ones.
func Closure(c *catalog.Catalog, sel []*catalog.Tab) []*catalog.Tab {
	seen := map[string]*catalog.Tab{}
	var todo, out []*catalog.Tab
	add := func(t *catalog.Tab) {
		k := t.Schema + "." + t.Name
		if seen[k] == nil {
			seen[k] = t
			todo, out = append(todo, t), append(out, t)
		}
	}
	for _, t := range sel {
		add(t)
	}
	for len(todo) > 0 {
		t := todo[0]
		todo = todo[1:]
		for _, f := range c.FKs {
			if f.Schema == t.Schema && f.Table == t.Name {
				x := c.Find(f.RefSchema, f.RefTable)
				if x == nil { // not accessible: listed by name only
					x = &catalog.Tab{Schema: f.RefSchema, Name: f.RefTable}
				}
				add(x)
			}
		}
	}
	return out
}

func RefsOf(c *catalog.Catalog) map[string][]catalog.FK {
	m := map[string][]catalog.FK{}
	for _, f := range c.FKs {
		k := f.Schema + "." + f.Table + "." + f.Column
		m[k] = append(m[k], f)
	}
	return m
}

// block is one table found in printed text: the text lines before it and the rows by column header.
type block struct {
	text []string
	rows []map[string]string
}

func blocks(out string) []block {
	var l []block
	var cur block
	var head []string
	for _, line := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(line, "┌"):
			head = nil
		case strings.HasPrefix(line, "└"):
			l = append(l, cur)
			cur = block{}
		case strings.HasPrefix(line, "│"):
			cells := strings.Split(strings.Trim(line, "│"), "│")
			for i := range cells {
				cells[i] = strings.TrimSpace(cells[i])
			}
			if head == nil {
				head = cells
				continue
			}
			row := map[string]string{}
			for i, c := range cells {
				if i < len(head) {
					row[strings.ToUpper(head[i])] = c
				} else {
					row["?"] = c
				}
			}
			cur.rows = append(cur.rows, row)
		case strings.HasPrefix(line, "├"), strings.TrimSpace(line) == "":
		default:
			cur.text = append(cur.text, line)
		}
	}
	if len(cur.text) > 0 || len(cur.rows) > 0 {
		l = append(l, cur)
	}
	return l
}

func yes(b bool, got string) bool {
	if b {
		return strings.EqualFold(got, "yes")
	}
	return got == "" || strings.EqualFold(got, "no")
}

func sameRows(what string, got []map[string]string, want [][][2]string) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%s: %d rows, want %d: %v", what, len(got), len(want), got)
	}
	for i, w := range want {
		for _, kv := range w {
			g, ok := got[i][kv[0]]
			good := g == strings.TrimSpace(kv[1])
			if set, ok := strings.CutPrefix(kv[1], "\x00set"); ok {
				l := strings.Split(g, ", ")
				sort.Strings(l)
				good = strings.TrimSpace(strings.Join(l, ", ")) == strings.TrimSpace(set)
			}
			switch kv[1] {
			case "\x00yes":
				good = yes(true, g)
			case "\x00no":
				good = yes(false, g)
			}
			if !ok || !good {
				return fmt.Sprintf("%s: row %d column %s is %q (shown %v), want %q", what, i, kv[0], g, ok, kv[1])
			}
		}
	}
	return ""
}

func flag(b bool) string {
	if b {
		return "\x00yes"
	}
	return "\x00no"
}

func idxRows(l schema.Indexes, anyOrder bool) (w [][][2]string) {
	for _, x := range l {
		w = append(w, [][2]string{{"NAME", x.Name}, {"PRIMARY", flag(x.IsPrimary)}, {"UNIQUE", flag(x.IsUnique)}, {"COLUMNS", list(x.ColumnNames, anyOrder)}})
	}
	return
}

func colRows(l schema.Columns) (w [][][2]string) {
	for _, c := range l {
		ml, ref := "", ""
		if c.MaxLength > 0 {
			ml = fmt.Sprint(c.MaxLength)
		}
		if c.Ref != nil {
			ref = c.Ref.RefSchema + "." + c.Ref.RefTable + "." + c.Ref.RefColumn
		}
		w = append(w, [][2]string{{"ORD", fmt.Sprint(c.Position)}, {"NAME", c.Name}, {"TYPE", c.Type}, {"UDT", c.UdtType}, {"NULL", flag(c.Nullable)}, {"MAX", ml}, {"INDEX", flag(len(c.Indexes) > 0)}, {"REF", ref}})
	}
	return
}

// TableText compares printed text with the object.
func TableText(v any, out string) string { return tableText(v, out, false) }

// TableTextAnyOrder does not mind the order of the columns of an index.
func TableTextAnyOrder(v any, out string) string { return tableText(v, out, true) }

func list(l []string, anyOrder bool) string {
	if anyOrder {
		l = append([]string(nil), l...)
		sort.Strings(l)
		return "\x00set" + strings.Join(l, ", ")
	}
	return strings.Join(l, ", ")
}

func tableText(v any, out string, anyOrder bool) string {
	bl := blocks(out)
	take := func(what string, text []string, rows [][][2]string) string {
		if len(bl) == 0 {
			return what + " is missing"
		}
		b := bl[0]
		bl = bl[1:]
		for _, w := range text {
			found := false
			for _, g := range b.text {
				found = found || strings.TrimSpace(g) == strings.TrimSpace(w)
			}
			if !found {
				return fmt.Sprintf("%s: no line %q in %q", what, w, b.text)
			}
		}
		return sameRows(what, b.rows, rows)
	}
	one := func(t *schema.Table) string {
		if msg := take("columns of "+t.Name, []string{"Schema: " + t.Schema, "Table: " + t.Name}, colRows(t.Columns)); msg != "" {
			return msg
		}
		if len(t.Indexes) > 0 {
			return take("indexes of "+t.Name, []string{"Indexes:"}, idxRows(t.Indexes, anyOrder))
		}
		return ""
	}
	msg := ""
	switch t := v.(type) {
	case *schema.Table:
		msg = one(t)
	case schema.Tables:
		for _, x := range t {
			if msg = one(x); msg != "" {
				break
			}
		}
	case schema.Indexes:
		msg = take("indexes", nil, idxRows(t, anyOrder))
	case schema.ForeignKeys:
		var w [][][2]string
		for _, k := range t {
			w = append(w, [][2]string{{"NAME", k.Name}, {"SCHEMA", k.Schema}, {"TABLE", k.Table}, {"COLUMN", k.Column}, {"FK SCHEMA", k.RefSchema}, {"FK TABLE", k.RefTable}, {"FK COLUMN", k.RefColumn}})
		}
		msg = take("keys", nil, w)
	}
	if msg == "" && len(bl) > 0 {
		msg = fmt.Sprintf("more is printed: %+v", bl)
	}
	return msg
}

// Expect is the description of a table the provider must give; refs is nil
// when references are not filled.
func Expect(kind string, t *catalog.Tab, refs map[string][]catalog.FK) *schema.Table {
	o := &schema.Table{Schema: t.Schema, Name: t.Name, Type: t.Type, IsView: t.View, SchemaName: t.Schema + "." + t.Name}
	byName := map[string]*schema.Column{}
	for _, c := range SortedCols(t) {
		udt := c.Udt
		if kind == "sqlserver" {
			udt = c.Type
		}
		x := &schema.Column{Name: c.Name, Type: c.Type, UdtType: udt, Nullable: c.Nullable, MaxLength: MaxLen(c.MaxLen), Position: uint32(c.Pos), SchemaName: o.SchemaName + "." + c.Name}
		if l := refs[x.SchemaName]; len(l) > 0 {
			f := AsFK(l[0])
			x.Ref = &f
		}
		byName[c.Name] = x
		o.Columns = append(o.Columns, x)
	}
	idx := append([]catalog.Idx(nil), t.Idx...)
	sort.Slice(idx, func(i, j int) bool { return idx[i].Name < idx[j].Name })
	for _, i := range idx {
		x := &schema.Index{Name: i.Name, IsPrimary: i.Primary, IsUnique: i.Unique, ColumnNames: i.Cols, SchemaName: o.SchemaName + "." + i.Name}
		for _, n := range i.Cols {
			if c := byName[n]; c != nil {
				c.Indexes = append(c.Indexes, x)
			}
		}
		if i.Primary && len(i.Cols) == 1 {
			o.PrimaryKey = byName[i.Cols[0]]
		}
		o.Indexes = append(o.Indexes, x)
	}
	return o
}

// SameDoc compares a decoded document with the description it was made from.
func SameDoc(got, want *schema.Table, typed bool) string {
	if got == nil {
		return "null instead of " + want.SchemaName
	}
	if got.Schema != want.Schema || got.Name != want.Name || got.IsView != want.IsView || typed && got.Type != want.Type {
		return fmt.Sprintf("%s shown as %q.%q %q view %v", want.SchemaName, got.Schema, got.Name, got.Type, got.IsView)
	}
	col := func(c *schema.Column) string {
		if c == nil {
			return "none"
		}
		return fmt.Sprintf("%q %q %q %v %d %d", c.Name, c.Type, c.UdtType, c.Nullable, c.MaxLength, c.Position)
	}
	index := func(x *schema.Index) string {
		l := append([]string(nil), x.ColumnNames...)
		sort.Strings(l)
		return fmt.Sprintf("%q %v %v %q", x.Name, x.IsPrimary, x.IsUnique, l)
	}
	if len(got.Columns) != len(want.Columns) || len(got.Indexes) != len(want.Indexes) {
		return fmt.Sprintf("%s shown with columns %v and indexes %v, want %v and %v", want.SchemaName, got.Columns.Names(), got.Indexes.Names(), want.Columns.Names(), want.Indexes.Names())
	}
	for i, w := range want.Columns {
		if col(got.Columns[i]) != col(w) {
			return fmt.Sprintf("%s column %s, want %s", want.SchemaName, col(got.Columns[i]), col(w))
		}
	}
	for i, w := range want.Indexes {
		if index(got.Indexes[i]) != index(w) {
			return fmt.Sprintf("%s index %s, want %s", want.SchemaName, index(got.Indexes[i]), index(w))
		}
	}
	if col(got.PrimaryKey) != col(want.PrimaryKey) {
		return fmt.Sprintf("%s primary key %s, want %s", want.SchemaName, col(got.PrimaryKey), col(want.PrimaryKey))
	}
	return ""
}
