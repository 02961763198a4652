package schemat

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
	"strings"
	"testing"

	"gopkg.in/yaml.v3"

	"github.com/effective-security/xdb/pkg/print"
	"github.com/effective-security/xdb/schema"

	"verif/fakedb"
	"verif/mon"
)

var words = []string{"id", "user", "org_member", "Name", "created at", "yes", "null", "~", "1e3", "0x1F", "007", "true", "2020-01-01", "a:b", "a: b", "- x", "#c",
	"q\"uote", "it's", "back\\slash", "näme", "日本語", "<tag>&amp;", "{x}", "[y]", "%d %s", "*a", "&b", "!t", "@at", "`bt`", "emoji😀", "very_long_name_" + strings.Repeat("abcdefghij", 12), "x.y", "UPPER", "MiXed", "-", "=", "<<", "?", "a,b"}

func pick(r *rand.Rand) string {
	w := words[r.IntN(len(words))]
	if r.IntN(2) == 0 {
		w += fmt.Sprint(r.IntN(100))
	}
	return w
}

func genIndexes(r *rand.Rand, cols schema.Columns, n int) schema.Indexes {
	var out schema.Indexes
	for range n {
		x := &schema.Index{Name: pick(r), IsPrimary: r.IntN(3) == 0, IsUnique: r.IntN(2) == 0, SchemaName: pick(r)}
		parts := r.IntN(4)
		if r.IntN(30) == 0 {
			parts = 5 + r.IntN(40)
		}
		for range parts {
			if len(cols) > 0 {
				c := cols[r.IntN(len(cols))]
				x.ColumnNames = append(x.ColumnNames, c.Name)
				c.Indexes = append(c.Indexes, x)
			} else {
				x.ColumnNames = append(x.ColumnNames, pick(r))
			}
		}
		out = append(out, x)
	}
	return out
}

func genFK(r *rand.Rand) *schema.ForeignKey {
	return &schema.ForeignKey{Name: pick(r), Schema: pick(r), Table: pick(r), Column: pick(r), RefSchema: pick(r), RefTable: pick(r), RefColumn: pick(r), SchemaName: pick(r)}
}

func genTable(r *rand.Rand) *schema.Table {
	t := &schema.Table{Schema: pick(r), Name: pick(r), Type: []string{"BASE TABLE", "VIEW", ""}[r.IntN(3)], IsView: r.IntN(3) == 0, SchemaName: pick(r)}
	n := r.IntN(7)
	if r.IntN(40) == 0 {
		n = 150
	}
	for i := range n {
		c := &schema.Column{Name: pick(r), Type: pick(r), Nullable: r.IntN(2) == 0, Position: uint32(i + 1), SchemaName: pick(r)}
		if r.IntN(2) == 0 {
			c.UdtType = pick(r)
		}
		switch r.IntN(4) {
		case 0:
			c.MaxLength = r.Uint32()
		case 1:
			c.MaxLength = uint32(r.IntN(3))
		}
		if r.IntN(5) == 0 {
			c.Position = r.Uint32()
		}
		if r.IntN(4) == 0 {
			c.Ref = genFK(r)
		}
		t.Columns = append(t.Columns, c)
	}
	t.Indexes = genIndexes(r, t.Columns, r.IntN(4))
	if n > 0 && r.IntN(2) == 0 {
		t.PrimaryKey = t.Columns[r.IntN(n)]
	}
	return t
}

// plain is what a document carries: unexported references are left out, and
// nil and empty lists are the same.
func plain(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var x any
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&x); err != nil {
		panic(err)
	}
	var norm func(x any) any
	norm = func(x any) any {
		switch t := x.(type) {
		case []any:
			if len(t) == 0 {
				return nil
			}
			for i := range t {
				t[i] = norm(t[i])
			}
		case map[string]any:
			if len(t) == 0 {
				return nil
			}
			for k := range t {
				t[k] = norm(t[k])
			}
		}
		return x
	}
	return norm(x)
}

// deep is an independent description of an object, by its fields.
func deep(v any) string {
	var b strings.Builder
	cols := func(l schema.Columns) {
		for _, c := range l {
			fmt.Fprintf(&b, " col %q %q %q %v %d %d\n", c.Name, c.Type, c.UdtType, c.Nullable, c.MaxLength, c.Position)
		}
	}
	idx := func(l schema.Indexes) {
		for _, x := range l {
			fmt.Fprintf(&b, " index %q %v %v %q\n", x.Name, x.IsPrimary, x.IsUnique, x.ColumnNames)
		}
	}
	table := func(t *schema.Table) {
		fmt.Fprintf(&b, "table %q %q %q %v\n", t.Schema, t.Name, t.Type, t.IsView)
		cols(t.Columns)
		idx(t.Indexes)
		if t.PrimaryKey != nil {
			b.WriteString(" pk\n")
			cols(schema.Columns{t.PrimaryKey})
		}
	}
	switch t := v.(type) {
	case *schema.Table:
		table(t)
	case schema.Tables:
		for _, x := range t {
			table(x)
		}
	case schema.Indexes:
		idx(t)
	case schema.ForeignKeys:
		for _, k := range t {
			fmt.Fprintf(&b, "fk %q %q %q %q %q %q %q\n", k.Name, k.Schema, k.Table, k.Column, k.RefSchema, k.RefTable, k.RefColumn)
		}
	default:
		return fmt.Sprintf("%#v", plain(v))
	}
	return b.String()
}

// oneBad fails at one write and takes all others.
type oneBad struct{ at, calls int }

func (w *oneBad) Write(p []byte) (int, error) {
	if w.calls++; w.calls == w.at {
		return 0, fakedb.Odd(errWrite, w.calls)
	}
	return len(p), nil
}

type badWriter struct {
	via  io.Writer
	left int
	got  bytes.Buffer
	hit  bool
}

var errWrite = errors.New("injected: disk full")

func (w *badWriter) Write(p []byte) (int, error) {
	if w.via != nil {
		return w.via.Write(p)
	}
	if len(p) > w.left {
		n := w.left
		w.got.Write(p[:n])
		w.left, w.hit = 0, true
		return n, fakedb.Odd(errWrite, w.got.Len())
	}
	w.left -= len(p)
	return w.got.Write(p)
}

type failJSON struct{}

func (failJSON) MarshalJSON() ([]byte, error) { return nil, errWrite }
func (failJSON) MarshalYAML() (any, error)    { return nil, errWrite }

type withMap struct {
	A map[string]int    `json:"a" yaml:"a"`
	L []string          `json:"l" yaml:"l"`
	T map[string]string `json:"t" yaml:"t"`
	N int64             `json:"n" yaml:"n"`
	F float64           `json:"f" yaml:"f"`
	B bool              `json:"b" yaml:"b"`
	P *withMap          `json:"p" yaml:"p"`
}

func genOther(r *rand.Rand) any {
	mk := func() *withMap {
		v := &withMap{A: map[string]int{}, T: map[string]string{}, N: r.Int64() - r.Int64(), F: float64(r.IntN(1000)) / 8, B: r.IntN(2) == 0}
		for range r.IntN(5) {
			v.A[pick(r)] = r.IntN(1000)
			v.T[pick(r)] = pick(r)
			v.L = append(v.L, pick(r))
		}
		return v
	}
	switch r.IntN(7) {
	case 6: // long
		l := mk().L
		for range 200 + r.IntN(3000) {
			l = append(l, pick(r))
		}
		return l
	case 0:
		v := mk()
		v.P = mk()
		return v
	case 1:
		return mk().L
	case 2:
		return mk().T
	case 3:
		return pick(r)
	case 4:
		return r.Int64() - r.Int64()
	default:
		return []*withMap{mk(), mk()}
	}
}

func TestC32(t *testing.T) {
	mon.Run(t, "C32", "an object printed in a format", func(m *mon.M) {
		forms := []string{"json", "yaml", "table", "", "other", "JSON"}
		for n := 0; n < m.N(4000, 100000) && !m.Failed(); n++ {
			r := m.Rand("print", n)
			var v any
			kind := r.IntN(6)
			switch kind {
			case 0:
				v = genTable(r)
			case 1:
				var l schema.Tables
				for range r.IntN(5) {
					l = append(l, genTable(r))
				}
				if len(l) > 0 && r.IntN(4) == 0 { // listed twice
					i := r.IntN(len(l))
					l = append(l[:i+1:i+1], l[i:]...)
				}
				v = l
			case 2:
				var l schema.ForeignKeys
				for range r.IntN(6) {
					l = append(l, genFK(r))
				}
				v = l
			case 3:
				v = genIndexes(r, nil, r.IntN(6))
			default:
				v = genOther(r)
			}
			before := deep(v)
			form := forms[r.IntN(len(forms))]
			how := r.IntN(3) // Object, the function of the format
			id := fmt.Sprintf("%T in %q:\n%s", v, form, before)
			show := func(b *badWriter) error {
				switch {
				case how == 0 && form == "json":
					return print.JSON(b, v)
				case how == 0 && form == "yaml":
					return print.Yaml(b, v)
				}
				return print.Object(b, form, v)
			}
			w := &badWriter{left: 1 << 30}
			ok := m.Guard("panic", id, func() {
				if err := show(w); err != nil {
					m.Fail("error", "printing %s: %v", id, err)
				}
			})
			if !ok || m.Failed() {
				break
			}
			out := w.got.String()
			if deep(v) != before {
				m.Fail("modified", "printing changed %s into %s", id, deep(v))
			}
			structured := kind >= 4
			switch {
			case form == "json" || structured && form != "yaml":
				m.Count("json", 1)
				got := reflect.New(reflect.TypeOf(v))
				d := json.NewDecoder(strings.NewReader(out))
				if err := d.Decode(got.Interface()); err != nil {
					m.Fail("json", "%s\nprinted %s\nis not JSON: %v", id, out, err)
				} else if d.More() {
					m.Fail("json", "%s\nprinted more than one document: %s", id, out)
				} else if g := deep(got.Elem().Interface()); g != before {
					m.Fail("json", "%s\ndecodes to\n%s", id, g)
				}
			case form == "yaml":
				if direct, err := yaml.Marshal(v); err == nil {
					x := reflect.New(reflect.TypeOf(v))
					if yaml.Unmarshal(direct, x.Interface()) != nil || deep(x.Elem().Interface()) != before {
						m.Count("yaml library can not carry it", 1)
						continue
					}
				}
				m.Count("yaml", 1)
				got := reflect.New(reflect.TypeOf(v))
				if err := yaml.Unmarshal([]byte(out), got.Interface()); err != nil {
					m.Fail("yaml", "%s\nprinted %s\nis not YAML: %v", id, out, err)
				} else if g := deep(got.Elem().Interface()); g != before {
					m.Fail("yaml", "%s\nprinted\n%s\ndecodes to\n%s", id, out, g)
				}
			default:
				m.Count("table", 1)
				if msg := tableText(v, out); msg != "" {
					m.Fail("table", "%s\n%s\nprinted\n%s", id, msg, out)
				}
				var b bytes.Buffer
				m.Guard("panic", id, func() { print.Print(&b, v) })
				if b.String() != out {
					m.Fail("print", "%s\nPrint and Object differ:\n%s\n%s", id, out, b.String())
				}
			}
			// a writer that fails
			if len(out) > 0 {
				for _, at := range []int{0, r.IntN(len(out)), len(out) - 1} {
					w := &badWriter{left: at}
					m.Guard("panic", id, func() {
						err := show(w)
						if !errors.Is(err, errWrite) {
							m.Fail("write", "%s\nwriter failed after %d of %d bytes, error %v", id, at, len(out), err)
						}
					})
					if !strings.HasPrefix(out, w.got.String()) {
						m.Fail("prefix", "%s\nfailing writer received %s", id, w.got.String())
					}
					m.Count("failed writers", 1)
				}
				// a writer that fails once
				for _, nth := range []int{1, 2, 1 + r.IntN(10)} {
					w := &oneBad{at: nth}
					m.Guard("panic", id, func() {
						if err := show(&badWriter{left: 1 << 30, via: w}); w.calls >= nth && !errors.Is(err, errWrite) {
							m.Fail("write", "%s\nwrite %d of %d failed, error %v", id, nth, w.calls, err)
						}
					})
					m.Count("single failed writes", 1)
				}
			}
			m.State("object", fmt.Sprintf("%T", v), form, min(len(out)/200, 20))
			m.Eval(true, before, form)
			if n%500 == 0 {
				m.Sample(id)
			}
		}
		// nothing at all
		for _, v := range []any{nil, (*withMap)(nil), []string(nil), map[string]int(nil), "", 0, false, struct{}{}, schema.Tables(nil), schema.Tables{}, schema.ForeignKeys(nil), schema.Indexes{}} {
			for _, form := range []string{"json", "yaml", "table", ""} {
				if form != "json" && form != "yaml" {
					switch v.(type) {
					case schema.Tables, schema.ForeignKeys, schema.Indexes:
						continue
					}
				}
				var b bytes.Buffer
				m.Guard("nothing-panic", fmt.Sprintf("%T %s", v, form), func() {
					if err := print.Object(&b, form, v); err != nil {
						m.Fail("nothing", "%#v printed as %q: %v", v, form, err)
						return
					}
					var got, want any
					var err error
					if form == "yaml" {
						err = yaml.Unmarshal(b.Bytes(), &got)
						d, _ := yaml.Marshal(v)
						_ = yaml.Unmarshal(d, &want)
					} else {
						err = json.Unmarshal(b.Bytes(), &got)
						d, _ := json.Marshal(v)
						_ = json.Unmarshal(d, &want)
					}
					if err != nil || b.Len() == 0 || !reflect.DeepEqual(got, want) {
						m.Fail("nothing", "%#v printed as %q: %q decodes to %v (%v), want %v", v, form, b.String(), got, err, want)
					}
				})
				m.Count("empty values", 1)
				m.Eval(true, "nothing", fmt.Sprintf("%#v", v), form)
			}
		}
		nan := 0.0
		nan /= nan
		for i, v := range []any{make(chan int), func() {}, complex(1, 2), map[string]any{"x": make(chan int)}, []any{1, func() {}}, failJSON{}, &struct{ X failJSON }{}, []failJSON{{}}, map[string]any{"ok": 1, "bad": failJSON{}}, nan, map[bool]chan int{true: nil}} {
			for _, form := range forms {
				if form == "yaml" && reflect.TypeOf(v).Kind() == reflect.Float64 {
					continue // .nan
				}
				var b bytes.Buffer
				m.Guard("unencodable-panic", fmt.Sprintf("%T %s", v, form), func() {
					err := print.Object(&b, form, v)
					if err == nil {
						m.Fail("unencodable", "%T printed as %q gives no error, but %q", v, form, b.String())
					}
					if b.Len() > 0 {
						m.Fail("unencodable", "%T printed as %q: error %v, but also output %q", v, form, err, b.String())
					}
				})
				m.Count("unencodable", 1)
				m.Eval(true, "unencodable", i, form)
			}
		}
		m.Need("json", 500)
		m.Need("yaml", 300)
		m.Need("table", 500)
		m.Need("failed writers", 2000)
	})
}
