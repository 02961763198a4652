package typest

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"gopkg.in/yaml.v3"

	"github.com/effective-security/xdb"

	"verif/mon"
	"verif/tval"
)

type codec struct {
	name  string
	enc   func(r *rand.Rand, v any) ([]byte, error)
	dec   func(b []byte, p any) error
	valid func(b []byte) error
}

var codecs = []codec{
	{"json", func(r *rand.Rand, v any) ([]byte, error) {
		switch r.IntN(3) {
		case 0:
			var b bytes.Buffer
			e := json.NewEncoder(&b)
			e.SetEscapeHTML(false)
			e.SetIndent("", "\t")
			err := e.Encode(v)
			return b.Bytes(), err
		case 1:
			return json.MarshalIndent(v, " ", "  ")
		}
		return json.Marshal(v)
	}, func(b []byte, p any) error { return json.Unmarshal(b, p) }, func(b []byte) error {
		if !json.Valid(b) {
			return fmt.Errorf("not a JSON document")
		}
		return nil
	}},
	{"yaml", func(_ *rand.Rand, v any) (b []byte, err error) {
		return yaml.Marshal(v)
	}, func(b []byte, p any) error { return yaml.Unmarshal(b, p) }, func(b []byte) error {
		var n yaml.Node
		return yaml.Unmarshal(b, &n)
	}},
}

// texts collects the strings inside a value.
func texts(v any) []string {
	switch x := v.(type) {
	case xdb.NULLString:
		return []string{string(x)}
	case xdb.UUID:
		return []string{string(x)}
	case xdb.Strings:
		return x
	case xdb.Metadata:
		var l []string
		for k, v := range x {
			l = append(l, k, v)
		}
		return l
	case xdb.KVSet:
		var l []string
		for k, v := range x {
			l = append(append(l, k), v...)
		}
		return l
	}
	return nil
}

// libOK tells whether the codec itself carries these strings.
func libOK(r *rand.Rand, c codec, l []string) bool {
	if len(l) == 0 {
		return true
	}
	m := map[string]string{}
	for _, s := range l {
		m[s] = s
	}
	for _, in := range []any{l, m} {
		b, err := c.enc(r, in)
		if err != nil {
			return false
		}
		p := reflect.New(reflect.TypeOf(in))
		if err := c.dec(b, p.Interface()); err != nil || !reflect.DeepEqual(p.Elem().Interface(), in) {
			return false
		}
	}
	return true
}

func eqOrEmpty(c tval.Col, a, b any) bool {
	if x, ok := a.(xdb.Strings); ok && len(x) == 0 {
		// YAML does not tell a nil list from an empty one
		return len(b.(xdb.Strings)) == 0
	}
	return c.Eq(a, b) || c.IsEmpty(a) && c.IsEmpty(b)
}

// holder places the value inside a larger structure.
type holder[T any] struct {
	A    int          `json:"a" yaml:"a"`
	V    T            `json:"v" yaml:"v"`
	P    *T           `json:"p" yaml:"p"`
	N    *T           `json:"n,omitempty" yaml:"n,omitempty"`
	L    []T          `json:"l" yaml:"l"`
	M    map[string]T `json:"m" yaml:"m"`
	Tail string       `json:"tail" yaml:"tail"`
}

func newHolder(c tval.Col) any {
	switch c.Name {
	case "ID":
		return &holder[xdb.ID]{}
	case "ID32":
		return &holder[xdb.ID32]{}
	case "IDArray":
		return &holder[xdb.IDArray]{}
	case "Int64":
		return &holder[xdb.Int64]{}
	case "Int32":
		return &holder[xdb.Int32]{}
	case "Float":
		return &holder[xdb.Float]{}
	case "Bool":
		return &holder[xdb.Bool]{}
	case "NULLString":
		return &holder[xdb.NULLString]{}
	case "UUID":
		return &holder[xdb.UUID]{}
	case "Strings":
		return &holder[xdb.Strings]{}
	case "Metadata":
		return &holder[xdb.Metadata]{}
	case "KVSet":
		return &holder[xdb.KVSet]{}
	case "Time":
		return &holder[xdb.Time]{}
	}
	panic("harness: no holder for " + c.Name)
}

func pick(r *rand.Rand, c tval.Col) any {
	if r.IntN(6) == 0 {
		return c.Empty[r.IntN(len(c.Empty))]
	}
	return c.Gen(r)
}

// setNil keeps nil lists and maps as they are.
func rv(v any, t reflect.Type) reflect.Value {
	x := reflect.New(t).Elem()
	if v != nil {
		x.Set(reflect.ValueOf(v))
	}
	return x
}

func c14Col(m *mon.M, c tval.Col) {
	for n := 0; n < m.N(1200, 15000); n++ {
		r := m.Rand(c.Name, n)
		v := pick(r, c)
		for _, k := range codecs {
			if !libOK(r, k, texts(v)) {
				m.Count("skipped: codec cannot carry the text", 1)
				continue
			}
			m.Guard(k.name+":"+c.Name, tval.Show(v), func() {
				p := c.New()
				c.Set(p, v)
				for _, in := range []any{v, p} {
					b, err := k.enc(r, in)
					m.Count(k.name, 1)
					m.Eval(!c.IsEmpty(v), k.name, c.Name, string(b))
					if err != nil {
						m.Fail("encode:"+k.name+":"+c.Name, "%s cannot be encoded: %v", tval.Show(v), err)
						return
					}
					if err := k.valid(b); err != nil {
						m.Fail("valid:"+k.name+":"+c.Name, "%s encodes as %q: %v", tval.Show(v), b, err)
						return
					}
					q := c.New()
					if r.IntN(3) == 0 && c.Name != "Metadata" && c.Name != "KVSet" {
						// the variable may hold another value (maps are merged by
						// the codecs themselves)
						c.Set(q, c.Gen(r))
					}
					if err := k.dec(b, q); err != nil || !eqOrEmpty(c, c.Get(q), v) {
						// yaml leaves a variable as it is for null
						m.Fail("roundtrip:"+k.name+":"+c.Name, "%s encodes as %q and decodes as %s (%v)", deepText(v), b, deepText(c.Get(q)), err)
						return
					}
				}
			})
		}
	}
	// inside a structure
	for n := 0; n < m.N(300, 4000); n++ {
		r := m.Rand("in"+c.Name, n)
		h := newHolder(c)
		e := reflect.ValueOf(h).Elem()
		t := e.Field(1).Type()
		e.Field(0).SetInt(7)
		e.FieldByName("Tail").SetString("end")
		all := []any{pick(r, c)}
		e.FieldByName("V").Set(rv(all[0], t))
		if r.IntN(2) == 0 {
			x := pick(r, c)
			if !c.IsEmpty(x) {
				all = append(all, x)
				pt := reflect.New(t)
				pt.Elem().Set(rv(x, t))
				e.FieldByName("P").Set(pt)
			}
		}
		for i := r.IntN(4); i > 0; i-- {
			x := pick(r, c)
			all = append(all, x)
			e.FieldByName("L").Set(reflect.Append(e.FieldByName("L"), rv(x, t)))
		}
		mm := reflect.MakeMap(e.FieldByName("M").Type())
		for i := r.IntN(4); i > 0; i-- {
			x := pick(r, c)
			all = append(all, x)
			mm.SetMapIndex(reflect.ValueOf(fmt.Sprintf("k%d", i)), rv(x, t))
		}
		e.FieldByName("M").Set(mm)
		var l []string
		for _, x := range all {
			l = append(l, texts(x)...)
		}
		for _, k := range codecs {
			if !libOK(r, k, l) {
				continue
			}
			m.Guard("struct:"+k.name+":"+c.Name, "", func() {
				b, err := k.enc(r, h)
				if err == nil {
					err = k.valid(b)
				}
				g := newHolder(c)
				if err == nil {
					err = k.dec(b, g)
				}
				m.Count(k.name+"-struct", 1)
				m.Eval(true, k.name, c.Name, string(b))
				if err != nil {
					m.Fail("struct:"+k.name+":"+c.Name, "structure of %s: %v\n%s", c.Name, err, b)
					return
				}
				if w := sameHolder(c, reflect.ValueOf(h).Elem(), reflect.ValueOf(g).Elem()); w != "" {
					m.Fail("struct:"+k.name+":"+c.Name, "structure of %s: %s\n%s", c.Name, w, b)
				}
			})
		}
	}
}

func sameHolder(c tval.Col, a, b reflect.Value) string {
	if b.Field(0).Int() != 7 || b.FieldByName("Tail").String() != "end" || !b.FieldByName("N").IsNil() {
		return "neighbouring fields changed"
	}
	eq := func(what string, x, y reflect.Value) string {
		if !eqOrEmpty(c, x.Interface(), y.Interface()) {
			return fmt.Sprintf("%s: %s became %s", what, deepText(x.Interface()), deepText(y.Interface()))
		}
		return ""
	}
	if w := eq("V", a.FieldByName("V"), b.FieldByName("V")); w != "" {
		return w
	}
	pa, pb := a.FieldByName("P"), b.FieldByName("P")
	if pa.IsNil() != pb.IsNil() {
		return "pointer field changed"
	}
	if !pa.IsNil() {
		if w := eq("P", pa.Elem(), pb.Elem()); w != "" {
			return w
		}
	}
	la, lb := a.FieldByName("L"), b.FieldByName("L")
	if la.Len() != lb.Len() {
		return "list length changed"
	}
	for i := 0; i < la.Len(); i++ {
		if w := eq(fmt.Sprintf("L[%d]", i), la.Index(i), lb.Index(i)); w != "" {
			return w
		}
	}
	ma, mb := a.FieldByName("M"), b.FieldByName("M")
	if ma.Len() != mb.Len() {
		return "map size changed"
	}
	for _, k := range ma.MapKeys() {
		y := mb.MapIndex(k)
		if !y.IsValid() {
			return "map key lost"
		}
		if w := eq("M["+k.String()+"]", ma.MapIndex(k), y); w != "" {
			return w
		}
	}
	return ""
}

func c14Quoted(m *mon.M) {
	for _, c := range tval.Cols() {
		if !numCols[c.Name] || c.Name == "Bool" {
			continue
		}
		for n := 0; n < m.N(1500, 15000); n++ {
			r := m.Rand("quoted"+c.Name, n)
			v := c.Gen(r)
			b, err := json.Marshal(v)
			if err != nil {
				continue
			}
			for _, doc := range []string{`"` + string(b) + `"`, string(b)} {
				p := c.New()
				m.Count("quoted", 1)
				if err := json.Unmarshal([]byte(doc), p); err != nil || !c.Eq(c.Get(p), v) {
					m.Fail("quoted:"+c.Name, "%s decodes as %s, want %s (%v)", doc, deepText(c.Get(p)), deepText(v), err)
				}
				q := newHolder(c)
				if err := json.Unmarshal([]byte(`{"v":`+doc+`,"l":[`+doc+`]}`), q); err != nil || !c.Eq(reflect.ValueOf(q).Elem().FieldByName("V").Interface(), v) {
					m.Fail("quoted:"+c.Name, "%s in a structure: %v", doc, err)
				}
			}
			// plain text of the number
			s := strings.TrimSpace(string(b))
			if f, err := strconv.ParseFloat(s, 64); err != nil || c.Name == "Float" && f != float64(v.(xdb.Float)) {
				m.Fail("number:"+c.Name, "%s is written as %s", deepText(v), s)
			}
		}
	}
}

func TestC14(t *testing.T) {
	mon.Run(t, "C14", "a case is one value encoded and decoded; non-trivial when it is not the empty value", func(m *mon.M) {
		for _, c := range tval.Cols() {
			c14Col(m, c)
		}
		c14Quoted(m)
		c14Forms(m)
		m.Need("json", 5000)
		m.Need("yaml", 5000)
		m.Need("quoted", 1000)
		m.Assume("text is valid UTF-8 and numbers are finite; text the JSON or YAML library itself does not carry is skipped and counted")
	})
}

// c14Forms compares the text and Go forms of values.
func c14Forms(m *mon.M) {
	for n := 0; n < m.N(4000, 60000); n++ {
		r := m.Rand("forms", n)
		i := tval.Int64(r)
		eq := func(what string, got, want any) {
			if got != want {
				m.Fail("form:"+what, "%s of %d is %#v, want %#v", what, i, got, want)
			}
			m.Count("forms", 1)
		}
		v := xdb.Int64(i)
		eq("Int64.String", v.String(), strconv.FormatInt(i, 10))
		eq("Int64.QuotedString", v.QuotedString(), strconv.Quote(strconv.FormatInt(i, 10)))
		eq("Int64.Int64", v.Int64(), i)
		w := xdb.Int32(int32(i))
		eq("Int32.String", w.String(), strconv.FormatInt(int64(int32(i)), 10))
		eq("Int32.Int32", w.Int32(), int32(i))
		eq("Int32.Int64", w.Int64(), int64(int32(i)))
		f := float64(i) / float64(uint64(1)<<r.IntN(60))
		eq("Float.Float", xdb.Float(f).Float(), f)
		b := i&1 == 0
		eq("Bool.String", xdb.Bool(b).String(), strconv.FormatBool(b))
		eq("Bool.Bool", xdb.Bool(b).Bool(), b)
		s := tval.Text(r)
		eq("NULLString.String", xdb.NULLString(s).String(), s)
		eq("UUID.String", xdb.UUID(s).String(), s)
		eq("String", xdb.String(&s), s)
		eq("QuotedString", xdb.QuotedString(&s), `"`+s+`"`)
		t := tval.GoTime(r)
		if nt := xdb.NullTime(&t); !nt.Valid || !nt.Time.Equal(t) {
			m.Fail("form:NullTime", "NullTime of %v is %v", t, nt)
		}
		x := xdb.UTC(t)
		if p := xdb.TimePtr(x); x.IsZero() != (p == nil) || p != nil && !p.Equal(time.Time(x)) {
			m.Fail("form:TimePtr", "TimePtr of %v is %v", x, p)
		}
		m.Eval(i != 0, "forms", i, s)
	}
	if xdb.String(nil) != "" || xdb.QuotedString(nil) != "" || xdb.NullTime(nil).Valid || xdb.TimePtr(xdb.Time{}) != nil {
		m.Fail("form:nil", "forms of no value: %q %q %v %v", xdb.String(nil), xdb.QuotedString(nil), xdb.NullTime(nil), xdb.TimePtr(xdb.Time{}))
	}
	m.Need("forms", 10000)
}

func utcMilli(t xdb.Time) string {
	g := time.Time(t)
	switch {
	case g.Location() != time.UTC && !g.IsZero():
		return "location " + g.Location().String()
	case g.Nanosecond()%1_000_000 != 0:
		return "not truncated to the millisecond"
	}
	return ""
}

// floorMilli truncates to the millisecond by its own arithmetic.
func floorMilli(t time.Time) time.Time {
	return time.Unix(t.Unix(), int64(t.Nanosecond()/1_000_000*1_000_000)).UTC()
}

func sameInstant(a xdb.Time, b time.Time) bool { return time.Time(a).Equal(b) }

func c15Values(m *mon.M) {
	fail := func(what string, in any, got xdb.Time, want time.Time) {
		m.Fail("time:"+what, "%s of %v is %s, want %s", what, in, time.Time(got).Format(time.RFC3339Nano), want.Format(time.RFC3339Nano))
	}
	for n := 0; n < m.N(20000, 300000); n++ {
		r := m.Rand("values", n)
		g := tval.GoTime(r)
		want := floorMilli(g)
		x := xdb.UTC(g)
		m.Eval(true, g.UnixNano(), g.Location().String())
		if !sameInstant(x, want) || utcMilli(x) != "" {
			fail("UTC", g, x, want)
		}
		// every conversion keeps the instant
		y := map[string]xdb.Time{}
		y["String+ParseTime"] = xdb.ParseTime(x.String())
		var j xdb.Time
		b, err := json.Marshal(x)
		if err == nil {
			err = json.Unmarshal(b, &j)
		}
		if err != nil {
			m.Fail("time:json", "JSON of %s: %v", x, err)
		}
		b0 := b
		y["JSON"] = j
		var yv xdb.Time
		if b, err = yaml.Marshal(x); err == nil {
			err = yaml.Unmarshal(b, &yv)
		}
		if err != nil {
			m.Fail("time:yaml", "YAML of %s: %v", x, err)
		}
		y["YAML"] = yv
		dv, err := x.Value()
		if err != nil {
			m.Fail("time:value", "Value of %s: %v", x, err)
		}
		dirty := xdb.UTC(tval.GoTime(r))
		if err := dirty.Scan(dv); err != nil {
			m.Fail("time:scan", "Scan of %v: %v", dv, err)
		}
		y["Value+Scan"] = dirty
		if !want.IsZero() {
			t, ok := dv.(time.Time)
			if !ok || !t.Equal(want) || t.Location() != time.UTC {
				m.Fail("time:value", "Value of %s is %v", x, dv)
			}
			var s1, s2 xdb.Time
			if err := s1.Scan(x.String()); err != nil {
				m.Fail("time:scan", "Scan of text %s: %v", x, err)
			}
			y["Scan text"] = s1
			if err := s2.Scan(t.In(g.Location())); err != nil {
				m.Fail("time:scan", "Scan of %v: %v", t, err)
			}
			y["Scan zoned"] = s2
		}
		// a time converted from a Go time of another zone
		if z := xdb.Time(want.In(g.Location())); !want.IsZero() {
			zb, err := json.Marshal(z)
			if z.String() != x.String() || err != nil || string(zb) != string(b0) {
				m.Fail("time:zone", "%v has text %q and JSON %s, the same UTC time %q and %s (%v)", time.Time(z), z.String(), zb, x.String(), b0, err)
			}
			if p := z.Ptr(); p == nil || p.Location() != time.UTC || !p.Equal(want) || z.UTC().Location() != time.UTC {
				m.Fail("time:zone", "%v has Ptr %v and UTC %v", time.Time(z), p, z.UTC())
			}
			if v, err := z.Value(); err != nil || v.(time.Time).Location() != time.UTC || !v.(time.Time).Equal(want) {
				m.Fail("time:zone", "%v has Value %v", time.Time(z), v)
			}
		}
		y["milliseconds"] = xdb.FromUnixMilli(x.UnixMilli())
		y["Go time"] = xdb.UTC(x.UTC())
		if p := x.Ptr(); p != nil {
			y["Ptr"] = xdb.UTC(*p)
			y["TimePtr"] = xdb.UTC(*xdb.TimePtr(x))
			y["NullTime"] = xdb.UTC(xdb.NullTime(p).Time)
		} else if !want.IsZero() || xdb.TimePtr(x) != nil || xdb.NullTime(nil).Valid {
			m.Fail("time:Ptr", "Ptr of %s is nil", x)
		}
		for what, v := range y {
			m.Count("conversion", 1)
			if !sameInstant(v, want) || utcMilli(v) != "" {
				fail(what, x, v, want)
			}
		}
		if want.UnixMilli() != x.UnixMilli() {
			m.Fail("time:UnixMilli", "UnixMilli of %s is %d, want %d", x, x.UnixMilli(), want.UnixMilli())
		}
		if x.IsZero() != want.IsZero() || x.IsNil() != want.IsZero() || (x.String() == "") != want.IsZero() {
			m.Fail("time:zero", "IsZero %v IsNil %v text %q for %v", x.IsZero(), x.IsNil(), x, want)
		}
		// arithmetic
		d := time.Duration(tval.Int64(r)) >> r.IntN(20)
		if sum := g.Add(d); sum.Year() > 1 && sum.Year() < 9999 {
			a := x.Add(d)
			if w := floorMilli(want.Add(d)); !sameInstant(a, w) || utcMilli(a) != "" {
				fail("Add("+d.String()+")", x, a, w)
			}
		}
		// order
		o := xdb.UTC(tval.GoTime(r))
		if r.IntN(2) == 0 {
			o = xdb.UTC(g.Add(time.Duration(r.IntN(4)-2) * time.Millisecond))
		}
		cmpT := func(a, b xdb.Time) int { return time.Time(a).Compare(time.Time(b)) }
		base := floorMilli(time.Time(x)).Compare(floorMilli(time.Time(o)))
		for what, c := range map[string]int{
			"text":         cmpT(xdb.ParseTime(x.String()), xdb.ParseTime(o.String())),
			"milliseconds": int(sign(x.UnixMilli() - o.UnixMilli())),
			"values":       cmpT(x, o),
		} {
			if c != base {
				m.Fail("time:order", "order of %s and %s by %s is %d, want %d", x, o, what, c, base)
			}
		}
	}
	// the clock
	for n := 0; n < m.N(2000, 20000); n++ {
		r := m.Rand("now", n)
		lo := time.Now()
		x := xdb.Now()
		hi := time.Now()
		if time.Time(x).Before(floorMilli(lo)) || time.Time(x).After(hi) || utcMilli(x) != "" {
			m.Fail("time:Now", "Now is %v between %v and %v: %s", time.Time(x), lo, hi, utcMilli(x))
		}
		d := time.Duration(tval.Int64(r)) >> (6 + r.IntN(30))
		lo = time.Now()
		x = xdb.FromNow(d)
		hi = time.Now()
		if time.Time(x).Before(floorMilli(lo.Add(d))) || time.Time(x).After(hi.Add(d)) || utcMilli(x) != "" {
			m.Fail("time:FromNow", "FromNow(%v) is %v: %s", d, time.Time(x), utcMilli(x))
		}
		ms := int64(r.IntN(1<<46)) - 1<<45
		f := xdb.FromUnixMilli(ms)
		if f.UnixMilli() != ms || utcMilli(f) != "" || !sameInstant(f, time.UnixMilli(ms)) {
			m.Fail("time:FromUnixMilli", "FromUnixMilli(%d) is %s (%d): %s", ms, f, f.UnixMilli(), utcMilli(f))
		}
		m.Count("clock", 1)
	}
}

func sign(v int64) int64 {
	switch {
	case v < 0:
		return -1
	case v > 0:
		return 1
	}
	return 0
}

// c15Text writes an instant by its own arithmetic in every supported form.
func c15Text(m *mon.M) {
	for n := 0; n < m.N(60000, 800000); n++ {
		r := m.Rand("text", n)
		y, mo, d := 1+r.IntN(9998), 1+r.IntN(12), 1+r.IntN(28)
		if r.IntN(2) == 0 {
			y = 1970 + r.IntN(100)
		}
		h, mi, s := r.IntN(24), r.IntN(60), r.IntN(60)
		date := fmt.Sprintf("%04d-%02d-%02d", y, mo, d)
		clock := fmt.Sprintf("%02d:%02d:%02d", h, mi, s)
		var text, form string
		want := time.Date(y, time.Month(mo), d, h, mi, s, 0, time.UTC)
		switch r.IntN(6) {
		case 0:
			text, form = date, "date"
			want = time.Date(y, time.Month(mo), d, 0, 0, 0, 0, time.UTC)
		case 1:
			text, form = date+" "+clock, "date-time"
		default:
			text, form = date+"T"+clock, "rfc3339"
			if k := r.IntN(12); k < 10 && k > 0 {
				f := r.IntN(1_000_000_000)
				if r.IntN(4) == 0 {
					f = []int{999_999_999, 0, 1, 500_000_000, 1_000_000, 999_000_000, 999_500_000}[r.IntN(7)]
				}
				fs := fmt.Sprintf("%09d", f)[:k]
				text += "." + fs
				ms, _ := strconv.Atoi((fs + "000")[:3])
				want = want.Add(time.Duration(ms) * time.Millisecond)
				form += fmt.Sprintf(".%d", k)
			}
			switch r.IntN(3) {
			case 0:
				text += "Z"
				form += "Z"
			default:
				om := r.IntN(14*60*2+1) - 14*60
				if r.IntN(3) == 0 {
					om = om / 60 * 60
				}
				sg, a := "+", om
				if om < 0 {
					sg, a = "-", -om
				}
				text += fmt.Sprintf("%s%02d:%02d", sg, a/60, a%60)
				form += "offset"
				want = want.Add(-time.Duration(om) * time.Minute)
			}
		}
		m.State("form", form, len(text))
		m.Eval(true, text)
		m.Count("parse", 1)
		x := xdb.ParseTime(text)
		if !sameInstant(x, want) || utcMilli(x) != "" {
			m.Fail("parse:"+form, "ParseTime(%q) is %s, want %s", text, time.Time(x).Format(time.RFC3339Nano), want.Format(time.RFC3339Nano))
		}
		sc := xdb.UTC(tval.GoTime(r))
		if err := sc.Scan(text); err != nil || !sameInstant(sc, want) || utcMilli(sc) != "" {
			m.Fail("scan:"+form, "Scan(%q) is %s, want %s (%v)", text, time.Time(sc).Format(time.RFC3339Nano), want.Format(time.RFC3339Nano), err)
		}
		if strings.HasPrefix(form, "rfc3339") {
			for _, k := range []string{"JSON", "YAML"} {
				dc := xdb.UTC(tval.GoTime(r))
				un := json.Unmarshal
				if k == "YAML" {
					un = func(b []byte, v any) error { return yaml.Unmarshal(b, v) }
				}
				err := un([]byte(strconv.Quote(text)), &dc)
				if t := time.Time(dc); err != nil || !floorMilli(t).Equal(want) || t.Location() != time.UTC {
					m.Fail("decode:"+form, "%s %q decodes to %v, want %v (%v)", k, text, t, want, err)
				}
			}
		}
		// damage: zero time or the instant some supported form denotes
		b := []byte(text)
		switch r.IntN(4) {
		case 0:
			b = b[:r.IntN(len(b))]
		case 1:
			b[r.IntN(len(b))] = "xZT:-. /"[r.IntN(8)]
		case 2:
			b = append(b, "x0Z +"[r.IntN(5)])
		case 3:
			b = append([]byte{"x 1-"[r.IntN(4)]}, b...)
		}
		bt := string(b)
		if anyForm(bt) {
			continue
		}
		m.Count("unparsable", 1)
		if x := xdb.ParseTime(bt); !time.Time(x).IsZero() {
			m.Fail("parse:bad", "ParseTime(%q) is %s, want the zero time", bt, time.Time(x).Format(time.RFC3339Nano))
		}
		if bt != "" {
			var q xdb.Time
			if err := q.Scan(bt); err == nil {
				m.Fail("scan:bad", "Scan(%q) succeeded with %s", bt, time.Time(q).Format(time.RFC3339Nano))
			}
		}
	}
	var z xdb.Time
	v, err := z.Value()
	if v != nil || err != nil || z.String() != "" || !z.IsZero() || z.Ptr() != nil || xdb.TimePtr(z) != nil || !xdb.ParseTime("").IsZero() {
		m.Fail("zero", "zero time: value %v text %q", v, z)
	}
	z = xdb.Now()
	if err := z.Scan(nil); err != nil || !z.IsZero() {
		m.Fail("zero", "NULL reads as %s (%v)", z, err)
	}
}

func anyForm(s string) bool {
	for _, l := range []string{time.RFC3339Nano, time.DateTime, time.DateOnly, time.RFC3339} {
		if _, err := time.Parse(l, s); err == nil {
			return true
		}
	}
	return s == ""
}

func TestC15(t *testing.T) {
	// the local zone differs from UTC
	time.Local = time.FixedZone("LOC", 5*3600+45*60)
	mon.Run(t, "C15", "a case is one instant converted through all forms, or one text parsed", func(m *mon.M) {
		c15Values(m)
		c15Text(m)
		m.Need("parse", 10000)
		m.Need("unparsable", 1000)
		m.Need("conversion", 10000)
	})
}
