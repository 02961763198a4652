package typest

import (
	"database/sql"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"gopkg.in/yaml.v3"

	"github.com/effective-security/xdb"

	"verif/mon"
	"verif/tval"
)

func scan(p, v any) error { return p.(sql.Scanner).Scan(v) }

// deepText is the full content of a value.
func deepText(v any) string {
	switch x := v.(type) {
	case xdb.Time:
		return time.Time(x).Format(time.RFC3339Nano)
	case xdb.Strings:
		return fmt.Sprintf("%v%q", x == nil, []string(x))
	case xdb.Metadata:
		return fmt.Sprintf("%q", map[string]string(x))
	case xdb.KVSet:
		return fmt.Sprintf("%q", map[string][]string(x))
	}
	return tval.Show(v)
}

// junk are inputs most types refuse.
func junk(r *rand.Rand) any {
	return []any{
		"{", []byte("[1,"), "not json", []byte{1, 2, 3}, struct{}{}, 1.5, math.Inf(1), int64(math.MaxInt64), uint64(math.MaxUint64),
		"{1,x}", []byte("{1,2"), true, time.Unix(1, 0), `{"a":1}`, `{"a":"b"`, `["x",1]`, `[["x"]]`, "2024-13-45", []byte("zzzzzzzzzzzzzzzz!"), int64(-5), []string{"a"},
		`{"k":"v","k2":5}`, `{"k":["v"],"k2":"x"}`, `["a","b",{}]`, `"text"`, `7`,
	}[r.IntN(26)]
}

// mutBytes returns v with its own copy of the bytes and a function spoiling it.
func mutBytes(v any) (any, func()) {
	b, ok := v.([]byte)
	if !ok {
		return v, func() {}
	}
	c := append([]byte(nil), b...)
	return c, func() {
		for i := range c {
			c[i] ^= 0x15
		}
	}
}

// spoilValue changes a map or list in place, as its owner may.
func spoilValue(v any) bool {
	x := reflect.ValueOf(v)
	switch x.Kind() {
	case reflect.Map:
		x.SetMapIndex(reflect.ValueOf("spoiled").Convert(x.Type().Key()), reflect.Zero(x.Type().Elem()))
		return true
	case reflect.Slice:
		for i := range x.Len() {
			x.Index(i).SetZero()
		}
		return x.Len() > 0
	}
	return false
}

func TestC12(t *testing.T) {
	mon.Run(t, "C12", "a case is one scan into a destination that already held values; non-trivial when the destination was not zero before", func(m *mon.M) {
		for _, c := range tval.Cols() {
			for n := 0; n < m.N(350, 5000); n++ {
				r := m.Rand(c.Name, n)
				p := c.New()
				type keep struct {
					v    any
					text string
					at   int
				}
				var kept []keep
				var log []string
				for s := 0; s < 14; s++ {
					var in, want any
					valid := true
					prev := deepText(c.Get(p))
					switch k := r.IntN(10); {
					case k < 2:
						in, want = nil, c.Zero
					case k < 4:
						in, valid = junk(r), false
					case k == 4:
						// empty text of lists and maps
						in, want = emptyForm(c, r)
						if in == nil {
							in, want = nil, c.Zero
						}
					default:
						v := c.Gen(r)
						if c.Name == "Time" && r.IntN(10) == 0 {
							v = xdb.Time{}
						}
						forms := c.Forms(r, v)
						if len(forms) == 0 {
							continue
						}
						in, want = forms[r.IntN(len(forms))], v
					}
					arg, spoil := mutBytes(in)
					err := scan(p, arg)
					spoil()
					log = append(log, fmt.Sprintf("Scan(%s)=%v", tval.Show(in), err))
					got := c.Get(p)
					if valid {
						m.Count("scan", 1)
						m.Eval(prev != deepText(c.Zero), c.Name, prev, tval.Show(in))
						if err != nil || !c.Eq(got, want) {
							m.Fail("scan:"+c.Name, "%s holds %s, want %s (%v) after %s", c.Name, deepText(got), deepText(want), err, strings.Join(log, "; "))
							break
						}
						if r.IntN(3) == 0 && in != nil { // whoever got the same column before may have changed it
							q, again := c.New(), c.New()
							if scan(q, in) == nil && spoilValue(c.Get(q)) {
								m.Count("changed-by-owner", 1)
								if err := scan(again, in); err != nil || !c.Eq(c.Get(again), want) || !c.Eq(c.Get(p), want) {
									m.Fail("scan:"+c.Name, "%s: after the owner of an equal value changed it, a fresh destination holds %s and the earlier one %s, want %s (%v)", c.Name, deepText(c.Get(again)), deepText(c.Get(p)), deepText(want), err)
									break
								}
							}
						}
					} else if err != nil {
						m.Count("scan-rejected", 1)
					} else {
						// accepted: must equal a scan into a fresh destination
						q := c.New()
						if err := scan(q, in); err != nil || !c.Eq(got, c.Get(q)) {
							m.Fail("scan:"+c.Name, "%s holds %s, fresh destination %s after %s", c.Name, deepText(got), deepText(c.Get(q)), strings.Join(log, "; "))
							break
						}
					}
					bad := false
					for _, k := range kept {
						if deepText(k.v) != k.text {
							m.Fail("copy:"+c.Name, "%s: copy taken after step %d changed from %s to %s after %s", c.Name, k.at, k.text, deepText(k.v), strings.Join(log, "; "))
							bad = true
							break
						}
					}
					if bad {
						break
					}
					if r.IntN(2) == 0 {
						kept = append(kept, keep{got, deepText(got), len(log)})
						m.Count("copies", 1)
					}
				}
				if n < 1 {
					m.Sample(map[string]any{c.Name: log})
				}
			}
			m.Need("scan", 1000)
			m.Need("scan-rejected", 200)
			m.Need("changed-by-owner", 200)
		}
	})
}

// emptyForm is the empty text some drivers deliver for lists and maps.
func emptyForm(c tval.Col, r *rand.Rand) (any, any) {
	s := []any{"", []byte{}}[r.IntN(2)]
	switch c.Name {
	case "Strings":
		return s, xdb.Strings{}
	case "Metadata", "KVSet", "NULLString":
		return s, c.Zero
	case "IDArray":
		return []any{"{}", []byte("{}")}[r.IntN(2)], c.Zero
	case "Time":
		return "", c.Zero
	}
	return nil, nil
}

// exact is the number an input denotes.
func exact(v any) *big.Rat {
	switch x := v.(type) {
	case int64:
		return new(big.Rat).SetInt64(x)
	case int:
		return new(big.Rat).SetInt64(int64(x))
	case uint64:
		return new(big.Rat).SetFrac(new(big.Int).SetUint64(x), big.NewInt(1))
	case uint:
		return exact(uint64(x))
	case uint32:
		return exact(uint64(x))
	case int32:
		return exact(int64(x))
	case int16:
		return exact(int64(x))
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return nil
		}
		return new(big.Rat).SetFloat64(x)
	case float32:
		return exact(float64(x))
	case string:
		return textRat(x)
	case []byte:
		return textRat(string(x))
	case bool:
		if x {
			return exact(int64(1))
		}
		return exact(int64(0))
	}
	return nil
}

func textRat(s string) *big.Rat {
	for _, c := range s {
		if !strings.ContainsRune("0123456789+-.eE", c) {
			return nil
		}
	}
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		// keep the exponent small
		if e, err := strconv.Atoi(s[i+1:]); err != nil || e > 400 || e < -400 {
			return nil
		}
	}
	x, ok := new(big.Rat).SetString(s)
	if !ok {
		return nil
	}
	return x
}

func number(v any) *big.Rat {
	switch x := v.(type) {
	case xdb.ID:
		return exact(x.UInt64())
	case xdb.ID32:
		return exact(uint64(x))
	case xdb.Int64:
		return exact(int64(x))
	case xdb.Int32:
		return exact(int64(x))
	case xdb.Float:
		return exact(float64(x))
	case xdb.Bool:
		return exact(bool(x))
	}
	return nil
}

// numInput makes scan inputs around the limits of the types.
func numInput(r *rand.Rand) any {
	edge := []int64{0, 1, -1, 2, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MinInt64, 1 << 33, -(1 << 40), 1 << 53, 1<<53 + 1, 65536, 256}
	i := edge[r.IntN(len(edge))] + int64(r.IntN(3)-1)
	if r.IntN(3) == 0 {
		i = tval.Int64(r)
	}
	u := uint64(i)
	if r.IntN(3) == 0 {
		u = tval.Uint64(r)
	}
	switch r.IntN(14) {
	case 0, 1, 2:
		return i
	case 3, 4:
		return u
	case 5:
		return int(i)
	case 6:
		return uint(u)
	case 7:
		return tval.Floats(r)
	case 8:
		return float32(tval.Floats(r))
	case 9:
		return numText(r)
	case 10:
		return []byte(numText(r))
	case 11:
		return []any{true, false, time.Unix(5, 0), struct{}{}, []int{1}, math.NaN(), math.Inf(-1), int32(i), uint32(u), int16(i), complex(1, 1), new(int)}[r.IntN(12)]
	case 12:
		return junk(r)
	}
	return i
}

func numText(r *rand.Rand) string {
	switch r.IntN(6) {
	case 0:
		return []string{"", "abc", "1.5", "-0.25", "1e400", "-1e400", "1e-400", "12abc", "1,5", "--1", "0x10", " 1", "1 ", "1\n", "+7", "1e3", "99999999999999999999999", "-99999999999999999999999", "18446744073709551616", "9223372036854775808", "-9223372036854775809", "4294967296", "2147483648", "-2147483649", "true", "١", "1_0", "{}", "[1]", ".", "e5", "1e", "1.2.3"}[r.IntN(33)]
	case 1:
		return strconv.FormatFloat(tval.Floats(r), 'g', -1, 64)
	case 2:
		return dec(tval.Uint64(r))
	case 3:
		b := new(big.Int).SetUint64(tval.Uint64(r))
		b.Lsh(b, uint(r.IntN(40)))
		return b.String()
	}
	return strconv.FormatInt(tval.Int64(r), 10)
}

var numCols = map[string]bool{"ID": true, "ID32": true, "Int64": true, "Int32": true, "Float": true, "Bool": true}

// agrees decides whether the destination may hold got for a number input.
func agrees(name string, in *big.Rat, got any) bool {
	g := number(got)
	if g == nil {
		f, ok := got.(xdb.Float)
		return ok && in == nil && (math.IsNaN(float64(f)) || math.IsInf(float64(f), 0))
	}
	if in == nil {
		return false
	}
	switch name {
	case "Float":
		// nearest float
		f, _ := in.Float64()
		return f == float64(got.(xdb.Float))
	case "Bool":
		if in.Sign() < 0 {
			return true // sign of a boolean is left open
		}
		return (in.Sign() > 0) == bool(got.(xdb.Bool))
	}
	return g.Cmp(in) == 0
}

func c13Scan(m *mon.M) {
	for _, c := range tval.Cols() {
		if !numCols[c.Name] {
			continue
		}
		for n := 0; n < m.N(6000, 80000); n++ {
			r := m.Rand("scan"+c.Name, n)
			in := numInput(r)
			p := c.New()
			held := c.Gen(r)
			c.Set(p, held)
			err := scan(p, in)
			got := c.Get(p)
			m.Eval(err != nil, c.Name, fmt.Sprintf("%T%v", in, in))
			if err != nil {
				m.Count("rejected:"+c.Name, 1)
				if !c.Eq(got, held) && !c.Eq(got, c.Zero) {
					m.Fail("left:"+c.Name, "%s.Scan(%s) failed (%v) but left %s (held %s)", c.Name, tval.Show(in), err, deepText(got), deepText(held))
				}
				continue
			}
			m.Count("accepted:"+c.Name, 1)
			want := exact(in)
			if c.Name == "ID" && want != nil && want.Sign() < 0 {
				// the database form of IDs above MaxInt64
				want = new(big.Rat).Add(want, new(big.Rat).SetFrac(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1)))
			}
			if f, ok := in.(float64); ok && c.Name == "Float" && (math.IsNaN(f) || math.IsInf(f, 0)) {
				continue
			}
			if s := textOf(in); c.Name == "Float" && s != "" && want == nil {
				if f, err := strconv.ParseFloat(s, 64); err == nil && (f == float64(got.(xdb.Float)) || f != f) {
					continue
				}
			}
			if !agrees(c.Name, want, got) {
				m.Fail("scan:"+c.Name, "%s.Scan(%T %s) stored %s without an error", c.Name, in, tval.Show(in), deepText(got))
			}
			// values the type can hold must be accepted in these forms
		}
		// what the type can represent is accepted
		for n := 0; n < m.N(500, 5000); n++ {
			r := m.Rand("fits"+c.Name, n)
			v := c.Gen(r)
			if c.Name == "Float" || c.Name == "Bool" {
				continue
			}
			var x int64
			switch w := v.(type) {
			case xdb.ID:
				x = int64(w.UInt64())
			case xdb.ID32:
				x = int64(w)
			case xdb.Int64:
				x = int64(w)
			case xdb.Int32:
				x = int64(w)
			}
			ins := []any{x, int(x)}
			if x >= 0 || c.Name == "ID" {
				ins = append(ins, uint64(x), uint(x))
			}
			for _, in := range ins {
				p := c.New()
				if err := scan(p, in); err != nil || !c.Eq(c.Get(p), v) {
					m.Fail("fits:"+c.Name, "%s.Scan(%T %v) = %s, %v", c.Name, in, in, deepText(c.Get(p)), err)
				}
			}
		}
	}
}

func textOf(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case []byte:
		return string(x)
	}
	return ""
}

func c13JSON(m *mon.M) {
	for _, c := range tval.Cols() {
		if !numCols[c.Name] {
			continue
		}
		for n := 0; n < m.N(5000, 60000); n++ {
			r := m.Rand("json"+c.Name, n)
			s := numText(r)
			if r.IntN(8) == 0 {
				s = []string{"true", "false", "TRUE", "FALSE", "maybe", "yes", "2", "-1", "NULL", "null", "tru", "nan", "Infinity", "[]", "{}", `{"a":1}`, "[1,2]"}[r.IntN(17)]
			}
			quoted := r.IntN(2) == 0
			doc := s
			if !quoted {
				s = strings.TrimSpace(s)
			}
			if quoted {
				b, _ := json.Marshal(s)
				doc = string(b)
			}
			if !json.Valid([]byte(doc)) {
				continue
			}
			for _, how := range []string{"json", "direct", "field"} {
				p := c.New()
				var err error
				var got any
				switch how {
				case "json":
					err = json.Unmarshal([]byte(doc), p)
				case "direct":
					err = p.(json.Unmarshaler).UnmarshalJSON([]byte(doc))
				case "field":
					err = json.Unmarshal([]byte(`{"V":`+doc+`}`), &struct{ V any }{p})
				}
				got = c.Get(p)
				m.Eval(err != nil, c.Name, how, doc)
				if err != nil {
					m.Count("json-rejected", 1)
					if !c.Eq(got, c.Zero) {
						m.Fail("json-left:"+c.Name, "%s: decoding %s failed (%v) but left %s", c.Name, doc, err, deepText(got))
					}
					continue
				}
				m.Count("json-accepted", 1)
				switch strings.ToLower(s) {
				case "", "null":
					if !c.Eq(got, c.Zero) {
						m.Fail("json:"+c.Name, "%s: %s decoded as %s", c.Name, doc, deepText(got))
					}
					continue
				case "true", "false":
					if c.Name != "Bool" || bool(got.(xdb.Bool)) != (strings.ToLower(s) == "true") {
						m.Fail("json:"+c.Name, "%s: %s decoded as %s", c.Name, doc, deepText(got))
					}
					continue
				}
				want := textRat(s)
				if c.Name == "Float" && want == nil {
					if f, err := strconv.ParseFloat(s, 64); err == nil && (f == float64(got.(xdb.Float)) || f != f) {
						continue
					}
				}
				if !agrees(c.Name, want, got) {
					m.Fail("json:"+c.Name, "%s: %s decoded as %s without an error (%s)", c.Name, doc, deepText(got), how)
				}
			}
		}
	}
}

// malformed lists, per type, inputs that denote no value of the type.
var malformed = map[string][]any{
	"IDArray":  {"{1,x}", "{1,2", "1,2", "[1,2]", "{99999999999999999999}", "{1,,2}", []byte("{1.5}"), []byte("{a}"), int64(5), 1.5, true, time.Unix(1, 0), "{1}}", "x{1}", "{-99999999999999999999}", `{"1"`},
	"Strings":  {"{", "[", `["a"`, `["a",]`, `["a",1]`, `[["a"]]`, `{"a":"b"}`, `"a"`, "5", "a,b", []byte(`["a"]]`), []byte("\xff"), int64(5), 1.5, true, time.Unix(1, 0), `["a"] x`, "{a,b}", `[true]`},
	"Metadata": {"{", `{"a"`, `{"a":1}`, `{"a":"b",}`, `["a"]`, `"a"`, "5", `{"a":["b"]}`, `{"a":{"b":"c"}}`, []byte(`{"a":"b"}}`), int64(5), 1.5, true, `{"a":"b"} {"c":"d"}`, "a=b", `{a:"b"}`, `{"x":"y","z":7}`, `{"x":true}`},
	"KVSet":    {"{", `{"a":"b"}`, `{"a":[1]}`, `{"a":["b"],}`, `["a"]`, `"a"`, "5", `{"a":{"b":"c"}}`, []byte(`{"a":["b"]}}`), int64(5), 1.5, true, `{"a":["b"]} x`, `{"a":["b"],"c":"d"}`, `{"a":[["b"]]}`},
	"UUID":     {[]byte{1, 2, 3}, make([]byte, 15), make([]byte, 17), []byte("not-a-uuid"), make([]byte, 36), []byte("0123456789abcdef0123456789abcdef0123"), []byte("01234567-89ab-cdef-0123-456789abcdeg"), []byte("01234567-89ab-cdef-0123-456789abcde"), []byte("012345678-9ab-cdef-0123-456789abcdef"), []byte("{01234567-89ab-cdef-0123-456789abcdef}"), int64(5), 1.5, true, time.Unix(1, 0), []byte{}},
	"Time":     {"2024-13-01", "2024-02-30", "2024-01-02T25:00:00Z", "2024-01-02 03:04", "yesterday", "1700000000", "2024/01/02", "2024-01-02T03:04:05", "01-02-2024", "2024-01-02T03:04:05.123", " 2024-01-02", "2024-01-02 ", "0", int64(1700000000), 1.5, true, "2024-1-2", "2024-01-02T03:04:05Zjunk", "2024-01-02T03:04:05+25:00"},
}

func c13Malformed(m *mon.M) {
	for _, c := range tval.Cols() {
		for _, in := range malformed[c.Name] {
			for k := 0; k < 20; k++ {
				r := m.Rand("mal"+c.Name, k)
				p := c.New()
				held := c.Zero
				if k > 0 {
					held = c.Gen(r)
					c.Set(p, held)
				}
				before := deepText(held)
				err := scan(p, in)
				m.Eval(true, c.Name, tval.Show(in))
				m.Count("malformed", 1)
				if err == nil {
					m.Fail("malformed:"+c.Name, "%s.Scan(%s) stored %s without an error", c.Name, tval.Show(in), deepText(c.Get(p)))
				} else if g := deepText(c.Get(p)); g != before && g != deepText(c.Zero) {
					m.Fail("left:"+c.Name, "%s.Scan(%s) failed but left %s (held %s)", c.Name, tval.Show(in), g, before)
				}
			}
		}
		// damaged encodings
		if c.Name != "Strings" && c.Name != "Metadata" && c.Name != "KVSet" {
			continue
		}
		for n := 0; n < m.N(3000, 40000); n++ {
			r := m.Rand("damage"+c.Name, n)
			forms := c.Forms(r, c.Gen(r))
			if len(forms) == 0 {
				continue
			}
			b := []byte(textOf(forms[0]))
			switch r.IntN(3) {
			case 0:
				b = b[:r.IntN(len(b))]
			case 1:
				b = append(b, byte(33+r.IntN(94)))
			case 2:
				b[r.IntN(len(b))] = byte(33 + r.IntN(94))
			}
			if len(b) == 0 || json.Valid(b) {
				continue
			}
			m.Count("damaged", 1)
			m.Eval(true, c.Name, string(b))
			p := c.New()
			var in any = b
			if r.IntN(2) == 0 {
				in = string(b)
			}
			if err := scan(p, in); err == nil {
				m.Fail("malformed:"+c.Name, "%s.Scan(%q) stored %s without an error", c.Name, b, deepText(c.Get(p)))
			}
		}
	}
	// documents
	docs := map[string][]string{
		"Time":     {`"2024-13-01T00:00:00Z"`, `"yesterday"`, `5`, `true`, `{}`, `[]`, `"2024-01-02T25:00:00Z"`, `"1700000000"`, `" "`},
		"Strings":  {`[1]`, `{}`, `5`, `"a"`, `[{}]`},
		"Metadata": {`[]`, `{"a":1}`, `5`, `"a"`, `{"a":{}}`},
		"KVSet":    {`[]`, `{"a":"b"}`, `5`, `{"a":[1]}`},
		"IDArray":  {`{}`, `["x"]`, `[-1]`, `[1.5]`, `[18446744073709551616]`, `"1,2"`, `5`, `[true]`},
		"ID":       {`-1`, `1.5`, `true`, `{}`, `[]`, `"x"`, `18446744073709551616`, `"1 2"`, `[1]`, `1e3`},
	}
	for _, c := range tval.Cols() {
		for _, d := range docs[c.Name] {
			p := c.New()
			m.Count("malformed", 1)
			m.Eval(true, "doc", c.Name, d)
			if err := json.Unmarshal([]byte(d), p); err == nil {
				m.Fail("doc:"+c.Name, "%s: JSON %s decoded as %s without an error", c.Name, d, deepText(c.Get(p)))
			}
		}
	}
	ydocs := map[string][]string{
		"Time":     {"yesterday", "2024-13-01T00:00:00Z", "[1]", "{a: b}", "17"},
		"ID":       {"-1", "abc", "18446744073709551616", "1.5", "[1]", "{a: 1}"},
		"ID32":     {"-1", "4294967296", "abc"},
		"Int32":    {"2147483648", "-2147483649", "abc"},
		"Int64":    {"9223372036854775808", "abc"},
		"Strings":  {"{a: b}", "[[a]]"},
		"Metadata": {"[a]", "{a: [b]}"},
		"KVSet":    {"[a]", "{a: {b: c}}"},
		"Bool":     {"maybe", "17", "[true]"},
		"IDArray":  {"[x]", "[-1]", "{a: 1}"},
	}
	for _, c := range tval.Cols() {
		for _, d := range ydocs[c.Name] {
			p := c.New()
			m.Count("malformed", 1)
			m.Eval(true, "ydoc", c.Name, d)
			if err := yaml.Unmarshal([]byte(d+"\n"), p); err == nil {
				m.Fail("ydoc:"+c.Name, "%s: YAML %s decoded as %s without an error", c.Name, d, deepText(c.Get(p)))
			}
		}
	}
}

func TestC13(t *testing.T) {
	mon.Run(t, "C13", "a case is one input scanned or decoded; non-trivial when it was rejected or is malformed", func(m *mon.M) {
		c13Scan(m)
		c13JSON(m)
		c13Malformed(m)
		for n := range numCols {
			if n != "Bool" {
				m.Need("rejected:"+n, 500)
				m.Need("accepted:"+n, 300)
			}
		}
		m.Need("json-rejected", 500)
		m.Need("damaged", 200)
	})
}
