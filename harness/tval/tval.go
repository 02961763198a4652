// Package tval generates values of the column types and knows, independently
// of the code under test, when two of them are equal.
package tval

import (
	"database/sql/driver"
	"fmt"
	"math"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"

	"github.com/effective-security/xdb"
)

// Col describes one column type.
type Col struct {
	Name string
	// Decl are SQLite declarations that make the driver deliver this type.
	Decl []string
	// Gen makes a value; New makes a pointer to a fresh destination.
	Gen func(r *rand.Rand) any
	New func() any
	// Get reads the destination, Eq compares two values of the type.
	Get func(p any) any
	Eq  func(a, b any) bool
	// Empty are the values stored as NULL, Zero is what NULL reads as.
	Empty []any
	Zero  any
	// IsEmpty tells whether v is stored as NULL.
	IsEmpty func(v any) bool
	// Forms are what drivers deliver for a column holding v.
	Forms func(r *rand.Rand, v any) []any
	// Set stores v into the destination.
	Set func(p, v any)
}

func col[T any](name string, decl []string, gen func(*rand.Rand) T, eq func(a, b T) bool, isEmpty func(T) bool, zero T, empty []T, forms func(*rand.Rand, T) []any) Col {
	c := Col{
		Name: name, Decl: decl,
		Gen:     func(r *rand.Rand) any { return gen(r) },
		New:     func() any { return new(T) },
		Get:     func(p any) any { return *(p.(*T)) },
		Set:     func(p, v any) { *(p.(*T)) = v.(T) },
		Eq:      func(a, b any) bool { return eq(a.(T), b.(T)) },
		IsEmpty: func(v any) bool { return isEmpty(v.(T)) },
		Zero:    zero,
		Forms:   func(r *rand.Rand, v any) []any { return forms(r, v.(T)) },
	}
	for _, e := range empty {
		c.Empty = append(c.Empty, e)
	}
	return c
}

// Uint64 makes interesting 64-bit numbers.
func Uint64(r *rand.Rand) uint64 {
	switch r.IntN(8) {
	case 0:
		return []uint64{1, 2, 9, 10, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64, 1 << 53, 1<<53 + 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt32, 1 << 32}[r.IntN(13)]
	case 1:
		return uint64(r.IntN(100) + 1)
	}
	return r.Uint64()>>r.IntN(63) | 1
}

// Int64 makes interesting signed numbers.
func Int64(r *rand.Rand) int64 {
	switch r.IntN(6) {
	case 0:
		return []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 53, -(1<<53 + 1), math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1}[r.IntN(11)]
	case 1:
		return int64(r.IntN(200) - 100)
	}
	return int64(r.Uint64()) >> r.IntN(63)
}

var bits = []string{"", "a", "it's", `q"uote`, `back\slash`, "new\nline", "tab\t", "ünïcødé", "日本語", "{}", "[1]", ",", "NULL", "null", "true", "0", " lead", "trail ", "<&>", "\u2028", ": x", "- y", "#c", "\x00", "2024-01-02", "~", "1e3", "0x10", "*a", "!!x", "%"}

// Text makes interesting valid UTF-8 text.
func Text(r *rand.Rand) string {
	if r.IntN(8) == 0 {
		var b strings.Builder
		for i := r.IntN(40); i >= 0; i-- {
			b.WriteRune([]rune{'a', 'Z', '0', ' ', '"', '\'', '\\', '/', '\n', 'é', '漢', '🙂', '{', '}', ',', ':', '$', '?', '<', '\u200b', '\x7f', '\x01'}[r.IntN(22)])
		}
		return b.String()
	}
	s := bits[r.IntN(len(bits))]
	if r.IntN(3) == 0 {
		s += bits[r.IntN(len(bits))]
	}
	return s
}

// NoNul removes NUL, which text columns do not hold.
func NoNul(s string) string { return strings.ReplaceAll(s, "\x00", "0") }

// GoTime makes times with sub-millisecond noise in several zones.
func GoTime(r *rand.Rand) time.Time {
	var t time.Time
	switch r.IntN(6) {
	case 0:
		t = time.Unix(0, 0)
	case 1:
		t = time.Unix(-int64(r.IntN(4_000_000_000)), int64(r.IntN(1_000_000_000)))
	case 2:
		t = time.Date(1+r.IntN(9998), time.Month(1+r.IntN(12)), 1+r.IntN(28), r.IntN(24), r.IntN(60), r.IntN(60), r.IntN(1_000_000_000), time.UTC)
	default:
		t = time.Unix(int64(r.IntN(4_000_000_000)), int64(r.IntN(1_000_000_000)))
	}
	switch r.IntN(4) {
	case 0:
		t = t.Truncate(time.Second)
	case 1:
		t = t.Truncate(time.Millisecond)
	}
	zones := []*time.Location{time.UTC, time.FixedZone("", 3600), time.FixedZone("", -5*3600-1800), time.FixedZone("", 14*3600), time.Local}
	return t.In(zones[r.IntN(len(zones))])
}

// Floats makes finite floats.
func Floats(r *rand.Rand) float64 {
	switch r.IntN(5) {
	case 0:
		return []float64{0, 1, -1, 0.1, 1e-9, 1e21, 1e20, -1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 123456.789012345, 0.0000001, 1e6, 999999.9999999}[r.IntN(15)]
	case 1:
		return float64(r.IntN(2000)-1000) / 8
	case 2:
		return r.NormFloat64() * math.Pow(10, float64(r.IntN(40)-20))
	}
	return float64(Int64(r))
}

const hexd = "0123456789ABCDEF"

// UUID makes a canonical upper-case UUID.
func UUID(r *rand.Rand) string {
	b := make([]byte, 36)
	for i := range b {
		switch i {
		case 8, 13, 18, 23:
			b[i] = '-'
		default:
			b[i] = hexd[r.IntN(16)]
		}
	}
	return string(b)
}

// MixedEndian is the 16-byte form in which SQL Server delivers a UUID.
func MixedEndian(u string) []byte {
	h := strings.ReplaceAll(u, "-", "")
	raw := make([]byte, 16)
	for i := range raw {
		n, err := strconv.ParseUint(h[2*i:2*i+2], 16, 8)
		if err != nil {
			panic(err)
		}
		raw[i] = byte(n)
	}
	for _, sw := range [][2]int{{0, 3}, {1, 2}, {4, 5}, {6, 7}} {
		raw[sw[0]], raw[sw[1]] = raw[sw[1]], raw[sw[0]]
	}
	return raw
}

// IDs makes a list of distinct non-zero IDs.
func IDs(r *rand.Rand, n int) []uint64 {
	var l []uint64
	seen := map[uint64]bool{}
	for len(l) < n {
		v := Uint64(r)
		if !seen[v] {
			seen[v] = true
			l = append(l, v)
		}
	}
	return l
}

// List builds an IDArray without using its own methods.
func List(l []uint64) xdb.IDArray {
	var a xdb.IDArray
	for _, v := range l {
		a = append(a, xdb.NewID(v))
	}
	return a
}

func both(s string) []any { return []any{s, []byte(s)} }

func jsonText(r *rand.Rand, v driver.Valuer) []any {
	d, err := v.Value()
	if err != nil || d == nil {
		return nil
	}
	s := fmt.Sprint(d)
	out := both(s)
	if r.IntN(2) == 0 {
		// JSON columns come back reformatted
		out = append(out, []byte(" "+s+" "), s+"\n")
	}
	return out
}

func eqList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// count is a number of entries up to n, and now and then some thousands:
// the whole value is longer than any buffer then.
func count(r *rand.Rand, n int) int {
	if r.IntN(3000) == 0 {
		return 4000
	}
	return r.IntN(n + 1)
}

// large makes a text that is now and then longer than any buffer.
func large(r *rand.Rand) string {
	s := Text(r)
	if r.IntN(6000) == 0 {
		return strings.Repeat(s+"x", 1+150000/(len(s)+1))
	}
	return s
}

// Metadata makes a map.
func Metadata(r *rand.Rand) xdb.Metadata {
	m := xdb.Metadata{}
	for i := 1 + r.IntN(5); i > 0; i-- {
		m[Text(r)] = large(r)
	}
	for i := count(r, 0); i > 0; i-- {
		m[Text(r)+strconv.Itoa(i)] = Text(r)
	}
	return m
}

// KVSet makes a set.
func KVSet(r *rand.Rand) xdb.KVSet {
	m := xdb.KVSet{}
	for i := 1 + r.IntN(4); i > 0; i-- {
		l := []string{}
		for k := count(r, 3); k > 0; k-- {
			l = append(l, large(r))
		}
		m[Text(r)] = l
	}
	return m
}

// Cols lists every column type.
func Cols() []Col {
	return []Col{
		col("ID", []string{"INTEGER", "BIGINT"},
			func(r *rand.Rand) xdb.ID { return xdb.NewID(Uint64(r)) },
			func(a, b xdb.ID) bool { return a.UInt64() == b.UInt64() },
			func(a xdb.ID) bool { return a.UInt64() == 0 },
			xdb.ID{}, []xdb.ID{{}, xdb.NewID(0)},
			func(_ *rand.Rand, v xdb.ID) []any { return []any{int64(v.UInt64())} }),
		col("ID32", []string{"INTEGER"},
			func(r *rand.Rand) xdb.ID32 { return xdb.ID32(Uint64(r) & math.MaxUint32) },
			func(a, b xdb.ID32) bool { return a == b },
			func(a xdb.ID32) bool { return a == 0 },
			0, []xdb.ID32{0},
			func(_ *rand.Rand, v xdb.ID32) []any { return []any{int64(v)} }),
		col("IDArray", []string{"TEXT", "BLOB"},
			func(r *rand.Rand) xdb.IDArray {
				l := IDs(r, 1+r.IntN(6))
				switch r.IntN(12) {
				case 0:
					l = IDs(r, 20+r.IntN(200))
				case 1:
					// neither a set nor all of them valid
					l = append(l, l[0], 0)
				case 2:
					l = append([]uint64{0}, l...)
				}
				return List(l)
			},
			func(a, b xdb.IDArray) bool { return eqList(idText(a), idText(b)) },
			func(a xdb.IDArray) bool { return len(a) == 0 },
			nil, []xdb.IDArray{nil, {}},
			func(_ *rand.Rand, v xdb.IDArray) []any {
				var p []string
				for _, id := range v {
					p = append(p, strconv.FormatInt(int64(id.UInt64()), 10))
				}
				return both("{" + strings.Join(p, ",") + "}")
			}),
		col("Int64", []string{"INTEGER"},
			func(r *rand.Rand) xdb.Int64 { return xdb.Int64(Int64(r)) },
			func(a, b xdb.Int64) bool { return a == b },
			func(a xdb.Int64) bool { return a == 0 },
			0, []xdb.Int64{0},
			func(_ *rand.Rand, v xdb.Int64) []any { return []any{int64(v)} }),
		col("Int32", []string{"INTEGER"},
			func(r *rand.Rand) xdb.Int32 { return xdb.Int32(Int64(r)) },
			func(a, b xdb.Int32) bool { return a == b },
			func(a xdb.Int32) bool { return a == 0 },
			0, []xdb.Int32{0},
			func(_ *rand.Rand, v xdb.Int32) []any { return []any{int64(v)} }),
		col("Float", []string{"REAL", "DOUBLE"},
			func(r *rand.Rand) xdb.Float { return xdb.Float(Floats(r)) },
			func(a, b xdb.Float) bool { return a == b },
			func(a xdb.Float) bool { return a == 0 },
			0, []xdb.Float{0},
			func(_ *rand.Rand, v xdb.Float) []any {
				f := float64(v)
				out := []any{f, []byte(strconv.FormatFloat(f, 'g', -1, 64))}
				if i := int64(f); float64(i) == f && i < 1<<62 && i > -(1<<62) {
					out = append(out, i)
				}
				return out
			}),
		col("Bool", []string{"BOOLEAN", "INTEGER"},
			func(r *rand.Rand) xdb.Bool { return r.IntN(3) > 0 },
			func(a, b xdb.Bool) bool { return a == b },
			func(a xdb.Bool) bool { return !bool(a) },
			false, []xdb.Bool{false},
			func(_ *rand.Rand, v xdb.Bool) []any {
				if v {
					return []any{true, int64(1)}
				}
				return []any{false, int64(0)}
			}),
		col("NULLString", []string{"TEXT", "BLOB"},
			func(r *rand.Rand) xdb.NULLString { return xdb.NULLString(large(r)) },
			func(a, b xdb.NULLString) bool { return a == b },
			func(a xdb.NULLString) bool { return a == "" },
			"", []xdb.NULLString{""},
			func(_ *rand.Rand, v xdb.NULLString) []any { return both(string(v)) }),
		col("UUID", []string{"TEXT"},
			func(r *rand.Rand) xdb.UUID { return xdb.UUID(UUID(r)) },
			func(a, b xdb.UUID) bool { return strings.EqualFold(string(a), string(b)) },
			func(a xdb.UUID) bool { return a == "" },
			"", []xdb.UUID{""},
			func(_ *rand.Rand, v xdb.UUID) []any {
				l := strings.ToLower(string(v))
				return []any{string(v), []byte(v), l, []byte(l), MixedEndian(string(v))}
			}),
		col("Strings", []string{"TEXT", "BLOB"},
			func(r *rand.Rand) xdb.Strings {
				l := xdb.Strings{}
				for i := count(r, 4); i > 0; i-- {
					l = append(l, large(r))
				}
				return l
			},
			func(a, b xdb.Strings) bool { return (a == nil) == (b == nil) && eqList(a, b) },
			func(a xdb.Strings) bool { return a == nil },
			nil, []xdb.Strings{nil},
			func(r *rand.Rand, v xdb.Strings) []any { return jsonText(r, v) }),
		col("Metadata", []string{"TEXT", "BLOB"},
			Metadata,
			func(a, b xdb.Metadata) bool { return eqMap(a, b) },
			func(a xdb.Metadata) bool { return len(a) == 0 },
			nil, []xdb.Metadata{nil, {}},
			func(r *rand.Rand, v xdb.Metadata) []any { return jsonText(r, v) }),
		col("KVSet", []string{"TEXT", "BLOB"},
			KVSet,
			func(a, b xdb.KVSet) bool {
				if len(a) != len(b) {
					return false
				}
				for k, v := range a {
					w, ok := b[k]
					if !ok || !eqList(v, w) {
						return false
					}
				}
				return true
			},
			func(a xdb.KVSet) bool { return len(a) == 0 },
			nil, []xdb.KVSet{nil, {}},
			func(r *rand.Rand, v xdb.KVSet) []any { return jsonText(r, v) }),
		col("Time", []string{"TIMESTAMP", "DATETIME"},
			func(r *rand.Rand) xdb.Time {
				if r.IntN(3) == 0 {
					// columns may hold more digits than UTC keeps
					return xdb.Time(GoTime(r).UTC())
				}
				return xdb.UTC(GoTime(r))
			},
			func(a, b xdb.Time) bool { return time.Time(a).Equal(time.Time(b)) },
			func(a xdb.Time) bool { return time.Time(a).IsZero() },
			xdb.Time{}, []xdb.Time{{}},
			func(r *rand.Rand, v xdb.Time) []any {
				t := time.Time(v)
				out := []any{t, t.In(time.FixedZone("", 7*3600)), t.In(time.FixedZone("x", -3*3600-1800))}
				if t.Nanosecond()%1_000_000 != 0 {
					// text is read to the millisecond
					return out
				}
				out = append(out, t.Format("2006-01-02T15:04:05.000Z07:00"), t.Format(time.RFC3339Nano))
				if t.Nanosecond() == 0 {
					out = append(out, t.Format(time.DateTime), t.Format(time.RFC3339))
					if t.Hour() == 0 && t.Minute() == 0 && t.Second() == 0 {
						out = append(out, t.Format(time.DateOnly))
					}
				}
				return out
			}),
	}
}

func idText(a xdb.IDArray) []string {
	var l []string
	for _, v := range a {
		l = append(l, fmt.Sprint(v.UInt64()))
	}
	return l
}

// Show formats a value for reports.
func Show(v any) string {
	switch x := v.(type) {
	case xdb.ID:
		return fmt.Sprintf("ID(%d)", x.UInt64())
	case xdb.IDArray:
		return fmt.Sprintf("IDArray%v", idText(x))
	case xdb.Time:
		return "Time(" + time.Time(x).Format(time.RFC3339Nano) + ")"
	case []byte:
		return fmt.Sprintf("[]byte(%q)", x)
	case time.Time:
		return x.Format(time.RFC3339Nano)
	}
	return fmt.Sprintf("%T(%q)", v, fmt.Sprint(v))
}
