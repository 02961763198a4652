package typest

import (
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	cerr "github.com/cockroachdb/errors"

	"github.com/effective-security/xdb"

	"verif/mon"
	"verif/tval"
)

func nums(a xdb.IDArray) []uint64 {
	l := []uint64{}
	for _, v := range a {
		l = append(l, v.UInt64())
	}
	return l
}

func setOf(l []uint64) map[uint64]bool {
	s := map[uint64]bool{}
	for _, v := range l {
		s[v] = true
	}
	return s
}

// isSet tells how the list differs from exactly this set.
func isSet(a xdb.IDArray, want map[uint64]bool) string {
	seen := map[uint64]bool{}
	for _, v := range nums(a) {
		if seen[v] {
			return fmt.Sprintf("%d occurs twice", v)
		}
		seen[v] = true
		if !want[v] {
			return fmt.Sprintf("%d does not belong", v)
		}
	}
	if len(seen) != len(want) {
		return fmt.Sprintf("%d elements, want %d", len(seen), len(want))
	}
	return ""
}

func union(a, b map[uint64]bool) map[uint64]bool {
	s := map[uint64]bool{}
	for k := range a {
		s[k] = true
	}
	for k := range b {
		s[k] = true
	}
	return s
}

func TestC16(t *testing.T) {
	mon.Run(t, "C16", "a case is one history of lists derived from each other, all re-checked after every step", func(m *mon.M) {
		for n := 0; n < m.N(3000, 40000); n++ {
			r := m.Rand("history", n)
			// a small universe makes overlaps likely
			uni := tval.IDs(r, 4+r.IntN(10))
			if n%20 == 0 {
				uni = tval.IDs(r, 60)
			}
			if r.IntN(4) == 0 {
				uni = append(uni, 0)
			}
			one := func() uint64 { return uni[r.IntN(len(uni))] }
			type lst struct {
				a    xdb.IDArray
				want []uint64 // exact contents, frozen
			}
			var all []lst
			var log []string
			add := func(a xdb.IDArray, why string, want map[uint64]bool) bool {
				log = append(log, fmt.Sprintf("l%d=%s -> %v", len(all), why, nums(a)))
				if w := isSet(a, want); w != "" {
					m.Fail("set:"+strings.SplitN(why, "(", 2)[0], "%s: %s\n%s", why, w, strings.Join(log, "\n"))
					return false
				}
				all = append(all, lst{a, nums(a)})
				return true
			}
			add(nil, "nil", map[uint64]bool{})
			ok := true
			for s := 0; s < 25 && ok; s++ {
				i, j := r.IntN(len(all)), r.IntN(len(all))
				x, y := all[i].a, all[j].a
				sx, sy := setOf(all[i].want), setOf(all[j].want)
				switch r.IntN(9) {
				case 0, 1, 2:
					u := one()
					ok = add(x.Add(xdb.NewID(u)), fmt.Sprintf("Add(l%d,%d)", i, u), union(sx, map[uint64]bool{u: true}))
				case 3, 4:
					ok = add(x.Concat(y), fmt.Sprintf("Concat(l%d,l%d)", i, j), union(sx, sy))
				case 5:
					var l []uint64
					for k := r.IntN(len(uni)); k > 0; k-- {
						l = append(l, one())
					}
					in := append([]uint64(nil), l...)
					a := xdb.NewIDArray(in)
					if !reflect.DeepEqual(in, l) {
						m.Fail("input:NewIDArray", "NewIDArray changed its input %v to %v", l, in)
					}
					ok = add(a, fmt.Sprintf("NewIDArray(%v)", l), setOf(l))
				case 6:
					var l []string
					w := map[uint64]bool{}
					for k := r.IntN(8); k > 0; k-- {
						if r.IntN(5) == 0 {
							l = append(l, []string{"", "x", "0", "-1", "18446744073709551616"}[r.IntN(5)])
							continue
						}
						if u := one(); u != 0 {
							w[u] = true
							l = append(l, dec(u))
						}
					}
					ok = add(xdb.IDArrayFromStrings(l), fmt.Sprintf("FromStrings(%q)", l), w)
				case 7:
					// a list with spare room and a part of it
					a := make(xdb.IDArray, 0, len(x)+4)
					a = append(a, x...)
					ok = add(a, fmt.Sprintf("copy(l%d) with spare room", i), sx)
					if ok && len(a) > 0 {
						h := a[:r.IntN(len(a))]
						ok = add(h, fmt.Sprintf("l%d[:%d]", len(all)-1, len(h)), setOf(nums(h)))
					}
				case 8:
					c := append(xdb.IDArray(nil), x...)
					srt := c.Sort()
					want := append([]uint64{}, all[i].want...)
					sort.Slice(want, func(a, b int) bool { return want[a] < want[b] })
					if !reflect.DeepEqual(nums(srt), want) {
						m.Fail("sort", "Sort of %v is %v", all[i].want, nums(srt))
						ok = false
					}
				}
				m.Count("steps", 1)
				if !lists(m, r, x, sx, one) {
					ok = false
				}
				// queries
				u := one()
				if x.Contains(xdb.NewID(u)) != sx[u] {
					m.Fail("contains", "Contains(%v, %d) = %v", nums(x), u, !sx[u])
				}
				ov := false
				for k := range sx {
					ov = ov || sy[k]
				}
				if x.Overlaps(y) != ov || y.Overlaps(x) != ov {
					m.Fail("overlaps", "Overlaps(%v, %v) = %v, reversed %v", nums(x), nums(y), x.Overlaps(y), y.Overlaps(x))
				}
				convert(m, x)
				for k, l := range all {
					if !reflect.DeepEqual(nums(l.a), l.want) {
						m.Fail("alias", "l%d changed from %v to %v\n%s", k, l.want, nums(l.a), strings.Join(log, "\n"))
						ok = false
						break
					}
				}
			}
			m.Eval(true, strings.Join(log, ";"))
			if n < 2 {
				m.Sample(log[:min(8, len(log))])
			}
		}
		m.Need("steps", 5000)
	})
}

// lists combines a list with one that holds elements more than once, as a
// scanned list may.
func lists(m *mon.M, r *rand.Rand, x xdb.IDArray, sx map[uint64]bool, one func() uint64) bool {
	var l []uint64
	for k := r.IntN(6); k > 0; k-- {
		l = append(l, one())
	}
	if len(l) > 0 {
		l = append(l, l[r.IntN(len(l))])
	}
	y := tval.List(l)
	want := union(sx, setOf(l))
	for i, c := range []xdb.IDArray{x.Concat(y), y.Concat(x), xdb.IDArray(nil).Concat(y).Concat(x)} {
		m.Count("repeated", 1)
		if w := isSet(c, want); w != "" {
			m.Fail("repeated", "%v and %v combined (%d) is %v: %s", nums(x), l, i, nums(c), w)
			return false
		}
	}
	if !reflect.DeepEqual(nums(y), append([]uint64{}, l...)) {
		m.Fail("repeated", "list %v became %v", l, nums(y))
		return false
	}
	u := one()
	if y.Contains(xdb.NewID(u)) != setOf(l)[u] {
		m.Fail("repeated", "Contains(%v, %d) = %v", l, u, y.Contains(xdb.NewID(u)))
	}
	convert(m, y)
	return true
}

// convert compares the conversions of a list element by element.
func convert(m *mon.M, x xdb.IDArray) {
	want := nums(x)
	var strs []string
	for _, v := range want {
		if v == 0 {
			strs = append(strs, "")
		} else {
			strs = append(strs, dec(v))
		}
	}
	if got := x.Strings(); strings.Join(got, "|") != strings.Join(strs, "|") || len(got) != len(strs) {
		m.Fail("convert", "Strings of %v is %q", want, got)
	}
	if got := x.String(); got != strings.Join(strs, ",") {
		m.Fail("convert", "String of %v is %q", want, got)
	}
	if got := x.List(); fmt.Sprint(got) != fmt.Sprint(want) {
		m.Fail("convert", "List of %v is %v", want, got)
	}
	// what was returned before stays as it was
	if len(want) > 0 {
		s, l, a := x.Strings(), x.List(), x.Int64Array()
		y := xdb.IDArray{xdb.NewID(want[0] ^ 77777), xdb.NewID(5)}
		for range want[1:] {
			y = append(y, xdb.NewID(6))
		}
		_, _, _ = y.Strings(), y.List(), y.Int64Array()
		_, _ = xdb.Int64Array(y.List()), y.String()
		if !reflect.DeepEqual(s, strs) || !reflect.DeepEqual(l, want) || fmt.Sprint(a) != fmt.Sprint(xdb.Int64Array(want)) {
			m.Fail("convert", "after another list was converted, %v became %q, %v, %v", want, s, l, a)
		}
	}
	enums := make([]int32, len(want))
	for i, v := range want {
		enums[i] = int32(v) ^ int32(i)<<31
	}
	if a := xdb.Int32Array(enums); len(a) != len(enums) || len(a) > 0 && !reflect.DeepEqual([]int32(a), enums) {
		m.Fail("convert", "Int32Array of %v is %v", enums, a)
	}
	for _, a := range [][]int64{x.Int64Array(), xdb.Int64Array(want)} {
		if len(a) != len(want) {
			m.Fail("convert", "Int64Array of %v is %v", want, a)
			continue
		}
		for i := range a {
			if uint64(a[i]) != want[i] {
				m.Fail("convert", "Int64Array of %v is %v", want, a)
				break
			}
		}
	}
}

// models for merging

type Leaf struct {
	LID   xdb.ID
	LTime xdb.Time
	LName xdb.NULLString
	LNum  int64
}

type Mid struct {
	Leaf
	MID  xdb.ID
	Note xdb.NULLString
	In   Leaf
	Ptr  *Leaf
	Flag bool
	F    xdb.Float
}

type Top struct {
	ID      xdb.ID
	Created xdb.Time
	Name    xdb.NULLString
	Title   string
	Age     int
	Small   uint32
	Num     xdb.Int64
	Num32   xdb.Int32
	ID32    xdb.ID32
	OK      xdb.Bool
	UUID    xdb.UUID
	Ratio   float64
	Mid     Mid
	PMid    *Mid
	Ref     *string
	IDs     xdb.IDArray
	Tags    xdb.Strings
	Meta    xdb.Metadata
	Deep    struct {
		A struct {
			ID xdb.ID
			T  xdb.Time
			S  xdb.NULLString
		}
		B string
	}
}

func fill(r *rand.Rand, v reflect.Value, p int) {
	switch v.Type() {
	case reflect.TypeOf(xdb.ID{}):
		if r.IntN(p) == 0 {
			x := xdb.NewID(tval.Uint64(r))
			if r.IntN(2) == 0 {
				_ = x.String()
			}
			v.Set(reflect.ValueOf(x))
		}
		return
	case reflect.TypeOf(xdb.Time{}):
		if r.IntN(p) == 0 {
			v.Set(reflect.ValueOf(xdb.UTC(tval.GoTime(r))))
		}
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(r, v.Field(i), p)
		}
	case reflect.Pointer:
		if r.IntN(p) == 0 {
			n := reflect.New(v.Type().Elem())
			fill(r, n.Elem(), 2)
			if v.Type().Elem().Kind() == reflect.String && n.Elem().String() == "" {
				n.Elem().SetString("s")
			}
			v.Set(n)
		}
	default:
		if r.IntN(p) != 0 {
			return
		}
		switch v.Kind() {
		case reflect.String:
			v.SetString(tval.Text(r))
		case reflect.Int, reflect.Int64, reflect.Int32:
			v.SetInt(int64(int32(tval.Int64(r))))
		case reflect.Uint32:
			v.SetUint(uint64(uint32(tval.Uint64(r))))
		case reflect.Float64:
			v.SetFloat(tval.Floats(r))
		case reflect.Bool:
			v.SetBool(true)
		case reflect.Slice:
			for i := 1 + r.IntN(3); i > 0; i-- {
				if v.Type().Elem().Kind() == reflect.String {
					v.Set(reflect.Append(v, reflect.ValueOf(tval.Text(r))))
				} else {
					v.Set(reflect.Append(v, reflect.ValueOf(xdb.NewID(tval.Uint64(r)))))
				}
			}
		case reflect.Map:
			mm := reflect.MakeMap(v.Type())
			for i := 1 + r.IntN(3); i > 0; i-- {
				mm.SetMapIndex(reflect.ValueOf(fmt.Sprintf("k%d", r.IntN(5))), reflect.ValueOf("v"+tval.Text(r)))
			}
			v.Set(mm)
		}
	}
}

// dump lists every field by path.
func dump(path string, v reflect.Value, out map[string]string) {
	switch x := v.Interface().(type) {
	case xdb.ID:
		out[path] = fmt.Sprintf("ID %d %s", x.UInt64(), x)
		if x.UInt64() == 0 {
			out[path] = ""
		}
		return
	case xdb.Time:
		out[path] = ""
		if !time.Time(x).IsZero() {
			out[path] = "T" + time.Time(x).Format(time.RFC3339Nano)
		}
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			dump(path+"."+v.Type().Field(i).Name, v.Field(i), out)
		}
	case reflect.Pointer:
		if !v.IsNil() {
			out[path] = "set"
			if v.Type().Elem().Kind() == reflect.String {
				out[path] = "set " + v.Elem().String()
				return
			}
			dump(path, v.Elem(), out)
		} else {
			out[path] = ""
		}
	case reflect.Slice:
		out[path] = ""
		if v.Len() > 0 {
			out[path] = fmt.Sprintf("%q", fmt.Sprint(v.Interface()))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			out[path+"["+k.String()+"]"] = "=" + v.MapIndex(k).String()
		}
	default:
		out[path] = ""
		if !v.IsZero() {
			out[path] = fmt.Sprintf("%q", fmt.Sprint(v.Interface()))
		}
	}
}

func dumpOf(v any) map[string]string {
	o := map[string]string{}
	dump("", reflect.ValueOf(v).Elem(), o)
	return o
}

func diff(got, want map[string]string) []string {
	var l []string
	keys := map[string]bool{}
	for k := range got {
		keys[k] = true
	}
	for k := range want {
		keys[k] = true
	}
	for k := range keys {
		if got[k] != want[k] {
			l = append(l, fmt.Sprintf("%s is %s, want %s", k, got[k], want[k]))
		}
	}
	sort.Strings(l)
	return l
}

// closeTo makes some set fields of src almost equal to those of dst.
func closeTo(r *rand.Rand, dst, src reflect.Value) (n int) {
	if d, ok := dst.Interface().(xdb.Time); ok {
		t := time.Time(d)
		if t.IsZero() || r.IntN(2) == 0 {
			return 0
		}
		by := []time.Duration{1, 999, time.Microsecond, time.Millisecond, time.Second, -1, -time.Microsecond, 0}[r.IntN(8)]
		t = t.Add(by)
		if t.IsZero() {
			return 0
		}
		src.Set(reflect.ValueOf(xdb.Time(t)))
		return 1
	}
	if d, ok := dst.Interface().(xdb.ID); ok {
		if v := d.UInt64() ^ 1<<r.IntN(64); d.UInt64() != 0 && v != 0 && r.IntN(2) == 0 {
			src.Set(reflect.ValueOf(xdb.NewID(v)))
			return 1
		}
		return 0
	}
	switch dst.Kind() {
	case reflect.Struct:
		for i := 0; i < dst.NumField(); i++ {
			n += closeTo(r, dst.Field(i), src.Field(i))
		}
	case reflect.Pointer:
		if !dst.IsNil() && !src.IsNil() {
			return closeTo(r, dst.Elem(), src.Elem())
		}
	case reflect.String:
		if dst.Len() == 0 || r.IntN(2) == 0 {
			return 0
		}
		s := dst.String()
		src.SetString([]string{s + " ", strings.ToUpper(s), s + s, " " + s, strings.ToLower(s)}[r.IntN(5)])
		return 1
	case reflect.Int, reflect.Int64, reflect.Int32:
		if dst.Int() == 0 || r.IntN(2) == 0 {
			return 0
		}
		src.SetInt(-dst.Int())
		return 1
	}
	return n
}

func TestC17(t *testing.T) {
	mon.Run(t, "C17", "a case is one merge of two random models; non-trivial when the source has set fields", func(m *mon.M) {
		for n := 0; n < m.N(15000, 200000); n++ {
			r := m.Rand("merge", n)
			ps, pd := 1+r.IntN(6), 1+r.IntN(6)
			var dst, src any = &Top{}, &Top{}
			switch r.IntN(5) {
			case 0:
				dst, src = &Mid{}, &Mid{}
			case 1:
				dst, src = &Leaf{}, &Leaf{}
			}
			fill(r, reflect.ValueOf(src).Elem(), ps)
			fill(r, reflect.ValueOf(dst).Elem(), pd)
			if n%3 == 0 {
				m.Count("close-fields", closeTo(r, reflect.ValueOf(dst).Elem(), reflect.ValueOf(src).Elem()))
			}
			before, s := dumpOf(dst), dumpOf(src)
			want := map[string]string{}
			for k, v := range before {
				want[k] = v
			}
			set := 0
			for k, v := range s {
				if v != "" {
					want[k] = v
					set++
				} else if _, ok := want[k]; !ok {
					want[k] = ""
				}
			}
			in := src
			if r.IntN(2) == 0 {
				in = reflect.ValueOf(src).Elem().Interface()
			}
			m.Eval(set > 0, fmt.Sprint(want))
			m.Count("fields-set", set)
			if err := xdb.Merge(dst, in); err != nil {
				m.Fail("merge", "Merge failed: %v", err)
				continue
			}
			if d := diff(dumpOf(dst), want); len(d) > 0 {
				m.Fail("merge:"+strings.SplitN(d[0], " ", 2)[0], "%s\nsource %v\nbefore %v", strings.Join(d, "; "), s, before)
			}
			if d := diff(dumpOf(src), s); len(d) > 0 {
				m.Fail("source", "source changed: %s", strings.Join(d, "; "))
			}
		}
		m.Need("fields-set", 10000)
		m.Need("close-fields", 1000)
		m.Assume("maps are merged key by key and lists are replaced, as fields; sharing of pointers with the source after the merge is not examined")
	})
}

// query parameters

type qop struct {
	name string
	f    func(b *xdb.QueryParamsBuilder, mm *qmodel)
	page bool
}

type qmodel struct {
	base   string
	pos    map[uint32]bool
	enums  []string
	first  map[uint32]int32
	flags  []int32
	nulls  []string
	args   []any
	limit  uint32
	offset uint32
	cursor bool
	cval   any
	// lists given by the caller
	own [][]any
}

func (q *qmodel) shape() string {
	var pos []int
	for p := range q.pos {
		pos = append(pos, int(p))
	}
	sort.Ints(pos)
	nulls := append([]string(nil), q.nulls...)
	sort.Strings(nulls)
	return fmt.Sprintf("%q pos%v enums%v flags%v nulls%q cursor%v offset%v", q.base, pos, q.enums, q.flags, nulls, q.cursor, !q.cursor && q.offset > 0)
}

func newModel(base string) *qmodel {
	return &qmodel{base: base, pos: map[uint32]bool{}, first: map[uint32]int32{}}
}

func smallPos(r *rand.Rand) uint32 {
	if r.IntN(6) == 0 {
		return []uint32{63, 62, 32, 31, 33, 10, 11}[r.IntN(7)]
	}
	return uint32(r.IntN(6))
}

var nullNames = []string{"a", "b", "c", "ab", "bc", "abc", "id", "name", "nameid", "x", "col_1", "col_11", "1", "11", ""}

// wide returns values that agree with small ones in some of their bytes.
func wide(r *rand.Rand) int32 {
	v := int32(r.IntN(20) - 2)
	switch r.IntN(4) {
	case 0:
		return v ^ 1<<r.IntN(32)
	case 1:
		return v | int32(r.IntN(4))<<(8*(1+r.IntN(3)))
	case 2:
		return -v
	}
	return int32(tval.Int64(r))
}

// near is one change of a history that has to show in the name.
func near(r *rand.Rand) (string, func(b *xdb.QueryParamsBuilder), func(b *xdb.QueryParamsBuilder)) {
	pos := uint32(r.IntN(64))
	switch r.IntN(5) {
	case 4:
		v := make([]string, 1+r.IntN(24))
		for i := range v {
			v[i] = fmt.Sprintf("%s%d", []string{"col_", "C", "org id ", "x"}[r.IntN(4)], i)
		}
		w := append([]string(nil), v...)
		switch i := r.IntN(len(w)); r.IntN(4) {
		case 0:
			w[i] = strings.ToUpper(w[i][:1]) + w[i][1:] + "_"
		case 1:
			w[i] += "0"
		case 2:
			w = append(w[:i], w[i+1:]...)
		case 3:
			b := []byte(w[i])
			b[r.IntN(len(b))] ^= 0x20
			w[i] = string(b)
		}
		return fmt.Sprintf("SetNullColums(%q or %q)", v, w),
			func(b *xdb.QueryParamsBuilder) { b.SetNullColums(v) }, func(b *xdb.QueryParamsBuilder) { b.SetNullColums(w) }
	case 0:
		v := wide(r)
		w := v ^ 1<<r.IntN(32)
		return fmt.Sprintf("SetEnum(%d, %d or %d)", pos, v, w),
			func(b *xdb.QueryParamsBuilder) { b.SetEnum(pos, v) }, func(b *xdb.QueryParamsBuilder) { b.SetEnum(pos, w) }
	case 1:
		v := make([]int32, 1+r.IntN(4)+r.IntN(3)/2*r.IntN(30))
		for i := range v {
			v[i] = wide(r)
		}
		w := append([]int32(nil), v...)
		w[r.IntN(len(w))] ^= 1 << r.IntN(32)
		return fmt.Sprintf("SetFlags(%v or %v)", v, w),
			func(b *xdb.QueryParamsBuilder) { b.SetFlags(v...) }, func(b *xdb.QueryParamsBuilder) { b.SetFlags(w...) }
	case 2:
		p2 := (pos + 1 + uint32(r.IntN(63))) % 64
		return fmt.Sprintf("Set(%d or %d)", pos, p2),
			func(b *xdb.QueryParamsBuilder) { b.Set(pos, 1) }, func(b *xdb.QueryParamsBuilder) { b.Set(p2, 1) }
	}
	p2 := (pos + 1 + uint32(r.IntN(63))) % 64
	e := wide(r)
	return fmt.Sprintf("SetEnum(%d or %d, %d)", pos, p2, e),
		func(b *xdb.QueryParamsBuilder) { b.SetEnum(pos, e) }, func(b *xdb.QueryParamsBuilder) { b.SetEnum(p2, e) }
}

func pageNum(r *rand.Rand) uint32 {
	switch r.IntN(6) {
	case 0:
		return uint32(r.IntN(4))
	case 1:
		return uint32(1) << r.IntN(31)
	case 2:
		return uint32(r.IntN(1000))
	}
	return uint32(r.IntN(3) * 10)
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func genOp(r *rand.Rand) qop {
	pos := smallPos(r)
	switch r.IntN(9) {
	case 0, 1:
		v := []any{"s", 5, nil, tval.Uint64(r), true}[r.IntN(5)]
		return qop{fmt.Sprintf("Set(%d,%v)", pos, v), func(b *xdb.QueryParamsBuilder, q *qmodel) {
			b.Set(pos, v)
			q.pos[pos] = true
			q.args = append(q.args, v)
		}, false}
	case 2, 3:
		e := int32(r.IntN(20) - 3)
		if r.IntN(4) == 0 {
			e = wide(r)
		}
		return qop{fmt.Sprintf("SetEnum(%d,%d)", pos, e), func(b *xdb.QueryParamsBuilder, q *qmodel) {
			b.SetEnum(pos, e)
			q.pos[pos] = true
			q.enums = append(q.enums, fmt.Sprintf("%d=%d", pos, e))
			if _, ok := q.first[pos]; !ok {
				q.first[pos] = e
			}
		}, false}
	case 4:
		var fl []int32
		for i := r.IntN(4); i > 0; i-- {
			f := int32(r.IntN(20) - 2)
			if r.IntN(4) == 0 {
				f = wide(r)
			}
			fl = append(fl, f)
		}
		return qop{fmt.Sprintf("SetFlags(%v)", fl), func(b *xdb.QueryParamsBuilder, q *qmodel) {
			b.SetFlags(fl...)
			q.flags = fl
		}, false}
	case 5:
		var l []string
		for i := r.IntN(4); i > 0; i-- {
			l = append(l, nullNames[r.IntN(len(nullNames))])
		}
		return qop{fmt.Sprintf("SetNullColums(%q)", l), func(b *xdb.QueryParamsBuilder, q *qmodel) {
			// the caller's own slice
			mine := append([]string(nil), l...)
			b.SetNullColums(mine)
			q.nulls = mine
		}, false}
	case 6:
		var l []any
		for i := r.IntN(3); i >= 0; i-- {
			l = append(l, r.IntN(100))
		}
		return qop{fmt.Sprintf("AddArgs(%v)", l), func(b *xdb.QueryParamsBuilder, q *qmodel) {
			// part of a longer list of the caller
			full := append(append([]any(nil), l...), "rest-1", "rest-2", "rest-3")
			b.AddArgs(full[:len(l)]...)
			q.own = append(q.own, full)
			q.args = append(q.args, l...)
		}, false}
	case 7:
		lim, off := pageNum(r), pageNum(r)
		return qop{fmt.Sprintf("SetPage(%d,%d)", lim, off), func(b *xdb.QueryParamsBuilder, q *qmodel) {
			b.SetPage(lim, off)
			if lim == 0 {
				q.limit = xdb.DefaultPageSize
			} else {
				q.limit = lim
			}
			q.offset = off
			q.args = append(q.args, q.limit, q.offset)
		}, true}
	}
	lim := pageNum(r)
	cur := []any{tval.Uint64(r), "cur", 0, ""}[r.IntN(4)]
	return qop{fmt.Sprintf("SetCursor(%d,%d,%v)", lim, pos, cur), func(b *xdb.QueryParamsBuilder, q *qmodel) {
		b.SetCursor(lim, pos, cur)
		q.pos[pos] = true
		q.limit = lim
		if lim == 0 {
			q.limit = xdb.DefaultPageSize
		}
		q.cursor, q.cval = true, cur
		q.args = append(q.args, cur, q.limit)
	}, true}
}

func TestC18(t *testing.T) {
	mon.Run(t, "C18", "a case is one history of a parameter builder; its name is compared with every other shape seen", func(m *mon.M) {
		byName := map[string]string{}
		for n := 0; n < m.N(60000, 600000); n++ {
			r := m.Rand("history", n)
			base := []string{"q", "q_x1", "list", "q_x0_fx1", "list_c", "q_x3_0x1", ""}[r.IntN(7)]
			b := xdb.NewQueryParams(base)
			q := newModel(base)
			var log, since []string
			var ops []qop
			var before func()
			var heldNulls []string
			var heldCopy []string
			steps := 1 + r.IntN(6)
			bad := func(fp, f string, a ...any) {
				m.Fail(fp, "%s\nafter NewQueryParams(%q).%s", fmt.Sprintf(f, a...), base, strings.Join(log, "."))
			}
			for s := 0; s < steps; s++ {
				if r.IntN(12) == 0 {
					// what was read before the reset belongs to a query
					// that may still run
					args, flags, nulls, om := b.Args(), b.GetFlags(), b.GetNullColumns(), q
					flagsWere, nullsWere := append([]int32(nil), flags...), append([]string(nil), nulls...)
					prev := before
					before = func() {
						if prev != nil {
							prev()
						}
						m.Count("kept-args", len(args))
						if len(args) > 0 && !reflect.DeepEqual(args, om.args) || len(flags) > 0 && !reflect.DeepEqual(flags, flagsWere) || len(nulls) > 0 && !reflect.DeepEqual(nulls, nullsWere) {
							bad("kept", "lists read before the reset became %v, %v, %q; they were %v, %v, %q", args, flags, nulls, om.args, flagsWere, nullsWere)
						}
						om.rest(bad)
					}
					b.Reset()
					q = newModel(base)
					ops, since = nil, nil
					log = append(log, "Reset")
					heldNulls, heldCopy = nil, nil
				}
				op := genOp(r)
				if q.limit > 0 && !strings.HasPrefix(op.name, "SetFlags") && !strings.HasPrefix(op.name, "SetNull") {
					// limit and offset are the last arguments: nothing
					// more is accepted, and nothing changes
					log = append(log, op.name+"!")
					if !panics(func() { op.f(b, newModel(base)) }) {
						bad("late", "%s was accepted after the page was set: arguments %v", op.name, b.Args())
						break
					}
					m.Count("refused", 1)
					checkParams(m, b, q, bad)
					continue
				}
				if q.limit == 0 && r.IntN(10) == 0 {
					// a position that cannot be kept must not be dropped silently
					pos := []uint32{64, 65, 66, 127, 128, 1 << 16, 1<<31 + 1, 1<<32 - 1}[r.IntN(8)]
					enum := r.IntN(2) == 0
					log = append(log, fmt.Sprintf("Set(%d, enum %v)!", pos, enum))
					refused := panics(func() {
						if enum {
							b.SetEnum(pos, int32(1+r.IntN(5)))
						} else {
							b.Set(pos, "beyond")
						}
					})
					if !refused {
						bad("beyond", "position %d was accepted; IsSet(%d) = %v, arguments %v", pos, pos, b.IsSet(pos), b.Args())
						break
					}
					m.Count("beyond", 1)
					checkParams(m, b, q, bad)
				}
				op.f(b, q)
				ops = append(ops, op)
				since = append(since, op.name)
				log = append(log, op.name)
				if strings.HasPrefix(op.name, "SetNull") {
					heldNulls, heldCopy = q.nulls, append([]string(nil), q.nulls...)
				}
				if r.IntN(2) == 0 {
					_ = b.Name()
					log = append(log, "Name")
				}
				if r.IntN(4) == 0 {
					checkParams(m, b, q, bad)
				}
			}
			m.Eval(len(ops) > 1, strings.Join(log, "."))
			checkParams(m, b, q, bad)
			q.rest(bad)
			if before != nil {
				before()
			}
			name := b.Name()
			shape := q.shape()
			if old, ok := byName[name]; ok && old != shape {
				bad("collision", "name %q stands for two shapes:\n %s\n %s", name, old, shape)
			}
			byName[name] = shape
			// the same settings on a fresh builder give the same name
			f := xdb.NewQueryParams(base)
			fm := newModel(base)
			for _, op := range ops {
				op.f(f, fm)
			}
			if g := f.Name(); g != name {
				bad("stale", "name %q, a fresh builder with the settings %v gives %q", name, since, g)
			}
			// one further setting in two variants
			na, fa, fb := near(r)
			v1, v2 := xdb.NewQueryParams(base), xdb.NewQueryParams(base)
			fa(v1)
			fb(v2)
			for _, op := range ops {
				op.f(v1, newModel(base))
				op.f(v2, newModel(base))
			}
			sh := func(b *xdb.QueryParamsBuilder) string {
				var l []string
				for p := uint32(0); p < 64; p++ {
					if b.IsSet(p) {
						l = append(l, fmt.Sprint(p))
					}
				}
				return strings.Join(l, ",")
			}
			if strings.HasPrefix(na, "Set(") && sh(v1) == sh(v2) {
				// both positions are set anyway
			} else if strings.HasPrefix(na, "SetFlags(") && reflect.DeepEqual(v1.GetFlags(), v2.GetFlags()) {
				// replaced afterwards
			} else if strings.HasPrefix(na, "SetNullColums(") && reflect.DeepEqual(v1.GetNullColumns(), v2.GetNullColumns()) {
				// replaced afterwards
			} else if n1, n2 := v1.Name(), v2.Name(); n1 == n2 {
				bad("near", "name %q with either of %s", n1, na)
			}
			if heldNulls != nil && !reflect.DeepEqual(heldNulls, heldCopy) {
				bad("caller", "the caller's columns changed from %q to %q", heldCopy, heldNulls)
			}
			if xdb.GetQueryParams(1, "x", b).Name() != name || xdb.GetQueryParams("x", request{b}, request{xdb.NewQueryParams("other")}).Name() != name {
				bad("get", "GetQueryParams did not find the parameters")
			}
			if n < 4 {
				m.Sample(map[string]string{"history": strings.Join(log, "."), "name": name})
			}
		}
		m.Count("names", len(byName))
		shapes := map[string]bool{}
		for _, s := range byName {
			shapes[s] = true
		}
		m.Count("shapes", len(shapes))
		m.Need("names", 5000)
		m.Need("kept-args", 100)
	})
}

// request is one that carries query parameters.
type request struct{ p xdb.QueryParams }

func (r request) QueryParams() xdb.QueryParams { return r.p }

// rest examines what follows the arguments in the lists of the caller.
func (q *qmodel) rest(bad func(fp, f string, a ...any)) {
	for _, l := range q.own {
		if !reflect.DeepEqual(l[len(l)-3:], []any{"rest-1", "rest-2", "rest-3"}) {
			bad("caller-args", "the caller's list became %v", l)
		}
	}
}

func checkParams(m *mon.M, b *xdb.QueryParamsBuilder, q *qmodel, bad func(fp, f string, a ...any)) {
	if got := b.Args(); len(got) != len(q.args) || len(got) > 0 && !reflect.DeepEqual(got, q.args) {
		bad("args", "arguments %v, want %v", got, q.args)
	}
	for p := uint32(0); p < 64; p++ {
		if b.IsSet(p) != q.pos[p] {
			bad("isset", "IsSet(%d) = %v", p, b.IsSet(p))
		}
		e, ok := b.GetEnum(p)
		w, wok := q.first[p]
		if e != w || ok != wok {
			bad("enum", "GetEnum(%d) = %d, %v; want %d, %v", p, e, ok, w, wok)
		}
	}
	for _, p := range []uint32{64, 65, 100, 127, 128, 1 << 20, 1<<31 + 3, 1<<32 - 1} {
		_, ok := b.GetEnum(p)
		if b.IsSet(p) || ok {
			bad("isset", "position %d, which cannot be set, is reported as set", p)
		}
	}
	if l, o := b.Page(); l != q.limit || o != q.offset {
		bad("page", "Page = %d, %d; want %d, %d", l, o, q.limit, q.offset)
	}
	if l, c := b.Cursor(); l != q.limit || !reflect.DeepEqual(c, q.cval) {
		bad("cursor", "Cursor = %d, %v; want %d, %v", l, c, q.limit, q.cval)
	}
	if f := b.GetFlags(); len(f) != len(q.flags) || len(f) > 0 && !reflect.DeepEqual(f, q.flags) {
		bad("flags", "GetFlags = %v, want %v", f, q.flags)
	}
	if f := b.GetNullColumns(); len(f) != len(q.nulls) || len(f) > 0 && !reflect.DeepEqual(f, q.nulls) {
		bad("nulls", "GetNullColumns = %v, want %v", f, q.nulls)
	}
}

// errors

type unw struct{ e error }

func (u unw) Error() string { return "custom: " + u.e.Error() }
func (u unw) Unwrap() error { return u.e }

// opq hides the text of its cause
type opq struct{ e error }

func (o opq) Error() string { return "lookup failed" }
func (o opq) Unwrap() error { return o.e }

type named string

func (n named) String() string { return "n:" + string(n) }

var wraps = []struct {
	name string
	f    func(error) error
}{
	{"%w", func(e error) error { return fmt.Errorf("ctx: %w", e) }},
	{"WithStack", func(e error) error { return cerr.WithStack(e) }},
	{"Wrap", func(e error) error { return cerr.Wrap(e, "while reading") }},
	{"WithMessage", func(e error) error { return cerr.WithMessage(e, "msg") }},
	{"custom", func(e error) error { return unw{e} }},
	{"opaque", func(e error) error { return opq{e} }},
	{"Join", func(e error) error { return errors.Join(errors.New("first"), e) }},
	{"multi", func(e error) error { return fmt.Errorf("%w and %w", errors.New("other"), e) }},
	{"WithDetail", func(e error) error { return cerr.WithDetail(e, "detail") }},
	{"WithHint", func(e error) error { return cerr.WithHint(e, "hint") }},
	{"secondary", func(e error) error { return cerr.WithSecondaryError(e, errors.New("second")) }},
	{"after", func(e error) error { return fmt.Errorf("%w: giving up", e) }},
	{"around", func(e error) error { return fmt.Errorf("read (%w), attempt %d", e, 3) }},
	{"NotFound", func(e error) error { return nil }},
}

func TestC24(t *testing.T) {
	mon.Run(t, "C24", "a case is one error built by nesting wrappers around a cause; non-trivial when at least one wrapper was used", func(m *mon.M) {
		for n := 0; n < m.N(30000, 300000); n++ {
			r := m.Rand("err", n)
			var e error
			missing := false
			desc := ""
			switch r.IntN(8) {
			case 0, 1:
				e, missing, desc = sql.ErrNoRows, true, "ErrNoRows"
			case 2:
				e, missing, desc = errors.New([]string{"pgx: no rows in result set", "no rows in result set", "sql: no rows in result set", "query failed: no rows in result set: orders"}[r.IntN(4)]), true, "text"
			case 3:
				e, missing, desc = xdb.NewErrorNotFound(sql.ErrNoRows, "t0", 7), true, "NotFound"
			case 4:
				e, missing, desc = xdb.NewErrorNotFound(nil, "t0", 7), true, "NotFound without cause"
			case 5:
				e, desc = nil, "nil"
			default:
				e = []error{errors.New("connection refused"), sql.ErrConnDone, sql.ErrTxDone, errors.New("no rows"), errors.New("record not found: a: b"), errors.New("not found"), errors.New("rows in result set: no"), cerr.New("sql: expected 1 row"), errors.New("")}[r.IntN(9)]
				desc = e.Error()
			}
			root := e
			chain := []string{desc}
			depth := r.IntN(5)
			if e == nil {
				depth = 0
			}
			for k := 0; k < depth; k++ {
				w := wraps[r.IntN(len(wraps)-1)]
				if desc == "text" && w.name == "opaque" {
					// a message is the only sign of such an error
					w = wraps[0]
				}
				e = w.f(e)
				chain = append(chain, w.name)
			}
			m.Eval(depth > 0, strings.Join(chain, "<"))
			m.State("chain", strings.Join(chain, "<"))
			if missing {
				m.Count("missing", 1)
			} else {
				m.Count("other", 1)
			}
			what := strings.Join(chain, " in ")
			if got := xdb.IsNotFoundError(e); got != missing {
				m.Fail("is:"+chain[0], "IsNotFoundError(%s) = %v", what, got)
			}
			var id any
			var idText string
			switch r.IntN(6) {
			case 0:
				id, idText = "k1", "k1"
			case 1:
				id, idText = named("x"), "n:x"
			case 2:
				id, idText = 42, "42"
			case 3:
				u := tval.Uint64(r)
				id, idText = xdb.NewID(u), dec(u)
			case 4:
				u := tval.Uint64(r)
				id, idText = u, dec(u)
			case 5:
				id, idText = []int{1, 2}, "[1 2]"
			}
			table := []string{"users", "a.b", ""}[r.IntN(3)]
			c := xdb.CheckNotFoundError(e, table, id)
			if e == nil {
				if c != nil {
					m.Fail("nil", "CheckNotFoundError(nil) = %v", c)
				}
				continue
			}
			if c == nil {
				m.Fail("lost", "CheckNotFoundError(%s) = nil", what)
				continue
			}
			if !errors.Is(c, root) || !errors.Is(c, e) && reflect.TypeOf(e).Comparable() {
				m.Fail("cause", "CheckNotFoundError(%s) lost its cause: %v", what, c)
			}
			check := c
			for k := r.IntN(3); k > 0; k-- {
				check = wraps[r.IntN(len(wraps)-1)].f(check)
			}
			if got := xdb.IsNotFoundError(check); got != missing {
				m.Fail("rewrap:"+chain[0], "CheckNotFoundError(%s) is recognised as not-found: %v", what, got)
			}
			var nf *xdb.ErrorNotFound
			has := errors.As(check, &nf)
			norow := desc == "ErrNoRows" || desc == "text" || desc == "NotFound"
			switch {
			case norow && !has:
				m.Fail("as", "CheckNotFoundError(%s) is not an ErrorNotFound", what)
			case norow && desc != "NotFound" && (nf.Table != table || nf.ID != idText):
				m.Fail("as", "CheckNotFoundError(%s, %q, %v) has table %q and ID %q", what, table, id, nf.Table, nf.ID)
			case norow && desc != "NotFound" && !errors.Is(nf.Err, root):
				m.Fail("as", "CheckNotFoundError(%s) keeps the cause %v", what, nf.Err)
			case !missing && has:
				m.Fail("as", "CheckNotFoundError(%s) became an ErrorNotFound", what)
			case !missing && c.Error() != e.Error():
				m.Fail("text", "CheckNotFoundError(%s) changed the text to %q", what, c)
			}
			if norow && desc != "NotFound" {
				same := xdb.NewErrorNotFound(nil, table, id)
				if !errors.Is(check, same) {
					m.Fail("is", "%v does not match %v", check, same)
				}
				if table != "" && errors.Is(check, xdb.NewErrorNotFound(nil, "", id)) || idText != "" && errors.Is(check, xdb.NewErrorNotFound(nil, table, "")) {
					m.Fail("is", "%v matches an error without table or ID", check)
				}
				if errors.Is(check, xdb.NewErrorNotFound(nil, table+"x", id)) || errors.Is(check, xdb.NewErrorNotFound(nil, table, "other")) {
					m.Fail("is", "%v matches another table or ID", check)
				}
				if !strings.Contains(nf.Error(), table) || !strings.Contains(nf.Error(), idText) {
					m.Fail("text", "text %q lacks table %q or ID %q", nf.Error(), table, idText)
				}
			}
		}
		m.Need("missing", 1000)
		m.Need("other", 1000)
	})
}

// maps

func mapText(m map[string]string) string { b, _ := json.Marshal(m); return string(b) }

func TestC34(t *testing.T) {
	mon.Run(t, "C34", "a case is one merge and its views; non-trivial when both maps have entries", func(m *mon.M) {
		for n := 0; n < m.N(20000, 200000); n++ {
			r := m.Rand("maps", n)
			mk := func() (xdb.Metadata, map[string]string) {
				switch r.IntN(6) {
				case 0:
					return nil, map[string]string{}
				case 1:
					return xdb.Metadata{}, map[string]string{}
				}
				w := map[string]string{}
				x := xdb.Metadata{}
				for i := r.IntN(8); i >= 0; i-- {
					k := tval.Text(r)
					if r.IntN(2) == 0 {
						k = fmt.Sprintf("k%d", r.IntN(12))
					}
					v := tval.Text(r)
					w[k], x[k] = v, v
				}
				return x, w
			}
			a, wa := mk()
			b, wb := mk()
			m.Eval(len(wa) > 0 && len(wb) > 0, mapText(wa), mapText(wb))
			views(m, a, wa)
			for k, v := range wb {
				wa[k] = v
			}
			res := a.Merge(b)
			if res == nil || !reflect.DeepEqual(map[string]string(*res), wa) || !reflect.DeepEqual(map[string]string(a), wa) {
				m.Fail("merge", "merge gives %q, want %q", a, wa)
			}
			if len(b) != len(wb) || len(wb) > 0 && !reflect.DeepEqual(map[string]string(b), wb) {
				m.Fail("other", "the other map changed to %q, was %q", b, wb)
			}
			views(m, a, wa)
			// later changes of the result stay out of the other map
			a["later"] = "x"
			a.Merge(xdb.Metadata{"k1": "changed", "k2": "changed"})
			if len(b) != len(wb) || len(wb) > 0 && !reflect.DeepEqual(map[string]string(b), wb) {
				m.Fail("other", "the other map follows the merged one: %q, was %q", b, wb)
			}
			kvsets(m, r)
			if n < 2 {
				m.Sample(mapText(wa))
			}
		}
		m.Need("views", 5000)
		m.Need("stopped", 1000)
	})
}

func kvsets(m *mon.M, r *rand.Rand) {
	mk := func() xdb.KVSet {
		switch r.IntN(6) {
		case 0:
			return nil
		case 1:
			return xdb.KVSet{}
		}
		x := xdb.KVSet{}
		for i := r.IntN(6); i >= 0; i-- {
			var l []string
			for k := r.IntN(4); k > 0; k-- {
				l = append(l, tval.Text(r))
			}
			x[fmt.Sprintf("k%d", r.IntN(10))] = l
		}
		return x
	}
	cp := func(x xdb.KVSet) map[string][]string {
		o := map[string][]string{}
		for k, v := range x {
			o[k] = append([]string(nil), v...)
		}
		return o
	}
	same := func(x xdb.KVSet, w map[string][]string) bool {
		if len(x) != len(w) {
			return false
		}
		for k, v := range w {
			g, ok := x[k]
			if !ok || strings.Join(g, "\x00") != strings.Join(v, "\x00") || len(g) != len(v) {
				return false
			}
		}
		return true
	}
	a, b := mk(), mk()
	want, wb := cp(a), cp(b)
	for k, v := range wb {
		want[k] = v
	}
	res := a.Merge(b)
	m.Count("kvset-merge", 1)
	if res == nil || !same(*res, want) || !same(a, want) {
		m.Fail("kvset", "merge gives %q, want %q", a, want)
	}
	a["later"] = []string{"x"}
	a.Merge(xdb.KVSet{"k1": {"changed"}})
	if !same(b, wb) {
		m.Fail("kvset-other", "the other set changed to %q, was %q", b, wb)
	}
}

func views(m *mon.M, a xdb.Metadata, want map[string]string) {
	m.Count("views", 1)
	keys := []string{}
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	got := append([]string{}, a.Keys()...)
	sort.Strings(got)
	if !reflect.DeepEqual(got, keys) {
		m.Fail("keys", "Keys of %q is %q", want, got)
	}
	if got := append([]string{}, a.OrderedKeys()...); !reflect.DeepEqual(got, keys) {
		m.Fail("ordered", "OrderedKeys of %q is %q", want, got)
	}
	pairs := []string{}
	for _, k := range keys {
		pairs = append(pairs, k, want[k])
	}
	if got := append([]string{}, a.OrderedPairs()...); !reflect.DeepEqual(got, pairs) {
		m.Fail("pairs", "OrderedPairs of %q is %q", want, got)
	}
	seen := map[string]string{}
	n := 0
	a.Range(func(k, v string) bool { seen[k] = v; n++; return true })
	if n != len(want) || !reflect.DeepEqual(seen, cpMap(want)) {
		m.Fail("range", "Range of %q visits %q (%d calls)", want, seen, n)
	}
	var l []string
	a.RangeOrdered(func(k, v string) bool { l = append(l, k, v); return true })
	if !reflect.DeepEqual(append([]string{}, l...), pairs) {
		m.Fail("range-ordered", "RangeOrdered of %q visits %q", want, l)
	}
	for stop := 1; stop <= len(want); stop++ {
		n, o := 0, []string{}
		a.Range(func(k, v string) bool { n++; return n < stop })
		a.RangeOrdered(func(k, v string) bool { o = append(o, k); return len(o) < stop })
		m.Count("stopped", 1)
		if n != stop || !reflect.DeepEqual(o, keys[:stop]) {
			m.Fail("stop", "visitors stopping at %d of %d: %d visits, ordered %q", stop, len(want), n, o)
		}
	}
}

func cpMap(x map[string]string) map[string]string {
	o := map[string]string{}
	for k, v := range x {
		o[k] = v
	}
	return o
}
