package sqlitet

import (
	"database/sql"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"
)

// structure is a structure type with the columns its fields are bound to.
type structure struct {
	typ  reflect.Type
	cols []string
	path [][]int
}

type tagged struct {
	ID int64 `db:"unused"`
}

var leafs = []reflect.Type{reflect.TypeFor[int64](), reflect.TypeFor[string](), reflect.TypeFor[sql.NullString](), reflect.TypeFor[*int64](), reflect.TypeFor[float64](), reflect.TypeFor[any]()}

// genStruct makes a structure with others embedded in it, to a depth of at most deep.
func genStruct(r *rand.Rand, n *int, deep int) *structure {
	s := &structure{}
	var fields []reflect.StructField
	for i := range 1 + r.IntN(4) {
		name := fmt.Sprintf("F%d", i)
		f := reflect.StructField{Name: name, Type: leafs[r.IntN(len(leafs))]}
		switch k := r.IntN(8); {
		case deep > 0 && (k < 3 || i == 0 && k < 6):
			e := genStruct(r, n, deep-1)
			f.Type, f.Anonymous = e.typ, true
			s.cols = append(s.cols, e.cols...)
			for _, p := range e.path {
				s.path = append(s.path, append([]int{i}, p...))
			}
		case k == 3:
			f.Tag = `json:"x"`
		case k == 4:
			f.Type = reflect.TypeFor[tagged]()
		default:
			*n++
			c := fmt.Sprintf("c%d", *n)
			f.Tag = reflect.StructTag(fmt.Sprintf(`json:"y" db:"%s%s"`, c, []string{"", ",int8", ",omitempty,max:64"}[r.IntN(3)]))
			s.cols = append(s.cols, c)
			s.path = append(s.path, []int{i})
		}
		fields = append(fields, f)
	}
	s.typ = reflect.StructOf(fields)
	return s
}

// twins are different types of the same name.
func twins() []*structure {
	a := func() reflect.Type {
		type rec struct {
			A int64  `db:"c1"`
			B string `db:"c2"`
			C int64  `db:"c3"`
		}
		return reflect.TypeFor[rec]()
	}
	b := func() reflect.Type {
		type rec struct {
			B string `db:"c2"`
			A int64  `db:"c4"`
		}
		return reflect.TypeFor[rec]()
	}
	return []*structure{{a(), []string{"c1", "c2", "c3"}, [][]int{{0}, {1}, {2}}}, {b(), []string{"c2", "c4"}, [][]int{{0}, {1}}}}
}

// shapes binds structures of all kinds of nesting, several of a type.
func (x *h) shapes() {
	n := 0
	s := genStruct(x.r, &n, x.r.IntN(7))
	if x.r.IntN(4) == 0 {
		s = twins()[x.r.IntN(2)]
	}
	if len(s.cols) == 0 {
		return
	}
	d, pg, dn := dialects(x.r)
	for k := range 1 + x.r.IntN(2) {
		v := reflect.New(s.typ)
		// the columns come in an order of their own
		src := make([]string, len(s.cols))
		var want []any
		for i, p := range s.path {
			e := fmt.Sprint(100*k+i) + " AS " + s.cols[i]
			switch f := v.Elem().FieldByIndex(p); f.Interface().(type) {
			case int64:
				want = append(want, int64(100*k+i))
			case string:
				want, e = append(want, fmt.Sprint("s", i)), fmt.Sprintf("'s%d' AS %s", i, s.cols[i])
			case sql.NullString:
				want, e = append(want, sql.NullString{String: fmt.Sprint("n", i), Valid: true}), fmt.Sprintf("'n%d' AS %s", i, s.cols[i])
			case *int64:
				y := int64(100*k + i)
				want = append(want, &y)
			case float64:
				want = append(want, float64(100*k+i))
			default: // any
				want = append(want, int64(100*k+i))
			}
			src[i] = e
		}
		x.r.Shuffle(len(src), func(i, j int) { src[i], src[j] = src[j], src[i] })
		var first, last int64
		text := ""
		ex, done, en := x.exec(pg)
		ok := x.m.Guard("shape", s.typ, func() {
			st := d.Select("11").To(&first)
			st.Bind(v.Interface())
			st.Select("12").To(&last).From("(SELECT " + strings.Join(src, ", ") + ") x")
			text = st.String()
			err := st.QueryRowAndClose(ctx, ex)
			if err != nil || first != 11 || last != 12 {
				x.m.Fail("shape", "err %v, around %d and %d\ntype %v\ndialect %s executor %s\nsql %s", err, first, last, s.typ, dn, en, text)
			}
		})
		done()
		if !ok {
			return
		}
		for i, p := range s.path {
			if got := v.Elem().FieldByIndex(p).Interface(); !reflect.DeepEqual(got, want[i]) {
				x.m.Fail("shape", "column %s is bound to %v, field %v holds %v, want %v\ntype %v\nsql %s", s.cols[i], p, p, got, want[i], s.typ, text)
			}
		}
		x.m.Count("shapes", 1)
		x.m.Count("shape-columns", len(s.cols))
		x.m.Eval(true, "shape", s.typ.String(), k)
	}
}
