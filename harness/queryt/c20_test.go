package queryt

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"sort"
	"strings"
	"testing"

	_ "github.com/mattn/go-sqlite3"

	"github.com/effective-security/x/values"
	"github.com/effective-security/xdb"

	"verif/fakedb"
	"verif/mon"
)

type item struct {
	ID   xdb.ID
	Grp  int64
	Name string
}

func (m *item) ScanRow(r xdb.Row) error { return r.Scan(&m.ID, &m.Grp, &m.Name) }

type items struct {
	calls  int
	rows   []*item
	next   bool
	off    uint32
	cursor func(*item) string
}

func (r *items) SetResult(rows []*item, next bool, off uint32) {
	r.calls++
	r.rows, r.next, r.off = rows, next, off
}

func (r *items) SetResultWithCursor(rows []*item, next bool, c func(*item) string) {
	r.calls++
	r.rows, r.next, r.cursor = rows, next, c
}

// ids are chosen so that neighbours are only distinct as full 64-bit integers.
func ids(r *rand.Rand, n int) []uint64 {
	set := map[uint64]bool{}
	base := []uint64{1, 1 << 31, 1<<53 - 10, 1 << 53, 1<<62 + 7, math.MaxInt64 - 40000}[r.IntN(6)]
	step := uint64(1 + r.IntN(3))
	mixed := r.IntN(3) == 0
	for len(set) < n {
		if mixed {
			b := []uint64{1, 1 << 31, 1<<53 - 10, 1 << 53, 1<<62 + 7, math.MaxInt64 - 40000}[r.IntN(6)]
			set[b+uint64(r.IntN(3000))] = true
		} else {
			set[base+step*uint64(len(set))] = true
		}
	}
	l := make([]uint64, 0, n)
	for k := range set {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

type shop struct {
	sdb  *sql.DB
	all  []item
	what string
}

func stock(r *rand.Rand, name string, n int) *shop {
	sdb, err := sql.Open("sqlite3", "file:"+name+"?mode=memory&cache=shared")
	if err != nil {
		panic(err)
	}
	sdb.SetMaxOpenConns(1)
	exec := func(q string, a ...any) {
		if _, err := sdb.Exec(q, a...); err != nil {
			panic(err)
		}
	}
	exec(`CREATE TABLE it (id INTEGER PRIMARY KEY, grp INTEGER, name TEXT)`)
	s := &shop{sdb: sdb}
	perm := r.Perm(n)
	l := ids(r, n)
	for i, id := range l {
		s.all = append(s.all, item{xdb.NewID(id), int64(r.IntN(3)), fmt.Sprintf("n%d", perm[i])})
	}
	exec("BEGIN")
	for _, i := range r.Perm(n) {
		exec("INSERT INTO it VALUES (?,?,?)", int64(l[i]), s.all[i].Grp, s.all[i].Name)
	}
	exec("COMMIT")
	return s
}

func (s *shop) want(grp int64) []item {
	var l []item
	for _, v := range s.all {
		if grp < 0 || v.Grp == grp {
			l = append(l, v)
		}
	}
	return l
}

func cmpItems(got []*item, want []item) string {
	for i := range got {
		if i >= len(want) {
			return fmt.Sprintf("row %d %+v is one too many (of %d)", i, *got[i], len(want))
		}
		if got[i].ID.UInt64() != want[i].ID.UInt64() || got[i].Name != want[i].Name || got[i].Grp != want[i].Grp {
			return fmt.Sprintf("row %d is %d/%s, want %d/%s", i, got[i].ID.UInt64(), got[i].Name, want[i].ID.UInt64(), want[i].Name)
		}
	}
	if len(got) < len(want) {
		return fmt.Sprintf("only %d rows of %d", len(got), len(want))
	}
	return ""
}

func handleOf(r *rand.Rand, sdb *sql.DB) (xdb.DB, func()) {
	if r.IntN(2) == 0 {
		return sdb, func() {}
	}
	tx, err := sdb.Begin()
	if err != nil {
		panic(err)
	}
	return tx, func() { _ = tx.Rollback() }
}

func nums(r *rand.Rand, v uint32) any {
	if r.IntN(2) == 0 {
		return int(v)
	}
	return v
}

// walkOffset follows offsets until no next page is reported.
func walkOffset(m *mon.M, r *rand.Rand, s *shop, limit uint32) {
	ctx := context.Background()
	form := r.IntN(4)
	grp := int64(r.IntN(5)) - 1
	want := s.want(grp)
	db, done := handleOf(r, s.sdb)
	defer done()
	var got []*item
	offset, pages := uint32(0), 0
	start := uint32(0)
	if r.IntN(4) == 0 && len(want) > 0 {
		start = uint32(r.IntN(len(want) + 1))
		offset = start
		want = want[start:]
	}
	base := uint32(0) // the rows are those behind many others
	if r.IntN(4) == 0 {
		base = []uint32{1<<16 - 3, 1<<16 + uint32(r.IntN(1000)), 1 << 24, 1<<31 - 5, 1<<32 - 5000, r.Uint32() - 5000}[r.IntN(6)]
		base = min(base, 1<<32-5000)
		offset += base
	}
	what := fmt.Sprintf("form %d, %d rows from %d+%d, group %d, limit %d", form, len(want), base, start, grp, limit)
	for {
		pages++
		if pages > len(want)+3 {
			m.Fail("endless", "%s: %d pages and no end", what, pages)
			return
		}
		res := &items{}
		var err error
		q := fmt.Sprintf("SELECT id, grp, name FROM it WHERE (? < 0 OR grp = ?) ORDER BY id LIMIT ? OFFSET ? - %d", base)
		eff := limit
		switch form {
		case 0:
			err = xdb.ExecuteQueryWithPagination[item](ctx, db, res, q, grp, grp, nums(r, limit), nums(r, offset))
		case 1:
			err = xdb.ExecuteQueryWithPagination[item](ctx, db, res, fmt.Sprintf("SELECT id, grp, name FROM it WHERE (@grp < 0 OR grp = @grp) ORDER BY id LIMIT @lim OFFSET @off - %d", base),
				sql.Named("grp", grp), sql.Named("lim", nums(r, limit)), sql.Named("off", nums(r, offset)))
		case 2:
			p := xdb.NewQueryParams("it").Set(0, grp).Set(1, grp).SetPage(limit, offset)
			if limit == 0 {
				eff = xdb.DefaultPageSize
			}
			err = xdb.ExecuteQueryWithPagination[item](ctx, db, res, q, p)
			if l, o := p.Page(); l != eff || o != offset {
				m.Fail("page", "%s: Page() = %d, %d want %d, %d", what, l, o, eff, offset)
			}
		case 3: // only limit and offset
			want = s.all[min(int(start), len(s.all)):]
			err = xdb.ExecuteQueryWithPagination[item](ctx, db, res, fmt.Sprintf("SELECT id, grp, name FROM it ORDER BY id LIMIT ? OFFSET ? - %d", base), nums(r, limit), nums(r, offset))
		}
		if err != nil {
			m.Fail("error", "%s: %v", what, err)
			return
		}
		if res.calls != 1 {
			m.Fail("calls", "%s: result filled %d times", what, res.calls)
		}
		full := eff > 0 && uint32(len(res.rows)) >= eff
		if res.next != full {
			m.Fail("next", "%s: page %d has %d rows of %d, next page reported: %v", what, pages, len(res.rows), eff, res.next)
			return
		}
		wantOff := uint32(0)
		if full {
			wantOff = offset + uint32(len(res.rows))
		}
		if res.off != wantOff {
			m.Fail("next-offset", "%s: page %d at offset %d has %d rows, next offset %d", what, pages, offset, len(res.rows), res.off)
			return
		}
		got = append(got, res.rows...)
		m.Count("pages by offset", 1)
		if !res.next {
			break
		}
		offset = res.off
	}
	if limit == 0 && form != 2 {
		want = nil
	}
	if msg := cmpItems(got, want); msg != "" {
		m.Fail("offset-walk", "%s: %s", what, msg)
	}
	m.State("offset walk", form, limit, len(want))
	m.Eval(pages > 1, "o", form, limit, len(want), start, grp, s.what)
}

// walkCursor follows cursors; the position may be the id alone or (grp, id).
func walkCursor(m *mon.M, r *rand.Rand, s *shop, limit uint32) {
	ctx := context.Background()
	two := r.IntN(2) == 0
	params := r.IntN(2) == 0
	how := r.IntN(5)
	want := append([]item(nil), s.all...)
	if two {
		sort.SliceStable(want, func(i, j int) bool { return want[i].Grp < want[j].Grp })
	}
	db, done := handleOf(r, s.sdb)
	defer done()
	what := fmt.Sprintf("cursor walk two=%v params=%v how=%d, %d rows, limit %d", two, params, how, len(want), limit)
	cursor := func(l *item) string {
		v := values.MapAny{"n": l.Name, "g": l.Grp}
		switch how {
		case 0:
			v["id"] = l.ID
		case 1:
			v["id"] = l.ID.UInt64()
		case 2:
			v["id"] = int64(l.ID.UInt64())
		case 3:
			v["id"] = l.ID.String()
		default:
			v["id"] = []any{l.ID.UInt64()}
		}
		return xdb.EncodeCursor(v)
	}
	var last, lastGrp any = int64(-1), int64(-1)
	var got []*item
	for pages := 1; ; pages++ {
		if pages > len(want)+3 {
			m.Fail("endless", "%s: %d pages and no end", what, pages)
			return
		}
		res := &items{}
		var err error
		q := "SELECT id, grp, name FROM it WHERE id > ? ORDER BY id LIMIT ?"
		args := []any{}
		if two {
			q = "SELECT id, grp, name FROM it WHERE grp > ? OR (grp = ? AND id > ?) ORDER BY grp, id LIMIT ?"
			args = append(args, lastGrp, lastGrp)
		}
		eff := limit
		if params {
			p := xdb.NewQueryParams("it")
			for i, a := range args {
				p.Set(uint32(i), a)
			}
			p.SetCursor(limit, 9, last)
			if limit == 0 {
				eff = xdb.DefaultPageSize
			}
			if l, c := p.Cursor(); l != eff || c != last {
				m.Fail("page", "%s: Cursor() = %d, %v want %d, %v", what, l, c, eff, last)
			}
			err = xdb.ExecuteQueryWithCursor(ctx, db, cursor, res, q, p)
		} else {
			args = append(args, last, nums(r, limit))
			err = xdb.ExecuteQueryWithCursor(ctx, db, cursor, res, q, args...)
		}
		if err != nil {
			m.Fail("error", "%s: %v", what, err)
			return
		}
		full := eff > 0 && uint32(len(res.rows)) >= eff
		if res.next != full {
			m.Fail("next", "%s: page %d has %d rows of %d, next page reported: %v", what, pages, len(res.rows), eff, res.next)
			return
		}
		got = append(got, res.rows...)
		m.Count("pages by cursor", 1)
		if !res.next {
			break
		}
		text := res.cursor(res.rows[len(res.rows)-1])
		dec, err := xdb.DecodeCursor(text)
		if err != nil {
			m.Fail("decode", "%s: cursor %s: %v", what, text, err)
			return
		}
		lr := res.rows[len(res.rows)-1]
		lastGrp = dec.Int64("g")
		switch how {
		case 0:
			var id xdb.ID
			if err := id.Set(dec.String("id")); err != nil {
				m.Fail("decode", "%s: %v", what, err)
				return
			}
			last = id.UInt64()
		case 1:
			if r.IntN(2) == 0 {
				last = dec["id"]
			} else {
				last = dec.UInt64("id")
			}
		case 2:
			last = dec.Int64("id")
		case 3:
			last = xdb.MustID(dec.String("id")).UInt64()
		default:
			last = dec.Slice("id")[0]
		}
		if !numEqual(last, lr.ID.UInt64()) {
			m.Fail("cursor-id", "%s: id %d came back from the cursor as %v (%T)", what, lr.ID.UInt64(), last, last)
			return
		}
		// a driver may send an integer valued float as text; send integers
		if f, ok := last.(float64); ok {
			last = int64(f)
		}
	}
	if limit == 0 && !params {
		want = nil
	}
	if msg := cmpItems(got, want); msg != "" {
		m.Fail("cursor-walk", "%s: %s", what, msg)
	}
	m.State("cursor walk", two, params, how, limit, len(want))
	m.Eval(len(want) > int(limit), "c", two, params, how, limit, len(want), s.what)
}

// walkTies follows pages of a database that completes a page with the rows
// that rank equal to its last one (FETCH FIRST n ROWS WITH TIES).
func walkTies(m *mon.M, r *rand.Rand, byCursor bool) {
	ctx := context.Background()
	n := r.IntN(60)
	limit := uint32(1 + r.IntN(12))
	rows := make([][]driver.Value, n)
	grp := int64(0)
	grps := make([]int64, n)
	for i := range rows {
		if r.IntN(3) == 0 {
			grp++
		}
		grps[i] = grp
		rows[i] = []driver.Value{int64(i + 1), grp, fmt.Sprint("t", i)}
	}
	num := func(v any) int {
		f := exactNum(v)
		if f == nil {
			panic(fmt.Sprintf("page argument %v", v))
		}
		i, _ := f.Int64()
		return int(i)
	}
	db := fakedb.New(fakedb.Hooks{Query: func(c context.Context, s string, a []any) (*fakedb.Result, error) {
		var from, lim int
		if byCursor {
			after, _ := exactNum(a[len(a)-2]).Int64()
			from = sort.Search(n, func(i int) bool { return grps[i] > after })
			lim = num(a[len(a)-1])
		} else {
			lim, from = num(a[len(a)-2]), num(a[len(a)-1])
		}
		from = min(from, n)
		to := min(from+lim, n)
		for to < n && to > from && grps[to] == grps[to-1] {
			to++
		}
		return &fakedb.Result{Cols: []string{"id", "grp", "name"}, Rows: rows[from:to]}, nil
	}}).Quiet()
	sdb := db.SQL()
	defer func() { _ = sdb.Close() }()
	what := fmt.Sprintf("ties, by cursor %v, %d rows, groups %v, limit %d", byCursor, n, grps, limit)
	params := r.IntN(2) == 0
	var got []*item
	offset, last, over := uint32(0), int64(-1), false
	for pages := 1; ; pages++ {
		if pages > n+3 {
			m.Fail("endless", "%s: %d pages and no end", what, pages)
			return
		}
		res := &items{}
		var err error
		switch {
		case byCursor && params:
			err = xdb.ExecuteQueryWithCursor(ctx, sdb, func(l *item) string { return fmt.Sprint(l.Grp) }, res, "q", xdb.NewQueryParams("q").SetCursor(limit, 0, last))
		case byCursor:
			err = xdb.ExecuteQueryWithCursor(ctx, sdb, func(l *item) string { return fmt.Sprint(l.Grp) }, res, "q", last, nums(r, limit))
		case params:
			err = xdb.ExecuteQueryWithPagination[item](ctx, sdb, res, "q", xdb.NewQueryParams("q").SetPage(limit, offset))
		default:
			err = xdb.ExecuteQueryWithPagination[item](ctx, sdb, res, "q", nums(r, limit), nums(r, offset))
		}
		if err != nil {
			m.Fail("error", "%s: %v", what, err)
			return
		}
		got = append(got, res.rows...)
		over = over || len(res.rows) > int(limit)
		if full := len(res.rows) >= int(limit); res.next != full {
			m.Fail("next", "%s: page %d has %d rows of %d, next page reported: %v", what, pages, len(res.rows), limit, res.next)
			return
		}
		if !res.next {
			break
		}
		offset = res.off
		if byCursor {
			if _, err := fmt.Sscan(res.cursor(res.rows[len(res.rows)-1]), &last); err != nil {
				m.Fail("decode", "%s: %v", what, err)
				return
			}
		}
	}
	want := make([]item, n)
	for i := range want {
		want[i] = item{xdb.NewID(uint64(i + 1)), grps[i], fmt.Sprint("t", i)}
	}
	if msg := cmpItems(got, want); msg != "" {
		m.Fail("ties-walk", "%s: %s", what, msg)
	}
	m.Count("walks with ties", 1)
	if over {
		m.Count("walks with pages over the limit", 1)
	}
	m.Eval(over, "ties", byCursor, n, limit, grps)
}

func numEqual(v any, want uint64) bool {
	w := new(big.Float).SetUint64(want)
	f := exactNum(v)
	return f != nil && f.Cmp(w) == 0
}

func exactNum(v any) *big.Float {
	b := new(big.Float).SetPrec(200)
	switch x := v.(type) {
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return nil
		}
		return b.SetFloat64(x)
	case float32:
		return b.SetFloat64(float64(x))
	case int:
		return b.SetInt64(int64(x))
	case int64:
		return b.SetInt64(x)
	case int32:
		return b.SetInt64(int64(x))
	case uint64:
		return b.SetUint64(x)
	case uint32:
		return b.SetUint64(uint64(x))
	case json.Number:
		if f, _, err := big.ParseFloat(x.String(), 10, 200, big.ToNearestEven); err == nil {
			return f
		}
	}
	return nil
}

// curVal makes a value a cursor may hold.
func curVal(r *rand.Rand, depth int) any {
	k := r.IntN(13)
	if depth == 0 && k > 9 {
		k = r.IntN(10)
	}
	switch k {
	case 0:
		return int64(r.Uint64()) >> r.IntN(60)
	case 1:
		return r.Uint64() >> r.IntN(60)
	case 2:
		return int(r.Int32())
	case 3:
		return []float64{0, 1.5, -2.25, 1e300, 5e-324, math.MaxFloat64, r.NormFloat64(), math.Pi}[r.IntN(8)]
	case 4:
		return []uint64{math.MaxUint64, 1 << 63, 1<<53 + 1, math.MaxInt64, 0}[r.IntN(5)]
	case 5:
		return []int64{math.MinInt64, -(1<<53 + 1), -1, math.MaxInt64}[r.IntN(4)]
	case 6:
		return []string{"", "x", "日本", "a\"b\\c", "<&>", "9007199254740993", "\u2028", "line\nbreak"}[r.IntN(8)]
	case 7:
		return r.IntN(2) == 0
	case 8:
		return nil
	case 9:
		return fmt.Sprintf("%x", r.Uint64())
	case 10, 11:
		l := []any{}
		for range r.IntN(4) {
			l = append(l, curVal(r, depth-1))
		}
		return l
	default:
		o := map[string]any{}
		for i := range r.IntN(4) {
			o[fmt.Sprintf("k%d", i)] = curVal(r, depth-1)
		}
		return o
	}
}

// equalCur compares an encoded value with a decoded one; numbers by value.
func equalCur(a, b any) bool {
	if fa := exactNum(a); fa != nil {
		fb := exactNum(b)
		return fb != nil && fa.Cmp(fb) == 0
	}
	switch x := a.(type) {
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !equalCur(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok {
			if z, ok2 := b.(values.MapAny); ok2 {
				y, ok = z, true
			}
		}
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, has := y[k]
			if !has || !equalCur(v, w) {
				return false
			}
		}
		return true
	default:
		return a == b
	}
}

func cursors(m *mon.M) {
	for n := 0; n < m.N(20000, 400000) && !m.Failed(); n++ {
		r := m.Rand("cursor", n)
		v := values.MapAny{}
		for i := range 1 + r.IntN(4) {
			k := fmt.Sprintf("f%d", i)
			if r.IntN(6) == 0 {
				k = []string{"", "é", "a b", "<", "\""}[r.IntN(5)]
			}
			v[k] = curVal(r, 2)
		}
		text := xdb.EncodeCursor(v)
		for _, c := range text {
			if !strings.ContainsRune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", c) {
				m.Fail("cursor-text", "cursor %q of %v cannot go into a URL", text, v)
			}
		}
		dec, err := xdb.DecodeCursor(text)
		if err != nil {
			m.Fail("cursor-decode", "cursor of %v: %v", v, err)
			continue
		}
		if !equalCur(map[string]any(v), dec) {
			m.Fail("cursor-value", "cursor of %#v decodes to %#v", v, dec)
		}
		if text2 := xdb.EncodeCursor(dec); text2 != "" {
			if d2, err := xdb.DecodeCursor(text2); err != nil || !equalCur(map[string]any(v), d2) {
				m.Fail("cursor-again", "cursor of %#v decodes, encodes and decodes to %#v (%v)", v, d2, err)
			}
		}
		// the decoded map belongs to the caller
		for k := range dec {
			dec[k] = "spoiled"
		}
		dec["other"] = n
		if d2, err := xdb.DecodeCursor(text); err != nil || !equalCur(map[string]any(v), d2) {
			m.Fail("cursor-owner", "cursor of %#v decodes to %#v (%v) after its decoded map was changed", v, d2, err)
		}
		m.Count("cursors", 1)
		m.Eval(true, "cur", n)

		// damage
		raw, _ := base64.RawURLEncoding.DecodeString(text)
		var bad, why string
		switch r.IntN(9) {
		case 0:
			bad, why = text+"=", "padding"
		case 1:
			i := r.IntN(len(text))
			bad, why = text[:i]+string("!*. %+/"[r.IntN(7)])+text[i+1:], "alphabet"
		case 2:
			i := r.IntN(len(raw))
			bad, why = enc(string(raw[:i])), "cut JSON"
		case 3:
			bad, why = enc(string(raw)+[]string{"{}", "x", "]", "1"}[r.IntN(4)]), "trailing"
		case 4:
			bad, why = enc([]string{"[1]", "1", `"s"`, "true", "[]"}[r.IntN(5)]), "not an object"
		case 5:
			bad, why = enc(""), "empty"
		case 6:
			bad, why = enc(strings.Replace(string(raw), ":", "=", 1)), "colon"
			if strings.Contains(string(raw)[:strings.Index(string(raw), ":")], "\\\"") {
				why = ""
			}
		case 7:
			bad, why = enc("{'a':1}"), "quotes"
		case 8:
			for len(text)%4 != 1 {
				text += "A"
			}
			bad, why = text, "length"
		}
		if why == "" || json.Valid([]byte(unenc(bad))) && why != "not an object" {
			continue
		}
		m.Guard("cursor-panic", bad, func() {
			d, err := xdb.DecodeCursor(bad)
			if err == nil {
				m.Fail("cursor-malformed", "malformed cursor (%s) %q = %q is accepted: %v", why, bad, unenc(bad), d)
			} else if d != nil {
				m.Fail("cursor-partial", "malformed cursor (%s) %q gives an error and %v", why, bad, d)
			}
		})
		m.Count("malformed "+why, 1)
	}
}

func enc(s string) string { return base64.RawURLEncoding.EncodeToString([]byte(s)) }
func unenc(s string) string {
	b, err := base64.RawURLEncoding.DecodeString(s)
	if err != nil {
		return "?"
	}
	return string(b)
}

func TestC20(t *testing.T) {
	mon.Run(t, "C20", "a walk of more than one page, or a cursor", func(m *mon.M) {
		// every page size for every small row count, both ways
		maxRows := m.N(14, 40)
		for rows := 0; rows <= maxRows && !m.Failed(); rows++ {
			r := m.Rand("walk", rows)
			s := stock(r, fmt.Sprintf("w%d", rows), rows)
			s.what = fmt.Sprint(rows)
			for limit := uint32(0); int(limit) <= rows+2; limit++ {
				for range m.N(8, 24) {
					walkOffset(m, r, s, limit)
					walkCursor(m, r, s, limit)
				}
			}
			_ = s.sdb.Close()
		}
		for n := 0; n < m.N(6, 60) && !m.Failed(); n++ {
			r := m.Rand("big", n)
			rows := []int{499, 500, 501, 999, 1000, 1001, 1500, 2000}[(n+r.IntN(2))%8]
			s := stock(r, fmt.Sprintf("b%d", n), rows)
			s.what = fmt.Sprint("b", n)
			for _, limit := range []uint32{0, 1 + uint32(r.IntN(50)), 250, 499, 500, 501, 1000, uint32(rows), uint32(rows) + 1, uint32(rows) - 1, math.MaxInt32} {
				if limit == 0 {
					continue
				}
				walkOffset(m, r, s, limit)
				walkCursor(m, r, s, limit)
			}
			for range 4 {
				walkOffset(m, r, s, 0)
				walkCursor(m, r, s, 0)
			}
			_ = s.sdb.Close()
		}
		for n := 0; n < m.N(3000, 60000) && !m.Failed(); n++ {
			walkTies(m, m.Rand("ties", n), n%2 == 0)
		}
		m.Need("walks with pages over the limit", 500)
		cursors(m)
		m.Need("pages by offset", 2000)
		m.Need("pages by cursor", 2000)
		m.Need("cursors", 5000)
	})
}
