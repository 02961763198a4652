// Package queryt monitors list queries and pagination.
package queryt

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/effective-security/xdb"

	"verif/fakedb"
	"verif/mon"
)

var (
	errQuery = errors.New("injected: query failed")
	errNext  = errors.New("injected: fetch failed")
	errScan  = errors.New("injected: row refused")
)

// injectErrors picks the errors of the next case. Some wrap or quote errors
// that mean something else in another place.
func injectErrors(r *rand.Rand) (notFound bool) {
	mk := func(what string) error {
		e := errors.New("injected: " + what)
		switch r.IntN(8) {
		case 0:
			return fmt.Errorf("%w: %w", e, io.EOF)
		case 1:
			return fmt.Errorf("%w: %w", e, context.Canceled)
		case 2:
			notFound = true
			return fmt.Errorf("%w: %w", e, sql.ErrNoRows)
		case 3:
			notFound = true
			return errors.New("injected: " + what + ": no rows in result set")
		case 4:
			return fmt.Errorf("%w: %w", e, io.ErrUnexpectedEOF)
		case 5:
			return fmt.Errorf("%w: %w", e, sql.ErrConnDone)
		}
		return e
	}
	errQuery, errNext, errScan = mk("query failed"), mk("fetch failed"), mk("row refused")
	return notFound
}

// rec is a model whose own scan may refuse or panic.
type rec struct {
	ID    xdb.ID
	Name  xdb.NULLString
	N     int32
	Extra []byte
	When  xdb.Time

	mode   int
	scans  int
	badAt  int64
	panics bool
	slow   time.Duration
}

var refuse struct {
	sync.Mutex
	at    map[string]int // name of row -> 1 error, 2 panic, 3 slow
	noErr bool
}

func (m *rec) ScanRow(r xdb.Row) error {
	m.scans++
	err := r.Scan(&m.ID, &m.Name, &m.N, &m.Extra, &m.When)
	if err != nil {
		return err
	}
	refuse.Lock()
	what := refuse.at[string(m.Name)]
	refuse.Unlock()
	switch what {
	case 1:
		return errScan
	case 2:
		panic("injected: scan panics")
	case 3:
		time.Sleep(2 * time.Millisecond)
	}
	return nil
}

func rowOf(r *rand.Rand, i int, tag string) []driver.Value {
	var name driver.Value = fmt.Sprintf("%s-%d", tag, i)
	var when driver.Value = time.UnixMilli(int64(i) * 1001).UTC()
	if r.IntN(5) == 0 {
		when = nil
	}
	return []driver.Value{r.Int64N(1 << 62), name, int64(r.Int32()), []byte(fmt.Sprintf("x%d", r.IntN(1000))), when}
}

func same(m *rec, v []driver.Value) string {
	if m == nil {
		return "nil row"
	}
	var when time.Time
	if v[4] != nil {
		when = v[4].(time.Time)
	}
	if uint64(v[0].(int64)) != m.ID.UInt64() || v[1].(string) != string(m.Name) || int64(m.N) != v[2].(int64) ||
		string(m.Extra) != string(v[3].([]byte)) || !time.Time(m.When).Equal(when) {
		return fmt.Sprintf("row %v came out as {%d %q %d %q %v}", v, m.ID.UInt64(), m.Name, m.N, m.Extra, m.When)
	}
	if m.scans != 1 {
		return fmt.Sprintf("row %v scanned %d times", v, m.scans)
	}
	return ""
}

// compare returns what is wrong with a list.
func compare(got []*rec, want [][]driver.Value) string {
	if got == nil {
		return "nil list"
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d rows of %d", len(got), len(want))
	}
	seen := map[*rec]bool{}
	for i, g := range got {
		if s := same(g, want[i]); s != "" {
			return fmt.Sprintf("position %d: %s", i, s)
		}
		if seen[g] {
			return fmt.Sprintf("position %d shares its value with another", i)
		}
		seen[g] = true
	}
	return ""
}

type result struct {
	calls  int
	rows   []*rec
	next   bool
	off    uint32
	cursor func(*rec) string
}

func (r *result) SetResult(rows []*rec, next bool, off uint32) {
	r.calls++
	r.rows, r.next, r.off = rows, next, off
}

func (r *result) SetResultWithCursor(rows []*rec, next bool, c func(*rec) string) {
	r.calls++
	r.rows, r.next, r.cursor = rows, next, c
}

// handle is a way to reach the database.
type handle struct {
	name string
	db   xdb.DB
	done func()
}

func open(m *mon.M, r *rand.Rand, sdb *sql.DB) handle {
	ctx := context.Background()
	switch r.IntN(5) {
	case 0:
		return handle{"db", sdb, func() {}}
	case 1:
		c, err := sdb.Conn(ctx)
		if err != nil {
			panic(err)
		}
		return handle{"conn", c, func() { _ = c.Close() }}
	case 2:
		tx, err := sdb.BeginTx(ctx, nil)
		if err != nil {
			panic(err)
		}
		return handle{"tx", tx, func() { _ = tx.Rollback() }}
	case 3:
		p, err := xdb.New("fake", sdb, nil)
		if err != nil {
			panic(err)
		}
		return handle{"provider", p, func() { _ = p.Close() }}
	default:
		p, err := xdb.New("fake", sdb, nil)
		if err != nil {
			panic(err)
		}
		tx, err := p.BeginTx(ctx, nil)
		if err != nil {
			panic(err)
		}
		return handle{"tx provider", tx, func() { _ = tx.Close(); _ = p.Close() }}
	}
}

const (
	fNone = iota
	fQuery
	fNext
	fBadValue
	fRefuse
	fPanic
	fCancelBefore
	fCancelMid
	nFaults
)

var faults = []string{"none", "query", "fetch", "bad value", "scan error", "scan panic", "cancelled before", "cancelled mid"}

func released(m *mon.M, db *fakedb.DB, sdb *sql.DB, h handle, what string) {
	deadline := time.Now().Add(5 * time.Second)
	for db.OpenRows() != 0 && time.Now().Before(deadline) {
		time.Sleep(200 * time.Microsecond)
	}
	if n := db.OpenRows(); n != 0 {
		m.Fail("rows-open", "%s: %d result sets still open", what, n)
		return
	}
	// the pool has one connection: it must be usable again
	if h.name == "db" || h.name == "provider" {
		c, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		defer cancel()
		if err := sdb.PingContext(c); err != nil {
			m.Fail("conn-occupied", "%s: the connection can not be used again: %v", what, err)
		}
	}
}

type kept struct {
	list []*rec
	want [][]driver.Value
	what string
}

func c19(m *mon.M) {
	var history []kept
	for n := 0; n < m.N(20000, 400000) && !m.Failed(); n++ {
		r := m.Rand("list", n)
		count := []int{0, 1, 2, 3, r.IntN(20), 20 + r.IntN(40)}[r.IntN(6)]
		if n%97 == 0 {
			count = []int{499, 500, 501, 1000, 1001, 1700}[r.IntN(6)]
		}
		fault := fNone
		if r.IntN(3) != 0 {
			fault = r.IntN(nFaults)
		}
		at := r.IntN(count + 1)
		tag := fmt.Sprintf("r%d", n)
		var data [][]driver.Value
		for i := range count {
			data = append(data, rowOf(r, i, tag))
		}
		sent := data
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, n))
		var sqlText string
		var sentArgs []any
		var ctxSeen any
		queries := 0
		h := fakedb.Hooks{Query: func(c context.Context, s string, a []any) (*fakedb.Result, error) {
			queries++
			sqlText, sentArgs, ctxSeen = s, a, c.Value(ctxKey{})
			if fault == fQuery {
				return nil, errQuery
			}
			res := &fakedb.Result{Cols: []string{"id", "name", "n", "extra", "whn"}, Rows: sent}
			switch fault {
			case fNext:
				res.FailAt, res.Err = at, errNext
			case fCancelMid:
				res.OnNext = func(i int) {
					if i == at {
						cancel()
					}
				}
			}
			return res, nil
		}}
		refuse.Lock()
		refuse.at = map[string]int{}
		if at < count {
			name := data[at][1].(string)
			switch fault {
			case fBadValue:
				sent = append([][]driver.Value(nil), data...)
				bad := append([]driver.Value(nil), data[at]...)
				switch r.IntN(4) {
				case 0:
					bad[0] = "not a number"
				case 1:
					bad[2] = int64(1) << 40
				case 2:
					bad[4] = "no time at all"
				default:
					bad[2] = nil
				}
				sent[at] = bad
			case fRefuse:
				refuse.at[name] = 1
			case fPanic:
				refuse.at[name] = 2
			case fCancelMid:
				refuse.at[name] = 3
			}
		} else if fault == fBadValue || fault == fRefuse || fault == fPanic {
			fault = fNone
		}
		refuse.Unlock()

		db := fakedb.New(h).Quiet()
		sdb := db.SQL()
		sdb.SetMaxOpenConns(1)
		hd := open(m, r, sdb)
		if fault == fCancelBefore {
			cancel()
		}
		call := r.IntN(5)
		limit, offset := uint32(r.IntN(count+3)), uint32(r.IntN(1000))
		loose := injectErrors(r)
		args := []any{}
		for range r.IntN(3) {
			args = append(args, []any{int64(r.IntN(100)), "s" + fmt.Sprint(r.IntN(9)), nil, true}[r.IntN(4)])
		}
		wantArgs := append([]any(nil), args...)
		var callArgs []any
		limited := uint32(0)
		off := uint32(0)
		viaParams := r.IntN(2) == 0
		qname := fmt.Sprintf("q%d", n)
		qp := xdb.NewQueryParams(qname)
		for i, a := range args {
			qp.Set(uint32(i), a)
		}
		switch call {
		case 0: // plain list
			callArgs = args
			if viaParams {
				callArgs = qp.Args()
			}
		case 1: // ExecuteQuery
			callArgs = args
			if viaParams {
				callArgs = []any{qp}
			}
		case 2:
			if viaParams {
				qp.SetPage(limit, offset)
				limited, off = limit, offset
				if limit == 0 {
					limited = xdb.DefaultPageSize
				}
				wantArgs = append(wantArgs, int64(limited), int64(offset))
				callArgs = []any{qp}
			} else {
				limited, off = limit, offset
				wantArgs = append(wantArgs, int64(limit), int64(offset))
				callArgs = append(append([]any(nil), args...), pageArg(r, limit), pageArg(r, offset))
			}
		case 3:
			if viaParams {
				qp.SetCursor(limit, 7, "cur")
				limited = limit
				if limit == 0 {
					limited = xdb.DefaultPageSize
				}
				wantArgs = append(wantArgs, "cur", int64(limited))
				callArgs = []any{qp}
			} else {
				limited = limit
				wantArgs = append(wantArgs, "cur", int64(limit))
				callArgs = append(append([]any(nil), args...), "cur", pageArg(r, limit))
			}
		case 4:
			callArgs = args
		}
		what := fmt.Sprintf("%s of %d rows through %s, fault %s at %d, args %v", []string{"ExecuteListQuery", "ExecuteQuery", "ExecuteQueryWithPagination", "ExecuteQueryWithCursor", "QueryRow"}[call], count, hd.name, faults[fault], at, callArgs)
		q := "SELECT id, name, n, extra, whn FROM t" + fmt.Sprint(n)
		var err error
		var list []*rec
		res := &result{}
		var one *rec
		panicked := false
		func() {
			defer func() {
				if p := recover(); p != nil {
					panicked = true
					if fault != fPanic {
						m.Fail("panic", "%s: %v", what, p)
					}
				}
			}()
			switch call {
			case 0:
				list, err = xdb.ExecuteListQuery[rec](ctx, hd.db, q, callArgs...)
			case 1:
				err = xdb.ExecuteQuery[rec](ctx, hd.db, res, q, callArgs...)
			case 2:
				err = xdb.ExecuteQueryWithPagination[rec](ctx, hd.db, res, q, callArgs...)
			case 3:
				err = xdb.ExecuteQueryWithCursor(ctx, hd.db, func(l *rec) string { return "after " + string(l.Name) }, res, q, callArgs...)
			case 4:
				one, err = xdb.QueryRow[rec](ctx, hd.db, q, callArgs...)
			}
		}()
		m.Count(faults[fault], 1)
		m.State("cell", call, fault, hd.name, min(count, 4), min(at, 3))
		m.Eval(count > 0 || fault != fNone, n)

		// what reached the database
		if fault != fCancelBefore && (queries != 1 || sqlText != q || !reflect.DeepEqual(anys(sentArgs), anys(wantArgs))) {
			m.Fail("sent", "%s: the database got %d queries %q %v, want %q %v", what, queries, sqlText, sentArgs, q, wantArgs)
		}
		if fault != fCancelBefore && ctxSeen != n {
			m.Fail("context", "%s: the caller's context did not reach the database", what)
		}

		filled := list
		if call > 0 && call < 4 {
			filled = res.rows
		}
		switch {
		case panicked:
			if res.calls != 0 {
				m.Fail("filled-on-panic", "%s: result filled", what)
			}
		case call == 4:
			c19row(m, what, fault, at, data, one, err, loose)
		default:
			mustFail := fault != fNone && fault != fCancelMid
			if err == nil && mustFail {
				m.Fail("fault-hidden", "%s: no error, %d rows", what, len(filled))
			}
			if err != nil {
				if fault == fNone {
					m.Fail("false-error", "%s: %v", what, err)
				}
				if list != nil || res.calls != 0 {
					m.Fail("filled-on-error", "%s: %v, but %d rows were returned, result filled %d times", what, err, len(list), res.calls)
				}
				cause := map[int]error{fQuery: errQuery, fNext: errNext, fRefuse: errScan, fCancelBefore: context.Canceled, fCancelMid: context.Canceled}[fault]
				if cause != nil && !errors.Is(err, cause) {
					m.Fail("cause", "%s: error %v does not name its cause %v", what, err, cause)
				}
				m.Count("errors reported", 1)
			} else if !mustFail {
				if s := compare(filled, data); s != "" {
					m.Fail("rows", "%s: %s", what, s)
				}
				if call != 0 {
					if res.calls != 1 {
						m.Fail("result-calls", "%s: result filled %d times", what, res.calls)
					}
					wantNext := (call == 2 || call == 3) && limited > 0 && uint32(count) >= limited
					wantOff := uint32(0)
					if call == 2 && wantNext {
						wantOff = off + uint32(count)
					}
					if res.next != wantNext || res.off != wantOff {
						m.Fail("page-info", "%s: next page %v offset %d, want %v %d", what, res.next, res.off, wantNext, wantOff)
					}
					if call == 3 {
						if res.cursor == nil {
							m.Fail("cursor-func", "%s: no cursor function", what)
						} else if count > 0 && res.cursor(filled[count-1]) != "after "+data[count-1][1].(string) {
							m.Fail("cursor-func", "%s: wrong cursor %q", what, res.cursor(filled[count-1]))
						}
					}
				}
				history = append(history, kept{filled, data, what})
				m.Count("rows delivered", count)
			}
		}
		released(m, db, sdb, hd, what)
		cancel()
		hd.done()
		_ = sdb.Close()
		// earlier lists must not have changed
		if len(history) > 20 {
			for _, k := range history {
				if s := compare(k.list, k.want); s != "" {
					m.Fail("later-change", "%s: list changed later: %s", k.what, s)
				}
			}
			history = history[1+r.IntN(20):]
		}
	}
}

func c19row(m *mon.M, what string, fault, at int, data [][]driver.Value, one *rec, err error, loose bool) {
	// only the first row matters
	mustFail := fault == fQuery || fault == fCancelBefore || len(data) == 0 && fault != fCancelMid ||
		at == 0 && (fault == fNext || fault == fBadValue || fault == fRefuse)
	if err == nil && mustFail {
		m.Fail("row-fault-hidden", "%s: no error", what)
		return
	}
	if err != nil {
		if one != nil {
			m.Fail("row-and-error", "%s: %v and a row", what, err)
		}
		notFound := xdb.IsNotFoundError(err)
		wantNF := len(data) == 0 && (fault == fNone || fault == fNext && at > 0)
		if fault == fCancelMid {
			return
		}
		if notFound != wantNF && !loose {
			m.Fail("row-not-found", "%s: error %v, not-found %v want %v", what, err, notFound, wantNF)
		}
		if !mustFail {
			m.Fail("row-false-error", "%s: %v", what, err)
		}
		var cause error
		switch {
		case fault == fQuery:
			cause = errQuery
		case fault == fCancelBefore:
			cause = context.Canceled
		case fault == fNext && at == 0:
			cause = errNext
		case fault == fRefuse && at == 0:
			cause = errScan
		case len(data) == 0:
			cause = sql.ErrNoRows
		}
		if cause != nil && !errors.Is(err, cause) {
			m.Fail("row-cause", "%s: error %v does not name its cause %v", what, err, cause)
		}
		m.Count("single row errors", 1)
		return
	}
	if len(data) == 0 {
		m.Fail("row-from-nothing", "%s: a row out of nothing", what)
		return
	}
	if s := same(one, data[0]); s != "" {
		m.Fail("row", "%s: %s", what, s)
	}
	m.Count("single rows", 1)
}

type ctxKey struct{}

func pageArg(r *rand.Rand, v uint32) any {
	switch r.IntN(3) {
	case 0:
		return int(v)
	case 1:
		return v
	default:
		if r.IntN(2) == 0 {
			return sql.Named("p", int(v))
		}
		return sql.Named("p", v)
	}
}

// anys compares arguments as the driver sees them.
func anys(l []any) []any {
	o := []any{}
	for _, v := range l {
		switch x := v.(type) {
		case int:
			v = int64(x)
		case uint32:
			v = int64(x)
		}
		o = append(o, v)
	}
	return o
}

// concurrent list queries share nothing.
func c19conc(m *mon.M) {
	r := m.Rand("conc", 0)
	tables := map[string][][]driver.Value{}
	for t := range 8 {
		var d [][]driver.Value
		for i := range 50 + r.IntN(100) {
			d = append(d, rowOf(r, i, fmt.Sprintf("t%d", t)))
		}
		tables[fmt.Sprintf("t%d", t)] = d
	}
	refuse.Lock()
	refuse.at = nil
	refuse.Unlock()
	db := fakedb.New(fakedb.Hooks{Query: func(c context.Context, s string, a []any) (*fakedb.Result, error) {
		return &fakedb.Result{Cols: []string{"a", "b", "c", "d", "e"}, Rows: tables[s]}, nil
	}}).Quiet()
	sdb := db.SQL()
	defer func() { _ = sdb.Close() }()
	sdb.SetMaxOpenConns(8)
	var wg sync.WaitGroup
	for g := range 8 {
		wg.Go(func() {
			name := fmt.Sprintf("t%d", g)
			for range m.N(60, 1000) {
				l, err := xdb.ExecuteListQuery[rec](context.Background(), sdb, name)
				if err != nil {
					m.Fail("concurrent", "%v", err)
					return
				}
				if s := compare(l, tables[name]); s != "" {
					m.Fail("concurrent", "list of %s: %s", name, s)
				}
				m.Eval(true, "c", g)
				m.Count("concurrent lists", 1)
			}
		})
	}
	wg.Wait()
	if db.OpenRows() != 0 {
		m.Fail("rows-open", "after concurrent lists: %d", db.OpenRows())
	}
}

// c19long reads lists far longer than any page, with and without a failure
// near the end.
func c19long(m *mon.M) {
	r := m.Rand("long", 0)
	refuse.Lock()
	refuse.at = nil
	refuse.Unlock()
	sizes := []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 70000 + r.IntN(5000), 1<<17 + r.IntN(3)}
	if m.Thorough() {
		sizes = append(sizes, 1<<18+1, 1<<19+r.IntN(100), 1<<20+1, 3000000)
	}
	for i, count := range sizes {
		data := make([][]driver.Value, count)
		for j := range data {
			data[j] = []driver.Value{int64(j), fmt.Sprint("l", j), int64(j & 0xffff), []byte{1}, nil}
		}
		for _, failAt := range []int{-1, count - 1 - r.IntN(100)} {
			res := &fakedb.Result{Cols: []string{"a", "b", "c", "d", "e"}, Rows: data}
			if failAt >= 0 {
				res.FailAt, res.Err = failAt, errNext
			}
			db := fakedb.New(fakedb.Hooks{Query: func(c context.Context, s string, a []any) (*fakedb.Result, error) { return res, nil }}).Quiet()
			sdb := db.SQL()
			got := &result{}
			var list []*rec
			var err error
			how := (i + r.IntN(2)) % 4
			switch how {
			case 0:
				list, err = xdb.ExecuteListQuery[rec](context.Background(), sdb, "q")
			case 1:
				err = xdb.ExecuteQuery[rec](context.Background(), sdb, got, "q")
			case 2:
				err = xdb.ExecuteQueryWithPagination[rec](context.Background(), sdb, got, "q", 1<<30, 0)
			default:
				err = xdb.ExecuteQueryWithCursor(context.Background(), sdb, func(l *rec) string { return "" }, got, "q", "", 1<<30)
			}
			if how > 0 {
				list = got.rows
			}
			what := fmt.Sprintf("%d rows, way %d, failure at %d", count, how, failAt)
			switch {
			case failAt >= 0 && (err == nil || list != nil):
				m.Fail("long-fault-hidden", "%s: error %v and %d rows", what, err, len(list))
			case failAt < 0 && err != nil:
				m.Fail("long-error", "%s: %v", what, err)
			case failAt < 0:
				if s := compare(list, data); s != "" {
					m.Fail("long-rows", "%s: %s", what, s)
				}
			}
			m.Count("long lists", 1)
			m.Eval(true, "long", count, failAt)
			_ = sdb.Close()
		}
	}
}

func TestC19(t *testing.T) {
	mon.Run(t, "C19", "a list query with rows or a fault", func(m *mon.M) {
		c19(m)
		c19long(m)
		c19conc(m)
		m.Need("errors reported", 500)
		m.Need("rows delivered", 5000)
		m.Need("single row errors", 50)
		for _, f := range faults {
			m.Need(f, 50)
		}
	})
}
