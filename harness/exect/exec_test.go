// Package exect monitors statement execution at the driver boundary.
package exect

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
	"runtime"
	"testing"
	"time"

	"github.com/effective-security/xdb/xsql"

	"verif/fakedb"
	"verif/mon"
	"verif/prog"
)

type ctxKey struct{}

var (
	errQuery = errors.New("injected: query failed")
	errNext  = errors.New("injected: fetch failed")
	errClose = errors.New("injected: close failed")
	errExec  = errors.New("injected: exec failed")

	errGiveUp = errors.New("injected: the handler gives up")
)

// col is a column: how to make a value, a target and read the target back.
type col struct {
	name   string
	value  func(r *rand.Rand, i int) driver.Value
	target func() any
	read   func(any) any
	bad    driver.Value // a value the target cannot take
}

var cols = []col{
	{"i", func(r *rand.Rand, i int) driver.Value { return r.Int64() }, func() any { return new(int64) }, func(t any) any { return *t.(*int64) }, "x1y"},
	{"s", func(r *rand.Rand, i int) driver.Value { return fmt.Sprintf("s%d/%d", i, r.IntN(1000)) }, func() any { return new(string) }, func(t any) any { return *t.(*string) }, nil},
	{"f", func(r *rand.Rand, i int) driver.Value { return r.Float64() }, func() any { return new(float64) }, func(t any) any { return *t.(*float64) }, "abc"},
	{"b", func(r *rand.Rand, i int) driver.Value { return i%2 == 0 }, func() any { return new(bool) }, func(t any) any { return *t.(*bool) }, "maybe"},
	{"i8", func(r *rand.Rand, i int) driver.Value { return int64(i % 100) }, func() any { return new(int8) }, func(t any) any { return int64(*t.(*int8)) }, int64(4000)},
	{"raw", func(r *rand.Rand, i int) driver.Value { return []byte(fmt.Sprintf("b%d", i)) }, func() any { return new([]byte) }, func(t any) any { return append([]byte(nil), *t.(*[]byte)...) }, nil},
	{"ns", func(r *rand.Rand, i int) driver.Value {
		if i%3 == 1 {
			return nil
		}
		return fmt.Sprintf("n%d", i)
	}, func() any { return new(sql.NullString) }, func(t any) any {
		n := t.(*sql.NullString)
		if !n.Valid {
			return nil
		}
		return n.String
	}, nil},
	{"t", func(r *rand.Rand, i int) driver.Value { return time.Unix(int64(i)*1000, 0).UTC() }, func() any { return new(time.Time) }, func(t any) any { return *t.(*time.Time) }, int64(5)},
	{"any", func(r *rand.Rand, i int) driver.Value { return int64(i) }, func() any { return new(any) }, func(t any) any { return *t.(*any) }, nil},
}

type fault int

const (
	none fault = iota
	fQuery
	fNext
	fScan
	fClose
	fCols
	fCancelBefore
	fCancelMid
	nfaults
)

var faultNames = []string{"none", "query", "next", "scan", "close", "columns", "cancelled-before", "cancelled-mid"}

type env struct {
	m    *mon.M
	db   *fakedb.DB
	sdb  *sql.DB
	exec xsql.Executor
	kind string
	done func()
}

// executor opens a pool, a pinned connection or a transaction.
func executor(m *mon.M, r *rand.Rand, h fakedb.Hooks) *env {
	e := &env{m: m, db: fakedb.New(h)}
	e.sdb = e.db.SQL()
	e.sdb.SetMaxOpenConns(1)
	ctx := context.Background()
	switch r.IntN(3) {
	case 0:
		e.exec, e.kind, e.done = e.sdb, "db", func() {}
	case 1:
		c, err := e.sdb.Conn(ctx)
		if err != nil {
			panic(err)
		}
		e.exec, e.kind, e.done = c, "conn", func() { _ = c.Close() }
	default:
		tx, err := e.sdb.BeginTx(ctx, nil)
		if err != nil {
			panic(err)
		}
		e.exec, e.kind, e.done = tx, "tx", func() { _ = tx.Rollback() }
	}
	return e
}

var patience = 5 * time.Second

// released checks that nothing stays occupied: a bounded wait allows for
// database/sql's own asynchronous clean-up after cancellation.
func (e *env) released(what any) {
	deadline := time.Now().Add(patience)
	for e.db.OpenRows() != 0 && time.Now().Before(deadline) {
		time.Sleep(time.Millisecond)
	}
	if n := e.db.OpenRows(); n != 0 {
		patience = 20 * time.Millisecond // enough for the next ones
		// closing would wait for them
		e.m.Fail("rows-open", "%v\n%d result sets still open: %v", what, n, e.db.Events())
		return
	}
	e.done()
	for e.sdb.Stats().InUse != 0 && time.Now().Before(deadline) {
		time.Sleep(time.Millisecond)
	}
	if n := e.sdb.Stats().InUse; n != 0 {
		e.m.Fail("conn-occupied", "%v\n%d connections still in use: %v", what, n, e.db.Events())
	}
	_ = e.sdb.Close()
}

func (e *env) statements() []fakedb.Event {
	var l []fakedb.Event
	for _, v := range e.db.Events() {
		if v.Kind == "query" || v.Kind == "exec" {
			l = append(l, v)
		}
	}
	return l
}

// norm converts arguments the way database/sql does before the driver sees them.
func norm(args []any) []any {
	r := make([]any, len(args))
	for i, a := range args {
		switch v := a.(type) {
		case int:
			r[i] = int64(v)
		default:
			r[i] = a
		}
	}
	return r
}

func (e *env) sentOnce(what any, kind, text string, args []any, ctxOK *bool, sent bool) {
	l := e.statements()
	if !sent {
		if len(l) > 1 {
			e.m.Fail("sent", "%v\nstatement reached the database %d times: %v", what, len(l), l)
		}
		return
	}
	if len(l) != 1 || l[0].Kind != kind || l[0].SQL != text || !reflect.DeepEqual(l[0].Args, norm(args)) {
		e.m.Fail("sent", "%v\nwant exactly one %s of %q %v\n got %v", what, kind, text, args, l)
	}
	if !*ctxOK {
		e.m.Fail("context", "%v\nthe caller's context did not reach the database", what)
	}
}

func TestC06(t *testing.T) {
	mon.Run(t, "C06",
		"a case is one execution of a built statement (query, single row, exec; kept or closed; pool, connection or transaction) with one fault or none at a random row; the driver log, handler calls, bound targets and error are compared with the served rows; non-trivial: at least one row or a fault",
		func(m *mon.M) {
			for _, f := range faultNames {
				m.Need("fault_"+f, 100)
			}
			m.Need("rows_delivered", 5000)
			m.Need("handler_gave_up", 50)
			n := m.N(6000, 80000)
			for i := 0; i < n; i++ {
				r := m.Rand("case", i)
				f := fault(i % int(nfaults))
				switch i / int(nfaults) % 5 {
				case 0, 1, 2:
					query(m, r, f, i)
				case 3:
					queryRow(m, r, f, i)
				default:
					exec(m, r, f, i)
				}
				m.Count("fault_"+faultNames[f], 1)
			}
			bindings(m)
		})
}

// injected returns err, or an error that has a meaning elsewhere and must not
// be taken for something harmless when the database reports it.
func injected(r *rand.Rand, err error) error {
	if r.IntN(3) != 0 {
		return err
	}
	return []error{context.DeadlineExceeded, context.Canceled, sql.ErrTxDone, sql.ErrConnDone, io.ErrUnexpectedEOF, sql.ErrNoRows}[r.IntN(6)]
}

func prepare(r *rand.Rand) *prog.Prog {
	g := &prog.Gen{R: r, Quiet: true}
	return g.Program(r.IntN(2))
}

func query(m *mon.M, r *rand.Rand, f fault, n int) {
	errQuery, errNext, errClose := injected(r, errQuery), injected(r, errNext), injected(r, errClose)
	var cs []col
	for i := 0; i <= r.IntN(5); i++ {
		cs = append(cs, cols[r.IntN(len(cols))])
	}
	nrows := []int{0, 1, 2, 3, 7, 20}[r.IntN(6)]
	if r.IntN(2500) == 0 {
		nrows = []int{1001, 5000, 70000}[r.IntN(3)]
	}
	at := 0
	if nrows > 0 {
		at = r.IntN(nrows)
	}
	res := &fakedb.Result{}
	for i, c := range cs {
		res.Cols = append(res.Cols, fmt.Sprintf("%s%d", c.name, i))
	}
	for i := 0; i < nrows; i++ {
		var row []driver.Value
		for _, c := range cs {
			row = append(row, c.value(r, i))
		}
		res.Rows = append(res.Rows, row)
	}
	bound := r.IntN(4) != 0
	nilHandler := r.IntN(8) == 0
	wantRows, wantErr := nrows, error(nil)
	anyErr := false
	scanCol := -1
	switch f {
	case fQuery:
		wantRows, wantErr = 0, errQuery
	case fNext:
		if r.IntN(3) == 0 {
			at = nrows // fails after the last row
		}
		res.Err, res.FailAt = errNext, at
		wantRows, wantErr = at, errNext
	case fScan:
		for i, c := range cs {
			if c.bad != nil {
				scanCol = i
			}
		}
		if scanCol >= 0 && nrows > 0 && bound {
			res.Rows[at][scanCol] = cs[scanCol].bad
			wantRows, anyErr = at, true
		}
	case fClose:
		res.CloseErr = errClose
		wantErr = errClose
	case fCols:
		if nrows > 0 && bound {
			wantRows, anyErr = 0, true
		}
	case fCancelBefore:
		wantRows, wantErr = 0, context.Canceled
	case fCancelMid:
		if nrows > 0 && !nilHandler {
			wantRows, wantErr = at+1, context.Canceled
		}
	}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, n))
	defer cancel()
	ctxOK := false
	e := executor(m, r, fakedb.Hooks{Query: func(c context.Context, _ string, _ []any) (*fakedb.Result, error) {
		ctxOK = c.Value(ctxKey{}) == n
		if f == fQuery {
			return nil, errQuery
		}
		return res, nil
	}})
	p := prepare(r)
	what := fmt.Sprintf("query on %s, fault %s at %d of %d rows, bound %v: %v", e.kind, faultNames[f], at, nrows, bound, p)
	q := p.Build()
	text, args := q.String(), append([]any(nil), q.Args()...)
	var targets []any
	if bound {
		for _, c := range cs {
			targets = append(targets, c.target())
		}
		if f == fCols {
			targets = append(targets, new(string))
		}
		for len(targets) > 0 { // in one or several To calls
			k := 1 + r.IntN(len(targets))
			q.To(targets[:k]...)
			targets = targets[k:]
		}
		targets = append([]any(nil), q.Dest()...)
	}
	if f == fCancelBefore {
		cancel()
	}
	// a handler that gives up half-way: the caller sees its panic, or its
	// goroutine ends, and nothing may stay occupied
	giveUp := f == none && nrows > 0 && !nilHandler && r.IntN(2) == 0
	goexit := giveUp && r.IntN(3) == 0
	got := 0
	handler := func(rows *sql.Rows) {
		if got >= nrows {
			m.Fail("extra-row", "%s\nhandler called for row %d of %d", what, got, nrows)
			got++
			return
		}
		if bound {
			for i, c := range cs {
				if v := c.read(targets[i]); !equal(v, res.Rows[got][i]) {
					m.Fail("row-values", "%s\nrow %d column %d: target holds %v, row has %v", what, got, i, v, res.Rows[got][i])
				}
			}
		} else {
			t := make([]any, len(cs))
			for i := range t {
				t[i] = new(any)
			}
			if err := rows.Scan(t...); err != nil {
				m.Fail("handler-scan", "%s\nrow %d cannot be scanned by the handler: %v", what, got, err)
			}
			for i := range t {
				if v := *t[i].(*any); !equal(v, res.Rows[got][i]) {
					m.Fail("row-values", "%s\nrow %d column %d: handler sees %v, row has %v", what, got, i, v, res.Rows[got][i])
				}
			}
		}
		got++
		if f == fCancelMid && got == at+1 {
			cancel()
			for k := 0; k < 5000 && e.db.OpenRows() > 0; k++ {
				time.Sleep(time.Millisecond)
			}
		}
		if giveUp && got == at+1 {
			if goexit {
				runtime.Goexit()
			}
			panic(errGiveUp)
		}
	}
	h := handler
	if nilHandler {
		h = nil
	}
	andClose := r.IntN(2) == 0
	var err error
	if giveUp {
		done := make(chan any, 1)
		go func() {
			defer func() { done <- recover() }()
			if andClose {
				err = q.QueryAndClose(ctx, e.exec, h)
			} else {
				err = q.Query(ctx, e.exec, h)
			}
		}()
		v := <-done
		if !goexit && v != any(errGiveUp) {
			m.Fail("handler-panic", "%s\nthe panic of the handler arrived as %v (error %v)", what, v, err)
		}
		if got != at+1 {
			m.Fail("row-count", "%s\nhandler called %d times, it gave up at row %d", what, got, at)
		}
		e.sentOnce(what, "query", text, args, &ctxOK, true)
		e.released(what + ", handler gave up")
		m.Count("handler_gave_up", 1)
		m.Eval(true, what)
		m.State("outcomes", "give-up", e.kind, nrows, at, bound, andClose, goexit)
		return
	}
	m.Guard("query", what, func() {
		if andClose {
			err = q.QueryAndClose(ctx, e.exec, h)
		} else {
			err = q.Query(ctx, e.exec, h)
		}
	})
	if !nilHandler && got != wantRows {
		m.Fail("row-count", "%s\nhandler called %d times, want %d (error %v)", what, got, wantRows, err)
	}
	verdict(m, what, err, wantErr, anyErr)
	e.sentOnce(what, "query", text, args, &ctxOK, f != fCancelBefore)
	if !andClose {
		if q.String() != text || len(q.Args()) != len(args) {
			m.Fail("changed", "%s\nexecution changed the statement", what)
		}
		q.Close()
	}
	e.released(what)
	m.Count("rows_delivered", got)
	m.Eval(nrows > 0 || f != none, what)
	m.State("outcomes", "query", e.kind, f, nrows, at, bound, nilHandler, andClose)
	if n%977 == 0 {
		m.Sample(map[string]any{"case": what, "rows": got, "err": fmt.Sprint(err), "log": fmt.Sprint(e.db.Events())})
	}
}

func verdict(m *mon.M, what string, err, want error, anyErr bool) {
	switch {
	case anyErr:
		if err == nil {
			m.Fail("silent", "%s\nreported success", what)
		}
	case want == nil:
		if err != nil {
			m.Fail("spurious", "%s\nreported %v", what, err)
		}
	default:
		if err == nil {
			m.Fail("silent", "%s\nreported success instead of %v", what, want)
		} else if !errors.Is(err, want) {
			m.Fail("other-error", "%s\nreported %v instead of %v", what, err, want)
		}
	}
}

func equal(got any, want driver.Value) bool {
	if b, ok := want.([]byte); ok {
		g, ok := got.([]byte)
		return ok && string(g) == string(b)
	}
	if t, ok := want.(time.Time); ok {
		g, ok := got.(time.Time)
		return ok && g.Equal(t)
	}
	return reflect.DeepEqual(got, any(want))
}

func queryRow(m *mon.M, r *rand.Rand, f fault, n int) {
	errQuery, errNext, errClose := injected(r, errQuery), injected(r, errNext), injected(r, errClose)
	for _, e := range []*error{&errQuery, &errNext, &errClose} {
		if *e == sql.ErrNoRows { // which would be an answer
			*e = errExec
		}
	}
	c := cols[r.IntN(len(cols))]
	nrows := []int{0, 1, 1, 3}[r.IntN(4)]
	res := &fakedb.Result{Cols: []string{"x", "y"}}
	for i := 0; i < nrows; i++ {
		res.Rows = append(res.Rows, []driver.Value{c.value(r, i), int64(i)})
	}
	wantErr := error(nil)
	anyErr := false
	if nrows == 0 {
		wantErr = sql.ErrNoRows
	}
	switch f {
	case fQuery:
		wantErr = errQuery
	case fNext:
		res.Err, res.FailAt = errNext, 0
		wantErr = errNext
	case fScan:
		if c.bad != nil && nrows > 0 {
			res.Rows[0][0] = c.bad
			anyErr = true
		}
	case fClose:
		res.CloseErr = errClose
		wantErr = errClose
	case fCols:
		if nrows > 0 {
			anyErr = true
		}
	case fCancelBefore, fCancelMid:
		wantErr = context.Canceled
	}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, n))
	defer cancel()
	ctxOK := false
	e := executor(m, r, fakedb.Hooks{Query: func(c context.Context, _ string, _ []any) (*fakedb.Result, error) {
		ctxOK = c.Value(ctxKey{}) == n
		if f == fQuery {
			return nil, errQuery
		}
		return res, nil
	}})
	if f == fCancelBefore || f == fCancelMid {
		cancel()
	}
	p := prepare(r)
	what := fmt.Sprintf("single row on %s, fault %s, %d rows: %v", e.kind, faultNames[f], nrows, p)
	q := p.Build()
	text, args := q.String(), append([]any(nil), q.Args()...)
	x, y := c.target(), new(int64)
	switch targets := r.IntN(3); {
	case f != fCols:
		q.To(x)
		q.To(y)
	case targets == 0: // none at all
		what += ", no targets"
	case targets == 1:
		q.To(x)
	default:
		q.To(x, y, new(int64))
	}
	andClose := r.IntN(2) == 0
	var err error
	m.Guard("queryrow", what, func() {
		if andClose {
			err = q.QueryRowAndClose(ctx, e.exec)
		} else {
			err = q.QueryRow(ctx, e.exec)
			q.Close()
		}
	})
	verdict(m, what, err, wantErr, anyErr)
	if nrows == 0 && (f == none || f == fCols || f == fScan) && !errors.Is(err, sql.ErrNoRows) {
		m.Fail("no-row", "%s\na missing row is reported as %v", what, err)
	}
	if nrows > 0 && errors.Is(err, sql.ErrNoRows) {
		m.Fail("no-row", "%s\na present row is reported as missing", what)
	}
	if err == nil && (!equal(c.read(x), res.Rows[0][0]) || *y != 0) {
		m.Fail("row-values", "%s\ntargets hold %v %v, first row is %v", what, c.read(x), *y, res.Rows[0])
	}
	e.sentOnce(what, "query", text, args, &ctxOK, f != fCancelBefore && f != fCancelMid)
	e.released(what)
	m.Eval(nrows > 0 || f != none, what)
	m.State("outcomes", "row", e.kind, f, nrows, andClose)
}

type result struct{ id, n int64 }

func (r result) LastInsertId() (int64, error) { return r.id, nil }
func (r result) RowsAffected() (int64, error) { return r.n, nil }

func exec(m *mon.M, r *rand.Rand, f fault, n int) {
	errExec := injected(r, errExec)
	want := result{r.Int64(), r.Int64()}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, n))
	defer cancel()
	ctxOK := false
	var wantErr error
	e := executor(m, r, fakedb.Hooks{Exec: func(c context.Context, _ string, _ []any) (driver.Result, error) {
		ctxOK = c.Value(ctxKey{}) == n
		if f == fQuery || f == fNext {
			return nil, errExec
		}
		return want, nil
	}})
	switch f {
	case fQuery, fNext:
		wantErr = errExec
	case fCancelBefore:
		cancel()
		wantErr = context.Canceled
	}
	p := prepare(r)
	what := fmt.Sprintf("exec on %s, fault %s: %v", e.kind, faultNames[f], p)
	q := p.Build()
	text, args := q.String(), append([]any(nil), q.Args()...)
	var res sql.Result
	var err error
	m.Guard("exec", what, func() {
		if r.IntN(2) == 0 {
			res, err = q.ExecAndClose(ctx, e.exec)
		} else {
			res, err = q.Exec(ctx, e.exec)
			q.Close()
		}
	})
	verdict(m, what, err, wantErr, false)
	if err == nil {
		id, _ := res.LastInsertId()
		k, _ := res.RowsAffected()
		if id != want.id || k != want.n {
			m.Fail("result", "%s\nresult %d %d, database answered %d %d", what, id, k, want.id, want.n)
		}
	}
	e.sentOnce(what, "exec", text, args, &ctxOK, f != fCancelBefore)
	e.released(what)
	m.Eval(true, what)
	m.State("outcomes", "exec", e.kind, f)
}

type inner struct {
	A int64  `db:"a"`
	B string `db:"b,omitempty"`
}

// Base is an exported embedded struct.
type Base struct {
	inner
	C string `db:"c"`
	x int64
}

type record struct {
	Base
	D     float64 `db:"d"`
	Skip  string
	Named inner
	E     sql.NullInt64 `db:"e"`
}

// bindings checks that bound structs receive the columns named in their tags.
func bindings(m *mon.M) {
	for i := 0; i < m.N(300, 5000); i++ {
		r := m.Rand("bind", i)
		var rec record
		rec.Skip, rec.x, rec.Named.A = "keep", 7, 8
		var after int64
		q := xsql.Postgres.From("t")
		if i%2 == 0 {
			q = xsql.From("t").Where("k = ?", i)
		}
		want := []any{r.Int64(), fmt.Sprint("b", i), fmt.Sprint("c", i), r.Float64(), r.Int64()}
		res := &fakedb.Result{Cols: []string{"a", "b", "c", "d", "e", "z"}}
		for k := 0; k < 3; k++ {
			res.Rows = append(res.Rows, []driver.Value{want[0].(int64) + int64(k), want[1], want[2], want[3], want[4], int64(k)})
		}
		db := fakedb.New(fakedb.Hooks{Query: func(context.Context, string, []any) (*fakedb.Result, error) { return res, nil }})
		sdb := db.SQL()
		n := 0
		ok := m.Guard("bind", "struct with embedded parts", func() {
			q.Bind(&rec)
			q.Select("z").To(&after)
			err := q.QueryAndClose(context.Background(), sdb, func(*sql.Rows) {
				if rec.A != want[0].(int64)+int64(n) || rec.B != want[1] || rec.C != want[2] || rec.D != want[3] || rec.E.Int64 != want[4] || after != int64(n) {
					m.Fail("bind", "row %d: record %+v and %d, want %v %d", n, rec, after, want, n)
				}
				n++
			})
			if err != nil || n != 3 {
				m.Fail("bind", "%d rows, error %v", n, err)
			}
		})
		_ = sdb.Close()
		if !ok {
			return
		}
		if rec.Skip != "keep" || rec.x != 7 || rec.Named.A != 8 {
			m.Fail("bind", "fields without a tag changed: %+v", rec)
		}
		ev := db.Events()
		for _, e := range ev {
			if e.Kind == "query" {
				if got := prog.Norm(e.SQL); got != "SELECT a,b,c,d,e,z FROM t" && got != "SELECT a,b,c,d,e,z FROM t WHERE k = ?" {
					m.Fail("bind-sql", "sent %q", e.SQL)
				}
			}
		}
		m.Count("bound_rows", n)
		m.Eval(true, "bind", i)
	}
}
