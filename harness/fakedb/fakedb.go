// Package fakedb is a database/sql driver that records everything that crosses
// the driver boundary and fails where it is told to.
package fakedb

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"os"
	"sync"
)

// Event is one call seen by the driver.
type Event struct {
	Seq  int
	Conn int
	Kind string
	SQL  string
	Args []any
	Opts driver.TxOptions
	Err  error
	InTx int // transaction number, 0 outside
}

func (e Event) String() string {
	s := fmt.Sprintf("%d:%s(conn %d", e.Seq, e.Kind, e.Conn)
	if e.InTx != 0 {
		s += fmt.Sprintf(" tx %d", e.InTx)
	}
	if e.SQL != "" {
		s += fmt.Sprintf(" %q %v", e.SQL, e.Args)
	}
	if e.Err != nil {
		s += " err=" + e.Err.Error()
	}
	return s + ")"
}

// Result is what a query returns.
type Result struct {
	Cols     []string
	Rows     [][]driver.Value
	FailAt   int   // row index at which Next fails with Err (when Err is set)
	Err      error // error of Next at FailAt
	CloseErr error
	OnNext   func(i int) // called before row i is handed out
	AutoIDs  bool
}

// Hooks decide how the database behaves. Nil hooks succeed.
type Hooks struct {
	Open     func(ctx context.Context, n int) error
	Ping     func(ctx context.Context, conn int) error
	Begin    func(ctx context.Context, opts driver.TxOptions) error
	Commit   func(tx int) error
	Rollback func(tx int) error
	Query    func(ctx context.Context, sql string, args []any) (*Result, error)
	Exec     func(ctx context.Context, sql string, args []any) (driver.Result, error)
	Close    func(conn int) error
	Named    bool // hand named arguments over with their names
}

// DB is the fake server.
type DB struct {
	mu       sync.Mutex
	H        Hooks
	events   []Event
	seq      int
	nconn    int
	ntx      int
	openConn map[int]bool
	openRows int
	openTx   map[int]bool
	maxConns int
	quiet    bool
}

// New makes a fake server.
func New(h Hooks) *DB {
	return &DB{H: h, openConn: map[int]bool{}, openTx: map[int]bool{}}
}

// Quiet stops recording events (for stress runs).
func (d *DB) Quiet() *DB { d.quiet = true; return d }

// SQL opens a handle on it.
func (d *DB) SQL() *sql.DB { return sql.OpenDB(connector{d}) }

// Connector gives the driver connector.
func (d *DB) Connector() driver.Connector { return connector{d} }

func (d *DB) log(e Event) int {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.seq++
	e.Seq = d.seq
	if !d.quiet {
		d.events = append(d.events, e)
	}
	return e.Seq
}

// Events returns a copy of the log.
func (d *DB) Events() []Event {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]Event(nil), d.events...)
}

// Count counts events of the given kinds.
func (d *DB) Count(kinds ...string) int {
	n := 0
	for _, e := range d.Events() {
		for _, k := range kinds {
			if e.Kind == k {
				n++
			}
		}
	}
	return n
}

// Reset forgets the log.
func (d *DB) Reset() { d.mu.Lock(); d.events = nil; d.mu.Unlock() }

// OpenConns is the number of connections not closed yet.
func (d *DB) OpenConns() int { d.mu.Lock(); defer d.mu.Unlock(); return len(d.openConn) }

// OpenRows is the number of result sets not closed yet.
func (d *DB) OpenRows() int { d.mu.Lock(); defer d.mu.Unlock(); return d.openRows }

// OpenTx is the number of unfinished transactions.
func (d *DB) OpenTx() int { d.mu.Lock(); defer d.mu.Unlock(); return len(d.openTx) }

type connector struct{ d *DB }

// Drv is the driver value; Open by name is not offered.
type Drv struct{ d *DB }

// Open implements driver.Driver.
func (Drv) Open(string) (driver.Conn, error) { return nil, errors.New("fakedb: use a connector") }

func (c connector) Driver() driver.Driver { return Drv{c.d} }

func (c connector) Connect(ctx context.Context) (driver.Conn, error) {
	d := c.d
	d.mu.Lock()
	d.nconn++
	n := d.nconn
	d.mu.Unlock()
	if d.H.Open != nil {
		if err := d.H.Open(ctx, n); err != nil {
			d.log(Event{Conn: n, Kind: "open", Err: err})
			return nil, err
		}
	}
	d.log(Event{Conn: n, Kind: "open"})
	d.mu.Lock()
	d.openConn[n] = true
	if len(d.openConn) > d.maxConns {
		d.maxConns = len(d.openConn)
	}
	d.mu.Unlock()
	return &conn{d: d, id: n}, nil
}

type conn struct {
	d  *DB
	id int
	tx int
}

func (c *conn) Prepare(q string) (driver.Stmt, error) {
	return nil, errors.New("fakedb: prepare not offered")
}

func (c *conn) Close() error {
	c.d.mu.Lock()
	delete(c.d.openConn, c.id)
	c.d.mu.Unlock()
	var err error
	if c.d.H.Close != nil {
		err = c.d.H.Close(c.id)
	}
	c.d.log(Event{Conn: c.id, Kind: "close", Err: err})
	return err
}

func (c *conn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}

func (c *conn) BeginTx(ctx context.Context, opts driver.TxOptions) (driver.Tx, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if c.d.H.Begin != nil {
		if err := c.d.H.Begin(ctx, opts); err != nil {
			c.d.log(Event{Conn: c.id, Kind: "begin", Opts: opts, Err: err})
			return nil, err
		}
	}
	c.d.mu.Lock()
	c.d.ntx++
	c.tx = c.d.ntx
	c.d.openTx[c.tx] = true
	c.d.mu.Unlock()
	c.d.log(Event{Conn: c.id, Kind: "begin", Opts: opts, InTx: c.tx})
	return &tx{c: c, n: c.tx}, nil
}

func (c *conn) Ping(ctx context.Context) error {
	var err error
	if c.d.H.Ping != nil {
		err = c.d.H.Ping(ctx, c.id)
	}
	c.d.log(Event{Conn: c.id, Kind: "ping", Err: err})
	return err
}

func (c *conn) ResetSession(ctx context.Context) error { return nil }
func (c *conn) IsValid() bool                          { return true }

func vals(a []driver.NamedValue) []any {
	r := make([]any, len(a))
	for i, v := range a {
		r[i] = v.Value
	}
	return r
}

func (c *conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	if err := ctx.Err(); err != nil {
		c.d.log(Event{Conn: c.id, Kind: "query", SQL: q, Args: vals(args), Err: err, InTx: c.tx})
		return nil, err
	}
	a := vals(args)
	if c.d.H.Named {
		for i, v := range args {
			if v.Name != "" {
				a[i] = sql.Named(v.Name, v.Value)
			}
		}
	}
	var res *Result
	var err error
	if c.d.H.Query != nil {
		res, err = c.d.H.Query(ctx, q, a)
	} else {
		res = &Result{Cols: []string{"c"}}
	}
	c.d.log(Event{Conn: c.id, Kind: "query", SQL: q, Args: a, Err: err, InTx: c.tx})
	if err != nil {
		return nil, err
	}
	c.d.mu.Lock()
	c.d.openRows++
	c.d.mu.Unlock()
	return &rows{c: c, r: res}, nil
}

func (c *conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	a := vals(args)
	var res driver.Result = driver.RowsAffected(1)
	err := ctx.Err()
	if err == nil && c.d.H.Exec != nil {
		res, err = c.d.H.Exec(ctx, q, a)
	}
	c.d.log(Event{Conn: c.id, Kind: "exec", SQL: q, Args: a, Err: err, InTx: c.tx})
	if err != nil {
		return nil, err
	}
	return res, nil
}

type tx struct {
	c *conn
	n int
}

func (t *tx) end(kind string, h func(int) error) error {
	var err error
	if h != nil {
		err = h(t.n)
	}
	t.c.d.mu.Lock()
	delete(t.c.d.openTx, t.n)
	t.c.d.mu.Unlock()
	t.c.d.log(Event{Conn: t.c.id, Kind: kind, InTx: t.n, Err: err})
	t.c.tx = 0
	return err
}

func (t *tx) Commit() error   { return t.end("commit", t.c.d.H.Commit) }
func (t *tx) Rollback() error { return t.end("rollback", t.c.d.H.Rollback) }

type rows struct {
	c      *conn
	r      *Result
	i      int
	closed bool
}

func (r *rows) Columns() []string { return r.r.Cols }

func (r *rows) Close() error {
	if r.closed {
		return nil
	}
	r.closed = true
	r.c.d.mu.Lock()
	r.c.d.openRows--
	r.c.d.mu.Unlock()
	r.c.d.log(Event{Conn: r.c.id, Kind: "rowsclose", Err: r.r.CloseErr})
	return r.r.CloseErr
}

func (r *rows) Next(dest []driver.Value) error {
	if r.r.OnNext != nil {
		r.r.OnNext(r.i)
	}
	if r.r.Err != nil && r.i == r.r.FailAt {
		return r.r.Err
	}
	if r.i >= len(r.r.Rows) {
		return io.EOF
	}
	copy(dest, r.r.Rows[r.i])
	r.i++
	return nil
}

// Odd returns err, or err together with one that means something else in
// another place: whatever it wraps, a reported failure is a failure.
func Odd(err error, k int) error {
	also := []error{nil, nil, io.EOF, context.Canceled, context.DeadlineExceeded, sql.ErrNoRows, sql.ErrConnDone, io.ErrUnexpectedEOF, os.ErrNotExist}
	if e := also[uint(k)%uint(len(also))]; e != nil {
		return fmt.Errorf("%w: %w", err, e)
	}
	return err
}
