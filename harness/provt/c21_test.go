// Package provt monitors providers: transactions and their lifetime.
package provt

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/pkg/flake"
	"github.com/effective-security/xdb/xsql"

	"verif/fakedb"
	"verif/mon"
)

var (
	errBegin    = errors.New("injected: begin failed")
	errCommit   = errors.New("injected: commit failed")
	errRollback = errors.New("injected: rollback failed")
	errStmt     = errors.New("injected: statement failed")
)

type one struct{ V int64 }

func (o *one) ScanRow(r xdb.Row) error { return r.Scan(&o.V) }

// op runs one statement through an interface; every way a caller has.
func op(r *rand.Rand, ctx context.Context, p xdb.Provider, text string, arg int64) (string, error) {
	ways := []string{"exec", "query", "row", "list", "single", "builder exec", "builder query", "builder row", "DB exec", "DB query", "Tx exec"}
	w := ways[r.IntN(len(ways))]
	var db xdb.DB = p
	switch w {
	case "DB exec", "DB query":
		db = p.DB()
	case "Tx exec":
		if t := p.Tx(); t != nil {
			db = t
		}
	}
	var err error
	switch w {
	case "exec", "DB exec", "Tx exec":
		_, err = db.ExecContext(ctx, text, arg)
	case "query", "DB query":
		var rows *sql.Rows
		rows, err = db.QueryContext(ctx, text, arg)
		if err == nil {
			for rows.Next() {
			}
			err = rows.Err()
			_ = rows.Close()
		}
	case "row":
		var v int64
		err = db.QueryRowContext(ctx, text, arg).Scan(&v)
	case "list":
		_, err = xdb.ExecuteListQuery[one](ctx, db, text, arg)
	case "single":
		_, err = xdb.QueryRow[one](ctx, db, text, arg)
	case "builder exec":
		_, err = xsql.Postgres.New(text, arg).Exec(ctx, db)
	case "builder query":
		var v int64
		err = xsql.Postgres.New(text, arg).To(&v).Query(ctx, db, func(*sql.Rows) {})
	case "builder row":
		var v int64
		err = xsql.Postgres.New(text, arg).To(&v).QueryRow(ctx, db)
	}
	return w, err
}

type txn struct {
	p       xdb.Provider
	n       int // number given by the driver
	conn    int
	cancel  context.CancelFunc
	ctx     context.Context
	done    bool
	ended   string // commit, rollback
	failing bool
}

type trace struct {
	m    *mon.M
	db   *fakedb.DB
	mark int
	what []string
}

func (t *trace) fresh() []fakedb.Event {
	ev := t.db.Events()
	f := ev[t.mark:]
	t.mark = len(ev)
	var l []fakedb.Event
	for _, e := range f {
		switch e.Kind {
		case "open", "close", "ping", "rowsclose":
		default:
			l = append(l, e)
		}
	}
	return l
}

func (t *trace) fail(fp, f string, a ...any) {
	h := t.what
	if len(h) > 25 {
		h = h[len(h)-25:]
	}
	t.m.Fail(fp, "%s\nhistory: %v", fmt.Sprintf(f, a...), h)
}

func isolation(r *rand.Rand) *sql.TxOptions {
	switch r.IntN(4) {
	case 0:
		return nil
	case 1:
		return &sql.TxOptions{}
	default:
		return &sql.TxOptions{Isolation: sql.IsolationLevel(r.IntN(8)), ReadOnly: r.IntN(2) == 0}
	}
}

type ctxKey struct{}

// counter is a generator of a caller.
type counter struct{ n uint64 }

func (c *counter) NextID() uint64 { c.n++; return c.n }

// histories drives one provider and several transactions over the recording driver.
func histories(m *mon.M, n int) {
	r := m.Rand("fake", n)
	var fBegin, fCommit, fRollback, fStmt bool
	var sawCtx any
	var nth atomic.Int64
	odd := func(err error) error { return fakedb.Odd(err, n+int(nth.Add(1))) }
	db := fakedb.New(fakedb.Hooks{
		Begin: func(c context.Context, _ driver.TxOptions) error {
			sawCtx = c.Value(ctxKey{})
			if fBegin {
				return odd(errBegin)
			}
			return nil
		},
		Commit: func(int) error {
			if fCommit {
				return odd(errCommit)
			}
			return nil
		},
		Rollback: func(int) error {
			if fRollback {
				return odd(errRollback)
			}
			return nil
		},
		Query: func(context.Context, string, []any) (*fakedb.Result, error) {
			if fStmt {
				return nil, odd(errStmt)
			}
			return &fakedb.Result{Cols: []string{"v"}, Rows: [][]driver.Value{{int64(1)}, {int64(2)}}}, nil
		},
		Exec: func(context.Context, string, []any) (driver.Result, error) {
			if fStmt {
				return nil, odd(errStmt)
			}
			return driver.RowsAffected(1), nil
		},
	})
	sdb := db.SQL()
	defer func() { _ = sdb.Close() }()
	var gen flake.IDGenerator = &counter{n: r.Uint64() >> 2}
	if n%2 == 0 {
		gen = flake.NewIDGenerator(flake.Settings{
			StartTime: time.Now().Add(-time.Duration(r.Int64N(int64(10 * 365 * 24 * time.Hour)))),
			MachineID: func() (uint16, error) { return uint16(n), nil },
		})
	}
	p, err := xdb.New("fake", sdb, gen)
	if err != nil {
		m.Fail("new", "%v", err)
		return
	}
	tr := &trace{m: m, db: db}
	var txs []*txn
	say := func(f string, a ...any) { tr.what = append(tr.what, fmt.Sprintf(f, a...)) }
	if p.Tx() != nil {
		tr.fail("parent-tx", "a provider without transaction has one")
	}
	live := func() *txn {
		var l []*txn
		for _, t := range txs {
			if !t.done {
				l = append(l, t)
			}
		}
		if len(l) == 0 {
			return nil
		}
		return l[r.IntN(len(l))]
	}
	// end waits for the clean-up database/sql does by itself after cancellation
	quiet := func() {
		open := 0
		for _, t := range txs {
			if !t.done {
				open++
			}
		}
		deadline := time.Now().Add(5 * time.Second)
		for (sdb.Stats().InUse != open || db.OpenTx() != open) && time.Now().Before(deadline) {
			time.Sleep(100 * time.Microsecond)
		}
		if sdb.Stats().InUse != open || db.OpenTx() != open {
			tr.fail("leak", "%d connections in use, %d transactions open at the database, want %d", sdb.Stats().InUse, db.OpenTx(), open)
		}
		if db.OpenRows() != 0 {
			tr.fail("rows-open", "%d result sets open", db.OpenRows())
		}
	}
	steps := 12 + r.IntN(20)
	for i := 0; i < steps && !m.Failed(); i++ {
		fBegin, fCommit, fRollback, fStmt = false, false, false, false
		switch k := r.IntN(19); {
		case k >= 17: // an ID, from whoever
			who, name := xdb.Provider(p), "parent"
			if len(txs) > 0 && r.IntN(4) != 0 {
				t := txs[r.IntN(len(txs))]
				who, name = t.p, fmt.Sprintf("tx%d", t.n)
			}
			id := who.NextID().UInt64()
			say("%s.NextID -> %d", name, id)
			last := flake.LastID(gen)
			if c, ok := gen.(*counter); ok {
				last = c.n
			}
			if id != last {
				tr.fail("id-generator", "%s gives ID %d, the provider's generator gave %d", name, id, last)
			}
			if got, want := who.IDTime(id), flake.IDTime(gen, id); !got.Equal(want) {
				tr.fail("id-time", "%s tells %v for ID %d, the generator %v", name, got, id, want)
			}
			if ev := tr.fresh(); len(ev) != 0 {
				tr.fail("id-statement", "%s.NextID reached the database: %v", name, ev)
			}
			m.Count("ids drawn", 1)
		case k < 3: // begin
			if len(txs) > 6 {
				continue
			}
			fBegin = r.IntN(4) == 0
			opts := isolation(r)
			ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, i))
			dead := r.IntN(10) == 0
			if dead {
				cancel()
			}
			sawCtx = nil
			t, err := p.BeginTx(ctx, opts)
			say("begin(%v) fault=%v dead=%v -> %v", opts, fBegin, dead, err)
			ev := tr.fresh()
			if fBegin || dead {
				m.Count("begin failures", 1)
				if err == nil || t != nil {
					tr.fail("begin-hidden", "failed begin gives %v, %v", t, err)
				} else if fBegin && !dead && !errors.Is(err, errBegin) {
					tr.fail("begin-cause", "failed begin reports %v", err)
				}
				cancel()
				quiet()
				continue
			}
			if err != nil {
				tr.fail("begin", "begin: %v", err)
				cancel()
				continue
			}
			want := driver.TxOptions{}
			if opts != nil {
				want = driver.TxOptions{Isolation: driver.IsolationLevel(opts.Isolation), ReadOnly: opts.ReadOnly}
			}
			if len(ev) != 1 || ev[0].Kind != "begin" || ev[0].Opts != want {
				tr.fail("begin-options", "begin with %v reached the database as %v", opts, ev)
				cancel()
				continue
			}
			if sawCtx != i {
				tr.fail("begin-context", "the caller's context did not reach the database")
			}
			if t.Tx() == nil || t.Name() != "fake" {
				tr.fail("tx-provider", "transaction provider has Tx %v, name %q", t.Tx(), t.Name())
			}
			txs = append(txs, &txn{p: t, n: ev[0].InTx, conn: ev[0].Conn, cancel: cancel, ctx: ctx})
			m.Count("transactions", 1)
		case k < 8: // statement in a transaction, open or finished
			if len(txs) == 0 {
				continue
			}
			t := txs[r.IntN(len(txs))]
			if l := live(); l != nil && r.IntN(3) != 0 {
				t = l
			}
			fStmt = r.IntN(6) == 0
			text := fmt.Sprintf("S%d", i)
			w, err := op(r, context.Background(), t.p, text, int64(i))
			say("tx%d.%s fault=%v -> %v", t.n, w, fStmt, err)
			ev := tr.fresh()
			if t.done {
				if err == nil || len(ev) != 0 {
					tr.fail("after-end", "statement through finished transaction %d: error %v, database saw %v", t.n, err, ev)
				}
				m.Count("statements after the end", 1)
				continue
			}
			if fStmt != (err != nil) {
				tr.fail("stmt-error", "statement fault %v gives %v", fStmt, err)
			}
			if len(ev) != 1 || ev[0].InTx != t.n || ev[0].Conn != t.conn || ev[0].SQL != text {
				tr.fail("outside-tx", "%s through transaction %d (conn %d) reached the database as %v", w, t.n, t.conn, ev)
			}
			m.Count("statements inside", 1)
		case k < 11: // through the parent
			text := fmt.Sprintf("P%d", i)
			fStmt = r.IntN(6) == 0
			w, err := op(r, context.Background(), p, text, int64(i))
			say("parent.%s fault=%v -> %v", w, fStmt, err)
			ev := tr.fresh()
			if fStmt != (err != nil) {
				tr.fail("stmt-error", "statement fault %v gives %v", fStmt, err)
			}
			if len(ev) != 1 || ev[0].InTx != 0 || ev[0].SQL != text {
				tr.fail("parent-in-tx", "%s through the parent reached the database as %v", w, ev)
			}
			m.Count("statements outside", 1)
		case k < 13: // nested begin, commit or rollback without transaction
			fail := func(what string, err error) {
				say("%s -> %v", what, err)
				if ev := tr.fresh(); err == nil || len(ev) != 0 {
					tr.fail("without-tx", "%s: error %v, database saw %v", what, err, ev)
				}
			}
			switch {
			case k == 11:
				if len(txs) == 0 {
					continue
				}
				t := txs[r.IntN(len(txs))]
				x, err := t.p.BeginTx(context.Background(), isolation(r))
				fail("nested begin", err)
				if x != nil {
					tr.fail("nested-provider", "nested begin gives a provider")
				}
			case r.IntN(2) == 0:
				fail("commit without transaction", p.Commit())
			default:
				fail("rollback without transaction", p.Rollback())
			}
			m.Count("refused", 1)
		case k < 16: // finish: commit, rollback, close; perhaps again
			if len(txs) == 0 {
				continue
			}
			t := txs[r.IntN(len(txs))]
			if l := live(); l != nil && r.IntN(3) != 0 {
				t = l
			}
			how := []string{"commit", "commit", "rollback", "close"}[r.IntN(4)]
			fCommit, fRollback = r.IntN(5) == 0, r.IntN(5) == 0
			var err error
			switch how {
			case "commit":
				err = t.p.Commit()
			case "rollback":
				err = t.p.Rollback()
			case "close":
				err = t.p.Close()
			}
			say("tx%d.%s faults=%v,%v -> %v", t.n, how, fCommit, fRollback, err)
			ev := tr.fresh()
			if t.done {
				if len(ev) != 0 {
					tr.fail("second-effect", "%s of finished transaction %d reached the database: %v", how, t.n, ev)
				}
				if how == "commit" && err == nil && t.ended != "commit" {
					tr.fail("commit-after-end", "commit of transaction %d that was rolled back succeeds", t.n)
				}
				if how != "commit" && err != nil {
					tr.fail("second-finish", "%s of finished transaction %d: %v", how, t.n, err)
				}
				m.Count("second finish", 1)
				continue
			}
			t.done = true
			kind, wantErr := "rollback", error(nil)
			if how == "commit" {
				kind = "commit"
				if fCommit {
					wantErr = errCommit
				}
			} else if fRollback {
				wantErr = errRollback
			}
			t.ended = kind
			if wantErr != nil {
				t.ended = "failed"
			}
			if len(ev) != 1 || ev[0].Kind != kind || ev[0].InTx != t.n || ev[0].Conn != t.conn {
				tr.fail("finish", "%s of transaction %d reached the database as %v", how, t.n, ev)
			}
			if (err == nil) != (wantErr == nil) || wantErr != nil && !errors.Is(err, wantErr) {
				tr.fail("finish-error", "%s of transaction %d: error %v, want %v", how, t.n, err, wantErr)
			}
			t.cancel()
			quiet()
			m.Count("finish "+how, 1)
		default: // cancellation ends the transaction with a rollback
			t := live()
			if t == nil {
				continue
			}
			t.cancel()
			t.done, t.ended = true, "rollback"
			quiet()
			ev := tr.fresh()
			say("cancel tx%d", t.n)
			if len(ev) != 1 || ev[0].Kind != "rollback" || ev[0].InTx != t.n {
				tr.fail("cancel", "cancelling transaction %d reached the database as %v", t.n, ev)
			}
			m.Count("cancelled", 1)
		}
	}
	fBegin, fCommit, fRollback, fStmt = false, false, false, false
	for _, t := range txs {
		if err := t.p.Close(); err != nil {
			tr.fail("close", "closing transaction %d: %v", t.n, err)
		}
		t.done = true
		t.cancel()
	}
	quiet()
	tr.fresh()
	if _, err := op(r, context.Background(), p, "LAST", 1); err != nil {
		tr.fail("parent-usable", "parent after its transactions: %v", err)
	}
	if err := p.Close(); err != nil {
		tr.fail("close", "%v", err)
	}
	m.State("shape", len(txs), steps)
	m.Eval(len(txs) > 0, "h", n)
}

// finishers race to finish one transaction.
func finishers(m *mon.M, n int) {
	r := m.Rand("race", n)
	db := fakedb.New(fakedb.Hooks{Query: func(context.Context, string, []any) (*fakedb.Result, error) {
		return &fakedb.Result{Cols: []string{"v"}, Rows: [][]driver.Value{{int64(1)}}}, nil
	}})
	sdb := db.SQL()
	defer func() { _ = sdb.Close() }()
	p, _ := xdb.New("fake", sdb, nil)
	defer func() { _ = p.Close() }()
	var wg sync.WaitGroup
	const workers = 4
	for g := range workers {
		seed := r.Uint64()
		wg.Go(func() {
			r := rand.New(rand.NewPCG(seed, uint64(g)))
			for i := range 4 {
				ctx, cancel := context.WithCancel(context.Background())
				t, err := p.BeginTx(ctx, nil)
				if err != nil {
					m.Fail("race-begin", "%v", err)
					cancel()
					return
				}
				tag := fmt.Sprintf("g%d.%d", g, i)
				if _, err := op(r, ctx, t, tag, 1); err != nil {
					m.Fail("race-stmt", "%v", err)
				}
				var ends sync.WaitGroup
				var mu sync.Mutex
				commits := 0
				k := 2 + r.IntN(4)
				acts := make([]int, k)
				for j := range acts {
					acts[j] = r.IntN(4)
				}
				for _, a := range acts {
					ends.Go(func() {
						switch a {
						case 0:
							if t.Commit() == nil {
								mu.Lock()
								commits++
								mu.Unlock()
							}
						case 1:
							if err := t.Rollback(); err != nil {
								m.Fail("race-rollback", "%v", err)
							}
						case 2:
							if err := t.Close(); err != nil {
								m.Fail("race-close", "%v", err)
							}
						case 3:
							cancel()
						}
					})
				}
				ends.Wait()
				_ = t.Close()
				cancel()
				// what did the database see?
				deadline := time.Now().Add(5 * time.Second)
				var nc, nr int
				for {
					nc, nr = 0, 0
					num := 0
					for _, e := range db.Events() {
						if e.SQL == tag {
							num = e.InTx
						}
						if num != 0 && e.InTx == num {
							switch e.Kind {
							case "commit":
								nc++
							case "rollback":
								nr++
							}
						}
					}
					if num == 0 {
						m.Fail("outside-tx", "statement %s ran outside its transaction", tag)
					}
					if nc+nr > 0 || time.Now().After(deadline) {
						break
					}
					time.Sleep(100 * time.Microsecond)
				}
				if nc+nr != 1 || nc != commits {
					m.Fail("race-finish", "racing %v (0 commit, 1 rollback, 2 close, 3 cancel): %d successful commits, database saw %d commits, %d rollbacks", acts, commits, nc, nr)
				}
				m.State("race", nc, nr, fmt.Sprint(acts))
				m.Count("raced finishes", 1)
				m.Eval(true, "r", n, g, i)
			}
		})
	}
	wg.Wait()
}

func TestC21(t *testing.T) {
	mon.Run(t, "C21", "a history with at least one transaction", func(m *mon.M) {
		for n := 0; n < m.N(3000, 60000) && !m.Failed(); n++ {
			histories(m, n)
		}
		for n := 0; n < m.N(150, 3000) && !m.Failed(); n++ {
			finishers(m, n)
		}
		for n := 0; n < m.N(150, 2500) && !m.Failed(); n++ {
			sqliteHistory(m, t, n)
		}
		for _, k := range []string{"statements inside", "statements outside", "statements after the end", "second finish", "finish commit", "finish rollback", "finish close", "cancelled", "refused", "begin failures", "ids drawn", "sqlite commits", "sqlite rollbacks", "sqlite outside reads"} {
			m.Need(k, 50)
		}
		m.Need("sqlite refused commits", 5)
	})
}
