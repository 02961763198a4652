package provt

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/effective-security/xdb"

	"verif/fakedb"
	"verif/mon"
)

var (
	errPing  = errors.New("injected: ping failed")
	errClose = errors.New("injected: close failed")
)

// background lists the goroutines that run code of the library but were not
// started by the harness for itself.
func background() []string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var l []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "effective-security/xdb") && !strings.Contains(g, "verif/provt.background") {
			l = append(l, g)
		}
	}
	return l
}

// lifetime drives one provider through virtual time.
func lifetime(m *mon.M, n int) {
	r := m.Rand("life", n)
	var mu sync.Mutex
	pingErr, pingHang := error(nil), time.Duration(0)
	var closeErr error
	start := time.Now()
	var pings []time.Duration
	db := fakedb.New(fakedb.Hooks{
		Ping: func(ctx context.Context, _ int) error {
			mu.Lock()
			err, hang := pingErr, pingHang
			pings = append(pings, time.Since(start))
			mu.Unlock()
			if hang > 0 {
				select {
				case <-time.After(hang):
				case <-ctx.Done():
					return ctx.Err()
				}
			}
			return err
		},
		Close: func(int) error { mu.Lock(); defer mu.Unlock(); return closeErr },
		Query: func(context.Context, string, []any) (*fakedb.Result, error) {
			return &fakedb.Result{Cols: []string{"v"}, Rows: [][]driver.Value{{int64(1)}}}, nil
		},
	})
	sdb := db.SQL()
	if r.IntN(3) == 0 {
		sdb.SetMaxOpenConns(1 + r.IntN(2))
	}
	var hist []string
	say := func(f string, a ...any) {
		hist = append(hist, fmt.Sprintf("%v ", time.Since(start))+fmt.Sprintf(f, a...))
	}
	fail := func(fp, f string, a ...any) { m.Fail(fp, "%s\nhistory: %v", fmt.Sprintf(f, a...), hist) }
	count := func() int { mu.Lock(); defer mu.Unlock(); return len(pings) }

	p, err := xdb.New("fake", sdb, nil)
	if err != nil {
		fail("new", "%v", err)
		return
	}
	var held []xdb.Provider // open transactions
	busy := func() bool { return sdb.Stats().MaxOpenConnections > 0 && len(held) >= sdb.Stats().MaxOpenConnections }
	for range 1 + r.IntN(8) {
		mu.Lock()
		pingErr, pingHang = nil, 0
		switch r.IntN(5) {
		case 0:
			pingErr = fakedb.Odd(errPing, n)
		case 1:
			pingErr = driver.ErrBadConn
		case 2:
			pingHang = time.Duration(r.IntN(200)) * time.Second
		}
		say("pings: %v, hang %v", pingErr, pingHang)
		mu.Unlock()
		switch r.IntN(6) {
		case 0:
			if busy() {
				continue
			}
			if _, err := op(r, context.Background(), p, "Q", 1); err != nil {
				fail("query", "%v", err)
			}
			say("query")
		case 1:
			if busy() {
				continue
			}
			t, err := p.BeginTx(context.Background(), nil)
			if err != nil {
				fail("begin", "%v", err)
				continue
			}
			held = append(held, t)
			say("begin")
		case 2:
			if len(held) > 0 {
				t := held[0]
				held = held[1:]
				end := ""
				switch r.IntN(4) {
				case 0:
					end = "commit, "
					if err := t.Commit(); err != nil {
						fail("tx-commit", "%v", err)
					}
				case 1:
					end = "rollback, "
					if err := t.Rollback(); err != nil {
						fail("tx-rollback", "%v", err)
					}
				}
				closes := 1 + r.IntN(3)
				if end != "" {
					closes-- // an ended transaction has nothing to close
				}
				for k := range closes {
					if err := t.Close(); err != nil {
						fail("tx-close", "%sclose %d of a transaction: %v", end, k+1, err)
					}
				}
				say("tx %sclosed %d times", end, closes)
				m.Count("closed transactions", 1)
			}
		default:
			// a pool without a free connection cannot be pinged
			before, free := count(), !busy()
			d := time.Duration(5+r.IntN(30)) * time.Minute
			time.Sleep(d)
			say("slept %v, %d pings", d, count()-before)
			// at least one ping in any five minutes
			if free && count()-before < int(d/(5*time.Minute)) {
				fail("keep-alive", "only %d pings in %v while the provider is open", count()-before, d)
			}
			m.Count("virtual minutes open", int(d/time.Minute))
		}
	}
	// close, perhaps failing, perhaps by several at once, perhaps exactly when a ping is due
	mu.Lock()
	pingHang = time.Duration(r.IntN(2)*r.IntN(100)) * time.Second
	if r.IntN(3) == 0 {
		closeErr = fakedb.Odd(errClose, n)
	}
	failing := closeErr != nil
	mu.Unlock()
	aligned := r.IntN(2) == 0
	if !aligned {
		time.Sleep(300 * time.Millisecond)
	} else {
		// the next multiple of a minute since the start
		time.Sleep(time.Minute - time.Since(start)%time.Minute)
	}
	idle := sdb.Stats().Idle
	say("close, idle %d, failing %v", idle, failing)
	closers := 1
	if r.IntN(2) == 0 {
		closers = 2 + r.IntN(3)
	}
	var wg sync.WaitGroup
	errs := make([]error, closers)
	users := r.IntN(3)
	if closers > 1 {
		for g := range users {
			seed := r.Uint64()
			wg.Go(func() {
				r := rand.New(rand.NewPCG(seed, uint64(g)))
				ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
				defer cancel()
				for range 3 {
					if r.IntN(2) == 0 {
						_, _ = op(r, ctx, p, "Q", 1)
					} else if t, err := p.BeginTx(ctx, nil); err == nil {
						_ = t.Close()
					}
					_ = p.NextID
				}
			})
		}
	}
	for i := range closers {
		wg.Go(func() {
			defer func() {
				if x := recover(); x != nil {
					fail("close-panic", "%v", x)
				}
			}()
			errs[i] = p.Close()
		})
	}
	wg.Wait()
	nerr := 0
	for _, e := range errs {
		if e != nil {
			nerr++
			if !errors.Is(e, errClose) {
				fail("close-error", "%v", e)
			}
		}
	}
	if !failing && nerr > 0 {
		fail("close-error", "closing reports %v", errs)
	}
	if failing && !aligned && idle > 0 && closers == 1 && users == 0 && nerr == 0 {
		fail("close-hidden", "a failed close of %d idle connections is not reported", idle)
	}
	if nerr > 0 {
		m.Count("failed closes", 1)
	}
	// transactions of a closed provider still finish; then nothing is left
	mu.Lock()
	closeErr = nil
	mu.Unlock()
	for _, t := range held {
		if err := t.Close(); err != nil {
			fail("tx-close", "after the parent was closed: %v", err)
		}
	}
	for range 1 + r.IntN(3) {
		if err := p.Close(); err != nil {
			fail("close-again", "closing again: %v", err)
		}
	}
	time.Sleep(5 * time.Minute) // hanging pings come to an end
	synctest.Wait()
	if c := db.OpenConns(); c != 0 {
		fail("conns-left", "%d connections left", c)
	}
	if c := db.OpenTx(); c != 0 && len(held) == 0 {
		fail("tx-left", "%d transactions left", c)
	}
	closed := map[int]int{}
	for _, e := range db.Events() {
		if e.Kind == "close" {
			closed[e.Conn]++
			if closed[e.Conn] > 1 {
				fail("closed-twice", "connection %d closed twice", e.Conn)
			}
		}
	}
	if l := background(); len(l) > 0 {
		fail("goroutine-left", "background activity after close: %s", strings.Join(l, "\n\n"))
	}
	before := count()
	time.Sleep(20 * time.Minute)
	if c := count(); c != before {
		fail("ping-after-close", "%d pings after close", c-before)
	}
	if t, err := p.BeginTx(context.Background(), nil); err == nil {
		fail("use-after-close", "a transaction began after close")
		_ = t.Close()
	}
	if _, err := op(r, context.Background(), p, "Q", 1); err == nil {
		fail("use-after-close", "a query succeeded after close")
	}
	if db.OpenConns() != 0 {
		fail("conns-left", "%d connections opened after close", db.OpenConns())
	}
	m.Count("providers", 1)
	m.Count("pings", before)
	m.State("life", len(hist), closers, failing, before > 0, len(held))
	m.Eval(true, n)
}

func TestC22(t *testing.T) {
	mon.Run(t, "C22", "the life of one provider in virtual time, or a failed attempt to open one", func(m *mon.M) {
		for n := 0; n < m.N(1500, 30000) && !m.Failed(); n++ {
			synctest.Test(t, func(*testing.T) { lifetime(m, n) })
		}
		m.Need("providers", 1000)
		m.Need("pings", 5000)
		m.Need("failed closes", 50)
	})
}
