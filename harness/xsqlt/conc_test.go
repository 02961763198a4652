package xsqlt

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/effective-security/xdb/xsql"

	"verif/fakedb"
	"verif/mon"
	"verif/prog"
)

type failKey struct{}

var errStress = errors.New("stress: refused")

// echo answers a query with the SQL text, the arguments and three numbered rows.
func echo(ctx context.Context, q string, args []any) (*fakedb.Result, error) {
	switch ctx.Value(failKey{}) {
	case "error":
		return nil, errStress
	case "empty":
		return &fakedb.Result{Cols: []string{"sql", "args", "n"}}, nil
	case "scan":
		return &fakedb.Result{Cols: []string{"sql", "args", "n"}, Rows: [][]driver.Value{{q, nil, "x"}}}, nil
	}
	r := &fakedb.Result{Cols: []string{"sql", "args", "n"}}
	for i := 0; i < 3; i++ {
		r.Rows = append(r.Rows, []driver.Value{q, fmt.Sprint(args), int64(i)})
	}
	return r, nil
}

type expect struct {
	p    *prog.Prog
	text string
	args string
	n    int
}

func TestC05(t *testing.T) {
	mon.Run(t, "C05",
		"a case is one statement built, rendered, cloned, executed and closed by one of many goroutines that share the query cache and object pools; its SQL, arguments and rows are compared with those of a sequential build; race detector on; non-trivial: it ran while other goroutines were inside the builder",
		func(m *mon.M) {
			m.Need("statements", 20000)
			m.Need("overlaps", 2000)
			progs := corpus(m)
			for round := 0; round < m.N(4, 24); round++ {
				stress(m, round, progs)
			}
			namedRace(m)
		})
}

// corpus has programs over few fragments (shared cache entries) and random
// ones, each with the text an isolated build yields.
func corpus(m *mon.M) []expect {
	var out []expect
	alpha := small()
	add := func(p *prog.Prog) {
		w := p.Model()
		var args []any
		for _, a := range w.Args {
			if n, ok := a.(int); ok {
				a = int64(n)
			}
			args = append(args, a)
		}
		out = append(out, expect{p: p, text: uncached(p), args: fmt.Sprint(args), n: len(args)})
	}
	for i := 0; i < m.N(400, 1500); i++ {
		r := m.Rand("corpus", i)
		p := &prog.Prog{Dialect: []string{"default", "postgres", "sqlserver", "package"}[r.IntN(4)]}
		if i%2 == 0 {
			p.Ops = []prog.Op{starts()[r.IntN(8)]}
			for n := 1 + r.IntN(5); n > 0; n-- {
				p.Ops = append(p.Ops, alpha[r.IntN(len(alpha))])
			}
		} else {
			g := &prog.Gen{R: r}
			p = g.Program(r.IntN(3))
		}
		add(p)
	}
	return out
}

func stress(m *mon.M, round int, progs []expect) {
	db := fakedb.New(fakedb.Hooks{Query: echo}).Quiet()
	sdb := db.SQL()
	sdb.SetMaxOpenConns(8)
	defer sdb.Close()
	var inside, overlaps, stmts atomic.Int64
	var wg sync.WaitGroup
	workers := []int{4, 8, 16, 32}[round%4]
	each := m.N(400, 1500)
	if m.Thorough() {
		each = 1500
	}
	var mu sync.Mutex
	orders := map[uint64]bool{}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := m.Rand(fmt.Sprintf("stress/%d", round), w)
			h := uint64(0)
			for i := 0; i < each; i++ {
				e := progs[r.IntN(len(progs))]
				if inside.Add(1) > 1 {
					overlaps.Add(1)
				}
				m.Guard("concurrent", e.p, func() { one(m, r, e, sdb) })
				h = h*31 + uint64(inside.Add(-1))
				stmts.Add(1)
			}
			mu.Lock()
			orders[h] = true
			mu.Unlock()
		}()
	}
	wg.Wait()
	m.Count("statements", int(stmts.Load()))
	m.Count("overlaps", int(overlaps.Load()))
	for h := range orders {
		m.State("overlap_patterns", h)
	}
	if n := db.OpenRows(); n != 0 {
		m.Fail("rows-open", "%d result sets left open", n)
	}
}

func one(m *mon.M, r *rand.Rand, e expect, sdb *sql.DB) {
	q := e.p.Build()
	m.Eval(true, e.p.String())
	got := q.String()
	if got != e.text {
		m.Fail("text", "program: %v\n got: %q\nwant: %q", e.p, got, e.text)
		return
	}
	if len(q.Args()) != e.n {
		m.Fail("args", "program: %v\n got: %v\nwant: %v", e.p, q.Args(), e.args)
		return
	}
	ctx := context.Background()
	var c xsql.Builder
	if r.IntN(3) == 0 {
		c = q.Clone()
		if r.IntN(2) == 0 {
			runtime.Gosched()
		}
		q.Where("own = ?", "w")
	}
	switch r.IntN(7) {
	case 5, 6:
		if c != nil {
			break
		}
		failing(m, r, e, q, sdb)
		q = nil
		m.Count("failed_runs", 1)
	case 0:
		if c != nil {
			break
		}
		var s, a string
		var n int64
		rows := 0
		err := q.To(&s, &a, &n).QueryAndClose(ctx, sdb, func(*sql.Rows) {
			if s != e.text || a != e.args || n != int64(rows) {
				m.Fail("rows", "program: %v\nrow %d has %q %q %d\nwant %q %q", e.p, rows, s, a, n, e.text, e.args)
			}
			rows++
		})
		q = nil
		if err != nil || rows != 3 {
			m.Fail("query", "program: %v: %d rows, error %v", e.p, rows, err)
		}
		m.Count("queries", 1)
	case 1:
		if c != nil {
			break
		}
		var s, a string
		var n int64
		err := q.To(&s, &a, &n).QueryRowAndClose(ctx, sdb)
		q = nil
		if err != nil || s != e.text || a != e.args || n != 0 {
			m.Fail("queryrow", "program: %v: got %q %q %d %v\nwant %q %q", e.p, s, a, n, err, e.text, e.args)
		}
		m.Count("queries", 1)
	case 2:
		if c != nil {
			break
		}
		if _, err := q.ExecAndClose(ctx, sdb); err != nil {
			m.Fail("exec", "program: %v: %v", e.p, err)
		}
		q = nil
		m.Count("execs", 1)
	}
	if c != nil {
		q.Close()
		q = nil
		c.Invalidate()
		if got := c.String(); got != e.text {
			m.Fail("clone-text", "program: %v\n got: %q\nwant: %q", e.p, got, e.text)
		}
		if len(c.Args()) != e.n {
			m.Fail("clone-args", "program: %v\n got: %v\nwant: %v", e.p, c.Args(), e.args)
		}
		c.Close()
		m.Count("clones", 1)
	}
	if q != nil {
		q.Close()
	}
}

// failing runs the statement in ways that end with an error: it is released
// all the same, once.
func failing(m *mon.M, r *rand.Rand, e expect, q xsql.Builder, sdb *sql.DB) {
	how := []string{"error", "empty", "scan", "cancelled"}[r.IntN(4)]
	ctx := context.WithValue(context.Background(), failKey{}, how)
	if how == "cancelled" {
		c, cancel := context.WithCancel(ctx)
		cancel()
		ctx = c
	}
	var err error
	var s, a string
	var n int64
	call := r.IntN(3)
	switch call {
	case 0:
		err = q.To(&s, &a, &n).QueryRowAndClose(ctx, sdb)
	case 1:
		err = q.To(&s, &a, &n).QueryAndClose(ctx, sdb, func(*sql.Rows) {})
	case 2:
		_, err = q.ExecAndClose(ctx, sdb)
	}
	switch {
	case how == "cancelled" && !errors.Is(err, context.Canceled),
		how == "error" && call != 2 && !errors.Is(err, errStress),
		how == "empty" && call == 0 && !errors.Is(err, sql.ErrNoRows),
		how == "empty" && call == 1 && !errors.Is(err, sql.ErrNoRows) && err != nil,
		how == "scan" && call != 2 && err == nil:
		m.Fail("failed-run", "program: %v: %s: call %d returned %v", e.p, how, call, err)
	}
	x, y := xsql.From("fail_x").Select("a"), xsql.From("fail_y").Select("b")
	if x == y {
		m.Fail("handed-out-twice", "after a run that failed (%s, call %d) two new statements are the same object", how, call)
		return
	}
	x.Close()
	y.Close()
}

// namedRace asks for the same names from many goroutines: everybody must see
// a text that some caller registered, and later callers the same one.
func namedRace(m *mon.M) {
	for round := 0; round < m.N(60, 600); round++ {
		d := []xsql.SQLDialect{xsql.NoDialect, xsql.Postgres, xsql.SQLServer}[round%3]
		name := fmt.Sprintf("race%d", round)
		var wg sync.WaitGroup
		const workers = 8
		got := make([]string, workers)
		start := make(chan struct{})
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				s, k := d.GetOrCreateQuery(name, func(n string) xsql.Builder {
					return d.From("t").Select(n).Where("x = 1")
				})
				if k != name {
					m.Fail("named-key", "key %q for name %q", k, name)
				}
				got[w] = s
			}()
		}
		close(start)
		wg.Wait()
		want := "SELECT " + name + " FROM t WHERE x = 1"
		for _, s := range got {
			if strings.Join(strings.Fields(s), " ") != want {
				m.Fail("named", "name %q: got %q want %q", name, s, want)
			}
		}
		if !reflect.DeepEqual(got, func() []string {
			l := make([]string, workers)
			for i := range l {
				l[i] = got[0]
			}
			return l
		}()) {
			m.Fail("named-differ", "name %q: texts differ: %q", name, got)
		}
		m.Count("named_races", 1)
	}
}
