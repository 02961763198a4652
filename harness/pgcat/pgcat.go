// Package pgcat serves a catalog over the PostgreSQL and SQL Server wire protocols and runs
// the command line tool, built from the code under test, against it.
package pgcat

import (
	"bytes"
	"context"
	"database/sql/driver"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"verif/catalog"
	"verif/pgfake"
	"verif/tdsfake"
)

// Server serves one catalog as a PostgreSQL or an SQL Server database.
type Server struct {
	PG      *pgfake.Server
	MS      *tdsfake.Server
	Cat     *catalog.Catalog
	Queries atomic.Int64
	// FailAt makes the statements from the k-th on fail, in the way How says:
	// error, fatal, drop, rows (an error after the rows).
	FailAt int
	How    string
	// Once makes the k-th statement alone fail; FailOn fails the statements of one kind.
	Once   bool
	FailOn string
	Hit    atomic.Bool

	seed uint64
	mu   sync.Mutex // the emulation is one SQLite connection
}

// Serve starts a server that hands rows out in random orders.
func Serve(cat *catalog.Catalog, seed uint64) *Server {
	s := &Server{Cat: cat, seed: seed}
	if cat.Kind == "sqlserver" {
		s.MS = tdsfake.New()
		s.MS.Handle = s.tds
		return s
	}
	s.PG = pgfake.New()
	s.PG.Handle = s.pg
	s.PG.Start()
	return s
}

// answer gives the columns and rows of a statement and whether it is to fail.
func (s *Server) answer(q string, args []any, describe bool) (cols []string, rows [][]any, fail bool, err error) {
	s.mu.Lock()
	_, cols, l, err := s.Cat.Answer(q, args)
	s.mu.Unlock()
	if err != nil || describe {
		return cols, nil, false, err
	}
	n := int(s.Queries.Add(1))
	for _, r := range catalog.Shuffle(rand.New(rand.NewPCG(s.seed, uint64(n))), l) {
		rows = append(rows, values(r))
	}
	fail = s.FailAt > 0 && (n == s.FailAt || n > s.FailAt && !s.Once)
	fail = fail || s.FailOn != "" && catalog.Kind(q) == s.FailOn
	if fail {
		s.Hit.Store(true)
	}
	return
}

func (s *Server) pg(_ *pgfake.Session, q string, args []any, describe bool) pgfake.Result {
	if catalog.Kind(q) == "" {
		return pgfake.Result{Tag: "SET"}
	}
	cols, rows, fail, err := s.answer(q, args, describe)
	if err != nil {
		return pgfake.Result{Err: &pgfake.Error{Code: "42601", Msg: err.Error()}}
	}
	res := pgfake.Result{Rows: rows, Tag: fmt.Sprintf("SELECT %d", len(rows))}
	for _, c := range cols {
		res.Cols = append(res.Cols, pgfake.Col{Name: c, OID: pgfake.Text})
	}
	if fail {
		e := &pgfake.Error{Code: "57P03", Msg: "injected failure"}
		switch s.How {
		case "fatal":
			e.Fatal = true
			res = pgfake.Result{Cols: res.Cols, Err: e}
		case "drop":
			res.Drop, res.DropAfter = true, len(res.Rows)/2
		case "rows":
			res.Err, res.ErrAfter = e, len(res.Rows)
		default:
			res = pgfake.Result{Cols: res.Cols, Err: e}
		}
	}
	return res
}

func (s *Server) tds(st tdsfake.Statement) tdsfake.Result {
	if catalog.Kind(st.SQL) == "" {
		return tdsfake.Result{}
	}
	cols, rows, fail, err := s.answer(st.SQL, st.Args, false)
	if err != nil {
		return tdsfake.Result{Err: err.Error()}
	}
	res := tdsfake.Result{Cols: cols, Rows: rows}
	if fail {
		switch s.How {
		case "drop":
			res.Drop = true
		case "rows":
			res.Err = "injected failure"
		default:
			res = tdsfake.Result{Err: "injected failure"}
		}
	}
	return res
}

// Source is the connection string of the server.
func (s *Server) Source() string {
	if s.MS != nil {
		return "sqlserver://user:secret@" + s.MS.Addr() + "?encrypt=disable"
	}
	return "postgres://user:secret@" + s.PG.Addr() + "?sslmode=disable"
}

// Databases lists the databases clients logged in to.
func (s *Server) Databases() (l []string) {
	if s.MS != nil {
		for _, x := range s.MS.Logins() {
			l = append(l, x.Database)
		}
		return
	}
	for _, x := range s.PG.Sessions() {
		l = append(l, x.Params["database"])
	}
	return
}

// Reject makes logins fail.
func (s *Server) Reject() {
	if s.MS != nil {
		s.MS.Reject.Store(true)
		return
	}
	s.PG.Accept = func(*pgfake.Session) *pgfake.Error {
		return &pgfake.Error{Code: "28P01", Msg: "password authentication failed"}
	}
}

// Refuse makes the server drop every connection at once.
func (s *Server) Refuse() {
	if s.MS != nil {
		s.MS.Refuse.Store(true)
		return
	}
	s.PG.Refuse(true)
}

// Close stops the server.
func (s *Server) Close() {
	if s.MS != nil {
		s.MS.Close()
		return
	}
	s.PG.Close()
}

func values(r []driver.Value) []any {
	o := make([]any, len(r))
	for i, v := range r {
		switch x := v.(type) {
		case bool:
			o[i] = fmt.Sprint(x)
		case int64:
			o[i] = fmt.Sprint(x)
		default:
			o[i] = v
		}
	}
	return o
}

// Build compiles the tool into dir.
func Build(dir string) (string, error) {
	bin := filepath.Join(dir, "xdbcli")
	c := exec.Command("go", "build", "-o", bin, "./cmd/xdbcli")
	c.Dir = "/repo"
	if out, err := c.CombinedOutput(); err != nil {
		return "", fmt.Errorf("%w: %s", err, out)
	}
	return bin, nil
}

// Out is how a run ended.
type Out struct {
	Code           int
	Stdout, Stderr string
	Hung           bool
}

// Exec runs the tool in a folder; stdout, when given, replaces its standard output.
func Exec(bin, dir string, env []string, stdout *os.File, args ...string) Out {
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Dir = dir
	c.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir}, env...)
	var o, e bytes.Buffer
	c.Stderr = &e
	if stdout != nil {
		c.Stdout = stdout
	} else {
		c.Stdout = &o
	}
	err := c.Run()
	res := Out{Stdout: o.String(), Stderr: e.String(), Hung: ctx.Err() != nil}
	if c.ProcessState != nil {
		res.Code = c.ProcessState.ExitCode()
	} else {
		res.Code, res.Stderr = -2, err.Error()
	}
	return res
}
