// Package flaket monitors the ID generator under scripted clocks and many callers.
package flaket

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/pkg/flake"
	"github.com/effective-security/xlog"

	"verif/mon"
)

func init() { xlog.SetGlobalLogLevel(xlog.CRITICAL) }

type noDB struct{}

func (noDB) Connect(context.Context) (driver.Conn, error) { return nil, errors.New("no database") }
func (noDB) Driver() driver.Driver                        { return nil }

// begins is a database that only begins transactions.
type begins struct{}

func (begins) Connect(context.Context) (driver.Conn, error) { return begins{}, nil }
func (begins) Driver() driver.Driver                        { return nil }
func (begins) Prepare(string) (driver.Stmt, error)          { return nil, errors.New("no statements") }
func (begins) Begin() (driver.Tx, error)                    { return begins{}, nil }
func (begins) Close() error                                 { return nil }
func (begins) Commit() error                                { return nil }
func (begins) Rollback() error                              { return nil }

// clock is the time source handed to the code under test.
type clock struct {
	mu    sync.Mutex
	t     time.Time
	step  func(n int) time.Duration // applied before each reading
	n     int
	reads int
}

func (c *clock) now() time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.step != nil {
		c.t = c.t.Add(c.step(c.n))
	}
	c.n++
	c.reads++
	return c.t
}

func (c *clock) set(t time.Time) { c.mu.Lock(); c.t = t; c.mu.Unlock() }

// peek reads without advancing the script.
func (c *clock) peek() time.Time { c.mu.Lock(); defer c.mu.Unlock(); return c.t }

func install(c *clock) func() {
	old := flake.NowFunc
	flake.NowFunc = c.now
	return func() { flake.NowFunc = old }
}

func gen(start time.Time, machine uint16) flake.IDGenerator {
	return flake.NewIDGenerator(flake.Settings{
		StartTime: start,
		MachineID: func() (uint16, error) { return machine, nil },
	})
}

var base = time.Date(2026, 3, 1, 12, 0, 0, 0, time.UTC)

// profile is a clock behaviour.
type profile struct {
	name string
	step func(r *rand.Rand) func(int) time.Duration
	conc bool // bounded backward steps: usable where sleeps are real
}

var profiles = []profile{
	{"stalled", func(*rand.Rand) func(int) time.Duration { return func(int) time.Duration { return 0 } }, true},
	{"slow", func(*rand.Rand) func(int) time.Duration {
		return func(int) time.Duration { return 7 * time.Microsecond }
	}, true},
	{"fast", func(*rand.Rand) func(int) time.Duration { return func(int) time.Duration { return time.Millisecond } }, true},
	{"jitter", func(r *rand.Rand) func(int) time.Duration {
		return func(int) time.Duration { return time.Duration(r.IntN(4001)-2000) * time.Microsecond }
	}, true},
	{"sub-ms-noise", func(r *rand.Rand) func(int) time.Duration {
		return func(int) time.Duration { return time.Duration(r.IntN(1999)-999) * time.Microsecond }
	}, true},
	{"burst-then-jump", func(r *rand.Rand) func(int) time.Duration {
		return func(n int) time.Duration {
			if n%97 == 96 {
				return time.Duration(r.IntN(3000)) * time.Millisecond
			}
			return 0
		}
	}, true},
	{"small-back", func(r *rand.Rand) func(int) time.Duration {
		return func(n int) time.Duration {
			if r.IntN(29) == 0 {
				return -time.Duration(1+r.IntN(3)) * time.Millisecond
			}
			return time.Duration(r.IntN(90)) * time.Microsecond
		}
	}, true},
	{"one-ms-saw", func(*rand.Rand) func(int) time.Duration {
		return func(n int) time.Duration {
			if n%2 == 0 {
				return time.Millisecond
			}
			return -time.Millisecond
		}
	}, true},
	{"far-back", func(r *rand.Rand) func(int) time.Duration {
		return func(n int) time.Duration {
			switch r.IntN(61) {
			case 0:
				return -time.Duration(r.IntN(7200)) * time.Second
			case 1:
				return time.Duration(r.IntN(7200)) * time.Second
			}
			return time.Duration(r.IntN(200)) * time.Microsecond
		}
	}, false},
	{"back-before-start", func(r *rand.Rand) func(int) time.Duration {
		return func(n int) time.Duration {
			if n == 40 {
				return -400 * 24 * time.Hour
			}
			return time.Duration(r.IntN(300)) * time.Microsecond
		}
	}, false},
}

func TestC08(t *testing.T) {
	mon.Run(t, "C08",
		"a case is one generator driven by one scripted clock (stall, slow, fast, jitter, jumps, backward steps, end of range) by one or many goroutines; it is non-trivial when at least 64 IDs were drawn; every returned ID is checked against all earlier ones",
		func(m *mon.M) {
			m.Need("ids", 50000)
			m.Need("sequence_wraps", 50)
			m.Need("backward_clock_steps", 100)
			sequential(t, m)
			limits(t, m)
			concurrent(m)
			realClock(m)
			providers(m)
		})
}

// sequential draws IDs in virtual time, so that the sleeps of the generator cost nothing.
func sequential(t *testing.T, m *mon.M) {
	rounds := m.N(12, 120)
	draws := m.N(700, 3000)
	for _, p := range profiles {
		for round := 0; round < rounds; round++ {
			r := m.Rand("seq/"+p.name, round)
			back := []time.Duration{0, 1, time.Millisecond, 3 * time.Millisecond, 36 * time.Hour, 300 * 24 * time.Hour}[r.IntN(6)]
			off := time.Duration(r.IntN(1_000_000_000))
			m2 := uint16(r.Uint32())
			if round%5 == 0 {
				m2 = []uint16{0, 65535, 1, 32768}[r.IntN(4)]
			}
			var ids []uint64
			synctest.Test(t, func(*testing.T) {
				c := &clock{t: base.Add(off)}
				defer install(c)()
				g := gen(base.Add(off).Add(-back), m2)
				first := flake.FirstID(g)
				ids = append(ids, first)
				c.mu.Lock()
				c.step = p.step(r)
				c.mu.Unlock()
				prev := c.peek()
				for i := 0; i < draws; i++ {
					ids = append(ids, g.NextID())
					if now := c.peek(); now.Before(prev) {
						m.Count("backward_clock_steps", 1)
						prev = now
					} else {
						prev = now
					}
				}
			})
			checkIncreasing(m, p.name, round, ids, m2)
			m.Eval(len(ids) >= 64, p.name, round, ids)
			m.State("id_sequences", ids)
			if round == 0 {
				m.Sample(map[string]any{"clock": p.name, "machine": m2, "first_ids": ids[:5], "last_id": ids[len(ids)-1], "drawn": len(ids)})
			}
		}
	}
}

func checkIncreasing(m *mon.M, name string, round int, ids []uint64, machine uint16) {
	m.Count("ids", len(ids))
	for i, id := range ids {
		if id == 0 || id>>63 != 0 {
			m.Fail("not-positive", "clock %s round %d: ID %d (index %d) is not a positive signed 64-bit number", name, round, id, i)
			return
		}
		if i > 0 && id <= ids[i-1] {
			m.Fail("not-increasing", "clock %s round %d: ID %d at index %d is not above its predecessor %d", name, round, id, i, ids[i-1])
			return
		}
		if i > 0 && id>>22 > ids[i-1]>>22 && (ids[i-1]>>16)&63 == 63 {
			m.Count("sequence_wraps", 1)
		}
		if uint16(id) != machine {
			m.Fail("machine-bits", "clock %s round %d: ID %d carries machine %d, generator has %d", name, round, id, uint16(id), machine)
			return
		}
	}
}

// limits runs generators into the end of their time range: they may refuse
// (panic) but never hand out a wrong ID.
func limits(t *testing.T, m *mon.M) {
	for k := 0; k < m.N(8, 60); k++ {
		r := m.Rand("limits", k)
		var ids []uint64
		refused := false
		synctest.Test(t, func(*testing.T) {
			left := int64(1 + r.IntN(6))
			start := base.Add(-time.Duration(int64(1)<<41-left) * time.Millisecond)
			c := &clock{t: base}
			defer install(c)()
			g := gen(start, 77)
			ids = append(ids, flake.FirstID(g))
			stepEvery := 1 + r.IntN(90)
			c.mu.Lock()
			c.step = func(n int) time.Duration {
				if n%stepEvery == stepEvery-1 {
					return time.Millisecond
				}
				return 0
			}
			c.mu.Unlock()
			func() {
				defer func() {
					if recover() != nil {
						refused = true
					}
				}()
				for i := 0; i < 2500; i++ {
					ids = append(ids, g.NextID())
				}
			}()
		})
		checkIncreasing(m, "end-of-range", k, ids, 77)
		if !refused {
			m.Fail("no-refusal", "generator kept numbering past the end of its time range: last %d", ids[len(ids)-1])
		}
		m.Count("range_end_refusals", 1)
		m.Eval(true, "limit", k, ids)
	}
}

type op struct {
	start, end int64
	id         uint64
}

func checkHistory(m *mon.M, what string, ops []op) {
	m.Count("ids", len(ops))
	byEnd := append([]op(nil), ops...)
	sort.Slice(byEnd, func(i, j int) bool { return byEnd[i].end < byEnd[j].end })
	byStart := append([]op(nil), ops...)
	sort.Slice(byStart, func(i, j int) bool { return byStart[i].start < byStart[j].start })
	seen := make(map[uint64]struct{}, len(ops))
	for _, o := range ops {
		if o.id == 0 || o.id>>63 != 0 {
			m.Fail("not-positive", "%s: ID %d is not positive", what, o.id)
			return
		}
		if _, ok := seen[o.id]; ok {
			m.Fail("duplicate", "%s: ID %d was returned twice", what, o.id)
			return
		}
		seen[o.id] = struct{}{}
	}
	var max uint64
	j := 0
	for _, o := range byStart {
		for j < len(byEnd) && byEnd[j].end < o.start {
			if byEnd[j].id > max {
				max = byEnd[j].id
			}
			j++
		}
		if o.id <= max {
			m.Fail("order", "%s: a call that began after ID %d had been returned got the smaller ID %d", what, max, o.id)
			return
		}
	}
}

func drive(g interface{ NextID() uint64 }, workers, each int) []op {
	var tick atomic.Int64
	res := make([][]op, workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			l := make([]op, 0, each)
			for i := 0; i < each; i++ {
				s := tick.Add(1)
				id := g.NextID()
				l = append(l, op{s, tick.Add(1), id})
			}
			res[w] = l
		}()
	}
	close(start)
	wg.Wait()
	var all []op
	for _, l := range res {
		all = append(all, l...)
	}
	return all
}

func overlap(ops []op) int {
	// number of calls that overlapped with another one
	s := append([]op(nil), ops...)
	sort.Slice(s, func(i, j int) bool { return s[i].start < s[j].start })
	n := 0
	var maxEnd int64
	for _, o := range s {
		if o.start < maxEnd {
			n++
		}
		if o.end > maxEnd {
			maxEnd = o.end
		}
	}
	return n
}

func concurrent(m *mon.M) {
	m.Need("overlapping_calls", 1000)
	for _, p := range profiles {
		if !p.conc {
			continue
		}
		for round := 0; round < m.N(4, 40); round++ {
			r := m.Rand("conc/"+p.name, round)
			c := &clock{t: base}
			undo := install(c)
			machine := uint16(r.Uint32())
			g := gen(base.Add(-time.Hour), machine)
			first := flake.FirstID(g)
			c.mu.Lock()
			c.step = p.step(r)
			c.mu.Unlock()
			workers := []int{2, 3, 8, 16}[r.IntN(4)]
			ops := drive(g, workers, m.N(60, 120))
			undo()
			what := fmt.Sprintf("clock %s, %d goroutines, round %d", p.name, workers, round)
			checkHistory(m, what, ops)
			for _, o := range ops {
				if o.id <= first {
					m.Fail("order", "%s: ID %d is not above the first ID %d of the generator", what, o.id, first)
				}
				if uint16(o.id) != machine {
					m.Fail("machine-bits", "%s: ID %d carries machine %d instead of %d", what, o.id, uint16(o.id), machine)
				}
			}
			m.Count("overlapping_calls", overlap(ops))
			m.Eval(len(ops) >= 64, what, ops)
			m.State("call_orders", ops)
		}
	}
}

func realClock(m *mon.M) {
	for round := 0; round < m.N(3, 20); round++ {
		a, b := gen(time.Time{}, uint16(2*round)), gen(time.Time{}, uint16(2*round+1))
		var oa, ob []op
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); oa = drive(a, 4, m.N(3000, 6000)) }()
		go func() { defer wg.Done(); ob = drive(b, 4, m.N(3000, 6000)) }()
		wg.Wait()
		checkHistory(m, "real clock A", oa)
		checkHistory(m, "real clock B", ob)
		seen := map[uint64]bool{}
		for _, o := range oa {
			seen[o.id] = true
		}
		for _, o := range ob {
			if seen[o.id] {
				m.Fail("cross-machine", "generators %d and %d both returned %d", 2*round, 2*round+1, o.id)
			}
		}
		m.Count("overlapping_calls", overlap(oa)+overlap(ob))
		m.Eval(true, "real", round, len(oa), oa[len(oa)-1].id)
	}
}

type provGen struct{ p *xdb.SQLProvider }

func (g provGen) NextID() uint64 { return g.p.NextID().UInt64() }

// providers draws IDs through database providers: a shared generator stays
// unique across every provider that uses it.
func providers(m *mon.M) {
	for round := 0; round < m.N(2, 10); round++ {
		shared := gen(time.Time{}, uint16(900+round))
		var g []provGen
		for i := 0; i < 3; i++ {
			db := sql.OpenDB(noDB{})
			var ig flake.IDGenerator = shared
			if round%2 == 1 {
				ig = nil // the process-wide default generator
			}
			p, err := xdb.New("postgres", db, ig)
			if err != nil {
				m.Fail("provider", "provider not created: %v", err)
				return
			}
			g = append(g, provGen{p})
			defer p.Close()
		}
		all := multi{g: g}
		ops := drive(&all, 6, m.N(700, 2000))
		checkHistory(m, "providers sharing one generator", ops)
		m.Eval(true, "prov", round, ops[0].id)
	}
}

type multi struct {
	g []provGen
	n atomic.Int64
}

func (x *multi) NextID() uint64 { return x.g[int(x.n.Add(1))%len(x.g)].NextID() }

func TestC09(t *testing.T) {
	mon.Run(t, "C09",
		"a case is one ID drawn under a scripted clock reading, start time and machine number; non-trivial when the clock reading is known exactly; parts, recomposition, time and order are compared with the script",
		func(m *mon.M) {
			m.Need("ids", 20000)
			m.Need("exact_times", 5000)
			decompose(m)
			refused(m)
			times(t, m)
			lastConcurrent(m)
			hosts(t, m)
		})
}

// hosts draws IDs on hosts with addresses of their own, where no machine number is given.
func hosts(t *testing.T, m *mon.M) {
	bin := filepath.Join(t.TempDir(), "host")
	build := exec.Command("go", "build", "-o", bin, "./flaket/host")
	build.Dir = filepath.Join(mon.Dir(), "harness")
	if out, err := build.CombinedOutput(); err != nil {
		t.Fatalf("%v\n%s", err, out)
	}
	r := m.Rand("hosts", 0)
	for i := 0; i < m.N(24, 200); i++ {
		var addrs []string
		machines := map[uint64]bool{}
		for j := 0; j < []int{1, 1, 1, 2}[i%4]; j++ {
			x := uint64(r.Uint32() & 0xffff)
			machines[x] = true
			switch r.IntN(4) {
			case 0:
				addrs = append(addrs, fmt.Sprintf("fd%02x::%x:%x/128", r.IntN(256), r.IntN(65536), x))
			case 1:
				addrs = append(addrs, fmt.Sprintf("192.168.%d.%d/24", x>>8, x&255))
			default:
				addrs = append(addrs, fmt.Sprintf("10.%d.%d.%d/8", r.IntN(256), x>>8, x&255))
			}
		}
		if i == 5 {
			addrs, machines = []string{"none"}, nil
		}
		what := fmt.Sprintf("a host with addresses %v", addrs)
		c := exec.Command(bin, addrs...)
		c.Args[0] = "host"
		c.SysProcAttr = &syscall.SysProcAttr{Cloneflags: syscall.CLONE_NEWUSER | syscall.CLONE_NEWNET,
			UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
			GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}}}
		out, err := c.Output()
		if c.ProcessState == nil || c.ProcessState.ExitCode() == 3 {
			m.Assume(fmt.Sprintf("no host of its own can be had here (%v %s): the default machine number is not checked", err, out))
			return
		}
		ids := make([]uint64, 4)
		if _, serr := fmt.Sscan(string(out), &ids[0], &ids[1], &ids[2], &ids[3]); err != nil || serr != nil {
			m.Fail("default-generator", "%s: %v %s", what, err, out)
			continue
		}
		for k, id := range ids {
			checkParts(m, id, -1)
			x := flake.Decompose(id)["machine_id"]
			if machines != nil && !machines[x] {
				m.Fail("default-machine", "%s: ID %d is of machine %d (%d.%d)", what, id, x, x>>8, x&255)
			}
			if x != flake.Decompose(ids[0])["machine_id"] {
				m.Fail("default-machine", "%s: IDs %v of different machines", what, ids)
			}
			if got := time.Since(flake.IDTime(flake.DefaultIDGenerator, id)); got < -time.Minute || got > 10*time.Minute {
				m.Fail("default-start", "%s: ID %d was created %v ago", what, id, got)
			}
			if k%2 == 1 && id <= ids[k-1] {
				m.Fail("default-order", "%s: IDs %v", what, ids)
			}
		}
		m.Count("hosts", 1)
		m.Eval(true, what)
	}
}

// refused tries settings for which no generator may exist.
func refused(m *mon.M) {
	r := m.Rand("refused", 0)
	c := &clock{t: base.Add(123456789)}
	defer install(c)()
	try := func(what string, ok bool, st flake.Settings) {
		var g flake.IDGenerator
		p := func() (p any) {
			defer func() { p = recover() }()
			g = flake.NewIDGenerator(st)
			return
		}()
		switch {
		case ok && p != nil:
			m.Fail("not-created", "%s: no generator: %v", what, p)
		case !ok && p == nil:
			m.Fail("created", "%s: a generator was created, its first ID is %d", what, flake.FirstID(g))
		}
		m.Count("settings", 1)
		m.Eval(!ok, what)
	}
	for i := 0; i < 200; i++ {
		mach := uint16(r.Uint32())
		if i%3 != 0 {
			mach = []uint16{0, 1, 255, 256, 1<<15 - 1, 1 << 15, 65534, 65535}[r.IntN(8)]
		}
		id := func() (uint16, error) { return mach, nil }
		ahead := time.Duration(1) << r.IntN(52)
		if i%4 == 0 {
			ahead = 0
		}
		zone := time.FixedZone("z", r.IntN(24*3600)-12*3600)
		try(fmt.Sprintf("start %v ahead of the clock", ahead), ahead == 0, flake.Settings{StartTime: c.peek().Add(ahead).In(zone), MachineID: id})
		try("machine number unavailable", false, flake.Settings{MachineID: func() (uint16, error) { return mach, errors.New("unavailable") }})
		bad := uint16(r.Uint32())
		if i%4 < 2 {
			bad = mach
		}
		asked := -1
		try(fmt.Sprintf("machine number %d, refused is %d", mach, bad), mach != bad, flake.Settings{MachineID: id, CheckMachineID: func(x uint16) bool { asked = int(x); return x != bad }})
		if asked != int(mach) {
			m.Fail("check", "machine number %d, checked was %d", mach, asked)
		}
	}
	m.Need("settings", 600)
}

func checkParts(m *mon.M, id uint64, machine int) {
	d := flake.Decompose(id)
	re := d["msb"]<<63 | d["time"]<<22 | d["sequence"]<<16 | d["machine_id"]
	if d["id"] != id || re != id {
		m.Fail("recompose", "ID %d decomposes to %v, which recomposes to %d", id, d, re)
	}
	if d["sequence"] > 63 || d["machine_id"] > 65535 || d["msb"] > 1 {
		m.Fail("ranges", "ID %d decomposes out of range: %v", id, d)
	}
	if machine >= 0 && d["machine_id"] != uint64(machine) {
		m.Fail("machine", "ID %d of machine %d decomposes to machine %d", id, machine, d["machine_id"])
	}
}

func decompose(m *mon.M) {
	r := m.Rand("decompose", 0)
	for i := 0; i < m.N(5000, 100000); i++ {
		id := r.Uint64()
		if i%3 == 0 {
			id = 1 << r.IntN(64)
		}
		if i%7 == 0 {
			id--
		}
		id &= 1<<63 - 1
		checkParts(m, id, int(uint16(id)))
		d := flake.Decompose(id)
		if d["time"] != id>>22 || d["sequence"] != (id>>16)&63 {
			m.Fail("parts", "ID %#x decomposes to %v", id, d)
		}
		m.Eval(true, id)
	}
}

func times(t *testing.T, m *mon.M) {
	starts := []time.Time{
		{}, flake.DefaultStartTime,
		time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC),
		time.Date(2001, 9, 9, 1, 46, 40, 123456789, time.UTC),
		time.Date(2020, 2, 29, 23, 59, 59, 999999999, time.FixedZone("x", -7*3600)),
		base.Add(-time.Nanosecond), base,
	}
	for si, start := range starts {
		for round := 0; round < m.N(24, 240); round++ {
			r := m.Rand(fmt.Sprintf("times/%d", si), round)
			machine := uint16(r.Uint32())
			synctest.Test(t, func(*testing.T) {
				c := &clock{t: base.Add(time.Duration(r.IntN(999_999_999)))}
				if round%4 == 3 { // far in the future, near the end of the range
					from := start
					if from.IsZero() {
						from = flake.DefaultStartTime
					}
					c.t = from.Add(time.Duration(int64(1)<<41)*time.Millisecond - time.Duration(400+r.IntN(300))*24*time.Hour)
				}
				defer install(c)()
				t0 := c.peek()
				g := gen(start, machine)
				first := flake.FirstID(g)
				db := sql.OpenDB(noDB{})
				_ = db.Close()
				checkParts(m, first, int(machine))
				if si != len(starts)-1 || t0.After(base) {
					if got := flake.IDTime(g, first); got.Before(t0.Truncate(time.Millisecond)) || (start.IsZero() || t0.Sub(start) >= 2*time.Millisecond) && !got.Equal(t0.Truncate(time.Millisecond)) {
						m.Fail("first-time", "start %v: first ID %d reports time %v, the clock read %v", start, first, got, t0)
					}
				}
				if flake.LastID(g) != first {
					m.Fail("last", "a new generator reports first ID %d but last ID %d", first, flake.LastID(g))
				}
				prevID, prevT := first, flake.IDTime(g, first)
				lastMs := prevT
				burst := 0
				for i := 0; i < m.N(300, 1000); i++ {
					var d time.Duration
					k := r.IntN(8)
					if burst > 0 { // more IDs than one tick has, at one reading
						burst--
						i--
						k = 3
					} else if r.IntN(250) == 0 {
						burst = 1<<flake.BitLenSequence + r.IntN(1<<flake.BitLenSequence)
						m.Count("bursts", 1)
					}
					switch k {
					case 0:
						d = time.Duration(r.IntN(1000)) * time.Microsecond
					case 1:
						d = -time.Duration(r.IntN(5)) * time.Millisecond
					case 2:
						d = time.Duration(r.IntN(86400_000)) * time.Millisecond
					case 3:
						d = 0
					default:
						d = time.Duration(1_000_000 + r.IntN(5_000_000))
					}
					c.set(c.peek().Add(d))
					reading := c.peek()
					id := g.NextID()
					got := flake.IDTime(g, id)
					ms := reading.Truncate(time.Millisecond)
					m.Count("ids", 1)
					checkParts(m, id, int(machine))
					if got.Before(ms) {
						m.Fail("time-early", "start %v: ID %d reports %v, before the clock reading %v at its creation", start, id, got, reading)
					}
					if ms.After(lastMs) {
						m.Count("exact_times", 1)
						if !got.Equal(ms) {
							m.Fail("time", "start %v: ID %d reports time %v, the clock read %v", start, id, got, reading)
						}
					}
					if got.After(lastMs) {
						lastMs = got
					}
					if got.Location() != time.UTC {
						m.Fail("time-zone", "time of ID %d is not in UTC: %v", id, got)
					}
					if id > prevID && got.Before(prevT) || id <= prevID {
						m.Fail("time-order", "ID %d (%v) after ID %d (%v)", id, got, prevID, prevT)
					}
					if flake.LastID(g) != id {
						m.Fail("last", "LastID is %d after %d was returned", flake.LastID(g), id)
					}
					if flake.FirstID(g) != first {
						m.Fail("first", "FirstID changed from %d to %d", first, flake.FirstID(g))
					}
					m.Eval(ms.After(prevT), si, round, i, id)
					prevID, prevT = id, got
				}
				if round == 0 {
					m.Sample(map[string]any{"start": start.String(), "machine": machine, "first": first, "last": prevID, "last_time": prevT.String(), "parts": flake.Decompose(prevID)})
				}
			})
			// through a provider
			g := gen(start, machine)
			p, err := xdb.New("postgres", sql.OpenDB(begins{}), g)
			if err != nil {
				m.Fail("provider", "not created: %v", err)
				return
			}
			tx, err := p.BeginTx(context.Background(), nil)
			if err != nil {
				m.Fail("provider", "no transaction: %v", err)
				return
			}
			id := tx.NextID()
			if a, b := tx.IDTime(id.UInt64()), flake.IDTime(g, id.UInt64()); flake.LastID(g) != id.UInt64() || !a.Equal(b) {
				m.Fail("provider", "transaction returned ID %v with time %v, its generator's last is %d with time %v", id, a, flake.LastID(g), b)
			}
			if r.IntN(2) == 0 {
				_ = tx.Commit()
			} else {
				_ = tx.Close()
			}
			if a, b := tx.IDTime(id.UInt64()), flake.IDTime(g, id.UInt64()); !a.Equal(b) {
				m.Fail("provider", "finished transaction reports time %v for ID %v, its generator %v", a, id, b)
			}
			id = p.NextID()
			if flake.LastID(g) != id.UInt64() {
				m.Fail("provider", "provider returned ID %v, its generator's last is %d", id, flake.LastID(g))
			}
			if a, b := p.IDTime(id.UInt64()), flake.IDTime(g, id.UInt64()); !a.Equal(b) {
				m.Fail("provider", "provider reports time %v for ID %v, its generator %v", a, id, b)
			}
			_ = p.Close()
			m.Count("provider_ids", 1)
		}
	}
}

// lastConcurrent reads the first and last ID while others draw.
func lastConcurrent(m *mon.M) {
	for round := 0; round < m.N(3, 20); round++ {
		g := gen(time.Time{}, uint16(round))
		first := flake.FirstID(g)
		stop := make(chan struct{})
		var wg sync.WaitGroup
		var bad atomic.Value
		wg.Add(1)
		go func() {
			defer wg.Done()
			prev := first
			for n := 0; ; n++ {
				l := flake.LastID(g)
				if l < prev {
					bad.Store(fmt.Sprintf("LastID went back from %d to %d", prev, l))
				}
				if flake.FirstID(g) != first {
					bad.Store("FirstID changed")
				}
				prev = l
				m.Count("last_id_reads", 1)
				select {
				case <-stop:
					return
				default:
				}
			}
		}()
		ops := drive(g, 4, 1500)
		close(stop)
		wg.Wait()
		if b := bad.Load(); b != nil {
			m.Fail("last-concurrent", "%v", b)
		}
		var max uint64
		for _, o := range ops {
			if o.id > max {
				max = o.id
			}
		}
		if flake.LastID(g) != max {
			m.Fail("last-concurrent", "LastID %d, highest returned %d", flake.LastID(g), max)
		}
		m.Eval(true, "last", round, max)
	}
}
