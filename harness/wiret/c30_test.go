package wiret

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/effective-security/x/values"
	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/pkg/notifier"

	"verif/mon"
	"verif/pgfake"
)

// note is a notification that was sent.
type note struct {
	raw  string
	want values.MapAny
	sent bool // reached a session
}

// topic collects what was sent and received on one topic.
type topic struct {
	m    *mon.M
	name string
	what string

	mu   sync.Mutex
	sent []note
	next int // index after the last delivered one
	got  map[int]int
	recv atomic.Int64
	// parked callbacks wait for this to close
	park chan struct{}
	slow atomic.Int64
	busy atomic.Int32
}

// sub is one subscription.
type sub struct {
	t         *topic
	id        int
	cancelled atomic.Bool
	late      atomic.Int32
	n         atomic.Int64
}

func (t *topic) fail(fp, f string, a ...any) {
	t.m.Fail(fp, "%s\ntopic %q: %s", t.what, t.name, fmt.Sprintf(f, a...))
}

func payload(r *rand.Rand, id string) (string, values.MapAny) {
	switch r.IntN(9) {
	case 0:
		return "{" + id, nil
	case 1:
		return `["` + id + `"]`, nil
	case 2:
		return id, nil
	case 3:
		return `{"id":"` + id + `"} trailing`, nil
	case 4:
		if r.IntN(2) == 0 {
			return " " + id + "  x\n", nil
		}
		return `"` + id + `"`, nil
	}
	v := map[string]any{"id": id}
	if r.IntN(2) == 0 {
		v["n"] = r.IntN(1000)
	}
	if r.IntN(3) == 0 {
		v["nested"] = map[string]any{"list": []int{1, 2, 3}, "s": "é\n\"日"}
	}
	if r.IntN(6) == 0 {
		v["long"] = strings.Repeat("x", r.IntN(7000))
	}
	b, _ := json.Marshal(v)
	var want values.MapAny
	_ = json.Unmarshal(b, &want)
	// white space around and in the text is part of the raw payload
	switch r.IntN(8) {
	case 0:
		return " " + string(b) + "\n", want
	case 1:
		b, _ = json.MarshalIndent(v, "\t", "  ")
		return string(b), want
	case 2:
		return string(b) + "\r\n  ", want
	}
	return string(b), want
}

// notify sends one notification and tells whether a session received it.
func (t *topic) notify(srv *pgfake.Server, r *rand.Rand) (int, bool) {
	t.mu.Lock()
	i := len(t.sent)
	raw, want := payload(r, fmt.Sprintf("%s#%d#", t.name, i))
	t.sent = append(t.sent, note{raw: raw, want: want})
	t.mu.Unlock()
	ok := len(srv.Notify(t.name, raw)) > 0
	t.mu.Lock()
	t.sent[i].sent = ok
	t.mu.Unlock()
	return i, ok
}

func (s *sub) callback(n *notifier.Notification) {
	t := s.t
	if s.cancelled.Load() {
		if s.late.Add(1) > 1 {
			t.fail("after-cancel", "subscription %d got %q after its context ended", s.id, n.RawPayload)
		}
	}
	if b := t.busy.Add(1); b > 1 && s.n.Load() > 0 && !s.cancelled.Load() {
		// several subscriptions of a topic do not overlap, callbacks of one run one at a time
		t.m.Count("overlaps", 1)
	}
	defer t.busy.Add(-1)
	s.n.Add(1)
	if n.Channel != t.name {
		t.fail("wrong-topic", "got a notification of topic %q: %q", n.Channel, n.RawPayload)
	}
	t.mu.Lock()
	i := -1
	for k := t.next; k < len(t.sent); k++ {
		if t.sent[k].raw == n.RawPayload {
			i = k
			break
		}
	}
	if i < 0 {
		seen := false
		for k := 0; k < t.next && k < len(t.sent); k++ {
			if t.sent[k].raw == n.RawPayload {
				seen = true
				t.mu.Unlock()
				if t.got[k] > 0 {
					t.fail("twice", "notification %d delivered again", k)
				} else {
					t.fail("order", "notification %d delivered after %d", k, t.next-1)
				}
				t.mu.Lock()
			}
		}
		if !seen {
			t.mu.Unlock()
			t.fail("unknown", "got %q which was never sent", n.RawPayload)
			t.mu.Lock()
		}
	} else {
		t.next = i + 1
		t.got[i]++
		want := t.sent[i].want
		if len(n.Payload) != len(want) || len(want) > 0 && !reflect.DeepEqual(n.Payload, want) {
			t.mu.Unlock()
			t.fail("payload", "payload %q decoded as %v, want %v", n.RawPayload, n.Payload, want)
			t.mu.Lock()
		}
	}
	t.mu.Unlock()
	t.recv.Add(1)
	if t.park != nil {
		<-t.park
	} else if d := t.slow.Load(); d > 0 {
		time.Sleep(time.Duration(d))
	}
}

func (t *topic) delivered(i int) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.got[i] > 0
}

func waitFor(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return f()
		}
		time.Sleep(500 * time.Microsecond)
	}
}

var topicNames = []string{"events", "Events", "user_changed", "a\"b", "with space", "日本", "x.y", "listen", "t1", "t-2", "UPPER", "a;b", "'q'", "*", `b\c`, "0"}

type world struct {
	m    *mon.M
	srv  *pgfake.Server
	p    xdb.Provider
	l    notifier.Listener
	what string
	// cut is held for reading while losing the connection would be a loss of certainty
	cut   sync.RWMutex
	kills atomic.Int32
	ids   atomic.Int32
}

const limit = 20 * time.Second

func newWorld(m *mon.M, what string) *world {
	w := &world{m: m, srv: pgfake.New(), what: what}
	w.srv.Handle = ok
	w.srv.Start()
	p, err := xdb.NewProvider("postgres://u:p@"+w.srv.Addr()+"/app?sslmode=disable&application_name=test", "other", nil, nil)
	if err != nil {
		panic(err)
	}
	w.p = p
	w.l = notifier.NewListener(p, 2*time.Millisecond, 20*time.Millisecond)
	return w
}

func (w *world) topic(name string, r *rand.Rand) *topic {
	t := &topic{m: w.m, name: name, what: w.what, got: map[int]int{}}
	if r.IntN(4) == 0 {
		t.slow.Store(int64(r.IntN(1500)) * 1000)
	}
	return t
}

// listen subscribes, with a bound on the time it may take.
func (w *world) listen(t *topic, ctx context.Context) (*sub, error) {
	s := &sub{t: t, id: int(w.ids.Add(1))}
	ch := make(chan error, 1)
	go func() { ch <- w.l.Listen(ctx, t.name, s.callback) }()
	select {
	case err := <-ch:
		return s, err
	case <-time.After(limit):
		t.fail("listen-hangs", "Listen did not return within %v", limit)
		return nil, context.DeadlineExceeded
	}
}

// tail is the end of the server's log.
func (w *world) tail() string {
	l := w.srv.Log()
	if len(l) > 30 {
		l = l[len(l)-30:]
	}
	var b strings.Builder
	for _, e := range l {
		if e.Kind == "notify" && len(e.Args[0]) > 40 {
			e.Args = []string{e.Args[0][:40], e.Args[1]}
		}
		fmt.Fprintf(&b, "\n %v", e)
	}
	return b.String()
}

// round is one life of a subscription.
func (w *world) round(t *topic, r *rand.Rand, last bool) bool {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var s *sub
	var err error
	// an earlier subscription to the topic may take a moment to end
	if !waitFor(limit, func() bool {
		s, err = w.listen(t, ctx)
		return err == nil || s == nil
	}) {
		t.fail("listen", "cannot subscribe: %v", err)
		return false
	}
	if s == nil {
		return false
	}
	w.m.Count("subscriptions", 1)
	// a second subscription to the topic is refused and changes nothing
	if r.IntN(3) == 0 {
		if _, err := w.listen(&topic{m: w.m, name: t.name, what: t.what + " (refused subscription)", got: map[int]int{}}, ctx); err == nil {
			t.fail("duplicate", "a second subscription was accepted")
		}
		w.m.Count("refused", 1)
	}
	for k := 1 + r.IntN(2); k > 0; k-- {
		w.cut.RLock()
		sure := w.kills.Load() == 0
		if !sure {
			// after a reconnect the client may drop what arrives early
			sure = waitFor(limit, func() bool {
				i, sent := t.notify(w.srv, r)
				return sent && waitFor(20*time.Millisecond, func() bool { return t.delivered(i) })
			})
			if !sure {
				t.fail("lost-after-reconnect", "nothing is delivered after reconnecting")
				w.cut.RUnlock()
				return false
			}
			w.m.Count("recovered", 1)
		}
		var must []int
		n := 1 + r.IntN(12)
		if r.IntN(6) == 0 {
			n = 100 + r.IntN(100)
			t.slow.Store(0)
		}
		for ; n > 0; n-- {
			i, sent := t.notify(w.srv, r)
			if !sent {
				t.fail("not-listening", "the server has no listener while the subscription is active; %s", w.tail())
			}
			must = append(must, i)
			if r.IntN(10) == 0 {
				time.Sleep(time.Duration(r.IntN(300)) * time.Microsecond)
			}
		}
		if !waitFor(limit, func() bool { return t.delivered(must[len(must)-1]) }) {
			t.fail("not-delivered", "notification %d was not delivered", must[len(must)-1])
		}
		for _, i := range must {
			if !t.delivered(i) {
				t.fail("not-delivered", "notification %d was not delivered, later ones were", i)
			}
		}
		w.m.Count("delivered", len(must))
		w.cut.RUnlock()
		// some that may be lost
		for k := r.IntN(4); k > 0; k-- {
			t.notify(w.srv, r)
		}
	}
	if last && r.IntN(2) == 0 {
		return true // left to Close
	}
	cancel()
	s.cancelled.Store(true)
	if !waitFor(limit, func() bool { return len(w.srv.Listeners(t.name)) == 0 }) {
		t.fail("still-listening", "the server still has listeners after the context ended")
	}
	// around a reconnect the client may listen once more before it unlistens
	if _, sent := t.notify(w.srv, r); sent && (w.kills.Load() == 0 || !waitFor(limit, func() bool {
		_, again := t.notify(w.srv, r)
		return !again
	})) {
		t.fail("still-listening", "the server sent to a cancelled subscription")
	}
	w.m.Count("cancelled", 1)
	return true
}

// finish closes everything and looks for what stays behind.
func (w *world) finish(r *rand.Rand) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		n := 1
		if r.IntN(3) == 0 {
			n = 3
		}
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); _ = w.l.Close() }()
		}
		wg.Wait()
	}()
	select {
	case <-done:
	case <-time.After(limit):
		w.m.Fail("close-hangs", "%s\nClose did not return", w.what)
		return
	}
	t := w.topic("after", r)
	if _, err := w.listen(t, context.Background()); err == nil {
		w.m.Fail("listen-closed", "%s\na closed listener accepts subscriptions", w.what)
	}
	_ = w.p.Close()
	if !waitFor(limit, func() bool { return w.srv.Open() == 0 }) {
		w.m.Fail("left-open", "%s\n%d connections stay open", w.what, w.srv.Open())
	}
	w.srv.Close()
	w.m.Count("closed", 1)
}

// noGoroutines looks for anything of the listener that is still running.
func noGoroutines(m *mon.M, what string) {
	left := ""
	if !waitFor(limit, func() bool {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		left = ""
		for _, g := range strings.Split(string(buf), "\n\n") {
			if strings.Contains(g, "pkg/notifier.") || strings.Contains(g, "pq.(*Listener") {
				left = g
			}
		}
		return left == ""
	}) {
		m.Fail("goroutines", "%s\nstill running after Close:\n%s", what, left)
	}
}

// intervals watches the attempts to reach a database that turns everybody away.
func intervals(m *mon.M) {
	type set struct {
		min, max time.Duration
		tries    int
	}
	var wg sync.WaitGroup
	for i, x := range []set{
		{50 * time.Millisecond, 100 * time.Millisecond, 12}, {200 * time.Millisecond, 200 * time.Millisecond, 6},
		{400 * time.Millisecond, 0, 3}, {0, 40 * time.Millisecond, 30}, {0, 0, 6}, {30 * time.Millisecond, time.Hour, 5},
	} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			what := fmt.Sprintf("reconnect intervals %v to %v", x.min, x.max)
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			p, _ := xdb.New("postgres", sql.OpenDB(noConn{}), nil)
			p.WithConnectionString("postgres://u:p@" + l.Addr().String() + "/app?sslmode=disable")
			nl := notifier.NewListener(p, x.min, x.max)
			least, most := x.min, x.max
			if least == 0 {
				least = notifier.DefaultMinReconnectInterval
			}
			if most == 0 {
				most = notifier.DefaultMaxReconnectInterval
			}
			gap := least
			var last time.Time
			var gaps []time.Duration
			_ = l.(*net.TCPListener).SetDeadline(time.Now().Add(limit))
			for k := 0; k < x.tries; k++ {
				c, err := l.Accept()
				if err != nil {
					m.Fail("reconnect-late", "%s\nattempt %d was not made within %v", what, k, limit)
					break
				}
				now := time.Now()
				// the next one follows the end of this one
				if k > 0 {
					if now.Sub(last) < gap {
						m.Fail("reconnect-early", "%s\nattempt %d was made %v after the one before, not %v", what, k, now.Sub(last), gap)
					}
					gap = min(2*gap, most)
					if gap == most {
						gaps = append(gaps, now.Sub(last))
					}
				}
				last = now
				_ = c.Close()
				m.Count("attempts", 1)
			}
			// a busy machine makes some attempts late, not most of them
			if len(gaps) > 20 {
				slices.Sort(gaps)
				if g := gaps[len(gaps)/2]; g > 10*most {
					m.Fail("reconnect-rare", "%s\nattempts are %v apart", what, g)
				}
				m.Count("attempts at the maximal interval", len(gaps))
			}
			m.Eval(true, what, i)
			_ = nl.Close()
			_ = l.Close()
			_ = p.Close()
		}()
	}
	wg.Wait()
}

// noConn is a database that is never asked.
type noConn struct{}

func (noConn) Connect(context.Context) (driver.Conn, error) { return nil, driver.ErrBadConn }
func (noConn) Driver() driver.Driver                        { return nil }

func TestC30(t *testing.T) {
	mon.Run(t, "C30", "a case is one life of a listener: concurrent subscriptions, bursts of notifications, lost connections, cancellations and the close; non-trivial always", func(m *mon.M) {
		m.Assume("after a reconnect delivery counts from the first notification that arrives: the client library drops what comes while it subscribes again")
		intervals(m)
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		total := m.N(700, 8000)
		batch := 40
		for n := 0; n < total && !m.Failed(); n++ {
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				r := m.Rand("life", n)
				what := fmt.Sprintf("life %d", n)
				m.Guard("life", what, func() {
					switch n % 10 {
					case 0:
						crossing(m, r, what, n == 0)
					case 1:
						outage(m, r, what)
					case 2:
						refused(m, r, what)
					case 3:
						closing(m, r, what)
					case 4:
						repeats(m, r, what)
					default:
						life(m, r, what, n%2 == 0)
					}
				})
				m.Eval(true, "life", n)
			}()
			if n%batch == batch-1 || n == total-1 {
				wg.Wait()
				noGoroutines(m, fmt.Sprintf("after life %d", n))
			}
		}
		wg.Wait()
		m.Need("repeated", 1000)
		m.Need("delivered after close", 100)
		m.Need("delivered", 2000)
		m.Need("recovered", 20)
		m.Need("cancelled", 100)
		m.Need("refused", 20)
		m.Need("crossings", 10)
	})
}

// life is a random history.
func life(m *mon.M, r *rand.Rand, what string, cuts bool) {
	w := newWorld(m, what)
	defer w.finish(r)
	if r.IntN(4) == 0 {
		w.srv.OnListen = func(*pgfake.Session, string, bool) *pgfake.Error {
			time.Sleep(2 * time.Millisecond)
			return nil
		}
	}
	var wg sync.WaitGroup
	names := r.Perm(len(topicNames))[:1+r.IntN(5)]
	stop := make(chan struct{})
	for _, k := range names {
		t := w.topic(topicNames[k], r)
		tr := rand.New(rand.NewPCG(r.Uint64(), 1))
		wg.Add(1)
		go func() {
			defer wg.Done()
			rounds := 1 + tr.IntN(3)
			for i := 0; i < rounds; i++ {
				if !w.round(t, tr, i == rounds-1) {
					return
				}
			}
			t.mu.Lock()
			m.State("histories", len(t.sent), len(t.got), w.kills.Load())
			t.mu.Unlock()
		}()
	}
	var kw sync.WaitGroup
	if cuts {
		kr := rand.New(rand.NewPCG(r.Uint64(), 2))
		kw.Add(1)
		go func() {
			defer kw.Done()
			for i := 0; i < 3; i++ {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(kr.IntN(30)) * time.Millisecond):
				}
				w.cut.Lock()
				w.kills.Add(1)
				m.Count("connections_cut", w.srv.Kill())
				w.cut.Unlock()
			}
		}()
	}
	wg.Wait()
	close(stop)
	kw.Wait()
}

// crossing holds a callback of one topic until another topic was served.
func crossing(m *mon.M, r *rand.Rand, what string, long bool) {
	w := newWorld(m, what+" (a callback waits for another topic)")
	defer w.finish(r)
	a, b := w.topic("a", r), w.topic("b", r)
	a.park = make(chan struct{})
	open := sync.OnceFunc(func() { close(a.park) })
	defer open()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	_, err := w.listen(a, ctx)
	_, err2 := w.listen(b, ctx)
	if err != nil || err2 != nil {
		m.Fail("listen", "%s\ncannot subscribe: %v %v", what, err, err2)
		return
	}
	n := 1 + r.IntN(150) // more than the client's buffers
	if long {
		n += 20000
	}
	for i := 0; i < n; i++ {
		a.notify(w.srv, r)
	}
	k := 0
	for i := 0; i < 1+n%7; i++ {
		k, _ = b.notify(w.srv, r)
	}
	if !waitFor(limit, func() bool { return b.delivered(k) }) {
		b.fail("blocked", "not delivered while a callback of another topic is busy")
	}
	// subscribing and unsubscribing work as well
	c := w.topic("c", r)
	cctx, ccancel := context.WithCancel(ctx)
	if _, err := w.listen(c, cctx); err != nil {
		c.fail("blocked", "cannot subscribe while a callback of another topic is busy: %v", err)
	}
	i, _ := c.notify(w.srv, r)
	if !waitFor(limit, func() bool { return c.delivered(i) }) {
		c.fail("blocked", "not delivered while a callback of another topic is busy")
	}
	ccancel()
	if !waitFor(limit, func() bool { return len(w.srv.Listeners("c")) == 0 }) {
		c.fail("blocked", "not unsubscribed while a callback of another topic is busy")
	}
	open()
	if !waitFor(limit, func() bool { return a.delivered(n - 1) }) {
		a.fail("not-delivered", "notification %d was not delivered", n-1)
	}
	for i := range n {
		if !a.delivered(i) {
			a.fail("dropped", "notification %d of %d, which arrived while the callback was busy, was dropped", i, n)
			break
		}
	}
	m.Count("crossings", 1)
	m.Count("delivered", n+k+2)
}

// outage subscribes while the server is away.
func outage(m *mon.M, r *rand.Rand, what string) {
	w := newWorld(m, what+" (subscribing during an outage)")
	defer w.finish(r)
	a, b := w.topic("a", r), w.topic("b", r)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if _, err := w.listen(a, ctx); err != nil {
		m.Fail("listen", "%s\ncannot subscribe: %v", what, err)
		return
	}
	w.srv.Refuse(true)
	w.kills.Add(1)
	w.srv.Kill()
	time.Sleep(time.Duration(r.IntN(10)) * time.Millisecond)
	res := make(chan error, 1)
	go func() {
		_, err := w.listen(b, ctx)
		res <- err
	}()
	time.Sleep(time.Duration(r.IntN(20)) * time.Millisecond)
	w.srv.Refuse(false)
	if err := <-res; err != nil {
		b.fail("listen", "cannot subscribe around an outage: %v", err)
		return
	}
	for _, t := range []*topic{a, b} {
		if !waitFor(limit, func() bool {
			i, sent := t.notify(w.srv, r)
			return sent && waitFor(20*time.Millisecond, func() bool { return t.delivered(i) })
		}) {
			t.fail("lost-after-reconnect", "nothing is delivered after the outage")
			continue
		}
		m.Count("recovered", 1)
		k := 0
		for i := 0; i < 20; i++ {
			k, _ = t.notify(w.srv, r)
		}
		if !waitFor(limit, func() bool { return t.delivered(k) }) {
			t.fail("not-delivered", "notification %d was not delivered after the outage", k)
		}
		m.Count("delivered", 20)
	}
}

// refused has the server reject a subscription.
func refused(m *mon.M, r *rand.Rand, what string) {
	w := newWorld(m, what+" (the server refuses LISTEN)")
	defer w.finish(r)
	var on atomic.Bool
	w.srv.OnListen = func(_ *pgfake.Session, topic string, listen bool) *pgfake.Error {
		if listen && topic == "no" && on.Load() {
			return &pgfake.Error{Code: "42501", Msg: "permission denied"}
		}
		return nil
	}
	a, no := w.topic("a", r), w.topic("no", r)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if _, err := w.listen(a, ctx); err != nil {
		m.Fail("listen", "%s\ncannot subscribe: %v", what, err)
		return
	}
	on.Store(true)
	if _, err := w.listen(no, ctx); err == nil {
		no.fail("refusal", "the refusal was not reported")
	}
	m.Count("refused", 1)
	on.Store(false)
	s, err := w.listen(no, ctx)
	if err != nil {
		no.fail("listen", "cannot subscribe after a refusal: %v", err)
		return
	}
	_ = s
	for _, t := range []*topic{a, no} {
		k := 0
		for i := 0; i < 10; i++ {
			k, _ = t.notify(w.srv, r)
		}
		if !waitFor(limit, func() bool { return t.delivered(k) }) {
			t.fail("not-delivered", "notification %d was not delivered", k)
		}
		m.Count("delivered", 10)
	}
}

// closing closes the listener in the middle of everything.
func closing(m *mon.M, r *rand.Rand, what string) {
	w := newWorld(m, what+" (closed while in use)")
	if r.IntN(3) == 0 {
		w.srv.Refuse(true)
		w.srv.Kill()
	}
	var wg sync.WaitGroup
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for i := 0; i < 3; i++ {
		t := w.topic(topicNames[i], r)
		tr := rand.New(rand.NewPCG(r.Uint64(), 1))
		wg.Add(1)
		go func() {
			defer wg.Done()
			if _, err := w.listen(t, ctx); err != nil {
				return
			}
			for k := 0; k < 30; k++ {
				t.notify(w.srv, tr)
			}
		}()
	}
	time.Sleep(time.Duration(r.IntN(4000)) * time.Microsecond)
	_ = w.l.Close()
	wg.Wait()
	w.srv.Refuse(false)
	w.finish(r)
	m.Count("closed_in_use", 1)
}

// repeats sends the same few payloads again and again while callbacks are
// busy: each notification counts. Some listeners are closed while the
// callbacks still work on what had already arrived.
func repeats(m *mon.M, r *rand.Rand, what string) {
	w := newWorld(m, what+" (repeated payloads)")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type box struct {
		mu   sync.Mutex
		got  []string
		want []string
	}
	gate := make(chan struct{})
	closeFirst := r.IntN(2) == 0
	marker := make(chan struct{})
	listen := func(name string, f func(*notifier.Notification)) {
		if err := w.l.Listen(ctx, name, f); err != nil {
			m.Fail("listen", "%s\n%s: %v", w.what, name, err)
		}
	}
	boxes := make([]*box, 1+r.IntN(3))
	for i := range boxes {
		b := &box{}
		boxes[i] = b
		held := closeFirst || r.IntN(3) != 0
		listen(topicNames[i], func(n *notifier.Notification) {
			if held {
				<-gate
			}
			b.mu.Lock()
			b.got = append(b.got, n.RawPayload)
			b.mu.Unlock()
			want := values.MapAny(nil)
			if n.RawPayload == `{"a":1}` {
				want = values.MapAny{"a": 1.0}
			}
			if len(n.Payload) != len(want) || len(want) > 0 && !reflect.DeepEqual(n.Payload, want) {
				m.Fail("repeated-payload", "%s\npayload %q decoded as %v", w.what, n.RawPayload, n.Payload)
			}
			if n.Payload != nil { // the notification belongs to the callback
				n.Payload["a"], n.Payload["b"] = "spoiled", i
			}
		})
	}
	listen("marker", func(n *notifier.Notification) { close(marker) })
	words := []string{"", "x", `{"a":1}`, "{}", `[1]`}
	for k := 1 + r.IntN(150); k > 0; k-- {
		i := r.IntN(len(boxes))
		p := words[r.IntN(1+r.IntN(len(words)))]
		if len(w.srv.Notify(topicNames[i], p)) != 1 {
			m.Fail("not-listening", "%s\nnobody listens to %q", w.what, topicNames[i])
			return
		}
		boxes[i].want = append(boxes[i].want, p)
	}
	w.srv.Notify("marker", "")
	select {
	case <-marker:
	case <-time.After(limit):
		m.Fail("held-up", "%s\na busy callback holds up another topic\n%s", w.what, w.tail())
		close(gate)
		return
	}
	if closeFirst {
		_ = w.l.Close()
		time.Sleep(time.Duration(r.IntN(5)) * time.Millisecond)
	}
	close(gate)
	for i, b := range boxes {
		ok := waitFor(limit, func() bool { b.mu.Lock(); defer b.mu.Unlock(); return len(b.got) >= len(b.want) })
		b.mu.Lock()
		if !ok || !slices.Equal(b.got, b.want) {
			m.Fail("repeated", "%s\ntopic %q, closed before the callbacks went on: %v\ngot  %d %q\nwant %d %q", w.what, topicNames[i], closeFirst, len(b.got), b.got, len(b.want), b.want)
		}
		m.Count("repeated", len(b.got))
		if closeFirst {
			m.Count("delivered after close", len(b.got))
		}
		b.mu.Unlock()
	}
	w.finish(r)
	for i, b := range boxes {
		b.mu.Lock()
		if len(b.got) > len(b.want) {
			m.Fail("repeated-extra", "%s\ntopic %q: %d notifications, %d were sent", w.what, topicNames[i], len(b.got), len(b.want))
		}
		b.mu.Unlock()
	}
}
