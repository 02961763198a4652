// Package pgfake is a server that speaks the PostgreSQL wire protocol on the
// loopback network, records everything clients send and answers as told.
package pgfake

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Type OIDs
const (
	Bool = 16
	Int8 = 20
	Int4 = 23
	Text = 25
)

type Col struct {
	Name string
	OID  uint32
}

// Error is an error reply; Fatal ends the session.
type Error struct {
	Code, Msg string
	Fatal     bool
}

func (e *Error) Error() string { return e.Code + ": " + e.Msg }

// Result answers one statement. Values are nil, string, int64, bool or []byte.
type Result struct {
	Cols []Col
	Rows [][]any
	Tag  string
	Err  *Error
	// Drop cuts the connection after DropAfter rows instead of completing.
	Drop      bool
	DropAfter int
	// ErrAfter sends Err after that many rows.
	ErrAfter int
	Delay    time.Duration
}

// Session is one client connection.
type Session struct {
	ID       int
	Params   map[string]string
	Password string

	srv    *Server
	conn   net.Conn
	wr     sync.Mutex
	w      *bufio.Writer
	tx     byte
	failed bool
	// Listening holds the channels, guarded by srv.lock
	Listening map[string]bool
	Closed    bool
	// State belongs to the handler.
	State  any
	cancel chan struct{}
}

// Event is an entry of the server's log.
type Event struct {
	Session int
	Kind    string // connect, password, query, listen, unlisten, notify, close, tls
	Text    string
	Args    []string
}

// Server accepts connections until it is closed.
type Server struct {
	// Handle answers statements. With describe only the columns matter and nothing may be executed.
	Handle func(s *Session, sql string, args []any, describe bool) Result
	// Accept may reject a session.
	Accept func(s *Session) *Error
	// NoPassword admits clients without asking for their password.
	NoPassword bool
	// OnListen may delay or refuse LISTEN (on) and UNLISTEN.
	OnListen func(s *Session, topic string, on bool) *Error

	// Ended is called when a session is over.
	Ended func(s *Session)

	ln     net.Listener
	lock   sync.Mutex
	nextID int
	live   map[*Session]bool
	all    []*Session
	log    []Event
	closed bool
	refuse bool
	wg     sync.WaitGroup
}

// New starts a server on a loopback port.
func New() *Server {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &Server{ln: ln, live: map[*Session]bool{}}
	return s
}

// Start begins to accept clients.
func (s *Server) Start() *Server {
	s.wg.Add(1)
	go s.accept(s.ln)
	return s
}

// Addr is the host:port of the server.
func (s *Server) Addr() string { return s.ln.Addr().String() }

func (s *Server) accept(ln net.Listener) {
	defer s.wg.Done()
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		s.lock.Lock()
		if s.refuse || s.closed {
			s.lock.Unlock()
			_ = c.Close()
			continue
		}
		s.wg.Add(1)
		s.lock.Unlock()
		go func() {
			defer s.wg.Done()
			s.serve(c)
		}()
	}
}

// Refuse makes the server drop new connections at once.
func (s *Server) Refuse(v bool) {
	s.lock.Lock()
	s.refuse = v
	s.lock.Unlock()
}

// Kill cuts all connections.
func (s *Server) Kill() int {
	s.lock.Lock()
	defer s.lock.Unlock()
	n := 0
	for c := range s.live {
		_ = c.conn.Close()
		s.log = append(s.log, Event{Session: c.ID, Kind: "cut"})
		n++
	}
	return n
}

// Close stops the server.
func (s *Server) Close() {
	s.lock.Lock()
	s.closed = true
	for c := range s.live {
		_ = c.conn.Close()
	}
	s.lock.Unlock()
	_ = s.ln.Close()
	s.wg.Wait()
}

// Open counts the sessions that clients have not ended.
func (s *Server) Open() int {
	s.lock.Lock()
	defer s.lock.Unlock()
	return len(s.live)
}

// Sessions returns all sessions that got through authentication.
func (s *Server) Sessions() []*Session {
	s.lock.Lock()
	defer s.lock.Unlock()
	return append([]*Session(nil), s.all...)
}

// Log returns what happened so far.
func (s *Server) Log() []Event {
	s.lock.Lock()
	defer s.lock.Unlock()
	return append([]Event(nil), s.log...)
}

// Reset forgets the log.
func (s *Server) Reset() {
	s.lock.Lock()
	s.log, s.all = nil, nil
	s.lock.Unlock()
}

func (s *Server) record(e Event) {
	s.lock.Lock()
	s.log = append(s.log, e)
	s.lock.Unlock()
}

// Listeners returns the ids of the live sessions that listen to a topic.
func (s *Server) Listeners(topic string) []int {
	s.lock.Lock()
	defer s.lock.Unlock()
	var l []int
	for c := range s.live {
		if c.Listening[topic] {
			l = append(l, c.ID)
		}
	}
	sort.Ints(l)
	return l
}

// Notify sends a notification to the sessions that listen to the topic
// and returns the ids of those it was written to.
func (s *Server) Notify(topic, payload string) []int {
	s.lock.Lock()
	defer s.lock.Unlock()
	var l []int
	for c := range s.live {
		if !c.Listening[topic] {
			continue
		}
		b := binary.BigEndian.AppendUint32(nil, uint32(4242))
		b = append(b, topic...)
		b = append(b, 0)
		b = append(b, payload...)
		b = append(b, 0)
		if c.send(true, msg('A', b)) == nil {
			l = append(l, c.ID)
		}
	}
	sort.Ints(l)
	s.log = append(s.log, Event{Kind: "notify", Text: topic, Args: []string{payload, fmt.Sprint(l)}})
	return l
}

func msg(t byte, b []byte) []byte {
	m := append([]byte{t}, 0, 0, 0, 0)
	binary.BigEndian.PutUint32(m[1:], uint32(len(b)+4))
	return append(m, b...)
}

func (c *Session) send(flush bool, l ...[]byte) error {
	c.wr.Lock()
	defer c.wr.Unlock()
	_ = c.conn.SetWriteDeadline(time.Now().Add(20 * time.Second))
	for _, m := range l {
		if _, err := c.w.Write(m); err != nil {
			return err
		}
	}
	if flush {
		return c.w.Flush()
	}
	return nil
}

func cstr(b []byte) (string, []byte, error) {
	for i, v := range b {
		if v == 0 {
			return string(b[:i]), b[i+1:], nil
		}
	}
	return "", nil, io.ErrUnexpectedEOF
}

func errMsg(e *Error) []byte {
	sev := "ERROR"
	if e.Fatal {
		sev = "FATAL"
	}
	return msg('E', []byte("S"+sev+"\x00V"+sev+"\x00C"+e.Code+"\x00M"+e.Msg+"\x00\x00"))
}

func (c *Session) ready() []byte { return msg('Z', []byte{c.tx}) }

func (s *Server) serve(conn net.Conn) {
	defer conn.Close()
	c := &Session{srv: s, conn: conn, w: bufio.NewWriter(conn), Params: map[string]string{}, Listening: map[string]bool{}, tx: 'I', cancel: make(chan struct{}, 1)}
	s.lock.Lock()
	s.nextID++
	c.ID = s.nextID
	if s.closed {
		s.lock.Unlock()
		return
	}
	s.live[c] = true
	s.lock.Unlock()
	defer func() {
		s.lock.Lock()
		delete(s.live, c)
		c.Closed = true
		s.log = append(s.log, Event{Session: c.ID, Kind: "close"})
		s.lock.Unlock()
		if s.Ended != nil {
			s.Ended(c)
		}
	}()
	rd := bufio.NewReader(conn)
	_ = conn.SetReadDeadline(time.Now().Add(30 * time.Second))
	for {
		var h [8]byte
		if _, err := io.ReadFull(rd, h[:]); err != nil {
			return
		}
		n := int(binary.BigEndian.Uint32(h[:4]))
		code := binary.BigEndian.Uint32(h[4:])
		if n < 8 || n > 1<<20 {
			return
		}
		body := make([]byte, n-8)
		if _, err := io.ReadFull(rd, body); err != nil {
			return
		}
		if code == 80877103 || code == 80877104 { // TLS, GSS
			s.record(Event{Session: c.ID, Kind: "tls"})
			if _, err := conn.Write([]byte{'N'}); err != nil {
				return
			}
			continue
		}
		if code == 80877102 { // cancel
			if len(body) == 8 {
				id := int(binary.BigEndian.Uint32(body))
				s.lock.Lock()
				for o := range s.live {
					if o.ID == id {
						select {
						case o.cancel <- struct{}{}:
						default:
						}
					}
				}
				s.lock.Unlock()
			}
			return
		}
		for len(body) > 1 {
			k, rest, err := cstr(body)
			if err != nil {
				return
			}
			v, rest, err := cstr(rest)
			if err != nil {
				return
			}
			c.Params[k] = v
			body = rest
		}
		break
	}
	if !s.NoPassword {
		if c.send(true, msg('R', []byte{0, 0, 0, 3})) != nil {
			return
		}
		t, b, err := read(rd)
		if err != nil || t != 'p' {
			return
		}
		c.Password, _, _ = cstr(b)
	}
	s.lock.Lock()
	s.all = append(s.all, c)
	s.log = append(s.log, Event{Session: c.ID, Kind: "connect", Text: c.Params["user"] + "@" + c.Params["database"]})
	s.lock.Unlock()
	if s.Accept != nil {
		if e := s.Accept(c); e != nil {
			e.Fatal = true
			_ = c.send(true, errMsg(e))
			return
		}
	}
	key := binary.BigEndian.AppendUint32(nil, uint32(c.ID))
	key = binary.BigEndian.AppendUint32(key, 7)
	st := func(k, v string) []byte { return msg('S', []byte(k+"\x00"+v+"\x00")) }
	if c.send(true, msg('R', []byte{0, 0, 0, 0}), st("server_version", "16.3"), st("client_encoding", "UTF8"), st("standard_conforming_strings", "on"), st("TimeZone", "UTC"), st("DateStyle", "ISO, MDY"), msg('K', key), c.ready()) != nil {
		return
	}
	_ = conn.SetReadDeadline(time.Time{})
	stmts := map[string]string{}
	type portal struct {
		sql  string
		args []any
		fmts []int
	}
	portals := map[string]portal{}
	skip := false
	for {
		t, b, err := read(rd)
		if err != nil {
			return
		}
		if skip && t != 'S' && t != 'X' {
			continue
		}
		switch t {
		case 'X':
			return
		case 'Q':
			q, _, _ := cstr(b)
			if !c.simple(q) {
				return
			}
		case 'P':
			name, rest, _ := cstr(b)
			q, _, _ := cstr(rest)
			stmts[name] = q
			if c.send(false, msg('1', nil)) != nil {
				return
			}
		case 'D':
			kind := b[0]
			name, _, _ := cstr(b[1:])
			q := stmts[name]
			if kind == 'P' {
				q = portals[name].sql
			}
			n := params(q)
			res := c.describe(q, n)
			if res.Drop {
				return
			}
			if res.Err != nil {
				skip = true
				c.fail(res.Err)
				if c.send(true, errMsg(res.Err)) != nil || res.Err.Fatal {
					return
				}
				continue
			}
			if kind == 'S' {
				d := binary.BigEndian.AppendUint16(nil, uint16(n))
				for i := 0; i < n; i++ {
					d = binary.BigEndian.AppendUint32(d, Text)
				}
				if c.send(false, msg('t', d)) != nil {
					return
				}
			}
			if c.send(false, rowDesc(res.Cols)) != nil {
				return
			}
		case 'B':
			pn, rest, _ := cstr(b)
			sn, rest, _ := cstr(rest)
			args, fmts, err := bindArgs(rest)
			if err != nil {
				return
			}
			portals[pn] = portal{stmts[sn], args, fmts}
			if c.send(false, msg('2', nil)) != nil {
				return
			}
		case 'E':
			pn, _, _ := cstr(b)
			p := portals[pn]
			res := c.run(p.sql, p.args, false)
			if len(res.Cols) == 0 && res.Err == nil {
				res.Rows = nil
			}
			if !c.answer(res, p.fmts) {
				return
			}
			if res.Err != nil {
				skip = true
			}
		case 'C':
			if c.send(false, msg('3', nil)) != nil {
				return
			}
		case 'H':
			if c.send(true) != nil {
				return
			}
		case 'S':
			skip = false
			if c.send(true, c.ready()) != nil {
				return
			}
		}
	}
}

func read(rd *bufio.Reader) (byte, []byte, error) {
	var h [5]byte
	if _, err := io.ReadFull(rd, h[:]); err != nil {
		return 0, nil, err
	}
	n := int(binary.BigEndian.Uint32(h[1:]))
	if n < 4 || n > 1<<26 {
		return 0, nil, io.ErrUnexpectedEOF
	}
	b := make([]byte, n-4)
	_, err := io.ReadFull(rd, b)
	return h[0], b, err
}

func bindArgs(b []byte) ([]any, []int, error) {
	u16 := func() int {
		if len(b) < 2 {
			return 0
		}
		v := int(binary.BigEndian.Uint16(b))
		b = b[2:]
		return v
	}
	var formats []int
	for i, n := 0, u16(); i < n; i++ {
		formats = append(formats, u16())
	}
	n := u16()
	args := make([]any, n)
	for i := range args {
		if len(b) < 4 {
			return nil, nil, io.ErrUnexpectedEOF
		}
		l := int(int32(binary.BigEndian.Uint32(b)))
		b = b[4:]
		if l < 0 {
			continue
		}
		if len(b) < l {
			return nil, nil, io.ErrUnexpectedEOF
		}
		args[i] = string(b[:l])
		b = b[l:]
	}
	var fmts []int
	for i, n := 0, u16(); i < n; i++ {
		fmts = append(fmts, u16())
	}
	return args, fmts, nil
}

var reParam = regexp.MustCompile(`\$(\d+)`)

func params(q string) int {
	n := 0
	for _, m := range reParam.FindAllStringSubmatch(q, -1) {
		if v, _ := strconv.Atoi(m[1]); v > n {
			n = v
		}
	}
	return n
}

func rowDesc(cols []Col) []byte {
	if len(cols) == 0 {
		return msg('n', nil)
	}
	b := binary.BigEndian.AppendUint16(nil, uint16(len(cols)))
	for _, c := range cols {
		b = append(b, c.Name...)
		b = append(b, 0)
		b = append(b, 0, 0, 0, 0, 0, 0)
		oid := c.OID
		if oid == 0 {
			oid = Text
		}
		b = binary.BigEndian.AppendUint32(b, oid)
		b = append(b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0, 0)
	}
	return msg('T', b)
}

func dataRow(row []any, cols []Col, fmts []int) []byte {
	b := binary.BigEndian.AppendUint16(nil, uint16(len(row)))
	for i, v := range row {
		var s string
		bin := len(fmts) == 1 && fmts[0] == 1 || i < len(fmts) && len(fmts) > 1 && fmts[i] == 1
		if bin && v != nil && i < len(cols) && (cols[i].OID == Int8 || cols[i].OID == Int4) {
			n, _ := strconv.ParseInt(fmt.Sprint(v), 10, 64)
			d := binary.BigEndian.AppendUint64(nil, uint64(n))
			if cols[i].OID == Int4 {
				d = d[4:]
			}
			b = binary.BigEndian.AppendUint32(b, uint32(len(d)))
			b = append(b, d...)
			continue
		}
		switch x := v.(type) {
		case nil:
			b = append(b, 0xff, 0xff, 0xff, 0xff)
			continue
		case bool:
			s = "f"
			if x {
				s = "t"
			}
		case []byte:
			s = string(x)
		default:
			s = fmt.Sprint(x)
		}
		b = binary.BigEndian.AppendUint32(b, uint32(len(s)))
		b = append(b, s...)
	}
	return msg('D', b)
}

func (c *Session) fail(e *Error) {
	if c.tx == 'T' {
		c.tx = 'E'
	}
}

func (c *Session) describe(q string, n int) Result {
	if c.control(q) {
		return Result{}
	}
	return c.srv.Handle(c, q, make([]any, n), true)
}

// control tells whether the session itself answers the statement.
func (c *Session) control(q string) bool {
	w := firstWord(q)
	return w == "" || w == "LISTEN" || w == "UNLISTEN" || w == "BEGIN" || w == "COMMIT" || w == "ROLLBACK" || w == ";"
}

func firstWord(q string) string {
	f := strings.Fields(q)
	if len(f) == 0 {
		return ""
	}
	return strings.ToUpper(strings.TrimSuffix(f[0], ";"))
}

func ident(q string) string {
	s := strings.TrimSpace(q)
	i := strings.IndexAny(s, " \t\n")
	if i < 0 {
		return ""
	}
	s = strings.TrimSuffix(strings.TrimSpace(s[i:]), ";")
	if strings.HasPrefix(s, `"`) && strings.HasSuffix(s, `"`) && len(s) > 1 {
		return strings.ReplaceAll(s[1:len(s)-1], `""`, `"`)
	}
	return strings.ToLower(s)
}

func (c *Session) run(q string, args []any, simple bool) Result {
	var l []string
	for _, a := range args {
		if a == nil {
			l = append(l, "NULL")
		} else {
			l = append(l, fmt.Sprint(a))
		}
	}
	switch w := firstWord(q); w {
	case "", ";":
		return Result{}
	case "LISTEN", "UNLISTEN":
		topic := ident(q)
		if c.srv.OnListen != nil {
			if e := c.srv.OnListen(c, topic, w == "LISTEN"); e != nil {
				return Result{Err: e}
			}
		}
		c.srv.lock.Lock()
		if w == "LISTEN" {
			c.Listening[topic] = true
			c.srv.log = append(c.srv.log, Event{Session: c.ID, Kind: "listen", Text: topic})
		} else {
			if topic == "*" && !strings.Contains(q, `"`) {
				c.Listening = map[string]bool{}
			}
			delete(c.Listening, topic)
			c.srv.log = append(c.srv.log, Event{Session: c.ID, Kind: "unlisten", Text: topic})
		}
		c.srv.lock.Unlock()
		return Result{Tag: w}
	}
	c.srv.record(Event{Session: c.ID, Kind: "query", Text: q, Args: l})
	if c.tx == 'E' {
		if w := firstWord(q); w != "ROLLBACK" && w != "COMMIT" {
			return Result{Err: &Error{Code: "25P02", Msg: "current transaction is aborted"}}
		}
	}
	switch firstWord(q) {
	case "BEGIN":
		if r := c.srv.Handle(c, q, args, false); r.Err != nil || r.Drop {
			return r
		}
		c.tx = 'T'
		return Result{Tag: "BEGIN"}
	case "COMMIT", "ROLLBACK":
		tag := firstWord(q)
		if c.tx == 'E' {
			tag = "ROLLBACK"
		}
		c.tx = 'I'
		if r := c.srv.Handle(c, tag, args, false); r.Err != nil || r.Drop {
			return r
		}
		return Result{Tag: tag}
	}
	return c.srv.Handle(c, q, args, false)
}

func (c *Session) simple(q string) bool {
	if strings.TrimSpace(strings.Trim(strings.TrimSpace(q), ";")) == "" {
		return c.send(true, msg('I', nil), c.ready()) == nil
	}
	res := c.run(q, nil, true)
	if len(res.Cols) > 0 && (res.Err == nil || res.ErrAfter > 0) {
		if c.send(false, rowDesc(res.Cols)) != nil {
			return false
		}
	}
	if !c.answer(res, nil) {
		return false
	}
	return c.send(true, c.ready()) == nil
}

// answer sends rows and completion; false when the connection is gone.
func (c *Session) answer(res Result, fmts []int) bool {
	if res.Delay > 0 {
		_ = c.send(true)
		select {
		case <-time.After(res.Delay):
		case <-c.cancel:
			res = Result{Err: &Error{Code: "57014", Msg: "canceling statement due to user request"}}
		}
	}
	for i, r := range res.Rows {
		if res.Drop && i >= res.DropAfter {
			break
		}
		if res.Err != nil && i >= res.ErrAfter {
			break
		}
		if c.send(false, dataRow(r, res.Cols, fmts)) != nil {
			return false
		}
	}
	if res.Drop {
		_ = c.send(true)
		return false
	}
	if res.Err != nil {
		c.fail(res.Err)
		return c.send(true, errMsg(res.Err)) == nil && !res.Err.Fatal
	}
	tag := res.Tag
	if tag == "" {
		tag = "SELECT " + strconv.Itoa(len(res.Rows))
	}
	return c.send(false, msg('C', append([]byte(tag), 0))) == nil
}
