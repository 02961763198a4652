// Package tdsfake is a minimal server for the SQL Server wire protocol: it
// records logins and answers statements as told.
package tdsfake

import (
	"database/sql"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf16"
)

// Login is what a client sent to log in.
type Login struct {
	User, Password, App, Server, Database, Host string
}

type Server struct {
	// Reject makes logins fail.
	Reject atomic.Bool
	// FailQueries answers statements with an error.
	FailQueries atomic.Bool
	// Refuse drops connections at once.
	Refuse atomic.Bool
	// Handle, set before clients come, answers statements; all are acknowledged otherwise.
	Handle func(Statement) Result

	ln      net.Listener
	mu      sync.Mutex
	logins  []Login
	queries []string
	live    map[net.Conn]bool
	wg      sync.WaitGroup
}

func New() *Server {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &Server{ln: ln, live: map[net.Conn]bool{}}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.live[c] = true
			s.mu.Unlock()
			s.wg.Add(1)
			go func() {
				defer s.wg.Done()
				s.serve(c)
				_ = c.Close()
				s.mu.Lock()
				delete(s.live, c)
				s.mu.Unlock()
			}()
		}
	}()
	return s
}

func (s *Server) Addr() string { return s.ln.Addr().String() }

func (s *Server) Close() {
	_ = s.ln.Close()
	s.mu.Lock()
	for c := range s.live {
		_ = c.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
}

// Open counts connections.
func (s *Server) Open() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.live)
}

// Reset forgets and Logins returns the logins.
func (s *Server) Reset() {
	s.mu.Lock()
	s.logins, s.queries = nil, nil
	s.mu.Unlock()
}

func (s *Server) Logins() []Login {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Login(nil), s.logins...)
}

func (s *Server) Queries() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.queries...)
}

func readMsg(c net.Conn) (byte, []byte, error) {
	var all []byte
	for {
		var h [8]byte
		if _, err := io.ReadFull(c, h[:]); err != nil {
			return 0, nil, err
		}
		n := int(binary.BigEndian.Uint16(h[2:])) - 8
		if n < 0 {
			return 0, nil, io.ErrUnexpectedEOF
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(c, b); err != nil {
			return 0, nil, err
		}
		all = append(all, b...)
		if h[1]&1 != 0 {
			return h[0], all, nil
		}
	}
}

func reply(c net.Conn, b []byte) error {
	for no := byte(1); ; no++ {
		n := min(len(b), 4000)
		h := []byte{4, 0, 0, 0, 0, 0, no, 0}
		if n == len(b) {
			h[1] = 1
		}
		binary.BigEndian.PutUint16(h[2:], uint16(n+8))
		if _, err := c.Write(append(h, b[:n]...)); err != nil {
			return err
		}
		if b = b[n:]; len(b) == 0 {
			return nil
		}
	}
}

func ucs2(s string) []byte {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u), byte(u>>8))
	}
	return b
}

func text(b []byte) string {
	u := make([]uint16, len(b)/2)
	for i := range u {
		u[i] = binary.LittleEndian.Uint16(b[2*i:])
	}
	return string(utf16.Decode(u))
}

func done(status byte) []byte {
	return []byte{0xFD, status, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
}

func errTok(msg string) []byte {
	m := ucs2(msg)
	body := []byte{0x14, 0x48, 0, 0, 1, 14}
	body = binary.LittleEndian.AppendUint16(body, uint16(len(m)/2))
	body = append(body, m...)
	body = append(body, 0, 0, 1, 0, 0, 0)
	t := []byte{0xAA}
	t = binary.LittleEndian.AppendUint16(t, uint16(len(body)))
	return append(t, body...)
}

func (s *Server) serve(c net.Conn) {
	if s.Refuse.Load() {
		return
	}
	_ = c.SetDeadline(time.Now().Add(60 * time.Second))
	t, _, err := readMsg(c)
	if err != nil || t != 0x12 {
		return
	}
	// version and encryption: not supported
	pre := []byte{0, 0, 11, 0, 6, 1, 0, 17, 0, 1, 0xFF, 16, 0, 0, 0, 0, 0, 2}
	if reply(c, pre) != nil {
		return
	}
	t, b, err := readMsg(c)
	if err != nil || t != 0x10 || len(b) < 94 {
		return
	}
	field := func(off int) []byte {
		o := int(binary.LittleEndian.Uint16(b[off:]))
		n := int(binary.LittleEndian.Uint16(b[off+2:])) * 2
		if o+n > len(b) {
			n = len(b) - o
		}
		return b[o : o+n]
	}
	pw := append([]byte(nil), field(44)...)
	for i, v := range pw {
		v ^= 0xA5
		pw[i] = v<<4 | v>>4
	}
	l := Login{Host: text(field(36)), User: text(field(40)), Password: text(pw), App: text(field(48)), Server: text(field(52)), Database: text(field(68))}
	s.mu.Lock()
	s.logins = append(s.logins, l)
	sess := len(s.logins)
	s.mu.Unlock()
	if s.Reject.Load() {
		_ = reply(c, append(errTok("Login failed."), done(2)...))
		return
	}
	name := ucs2("fake")
	ack := []byte{1, 0x74, 0, 0, 4, byte(len(name) / 2)}
	ack = append(ack, name...)
	ack = append(ack, 16, 0, 0, 0)
	tok := []byte{0xAD}
	tok = binary.LittleEndian.AppendUint16(tok, uint16(len(ack)))
	tok = append(tok, ack...)
	if reply(c, append(tok, done(0)...)) != nil {
		return
	}
	for {
		t, b, err := readMsg(c)
		if err != nil {
			return
		}
		if t == 6 { // attention
			if reply(c, done(0x20)) != nil {
				return
			}
			continue
		}
		st := parse(t, b)
		s.mu.Lock()
		s.queries = append(s.queries, st.SQL)
		s.mu.Unlock()
		var res Result
		switch {
		case s.FailQueries.Load():
			res.Err = "no"
		case s.Handle != nil:
			st.Database, st.Session = l.Database, sess
			res = s.Handle(st)
		}
		if res.Drop {
			return
		}
		if reply(c, encode(st, res)) != nil {
			return
		}
	}
}

// Result answers a statement; values are nil, string, bool or int64, all sent as text.
type Result struct {
	Cols []string
	Rows [][]any
	Err  string
	// ErrNumber is the number of the error, 50000 by default.
	ErrNumber uint32
	// Return is the status of a procedure.
	Return int32
	// Drop cuts the connection instead of answering.
	Drop bool
}

// Statement is what a client asks for.
type Statement struct {
	Session  int
	Database string
	// SQL is the text, the name of a procedure, or BEGIN, COMMIT or ROLLBACK.
	SQL  string
	Proc bool
	Args []any // sql.NamedArg
}

// parse reads a request.
func parse(t byte, b []byte) Statement {
	if len(b) >= 4 { // headers
		if n := int(binary.LittleEndian.Uint32(b)); n >= 4 && n <= len(b) {
			b = b[n:]
		}
	}
	switch t {
	case 1:
		return Statement{SQL: text(b)}
	case 14:
		if len(b) >= 2 {
			switch binary.LittleEndian.Uint16(b) {
			case 5:
				return Statement{SQL: "BEGIN"}
			case 7:
				return Statement{SQL: "COMMIT"}
			case 8:
				return Statement{SQL: "ROLLBACK"}
			}
		}
	case 3:
		return parseRPC(b)
	}
	return Statement{SQL: "?"}
}

func parseRPC(b []byte) (st Statement) {
	defer func() {
		if recover() != nil {
			st.SQL = "?"
		}
	}()
	n := int(binary.LittleEndian.Uint16(b))
	b = b[2:]
	if n == 0xFFFF {
		b = b[2:]
	} else {
		st.Proc, st.SQL = true, text(b[:2*n])
		b = b[2*n:]
	}
	b = b[2:] // flags
	for i := 0; len(b) > 0; i++ {
		ln := int(b[0])
		name := text(b[1 : 1+2*ln])
		b = b[1+2*ln:]
		b = b[1:] // status
		var v any
		typ := b[0]
		b = b[1:]
		switch typ {
		case 0x1F: // null
			continue
		case 0x26, 0x68, 0x6D: // int, bit, float
			b = b[1:]
			k := int(b[0])
			b = b[1:]
			var x int64
			for j := k - 1; j >= 0; j-- {
				x = x<<8 | int64(b[j])
			}
			switch {
			case k == 0:
			case typ == 0x68:
				v = x != 0
			default:
				if k < 8 {
					x = x << (64 - 8*k) >> (64 - 8*k)
				}
				v = x
			}
			b = b[k:]
		case 0xE7, 0xEF, 0xA7, 0xAF, 0xA5, 0xAD:
			size := binary.LittleEndian.Uint16(b)
			b = b[2:]
			if typ != 0xA5 && typ != 0xAD {
				b = b[5:] // collation
			}
			var data []byte
			null := false
			if size == 0xFFFF {
				total := binary.LittleEndian.Uint64(b)
				b = b[8:]
				if null = total == ^uint64(0); !null {
					for {
						k := int(binary.LittleEndian.Uint32(b))
						b = b[4:]
						if k == 0 {
							break
						}
						data = append(data, b[:k]...)
						b = b[k:]
					}
				}
			} else {
				k := int(binary.LittleEndian.Uint16(b))
				b = b[2:]
				if null = k == 0xFFFF; !null {
					data = b[:k]
					b = b[k:]
				}
			}
			switch {
			case null:
			case typ == 0xE7 || typ == 0xEF:
				v = text(data)
			default:
				v = string(data)
			}
		default:
			panic("type")
		}
		switch {
		case !st.Proc && i == 0:
			st.SQL, _ = v.(string)
		case !st.Proc && i == 1: // declarations
		default:
			st.Args = append(st.Args, sql.Named(strings.TrimPrefix(name, "@"), v))
		}
	}
	return st
}

func encode(st Statement, res Result) []byte {
	var b []byte
	if res.Cols != nil {
		b = append(b, 0x81)
		b = binary.LittleEndian.AppendUint16(b, uint16(len(res.Cols)))
		for _, n := range res.Cols {
			b = append(b, 0, 0, 0, 0, 1, 0, 0xE7, 0x40, 0x1F, 9, 4, 0xD0, 0, 0x34)
			u := ucs2(n)
			b = append(b, byte(len(u)/2))
			b = append(b, u...)
		}
		for _, r := range res.Rows {
			b = append(b, 0xD1)
			for _, v := range r {
				if v == nil {
					b = append(b, 0xFF, 0xFF)
					continue
				}
				u := ucs2(fmt.Sprint(v))
				b = binary.LittleEndian.AppendUint16(b, uint16(len(u)))
				b = append(b, u...)
			}
		}
	}
	if res.Err != "" {
		n := res.ErrNumber
		if n == 0 {
			n = 50000
		}
		e := errTok(res.Err)
		binary.LittleEndian.PutUint32(e[3:], n)
		return append(append(b, e...), done(2)...)
	}
	switch st.SQL {
	case "BEGIN":
		b = append(b, 0xE3, 11, 0, 8, 8, 1, 0, 0, 0, 0, 0, 0, 0, 0)
	case "COMMIT":
		b = append(b, 0xE3, 11, 0, 9, 0, 8, 1, 0, 0, 0, 0, 0, 0, 0)
	case "ROLLBACK":
		b = append(b, 0xE3, 11, 0, 10, 0, 8, 1, 0, 0, 0, 0, 0, 0, 0)
	}
	if st.Proc {
		b = append(b, 0x79)
		b = binary.LittleEndian.AppendUint32(b, uint32(res.Return))
	}
	d := done(0x10)
	binary.LittleEndian.PutUint64(d[5:], uint64(len(res.Rows)))
	return append(b, d...)
}
