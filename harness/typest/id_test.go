// Package typest monitors the column types, query parameters, error helpers
// and metadata maps.
package typest

import (
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand/v2"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"

	"gopkg.in/yaml.v3"

	"github.com/effective-security/xdb"

	"verif/mon"
	"verif/tval"
)

// makeID produces the number through one of the public ways, into a variable
// that may already hold something else. ok is false when the way cannot
// express the number.
var idWays = []struct {
	name string
	f    func(v *xdb.ID, u uint64) (ok bool, err error)
}{
	{"NewID", func(v *xdb.ID, u uint64) (bool, error) { *v = xdb.NewID(u); return true, nil }},
	{"MustID", func(v *xdb.ID, u uint64) (bool, error) {
		if u == 0 {
			return false, nil
		}
		*v = xdb.MustID(dec(u))
		return true, nil
	}},
	{"ParseID", func(v *xdb.ID, u uint64) (bool, error) {
		if u == 0 {
			return false, nil
		}
		x, err := xdb.ParseID(dec(u))
		*v = x
		return true, err
	}},
	{"TryParseID", func(v *xdb.ID, u uint64) (bool, error) { *v = xdb.TryParseID(dec(u)); return true, nil }},
	{"Set", func(v *xdb.ID, u uint64) (bool, error) {
		if u == 0 {
			return false, nil
		}
		return true, v.Set(dec(u))
	}},
	{"Reset", func(v *xdb.ID, u uint64) (bool, error) {
		if u != 0 {
			return false, nil
		}
		v.Reset()
		return true, nil
	}},
	{"json number", func(v *xdb.ID, u uint64) (bool, error) { return true, json.Unmarshal([]byte(dec(u)), v) }},
	{"json string", func(v *xdb.ID, u uint64) (bool, error) {
		return true, json.Unmarshal([]byte(`"`+dec(u)+`"`), v)
	}},
	{"json direct", func(v *xdb.ID, u uint64) (bool, error) { return true, v.UnmarshalJSON([]byte(dec(u))) }},
	{"yaml", func(v *xdb.ID, u uint64) (bool, error) { return true, yaml.Unmarshal([]byte(dec(u)+"\n"), v) }},
	{"scan uint64", func(v *xdb.ID, u uint64) (bool, error) { return true, v.Scan(u) }},
	{"scan int64", func(v *xdb.ID, u uint64) (bool, error) { return true, v.Scan(int64(u)) }},
	{"scan int", func(v *xdb.ID, u uint64) (bool, error) { return true, v.Scan(int(u)) }},
	{"scan uint", func(v *xdb.ID, u uint64) (bool, error) { return true, v.Scan(uint(u)) }},
	{"scan nil", func(v *xdb.ID, u uint64) (bool, error) {
		if u != 0 {
			return false, nil
		}
		return true, v.Scan(nil)
	}},
}

func dec(u uint64) string { return strconv.FormatUint(u, 10) }

// idWrong tells how the views of an ID disagree with the number.
func idWrong(v xdb.ID, u uint64) string {
	s := dec(u)
	str, q, us := s, `"`+s+`"`, "_"+s
	var dv driver.Value = int64(u)
	if u == 0 {
		str, q, us, dv = "", "", "", nil
	}
	bad := func(what string, got, want any) string {
		return fmt.Sprintf("%s = %v (%T), want %v", what, got, got, want)
	}
	if g := v.UInt64(); g != u {
		return bad("UInt64", g, u)
	}
	if g := v.String(); g != str {
		return bad("String", strconv.Quote(g), str)
	}
	if g := v.QuotedString(); g != q {
		return bad("QuotedString", g, q)
	}
	if g := v.UnderscoreString(); g != us {
		return bad("UnderscoreString", g, us)
	}
	if v.Valid() != (u != 0) || v.Invalid() != (u == 0) || v.IsZero() != (u == 0) {
		return fmt.Sprintf("Valid %v Invalid %v IsZero %v for %d", v.Valid(), v.Invalid(), v.IsZero(), u)
	}
	if g, err := json.Marshal(v); err != nil || string(g) != s {
		return bad("JSON", string(g), s)
	}
	if g, err := json.Marshal(map[string]any{"a": &v}); err != nil || string(g) != `{"a":`+s+`}` {
		return bad("JSON in a map", string(g), s)
	}
	if g, err := yaml.Marshal(v); err != nil || strings.TrimSpace(string(g)) != s {
		return bad("YAML", string(g), s)
	}
	if g, err := v.Value(); err != nil || g != dv {
		return bad("Value", g, dv)
	}
	if g := fmt.Sprint(v); g != str {
		return bad("formatted", g, str)
	}
	return ""
}

func idValues(m *mon.M) {
	for n := 0; n < m.N(4000, 60000); n++ {
		r := m.Rand("values", n)
		u := tval.Uint64(r)
		if r.IntN(10) == 0 {
			u = 0
		}
		for _, w := range idWays {
			var v xdb.ID
			held := uint64(0)
			if r.IntN(2) == 0 {
				held = tval.Uint64(r)
				v = xdb.NewID(held)
				if r.IntN(2) == 0 {
					_ = v.String()
				}
			}
			m.Guard("id:"+w.name, u, func() {
				ok, err := w.f(&v, u)
				if !ok {
					return
				}
				m.Eval(u != 0, w.name, u)
				m.Count("way:"+w.name, 1)
				if err != nil {
					m.Fail("make:"+w.name, "%s of %d into an ID holding %d: %v", w.name, u, held, err)
					return
				}
				if msg := idWrong(v, u); msg != "" {
					m.Fail("view:"+w.name, "%s of %d into an ID holding %d: %s", w.name, u, held, msg)
				}
			})
		}
	}
}

// decimal tells whether s is the decimal representation of a non-zero 64-bit
// number; leading zeros are left open.
func decimal(s string) (val uint64, ok, open bool) {
	if s == "" {
		return 0, false, false
	}
	for _, c := range []byte(s) {
		if c < '0' || c > '9' {
			return 0, false, false
		}
	}
	b, _ := new(big.Int).SetString(s, 10)
	if b == nil || !b.IsUint64() || b.Sign() == 0 {
		return 0, false, false
	}
	return b.Uint64(), true, s[0] == '0'
}

func idText(r *rand.Rand) string {
	s := dec(tval.Uint64(r))
	switch r.IntN(9) {
	case 0:
		return []string{"", "0", "00", "-1", "+1", " 1", "1 ", "1.0", "1e3", "0x10", "1_000", "abc", "null", `"5"`, "18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103232", "99999999999999999999", "184467440737095516150", "१२", "1\n", "\x001", "0b1", "--1", "9223372036854775808", "-9223372036854775808", "Inf", "NaN"}[r.IntN(29)]
	case 1:
		b := []byte(s)
		b[r.IntN(len(b))] = byte(r.IntN(128))
		return string(b)
	case 2:
		i := r.IntN(len(s) + 1)
		return s[:i] + string(rune(32+r.IntN(95))) + s[i:]
	case 3:
		b := new(big.Int).SetUint64(tval.Uint64(r))
		b.Mul(b, big.NewInt(int64(r.IntN(100)+1)))
		b.Add(b, big.NewInt(int64(r.IntN(20))))
		return b.String()
	case 4:
		return "-" + s
	case 5:
		return tval.Text(r)
	}
	return s
}

func idParsing(m *mon.M) {
	for n := 0; n < m.N(30000, 400000); n++ {
		r := m.Rand("parse", n)
		s := idText(r)
		u, ok, open := decimal(s)
		m.Eval(true, "parse", s)
		if ok {
			m.Count("parse-valid", 1)
		} else {
			m.Count("parse-invalid", 1)
		}
		check := func(way string, v xdb.ID, err error, kept uint64, noErr bool) {
			switch {
			case ok && (err != nil || v.UInt64() != u || v.String() != s):
				m.Fail("parse:"+way, "%s(%q) = %d (%s), %v", way, s, v.UInt64(), v, err)
			case !ok && !noErr && err == nil:
				m.Fail("accept:"+way, "%s(%q) accepted as %d", way, s, v.UInt64())
			case !ok && v.UInt64() != 0 && v.UInt64() != kept:
				m.Fail("accept:"+way, "%s(%q) failed but left %d", way, s, v.UInt64())
			}
		}
		idDocs(m, s)
		if open {
			continue
		}
		v, err := xdb.ParseID(s)
		check("ParseID", v, err, 0, false)
		check("TryParseID", xdb.TryParseID(s), nil, 0, true)
		held := tval.Uint64(r)
		w := xdb.NewID(held)
		cp := w
		err = w.Set(s)
		check("Set", w, err, held, false)
		if cp.UInt64() != held || cp.String() != dec(held) {
			m.Fail("copy:Set", "Set(%q) changed a copy from %d to %d", s, held, cp.UInt64())
		}
		func() {
			defer func() {
				if p := recover(); (p != nil) == ok {
					m.Fail("parse:MustID", "MustID(%q): panic %v", s, p)
				}
			}()
			check("MustID", xdb.MustID(s), nil, 0, false)
		}()
		if pu, err := xdb.ParseUint(s); ok && (err != nil || pu != u) || !ok && err == nil && pu != 0 {
			m.Fail("parse:ParseUint", "ParseUint(%q) = %d, %v", s, pu, err)
		}
		// list of strings: bad entries are left out
		l := xdb.IDArrayFromStrings([]string{s})
		if ok && (len(l) != 1 || l[0].UInt64() != u) || !ok && len(l) != 0 {
			m.Fail("parse:list", "IDArrayFromStrings(%q) = %v", s, l)
		}
		if u != 0 && (xdb.IDString(u) != s || xdb.QuotedIDString(u) != `"`+s+`"`) {
			m.Fail("text:IDString", "IDString(%d) = %q", u, xdb.IDString(u))
		}
	}
}

// idDocs decodes JSON documents made of the text. The empty text and
// zero stand for no ID; leading zeros are left open.
func idDocs(m *mon.M, s string) {
	digits := s != "" && strings.Trim(s, "0123456789") == ""
	judge := func(doc string, err error, v xdb.ID) {
		m.Count("documents", 1)
		if err != nil {
			if u, ok, open := decimal(s); ok && !open {
				m.Fail("document", "%q fails for %d: %v", doc, u, err)
			}
			return
		}
		if s == "" || s == "0" {
			if v.UInt64() != 0 {
				m.Fail("document", "%q gives %d", doc, v.UInt64())
			}
			return
		}
		b, _ := new(big.Int).SetString(s, 10)
		if !digits || b == nil || !b.IsUint64() || b.Uint64() != v.UInt64() {
			m.Fail("document", "%q is accepted as %d", doc, v.UInt64())
		} else if w := idWrong(v, b.Uint64()); w != "" {
			m.Fail("document", "%q: %s", doc, w)
		}
	}
	if q, err := json.Marshal(s); err == nil {
		var v xdb.ID
		judge(string(q), json.Unmarshal(q, &v), v)
		var in struct{ L []xdb.ID }
		doc := `{"L":[` + string(q) + `]}`
		if err := json.Unmarshal([]byte(doc), &in); err != nil || len(in.L) == 1 {
			var one xdb.ID
			if err == nil {
				one = in.L[0]
			}
			judge(doc, err, one)
		}
	}
	if s == strings.TrimSpace(s) && s != "null" && json.Valid([]byte(s)) && !strings.ContainsAny(s[:1], `"{[`) {
		var v xdb.ID
		judge(s, json.Unmarshal([]byte(s), &v), v)
	}
}

// idCopies runs histories over several variables that were copied from each
// other and checks all of them after every step.
func idCopies(m *mon.M) {
	for n := 0; n < m.N(600, 8000); n++ {
		r := m.Rand("copies", n)
		vars := make([]xdb.ID, 6)
		model := make([]uint64, len(vars))
		var log []string
		for s := 0; s < 40; s++ {
			i, j := r.IntN(len(vars)), r.IntN(len(vars))
			u := tval.Uint64(r)
			if r.IntN(8) == 0 {
				u = 0
			}
			switch r.IntN(3) {
			case 0:
				vars[i] = vars[j]
				model[i] = model[j]
				log = append(log, fmt.Sprintf("v%d=v%d", i, j))
			case 1:
				w := idWays[r.IntN(len(idWays))]
				ok, err := w.f(&vars[i], u)
				if err != nil {
					m.Fail("make:"+w.name, "%s of %d: %v", w.name, u, err)
				}
				if ok {
					model[i] = u
					log = append(log, fmt.Sprintf("v%d:%s(%d)", i, w.name, u))
				}
			case 2:
				_ = vars[i].String()
				_ = vars[i].QuotedString()
				log = append(log, fmt.Sprintf("read v%d", i))
			}
			m.Count("copy-steps", 1)
			for k := range vars {
				v := vars[k]
				if r.IntN(2) == 0 {
					if v.UInt64() != model[k] {
						m.Fail("copies", "v%d is %d, want %d after %s", k, v.UInt64(), model[k], strings.Join(log, "; "))
						return
					}
					continue
				}
				if msg := idWrong(v, model[k]); msg != "" {
					m.Fail("copies", "v%d: %s after %s", k, msg, strings.Join(log, "; "))
					return
				}
			}
		}
		m.Eval(true, strings.Join(log, ";"))
		if n < 3 {
			m.Sample(strings.Join(log[:10], "; "))
		}
	}
}

// idShared reads copies of one ID from several goroutines while others change
// their own copies.
func idShared(m *mon.M) {
	for n := 0; n < m.N(1500, 20000); n++ {
		r := m.Rand("shared", n)
		u := tval.Uint64(r)
		var v xdb.ID
		w := idWays[r.IntN(len(idWays))]
		if ok, err := w.f(&v, u); err != nil || !ok {
			continue
		}
		const g = 8
		start := make(chan struct{})
		var wg sync.WaitGroup
		order := make([]int32, 0, g)
		var mu sync.Mutex
		for i := 0; i < g; i++ {
			role := r.IntN(4)
			way := idWays[r.IntN(len(idWays))]
			u2 := tval.Uint64(r)
			y := r.IntN(3)
			c := v
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < y; k++ {
					runtime.Gosched()
				}
				want := u
				if role == 0 {
					if ok, err := way.f(&c, u2); ok && err == nil {
						want = u2
					}
				}
				msg := idWrong(c, want)
				mu.Lock()
				order = append(order, int32(i))
				mu.Unlock()
				if msg != "" {
					m.Fail("shared", "copy of %d made by %s: %s", u, w.name, msg)
				}
			}()
		}
		// sharing by pointer for reading
		p := &v
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if s := p.String(); s != dec(u) {
					m.Fail("shared", "String of shared %d is %q", u, s)
				}
				_, _ = p.Value()
				_, _ = json.Marshal(p)
			}()
		}
		close(start)
		wg.Wait()
		m.Count("shared-rounds", 1)
		m.State("finish-order", order)
		m.Eval(true, "shared", u, w.name)
	}
}

func TestC10(t *testing.T) {
	mon.Run(t, "C10", "a case is one ID made in one way, one parsed text, one history of copies or one round of concurrent readers", func(m *mon.M) {
		idValues(m)
		idParsing(m)
		idCopies(m)
		idShared(m)
		m.Need("shared-rounds", 500)
		m.Need("parse-valid", 1000)
		m.Need("parse-invalid", 1000)
	})
}
