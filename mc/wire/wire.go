// Package wire is an independent reference implementation of the HBCI/FinTS
// wire syntax: a strict parser for what the client sends and an encoder for
// what the bank answers. It shares no code with the implementation.
package wire

import (
	"fmt"
	"strconv"
	"strings"
)

// Val is one data element value, unescaped.
type Val struct {
	S   string
	Bin bool
}

// Seg is a parsed segment. DE[0] is the header group.
type Seg struct {
	ID       string
	Num, Ver int
	Ref      int
	DE       [][]Val
	Raw      string
	Off      int
}

// E returns the value of data element i (1 based, after the header), group
// element j (0 based); "" when absent.
func (s *Seg) E(i, j int) string {
	if s == nil || i >= len(s.DE) || j >= len(s.DE[i]) {
		return ""
	}
	return s.DE[i][j].S
}

// Group renders data element i with ':' between its values (for comparison).
func (s *Seg) Group(i int) string {
	if s == nil || i >= len(s.DE) {
		return ""
	}
	var out []string
	for _, v := range s.DE[i] {
		out = append(out, v.S)
	}
	return strings.Join(out, ":")
}

func (s *Seg) String() string { return s.Raw }

// Parse splits a message into segments.
func Parse(msg string) ([]*Seg, error) {
	var segs []*Seg
	i := 0
	for i < len(msg) {
		start := i
		seg := &Seg{Ref: -1, Off: start}
		var group []Val
		var cur strings.Builder
		bin := false
		atStart := true
		done := false
		flush := func() {
			group = append(group, Val{cur.String(), bin})
			cur.Reset()
			bin = false
			atStart = true
		}
		for i < len(msg) {
			ch := msg[i]
			switch ch {
			case '?':
				if i+1 >= len(msg) {
					return nil, fmt.Errorf("dangling escape at %d", i)
				}
				switch msg[i+1] {
				case '?', '+', ':', '\'', '@':
				default:
					return nil, fmt.Errorf("escape of non-syntax byte %q at %d", msg[i+1], i)
				}
				cur.WriteByte(msg[i+1])
				atStart = false
				i += 2
				continue
			case '@':
				if !atStart {
					return nil, fmt.Errorf("unescaped @ inside a value at %d", i)
				}
				j := strings.IndexByte(msg[i+1:], '@')
				if j < 0 {
					return nil, fmt.Errorf("unterminated binary length at %d", i)
				}
				n, err := strconv.Atoi(msg[i+1 : i+1+j])
				if err != nil || n < 0 {
					return nil, fmt.Errorf("bad binary length %q at %d", msg[i+1:i+1+j], i)
				}
				b := i + 1 + j + 1
				if b+n > len(msg) {
					return nil, fmt.Errorf("binary data at %d longer than the message", i)
				}
				cur.WriteString(msg[b : b+n])
				bin = true
				i = b + n
				atStart = false
				if i >= len(msg) || !strings.ContainsRune("+:'", rune(msg[i])) {
					return nil, fmt.Errorf("binary data at %d not followed by a separator", b)
				}
				continue
			case ':':
				flush()
				i++
				continue
			case '+':
				flush()
				seg.DE = append(seg.DE, group)
				group = nil
				i++
				continue
			case '\'':
				flush()
				seg.DE = append(seg.DE, group)
				i++
				done = true
			default:
				cur.WriteByte(ch)
				atStart = false
				i++
				continue
			}
			if done {
				break
			}
		}
		if !done {
			return nil, fmt.Errorf("segment at %d is not terminated", start)
		}
		seg.Raw = msg[start:i]
		h := seg.DE[0]
		if len(h) < 3 || len(h) > 4 {
			return nil, fmt.Errorf("segment header %q has %d elements", seg.Raw, len(h))
		}
		seg.ID = h[0].S
		var err error
		if seg.Num, err = strconv.Atoi(h[1].S); err != nil {
			return nil, fmt.Errorf("segment number in %q", seg.Raw)
		}
		if seg.Ver, err = strconv.Atoi(h[2].S); err != nil {
			return nil, fmt.Errorf("segment version in %q", seg.Raw)
		}
		if len(h) == 4 && h[3].S != "" {
			if seg.Ref, err = strconv.Atoi(h[3].S); err != nil {
				return nil, fmt.Errorf("segment reference in %q", seg.Raw)
			}
		}
		segs = append(segs, seg)
	}
	return segs, nil
}

// Message is a parsed client message.
type Message struct {
	Raw       string
	Outer     []*Seg // HNHBK ... HNHBS as on the wire
	Inner     []*Seg // the order segments, decrypted if needed, without HNHBK/HNHBS/HNSHK/HNSHA
	Header    *Seg
	End       *Seg
	Encrypted bool
	CryptHead *Seg   // HNVSK
	SigHead   *Seg   // HNSHK
	SigEnd    *Seg   // HNSHA
	All       []*Seg // every segment in order of appearance, inner ones included
	DialogID  string
	Number    int
	Size      int
	Version   int
	Payload   string // decrypted HNVSD content
}

// Find returns the first inner segment with the given ID.
func (m *Message) Find(id string) *Seg {
	for _, s := range m.Inner {
		if s.ID == id {
			return s
		}
	}
	return nil
}

// IDs lists the inner segment IDs with versions.
func (m *Message) IDs() string {
	var out []string
	for _, s := range m.Inner {
		out = append(out, fmt.Sprintf("%s:%d", s.ID, s.Ver))
	}
	return strings.Join(out, " ")
}

// ParseMessage parses a client message, looking into the PIN/TAN encryption
// envelope, and checks only what is needed to do that.
func ParseMessage(raw string) (*Message, error) {
	segs, err := Parse(raw)
	if err != nil {
		return nil, err
	}
	if len(segs) < 2 {
		return nil, fmt.Errorf("message has %d segments", len(segs))
	}
	m := &Message{Raw: raw, Outer: segs, Header: segs[0], End: segs[len(segs)-1]}
	if m.Header.ID != "HNHBK" || m.End.ID != "HNHBS" {
		return nil, fmt.Errorf("message starts with %s and ends with %s", m.Header.ID, m.End.ID)
	}
	if m.Size, err = strconv.Atoi(m.Header.E(1, 0)); err != nil {
		return nil, fmt.Errorf("message size %q", m.Header.E(1, 0))
	}
	if m.Version, err = strconv.Atoi(m.Header.E(2, 0)); err != nil {
		return nil, fmt.Errorf("HBCI version %q", m.Header.E(2, 0))
	}
	m.DialogID = m.Header.E(3, 0)
	if m.Number, err = strconv.Atoi(m.Header.E(4, 0)); err != nil {
		return nil, fmt.Errorf("message number %q", m.Header.E(4, 0))
	}
	m.All = append(m.All, m.Header)
	body := segs[1 : len(segs)-1]
	if len(body) > 0 && body[0].ID == "HNVSK" {
		if len(body) != 2 || body[1].ID != "HNVSD" {
			return nil, fmt.Errorf("encrypted message with unexpected segments")
		}
		m.Encrypted = true
		m.CryptHead = body[0]
		if len(body[1].DE) != 2 || len(body[1].DE[1]) != 1 || !body[1].DE[1][0].Bin {
			return nil, fmt.Errorf("HNVSD carries no binary element: %q", body[1].Raw)
		}
		m.Payload = body[1].E(1, 0)
		inner, err := Parse(m.Payload)
		if err != nil {
			return nil, fmt.Errorf("encrypted payload: %v (%q)", err, m.Payload)
		}
		body = inner
	}
	m.All = append(m.All, body...)
	m.All = append(m.All, m.End)
	if len(body) > 0 && body[0].ID == "HNSHK" {
		m.SigHead = body[0]
		body = body[1:]
	}
	if len(body) > 0 && body[len(body)-1].ID == "HNSHA" {
		m.SigEnd = body[len(body)-1]
		body = body[:len(body)-1]
	}
	m.Inner = body
	return m, nil
}

// ---- encoder ---------------------------------------------------------------

// Raw is inserted verbatim.
type Raw string

// Bin is inserted as @len@data.
type Bin string

// G is a data element group.
type G []any

// Esc escapes a text value.
func Esc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte("?+:'@", s[i]) >= 0 {
			b.WriteByte('?')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func enc(v any) string {
	switch x := v.(type) {
	case nil:
		return ""
	case Raw:
		return string(x)
	case Bin:
		return fmt.Sprintf("@%d@%s", len(x), string(x))
	case string:
		return Esc(x)
	case int:
		return strconv.Itoa(x)
	case bool:
		if x {
			return "J"
		}
		return "N"
	case G:
		var out []string
		for _, e := range x {
			out = append(out, enc(e))
		}
		return strings.Join(out, ":")
	case []string:
		var out []string
		for _, e := range x {
			out = append(out, Esc(e))
		}
		return strings.Join(out, ":")
	}
	panic(fmt.Sprintf("wire: cannot encode %T", v))
}

// S encodes a segment. ref < 0 omits the reference.
func S(id string, num, ver, ref int, des ...any) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s:%d:%d", id, num, ver)
	if ref >= 0 {
		fmt.Fprintf(&b, ":%d", ref)
	}
	for _, d := range des {
		b.WriteByte('+')
		b.WriteString(enc(d))
	}
	s := b.String()
	return s + "'"
}

// Plain frames an unencrypted bank message.
func Plain(version int, dialogID string, num int, refMsg int, body string) string {
	end := fmt.Sprintf("HNHBS:99:1+%d'", num)
	head := func(size int) string {
		return fmt.Sprintf("HNHBK:1:3+%012d+%d+%s+%d+%s:%d'", size, version, Esc(dialogID), num, Esc(dialogID), refMsg)
	}
	n := len(head(0)) + len(body) + len(end)
	return head(n) + body + end
}

// Encrypted frames a bank message in the PIN/TAN encryption envelope.
func Encrypted(version int, dialogID string, num int, refMsg int, body string) string {
	var hk string
	if version >= 300 {
		hk = `HNVSK:998:3+PIN:1+998+1+1::0+1:20150713:173634+2:2:13:@8@00000000:5:1+280:10000000:12345:V:0:0+0'`
	} else {
		hk = `HNVSK:998:2+998+1+1::0+1:20150713:173634+2:2:13:@8@00000000:5:1+280:10000000:12345:V:0:0+0'`
	}
	return Plain(version, dialogID, num, refMsg, hk+fmt.Sprintf("HNVSD:999:1+@%d@%s'", len(body), body))
}
