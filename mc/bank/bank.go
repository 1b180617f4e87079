// Package bank is the environment of the client under test: a scripted bank
// that the explorer drives. It speaks the PIN/TAN transport encoding and
// answers every request with whatever the exploration decides.
package bank

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"strings"

	"github.com/mitch000001/go-hbci/transport"
	"github.com/mitch000001/go-hbci/verifmc/wire"
)

// Reply is one answer of the bank.
type Reply struct {
	Err     error  // transport error instead of an answer
	Text    string // HBCI text; base64 coded before it is handed over
	Body    []byte // when not nil, the transport body itself
	BodyErr error  // error after the body was read
	Note    string
}

// Exchange is one request and its answer.
type Exchange struct {
	URL   string
	Raw   string
	Msg   *wire.Message
	Err   error
	Kind  string
	Reply Reply
}

// Bank implements transport.Transport.
type Bank struct {
	Answer func(x *Exchange, n int) Reply
	Log    []*Exchange
	// Gate, when set, is called before each answer (scheduling point).
	Gate func(x *Exchange)
}

type failingReader struct {
	r   io.Reader
	err error
}

func (f *failingReader) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = f.err
	}
	return n, err
}

// Kind classifies a request.
func Kind(m *wire.Message) string {
	switch {
	case m.Find("HKSYN") != nil:
		return "sync"
	case m.Find("HKEND") != nil:
		return "end"
	case m.Find("HKIDN") != nil && m.Find("HKVVB") != nil:
		return "init"
	}
	return "order"
}

// Do answers a request.
func (b *Bank) Do(req *transport.Request) (*transport.Response, error) {
	x := &Exchange{URL: req.URL}
	body, err := io.ReadAll(req.Body)
	if err != nil {
		x.Err = fmt.Errorf("request body: %v", err)
	} else if dec, err := base64.StdEncoding.DecodeString(string(body)); err != nil {
		x.Err = fmt.Errorf("request is not base64: %v", err)
		x.Raw = string(body)
	} else {
		x.Raw = string(dec)
		x.Msg, x.Err = wire.ParseMessage(x.Raw)
	}
	if x.Err == nil {
		x.Kind = Kind(x.Msg)
	} else {
		x.Kind = "unparseable"
	}
	n := len(b.Log)
	b.Log = append(b.Log, x)
	if b.Gate != nil {
		b.Gate(x)
	}
	r := b.Answer(x, n)
	x.Reply = r
	if r.Err != nil {
		return nil, r.Err
	}
	var out []byte
	if r.Body != nil {
		out = r.Body
	} else {
		out = []byte(base64.StdEncoding.EncodeToString([]byte(r.Text)))
	}
	var rd io.Reader = bytes.NewReader(out)
	if r.BodyErr != nil {
		rd = &failingReader{rd, r.BodyErr}
	}
	return &transport.Response{Request: req, Body: io.NopCloser(rd)}, nil
}

// ---- content of answers ------------------------------------------------------

// RMG is a message acknowledgement segment.
func RMG(acks ...wire.G) string {
	var des []any
	for _, a := range acks {
		des = append(des, a)
	}
	return wire.S("HIRMG", 2, 2, -1, des...)
}

// RMS is a segment acknowledgement segment.
func RMS(ref int, acks ...wire.G) string {
	var des []any
	for _, a := range acks {
		des = append(des, a)
	}
	return wire.S("HIRMS", 3, 2, ref, des...)
}

// Ack is one acknowledgement.
func Ack(code int, text string, params ...string) wire.G {
	g := wire.G{wire.Raw(fmt.Sprintf("%04d", code)), "", text}
	for _, p := range params {
		g = append(g, p)
	}
	return g
}

// OK is the usual positive message acknowledgement.
func OK() string { return RMG(Ack(10, "Nachricht entgegengenommen")) }

// BPA delivers bank parameters.
func BPA(version int, bpd int, name string) string {
	if version >= 300 {
		return wire.S("HIBPA", 4, 3, 3, bpd, wire.G{"280", "10000000"}, name, 3+bpd%7, 1, wire.G{220, 300}, bpd*10)
	}
	return wire.S("HIBPA", 4, 2, 3, bpd, wire.G{"280", "10000000"}, name, 3+bpd%7, 1, wire.G{201, 210, 220}, bpd*10)
}

// UPA delivers user parameters.
func UPA(version int, upd int, user string) string {
	if version >= 300 {
		return wire.S("HIUPA", 5, 4, 3, user, upd, 0)
	}
	return wire.S("HIUPA", 5, 2, 3, user, upd, 0)
}

// UPD delivers an account.
func UPD(version int, user, account string) string {
	conn := wire.G{account, "", "280", "10000000"}
	if version >= 300 {
		return wire.S("HIUPD", 6, 6, 3, conn, "DE00"+account, user, 1, "EUR", "Muster", "Max", nil, nil, wire.G{"HKSAL", 1})
	}
	return wire.S("HIUPD", 6, 4, 3, conn, user, "EUR", "Muster", "Max", nil, nil, wire.G{"HKSAL", 1})
}

// SYN assigns a client system ID.
func SYN(version int, id string) string {
	if version >= 300 {
		return wire.S("HISYN", 7, 4, 5, id)
	}
	return wire.S("HISYN", 7, 3, 5, id)
}

// Param announces a supported segment version, such as HISALS 6.
func Param(id string, ver int) string { return wire.S(id, 8, ver, 3, 1, 1, 0) }

// TANS announces two-step security functions.
func TANS(fns ...string) string {
	g := wire.G{"N", "N", "0"}
	for _, f := range fns {
		g = append(g, f, "2", "TECH"+f, "", "", "proc "+f, 6, "1", "TAN", 3, "J", "1", "N", "0", "0", "N", "N", "00", "0", "N", 1)
	}
	return wire.S("HITANS", 9, 6, 3, 1, 1, "0", g)
}

// PINS announces PIN/TAN parameters.
func PINS(pairs ...string) string {
	g := wire.G{5, 20, 6, "USERID", "CUSTID"}
	for _, p := range pairs {
		g = append(g, p)
	}
	return wire.S("HIPINS", 10, 1, 3, 1, 1, 0, g)
}

// Msg frames an answer to request m in the envelope the request used.
func Msg(m *wire.Message, version int, dialogID string, body ...string) string {
	b := strings.Join(body, "")
	if m.Encrypted {
		return wire.Encrypted(version, dialogID, m.Number, m.Number, b)
	}
	return wire.Plain(version, dialogID, m.Number, m.Number, b)
}
