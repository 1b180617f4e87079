package props

import (
	"bufio"
	"fmt"
	"reflect"
	"strings"

	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/transport"
	"github.com/mitch000001/go-hbci/verifmc/bank"
	"github.com/mitch000001/go-hbci/verifmc/engine"
	"github.com/mitch000001/go-hbci/verifmc/wire"
)

// C25: looking into a received message gives exactly the segments it has.

// part is one segment of a received message.
type part struct {
	id       string
	ver, num int
	raw      string
	known    bool // the library has a type for it
	mark     string
}

// partKinds: identifiers of which one begins another, versions the library
// knows and does not know, and segments that contain what looks like others.
func partKinds() []func(num int) part {
	sal := func(ver int, known bool) func(num int) part {
		return func(num int) part {
			mark := fmt.Sprintf("%d", 100+num)
			return part{"HISAL", ver, num, wire.S("HISAL", num, ver, 4, wire.G{mark, "", "280", wBank}, "Giro", "EUR", wire.G{"C", wire.Raw("1,"), "EUR", "20150102"}), known, mark}
		}
	}
	any := func(id string, ver int, known bool, des ...any) func(num int) part {
		return func(num int) part {
			return part{id, ver, num, wire.S(id, num, ver, 4, des...), known, ""}
		}
	}
	return []func(num int) part{
		sal(5, true),
		any("HISALS", 5, false, 1, 1),
		sal(6, true),
		sal(9, false),
		any("HIKAZS", 6, false, 1, 1, wire.G{90, true}),
		any("HIKAZ", 6, true, wire.Bin("a'HISAL:3:5:4+1'\r\n'HIKAZS:4:6+1'")),
		any("HISALSX", 1, false, "HISAL:3"),
		any("HIXYZ", 1, false, "x?'HISAL:3:5?:+", wire.Bin("'HISYN:5:3:4+'")),
		any("HISYN", 3, true, "SYS1"),
		any("HISA", 5, false, "x"),
		any("HIRMS", 2, true, bank.Ack(20, "ok")),
	}
}

// chooseParts chooses up to n segments, the first one at position first.
func chooseParts(c *engine.Ctx, n, first int) (ps []part) {
	kinds := partKinds()
	if w, ok := c.Tag.(*crowd); ok {
		for i := 0; i < w.n; i++ {
			ps = append(ps, kinds[(w.from+i*w.step)%len(kinds)](i+first))
		}
		return
	}
	for i := 0; i < n; i++ {
		k := c.Choose(len(kinds)+1, "segment")
		if k == len(kinds) {
			break
		}
		ps = append(ps, kinds[k](i+first))
	}
	return
}

// askedIDs are the identifiers looked up.
var askedIDs = []string{"HISAL", "HISALS", "HISALSX", "HISA", "HI", "", "HIKAZ", "HIKAZS", "HIXYZ", "HISYN", "HIRMS", "ISAL", "hisal", "HIRMG"}

func rawOf(ps []part, id string) []string {
	var out []string
	for _, p := range ps {
		if p.id == id {
			out = append(out, p.raw)
		}
	}
	return out
}

func byteStrs(bs [][]byte) []string {
	var out []string
	for _, b := range bs {
		out = append(out, string(b))
	}
	return out
}

func typed(ss []segment.Segment) []string {
	var out []string
	for _, s := range ss {
		out = append(out, typedOne(s))
	}
	return out
}

func typedOne(s segment.Segment) string {
	if s == nil || reflect.ValueOf(s).IsNil() {
		return "nothing"
	}
	out := fmt.Sprintf("%s:%d:%d", s.Header().ID.Val(), s.Header().Position.Val(), s.Header().Version.Val())
	if b, ok := s.(segment.AccountBalanceResponse); ok {
		out += " " + b.AccountBalance().Account.AccountID
	}
	return out
}

func knownOf(ps []part, id string) []string {
	var out []string
	for _, p := range ps {
		if p.id == id && p.known {
			s := fmt.Sprintf("%s:%d:%d", p.id, p.num, p.ver)
			if p.mark != "" {
				s += " " + p.mark
			}
			out = append(out, s)
		}
	}
	return out
}

func sameStrs(a, b []string) bool {
	return strings.Join(a, "\x00") == strings.Join(b, "\x00") && len(a) == len(b)
}

func c25(r *engine.Runner) {
	n := r.Pick(3, 4)
	depth := r.Pick(3, 4)
	most := r.Pick(40, 200)
	histories := func(c *engine.Ctx) {
		var ps []part
		var raw string
		for _, p := range chooseParts(c, n, 2) {
			ps = append(ps, p)
			raw += p.raw
		}
		trace := ""
		fail := func(sig, f string, a ...any) { c.Fail(sig, "message %q%s: %s", raw, trace, fmt.Sprintf(f, a...)) }
		p := engine.Guard(func() {
			u := message.NewUnmarshaler([]byte(raw))
			x := message.NewSegmentExtractor([]byte(raw))
			if _, err := x.Extract(); err != nil {
				fail("extract", "extracting: %v", err)
			}
			if err := u.Unmarshal(); err != nil {
				fail("unmarshal", "decoding: %v", err)
			}
			steps := depth
			if c.Tag != nil {
				steps = 1
			}
			for i := 0; i < steps; i++ {
				stop := false
				switch c.Choose(5, "step") {
				case 0:
					stop = true
				case 1:
					trace += ", extracting again"
					got, err := x.Extract()
					if err != nil || !sameStrs(byteStrs(got), rawsOf(ps)) {
						fail("extract-again", "%q, %v", got, err)
					}
					for j := range got {
						got[j] = nil
					}
				case 2:
					trace += ", decoding again"
					if err := u.Unmarshal(); err != nil {
						fail("unmarshal-again", "%v", err)
					}
				case 3:
					q := []part{{id: "HISAL", ver: 5}, {id: "HISAL", ver: 6}, {id: "HIKAZ", ver: 6}, {id: "HISYN", ver: 3}, {id: "HISA", ver: 5}}[c.Choose(5, "which")]
					trace += fmt.Sprintf(", decoding %s:%d", q.id, q.ver)
					got, err := u.UnmarshalSegment(q.id, q.ver)
					want := "nothing"
					for _, p := range ps {
						if p.id == q.id && p.ver == q.ver && p.known {
							want = knownOf([]part{p}, p.id)[0]
							break
						}
					}
					if (err == nil) != (want != "nothing") || err == nil && typedOne(got) != want {
						fail("unmarshal-one", "gives %s, error %v; the message has %s", typedOne(got), err, want)
					}
				case 4:
					trace += ", overwriting the lists"
					for _, l := range [][][]byte{x.Segments(), u.MarshaledSegments()} {
						for j := range l {
							l[j] = []byte("HISAL:9:9'")
						}
					}
				}
				if stop {
					break
				}
			}
			c.State(raw + trace)
			c.Validated()
			if got := byteStrs(x.Segments()); !sameStrs(got, rawsOf(ps)) {
				fail("segments", "the extractor has %q", got)
			}
			if got := byteStrs(u.MarshaledSegments()); !sameStrs(got, rawsOf(ps)) {
				fail("segments", "the decoder has %q", got)
			}
			for _, id := range askedIDs {
				want := rawOf(ps, id)
				one := ""
				if len(want) > 0 {
					one = want[0]
				}
				if got := byteStrs(x.FindSegments(id)); !sameStrs(got, want) {
					fail("find-all", "the segments %q are %q", id, got)
				}
				if got := string(x.FindSegment(id)); got != one {
					fail("find-one", "the segment %q is %q", id, got)
				}
				if got := byteStrs(u.MarshaledSegmentsByID(id)); !sameStrs(got, want) {
					fail("find-all", "the decoder's segments %q are %q", id, got)
				}
				if got := string(u.MarshaledSegmentByID(id)); got != one {
					fail("find-one", "the decoder's segment %q is %q", id, got)
				}
				if got := typed(u.SegmentsByID(id)); !sameStrs(got, knownOf(ps, id)) {
					fail("typed-all", "the decoded segments %q are %q", id, got)
				}
				want = knownOf(ps, id)
				one = "nothing"
				if len(want) > 0 {
					one = want[0]
				}
				if got := typedOne(u.SegmentByID(id)); got != one {
					fail("typed-one", "the decoded segment %q is %s", id, got)
				}
			}
		})
		if p != "" {
			fail("panic", "%s", p)
		}
	}
	r.Explore("histories", fmt.Sprintf("every message of up to %d of 11 kinds of segments - identifiers that begin others, known and unknown versions, content that looks like segments - and every history of up to %d steps of extracting, decoding everything or one segment, and overwriting what was handed out, followed by every lookup of 14 identifiers", n, depth), 0, histories)
	r.Explore("histories of long messages", fmt.Sprintf("the same for messages of every number of segments up to %d and of 99, 100, 256 and 500, of each kind or of all kinds in turn", most), 0, func(c *engine.Ctx) {
		chooseCrowd(c, most, len(partKinds()), 99, 100, 256, 500)
		histories(c)
	})

	messages := func(c *engine.Ctx) {
		var ps []part
		var body string
		for _, p := range chooseParts(c, n, 3) {
			ps = append(ps, p)
			body += p.raw
		}
		plain := wire.Plain(300, "DLG1", 2, 2, body)
		sealed := wire.Encrypted(300, "DLG1", 2, 2, body)
		c.State(body)
		fail := func(sig, f string, a ...any) { c.Fail(sig, "message %q: %s", body, fmt.Sprintf(f, a...)) }
		p := engine.Guard(func() {
			read := func(raw string) *transport.Response {
				req := &transport.Request{URL: "u"}
				res, err := transport.ReadResponse(bufio.NewReaderSize(strings.NewReader(raw), 16), req)
				if err != nil {
					fail("read", "reading %q: %v", raw, err)
				}
				if res.Request != req || string(res.MarshaledResponse) != raw {
					fail("read", "reading %q gives %q", raw, res.MarshaledResponse)
				}
				return res
			}
			pr, sr := read(plain), read(sealed)
			if pr.IsEncrypted() || !sr.IsEncrypted() {
				fail("encrypted", "encrypted: plain answer %v, encrypted answer %v", pr.IsEncrypted(), sr.IsEncrypted())
			}
			for _, id := range askedIDs {
				if got, want := byteStrs(pr.FindSegments(id)), rawOf(ps, id); !sameStrs(got, want) {
					fail("answer", "the answer's segments %q are %q", id, got)
				}
				if got := sr.FindSegment(id); got != nil {
					fail("answer", "the encrypted answer's segment %q is %q", id, got)
				}
			}
			h := &segment.MessageHeaderSegment{}
			if err := h.UnmarshalHBCI(pr.FindSegment("HNHBK")); err != nil {
				fail("header", "%v", err)
			}
			m, err := message.NewDecryptedMessage(h, nil, []byte(body))
			if err != nil {
				fail("decrypted", "%v", err)
			}
			c.Validated()
			for _, id := range askedIDs {
				raws, knowns := rawOf(ps, id), knownOf(ps, id)
				if got := byteStrs(m.FindMarshaledSegments(id)); !sameStrs(got, raws) {
					fail("message", "the message's segments %q are %q", id, got)
				}
				if got := string(m.FindMarshaledSegment(id)); got != strings.Join(raws[:min1(raws)], "") {
					fail("message", "the message's segment %q is %q", id, got)
				}
				if got := typed(m.FindSegments(id)); !sameStrs(got, knowns) {
					fail("message", "the message's decoded segments %q are %q", id, got)
				}
				want := "nothing"
				if len(knowns) > 0 {
					want = knowns[0]
				}
				if got := typedOne(m.FindSegment(id)); got != want {
					fail("message", "the message's decoded segment %q is %s", id, got)
				}
				pos := -1
				for _, p := range ps {
					if p.id == id {
						pos = p.num
						break
					}
				}
				if got := m.SegmentPosition(id); got != pos {
					fail("position", "the segment %q has position %d instead of %d", id, got, pos)
				}
			}
		})
		if p != "" {
			fail("panic", "%s", p)
		}
	}
	r.Explore("messages", fmt.Sprintf("every message of up to %d of 11 kinds of segments, received as a plain and as an encrypted answer: every lookup of 14 identifiers in the answer and in the message", n), 0, messages)
	r.Explore("messages of long messages", fmt.Sprintf("the same for messages of every number of segments up to %d and of 99, 100, 256 and 500, of each kind or of all kinds in turn", most), 0, func(c *engine.Ctx) {
		chooseCrowd(c, most, len(partKinds()), 99, 100, 256, 500)
		messages(c)
	})

	n = r.Pick(3, 4)
	r.Explore("prepared messages", fmt.Sprintf("every message of up to %d of 15 kinds of orders, before and after it is written: every lookup of 11 identifiers", n), 0, func(c *engine.Ctx) {
		segs, ids := chooseJobs(c, n, segment.SupportedHBCIVersions[300], []string{"101"})
		if len(segs) == 0 {
			c.Stop() // not a message
		}
		m := message.NewBasicMessage(message.NewHBCIMessage(segment.SupportedHBCIVersions[300], segs...))
		m.Header = segment.NewMessageHeaderSegment(-1, 300, "DLG1", 1)
		m.End = segment.NewMessageEndSegment(-1, 1)
		fail := func(sig, f string, a ...any) {
			c.Fail("prepared-"+sig, "message of %v: %s", ids, fmt.Sprintf(f, a...))
		}
		c.State(strings.Join(ids, " "))
		p := engine.Guard(func() {
			if c.Bool("written") {
				if _, err := m.MarshalHBCI(); err != nil {
					fail("write", "%v", err)
				}
			}
			for _, id := range []string{"HKSAL", "HKKAZ", "HKPRO", "HKKIF", "HKTAN", "HKKOM", "HKIDN", "HKEND", "HK", "", "HNHBK"} {
				var want []segment.Segment
				for i, s := range segs {
					if strings.Split(ids[i], ":")[0] == id {
						want = append(want, s)
					}
				}
				got := m.FindSegments(id)
				raw := m.FindMarshaledSegments(id)
				if len(got) != len(want) || len(raw) != len(want) {
					fail("all", "it has %d segments %q, handed out are %d and %d", len(want), id, len(got), len(raw))
				}
				for i, s := range want {
					if got[i] != s || string(raw[i]) != s.String() {
						fail("all", "segment %d of those called %q is %q (%q)", i+1, id, got[i], raw[i])
					}
				}
				one, first := m.FindSegment(id), m.FindMarshaledSegment(id)
				if len(want) == 0 && (one != nil || first != nil) {
					fail("one", "it has no %q, handed out is %v (%q)", id, one, first)
				}
				if len(want) > 0 && (one != want[0] || string(first) != want[0].String()) {
					fail("one", "the first %q is %v (%q)", id, one, first)
				}
			}
			c.Validated()
		})
		if p != "" {
			fail("panic", "%s", p)
		}
	})
}

func min1(l []string) int {
	if len(l) > 0 {
		return 1
	}
	return 0
}

func rawsOf(ps []part) []string {
	var out []string
	for _, p := range ps {
		out = append(out, p.raw)
	}
	return out
}

func init() { engine.Register("C25", c25) }
