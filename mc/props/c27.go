package props

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verifmc/bank"
	"github.com/mitch000001/go-hbci/verifmc/engine"
	"github.com/mitch000001/go-hbci/verifmc/wire"
)

// C27: acknowledgements are handed out complete, classified and with what
// they refer to.

// ack27 is an acknowledgement as the bank sent it.
type ack27 struct {
	code   int
	pos    string
	text   string
	params []string
	seg    bool
	ref    int
}

func (a ack27) group() wire.G {
	g := wire.G{fmt.Sprintf("%04d", a.code), a.pos, a.text}
	for _, p := range a.params {
		g = append(g, p)
	}
	return g
}

// receive makes a received message of a body.
func receive(c *engine.Ctx, version int, dlg string, num int, ref bool, body string) message.BankMessage {
	raw := wire.Plain(version, dlg, num, num, "")
	head := raw[:strings.Index(raw, "'")+1]
	if !ref {
		head = wire.S("HNHBK", 1, 3, -1, "000000000100", version, dlg, num)
	}
	h := &segment.MessageHeaderSegment{}
	if err := h.UnmarshalHBCI([]byte(head)); err != nil {
		c.Fail("header", "reading %q: %v", head, err)
	}
	m, err := message.NewDecryptedMessage(h, nil, []byte(body))
	if err != nil {
		c.Fail("read", "reading %q: %v", body, err)
	}
	c.Between()
	return m
}

// judgeAcks compares what is handed out with what was sent.
func judgeAcks(c *engine.Ctx, got []domain.Acknowledgement, want []ack27, dlg string, num int, body string) {
	if len(got) != len(want) {
		c.Fail("count", "%q has %d acknowledgements, handed out are %v", body, len(want), got)
	}
	for i, w := range want {
		g := got[i]
		typ := domain.MessageAcknowledgement
		if w.seg {
			typ = domain.SegmentAcknowledgement
		}
		if g.Type != typ || g.IsSegmentAcknowledgement() != w.seg || g.IsMessageAcknowledgement() == w.seg {
			c.Fail("type", "%q: acknowledgement %d is a %q", body, i+1, g.Type)
		}
		if g.Code != w.code || g.Text != w.text || g.ReferenceDataElement != w.pos || strings.Join(g.Params, "\x00") != strings.Join(w.params, "\x00") || len(g.Params) != len(w.params) {
			c.Fail("content", "%q: acknowledgement %d is %+v", body, i+1, g)
		}
		if g.ReferencingMessage.DialogID != dlg || g.ReferencingMessage.MessageNumber != num {
			c.Fail("message", "%q: acknowledgement %d refers to message %d of dialog %q instead of %d of %q", body, i+1, g.ReferencingMessage.MessageNumber, g.ReferencingMessage.DialogID, num, dlg)
		}
		// without a reference any number that is none
		if g.ReferencingSegmentNumber != w.ref && !(w.ref <= 0 && g.ReferencingSegmentNumber <= 0) {
			c.Fail("segment", "%q: acknowledgement %d refers to segment %d instead of %d", body, i+1, g.ReferencingSegmentNumber, w.ref)
		}
		class := ""
		if g.IsSuccess() {
			class += "success "
		}
		if g.IsWarning() {
			class += "warning "
		}
		if g.IsError() {
			class += "error "
		}
		wantClass := map[int]string{0: "success ", 3: "warning ", 9: "error "}[w.code/1000]
		if w.code == 0 {
			wantClass = class // no such code
		}
		if class != wantClass {
			c.Fail("class", "code %04d is a %q", w.code, class)
		}
		s := g.String()
		need := []string{strconv.Itoa(w.code), w.text, w.pos, strconv.Itoa(num), dlg}
		need = append(need, w.params...)
		if w.ref > 0 {
			need = append(need, fmt.Sprintf("segment %d", w.ref))
		}
		for _, n := range need {
			if !strings.Contains(s, n) && !strings.Contains(s, strings.Trim(strconv.Quote(n), `"`)) {
				c.Fail("shown", "%q does not show %q", s, n)
			}
		}
	}
}

func c27(r *engine.Runner) {
	r.ExploreBetween("codes", "every code from 0000 to 9999, for the message and for a segment, alone and after a success", 0, func(c *engine.Ctx) {
		a := ack27{code: c.Choose(10000, "code"), text: "Text", ref: -1}
		if a.seg = c.Bool("segment"); a.seg {
			a.ref = 4
		}
		version := engine.Of(c, "protocol", 220, 300)
		want := []ack27{a}
		var body string
		switch {
		case c.Bool("after a success"):
			ok := ack27{code: 20, text: "ok", seg: a.seg, ref: a.ref}
			want = []ack27{ok, a}
			if a.seg {
				body = wire.S("HIRMS", 2, 2, 4, ok.group(), a.group())
			} else {
				body = wire.S("HIRMG", 2, 2, -1, ok.group(), a.group())
			}
		case a.seg:
			body = wire.S("HIRMS", 2, 2, 4, a.group())
		default:
			body = wire.S("HIRMG", 2, 2, -1, a.group())
		}
		c.State(body)
		if p := engine.Guard(func() {
			m := receive(c, version, "DLG1", 2, true, body)
			c.Validated()
			judgeAcks(c, m.Acknowledgements(), want, "DLG1", 2, body)
		}); p != "" {
			c.Fail("panic", "%q: %s", body, p)
		}
	})

	n := r.Pick(2, 3)
	r.ExploreBetween("answers", fmt.Sprintf("every answer with up to %d acknowledgement segments of 6 kinds - for the message or for one of several segments, with one to three codes - between other segments, with and without a reference to the request; at most 2 unusual texts, parameters and positions", n), 2, func(c *engine.Ctx) {
		version := engine.Of(c, "protocol", 220, 300)
		dlg := []string{"DLG1", "0", "a+b:c", strings.Repeat("d", 30)}[c.Dev(4, "dialog")]
		num := []int{1, 2, 10, 9999}[c.Dev(4, "number")]
		ref := c.Dev(2, "without reference to the request") == 0
		var mine, theirs []ack27
		body := ""
		mk := func(seg bool, ref int) ack27 {
			a := ack27{code: []int{20, 10, 3040, 9010, 3920, 9999}[c.Dev(6, "code")], seg: seg, ref: ref}
			a.text = []string{"Auftrag ausgefuehrt", "", "a+b:c'd?e@f", "@3@x", "\u00c4\u00df", strings.Repeat("t", 80), "x??"}[c.Dev(7, "text")]
			a.pos = []string{"", "3,2", "7", "1:2"}[c.Dev(4, "position")]
			a.params = [][]string{nil, {"1"}, {"a+b", "c:d", "e'f"}, {"910", "911", "912", "913", "914", "915", "916", "917", "918", "919"}, {"", "x"}}[c.Dev(5, "parameters")]
			return a
		}
		for i := 0; i < n; i++ {
			k := c.Choose(7, "segment")
			if k == 0 {
				break
			}
			seg := k <= 4
			sref := []int{0, 3, 4, 997, -1, -1, -1}[k]
			if k == 4 {
				sref = 2
			}
			cnt := 1
			if k == 2 || k == 6 {
				cnt = 3
			}
			var des []any
			var as []ack27
			for j := 0; j < cnt; j++ {
				a := mk(seg, sref)
				as = append(as, a)
				des = append(des, a.group())
			}
			if seg {
				body += wire.S("HIRMS", i+2, 2, sref, des...)
				theirs = append(theirs, as...)
			} else {
				body += wire.S("HIRMG", i+2, 2, -1, des...)
				mine = append(mine, as...)
			}
			if c.Dev(2, "another segment follows") == 1 {
				body += bank.Param("HISALS", 5)
			}
		}
		c.State(fmt.Sprint(version, dlg, num, ref, body))
		if p := engine.Guard(func() {
			m := receive(c, version, dlg, num, ref, latinBody(body))
			c.Validated()
			want := append(append([]ack27(nil), mine...), theirs...)
			wd, wn := dlg, num
			if !ref {
				wd, wn = "", 0
			}
			judgeAcks(c, m.Acknowledgements(), want, wd, wn, body)
			// asking again gives the same
			judgeAcks(c, m.Acknowledgements(), want, wd, wn, body)
		}); p != "" {
			c.Fail("panic", "%q: %s", body, p)
		}
	})
	many := r.Pick(150, 1100)
	r.Explore("counts", fmt.Sprintf("every number of acknowledgements of a segment and of segments up to %d, every number of parameters up to ten, every length of a text and of a parameter up to 120, every referenced segment up to 999, every message number up to 9999", many), 0, func(c *engine.Ctx) {
		version := engine.Of(c, "protocol", 220, 300)
		num, ref := 2, 4
		var mine, theirs []ack27
		body := ""
		one := func(seg bool, i int) ack27 {
			a := ack27{code: []int{20, 3060, 9010, 10}[i%4], text: fmt.Sprintf("Text %d", i), pos: strconv.Itoa(i % 1000), ref: -1, seg: seg}
			if seg {
				a.ref = ref
			}
			return a
		}
		put := func(seg bool, as ...ack27) {
			var des []any
			for _, a := range as {
				des = append(des, a.group())
			}
			if seg {
				body += wire.S("HIRMS", 3, 2, as[0].ref, des...)
				theirs = append(theirs, as...)
			} else {
				body += wire.S("HIRMG", 2, 2, -1, des...)
				mine = append(mine, as...)
			}
		}
		switch seg := c.Bool("for segments"); engine.Of(c, "what", "acknowledgements", "segments", "parameters", "text", "parameter", "segment", "message") {
		case "acknowledgements":
			var as []ack27
			for i, n := 0, 1+c.Choose(many, "count"); i < n; i++ {
				as = append(as, one(seg, i))
			}
			put(seg, as...)
		case "segments":
			for i, n := 0, 1+c.Choose(many, "count"); i < n; i++ {
				ref = 2 + i
				put(seg, one(seg, i))
			}
		case "parameters":
			a := one(seg, 0)
			for i, n := 0, c.Choose(11, "count"); i < n; i++ {
				a.params = append(a.params, fmt.Sprintf("P%d", i))
			}
			put(seg, a, one(seg, 1))
		case "text":
			a := one(seg, 0)
			a.text = strings.Repeat("x", c.Choose(121, "length"))
			put(seg, a, one(seg, 1))
		case "parameter":
			a := one(seg, 0)
			a.params = []string{strings.Repeat("x", 1+c.Choose(120, "length")), "y"}
			put(seg, a, one(seg, 1))
		case "segment":
			ref = 1 + c.Choose(999, "number")
			put(true, one(true, 0))
		case "message":
			num = 1 + c.Choose(9999, "number")
			put(seg, one(seg, 0))
		}
		c.State(fmt.Sprint(version, num, body))
		if p := engine.Guard(func() {
			m := receive(c, version, "DLG1", num, true, body)
			c.Validated()
			judgeAcks(c, m.Acknowledgements(), append(append([]ack27(nil), mine...), theirs...), "DLG1", num, body)
		}); p != "" {
			c.Fail("panic", "%q: %s", body, p)
		}
	})
	sn := r.Pick(2, 3)
	r.Explore("status protocol", fmt.Sprintf("every status protocol of up to %d entries, with and without references to a message and a segment, asked for through the client; at most %d unusual codes, texts, positions, parameters, dates and times", sn, sn-1), sn-1, func(c *engine.Ctx) {
		k := 1 + c.Choose(sn, "entries")
		var want []status27
		for i := 0; i < k; i++ {
			e := status27{day: "20150102", clk: "101112"}
			e.code = []int{20, 1, 999, 3040, 9010, 9999, 4711}[c.Dev(7, "code")]
			e.text = []string{"Auftrag ausgefuehrt", "", "a+b:c'd?e@f", "@3@x", "100 %d %s", strings.Repeat("t", 80)}[c.Dev(6, "text")]
			e.pos = []string{"", "3,2", "7"}[c.Dev(3, "position")]
			e.params = [][]string{nil, {"1"}, {"a+b", "c:d", "e'f"}, {"910", "911", "912", "913", "914", "915", "916", "917", "918", "919"}}[c.Dev(4, "parameters")]
			e.day = []string{"20150102", "20151231", "20160229", "19991231"}[c.Dev(4, "day")]
			e.clk = []string{"101112", "000000", "235959", "000001"}[c.Dev(4, "time")]
			switch c.Choose(3, "reference") {
			case 0:
				e.dlg, e.num, e.ref, e.seg = "D1", 2, 3, true
			case 1:
				e.dlg, e.num, e.ref, e.seg = "a+b:c", 9999, 12, true
			}
			want = append(want, e)
		}
		status(c, engine.Of(c, "protocol", 220, 300), engine.Of(c, "version", cops()[4].impl...), want)
	})
	r.Explore("status, every value", "a status protocol of version 4 in FinTS 3.0 in which one thing takes every value, asked for through the client: the code of an entry from 1 to 9999, its text of 1 to 80 characters, the day of four years, every minute of a day, the segment referred to from 1 to 999, the message from 1 to 9999, 1 to 10 parameters, 1 to 40 entries", 0, func(c *engine.Ctx) {
		e := status27{day: "20150102", clk: "101112", ack27: ack27{code: 20, text: "ok", ref: 3, seg: true}, dlg: "D1", num: 2}
		switch engine.Of(c, "what", "code", "text", "day", "time", "segment", "message", "parameters", "entries") {
		case "code":
			e.code = 1 + c.Choose(9999, "code")
		case "text":
			e.text = strings.Repeat("x", 1+c.Choose(80, "length"))
		case "day":
			e.day = time.Date(2015, 1, 1+c.Choose(4*365+1, "day"), 0, 0, 0, 0, time.UTC).Format("20060102")
		case "time":
			m := c.Choose(24*60, "minute")
			e.clk = fmt.Sprintf("%02d%02d%02d", m/60, m%60, m%60)
		case "segment":
			e.ref = 1 + c.Choose(999, "number")
		case "message":
			e.num = 1 + c.Choose(9999, "number")
		case "parameters":
			for i, n := 0, 1+c.Choose(10, "number"); i < n; i++ {
				e.params = append(e.params, strconv.Itoa(900+i))
			}
		case "entries":
			var want []status27
			for i, n := 0, 1+c.Choose(40, "number"); i < n; i++ {
				f := e
				f.text = fmt.Sprintf("entry %d", i)
				f.num = i + 1
				want = append(want, f)
			}
			status(c, 300, 4, want)
			return
		}
		o := e
		o.text, o.ref, o.code = "other", 7, 3040
		status(c, 300, 4, []status27{e, o})
	})
}

// status27 is an entry of a status protocol.
type status27 struct {
	ack27
	dlg      string
	num      int
	day, clk string
}

// status asks a bank that has these entries for its status protocol, and judges
// what the client hands out.
func status(c *engine.Ctx, version, ver int, want []status27) {
	op := cops()[4]
	var segs []string
	for i, e := range want {
		var ref, seg any
		if e.seg {
			ref, seg = wire.G{e.dlg, e.num}, e.ref
		}
		segs = append(segs, wire.S("HIPRO", 4+i, ver, 4, ref, seg, e.day, e.clk, e.group()))
	}
	w := newClientWorld(c, version, []string{bank.Param(op.param, ver)})
	w.onOrder = func(m *wire.Message, n int) ([]string, *bank.Reply) {
		return append([]string{bank.OK(), bank.RMS(4, bank.Ack(20, "ok"))}, segs...), nil
	}
	a := usualArgs()
	var got []domain.StatusAcknowledgement
	var err error
	if p := engine.Guard(func() { got, err = w.cl.Status(a.from, a.to, a.max, "") }); p != "" {
		c.Fail("status-panic", "%q: %s", segs, p)
	}
	c.State(fmt.Sprint(version, segs))
	c.Validated()
	c.Logf("%v %v", got, err)
	if err != nil || len(got) != len(want) {
		c.Fail("status-count", "%q: %d entries %v, error %v", segs, len(got), got, err)
	}
	for i, e := range want {
		g := got[i]
		if g.Code != e.code || g.Text != e.text || g.ReferenceDataElement != e.pos || strings.Join(g.Params, "\x00") != strings.Join(e.params, "\x00") || len(g.Params) != len(e.params) || g.IsSegmentAcknowledgement() != e.seg || g.IsMessageAcknowledgement() == e.seg {
			c.Fail("status-content", "%q: entry %d is %+v", segs, i+1, g)
		}
		if g.ReferencingMessage.DialogID != e.dlg || g.ReferencingMessage.MessageNumber != e.num || g.ReferencingSegmentNumber != e.ref && !(e.ref <= 0 && g.ReferencingSegmentNumber <= 0) {
			c.Fail("status-reference", "%q: entry %d refers to %+v, segment %d", segs, i+1, g.ReferencingMessage, g.ReferencingSegmentNumber)
		}
		if g.TransmittedAt.Format("20060102150405") != e.day+e.clk {
			c.Fail("status-time", "%q: entry %d was transmitted at %v", segs, i+1, g.TransmittedAt)
		}
		s := g.String()
		need := []string{strconv.Itoa(e.code), e.text, e.pos, e.dlg, e.day[:4] + "-" + e.day[4:6] + "-" + e.day[6:], e.clk[:2] + ":" + e.clk[2:4] + ":" + e.clk[4:]}
		if e.seg {
			need = append(need, fmt.Sprintf("segment %d", e.ref), fmt.Sprintf("message %d", e.num))
		}
		for _, n := range append(need, e.params...) {
			if !strings.Contains(s, n) && !strings.Contains(s, strings.Trim(strconv.Quote(n), `"`)) {
				c.Fail("status-shown", "%q does not show %q", s, n)
			}
		}
	}
}

func latinBody(s string) string {
	l, _ := toLatin(s)
	return l
}

func init() { engine.Register("C27", c27) }
